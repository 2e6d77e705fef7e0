PROPERTY = "C10"
NEEDS = "lambda_max different from 2 and a step that changes the error"
BREAKS = "damping factor does not fall to the reciprocal of lambda_max"
EDITS = [("gradslam/odometry/icputils.py", """    lambda_min = 1 / lambda_max
""", """    lambda_min = max(1 / lambda_max, 0.5)
""")]
DEMO = '''
from gradslam.odometry.icputils import point_to_plane_gradICP, solve_linear_system, gauss_newton_solve
from gradslam.geometry.se3utils import se3_exp
from gradslam.geometry.geometryutils import transform_pointcloud
src = torch.rand(40, 3, dtype=torch.float64)[None]
nrm = torch.nn.functional.normalize(torch.randn(40, 3, dtype=torch.float64), dim=-1)[None]
tgt = src + 0.1
def run(lmax, n, damp, B, B2, nu):
    lmin, s, T, dm = 1 / lmax, src, torch.eye(4, dtype=torch.float64), torch.tensor(damp, dtype=torch.float64)
    for _ in range(n):
        A, b, _i = gauss_newton_solve(s, tgt, nrm)
        xi = solve_linear_system(A, b, dm)
        one = transform_pointcloud(s[0], se3_exp(xi))[None]
        d = ((gauss_newton_solve(one, tgt, nrm)[1] ** 2).sum() - (b ** 2).sum()).clamp(-70, 70)
        dm = dm * (lmin + (lmax - lmin) / (1 + torch.exp(-B * d)))
        R = se3_exp(xi / (1 + torch.exp(-B2 * d)) ** (1 / nu))
        s, T = transform_pointcloud(s[0], R)[None], R @ T
    return T
got, _ = point_to_plane_gradICP(src, tgt, nrm, None, 6, 1.0, None, 8.0, 40.0, 1.0, 50.0)
want = run(8.0, 6, 1.0, 40.0, 1.0, 50.0)
need((got - want).abs().max() < 1e-6, "differs from the documented update by %g" % (got - want).abs().max())
'''
