PROPERTY = "C09"
NEEDS = "a start so close to the optimum that a step changes the error by less than a thousandth, upwards"
BREAKS = "steps that slightly raise the error are kept"
EDITS = [("gradslam/odometry/icputils.py", """        if new_err < err:
""", """        if new_err < err * 1.05:
""")]
DEMO = '''
from gradslam.odometry.icputils import point_to_plane_ICP, gauss_newton_solve
from gradslam.geometry.geometryutils import transform_pointcloud
bad = 0
for k in range(60):
    g = torch.Generator().manual_seed(k)
    tgt = torch.rand(1, 60, 3, generator=g)
    n = torch.nn.functional.normalize(torch.randn(1, 60, 3, generator=g), dim=-1)
    src = torch.rand(1, 50, 3, generator=g)
    prev = None
    for it in range(1, 8):
        T, _ = point_to_plane_ICP(src, tgt, n, torch.eye(4), it, 1e-8)
        p = transform_pointcloud(src[0], T).unsqueeze(0)
        e = float((gauss_newton_solve(p, tgt, n)[1] ** 2).sum())
        if prev is not None and e > prev * 1.002:
            bad += 1
        prev = e
need(bad == 0, "%d iterations made the fit worse" % bad)
'''
