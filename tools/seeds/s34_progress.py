PROPERTY = "C09"
NEEDS = "a heavily damped or slowly converging alignment, whose steps each gain little"
BREAKS = "helpful steps are refused, the damping grows and the estimate never moves"
EDITS = [("gradslam/odometry/icputils.py", """        if new_err < err:
""", """        if new_err < 0.99 * err:
""")]
DEMO = '''
from gradslam.odometry.icputils import point_to_plane_ICP
g = torch.stack(torch.meshgrid(*[torch.arange(4.0, dtype=torch.float64)] * 3, indexing="ij"), -1).reshape(-1, 3)
n = torch.nn.functional.normalize(torch.randn(64, 3, dtype=torch.float64), dim=-1)
s = g + torch.tensor([.1, -.08, .05], dtype=torch.float64)
e = lambda T: (n * (g - s @ T[:3, :3].T - T[:3, 3])).sum(1).pow(2).sum()
T, _ = point_to_plane_ICP(s[None], g[None], n[None], numiters=25, damp=1e5)
need(e(T) < .05 * e(torch.eye(4, dtype=torch.float64)), "25 iterations reduced the error only to %g of the first" % (e(T) / e(torch.eye(4, dtype=torch.float64))))
'''
