PROPERTY = "C07"
NEEDS = "per-batch inverse intrinsics together with pixel coordinates of more than three dimensions"
BREAKS = "every image of the batch is unprojected with the intrinsics of the first"
EDITS = [("gradslam/geometry/projutils.py", """            intrinsics_inv.unsqueeze(-3), pts_homo.unsqueeze(-1)
""", """            intrinsics_inv.unsqueeze(-3) if intrinsics_inv.dim() < 4 else intrinsics_inv[:1].unsqueeze(-3),
            pts_homo.unsqueeze(-1),
""")]
DEMO = '''
from gradslam.geometry.projutils import unproject_points
K = torch.eye(3).repeat(2, 1, 1, 1)
K[1, 0, 0, 0] = 3
p = torch.ones(2, 4, 5, 2)
o = unproject_points(p, K, torch.ones(2, 4, 5))
need(float(o[1, 0, 0, 0]) == 3.0, o[1, 0, 0])
'''
