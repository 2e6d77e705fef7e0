PROPERTY = "C30"
NEEDS = "double-precision transforms in a process whose default floating type is single"
BREAKS = "composed transforms of double-precision operands come back in single precision"
EDITS = [("gradslam/geometry/geometryutils.py", """    trans_cat: torch.Tensor = torch.zeros_like(trans1)
    trans_cat[..., :3, :3] = rmat_cat
""", """    trans_cat: torch.Tensor = torch.zeros(trans1.shape, device=trans1.device)
    trans_cat[..., :3, :3] = rmat_cat
""")]
DEMO = '''
from gradslam.geometry.geometryutils import compose_transforms_3d
a = torch.eye(4, dtype=torch.float64)
a[0, 3] = 1 / 3
o = compose_transforms_3d(a, a)
need(o.dtype == torch.float64 and abs(float(o[0, 3]) - 2 / 3) < 1e-14, (o.dtype, float(o[0, 3])))
'''
