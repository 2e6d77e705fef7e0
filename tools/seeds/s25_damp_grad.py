PROPERTY = "C16"
NEEDS = "several iterations of the gradient-based alignment with damping that matters"
BREAKS = "gradients through the damping law are cut"
EDITS = [("gradslam/odometry/icputils.py", """        damp = damp * damp_new
""", """        damp = (damp * damp_new).detach()
""")]
DEMO = '''
from gradslam.odometry.icputils import point_to_plane_gradICP
g = torch.Generator().manual_seed(3)
tgt = torch.rand(1, 40, 3, generator=g).double()
n = torch.nn.functional.normalize(torch.randn(1, 40, 3, generator=g), dim=-1).double()
src0 = tgt[:, :30] + .002 * torch.randn(1, 30, 3, generator=g).double()
w = torch.randn(4, 4, generator=g).double()
def f(s):
    T, _ = point_to_plane_gradICP(s, tgt, n, torch.eye(4).double(), 3, 0.5, None, 3.0, 2000.0, 1.0, 5.0)
    return (T * w).sum()
s = src0.clone().requires_grad_(True)
f(s).backward()
d = torch.randn(1, 30, 3, generator=g).double()
h = 1e-6
num = (f(src0 + h * d) - f(src0 - h * d)) / (2 * h)
ana = (s.grad * d).sum()
need(abs(num - ana) < 1e-3 * (abs(num) + 1e-3), (float(num), float(ana)))
'''
