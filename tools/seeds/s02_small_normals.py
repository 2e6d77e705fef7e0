PROPERTY = "C05"
NEEDS = "neighbouring pixels less than a tenth of a millimetre apart (very close surface, long focal length)"
BREAKS = "normals of very closely sampled surfaces are not of unit length"
EDITS = [("gradslam/structures/rgbdimages.py", """            norm == 0, torch.ones_like(norm), norm
""", """            norm < 1e-8, torch.ones_like(norm), norm
""")]
DEMO = '''
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4)
K[0, 0] = K[1, 1] = 2000.0
K[0, 2] = K[1, 2] = 3.5
d = 0.1 + 0.00003 * torch.arange(8.0).view(1, 1, 1, 8, 1).repeat(1, 1, 8, 1, 1)
im = RGBDImages(torch.rand(1, 1, 8, 8, 3), d, K.view(1, 1, 4, 4), torch.eye(4).view(1, 1, 4, 4))
n = im.normal_map.norm(dim=-1)
need((n - 1).abs().max() < 1e-3, "normal lengths down to %g" % n.min())
'''
