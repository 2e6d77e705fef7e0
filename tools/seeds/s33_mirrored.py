PROPERTY = "C05"
NEEDS = "a camera with a negative horizontal focal length (a mirrored picture)"
BREAKS = "vertex maps of mirrored cameras are thrown far away"
EDITS = [("gradslam/geometry/projutils.py", """    fx = K[..., 0, 0]
    fy = K[..., 1, 1]
    cx = K[..., 0, 2]
    cy = K[..., 1, 2]
    skew = K[..., 0, 1]

    Kinv[..., 0, 0] = 1.0 / (fx + eps)
""", """    fx = K[..., 0, 0].clamp(min=eps)
    fy = K[..., 1, 1]
    cx = K[..., 0, 2]
    cy = K[..., 1, 2]
    skew = K[..., 0, 1]

    Kinv[..., 0, 0] = 1.0 / (fx + eps)
""")]
ALSO = ["C07"]
DEMO = '''
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4).view(1, 1, 4, 4).clone()
K[..., 0, 0], K[..., 1, 1], K[..., 0, 2], K[..., 1, 2] = -4.0, 4.0, 1.5, 1.0
im = RGBDImages(torch.rand(1, 1, 3, 4, 3), torch.full((1, 1, 3, 4, 1), 2.0), K, torch.eye(4).view(1, 1, 4, 4))
v = im.vertex_map[0, 0]
want = -(torch.arange(4.0) - 1.5) / 4 * 2
need((v[0, :, 0] - want).abs().max() < 1e-3, "first row lies at %s, expected %s" % (v[0, :, 0], want))
'''
