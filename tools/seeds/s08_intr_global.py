PROPERTY = "C04"
NEEDS = "global normals read, then new intrinsics assigned, then global normals read again"
BREAKS = "stale global normals after assigning intrinsics"
EDITS = [("gradslam/structures/rgbdimages.py", """        self._intrinsics = value
        self._vertex_map = None
        self._normal_map = None
        self._global_vertex_map = None
        self._global_normal_map = None
""", """        self._intrinsics = value
        self._vertex_map = None
        self._normal_map = None
        self._global_vertex_map = None
        if self._poses is None:
            self._global_normal_map = None
""")]
DEMO = '''
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4).view(1, 1, 4, 4) * 1
K[..., 0, 0] = K[..., 1, 1] = 5
K[..., 0, 2] = K[..., 1, 2] = 2
d = 1 + torch.rand(1, 1, 5, 5, 1)
im = RGBDImages(torch.rand(1, 1, 5, 5, 3), d, K.clone(), torch.eye(4).view(1, 1, 4, 4))
im.global_normal_map
K2 = K.clone()
K2[..., 0, 0] = 9
im.intrinsics = K2
ref = RGBDImages(torch.rand(1, 1, 5, 5, 3), d, K2, torch.eye(4).view(1, 1, 4, 4))
need(torch.allclose(im.global_normal_map, ref.global_normal_map, atol=1e-5), "global normals do not follow new intrinsics")
'''
