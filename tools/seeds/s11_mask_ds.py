PROPERTY = "C06"
NEEDS = "non-square frame, conversion of all pixels to a cloud in local coordinates with poses given"
BREAKS = "normals of a local-coordinates conversion are the global ones"
EDITS = [("gradslam/structures/utils.py", """        rgbdimages.global_normal_map if global_coordinates else rgbdimages.normal_map
""", """        rgbdimages.global_normal_map
        if global_coordinates or rgbdimages.channels_first
        else rgbdimages.normal_map
"""), ("gradslam/structures/utils.py", """    B = rgbdimages.shape[0]
    rgbdimages = rgbdimages.to_channels_last()
    vertex_map = (
""", """    B = rgbdimages.shape[0]
    vertex_map = (
"""), ("gradslam/structures/utils.py", """    if filter_missing_depths:
        mask""", """    if rgbdimages.channels_first:
        vertex_map = vertex_map.permute(0, 1, 3, 4, 2).contiguous()
        normal_map = normal_map.permute(0, 1, 3, 4, 2).contiguous()
        rgbdimages = rgbdimages.to_channels_last()

    if filter_missing_depths:
        mask""")]
NEEDS = "channels-first frames with a rotated pose, converted in local coordinates"
DEMO = '''
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.utils import pointclouds_from_rgbdimages
K = torch.eye(4).view(1, 1, 4, 4) * 1
K[..., 0, 0] = K[..., 1, 1] = 5
P = torch.tensor([[0.0, -1, 0, 1], [1, 0, 0, 2], [0, 0, 1, 3], [0, 0, 0, 1]]).view(1, 1, 4, 4)
im = RGBDImages(torch.rand(1, 1, 4, 5, 3), 1 + torch.rand(1, 1, 4, 5, 1), K, P)
a = pointclouds_from_rgbdimages(im, global_coordinates=False)
b = pointclouds_from_rgbdimages(im.to_channels_first(copy=True), global_coordinates=False)
need(torch.allclose(a.normals_list[0], b.normals_list[0], atol=1e-5), "normals depend on the layout")
'''
