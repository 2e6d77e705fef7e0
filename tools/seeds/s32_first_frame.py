PROPERTY = "C32"
NEEDS = "a map that is still empty, on a device other than the CPU"
BREAKS = "find_active_map_points gives its empty table for an empty map on the CPU, whatever device map and frames are on"
EDITS = [("gradslam/slam/fusionutils.py", """    device = pointclouds.device

    if not pointclouds.has_points:
        return torch.empty((0, 4), dtype=torch.int64, device=device)

    if len(rgbdimages) != len(pointclouds):
""", """    device = pointclouds.device

    if not pointclouds.has_points:
        return torch.empty((0, 4), dtype=torch.int64)

    if len(rgbdimages) != len(pointclouds):
""")]
DEMO = '''
from gradslam.slam.fusionutils import find_active_map_points
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4).view(1, 1, 4, 4)
fr = RGBDImages(torch.rand(1, 1, 3, 4, 3), torch.rand(1, 1, 3, 4, 1) + .5, K, K.clone())
need(find_active_map_points(Pointclouds(), fr).device.type == "cpu", "cpu")
t = find_active_map_points(Pointclouds(device="meta"), fr.to("meta"))
need(t.device.type == "meta" and tuple(t.shape) == (0, 4), (t.device, t.shape))
'''
