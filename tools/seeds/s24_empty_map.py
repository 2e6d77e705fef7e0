PROPERTY = "C13"
NEEDS = "an out-of-place update of an empty map whose object is used again"
BREAKS = "an out-of-place update fills the empty map it was given"
EDITS = [("gradslam/slam/fusionutils.py", """    if not inplace:
        pointclouds = pointclouds.clone()
    pointclouds.append_points(new_pointclouds)
""", """    if not inplace and pointclouds.has_points:
        pointclouds = pointclouds.clone()
    pointclouds.append_points(new_pointclouds)
""")]
DEMO = '''
from gradslam.structures.rgbdimages import RGBDImages
from gradslam.structures.pointclouds import Pointclouds
from gradslam.slam.fusionutils import update_map_aggregate
K = torch.eye(4).view(1, 1, 4, 4)
im = RGBDImages(torch.rand(1, 1, 3, 3, 3), torch.rand(1, 1, 3, 3, 1) + .5, K, torch.eye(4).view(1, 1, 4, 4))
m = Pointclouds()
update_map_aggregate(m, im)
need(not m.has_points, "the empty map has %s points" % m.num_points_per_pointcloud)
'''
