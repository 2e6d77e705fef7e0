PROPERTY = "C12"
NEEDS = "a map point whose accumulated confidence exceeds 64 is matched again"
BREAKS = "the average forgets: such a point weighs at most 64 in its fusion"
EDITS = [("gradslam/slam/fusionutils.py", """        map_ccounts = pointclouds.features_padded
""", """        map_ccounts = pointclouds.features_padded.clamp(max=64.0)
""")]
DEMO = '''
from gradslam.slam.fusionutils import fuse_with_map
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4).view(1, 1, 4, 4)
im = RGBDImages(torch.rand(1, 1, 2, 2, 3), torch.ones(1, 1, 2, 2, 1), K, K.clone())
pc = Pointclouds(torch.rand(1, 1, 3), normals=torch.rand(1, 1, 3), colors=torch.rand(1, 1, 3), features=torch.full((1, 1, 1), 200.0))
out = fuse_with_map(pc, im, torch.tensor([[0, 0, 1, 1]]), .6)
need(out.features_list[0][0, 0] > 200, "confidence of the matched point fell from 200 to %g" % out.features_list[0][0, 0])
'''
