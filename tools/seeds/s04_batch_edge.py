PROPERTY = "C11"
NEEDS = "two batch elements where the last matched pixel of one is the first matched pixel of the next"
BREAKS = "the match of the second element is dropped"
EDITS = [("gradslam/slam/fusionutils.py", """        sorted_nonunique_inds[1:, :3] - sorted_nonunique_inds[:-1, :3] != 0
""", """        sorted_nonunique_inds[1:, 1:3] - sorted_nonunique_inds[:-1, 1:3] != 0
""")]
DEMO = '''
from gradslam.slam.fusionutils import find_best_unique_correspondences
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
K = torch.eye(4).view(1, 1, 4, 4).repeat(2, 1, 1, 1)
im = RGBDImages(torch.rand(2, 1, 3, 3, 3), torch.ones(2, 1, 3, 3, 1), K, K.clone())
pc = Pointclouds(torch.rand(2, 2, 3), normals=torch.rand(2, 2, 3), colors=torch.rand(2, 2, 3), features=torch.ones(2, 2, 1))
t = torch.tensor([[0, 0, 0, 1], [0, 1, 1, 1], [1, 0, 1, 1], [1, 1, 2, 0]])
r = find_best_unique_correspondences(pc, im, t)
need(len(r) == 4, "%d of 4 matches kept" % len(r))
'''
