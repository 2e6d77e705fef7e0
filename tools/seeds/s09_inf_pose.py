PROPERTY = "C14"
NEEDS = "tracking odometry on a sequence without poses whose batch has more than one element"
BREAKS = "poses of later frames share one previous pose over the batch"
EDITS = [("gradslam/slam/icpslam.py", """            return compose_transformations(
                transform.squeeze(1), prev_frame.poses.squeeze(1)
            ).unsqueeze(1)
""", """            prev_poses = prev_frame.poses.squeeze(1)
            return compose_transformations(
                transform.squeeze(1), prev_poses[:1].expand_as(prev_poses)
            ).unsqueeze(1)
""")]
ALSO = ["C15"]
DEMO = '''
from gradslam.slam.icpslam import ICPSLAM
from gradslam.structures.rgbdimages import RGBDImages
yy, xx = torch.meshgrid(torch.arange(16.0), torch.arange(16.0), indexing="ij")
d = torch.stack([2 + .2 * torch.sin(.5 * xx) + .2 * torch.cos(.4 * yy), 2.2 + .2 * torch.sin(.3 * xx + .5 * yy)]).view(2, 1, 16, 16, 1).repeat(1, 3, 1, 1, 1)
K = torch.eye(4)
K[0, 0] = K[1, 1] = 16.
K[0, 2] = K[1, 2] = 7.5
P = torch.eye(4).repeat(2, 3, 1, 1)
P[1, :, :3, 3] = torch.tensor([.3, -.2, .5])
im = RGBDImages(torch.rand(2, 3, 16, 16, 3), d, K.view(1, 1, 4, 4).repeat(2, 1, 1, 1), P)
_, Q = ICPSLAM(odom="icp", dsratio=1, numiters=3)(im)
need((Q - P).abs().max() < 1e-2, "static cameras drift by %g" % (Q - P).abs().max())
'''
