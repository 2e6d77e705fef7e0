PROPERTY = "C31"
NEEDS = "a step of an icp/gradicp SLAM object on a non-empty map without a previous frame"
BREAKS = "the step installs a process-wide warning filter and leaves it there"
EDITS = [("gradslam/slam/icpslam.py", """            msg = "`prev_frame` was None despite `{}` odometry method. Using `live_frame` poses.".format(
                self.odom
            )
            warnings.warn(msg)
""", """            warnings.simplefilter("once")
            warnings.warn(
                "`prev_frame` was None despite `{}` odometry method. Using `live_frame` poses.".format(
                    self.odom
                )
            )
""")]
DEMO = '''
import warnings
from gradslam.slam.icpslam import ICPSLAM
from gradslam.structures.pointclouds import Pointclouds
from gradslam.structures.rgbdimages import RGBDImages
warnings.simplefilter("error")
warnings.simplefilter("ignore")
x = RGBDImages(torch.rand(1, 1, 3, 4, 3), torch.ones(1, 1, 3, 4, 1), torch.eye(4).view(1, 1, 4, 4), torch.eye(4).view(1, 1, 4, 4))
s = ICPSLAM(odom="icp", numiters=1, dsratio=1)
p, _ = s.step(Pointclouds(), x, None)
before = list(warnings.filters)
s.step(p, x, None)
need(list(warnings.filters) == before, warnings.filters[:2])
'''
