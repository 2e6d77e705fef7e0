PROPERTY = "C17"
NEEDS = "dilation above zero and a window whose last frame is among the last frames of the range (so that its full extent would reach past the end)"
BREAKS = "the last window of a TUM sequence is dropped although all its frames exist"
EDITS = [("gradslam/datasets/tum.py", """                if (start_ind + idx[-1]) >= num_frames:
""", """                if (start_ind + seqlen * (dilation + 1)) > num_frames:
""")]
DEMO = '''
import tempfile, cv2
from gradslam.datasets.tum import TUM
with tempfile.TemporaryDirectory() as base:
    d = os.path.join(base, "rgbd_dataset_freiburg1_demo")
    os.makedirs(os.path.join(d, "rgb")); os.makedirs(os.path.join(d, "depth"))
    rgb, dep = open(os.path.join(d, "rgb.txt"), "w"), open(os.path.join(d, "depth.txt"), "w")
    for k in range(7):
        t = "%.4f" % (100 + k * .1)
        cv2.imwrite(os.path.join(d, "rgb", t + ".png"), np.full((4, 4, 3), k, np.uint8))
        cv2.imwrite(os.path.join(d, "depth", t + ".png"), np.full((4, 4), 1000, np.uint16))
        rgb.write("%s rgb/%s.png\\n" % (t, t)); dep.write("%s depth/%s.png\\n" % (t, t))
    rgb.close(); dep.close()
    ds = TUM(base, None, seqlen=3, dilation=1, stride=2, height=4, width=4, return_pose=False, return_transform=False)
    got = [[int(c.mean()) for c in ds[i][0]] for i in range(len(ds))]
    need(got == [[0, 2, 4], [2, 4, 6]], got)
'''
