PROPERTY = "C19"
NEEDS = "frames whose stored depth is above 32.767 raw thousand units and an output size that differs from the stored one"
BREAKS = "far depths of a resized frame are delivered as other depths"
EDITS = [("gradslam/datasets/tum.py", """                depth = np.asarray(imageio.imread(depth_seq_path[i]), dtype=np.int64)
""", """                depth = np.asarray(imageio.imread(depth_seq_path[i])).astype(np.int16)
""")]
DEMO = '''
import tempfile, cv2
from gradslam.datasets.tum import TUM
with tempfile.TemporaryDirectory() as base:
    d = os.path.join(base, "rgbd_dataset_freiburg1_demo")
    os.makedirs(os.path.join(d, "rgb")); os.makedirs(os.path.join(d, "depth"))
    rgb, dep = open(os.path.join(d, "rgb.txt"), "w"), open(os.path.join(d, "depth.txt"), "w")
    for k in range(2):
        t = "%.4f" % (100 + k * .1)
        cv2.imwrite(os.path.join(d, "rgb", t + ".png"), np.full((4, 4, 3), k, np.uint8))
        cv2.imwrite(os.path.join(d, "depth", t + ".png"), np.full((4, 4), 40000, np.uint16))
        rgb.write("%s rgb/%s.png\\n" % (t, t)); dep.write("%s depth/%s.png\\n" % (t, t))
    rgb.close(); dep.close()
    ds = TUM(base, None, seqlen=2, height=4, width=4, return_pose=False, return_transform=False)
    need(float((ds[0][1] - 8.0).abs().max()) < 1e-4, ds[0][1].max())
'''
