PROPERTY = "C29"
NEEDS = "ICL frames delivered at another size than they are stored at"
BREAKS = "the map made from them has points off the recorded surface"
EDITS = [("gradslam/datasets/icl.py", """            depth.astype(float),
            (self.width, self.height),
            interpolation=cv2.INTER_NEAREST,
""", """            depth.astype(float),
            (self.width, self.height),
            interpolation=cv2.INTER_AREA,
""")]
DEMO = '''
import os, tempfile, cv2
from gradslam.datasets.icl import ICL
with tempfile.TemporaryDirectory() as base:
    d = os.path.join(base, "living_room_traj1_frei_png")
    os.makedirs(os.path.join(d, "rgb")); os.makedirs(os.path.join(d, "depth"))
    near_far = np.full((4, 4), 5000, np.uint16)
    near_far[:, 1:] = 15000
    with open(os.path.join(d, "associations.txt"), "w") as f:
        for k in range(2):
            cv2.imwrite(os.path.join(d, "rgb", "%d.png" % k), np.full((4, 4, 3), k, np.uint8))
            cv2.imwrite(os.path.join(d, "depth", "%d.png" % k), near_far)
            f.write("%d depth/%d.png %d rgb/%d.png\\n" % (k, k, k, k))
    ds = ICL(base, None, seqlen=2, height=2, width=2, return_pose=False, return_transform=False)
    got = sorted({float(v) for v in ds[0][1].reshape(-1)})
    need(got == [1.0, 3.0], got)
'''
