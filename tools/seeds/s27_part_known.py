PROPERTY = "C27"
NEEDS = "a tuple of TUM sequences of which some are in the folder and some are not"
BREAKS = "the reader silently serves the sequences it knows instead of refusing"
EDITS = [("gradslam/datasets/tum.py", """        if sequences is not None and len(sequence_paths) != len(sequences):
""", """        if sequences is not None and len(sequence_paths) > len(sequences):
""")]
DEMO = '''
import os, tempfile
from gradslam.datasets.tum import TUM
base = tempfile.mkdtemp()
try:
    d = os.path.join(base, "rgbd_dataset_freiburg1_demo")
    os.makedirs(d)
    for f, k in (("rgb", "rgb"), ("depth", "depth")):
        with open(os.path.join(d, f + ".txt"), "w") as g:
            g.write("1.0 %s/1.0.png\\n2.0 %s/2.0.png\\n" % (k, k))
    kw = dict(seqlen=1, return_pose=False, return_transform=False)
    TUM(base, sequences=("rgbd_dataset_freiburg1_demo",), **kw)
    try:
        TUM(base, sequences=("rgbd_dataset_freiburg1_demo", "rgbd_dataset_freiburg2_none"), **kw)
        refused = False
    except ValueError:
        refused = True
    need(refused, "an unknown sequence was not refused")
finally:
    import shutil
    shutil.rmtree(base)
'''
