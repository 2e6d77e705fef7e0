PROPERTY = "C26"
NEEDS = "label images with class 14 (desk)"
BREAKS = "desks are remapped twice and end as background"
EDITS = [("gradslam/datasets/scannet.py", """        (13, 0),
""", ""), ("gradslam/datasets/scannet.py", """        (39, 20),
    ]
""", """        (39, 20),
        (13, 0),
    ]
""")]
DEMO = '''
from gradslam.datasets.scannet import nyu40_to_scannet20
out = nyu40_to_scannet20(np.array([[13, 14], [39, 1]], dtype=np.uint8))
need(out.tolist() == [[0, 13], [20, 1]], out)
'''
