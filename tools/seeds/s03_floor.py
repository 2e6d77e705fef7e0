PROPERTY = "C12"
NEEDS = "points farther than about 5.7 sigma from the camera"
BREAKS = "the confidence of far points drops to zero instead of staying at a small positive floor"
EDITS = [("gradslam/slam/fusionutils.py", """    alpha = torch.clamp(alpha, min=eps, max=1.01)  # make sure alpha is non-zero
""", """    alpha = torch.clamp(alpha, min=eps ** 2, max=1.01)  # make sure alpha is non-zero
""")]
DEMO = '''
from gradslam.slam.fusionutils import get_alpha
a = get_alpha(torch.tensor([[0.0, 0.0, 6.0]]), 0.6)
need(float(a) >= 0.99e-7, "confidence %g" % float(a))
'''
