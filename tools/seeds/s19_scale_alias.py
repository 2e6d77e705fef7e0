PROPERTY = "C23"
NEEDS = "float32 torch intrinsics given to scale_intrinsics more than once"
BREAKS = "scaling intrinsics changes the matrix it was given"
EDITS = [("gradslam/datasets/datautils.py", """        scaled_intrinsics = intrinsics.to(torch.float).clone()
""", """        scaled_intrinsics = intrinsics.to(torch.float).contiguous()
""")]
DEMO = '''
from gradslam.datasets.datautils import scale_intrinsics
K = torch.tensor([[500.0, 0, 320], [0, 500, 240], [0, 0, 1]])
K0 = K.clone()
scale_intrinsics(K, .5, .25)
need(torch.equal(K, K0), K)
'''
