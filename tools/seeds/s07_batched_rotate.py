PROPERTY = "C02"
NEEDS = "list view of the normals read first, then a rotation or transform with one matrix per cloud"
BREAKS = "list view of normals is not rotated"
EDITS = [("gradslam/structures/pointclouds.py", """        # force update of list representation
        self._points_list = None
        self._normals_list = None
""", """        # force update of list representation
        self._points_list = None
        if rmat.ndim == 2:
            self._normals_list = None
""")]
ALSO = ["C01"]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
pc = Pointclouds([torch.rand(3, 3), torch.rand(5, 3)], normals=[torch.rand(3, 3), torch.rand(5, 3)])
pc.normals_list
R = torch.tensor([[0.0, -1, 0], [1, 0, 0], [0, 0, 1]]).repeat(2, 1, 1)
n0 = [n.clone() for n in pc.normals_list]
pc.rotate_(R)
for b in range(2):
    need(torch.allclose(pc.normals_list[b], n0[b] @ R[b].T, atol=1e-5), "normals of cloud %d were not rotated" % b)
'''
