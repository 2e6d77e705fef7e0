PROPERTY = "C01"
NEEDS = "an equally sized batch whose mask was read, then an append that keeps the batch equally sized, then a read of the mask or arithmetic"
BREAKS = "the padding mask keeps the size from before the append"
EDITS = [("gradslam/structures/pointclouds.py", """        self._N = self._num_points_per_pointcloud.max()
        self._nonpad_mask = None
""", """        self._N = self._num_points_per_pointcloud.max()
        if not self.equisized:
            # all entries of the mask of an equisized batch are True
            self._nonpad_mask = None
""")]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
a = Pointclouds(torch.rand(2, 4, 3))
a.nonpad_mask
a.append_points(Pointclouds(torch.rand(2, 3, 3)))
need(tuple(a.nonpad_mask.shape) == tuple(a.points_padded.shape[:2]), "mask %s for points %s" % (a.nonpad_mask.shape, a.points_padded.shape))
'''
