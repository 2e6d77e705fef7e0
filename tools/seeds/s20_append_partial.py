PROPERTY = "C24"
NEEDS = "appending a batch that agrees in size, normals and colours but not in the presence of features"
BREAKS = "a rejected append has already lengthened points, normals and colours"
CHECKBLOCK = """        if self.has_features != pointclouds.has_features:
            raise ValueError(
                "pointclouds to append and to be appended must either both have or not have features: ({0} != {1})".format(
                    pointclouds.has_features, self.has_features
                )
            )
"""
EDITS = [("gradslam/structures/pointclouds.py", CHECKBLOCK, ""),
         ("gradslam/structures/pointclouds.py", """            self._colors_padded = None

        if self.has_features:
            self._features_list = [
                torch.cat([self""", """            self._colors_padded = None

""" + CHECKBLOCK + """        if self.has_features:
            self._features_list = [
                torch.cat([self""")]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
a = Pointclouds([torch.rand(3, 3), torch.rand(2, 3)])
b = Pointclouds([torch.rand(1, 3), torch.rand(2, 3)], features=[torch.rand(1, 1), torch.rand(2, 1)])
try:
    a.append_points(b)
    need(False, "accepted")
except ValueError:
    pass
need([len(p) for p in a.points_list] == [3, 2], [len(p) for p in a.points_list])
'''
