PROPERTY = "C03"
NEEDS = "copy of a cloud, then an in-place change of a tensor of the copy"
BREAKS = "appending to an empty cloud shares the padded tensors with the appended cloud"
EDITS = [("gradslam/structures/pointclouds.py", """                    v = getattr(pointclouds, k)
                    if torch.is_tensor(v):
                        setattr(self, k, v.clone())
            return self
""", """                    v = getattr(pointclouds, k)
                    if torch.is_tensor(v):
                        setattr(self, k, v)
            return self
""")]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
a = Pointclouds(torch.rand(2, 4, 3))
before = a.points_padded.clone()
m = Pointclouds()
m.append_points(a)
m.points_padded.mul_(3)
need(torch.equal(a.points_padded, before), "changing the map changed the cloud that was appended")
'''
