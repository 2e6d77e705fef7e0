PROPERTY = "C32"
NEEDS = "a cloud with features given as a list, its padded features read, then moved to another device"
BREAKS = "Pointclouds.to moves the feature list only while there is no padded copy: afterwards features_list is still on the old device"
EDITS = [("gradslam/structures/pointclouds.py", """            if other._features_list is not None:
                other._features_list = [f.to(device) for f in other._features_list]
""", """            if other._features_list is not None and other._features_padded is None:
                other._features_list = [f.to(device) for f in other._features_list]
""")]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
pc = Pointclouds([torch.rand(3, 3), torch.rand(5, 3)], features=[torch.rand(3, 2), torch.rand(5, 2)])
pc.features_padded, pc.points_padded
m = pc.to("meta")
need(all(t.device.type == "meta" for t in m.points_list + m.features_list), [t.device for t in m.features_list])
need(m.features_padded.device.type == "meta", m.features_padded.device)
need(all(t.device.type == "cpu" for t in pc.features_list), "the original moved")
'''
