PROPERTY = "C08"
NEEDS = "unit quaternions with negative scalar part (the double cover)"
BREAKS = "axis-angle of rotations beyond a half turn points the wrong way"
EDITS = [("gradslam/geometry/geometryutils.py", """        torch.atan2(-sin_theta, -cos_theta),
""", """        torch.atan2(sin_theta, -cos_theta),
""")]
DEMO = '''
from gradslam.geometry.geometryutils import quaternion_to_axisangle
q = torch.nn.functional.normalize(torch.tensor([[0.3, -0.2, 0.5, -0.4]]), dim=-1)
need(torch.allclose(quaternion_to_axisangle(q), quaternion_to_axisangle(-q), atol=1e-5), "q and -q give different rotations")
'''
