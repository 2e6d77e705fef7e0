PROPERTY = "C28"
NEEDS = "a gradICP provider constructed with its damping slopes by position, the two differing"
BREAKS = "B and B2 given by position are swapped"
EDITS = [("gradslam/odometry/gradicp.py", """        B: Union[float, int] = 1.0,
        B2: Union[float, int] = 1.0,
        nu: Union""", """        B2: Union[float, int] = 1.0,
        B: Union[float, int] = 1.0,
        nu: Union""")]
DEMO = '''
from gradslam.odometry.gradicp import GradICPOdometryProvider
p = GradICPOdometryProvider(20, 1e-8, None, 2.0, 1.5, 0.5, 200.0)
need(p.B == 1.5 and p.B2 == 0.5, (p.B, p.B2))
'''
