PROPERTY = "C15"
NEEDS = "a batch of at least two clouds that do not converge completely"
BREAKS = "odometry of a batch element starts from the result of the element before it"
EDITS = [("gradslam/odometry/icp.py", """                initial_transform,
                numiters=self.numiters,
""", """                transforms[-1] if transforms else initial_transform,
                numiters=self.numiters,
""")]
ALSO = ["C09"]
DEMO = '''
from gradslam.odometry.icp import ICPOdometryProvider
from gradslam.structures.pointclouds import Pointclouds
g = torch.Generator().manual_seed(0)
src = [torch.rand(60, 3, generator=g) for _ in range(2)]
nrm = [torch.nn.functional.normalize(torch.randn(60, 3, generator=g), dim=-1) for _ in range(2)]
tgt = [s + 0.08 for s in src]
p = ICPOdometryProvider(2, 1e-8, None)
both = p.provide(Pointclouds(tgt, nrm), Pointclouds(src))
alone = p.provide(Pointclouds(tgt[1:], nrm[1:]), Pointclouds(src[1:]))
need((both[1] - alone[0]).abs().max() < 1e-5, "estimate of the second element differs by %g when processed together with the first" % (both[1] - alone[0]).abs().max())
'''
