PROPERTY = "C25"
NEEDS = "byte-range colours whose brightest entry is not 255"
BREAKS = "exported colours are stretched to the brightest entry instead of being divided by 255"
EDITS = [("gradslam/structures/pointclouds.py", """                torch_colors = torch_colors / 255
            if subsample:
                torch_colors = torch_colors[point_inds]
            torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
            numpy_colors = torch_colors.detach().cpu().numpy()
            pcd.colors""", """                torch_colors = torch_colors / torch_colors.max()
            if subsample:
                torch_colors = torch_colors[point_inds]
            torch_colors = torch.clamp(torch_colors, min=0.0, max=1.0)
            numpy_colors = torch_colors.detach().cpu().numpy()
            pcd.colors""")]
DEMO = '''
from gradslam.structures.pointclouds import Pointclouds
c = torch.rand(5, 3) * 100 + 50
a = Pointclouds([torch.rand(5, 3)], colors=[c])
got = np.asarray(a.open3d(0).colors)
need(np.abs(got - c.numpy() / 255).max() < 1e-5, got)
'''
