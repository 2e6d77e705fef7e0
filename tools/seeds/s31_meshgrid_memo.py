PROPERTY = "C31"
NEEDS = "two grids of one size in one process, one in pixels and one normalised"
BREAKS = "create_meshgrid remembers grids by size alone: the second kind of grid asked for is the first"
EDITS = [("gradslam/geometry/geometryutils.py", """    xs: Optional[torch.Tensor] = None
    ys: Optional[torch.Tensor] = None
    if normalized_coords:
""", """    if (height, width) in _GRIDS:
        return _GRIDS[height, width].clone()
    if normalized_coords:
"""), ("gradslam/geometry/geometryutils.py", """    return base_grid.permute(1, 2, 0).unsqueeze(0)  # 1 xH x W x 2
""", """    _GRIDS[height, width] = base_grid.permute(1, 2, 0).unsqueeze(0)  # 1 xH x W x 2
    return _GRIDS[height, width].clone()


_GRIDS = {}
""")]
DEMO = '''
from gradslam.geometry.geometryutils import create_meshgrid
a = create_meshgrid(3, 5, normalized_coords=False)
b = create_meshgrid(4, 5, normalized_coords=True)
c = create_meshgrid(3, 5, normalized_coords=True)
need(float(c.max()) == 1 and float(c.min()) == -1, c)
'''
