PROPERTY = "C20"
NEEDS = "merging a configuration in which a listed value is a list of the same type as the target's, then changing the source's list in place"
BREAKS = "later changes to the source of a merge show in the target"
EDITS = [("gradslam/config/cfgnode.py", """        v = copy.deepcopy(v_)
        v = b._decode_cfg_value(v)
""", """        v = copy.deepcopy(v_) if isinstance(v_, dict) else copy.copy(v_)
        v = b._decode_cfg_value(v)
""")]
DEMO = '''
from gradslam.config import CfgNode as CN
a, b = CN(), CN()
a.X = [[1, 2], [3]]
b.X = [[0]]
b.merge_from_other_cfg(a)
a.X[0].append(9)
need(b.X == [[1, 2], [3]], b.X)
'''
