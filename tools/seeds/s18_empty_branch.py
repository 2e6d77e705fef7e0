PROPERTY = "C22"
NEEDS = "a tree with an empty nested branch"
BREAKS = "dumping a tree with an empty branch fails: the branch is handed to yaml unconverted"
EDITS = [("gradslam/config/cfgnode.py", """                    cfg_dict[k] = _convert_to_dict(v, key_list + [k])
""", """                    cfg_dict[k] = v and _convert_to_dict(v, key_list + [k])
""")]
DEMO = '''
from gradslam.config import CfgNode as CN
c = CN(); c.A = CN(); c.B = 1
d = CN.load_cfg(c.dump())
need(isinstance(d.A, CN) and len(d.A) == 0, d)
'''
