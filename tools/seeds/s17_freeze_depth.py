PROPERTY = "C21"
NEEDS = "a tree in which an already frozen branch holds a deeper branch that was added or defrosted on its own, then freezing the whole tree"
BREAKS = "a branch below an already frozen one stays writable after freezing the tree"
EDITS = [("gradslam/config/cfgnode.py", """        for v in self.values():
            if isinstance(v, CfgNode):
                v._immutable(is_immutable)
""", """        for v in self.values():
            if isinstance(v, CfgNode) and v.is_frozen() != is_immutable:
                v._immutable(is_immutable)
""")]
DEMO = '''
from gradslam.config import CfgNode as CN
c = CN(); c.A = CN(); c.A.B = CN(); c.A.B.X = 1
c.A.freeze()
c.A.B.defrost()
c.freeze()
need(c.A.B.is_frozen(), "a nested branch is not frozen")
try:
    c.A.B.X = 2
    need(False, "assignment accepted in a frozen tree")
except AttributeError:
    pass
'''
