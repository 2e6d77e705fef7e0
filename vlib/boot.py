"""Import gradslam from the working tree of /repo, with a recording stand-in for open3d.

open3d is not installed here and gradslam imports it unconditionally; nothing but the
point-cloud exporter uses it.  The stand-in only records the arrays it is given.
"""
import os
import sys
import types

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")


def _install_open3d():
    try:
        import importlib.util
        if importlib.util.find_spec("open3d") is not None:
            return
    except Exception:
        pass
    import numpy as np

    class PointCloud:
        def __init__(self):
            self.points = None
            self.colors = None
            self.normals = None

    o3d = types.ModuleType("open3d")
    o3d.geometry = types.ModuleType("open3d.geometry")
    o3d.utility = types.ModuleType("open3d.utility")
    o3d.visualization = types.ModuleType("open3d.visualization")
    o3d.geometry.PointCloud = PointCloud
    o3d.utility.Vector3dVector = lambda a: np.array(a, dtype=np.float64)
    sys.modules["open3d"] = o3d
    for n in ("geometry", "utility", "visualization"):
        sys.modules["open3d." + n] = getattr(o3d, n)


def load():
    _install_open3d()
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    import warnings
    warnings.simplefilter("ignore")
    import torch
    torch.set_num_threads(1)
    try:
        import cv2
        cv2.setNumThreads(1)
    except Exception:
        pass
    import gradslam
    where = os.path.realpath(os.path.dirname(gradslam.__file__))
    want = os.path.realpath(os.path.join(REPO, "gradslam"))
    if where != want:
        raise RuntimeError("gradslam imported from %s, wanted %s" % (where, want))
    return gradslam
