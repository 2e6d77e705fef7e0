"""C31: calls leave the process as they found it, and do not depend on what ran before, alongside or elsewhere."""
import copy
import gc
import io
import locale
import logging
import os
import pickle
import random
import signal
import sys
import threading
import time
import warnings

import cv2
import imageio
import numpy as np
import plotly.graph_objects as go
import plotly.io
import torch
import yaml

from checks.c30 import flat, has_frames
from vlib import apicalls, gen, snap
from vlib import cfgmodel as M
from vlib import dsets as DS
from vlib.core import Check, Family, Skip
from vlib.pcmodel import random_model

warnings.simplefilter("ignore")
logging.getLogger("gradslam.config.cfgnode").disabled = True
F, D = torch.float32, torch.float64
# what the third-party libraries set up on first use is not gradslam's doing
go.Figure(go.Scatter3d(x=[0], y=[0], z=[0])).to_dict()
with DS.Scratch() as _d:
    imageio.imwrite(os.path.join(_d, "x.png"), np.zeros((2, 2), np.uint8))
    imageio.imread(os.path.join(_d, "x.png"))


# ------------------------------------------------------------------ jobs: one library call each, from fresh arguments
class Job:
    """run(): builds its own arguments and returns the result of one documented call (or the refusal of a malformed one)"""

    def __init__(self, kind, name, prepare):
        self.kind, self.name, self.prepare = kind, name, prepare

    def run(self):
        return self.prepare()()


class Layout(apicalls.V):
    """the shapes and values depend on the seed alone: the same job in another precision works on the same sizes"""

    def __init__(self, seed, dtype):
        super().__init__(np.random.default_rng([seed, 1]), dtype=dtype, grads=False)
        self.crng = np.random.default_rng([seed, 2])
        self.strided = False


def catalogue_job(gi, seed, dtype, bad):
    def make():
        return apicalls.CATALOGUE[gi](np.random.default_rng([seed, gi]), Layout(seed, dtype))

    name = apicalls.CATALOGUE[gi].__name__

    def prepare():
        c = make()
        if bad and c.bad:
            arg, label, value, exc = c.bad[seed % len(c.bad)]
            args = dict(c.args)
            args[arg] = value

            def call():
                try:
                    c.fn(**args)
                except Exception as e:
                    return type(e).__name__
                return "accepted"
            return call
        return lambda: c.fn(**c.args)
    return Job("malformed" if bad else "call", name, prepare)


def config_job(seed):
    from gradslam.config import CfgNode

    def prepare():
        rng = np.random.default_rng([seed, 5])
        d = M.tree(rng, literal_strings=False)
        e = M.tree(rng, literal_strings=False)

        def call():
            a = CfgNode(copy.deepcopy(d))
            b = a.clone()
            out = [a.dump(), str(b), M.plain(CfgNode.load_cfg(a.dump()))]
            try:
                b.merge_from_other_cfg(CfgNode(copy.deepcopy(e)))
            except Exception as x:
                out.append(type(x).__name__)
            b.freeze()
            try:
                b.NEW = 1
            except Exception as x:
                out.append(type(x).__name__)
            return out + [repr(M.plain(b)), b.is_frozen(), a.is_frozen()]
        return call
    return Job("config", "config", prepare)


def dataset(rng, base):
    """a folder and a function that makes a reader of it"""
    from gradslam.datasets.icl import ICL
    from gradslam.datasets.scannet import Scannet
    from gradslam.datasets.tum import TUM
    h, w = int(rng.integers(2, 6)), int(rng.integers(2, 6))
    p = dict(seqlen=int(rng.integers(1, 4)), height=h, width=int(rng.integers(2, 6)))
    n = int(rng.integers(3, 7))
    k = int(rng.integers(0, 3))
    if k == 0:
        t, _ = DS.icl(rng, base, "0", n, h, w, textured=True, posesfile=True)
        return "ICL", lambda: ICL(base, (t,), **p)
    if k == 1:
        DS.tum(rng, base, "1_x", n, h, w, textured=True, posesfile=True)
        return "TUM", lambda: TUM(base, None, **p)
    meta = os.path.join(base, "meta")
    os.makedirs(meta, exist_ok=True)
    root = os.path.join(base, "scans")
    os.makedirs(root, exist_ok=True)
    DS.scannet(rng, root, meta, "scene0000_00", 0, n, h, w, textured=True)
    return "Scannet", lambda: Scannet(root, meta, None, start=0, end=n - 1 if n > 2 else None, height=p["height"], width=p["width"])


def items(ds):
    return [[x if torch.is_tensor(x) else str(x) for x in ds[i]] for i in range(min(len(ds), 4))]


def reader_job(seed, base):
    def prepare():
        d = os.path.join(base, "r%d" % seed)
        new = not os.path.isdir(d)
        rng = np.random.default_rng([seed, 6])
        if new:
            os.makedirs(d)
            _, make = dataset(rng, d)
            readers[seed] = make
        make = readers[seed]

        def call():
            ds = make()
            return items(ds)
        return call
    readers = {}
    return Job("reader", "reader", prepare)


def draw(rng, base=None, like=None):
    """a random job; like: a job's (generator, seed, dtype), to be varied in precision only or in values only"""
    if like is not None and rng.random() < .5:
        gi, seed, dtype = like
        return catalogue_job(gi, seed, D if dtype == F else F, False)
    u = rng.random()
    seed = int(rng.integers(0, 2 ** 31))
    if u < .06:
        return config_job(seed)
    if u < .12 and base:
        return reader_job(seed, base)
    gi = int(rng.integers(0, len(apicalls.CATALOGUE))) if like is None or rng.random() < .6 else like[0]
    return catalogue_job(gi, seed, D if rng.random() < .5 else F, rng.random() < .2)


def same(a, b, tol):
    """the same result: keys, kinds, shapes, precision, values"""
    if a.keys() != b.keys():
        return "one gives %s, the other %s" % (sorted(set(a) - set(b))[:3], sorted(set(b) - set(a))[:3])
    for k, x in a.items():
        y = b[k]
        if torch.is_tensor(x) != torch.is_tensor(y):
            return "%s: %s and %s" % (k, type(x).__name__, type(y).__name__)
        if torch.is_tensor(x):
            if x.shape != y.shape or x.dtype != y.dtype:
                return "%s: %s %s and %s %s" % (k, x.dtype, tuple(x.shape), y.dtype, tuple(y.shape))
            if x.dtype.is_floating_point:
                if not torch.allclose(x, y, rtol=tol, atol=tol, equal_nan=True):
                    return "%s: values %.3g apart" % (k, float((x.double() - y.double()).abs().nan_to_num(float("inf")).max()))
            elif not torch.equal(x, y):
                return "%s: other values" % k
        elif isinstance(x, float) and isinstance(y, float):
            if abs(x - y) > tol * max(1, abs(x)):
                return "%s: %r and %r" % (k, x, y)
        elif x != y:
            return "%s: %.80r and %.80r" % (k, x, y)
    return ""


TOL = 1e-6          # the same arithmetic on the same values


# ------------------------------------------------------------------ the state of the process
def process_state():
    npr = np.random.get_state()
    return {
        "torch random state": torch.get_rng_state().numpy().tobytes(), "numpy random state": (npr[0], npr[1].tobytes()) + tuple(npr[2:]), "random state": random.getstate(),
        "torch default dtype": torch.get_default_dtype(), "torch default device": str(torch.empty(0).device), "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
        "anomaly detection": torch.is_anomaly_enabled(), "deterministic algorithms": torch.are_deterministic_algorithms_enabled(), "torch threads": torch.get_num_threads(),
        "flush denormals": float(torch.tensor(1e-310, dtype=D) * 1) != 0, "torch print options": {k: getattr(torch._tensor_str.PRINT_OPTS, k) for k in ("precision", "threshold", "edgeitems", "linewidth", "sci_mode")},
        "float32 matmul precision": torch.get_float32_matmul_precision(), "autocast": torch.is_autocast_cpu_enabled(),
        "numpy error handling": np.geterr(), "numpy print options": {k: repr(v) for k, v in np.get_printoptions().items()}, "cv2 threads": cv2.getNumThreads(), "cv2 optimized": cv2.useOptimized(),
        "plotly template": str(plotly.io.templates.default), "plotly renderer": str(plotly.io.renderers.default), "yaml constructors": sorted(map(str, yaml.SafeLoader.yaml_constructors)) + sorted(map(str, yaml.SafeDumper.yaml_representers)),
        "working directory": os.getcwd(), "environment": dict(os.environ), "umask": umask(), "sys.path": list(sys.path), "locale": locale.setlocale(locale.LC_ALL), "warning filters": list(warnings.filters), "warning display": warnings.showwarning,
        "signal handlers": {s: signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGCHLD, signal.SIGPIPE)}, "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)), "exception hook": sys.excepthook, "log settings": (logging.root.level, len(logging.root.handlers), logging.root.manager.disable),
        "threads": sorted(t.name for t in threading.enumerate()),
    }


def umask():
    with open("/proc/self/status") as f:
        return next(line for line in f if line.startswith("Umask"))


def open_files():
    out = {}
    for n in os.listdir("/proc/self/fd"):
        try:
            out[n] = os.readlink("/proc/self/fd/" + n)
        except OSError:
            pass
    return sorted(v for v in out.values() if not v.startswith("/proc/"))


HEAVY = [i for i, g in enumerate(apicalls.CATALOGUE) if any(w in g.__name__ for w in ("slam", "icp", "update_map", "provider", "fuse"))]


def process(ctx):
    """one job: the settings of the process, its random states and its open files are as before"""
    rng = ctx.rng
    with DS.Scratch() as base:
        gi = ctx.index % len(apicalls.CATALOGUE)
        if rng.random() < .25:          # the calls that do most
            gi = HEAVY[int(rng.integers(0, len(HEAVY)))]
        seed = int(rng.integers(0, 2 ** 31))
        j = catalogue_job(gi, seed, D if rng.random() < .5 else F, rng.random() < .35) if rng.random() < .8 else config_job(seed) if rng.random() < .35 else reader_job(seed, base)
        ctx.set(kind=j.kind, call=j.name)
        call = j.prepare()
        moded = rng.random()
        # other settings than the defaults must survive as well
        if moded < .25:
            cm = torch.no_grad()
        elif moded < .4:
            cm = np.errstate(invalid="warn", divide="warn")
        else:
            cm = warnings.catch_warnings()
        old = torch.get_default_dtype()
        try:
            with cm:
                if .4 < moded < .6:
                    torch.set_default_dtype(D)
                    old_p = np.get_printoptions()
                    np.set_printoptions(precision=3)
                torch.manual_seed(int(rng.integers(0, 1000)))
                np.random.seed(int(rng.integers(0, 1000)))
                random.seed(int(rng.integers(0, 1000)))
                a, fa = process_state(), open_files()
                r = call()
                b = process_state()
                if .4 < moded < .6:
                    np.set_printoptions(**{k: v for k, v in old_p.items()})
                del r, call
                fb = open_files()
                if fb != fa:
                    gc.collect()
                    fb = open_files()
        finally:
            torch.set_default_dtype(old)
        for k in a:
            ctx.ok("process-state-kept", a[k] == b[k], lambda: "%s (%s) changes the process's %s" % (j.name, j.kind, k), key="process/%s" % k)
        ctx.ok("files-closed", fa == fb, lambda: "%s (%s) leaves files open: %s" % (j.name, j.kind, [x for x in fb if x not in fa][:3]), key="process/open-files")
        ctx.count("job:" + j.kind)
        ctx.state(j.kind, j.name, moded < .25, moded < .6)


# ------------------------------------------------------------------ earlier calls
def in_child(fn):
    """fn() in a forked process that has made none of the calls that follow"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(rd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            signal.alarm(30)
            torch.set_num_threads(1)
            buf = io.BytesIO()
            torch.save(fn(), buf)
            with os.fdopen(wr, "wb") as f:
                f.write(buf.getvalue())
            code = 0
        except BaseException as e:
            try:
                os.write(2, ("child: %s: %s\n" % (type(e).__name__, str(e)[:300])).encode())
            except BaseException:
                pass
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    _, st = os.waitpid(pid, 0)
    if st or not data:
        raise RuntimeError("the call failed in a fresh process (status %d)" % st)
    return torch.load(io.BytesIO(data))


def vandalise(x, depth=0):
    """results belong to the caller, who may overwrite them"""
    n = 0
    if depth > 6:
        return 0
    if torch.is_tensor(x):
        try:
            with torch.no_grad():
                (x.data if x.requires_grad else x).fill_(1 if x.dtype == torch.bool else 3)
            return 1
        except RuntimeError:
            return 0
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype != object:
            x.fill(3)
            return 1
        return 0
    if isinstance(x, dict) and type(x) is dict:
        for v in list(x.values()):
            n += vandalise(v, depth + 1)
        x.clear()
        return n + 1
    if isinstance(x, (list, tuple)):
        for v in x:
            n += vandalise(v, depth + 1)
        if type(x) is list:
            x.clear()
            n += 1
        return n
    if snap.kind(x):
        for v in list(vars(x).values()):
            n += vandalise(v, depth + 1) if torch.is_tensor(v) or isinstance(v, list) else 0
    return n


def earlier(ctx):
    """a call gives what it gives in a process where nothing else ran, whatever ran before and whatever became of those results"""
    rng = ctx.rng
    with DS.Scratch() as base:
        gi = ctx.index % len(apicalls.CATALOGUE)
        seed = int(rng.integers(0, 2 ** 31))
        dtype = D if rng.random() < .5 else F
        bad = rng.random() < .15
        u = rng.random()
        j = catalogue_job(gi, seed, dtype, bad) if u < .9 else config_job(seed) if u < .94 else reader_job(seed, base)
        like = (gi, seed, dtype) if u < .9 else None
        if j.kind == "reader":
            j.prepare()
        ctx.set(kind=j.kind, call=j.name)
        fresh = in_child(lambda: flat(j.run()))
        before, hurt = [], 0
        many = rng.random() < .3 and like is not None        # or the same function over and over
        for _ in range(int(rng.integers(10, 30)) if many else int(rng.integers(2, 10))):
            o = catalogue_job(gi, int(rng.integers(0, 2 ** 31)), dtype if rng.random() < .7 else D, rng.random() < .1) if many else draw(rng, base, like)
            before.append("%s %s" % (o.kind, o.name))
            try:
                r = o.run()
            except Exception:
                continue            # (other checks judge whether that is right)
            if rng.random() < .7:
                hurt += vandalise(r)
        got = flat(j.run())
        d = same(fresh, got, TOL)
        ctx.ok("earlier-calls-do-not-matter", not d, lambda: "%s after %s: %s" % (j.name, ", ".join(before), d), key="earlier/" + j.name)
        # and once more, the first result overwritten
        r = j.run()
        vandalise(r)
        d = same(fresh, flat(j.run()), TOL)
        ctx.ok("earlier-results-are-the-callers", not d, lambda: "%s again, its first result overwritten: %s" % (j.name, d), key="earlier/overwritten/" + j.name)
        ctx.count("results overwritten", hurt)
        ctx.count("earlier calls", len(before))
        ctx.state(j.kind, j.name, tuple(sorted(set(before)))[:3])


# ------------------------------------------------------------------ concurrent calls
class Delays:
    """a trace function that lets another thread run between two lines of gradslam, at random places"""

    def __init__(self, seed, p):
        self.r, self.p, self.n = random.Random(seed), p, 0

    def __call__(self, frame, event, arg):
        return self.line if "/gradslam/" in frame.f_code.co_filename and "/verif/" not in frame.f_code.co_filename else None

    def line(self, frame, event, arg):
        if event == "line" and self.r.random() < self.p:
            self.n += 1
            time.sleep(0 if self.n % 3 else 2e-4)
        return self.line


def alongside(ctx):
    """calls on their own objects from several threads at once give what they give alone"""
    rng = ctx.rng
    gi = ctx.index % len(apicalls.CATALOGUE)
    seed = int(rng.integers(0, 2 ** 31))
    dtype = D if rng.random() < .5 else F
    T = int(rng.integers(2, 5))
    with DS.Scratch() as base:
        if rng.random() < .5:       # the same function in every thread, on other values
            plan = [[catalogue_job(gi, int(rng.integers(0, 2 ** 31)), dtype if rng.random() < .7 else D, False) for _ in range(int(rng.integers(3, 7)))] for _ in range(T)]
        else:
            plan = [[catalogue_job(gi, seed, dtype, False) if rng.random() < .35 else draw(rng, base, (gi, seed, dtype)) for _ in range(int(rng.integers(2, 5)))] for _ in range(T)]
        alone = []
        for js in plan:
            row = []
            for j in js:
                try:
                    row.append(flat(j.run()))
                except Exception as e:
                    row.append({"raises": type(e).__name__})
            alone.append(row)
        ctx.set(threads=T, calls=[[j.name for j in js] for js in plan])
        got = [[None] * len(js) for js in plan]
        span, waits, p = [], [], float(rng.choice([0, .05, .2, .5]))
        gate = threading.Barrier(T)
        # (the arguments are made before the start: the calls themselves overlap)
        ready = [[j.prepare() for j in js] for js in plan]

        def work(t):
            delays = Delays(seed + t, p)
            gate.wait(60)
            sys.settrace(delays if p else None)
            for i, c in enumerate(ready[t]):
                t0 = time.perf_counter()
                try:
                    r = c()
                except Exception as e:
                    got[t][i] = {"raises": type(e).__name__}
                else:
                    got[t][i] = flat(r)
                span.append((t, t0, time.perf_counter()))
            sys.settrace(None)
            waits.append(delays.n)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(T)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(100)
        finally:
            sys.setswitchinterval(old)
        if any(t.is_alive() for t in ts):
            raise Skip()
        over = sum(1 for i, a in enumerate(span) for b in span[:i] if a[0] != b[0] and a[1] < b[2] and b[1] < a[2])
        ctx.count("overlapping pairs of calls", over)
        ctx.count("delays injected between lines", sum(waits))
        for t in range(T):
            for i, j in enumerate(plan[t]):
                d = same(alone[t][i], got[t][i], TOL)
                ctx.ok("concurrent-calls-do-not-matter", not d, lambda: "%s in one of %d threads: %s" % (j.name, T, d), key="alongside/" + j.name)
        ctx.state(gi, T, over > 3)


# ------------------------------------------------------------------ copies made by the language
def copiers(rng):
    def torch_copy(x):
        b = io.BytesIO()
        torch.save(x, b)
        b.seek(0)
        return torch.load(b)
    return [("copy.deepcopy", copy.deepcopy), ("pickle", lambda x: pickle.loads(pickle.dumps(x))), ("torch.save / torch.load", torch_copy)]


def copies(ctx):
    """deep copies, pickled objects and saved objects are equal to the original, work like it and share nothing with it"""
    from gradslam.config import CfgNode
    from gradslam.odometry.gradicp import GradICPOdometryProvider
    from gradslam.odometry.groundtruth import GroundTruthOdometryProvider
    from gradslam.odometry.icp import ICPOdometryProvider
    rng = ctx.rng
    how, f = copiers(rng)[int(rng.integers(0, 3))]
    kind = str(rng.choice(["cloud", "cloud", "frames", "frames", "odometry", "slam", "config", "reader"]))
    ctx.set(copy=how, of=kind)
    v = apicalls.V(rng, grads=False)
    if kind in ("cloud", "frames"):
        if kind == "cloud":
            x = v.pc(random_model(rng, dtype=v.dtype, ragged=bool(rng.random() < .7)))
        else:
            r = gen.rgbd(rng, B=int(rng.integers(1, 3)), L=int(rng.integers(1, 3)), h=int(rng.integers(1, 5)), w=int(rng.integers(1, 5)), dtype=v.dtype, poses=bool(rng.random() < .7))
            x = v.rgbd(r)
        views = [n for n in (snap.PC_VIEWS if kind == "cloud" else snap.RG_VIEWS) if kind == "cloud" or n not in ("pixel_pos",)]
        s = snap.Snapshot(x)
        y = f(x)
        ctx.ok("original-untouched", not s.differences(), lambda: "%s changed the %s" % (how, kind), key="copies/%s/original" % kind)
        for n in views:
            ctx.ok("copy-equals-original", snap.same(getattr(y, n), getattr(x, n)), lambda: "%s of a %s: %s differs" % (how, kind, n), key="copies/%s/%s" % (kind, n))
        s = snap.Snapshot(x)
        # the copy is independent of the original, both ways
        other = f(x)
        if kind == "cloud":
            y.offset_(1.5)
            y.append_points(y.clone())
            for t in snap.tensors_of(y):
                t.data.fill_(1)
        else:
            for t in snap.tensors_of(y):
                t.data.fill_(1)
        ctx.ok("copy-shares-nothing", not s.differences(), lambda: "changing a %s's %s changes the original: %s" % (kind, how, "; ".join(s.differences()[:2])), key="copies/%s/shares" % kind)
        # it works like the original
        if kind == "cloud" and x.has_points:
            a, b = x * 2 + 1, other * 2 + 1
            a.append_points(x), b.append_points(other)
            d = same(flat(a), flat(b), 0)
            ctx.ok("copy-works", not d, lambda: "arithmetic and append on a %s: %s" % (how, d), key="copies/cloud/works")
        elif kind == "frames":
            K = v.t(np.broadcast_to(gen.intrinsics(rng, 4, 4), tuple(x.intrinsics.shape)).copy(), r.dtype)
            x2 = x.clone()
            x2.intrinsics = other.intrinsics = K
            x2.depth_image = x2.depth_image * 2
            other.depth_image = other.depth_image * 2
            for a in ("vertex_map", "normal_map", "global_vertex_map", "valid_depth_mask"):
                ctx.ok("copy-works", snap.same(getattr(x2, a), getattr(other, a)), lambda: "%s of a changed %s copy" % (a, how), key="copies/frames/works")
    elif kind == "odometry":
        which = int(rng.integers(0, 3))
        P = [ICPOdometryProvider, GradICPOdometryProvider, GroundTruthOdometryProvider][which]
        p = P() if which == 2 else P(numiters=int(rng.integers(1, 4)), damp=1e-6, dist_thresh=float(rng.uniform(.5, 3)))
        q = f(p)
        if which == 2:
            b = int(rng.integers(1, 3))
            a = [v.rgbd(gen.rgbd(rng, B=b, L=1, h=3, w=3, dtype=v.dtype, poses=True)) for _ in range(2)]
        else:
            b = int(rng.integers(1, 3))
            a = [v.pc(random_model(rng, B=b, attrs=["points", "normals"], dtype=v.dtype, sizes=[8] * b)) for _ in range(2)]
        d = same(flat(p.provide(*a)), flat(q.provide(*a)), TOL)
        ctx.ok("copy-works", type(q) is P and not d, lambda: "%s of %s: %s" % (how, P.__name__, d), key="copies/odometry")
    elif kind == "slam":
        from gradslam.slam.icpslam import ICPSLAM
        from gradslam.slam.pointfusion import PointFusion
        from vlib import scene
        odom = str(rng.choice(["gt", "icp", "gradicp"]))
        S = [ICPSLAM, PointFusion][int(rng.integers(0, 2))]
        kw = dict(odom=odom, dsratio=int(rng.integers(1, 3)), numiters=2)
        if S is PointFusion:
            kw.update(dist_th=float(rng.uniform(.01, .2)), angle_th=float(rng.uniform(5, 40)), sigma=float(rng.uniform(.3, 1)))
        p = S(**kw)
        fr = v.rgbd(scene.sequence(rng, 1, 2, 5, 6, v.dtype))
        if rng.random() < .5:
            p(fr.clone())
        q = f(p)
        q.eval() if rng.random() < .3 else None
        d = same(flat(p(fr.clone())), flat(q(fr.clone())), TOL)
        ctx.ok("copy-works", type(q) is S and not d, lambda: "%s of %s(%s): %s" % (how, S.__name__, odom, d), key="copies/slam")
    elif kind == "config":
        c = CfgNode(M.tree(rng, literal_strings=False), new_allowed=bool(rng.random() < .4))
        if rng.random() < .4:
            c.register_renamed_key("OLD.KEY", "NEW.KEY")
            c.register_deprecated_key("GONE")
        if rng.random() < .5:
            c.freeze()
        try:
            y = f(c)
        except Exception:
            if c.is_frozen():       # (copying a node sets its items, which a frozen node refuses)
                raise Skip()
            raise
        ctx.ok("copy-equals-original", M.same_snapshot(y, M.snapshot(c)) and type(y) is CfgNode, lambda: "%s of a configuration has other values" % how, key="copies/config/values")
        ctx.ok("copy-equals-original", y.is_frozen() == c.is_frozen() and y.is_new_allowed() == c.is_new_allowed(), lambda: "%s of a configuration: frozen or new-allowed state differs" % how, key="copies/config/state")
        ctx.ok("copy-equals-original", y.dump() == c.dump() and y.key_is_deprecated("GONE") == c.key_is_deprecated("GONE") and y.key_is_renamed("OLD.KEY") == c.key_is_renamed("OLD.KEY"), lambda: "%s of a configuration: dump or deprecated keys differ" % how, key="copies/config/dump")
        now = M.snapshot(c)
        frozen = c.is_frozen()
        y.defrost()
        for p, x in M.paths(M.plain(y)):
            if isinstance(x, list):
                M.get(y, p).append(4)
        y["ZZZ"] = 1
        ctx.ok("copy-shares-nothing", M.same_snapshot(c, now) and c.is_frozen() == frozen, lambda: "changing the %s of a configuration changes the original" % how, key="copies/config/shares")
    else:
        with DS.Scratch() as base:
            name, make = dataset(rng, base)
            ds = make()
            if rng.random() < .5 and len(ds):
                ds[0]
            want = items(ds)
            got = items(f(ds))
            d = same(flat(want), flat(got), 0)
            ctx.ok("copy-works", not d, lambda: "%s of a %s reader: %s" % (how, name, d), key="copies/reader")
            # another process reads the same items, while this one reads too
            child = in_child(lambda: flat(items(ds)))
            d = same(flat(want), child, 0)
            ctx.ok("copy-works", not d, lambda: "a %s reader in a forked process: %s" % (name, d), key="copies/reader-fork")
    ctx.state(kind, how, str(v.dtype))


CHECK = Check("C31", [
    Family("process", process, 900, 20000),
    Family("earlier", earlier, 300, 8000),
    Family("alongside", alongside, 200, 6000),
    Family("copies", copies, 250, 6000),
], require=["process-state-kept", "files-closed", "earlier-calls-do-not-matter", "earlier-results-are-the-callers", "concurrent-calls-do-not-matter", "copy-equals-original", "copy-shares-nothing", "copy-works", "original-untouched"],
    rule="case = one catalogue call (or malformed call, configuration session, dataset reader) with the process state read before and after; or the same call in a fresh forked process and after a random series of other calls whose results were overwritten; "
    "or several threads making calls at once; or an object and its deep copy / pickle; distinct = (call, what ran before, number of threads / copier)",
    assumptions=["third-party libraries have been used once before the state of the process is compared", "threads work on objects of their own", "a configuration that is frozen may refuse to be deep-copied or unpickled"])
