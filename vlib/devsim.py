"""A device sanitizer: tensors that pretend to live on accelerators, on a machine that has none.

Inside ``Devices()`` every tensor carries the name of the device it pretends to be on
(attribute ``_vdev``; no attribute: the CPU).  The real arithmetic is done on the CPU.  The
monitor follows the rules torch has for tensors of several devices: what is made takes the
device asked for, what is computed takes the device of its operands, moving makes a copy, and
operands on different devices are refused with the error torch gives (``Mixed``), except where
torch allows them (a zero-dimensional CPU operand, a CPU index, copy_).
"""
import torch
from torch.overrides import TorchFunctionMode

CPU = torch.device("cpu")
T = torch.Tensor
_new = torch.empty_like      # (looked up before any mode is on)


class Mixed(RuntimeError):
    """what torch raises for operands on different devices"""


def norm(d):
    if isinstance(d, int) and not isinstance(d, bool):
        d = torch.device("cuda", d)
    d = torch.device(d)
    if d.type != "cpu" and d.index is None:
        d = torch.device(d.type, 0)
    return CPU if d.type == "cpu" else d


def where(t):
    return t.__dict__.get("_vdev", CPU) if isinstance(t, T) else None


def tag(x, d, depth=0):
    """mark the tensors of a result"""
    if isinstance(x, T):
        if d == CPU:
            x.__dict__.pop("_vdev", None)
        else:
            x.__dict__["_vdev"] = d
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            tag(y, d, depth + 1)
    elif isinstance(x, dict) and depth < 4:
        for y in x.values():
            tag(y, d, depth + 1)
    return x


def operands(x, out=None, depth=0):
    out = [] if out is None else out
    if isinstance(x, T):
        out.append(x)
    elif isinstance(x, (list, tuple)) and depth < 4:
        for y in x:
            operands(y, out, depth + 1)
    elif isinstance(x, dict) and depth < 4:
        for y in x.values():
            operands(y, out, depth + 1)
    return out


def getter(name):
    return getattr(T, name)


PROPS = {n: getattr(T, n) for n in ("device", "is_cuda", "is_cpu") if hasattr(T, n)}
CATS = {torch.cat, torch.stack, torch.concat, torch.hstack, torch.vstack, torch.dstack}
NUMPY = {T.numpy, T.__array__}
COPY = {T.copy_}
INFER = {torch.tensor, torch.as_tensor, torch.asarray}


class Devices(TorchFunctionMode):
    def __init__(self):
        super().__init__()
        self.ops, self.moved, self.mixed, self.accelerated, self.made = 0, 0, 0, 0, 0

    def common(self, func, ts, strict=False):
        """the device the operands have in common"""
        ds = {}
        for t in ts:
            d = where(t)
            if d == CPU and t.dim() == 0 and not strict:
                ds.setdefault(None, t)
            else:
                ds.setdefault(d, t)
        real = [d for d in ds if d is not None]
        if len(real) > 1:
            self.mixed += 1
            raise Mixed("Expected all tensors to be on the same device, but found at least two devices, %s and %s! (%s)" % (real[0], real[1], getattr(func, "__name__", func)))
        return real[0] if real else CPU

    def __torch_function__(self, func, types, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        f = kwargs.pop("_f", None)
        if f is not None:
            return self.subscript(f, func, *args)
        owner = getattr(func, "__self__", None)
        name = getattr(func, "__name__", "")
        if name == "__get__":
            if owner is PROPS["device"]:
                return where(args[0])
            if owner is PROPS["is_cuda"]:
                return where(args[0]).type == "cuda"
            if owner is PROPS.get("is_cpu"):
                return where(args[0]) == CPU
            out = func(*args, **kwargs)
            if isinstance(out, T):
                tag(out, where(args[0]))
            return out
        if name in ("__set__", "__delete__"):
            if len(args) > 1 and isinstance(args[1], T) and where(args[1]) != where(args[0]):
                if owner is getattr(T, "data", None):
                    out = func(*args, **kwargs)
                    tag(args[0], where(args[1]))
                    return out
                raise Mixed("assigned value has another device")
            return func(*args, **kwargs)
        self.ops += 1
        if func in NUMPY:
            if where(args[0]) != CPU:
                raise TypeError("can't convert %s device type tensor to numpy. Use Tensor.cpu() to copy the tensor to host memory first." % where(args[0]))
            return func(*args, **kwargs)
        if func is T.get_device:
            d = where(args[0])
            return -1 if d == CPU else d.index
        if func is T.cpu:
            return self.move(args[0], CPU)
        if func is T.cuda:
            return self.move(args[0], norm(kwargs.get("device", args[1] if len(args) > 1 else None) or "cuda"))
        if func is T.to:
            return self.to(func, args, kwargs)
        if func is T.__iter__:
            return iter(tag(args[0].unbind(0) if args[0].dim() else list(func(*args)), where(args[0])))
        if kwargs.get("device") is not None:
            d = norm(kwargs.pop("device"))
            self.made += 1
            out = func(*args, **kwargs)
            if any(out is t and where(t) != d for t in operands((args, kwargs))):
                out = out.clone()       # (as_tensor on another device)
            return tag(out, d)
        kwargs.pop("device", None)
        if func in INFER:
            src = args[0] if args else next(iter(kwargs.values()))
            return tag(func(*args, **kwargs), where(src) if isinstance(src, T) else CPU)
        ts = operands((args, kwargs))
        if name in ("__getitem__", "__setitem__", "index_put_", "index_put"):
            return self.subscript(func, func, *args, **kwargs)
        if func in COPY:
            d = where(args[0])
        elif name.startswith("new_") or name in ("new",):
            d = where(args[0]) if args and isinstance(args[0], T) else CPU
        else:
            d = self.common(func, ts, strict=func in CATS)
            if name.endswith("_") and not name.endswith("__") and args and isinstance(args[0], T) and where(args[0]) != d:
                self.mixed += 1
                raise Mixed("Expected all tensors to be on the same device, but found at least two devices, %s and %s! (%s)" % (where(args[0]), d, name))
        if d != CPU:
            self.accelerated += 1
        out = func(*args, **kwargs)
        if out is None or isinstance(out, (int, float, bool, str)):
            return out
        return tag(out, d)

    def subscript(self, f, func, x, i, *v, **kwargs):
        d = where(x)
        idx = operands(i)
        for t in idx:
            if where(t) not in (CPU, d) and t.dim():
                self.mixed += 1
                raise Mixed("indices should be either on cpu or on the same device as the indexed tensor (%s)" % d)
        for t in operands(v):
            # (with slices and integers alone this is a copy_, which crosses devices)
            if where(t) != d and t.dim() and idx:
                self.mixed += 1
                raise Mixed("Expected all tensors to be on the same device, but found at least two devices, %s and %s! (index_put_)" % (d, where(t)))
        self.accelerated += d != CPU
        out = f(x, i, *v, **kwargs)
        return tag(out, d) if isinstance(out, T) else out

    def move(self, t, d, copy=False):
        if where(t) == d:
            return tag(t.clone(), d) if copy else t
        self.moved += 1
        # (to another device: always new memory)
        return tag(t.clone(), d)

    def to(self, func, args, kwargs):
        t, rest, kw = args[0], list(args[1:]), dict(kwargs)
        d, dt = kw.pop("device", None), kw.pop("dtype", None)
        other = kw.pop("other", None)
        copy = kw.pop("copy", False)
        flags = []
        for a in rest:
            if isinstance(a, T):
                other = a
            elif isinstance(a, torch.dtype):
                dt = a
            elif isinstance(a, bool):
                flags.append(a)
            elif isinstance(a, (str, torch.device, int)):
                d = a
            elif a is not None:
                raise TypeError("to() received an invalid argument: %r" % (a,))
        if len(flags) > 1:
            copy = flags[1]
        if other is not None:
            d, dt = where(other), other.dtype
        d = where(t) if d is None else norm(d)
        out = self.move(t, d, False)
        if dt is not None and out.dtype != dt:
            return tag(func(out, dt), d)
        if copy and out is t:
            return tag(t.clone(), d)
        return out


def guard(f):
    """a function of compiled code: it is given the tensors themselves, and gives back tensors of their device"""
    def wrapped(*a, **k):
        m = active()
        if m is None:
            return f(*a, **k)
        d = m.common(f, operands((a, k)))
        m.accelerated += d != CPU
        with torch._C.DisableTorchFunction():
            out = f(*a, **k)
        tag(tuple(out) if isinstance(out, tuple) else out, d)
        return out
    wrapped._unguarded = f
    return wrapped


def active():
    from torch.overrides import _get_current_function_mode_stack
    for m in reversed(_get_current_function_mode_stack()):
        if isinstance(m, Devices):
            return m
    return None


def _subscripts():
    """not every x[i] and x[i] = v reaches function modes in this torch"""
    get, put = torch._C.TensorBase.__getitem__, torch._C.TensorBase.__setitem__

    def __getitem__(self, i):
        m = active()
        if m is None:
            return get(self, i)
        with _Off():
            return m.__torch_function__(T.__getitem__, (), (self, i), {"_f": get})

    def __setitem__(self, i, v):
        m = active()
        if m is None:
            return put(self, i, v)
        with _Off():
            return m.__torch_function__(T.__setitem__, (), (self, i, v), {"_f": put})
    T.__getitem__, T.__setitem__ = __getitem__, __setitem__


_Off = torch._C.DisableTorchFunction


def install():
    """once per process that uses the monitor; the nearest-neighbour search is compiled code that it cannot look into"""
    import importlib
    import sys
    import chamferdist
    if getattr(T.__getitem__, "__name__", "") == "__getitem__" and T.__getitem__ is not torch._C.TensorBase.__getitem__ and hasattr(T.__getitem__, "__code__"):
        return
    for m in ("odometry", "slam", "structures", "geometry", "datasets"):
        importlib.import_module("gradslam." + m)
    _subscripts()
    orig = chamferdist.chamfer.knn_points
    orig = getattr(orig, "_unguarded", orig)
    g = guard(orig)
    for n, m in list(sys.modules.items()):
        if n.split(".")[0] in ("gradslam", "chamferdist") and m is not None:
            for k, v in list(vars(m).items()):
                if v is orig:
                    setattr(m, k, g)
