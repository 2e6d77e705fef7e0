"""Oracle for gradients: autograd against central differences at two step sizes (double precision).

A direction is compared only when both step sizes agree and the shapes of the outputs do not
change, i.e. when no discrete choice (matching, validity, nearest neighbour) flips inside the
interval; skipped directions are counted.
"""
import numpy as np
import torch


def evaluate(f, xs, W=None, gen=None):
    outs = f(xs)
    outs = [o for o in outs if o is not None]
    if W is None:
        W = [torch.randn(o.shape, dtype=torch.float64, generator=gen) for o in outs]
    if [tuple(o.shape) for o in outs] != [tuple(w.shape) for w in W]:
        return None, W, outs
    return sum((o.double() * w).sum() for o, w in zip(outs, W)), W, outs


def check(ctx, f, inputs, masks=None, h=1e-6, rtol=1e-4, atol=1e-6, tag="", key=None, dirs=1, expect=None):
    """inputs: dict name -> double tensor.  masks: name -> 0/1 tensor of perturbable entries.
    expect: names that must receive a gradient (default all)."""
    masks = masks or {}
    xs = {k: v.clone().requires_grad_() for k, v in inputs.items()}
    y, W, outs = evaluate(f, xs, gen=ctx.tgen)
    if not ctx.ok("output-attached", y.requires_grad, "%s: result is detached from every input" % tag, key=key):
        return
    for k, t in xs.items():
        t.grad = None
    y.backward()
    good = True
    for k, t in xs.items():
        if t.grad is None:
            if expect is None or k in expect:
                good &= ctx.ok("gradient-exists", False, "%s: no gradient reaches %s" % (tag, k), key=key)
            continue
        ctx.count("monitor:gradient-exists")
        good &= ctx.ok("gradient-finite", torch.isfinite(t.grad).all(), lambda: "%s: %d of %d gradient entries of %s are not finite (value %s)" % (
            tag, int((~torch.isfinite(t.grad)).sum()), t.numel(), k, float(y)), key=key)
    if not good:
        return
    with torch.no_grad():
        for k in xs:
            if xs[k].grad is None:
                g = torch.zeros_like(inputs[k])
            else:
                g = xs[k].grad
            for _ in range(dirs):
                v = torch.randn(inputs[k].shape, dtype=torch.float64, generator=ctx.tgen)
                if k in masks:
                    v = v * masks[k]
                if ctx.rng.random() < .5 and v.numel() > 1:      # a single entry
                    i = int(ctx.rng.integers(0, v.numel()))
                    if k not in masks or masks[k].reshape(-1)[i]:
                        one = torch.zeros(v.numel(), dtype=torch.float64)
                        one[i] = 1.0
                        v = one.reshape(v.shape)
                if not v.abs().sum():
                    continue
                fd = []
                for step in (h, h / 4, 3 * h):
                    vals = []
                    for s in (1, -1):
                        p = dict(inputs)
                        p[k] = inputs[k] + s * step * v
                        vals.append(evaluate(f, p, W)[0])
                    if any(x is None or not torch.isfinite(x) for x in vals):
                        fd = None
                        break
                    fd.append(float((vals[0] - vals[1]) / (2 * step)))
                if fd is None:
                    ctx.count("directions-skipped-structure-changes")
                    continue
                an = float((g * v).sum())
                sc = max(abs(an), abs(fd[0]), 1e-3)
                noise = 4 * 2e-16 * max(1.0, abs(float(y)), sum(float((o.double().abs() * w.abs()).sum()) for o, w in zip(outs, W))) / (h / 4)
                if max(abs(fd[0] - fd[1]), abs(fd[0] - fd[2])) > 1e-4 * sc + 4 * noise:
                    ctx.count("directions-skipped-not-smooth")
                    continue
                ctx.ok("gradient-equals-finite-difference", abs(an - fd[0]) <= rtol * sc + atol + 8 * noise,
                       "%s: derivative along %s is %.9g by autograd, %.9g by finite differences" % (tag, k, an, fd[0]), key=key)
                if abs(fd[0]) > 1e-3:
                    ctx.count("directions-nonzero:" + k)
