"""C11: association of map points with frame pixels."""
import warnings

import numpy as np
import torch

from vlib import gen, mapmodel as MM
from vlib.core import Check, Family, Skip

# the library's intrinsics inverse carries an epsilon of 1e-6, hence no tighter slack in double precision
# projecting a map does not involve the inverse of the intrinsics
VS = {torch.float32: 6e-6, torch.float64: 1e-10}
SL = {torch.float32: 6e-6, torch.float64: 3e-6}


def setup(ctx, B=None, **kw):
    rng = ctx.rng
    dt = gen.dt(rng, .5)
    r = MM.surface_rgbd(rng, B=B, dtype=dt, big=.03, wide=.12, **kw)
    frs = MM.frames_of(r)
    cf = bool(rng.random() < .4)
    im = r.build(cf)
    els = [MM.map_for_frame(rng, f, big=.03) for f in frs]
    if rng.random() < .15:
        n = max(1, len(els[0]))
        els = [MM.map_for_frame(rng, f, n) for f in frs]
    pc = MM.build_map(els, dt, padded=rng.random() < .5)
    if rng.random() < .4:
        pc.points_padded, pc.normals_padded, pc.features_padded
    return dt, frs, im, els, pc, r


def rows_of(t):
    a = t.detach().cpu().numpy()
    return [tuple(int(v) for v in x) for x in a]


def check_table(ctx, t, msg=""):
    ok = ctx.ok("table-format", torch.is_tensor(t) and t.ndim == 2 and t.shape[1] == 4 and t.dtype == torch.int64, "%s: %s" % (msg, t))
    return rows_of(t) if ok else []


def active(ctx):
    from gradslam.slam.fusionutils import find_active_map_points
    dt, frs, im, els, pc, r = setup(ctx)
    t = find_active_map_points(pc, im)
    rows = check_table(ctx, t)
    ctx.ok("table-no-duplicates", len(set((b, n) for b, n, _, _ in rows)) == len(rows), "a map point is listed twice")
    got = {(b, n): (h, w) for b, n, h, w in rows}
    seen = 0
    for b, (f, e) in enumerate(zip(frs, els)):
        yes, unsure, row, col = MM.visible(f, e.P, VS[dt])
        for n in range(len(e)):
            if unsure[n]:
                ctx.count("undecidable-points-skipped")
                got.pop((b, n), None)
                continue
            g = got.pop((b, n), None)
            z, u, v = (x[0] for x in MM.project(f, e.P[n:n + 1]))
            if yes[n]:
                seen += 1
                ctx.ok("visible-listed-at-nearest-pixel", g == (row[n], col[n]), lambda: "map point %d of element %d projects to (u %.4f, v %.4f, z %.4f) in a %dx%d image: listed as %s, expected %s" % (n, b, u, v, z, f.h, f.w, g, (row[n], col[n])))
            else:
                ctx.ok("invisible-not-listed", g is None, lambda: "map point %d of element %d (u %.4f, v %.4f, z %.4f, image %dx%d) is not visible but listed at %s" % (n, b, u, v, z, f.h, f.w, g))
    ctx.ok("only-real-points", not got, "rows for points that do not exist: %s" % list(got.items())[:4])
    ctx.count("visible-points", seen)
    ctx.set(sizes=[len(e) for e in els], image=(frs[0].h, frs[0].w), dtype=str(dt), channels_first=im.channels_first)
    ctx.state(tuple(min(len(e), 9) for e in els), frs[0].h, frs[0].w, str(dt), im.channels_first)


def random_table(rng, els, frs, hot=True):
    rows = []
    for b, (e, f) in enumerate(zip(els, frs)):
        px = [(int(rng.integers(0, f.h)), int(rng.integers(0, f.w))) for _ in range(3)]
        for n in rng.permutation(len(e)):
            if rng.random() < .8:
                h, w = px[int(rng.integers(0, 3))] if hot and rng.random() < .6 else (int(rng.integers(0, f.h)), int(rng.integers(0, f.w)))
                rows.append((b, int(n), h, w))
    if rng.random() < .5:
        rows = [rows[i] for i in rng.permutation(len(rows))]
    return rows


def thresholds(rng):
    return float(rng.choice([.02, .05, .2, .5, 3.0])), float(rng.choice([0, .2, .6, .9, .99]))


def sim(ctx):
    from gradslam.slam.fusionutils import find_active_map_points, find_similar_map_points
    rng = ctx.rng
    dt, frs, im, els, pc, r = setup(ctx)
    if rng.random() < .6:
        table = find_active_map_points(pc, im)
    else:
        table = torch.tensor(random_table(rng, els, frs), dtype=torch.int64).reshape(-1, 4)
    dist_th, dot_th = thresholds(rng)
    if rng.random() < .2:
        dist_th, dot_th = 1, 0
    out, mask = find_similar_map_points(pc, im, table, dist_th, dot_th)
    rows = check_table(ctx, out)
    inp = rows_of(table)
    if not ctx.ok("mask-format", mask.dtype == torch.bool and tuple(mask.shape) == (len(inp),), "%s" % (mask.shape,)):
        return
    ctx.ok("mask-selects-rows", rows == [x for x, m in zip(inp, mask.tolist()) if m], "the returned table is not the masked input table")
    n_yes = 0
    for i, (b, n, h, w) in enumerate(inp):
        f, e = frs[b], els[b]
        yes, unsure, d = MM.similar(f, e.P[n:n + 1], e.N[n:n + 1], np.array([h]), np.array([w]), dist_th, dot_th, SL[dt])
        if unsure[0]:
            ctx.count("undecidable-points-skipped")
            continue
        n_yes += int(yes[0])
        ctx.ok("similar-iff-close-and-aligned", bool(mask[i]) == bool(yes[0]), lambda: "element %d point %d pixel (%d,%d): distance %.5g (threshold %s), normal dot %.5g (threshold %s), depth valid %s: reported %s"
               % (b, n, h, w, d[0], dist_th, float(e.N[n] @ f.GN[h, w]), dot_th, bool(f.valid[h, w]), bool(mask[i])))
        if not f.valid[h, w]:
            ctx.count("pixels-without-depth-tested")
    ctx.count("similar-points", n_yes)
    ctx.set(rows=len(inp), kept=n_yes, dist_th=dist_th, dot_th=dot_th, dtype=str(dt))
    ctx.state(min(len(inp), 12), min(n_yes, 8), dist_th, dot_th, str(dt), im.channels_first)


def check_unique(ctx, rows_in, rows, els, frs, dt):
    groups = {}
    for x in rows_in:
        groups.setdefault((x[0], x[2], x[3]), []).append(x[1])
    ctx.ok("one-map-point-per-pixel", len(set((b, h, w) for b, n, h, w in rows)) == len(rows), "two map points for one pixel")
    ctx.ok("one-pixel-per-map-point", len(set((b, n) for b, n, h, w in rows)) == len(rows), "one map point for two pixels")
    ctx.ok("unique-covers-every-pixel", set((b, h, w) for b, n, h, w in rows) == set(groups), "pixels matched: %d, pixels with candidates: %d" % (len(rows), len(groups)))
    for b, n, h, w in rows:
        cand = groups.get((b, h, w))
        if cand is None or not ctx.ok("unique-from-candidates", n in cand, "point %d is not a candidate of pixel %s" % (n, (b, h, w))):
            continue
        if len(cand) < 2:
            continue
        e, f = els[b], frs[b]
        c = e.c[cand, 0]
        best = c.max()
        ctx.count("contested-pixels")
        me = float(e.c[n, 0])
        if not ctx.ok("highest-confidence-wins", me >= best * (1 - 1e-5), lambda: "pixel %s: point %d has confidence %.6g, point %d has %.6g" % ((b, h, w), n, me, cand[int(c.argmax())], best)):
            continue
        near = [k for k in cand if e.c[k, 0] == e.c[n, 0]]
        if len(near) > 1:
            d = [np.linalg.norm(e.P[k] - f.GV[h, w]) for k in near]
            dn = np.linalg.norm(e.P[n] - f.GV[h, w])
            sc = max(1.0, np.abs(e.P).max())
            ctx.count("confidence-ties")
            ctx.ok("closest-wins-ties", dn <= min(d) + SL[dt] * 100 * sc, lambda: "pixel %s: point %d at %.6g chosen over one at %.6g" % ((b, h, w), n, dn, min(d)))


def uniq(ctx):
    from gradslam.slam.fusionutils import find_best_unique_correspondences
    rng = ctx.rng
    dt, frs, im, els, pc, r = setup(ctx)
    rows_in = random_table(rng, els, frs)
    table = torch.tensor(rows_in, dtype=torch.int64).reshape(-1, 4)
    before = table.clone()
    out = find_best_unique_correspondences(pc, im, table)
    rows = check_table(ctx, out)
    check_unique(ctx, rows_in, rows, els, frs, dt)
    ctx.eq("table-unchanged", table, before)
    ctx.set(rows=len(rows_in), kept=len(rows), dtype=str(dt))
    ctx.state(min(len(rows_in), 12), min(len(rows), 8), len(els), str(dt), im.channels_first)


def pipeline(ctx):
    from gradslam.slam import fusionutils as F
    rng = ctx.rng
    dt, frs, im, els, pc, r = setup(ctx)
    dist_th, dot_th = thresholds(rng)
    out = F.find_correspondences(pc, im, dist_th, dot_th)
    rows = check_table(ctx, out)
    # the candidates by the model alone
    cand, unsure_px = [], set()
    for b, (f, e) in enumerate(zip(frs, els)):
        if not len(e):
            continue
        yes, un, row, col = MM.visible(f, e.P, VS[dt])
        if un.any():
            # a point that may or may not be visible makes its (unknown) pixel undecidable
            z, u, v = MM.project(f, e.P[un])
            for uu, vv in zip(u, v):
                for a in (np.floor(vv), np.ceil(vv)):
                    for c in (np.floor(uu), np.ceil(uu)):
                        if np.isfinite(a) and np.isfinite(c):
                            unsure_px.add((b, int(np.clip(a, 0, f.h - 1)), int(np.clip(c, 0, f.w - 1))))
        ix = np.nonzero(yes)[0]
        y2, u2, _ = MM.similar(f, e.P[ix], e.N[ix], row[ix], col[ix], dist_th, dot_th, SL[dt])
        for k, n in enumerate(ix):
            if u2[k]:
                unsure_px.add((b, int(row[n]), int(col[n])))
            elif y2[k]:
                cand.append((b, int(n), int(row[n]), int(col[n])))
    cand = [x for x in cand if (x[0], x[2], x[3]) not in unsure_px]
    rows = [x for x in rows if (x[0], x[2], x[3]) not in unsure_px]
    ctx.count("undecidable-pixels-skipped", len(unsure_px))
    ctx.count("associations", len(rows))
    check_unique(ctx, cand, rows, els, frs, dt)
    ctx.set(sizes=[len(e) for e in els], matched=len(rows), dist_th=dist_th, dot_th=dot_th, dtype=str(dt))
    ctx.state(tuple(min(len(e), 9) for e in els), min(len(rows), 6), dist_th, dot_th, str(dt))


def emptymap(ctx):
    from gradslam.slam import fusionutils as F
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    r = MM.surface_rgbd(rng)
    pc = Pointclouds()
    im = r.build()
    a = F.find_active_map_points(pc, im)
    ctx.ok("empty-map", tuple(a.shape) == (0, 4) and a.dtype == torch.int64, "%s" % a)
    s, m = F.find_similar_map_points(pc, im, a, .1, .5)
    ctx.ok("empty-map", tuple(s.shape) == (0, 4) and m.numel() == 0, "%s" % s)
    ctx.ok("empty-map", tuple(F.find_best_unique_correspondences(pc, im, s).shape) == (0, 4))
    ctx.ok("empty-map", tuple(F.find_correspondences(pc, im, .1, .5).shape) == (0, 4))
    dt, frs, im, els, pc, r = setup(ctx)
    e = torch.empty((0, 4), dtype=torch.int64)
    s, m = F.find_similar_map_points(pc, im, e, .1, .5)
    ctx.ok("empty-table", tuple(s.shape) == (0, 4) and m.numel() == 0)
    ctx.ok("empty-table", tuple(F.find_best_unique_correspondences(pc, im, e).shape) == (0, 4))
    # a sequence longer than one frame, a wrong batch size, a float table are refused
    r2 = MM.surface_rgbd(rng, B=len(els), L=2)
    ctx.raises("rejected", (ValueError,), lambda: F.find_active_map_points(pc, r2.build()), "two frames")
    r3 = MM.surface_rgbd(rng, B=len(els) + 1)
    if pc.has_points:
        ctx.raises("rejected", (ValueError,), lambda: F.find_active_map_points(pc, r3.build()), "batch size")
    ctx.raises("rejected", (TypeError,), lambda: F.find_similar_map_points(pc, im, e.float(), .1, .5), "float table")
    ctx.raises("rejected", (TypeError,), lambda: F.find_best_unique_correspondences(pc, im, e.int()), "int32 table")
    ctx.raises("rejected", (ValueError,), lambda: F.find_similar_map_points(pc, im, e[:, :3], .1, .5), "three columns")
    ctx.state(len(els), im.channels_first, pc.has_points)


def huge(ctx):
    """maps with more points than single precision can count"""
    from gradslam.slam import fusionutils as F
    from gradslam.structures.pointclouds import Pointclouds
    rng = ctx.rng
    n = 2 ** 24 + 40
    r = gen.rgbd(rng, B=1, L=1, h=4, w=4, poses=True, missing="none", kind="plane", skew=False)
    f = MM.frames_of(r)[0]
    pts = torch.zeros(1, n, 3)
    pts[..., 2] = -1.0          # everything behind an identity camera ...
    r.poses[:] = np.eye(4)
    f = MM.frames_of(r)[0]
    last = list(range(n - 12, n))
    for k, i in enumerate(last):          # ... except the last few
        pts[0, i] = torch.tensor(f.GV[k // 4, k % 4])
    pc = Pointclouds(pts)
    im = r.build()
    rows = rows_of(F.find_active_map_points(pc, im))
    ctx.ok("huge-active", sorted(x[1] for x in rows) == last, "points %s listed, expected %s" % ([x[1] for x in rows][:5], last[:5]))
    pc.features_padded = torch.ones(1, n, 1)
    table = [(0, i, k // 4, k % 4) for k, i in enumerate(last)]
    out = rows_of(F.find_best_unique_correspondences(pc, im, torch.tensor(table)))
    ctx.ok("huge-unique", sorted(out) == sorted(table), "%s" % out[:4])
    ctx.set(points=n)
    ctx.state("huge")


def quiet(fn):
    def g(ctx):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    return g


CHECK = Check("C11", [
    Family("active", quiet(active), 500, 10000),
    Family("similar", quiet(sim), 400, 8000),
    Family("unique", quiet(uniq), 400, 8000),
    Family("pipeline", quiet(pipeline), 400, 8000),
    Family("emptymap", quiet(emptymap), 40, 400),
    Family("huge", quiet(huge), 1, 2),
], require=["visible-listed-at-nearest-pixel", "invisible-not-listed", "only-real-points", "similar-iff-close-and-aligned", "pixels-without-depth-tested", "similar-points",
            "contested-pixels", "confidence-ties", "highest-confidence-wins", "closest-wins-ties", "associations", "empty-map", "huge-active", "huge-unique"],
    rule="case = random frame, pose and map; distinct = (map sizes, table sizes, image size, thresholds, dtype, layout)",
    assumptions=["points within rounding (or 2e-3 pixel) of the image border, of a half-pixel, or of a threshold are not judged", "dot-product threshold not negative"])
