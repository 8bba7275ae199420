"""Fields sampled over different ranges are compared over the range they share.

The reference writes every field out in full, keeps the coordinates lying in all
the ranges, takes those of the densest field and interpolates every field there.
"""
import itertools

import numpy as np

from .. import model, select
from ..core import LibraryError, Space
from .C18 import interp

FUN = {"compare_along": np.asarray, "compare_magnitude_along": np.abs, "compare_phase_along": np.angle}


def inside(x, lo, hi):
    return x[(x >= lo) & (x <= hi)]


def read(f, i, r):
    """Coordinates of the field along one axis under the request."""
    lab, idx, _ = select.pick(f["axes"][i], r)
    return np.asarray(lab, float), idx


def bases(xs):
    """Acceptable sets of coordinates, or None when the property says nothing."""
    lo, hi = max(x[0] for x in xs), min(x[-1] for x in xs)
    kept = [inside(x, lo, hi) for x in xs]
    n = max(len(k) for k in kept)
    if n < 2:
        return None, lo, hi
    return [k for k in kept if len(k) == n], lo, hi


def run(ctx, case):
    fs, method, reqs = case["fields"], case["method"], case["reqs"]
    names = [a["name"] for a in fs[0]["axes"]]
    free = [i for i, r in enumerate(reqs) if r[0] in ("whole", "int")]
    coords = {i: [read(f, i, reqs[i])[0] for f in fs] for i in free}
    if any(len(x) < 2 for i in free for x in coords[i]):
        return
    accept = {i: bases(coords[i]) for i in free}
    if any(accept[i][0] is None for i in free):
        return
    objs = [model.build_field(f) for f in fs]
    before = [model.snapshot(o) for o in objs]
    args = [select.text(nm, r) for nm, r in zip(names, reqs) if r[0] != "omit"]
    ctx.state("shared", case)
    got = ctx.call(getattr(objs[0], method), *args, data_list=objs[1:])
    if not ctx.require("answers", not isinstance(got, LibraryError), "%s %s %r" % (method, args, got)):
        return
    base = {}
    for i in free:
        ok, lo, hi = accept[i]
        g = np.asarray(got.get(names[i]), float)
        base[i] = g
        if len(fs) == 2:
            same = any(len(g) == len(k) and np.allclose(g, k, rtol=1e-12, atol=1e-12) for k in ok)
            if not ctx.require("coordinates", same, "%s %s: %s instead of %s" % (method, args, g.tolist(), [k.tolist() for k in ok])):
                return
        else:
            whole = np.concatenate(coords[i])
            fine = g.ndim == 1 and len(g) > 0 and (g >= lo - 1e-12).all() and (g <= hi + 1e-12).all() and all(np.abs(whole - p).min() < 1e-12 for p in g)
            if not ctx.require("coordinates", fine and (np.diff(g) > 0).all(), "%s %s: %s outside [%s, %s]" % (method, args, g.tolist(), lo, hi)):
                return
            if len(g) < 2:
                return
    for k, f in enumerate(fs):
        v = FUN[method](model.full_values(f))
        for i, r in enumerate(reqs):
            if i in free:
                x, idx = read(f, i, r)
                v = interp(np.take(v, idx, axis=i), i, x, snap(base[i], x))
            else:
                v = np.take(v, select.pick(f["axes"][i], r)[1], axis=i)
        name = "X" if k == 0 else "X_%d" % (k - 1)
        ctx.agree("values:self" if k == 0 else "values:other", got.get(name), np.squeeze(v))
    ctx.require("unchanged", all(model.snapshot(o) == b for o, b in zip(objs, before)), "%s %s changed a field" % (method, args))


def snap(pts, x):
    return [float(x[np.abs(x - p).argmin()]) if np.abs(x - p).min() < 1e-9 else float(p) for p in pts]


GRIDS_Q = [(x0, h, n) for x0 in (0.0, 0.5, 1.25) for h in (0.5, 1.0, 0.75) for n in (2, 3, 4, 6)]
GRIDS_T = [(x0, h, n) for x0 in (0.0, 0.5, 1.0, 1.25, -0.75) for h in (0.5, 1.0, 0.75, 0.25) for n in (2, 3, 4, 5, 6, 7)]


def pairs(tier):
    grids = GRIDS_T if tier == "thorough" else GRIDS_Q
    for g1, g2 in itertools.product(grids, repeat=2):
        for name, kinds in (("x", ("lin", "lin")), ("time", ("1d", "lin"))):
            a = [model.axis(name, n, None, kind=kd, x0=x0, h=h) for (x0, h, n), kd in zip((g1, g2), kinds)]
            for method in FUN:
                fs = [{"axes": [b], "cplx": method != "compare_along", "salt": j} for j, b in enumerate(a)]
                yield {"fields": fs, "method": method, "reqs": [["whole"]]}


def intervals(tier):
    """The part asked for lies inside both ranges, or sticks out of one of them."""
    grids = [(x0, h, n) for x0 in (0.0, 0.5, 1.25) for h in (0.5, 0.75) for n in (4, 7)]
    ends = (0.5, 1.0, 1.75, 2.5, 3.25)
    for g1, g2 in itertools.product(grids, repeat=2):
        a = [model.axis("x", n, None, x0=x0, h=h) for (x0, h, n) in (g1, g2)]
        fs = [{"axes": [b], "cplx": False, "salt": j} for j, b in enumerate(a)]
        for lo, hi in itertools.combinations(ends, 2):
            if all(len(inside(model.full_coords(b), lo, hi)) > 1 and lo >= b["x0"] and hi <= model.full_coords(b)[-1] for b in a):
                yield {"fields": fs, "method": "compare_along", "reqs": [["int", lo, hi]]}


def periodic(tier):
    stores = [("time", 2, ["period", 3]), ("time", 2, ["antiperiod", 4]), ("time", 3, ["period", 2]), ("time", 3, ["antiperiod", 2]), ("time", 6, None), ("time", 5, None)]
    for s1, s2 in itertools.product(stores, repeat=2):
        for p1, p2 in itertools.product([(0.0, 0.5), (0.25, 0.5), (1.0, 0.75), (0.0, 1.0)], repeat=2):
            for kind in ("lin", "1d"):
                a = [model.axis(nm, n, sym, kind=kind, x0=x0, h=h) for (nm, n, sym), (x0, h) in ((s1, p1), (s2, p2))]
                fs = [{"axes": [b], "cplx": False, "salt": j} for j, b in enumerate(a)]
                yield {"fields": fs, "method": "compare_along", "reqs": [["whole"]]}


def layouts(tier):
    grids = [(0.0, 0.5, 4), (0.25, 1.0, 3), (0.5, 0.75, 3), (-0.5, 0.5, 5)]
    for names in (("time", "x"), ("x", "time"), ("x", "z"), ("x", "time", "z")):
        for g1, g2 in itertools.product(grids, repeat=2):
            for h1, h2 in ((grids[0], grids[1]), (grids[3], grids[0]), (grids[2], grids[2])):
                def axes(ga, gb):
                    out = []
                    for k, nm in enumerate(names):
                        x0, h, n = ga if k == 0 else gb if k == 1 else (0.0, 1.0, 2)
                        out.append(model.axis(nm, n, None, x0=x0, h=h))
                    return out

                for method in ("compare_along", "compare_magnitude_along"):
                    fs = [{"axes": axes(g1, h1), "cplx": method != "compare_along", "salt": 0}, {"axes": axes(g2, h2), "cplx": method != "compare_along", "salt": 1}]
                    for combo in itertools.product((["whole"], ["idx", 1], ["omit"]), repeat=len(names)):
                        if any(r[0] == "whole" for r in combo) and not (combo[0][0] == "omit" and len(names) == 3):
                            yield {"fields": fs, "method": method, "reqs": list(combo)}


def triples(tier):
    grids = [(0.0, 0.5, 7), (0.5, 1.0, 3), (0.25, 0.75, 4), (1.0, 0.5, 5), (-0.5, 1.0, 4)]
    if tier == "thorough":
        grids += [(0.75, 0.25, 6), (-1.0, 0.75, 6)]
    for gs in itertools.product(grids, repeat=3):
        for method in FUN:
            fs = [{"axes": [model.axis("x", n, None, x0=x0, h=h)], "cplx": method != "compare_along", "salt": j} for j, (x0, h, n) in enumerate(gs)]
            yield {"fields": fs, "method": method, "reqs": [["whole"]]}


def spaces():
    return [
        Space("pairs", pairs, run, "every ordered pair of 36 samplings (120 thorough: 3 to 5 starts x 3 or 4 steps x 2 to 7 samples) sharing at least two samples of one of them, 2 storages, values, magnitudes and phases"),
        Space("intervals", intervals, run, "ordered pairs of 12 samplings x every interval with ends among 5 values that lies in both"),
        Space("periodic", periodic, run, "ordered pairs of 6 symmetries stored over 4 ranges, 2 storages"),
        Space("layouts", layouts, run, "4 layouts of 2 or 3 axes, ranges differing along one or two axes, the others whole, sliced or left out"),
        Space("triples", triples, run, "every ordered triple of 5 samplings (7 thorough), values, magnitudes and phases"),
    ]


ASSUMPTIONS = [
    "coordinates increase, and the densest field has at least two samples in the shared range",
    "when both fields have as many samples in the shared range, the samples of either are accepted",
    "with three fields the coordinates may be any increasing samples of the fields within the shared range",
]
