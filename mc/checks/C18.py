"""Interpolation passes through the samples and is linear in between."""
import itertools

import numpy as np

from .. import model, reduce, select
from ..core import LibraryError, Space

UNIT = {"ms": 1e3, "°": 180 / np.pi, "mm": 1e3}


def interp(v, i, x, pts):
    """Linear interpolation by hand along dimension i."""
    out = []
    order = np.argsort(x)
    for p in pts:
        hit = [k for k in range(len(x)) if x[k] == p]
        if hit:
            out.append(np.take(v, hit[0], axis=i))
            continue
        right = next(k for k in range(len(x)) if x[order[k]] > p)
        a, b = order[right - 1], order[right]
        t = (p - x[a]) / (x[b] - x[a])
        out.append((1 - t) * np.take(v, a, axis=i) + t * np.take(v, b, axis=i))
    return np.stack(out, axis=i)


def run(ctx, case):
    f, reqs = case["field"], case["reqs"]
    obj = model.build_field(f)
    v = model.full_values(f)
    args, data, labels = [], {}, {}
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        name = a["name"]
        if r[0] in ("data", "list"):
            x = model.full_coords(a)
            v = interp(v, i, x, r[1])
            scale = 1.0
            unit = ""
            if len(r) > 2:
                unit, scale = "{%s}" % r[2], UNIT[r[2]]
            pts = np.array(r[1]) * scale
            if r[0] == "data":
                data[name] = pts
                args.append(name + "=axis_data" + unit)
            else:
                args.append("%s=[%s]%s" % (name, ",".join(repr(float(p)) for p in pts), unit))
            labels[name] = pts
        elif r[0] == "op":
            args.append("%s=%s" % (name, r[1]))
            labels[name] = r[1]
        else:
            lab, idx, _ = select.pick(a, r)
            v = np.take(v, idx, axis=i)
            if r[0] != "omit":
                args.append(select.text(name, r))
                labels[name] = lab
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        if r[0] == "op":
            v = reduce.reduce_model(v, i, a, r[1])
    if case.get("rev"):
        args = args[::-1]
    ctx.state("interp", f, reqs)
    got = ctx.call(obj.get_along, *args, axis_data=data)
    sig = "+".join(sorted({r[0] for r in reqs}))
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(v))
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)


def run_compare(ctx, case):
    """Several fields on samplings with the same ends, read on the common one."""
    fs = case["fields"]
    objs = [model.build_field(f) for f in fs]
    kw = {}
    if case["method"] == "compare_magnitude_along":
        fun = np.abs
    elif case["method"] == "compare_phase_along":
        fun = np.angle
    else:
        fun = np.asarray
    names = [a["name"] for a in fs[0]["axes"]]
    finest = [max((f["axes"][i] for f in fs), key=lambda a: a["n"]) for i in range(len(names))]
    want = []
    for f in fs:
        v = fun(model.full_values(f))
        for i, (a, r) in enumerate(zip(f["axes"], case["reqs"])):
            if r[0] == "whole":
                v = interp(v, i, model.full_coords(a), model.full_coords(finest[i]))
            else:
                v = np.take(v, select.pick(a, r)[1], axis=i)
        want.append(np.squeeze(v))
    args = [select.text(nm, r) for nm, r in zip(names, case["reqs"]) if r[0] != "omit"]
    ctx.state("compare", case)
    got = ctx.call(getattr(objs[0], case["method"]), *args, data_list=objs[1:], **kw)
    if isinstance(got, LibraryError):
        ctx.require("compare", False, "%s %r" % (args, got))
        return
    ctx.agree("compare:self", got.get("X"), want[0])
    for k in range(1, len(fs)):
        ctx.agree("compare:other", got.get("X_%d" % (k - 1)), want[k])
    for i, (nm, r) in enumerate(zip(names, case["reqs"])):
        if r[0] == "whole":
            ctx.agree("compare:label", got.get(nm), model.full_coords(finest[i]))


def candidates(a, mids=True):
    x = model.full_coords(a)
    out = [float(v) for v in x]
    if mids:
        s = np.sort(x)
        out += [float(s[k] + q * (s[k + 1] - s[k])) for k in range(len(s) - 1) for q in ((0.25,) if k % 2 else (0.5,))]
    return out


AXES_Q = [
    ("time", 3, None, 0.0, 0.5), ("time", 3, ["period", 2], 0.0, 0.5), ("angle", 2, ["antiperiod", 2], 0.0, 0.5),
    ("x", 3, None, 1.5, 0.25), ("x", 3, ["period", 2], 1.5, 0.5), ("z", 4, None, -1.0, 0.5), ("time", 2, ["antiperiod", 4], -2.0, 1.0),
    ("x", 3, None, 100.0, 0.03125), ("x", 2, ["period", 3], 64.0, 0.015625),
]


def lists(tier):
    big = tier == "thorough"
    for kind in ("lin", "1d"):
        for name, n, sym, x0, h in AXES_Q:
            a = model.axis(name, n, sym, kind=kind, x0=x0, h=h)
            f = {"axes": [a], "cplx": False}
            c = candidates(a)
            for k in (2, 3) + ((4,) if big or len(c) <= 5 else ()):
                if big and k == 4 and len(c) > 8:
                    c = candidates(a, mids=False) + candidates(a)[-2:]
                for pts in itertools.product(c, repeat=k):
                    yield {"field": f, "reqs": [["data", list(pts)]]}
                    if k > 2:
                        yield {"field": f, "reqs": [["list", list(pts)]]}
            for pts in itertools.permutations(c[: min(len(c), 5)]):
                yield {"field": dict(f, cplx=True), "reqs": [["data", list(pts)]]}
    for x in ([0.0, 0.1, 1.0, 4.0], [5.0, 2.0, 1.0], [-3.0, -2.5, 7.0, 7.25]):
        a = model.axis("x", len(x), None, kind="1d", x=x)
        f = {"axes": [a], "cplx": False}
        for k in (2, 3):
            for pts in itertools.product(candidates(a), repeat=k):
                yield {"field": f, "reqs": [["data", list(pts)]]}


def units(tier):
    for name, unit in (("time", "ms"), ("angle", "°"), ("z", "mm")):
        for sym in (None, ["period", 2], ["antiperiod", 2], ["period", 3]):
            for n in (2, 3):
                a = model.axis(name, n, sym, h=0.5, x0=0.0)
                f = {"axes": [a], "cplx": False}
                c = candidates(a)
                for k in (2, 3):
                    for pts in itertools.product([p for p in c if p not in candidates(a, mids=False)] + c[:2] + [c[len(model.full_coords(a)) - 1]], repeat=k):
                        if max(pts) > 0 and k == 2 or unit != "°":
                            yield {"field": f, "reqs": [["data", list(pts), unit]]}


def several(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2]]
    for names in [("time", "angle"), ("x", "time"), ("angle", "x"), ("time", "x", "angle"), ("x", "angle", "time")]:
        for ss in itertools.product(syms, repeat=len(names)):
            if len(names) == 3 and not big and sum(s is not None for s in ss) > 1:
                continue
            axes = [model.axis(nm, n, s, x0=x0) for nm, n, s, x0 in zip(names, (2, 3, 2), ss, (0.0, 1.5, 0.0))]
            f = {"axes": axes, "cplx": False}
            al = []
            for a in axes:
                c = candidates(a)
                x = candidates(a, mids=False)
                m = len(x)
                mid = c[m:]
                d = [["data", [mid[-1], mid[0]]], ["data", [x[-1], x[0]]], ["data", [x[0], mid[0], x[-1], mid[0]]], ["data", list(x)], ["data", [mid[0], x[1], x[1]]], ["data", x[::-1]]]
                al.append(d + [["whole"], ["omit"], ["idx", 1], ["op", "sum"], ["rng", 1, m], ["op", "max"]])
            for reqs in itertools.product(*al):
                nd = sum(r[0] == "data" for r in reqs)
                if nd == 0 or (len(names) == 3 and nd > 1 and not big and any(r[0] == "data" and len(r[1]) != 2 for r in reqs)):
                    continue
                yield {"field": f, "reqs": list(reqs)}
                if nd == 1:
                    yield {"field": f, "reqs": list(reqs), "rev": True}


def compare(tier):
    for method in ("compare_along", "compare_magnitude_along", "compare_phase_along"):
        for ks in itertools.product((2, 3, 5, 9), repeat=2 if tier == "quick" else 3):
            for names in (("time",), ("x",), ("time", "angle"), ("angle", "x"), ("x", "time", "angle")):
                for combo in itertools.product((["whole"], ["idx", 0], ["omit"]), repeat=len(names)):
                    if not any(r[0] == "whole" for r in combo):
                        continue
                    fs = []
                    for j, k in enumerate(ks):
                        axes = [model.axis(nm, k, None, kind="1d", x=[4.0 * q / (k - 1) for q in range(k)]) for nm in names]
                        fs.append({"axes": axes, "cplx": method != "compare_along", "salt": j})
                    yield {"method": method, "fields": fs, "reqs": list(combo)}


def spaces():
    return [
        Space("lists", lists, run, "9 one-axis samplings x 2 kinds and 3 irregular axes: every list of 2 or 3 coordinates (4 thorough) over all samples and a point in each gap, in every order with repetitions, given as data or in the request; all permutations of 5 coordinates on complex fields"),
        Space("units", units, run, "time, angle, z with 4 symmetries: lists of coordinates given in another unit"),
        Space("several", several, run, "5 layouts of 2 or 3 axes with symmetries: coordinate lists on one or more axes combined with selections and reductions on the others"),
        Space("compare", compare, run_compare, "pairs (triples thorough) of fields on samplings of 2, 3, 5, 9 points of the same range, 1 to 3 axes, 3 comparison methods"),
    ]


ASSUMPTIONS = ["coordinates inside the range of the full axis; a single coordinate takes the nearest sample (selection property)"]
