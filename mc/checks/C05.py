"""Derivatives and primitives follow the calculus of periodic signals."""
import itertools

import numpy as np

from .. import model, reduce, select, spectral
from ..core import LibraryError, Space

DIFF = ("derivate", "antiderivate", "integrate_local")


def centred(v, i, a):
    """The same values with a zero average over one period along dimension i."""
    if a["sym"] and a["sym"][0] == "antiperiod":
        return v
    return v - v.mean(axis=i, keepdims=True)


def derivate(v, i, a):
    """Central difference of the periodic signal, all periods written out."""
    return (np.roll(v, -1, axis=i) - np.roll(v, 1, axis=i)) / (2 * a["h"])


def primitive(v, i, a):
    """Zero-average trapezoidal primitive of the zero-average signal."""
    nxt = np.roll(v, -1, axis=i)
    seg = (v + nxt) * a["h"] / 2
    c = np.cumsum(seg, axis=i) - seg  # integral from the first sample
    return c - c.mean(axis=i, keepdims=True)


def local(v, i, a):
    """Integral of each segment of the stored samples, half on each of its ends."""
    v = np.moveaxis(v, i, 0)
    seg = (v[:-1] + v[1:]) * a["h"] / 2
    out = np.zeros_like(v)
    out[:-1] += seg / 2
    out[1:] += seg / 2
    return np.moveaxis(out, 0, i)


def segments(v, i, a):
    v = np.moveaxis(v, i, 0)
    return np.moveaxis((v[:-1] + v[1:]) * a["h"] / 2, 0, i)


def field_values(f, dims):
    """Stored values, zero average along the dimensions in `dims`."""
    v = model.stored_values(f)
    for i in dims:
        v = centred(v, i, f["axes"][i])
    return v


def run(ctx, case):
    f, reqs, order = case["field"], case["reqs"], case["order"]
    prim = [i for i, r in enumerate(reqs) if r[0] == "antiderivate"]
    stored = field_values(f, prim)
    obj = model.build_field(f)
    obj.values = stored.copy()
    v = stored
    for i, a in enumerate(f["axes"]):
        v = model.expand(v, i, a)
    labels, args = {}, {}
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        if r[0] in DIFF or r[0] == "op":
            op = r[1] if r[0] == "op" else r[0]
            args[i] = "%s=%s" % (a["name"], op)
            labels[a["name"]] = op if r[0] == "op" else model.stored_coords(a)
        elif r[0] != "omit":
            args[i] = select.text(a["name"], r)
        if r[0] not in DIFF and r[0] != "op":
            lab, idx, _ = select.pick(a, r)
            v = np.take(v, idx, axis=i)
            if r[0] != "omit":
                labels[a["name"]] = lab
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        head = list(range(a["n"]))
        if r[0] == "derivate":
            v = np.take(derivate(v, i, a), head, axis=i)
        elif r[0] == "antiderivate":
            v = np.take(primitive(v, i, a), head, axis=i)
        elif r[0] == "integrate_local":
            v = np.take(v, head, axis=i)
            if a["name"] == "z":
                x = model.stored_coords(a)
                labels["z"] = (x[:-1] + x[1:]) / 2
                v = segments(v, i, a)
            else:
                v = local(v, i, a)
        elif r[0] == "op":
            v = reduce.reduce_model(v, i, a, r[1])
    ctx.state("calc", f, reqs)
    got = ctx.call(obj.get_along, *[args[i] for i in order if i in args])
    sig = "+".join("%s" % (r[1] if r[0] == "op" else r[0]) for r in reqs)
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(v))
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)


def run_freq(ctx, case):
    """Along frequency: multiplication / division by i times the pulsation."""
    f, op, cls, fr = case["field"], case["op"], case["cls"], case["range"]
    i = [a["name"] for a in f["axes"]].index("time")
    obj = model.build_field(f)
    if cls == "DataFreq":
        obj = ctx.call(obj.time_to_freq)
        if isinstance(obj, LibraryError):
            ctx.require("conversion", False, repr(obj))
            return
    doms = ["s" if a["name"] == "time" or case["both"] and a["name"] == "angle" else "d" for a in f["axes"]]
    _, v = spectral.answer(f, [["whole"]] * len(doms), doms, stored=True)
    fl = spectral.lines(f["axes"][i], f["cplx"])
    w = 2j * np.pi * fl.reshape([-1 if k == i else 1 for k in range(v.ndim)])
    with np.errstate(all="ignore"):
        want = v * w if op == "derivate" else v / w
    args = []
    for k, (a, d) in enumerate(zip(f["axes"], doms)):
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        args.append(name + ("=" + op if k == i else ""))
    ctx.state("freq", f, op, cls)
    got = ctx.call(obj.get_along, *args)
    if isinstance(got, LibraryError):
        ctx.require("freq:" + op, False, "%s %r" % (args, got))
        return
    g = np.asarray(got.get("X"))
    w = np.squeeze(want)
    if not ctx.require("freq:shape", g.shape == w.shape, "%s instead of %s" % (g.shape, w.shape)):
        return
    if op == "antiderivate":  # undefined on the constant line
        keep = np.flatnonzero(fl != 0)
        pos = sum(1 for k in range(i) if want.shape[k] > 1)
        g, w = np.take(g, keep, axis=pos), np.take(w, keep, axis=pos)
    ctx.agree("freq:" + op, g, w)
    ctx.agree("freq:label", got.get("freqs"), fl)


SYMS = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]


def diffs(a):
    if a["name"] == "x" or a["n"] < 2:
        return []
    out = [["derivate"], ["antiderivate"]]
    if a["name"] != "z" or a["n"] > 1:
        out.append(["integrate_local"])
    return out


def one_axis(tier):
    big = tier == "thorough"
    for n in [3, 2, 4, 5] + ([6, 7, 8] if big else [6]):
        for sym in SYMS + ([["period", 5], ["antiperiod", 6]] if big else []):
            for name in ("time", "angle", "z"):
                for kind in ("lin", "1d"):
                    for x0, h in ((0.0, 0.5), (1.5, 0.5), (-2.0, 3.0), (0.25, 0.02), (-1.0, 0.5)):
                        for cplx in (False, True):
                            for salt in range(3 if big else 1):
                                a = model.axis(name, n, sym, kind=kind, x0=x0, h=h)
                                for r in diffs(a):
                                    yield {"field": {"axes": [a], "cplx": cplx, "salt": salt}, "reqs": [r], "order": [0]}


def several_axes(tier):
    big = tier == "thorough"
    triples = [("time", "angle"), ("angle", "time"), ("x", "time"), ("z", "angle"), ("time", "x", "angle"), ("x", "z", "time"), ("angle", "time", "x")]
    syms = [None, ["period", 2], ["antiperiod", 2]]
    for names in triples:
        for ss in itertools.product(syms, repeat=len(names)):
            if not big and len(names) == 3 and sum(s is not None for s in ss) > 1:
                continue
            for x0 in (0.0, 1.5):
                axes = [model.axis(nm, n, s, x0=x0) for nm, n, s in zip(names, (3, 4, 2), ss)]
                f = {"axes": axes, "cplx": False}
                al = []
                for a in axes:
                    al.append(diffs(a) + [["whole"], ["omit"], ["idx", 1], ["op", "sum"], ["rng", 0, 2]] + ([["op", "rms"], ["op", "max"]] if big else []))
                for reqs in itertools.product(*al):
                    nd = sum(r[0] in DIFF for r in reqs)
                    if nd == 0 or (nd > 1 and len(names) == 3) or (nd and any(r[0] == "op" for r in reqs) and nd > 1):
                        continue
                    yield {"field": f, "reqs": list(reqs), "order": list(range(len(names)))}
                    if nd == 1 and x0 == 0.0:
                        yield {"field": f, "reqs": list(reqs), "order": list(range(len(names)))[::-1]}


def freq_cases(tier):
    big = tier == "thorough"
    for sym in SYMS:
        for cplx in (False, True):
            for n in (4, 2, 6) + ((3, 5, 8) if big else ()):
                at = model.axis("time", n, sym)
                aa = spectral.angle_axis(3)
                ax = model.axis("x", 2)
                for axes in ([at], [at, aa], [aa, at], [ax, at], [ax, aa, at], [at, ax, aa]):
                    f = {"axes": axes, "cplx": cplx}
                    for op in ("derivate", "antiderivate"):
                        for cls in ("DataTime", "DataFreq"):
                            for both in (False, True):
                                if cls == "DataFreq" and not cplx and model.one_period(at) % 2:
                                    continue
                                yield {"field": f, "op": op, "cls": cls, "both": both, "range": None}


def spaces():
    return [
        Space("one_axis", one_axis, run, "time, angle and z axes, 2..6 stored samples (8 thorough), 5 symmetries (7), 5 samplings (origins before, at and after zero), linear and explicit, real and complex"),
        Space("several_axes", several_axes, run, "7 combinations and orders of 2 or 3 axes with symmetries, derivative/primitive/local integral on one or two axes, selections and sums on the others"),
        Space("frequency", freq_cases, run_freq, "time-domain and spectral storage, 6 axis layouts, 5 symmetries, real and complex, derivative and primitive along frequency"),
    ]


ASSUMPTIONS = ["axes are uniform; the primitive is judged on zero-average signals; the constant line of a spectrum has no primitive and is not judged"]
