"""Levels in decibels, A-weighting and octave bands follow their definition."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space

POWER = ("W", "mW", "kW")
THIRD = [12.5, 16, 20, 25, 31.5, 40, 50, 63, 80, 100, 125, 160, 200, 250, 315, 400, 500, 630, 800, 1000, 1250, 1600, 2000, 2500, 3150, 4000, 5000, 6300, 8000, 10000, 12500, 16000, 20000]
OCTAVE = [16, 31.5, 63, 125, 250, 500, 1000, 2000, 4000, 8000, 16000]
THIRD_A = [-63.4, -56.7, -50.5, -44.7, -39.4, -34.6, -30.2, -26.2, -22.5, -19.1, -16.1, -13.4, -10.9, -8.6, -6.6, -4.8, -3.2, -1.9, -0.8, 0, 0.6, 1, 1.2, 1.3, 1.2, 1, 0.5, -0.1, -1.1, -2.5, -4.3, -6.6, -9.3]


def level(m, unit, ref):
    """Level of magnitudes; without energy, or below a given reference, it is 0."""
    m = np.asarray(m, float)
    k = 10.0 if unit in POWER else 20.0
    out = np.zeros(m.shape)
    low = ref if ref != 1 else 0.0
    on = m > low
    out[on] = k * np.log10(m[on] / ref)
    return out


def weight(f):
    """A-weighting of IEC 61672; -100 dB for the continuous component."""
    f = np.atleast_1d(np.asarray(f, float))
    out = np.full(f.shape, -100.0)
    g = f[f != 0] ** 2
    f1, f2, f3, f4 = 20.6, 107.7, 737.0, 12200.0
    ra = f4 ** 2 * g ** 2 / ((g + f1 ** 2) * np.sqrt((g + f2 ** 2) * (g + f3 ** 2)) * (g + f4 ** 2))
    out[f != 0] = 20 * np.log10(ra) + 2.0
    return out


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------
def run_function(ctx, case):
    from SciDataTool.Functions.conversions import dB_to_dBA, to_dB, to_dBA

    unit, ref, form = case["unit"], case["ref"], case["form"]
    m = np.array(case["m"], float)
    f = np.array(case["f"], int if case.get("int") else float)
    ctx.state("function", form, unit, ref, case["m"], case["f"])
    keep, keepf = m.copy(), f.copy()
    if form == "dB":
        got, want = ctx.call(to_dB, m, unit, ref), level(keep, unit, ref)
    elif form == "scalar":
        got, want = ctx.call(to_dB, float(m[0]), unit, ref), level(keep[0], unit, ref)
    elif form == "dBA":
        got, want = ctx.call(to_dBA, m, f, unit, ref), level(keep, unit, ref) + weight(keepf)
    elif form == "weight":
        got, want = ctx.call(dB_to_dBA, m, f), keep + weight(keepf)
    else:
        got, want = ctx.call(dB_to_dBA, m, f, noct=3), keep + np.array([THIRD_A[THIRD.index(x)] for x in keepf])
    if isinstance(got, LibraryError):
        ctx.require("function:error:" + form, False, repr(got))
        return
    ctx.agree("function:" + form, got, want, atol=1e-9, squeeze=False)
    ctx.agree("function:magnitudes modified:" + form, m, keep)
    ctx.agree("function:frequencies modified:" + form, f, keepf)


def function_cases(tier):
    mags = [[0.0], [1.0], [0.3], [2e-5], [1e-7], [50.0], [0.0, 1.0], [3.0, 0.25], [1e-5, 1e-3, 10.0], [7.0, 0.0, 1e-6, 2.0]]
    for ref in (1.0, 2e-5, 1e-12, 0.5):
        for unit in ("Pa", "W", "T", "mW", "kW", "m/s", "N", "J"):
            for m in mags:
                yield {"form": "dB", "unit": unit, "ref": ref, "m": m, "f": []}
                yield {"form": "scalar", "unit": unit, "ref": ref, "m": m, "f": []}
                for fs in ([0.0, 50.0, 1000.0, 8000.0], [1000.0, 20.0, 12500.0, 100.0]):
                    yield {"form": "dBA", "unit": unit, "ref": ref, "m": m, "f": fs[: len(m)]}
    for f in sorted(set(THIRD + OCTAVE + [0.0, 0.5, 20.6, 107.7, 737.9, 12194.0, 30.0, 1234.5])):
        yield {"form": "weight", "unit": "", "ref": 1.0, "m": [10.0], "f": [f]}
        yield {"form": "weight", "unit": "", "ref": 1.0, "m": [10.0, -3.0], "f": [f, 1000.0]}
        if f == int(f):
            yield {"form": "weight", "unit": "", "ref": 1.0, "m": [10.0, 4.0], "f": [int(f), 50], "int": True}
    for i, f in enumerate(THIRD):
        yield {"form": "bands", "unit": "", "ref": 1.0, "m": [10.0], "f": [f]}
        yield {"form": "bands", "unit": "", "ref": 1.0, "m": list(np.arange(1.0, 1 + len(THIRD) - i)), "f": THIRD[i:]}


# --------------------------------------------------------------------------
# fields
# --------------------------------------------------------------------------
def field_object(case):
    """Spectrum stored along freqs with other axes, and its full magnitudes."""
    from SciDataTool import Data1D, DataFreq, DataLinspace, DataND, Norm_ref

    axes, shape, where = [], [], None
    for i, (name, x) in enumerate(case["axes"]):
        x = np.array(x, float)
        unit = {"freqs": "Hz", "frequency": "Hz"}.get(name, "m")
        even = len(x) > 2 and np.allclose(np.diff(x), x[1] - x[0])
        if even and case.get("lin"):
            ax = DataLinspace(name=name, unit=unit, initial=x[0], final=x[-1], number=len(x), include_endpoint=True)
        else:
            ax = Data1D(name=name, unit=unit, values=x)
        if name in ("freqs", "frequency"):
            where = i
            ax.normalizations = {"elec_order": Norm_ref(ref=20.0)}
        axes.append(ax)
        shape.append(len(x))
    v = np.abs(model.raw_values(shape)) * case.get("scale", 1.0)
    z = v * np.exp(1j * 0.7 * np.arange(v.size).reshape(shape)) if case.get("cplx") else v
    cls = DataFreq if "freqs" in [a[0] for a in case["axes"]] else DataND
    obj = cls(name="p", symbol="X", unit=case["unit"], axes=axes, values=z.copy())
    if case["ref"] is not None:
        obj.normalizations = {"ref": Norm_ref(ref=case["ref"])}
    return obj, v, where


REQS = ["whole", ["idx", 0], ["idx", 1], ["rng", 0, 2], ["idxs", [1, 0]]]


def run_field(ctx, case):
    obj, v, where = field_object(case)
    ref = 1.0 if case["ref"] is None else case["ref"]
    args, form = [], case["form"]
    keep = model.snapshot(obj)
    ctx.state("field", case)
    lab, fsel = {}, None
    for i, ((name, x), r) in enumerate(zip(case["axes"], case["reqs"])):
        a = {"name": name, "n": len(x), "sym": None, "unit": ""}
        if r[0] == "op":
            if i == where:
                fsel = np.array(x, float)
            continue
        lb, idx, _ = select.pick(a, r if r != ["omit"] else ["idx", 0], x=np.array(x, float))
        v = np.take(v, idx, axis=i)
        if i == where:
            fsel = np.array(x, float)[idx]
        if r[0] != "omit":
            lab[name] = lb
    op = None
    for (name, x), r in zip(case["axes"], case["reqs"]):
        if r[0] == "omit":
            continue
        t = name + "=" + r[1] if r[0] == "op" else None
        if r[0] == "op":
            op = name
        elif name in ("freqs", "frequency") and case["funit"]:
            t = select.text(name + "->elec_order", r) if case["funit"] == "elec_order" else select.text(name, r) + "{%s}" % case["funit"]
        args.append(t or select.text(name, r))
    want = level(v, case["unit"], ref)
    if case["level"] == "dBA":
        sh = [1] * v.ndim
        sh[where] = -1
        want = want + weight(fsel).reshape(sh)
    if op is not None:
        want = 10 * np.log10(np.sum(10 ** (want / 10), axis=where, keepdims=True))
        if (want < 2).any():
            ctx.outcomes.add("faint")
            return
    method = {"along": obj.get_along, "mag": obj.get_magnitude_along, "data": obj.get_data_along}[form]
    got = ctx.call(method, *args, unit=case["level"])
    sig = "%s:%s%s%s" % (form, case["level"], ":" + case["funit"] if case["funit"] else "", ":sum" if op else "")
    if isinstance(got, LibraryError):
        ctx.require("field:error:" + sig, False, "%s %r" % (args, got))
        return
    if form == "data":
        ctx.require("field:unit", got.unit == case["level"], "%r" % got.unit)
        ctx.agree("field:" + sig, np.squeeze(got.values), np.squeeze(want), atol=1e-8)
    else:
        ctx.agree("field:" + sig, got["X"], np.squeeze(want), atol=1e-8)
        for name, lb in lab.items():
            k = {"kHz": 1e-3, "elec_order": 1 / 20.0}.get(case["funit"], 1.0) if name in ("freqs", "frequency") else 1.0
            ctx.agree("field:label:" + sig, got[name], np.asarray(lb) * k)
    ctx.require("field:modified:" + sig, model.snapshot(obj) == keep, "%s" % args)


def field_cases(tier):
    F = [0.0, 50.0, 1000.0, 4000.0]
    G = [100.0, 200.0, 300.0]
    X = [0.0, 1.0, 2.0]
    layouts = [[["freqs", F]], [["freqs", G]], [["frequency", G]], [["freqs", G], ["x", X[:2]]], [["x", X[:2]], ["freqs", G]], [["x", X], ["freqs", F]], [["freqs", G], ["x", X]], [["x", X[:2]], ["freqs", G], ["y", X[:2]]], [["x", X[:2]], ["frequency", G]]]
    if tier == "thorough":
        layouts += [[["freqs", F], ["x", X], ["y", X[:2]]], [["x", X], ["y", X[:2]], ["freqs", F]], [["frequency", F], ["x", X]], [["freqs", [50.0, 100.0]]], [["x", X[:2]], ["freqs", [10.0, 20.0, 30.0, 40.0, 50.0]]]]
    quantities = [("Pa", 2e-5), ("W", 1e-12), ("Pa", None), ("W", None), ("Pa", 10.0), ("T", 0.5)]
    for axes in layouts:
        per = []
        for name, x in axes:
            rs = [["whole"], ["idx", len(x) - 1], ["rng", 1, len(x)], ["idxs", [len(x) - 1, 0]]]
            if name in ("freqs", "frequency"):
                rs += [["op", "sum"], ["op", "rss"], ["int", x[0] - 1, x[1] + 1], ["gt", x[0] + 1]]
            else:
                rs += [["omit"], ["idx", 0]]
            per.append(rs)
        for reqs in itertools.product(*per):
            op = any(r[0] == "op" for r in reqs)
            for unit, ref in quantities:
                for lev in ("dB", "dBA"):
                    for form in ("along", "mag", "data"):
                        if op and form != "mag":
                            continue
                        if form == "data" and any(r[0] == "omit" for r in reqs):
                            continue
                        for funit in ("", "kHz", "elec_order"):
                            if funit and (op or any(r[0] in ("int", "gt") for r in reqs) or form == "data"):
                                continue
                            for cplx in (False, True):
                                if len(axes) == 3 and (cplx or unit != "Pa") and tier != "thorough":
                                    continue
                                yield {"axes": axes, "reqs": list(reqs), "unit": unit, "ref": ref, "level": lev, "form": form, "funit": funit, "cplx": cplx, "lin": unit == "W"}


# --------------------------------------------------------------------------
# sampled signals: the spectrum is computed on the fly
# --------------------------------------------------------------------------
def run_signal(ctx, case):
    from SciDataTool import Norm_ref

    f, reqs, doms = case["field"], case["reqs"], case["doms"]
    obj = model.build_field(f)
    obj.normalizations = {"ref": Norm_ref(ref=case["ref"])}
    ctx.state("signal", f, reqs, case["ref"], case["level"], case["op"])
    keep = model.snapshot(obj)
    labels, v = spectral.answer(f, reqs, doms)
    it = [i for i, a in enumerate(f["axes"]) if a["name"] == "time"][0]
    want = level(np.abs(v), f["unit"], case["ref"])
    if case["level"] == "dBA":
        sh = [1] * v.ndim
        sh[it] = -1
        want = want + weight(np.atleast_1d(labels["freqs"])).reshape(sh)
    args = []
    for a, r, d in zip(f["axes"], reqs, doms):
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        if r[0] != "omit":
            args.append(name + "=" + case["op"] if d == "s" and a["name"] == "time" and case["op"] else select.text(name, r))
    if case["op"]:
        want = 10 * np.log10(np.sum(10 ** (want / 10), axis=it, keepdims=True))
        if (want < 2).any():
            ctx.outcomes.add("faint")
            return
    got = ctx.call(obj.get_magnitude_along, *args, unit=case["level"])
    sig = case["level"] + (":" + case["op"] if case["op"] else "")
    if isinstance(got, LibraryError):
        ctx.require("signal:error:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("signal:" + sig, got["X"], np.squeeze(want), atol=1e-6)
    ctx.require("signal:modified:" + sig, model.snapshot(obj) == keep, "%s" % args)


def signal_cases(tier):
    for sym in (None, ["period", 2], ["antiperiod", 2]):
        at = model.axis("time", 4, sym, h=1e-3)
        ax = model.axis("x", 2, None)
        aa = spectral.angle_axis(3, None)
        for axes, doms in (([at], "s"), ([at, ax], "sd"), ([ax, at], "ds"), ([at, aa], "ss"), ([aa, at], "ss"), ([aa, at], "ds")):
            alph = []
            for a, d in zip(axes, doms):
                if a["name"] == "time":
                    x = spectral.lines(a, False)
                    alph.append([["whole"], ["idx", 1], ["rng", 0, 2], ["gt", float(x[0] + 1)]])
                elif d == "s":
                    alph.append([["whole"], ["idx", 1], ["rng", 0, 3]])
                else:
                    alph.append([["whole"], ["idx", 1], ["omit"]])
            for reqs in itertools.product(*alph):
                for unit, ref in (("Pa", 2e-5), ("W", 1e-12), ("Pa", 0.01)):
                    for lev in ("dB", "dBA"):
                        ops = [""]
                        if all(r == ["whole"] for a, r in zip(axes, reqs) if a["name"] == "time"):
                            ops += ["sum", "rss"]
                        for op in ops:
                            yield {"field": {"axes": axes, "cplx": False, "unit": unit}, "reqs": list(reqs), "doms": list(doms), "ref": ref, "level": lev, "op": op}


# --------------------------------------------------------------------------
# octave bands
# --------------------------------------------------------------------------
def centres(n, lo, hi):
    if n == 3:
        return [float(f) for f in THIRD if lo <= f <= hi]
    if n == 1:
        return [float(f) for f in OCTAVE if lo <= f <= hi]
    lo = lo if lo > 0 else 12.5
    out = []
    for i in range(-40 * n, 20 * n):
        f = 0.5 * np.ceil(2 * 1000 * 2.0 ** (i / n))
        if lo < f <= hi:
            out.append(f)
    return out


def bands(v, f, n):
    """Energy of the lines between the edges of each band, corrected for the part
    of the band that the lines stand for."""
    fc = centres(n, f[0], f[-1])
    half = 2 ** (1 / (2 * n))
    edges = [c / half for c in fc] + ([fc[-1] * half] if fc else [])
    df = f[1] - f[0]
    out = []
    for lo, hi in zip(edges[:-1], edges[1:]):
        inside = (f >= lo) & (f <= hi)
        k = inside.sum()
        e = float(np.sum(v[inside] ** 2))
        if k and np.floor((hi - lo) / df) <= k:
            e *= (hi - lo) / (df * k)
        out.append(np.sqrt(e))
    return np.array(out), np.array(fc)


def run_octave(ctx, case):
    from SciDataTool import Data1D, DataFreq, Norm_ref

    f = case["f0"] + case["df"] * np.arange(case["nf"])
    n, lay = case["n"], case["layout"]
    shape = [{"f": len(f), "x": 2, "y": 3}[c] for c in lay]
    v = np.abs(model.raw_values(shape))
    axes = [Data1D(name="freqs", unit="Hz", values=f) if c == "f" else Data1D(name=c, unit="m", values=np.arange(float({"x": 2, "y": 3}[c]))) for c in lay]
    obj = DataFreq(name="p", symbol="X", unit="Pa", axes=axes, values=v.copy(), normalizations={"ref": Norm_ref(ref=2e-5)})
    ctx.state("octave", case)
    i = lay.index("f")
    lo, hi = case.get("cut", [None, None])
    args = []
    for c in lay:
        if c == "f":
            args.append("freqs->1/%doct" % n if lo is None else "freqs=[%r,%r]->1/%doct" % (lo, hi, n))
        else:
            args.append(c if case["others"] == "whole" else c + "[1]")
    if lo is not None:
        keep = (f >= lo) & (f <= hi)
        v, f = np.compress(keep, v, axis=i), f[keep]
    for k, c in enumerate(lay):
        if c != "f" and case["others"] != "whole":
            v = np.take(v, [1], axis=k)
    fc = bands(np.moveaxis(v, i, 0).reshape(len(f), -1)[:, 0], f, n)[1]
    want = np.apply_along_axis(lambda w: bands(w, f, n)[0], i, v)
    if case["level"] != "SI":
        want = level(want, "Pa", 2e-5)
        if case["level"] == "dBA":
            sh = [1] * v.ndim
            sh[i] = -1
            want = want + weight(fc).reshape(sh)
    got = ctx.call(obj.get_magnitude_along, *args, unit=case["level"])
    sig = "%d:%s" % (n, case["level"])
    if isinstance(got, LibraryError):
        ctx.require("octave:error:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("octave:bands:" + sig, np.atleast_1d(got["freqs"]), fc, squeeze=False)
    ctx.agree("octave:" + sig, got["X"], np.squeeze(want), atol=1e-8)


def octave_cases(tier):
    big = tier == "thorough"
    for n in (1, 3, 2, 6) + ((12, 4) if big else ()):
        for f0, df, nf in [g for g in ((24.0, 1.0, 60), (0.0, 10.0, 41), (5.0, 25.0, 50), (0.0, 7.0, 300), (1500.0, 10.0, 200), (10.5, 40.0, 600)) + (((0.0, 1.0, 2000), (300.0, 3.0, 700)) if big else ()) if n != 12 or g[0] == 0 or g[0] > 10]:
            for lay in ("f", "fx", "xf", "yf", "fy", "xfy"):
                for others in ("whole", "one") if lay != "f" else ("whole",):
                    for lev in ("SI", "dB", "dBA"):
                        yield {"f0": f0, "df": df, "nf": nf, "n": n, "layout": lay, "others": others, "level": lev}
                        if lay in ("f", "xf"):
                            span = df * (nf - 1)
                            yield {"f0": f0, "df": df, "nf": nf, "n": n, "layout": lay, "others": others, "level": lev, "cut": [f0 + 0.26 * span, f0 + 0.77 * span]}


# --------------------------------------------------------------------------
# orders of rotation: frequency = order * speed / 60
# --------------------------------------------------------------------------
def run_order(ctx, case):
    from SciDataTool import Data1D, DataFreq, DataLinspace, DataND, Norm_ref, Norm_vector

    speed = np.array(case["speed"], float)
    orders = ["H%d" % k for k in case["orders"]]
    nl = case["loads"]
    if case["norm"]:
        ax0 = Data1D(name="revolution", unit="m", values=np.arange(len(speed)).astype(float), normalizations={"speed": Norm_vector(vector=speed)})
        arg0 = "revolution->speed"
    else:
        ax0, arg0 = Data1D(name="speed", unit="rpm", values=speed), "speed"
    axes = [ax0, Data1D(name="order", unit="", values=np.array(orders), is_components=True)]
    shape = [len(speed), len(orders)]
    args = [n + "=" + r[1] if r[0] == "op" else select.text(n, r) for n, r in ((arg0, case["rs"]), ("order", case["ro"]))]
    if case["swap"]:
        axes.reverse()
        shape.reverse()
        args.reverse()
    if nl:
        axes.append(Data1D(name="loadcases", unit="", values=np.arange(float(nl))))
        shape.append(nl)
        args.append("loadcases" if case["sel"] == "whole" else "loadcases[1]")
    v = np.abs(model.raw_values(shape))
    obj = DataFreq(name="p", symbol="X", unit=case["unit"], axes=axes, values=v.copy(), normalizations={"ref": Norm_ref(ref=case["ref"])})
    ctx.state("order", case)
    if nl and case["sel"] != "whole":
        v = v[..., 1:2]
    want = level(v, case["unit"], case["ref"])
    if case["level"] == "dBA":
        fr = np.outer(speed, case["orders"]) / 60
        wt = weight(fr.ravel()).reshape(fr.shape)
        if case["swap"]:
            wt = wt.T
        want = want + wt.reshape(wt.shape + (1,) * (v.ndim - 2))
    for i, r in ((0, case["rs"]), (1, case["ro"])):
        if r[0] == "op":
            dim = 1 - i if case["swap"] else i
            want = want.max(axis=dim, keepdims=True) if r[1] == "max" else 10 * np.log10(np.sum(10 ** (want / 10), axis=dim, keepdims=True))
            continue
        n = len(case["speed"]) if i == 0 else len(orders)
        idx = select.pick({"name": "", "n": n, "sym": None}, r, x=np.arange(float(n)))[1]
        want = np.take(want, idx, axis=1 - i if case["swap"] else i)
    if "op" in (case["rs"][0], case["ro"][0]) and (want < 2).any():
        ctx.outcomes.add("faint")
        return
    method = obj.get_along if case["form"] == "along" else obj.get_magnitude_along
    got = ctx.call(method, *args, unit=case["level"])
    sig = "%s:%s" % (case["form"], case["level"])
    if isinstance(got, LibraryError):
        ctx.require("order:error:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("order:" + sig, got["X"], np.squeeze(want), atol=1e-8)


def order_cases(tier):
    for speed in ([600.0, 1200.0], [0.0, 1000.0, 3000.0], [50.0, 60.0, 70.0, 80.0]):
        for orders in ([1, 2], [24, 48, 96], [0, 12]):
            for nl in (0, 2, 3):
                for sel in ("whole", "one") if nl else ("whole",):
                    for norm, swap in ((False, False), (True, False), (False, True), (True, True)):
                        for unit, ref in (("Pa", 2e-5), ("W", 1e-12)):
                            for lev in ("dB", "dBA"):
                                for form in ("mag", "along"):
                                    for rs in (["whole"], ["idx", 1], ["rng", 0, 2], ["op", "sum"], ["op", "max"]):
                                        for ro in (["whole"], ["idx", 1], ["idxs", [1, 0]], ["op", "sum"], ["op", "rss"]):
                                            if form == "along" and "op" in (rs[0], ro[0]) or rs == ["op", "max"] and ro[0] == "op":
                                                continue
                                            if nl and rs != ["whole"] and ro != ["whole"] and tier != "thorough":
                                                continue
                                            if norm and rs[0] not in ("whole", "op"):
                                                continue
                                            yield {"speed": speed, "orders": orders, "loads": nl, "sel": sel, "norm": norm, "swap": swap, "unit": unit, "ref": ref, "level": lev, "form": form, "rs": rs, "ro": ro}


# --------------------------------------------------------------------------
# weighting supplied with the field
# --------------------------------------------------------------------------
def run_custom(ctx, case):
    from SciDataTool import Data1D, DataND, Norm_ref, Norm_vector

    shape = [n for _, n in case["axes"]]
    axes = [Data1D(name=name, unit="m", values=np.arange(float(n))) for name, n in case["axes"]]
    v = np.abs(model.raw_values(shape))
    w = -model.raw_values(shape[: case["dims"]], salt=3)
    obj = DataND(name="p", symbol="X", unit="Pa", axes=axes, values=v.copy(), normalizations={"ref": Norm_ref(ref=2e-5), "A-weight": Norm_vector(vector=w.copy())})
    keep = model.snapshot(obj)
    ctx.state("custom", case)
    want = level(v, "Pa", 2e-5) + w.reshape(w.shape + (1,) * (v.ndim - w.ndim))
    args = []
    for i, ((name, n), r) in enumerate(zip(case["axes"], case["reqs"])):
        want = np.take(want, select.pick({"name": name, "n": n, "sym": None}, r, x=np.arange(float(n)))[1], axis=i)
        args.append(select.text(name, r))
    got = ctx.call(obj.get_magnitude_along, *args, unit="dBA")
    if isinstance(got, LibraryError):
        ctx.require("custom:error", False, "%s %r" % (args, got))
        return
    ctx.agree("custom", got["X"], np.squeeze(want), atol=1e-8)
    ctx.require("custom:modified", model.snapshot(obj) == keep, "%s" % args)


def custom_cases(tier):
    layouts = [[["a", 3]], [["a", 2], ["b", 3]], [["a", 3], ["b", 2], ["c", 2]]]
    for axes in layouts:
        alph = [[["whole"], ["idx", 0], ["idx", n - 1], ["rng", 0, n - 1], ["rng", 1, n], ["idxs", [n - 1, 0]]] for _, n in axes]
        for reqs in itertools.product(*alph):
            for dims in range(1, len(axes) + 1):
                yield {"axes": axes, "reqs": list(reqs), "dims": dims}


def spaces():
    return [
        Space("function", function_cases, run_function, "8 units, 4 references, 10 magnitude lists including zero and values below the reference, 60 frequencies"),
        Space("field", field_cases, run_field, "stored spectra with the frequency axis first, last or in the middle of 1-3 axes; whole, single, range, list, interval and energetic sum requests; 6 unit/reference pairs; frequency axis in Hz, kHz and orders"),
        Space("signal", signal_cases, run_signal, "sampled signals with time first or last, 3 symmetries, with angle or x; energetic sums"),
        Space("octave", octave_cases, run_octave, "octave fractions 1, 2, 3, 6 (4, 12, 24 thorough), 6 frequency grids (8), frequency axis in every position of up to 3 axes, cut intervals"),
        Space("order", order_cases, run_order, "speed/order spectra, speed axis or normalization, 9 speed/order tables, with and without loadcases"),
        Space("custom", custom_cases, run_custom, "weighting vectors over the first 1-3 axes of fields of 1-3 axes, 6 selections per axis"),
    ]


ASSUMPTIONS = ["a magnitude of zero, or below a reference different from 1, has level 0 (library convention)", "energetic sums below 2 dB are reported as 0 by the library and are not judged"]
