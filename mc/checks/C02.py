"""A field stored on one (anti-)period answers like the field written out."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space

SYMS = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["period", 4], ["antiperiod", 4], ["antiperiod", 6], ["period", 6]]


def storages(a):
    """Every equivalent way to store the axis: (repetitions written out, symmetry)."""
    if not a["sym"]:
        return []
    kind, n = a["sym"]
    out = []
    for k in range(2, n + 1):
        if n % k:
            continue
        if k == n:
            out.append([k, None])
        elif kind == "period" or k % 2 == 0:
            out.append([k, ["period", n // k]])
        else:
            out.append([k, ["antiperiod", n // k]])
    return out


def store(a, s):
    """The axis with s[0] repetitions written out."""
    if s is None:
        return a
    b = dict(a, n=a["n"] * s[0], sym=s[1])
    if "x" in a:
        b["x"] = [float(x) for x in model.full_coords(a)[: b["n"]]]
    return b


def build(f, forms, centre=()):
    from SciDataTool import Norm_ref

    axes = [store(a, s) for a, s in zip(f["axes"], forms)]
    v = model.full_values(f)
    for i, b in enumerate(axes):
        if b["name"] in centre:
            # only a signal without average has a periodic primitive
            v = v - v.mean(axis=i, keepdims=True)
    for i, b in enumerate(axes):
        v = np.take(v, list(range(b["n"])), axis=i)
    obj = model.build_field(dict(f, axes=axes))
    obj.values = v
    obj.normalizations = {"ref": Norm_ref(ref=0.01)}
    return obj


def match(ctx, sig, lab, ref, names, got, want):
    """The lines of the reduced storage, all other lines being empty."""
    for i, n in enumerate(names):
        if n not in ("freqs", "wavenumber") or isinstance(lab[n], str):
            continue
        x, y = np.atleast_1d(lab[n]), np.atleast_1d(ref[n])
        where = [np.flatnonzero(np.isclose(y, u, atol=1e-6)) for u in x]
        if not ctx.require("lines:" + sig, all(len(w) == 1 for w in where), "%s lines %s not among %s" % (n, x, y)):
            return None
        keep = [int(w[0]) for w in where]
        rest = [k for k in range(len(y)) if k not in keep]
        empty = np.take(want, rest, axis=i)
        ctx.require("empty:" + sig, bool((np.abs(empty) < 1e-7).all()), "%s of lines absent from the reduced storage: %s" % (n, empty))
        want = np.take(want, keep, axis=i)
        ref = dict(ref, **{n: y[keep]})
    return ref, want


def run(ctx, case):
    f, forms, method, args, kw = case["field"], case["forms"], case["method"], case["args"], dict(case.get("kw", {}))
    kw = {k: [np.array(x) for x in v] if k == "axis_data" else v for k, v in kw.items()}
    one, two = build(f, [None] * len(forms), case["head"]), build(f, forms, case["head"])
    ctx.state(f, forms, method, args, case.get("kw"))
    if method == "derived":
        res = []
        for obj in (one, two):
            d = ctx.call(obj.get_data_along, *args, **kw)
            if isinstance(d, LibraryError):
                res.append(d)
                continue
            r = ctx.call(d.get_along, *[a.name for a in d.axes], is_squeeze=False)
            res.append(r)
    elif method == "stored":
        res = []
        for obj in (one, two):
            d = ctx.call(obj.time_to_freq)
            res.append(d if isinstance(d, LibraryError) else ctx.call(d.get_along, *args, is_squeeze=False, **kw))
    elif method == "get_harmonics":
        res = [ctx.call(getattr(obj, method), 3, *args, **kw) for obj in (one, two)]
    else:
        res = [ctx.call(getattr(obj, method), *args, is_squeeze=False, **kw) for obj in (one, two)]
    got, want = res
    sig = "%s:%s" % (method, case["tag"])
    if isinstance(want, LibraryError) or isinstance(got, LibraryError):
        same = isinstance(want, LibraryError) and isinstance(got, LibraryError)
        ctx.require("error:" + sig, same, "%s: %r, written out: %r" % (args, got if isinstance(got, LibraryError) else "answered", want if isinstance(want, LibraryError) else "answered"))
        return
    names = [k for k in got if k not in ("X", "axes_list", "axes_dict_other")]
    if not ctx.require("axes:" + sig, names == [k for k in want if k not in ("X", "axes_list", "axes_dict_other")], "%s" % names):
        return
    gv, wv = np.asarray(got["X"]), np.asarray(want["X"])
    if method == "get_harmonics":
        n = min(len(gv), len(wv))
        ctx.agree("value:" + sig, gv[:n], wv[:n], rtol=1e-7, atol=1e-7)
        ctx.require("value:" + sig, bool((np.abs(wv[n:]) < 1e-7).all()), "%s, written out: %s" % (gv, wv))
        return
    order = [a["name"] for a in f["axes"]]
    spec = {"freqs": "time", "wavenumber": "angle"}
    dims = [order.index(spec.get(n, n)) for n in names]
    full = [None] * len(order)
    for n, d in zip(names, dims):
        full[d] = n
    if any(n in spec for n in names) and method != "derived":
        m = match(ctx, sig, got, want, full, gv, wv)
        if m is None:
            return
        want, wv = m
    elif method == "derived":
        kept = [n for n in full if n in names]
        m = match(ctx, sig, got, want, kept, gv, wv)
        if m is None:
            return
        want, wv = m
    if case.get("head"):
        # the result is given on the stored samples
        for n, d in zip(names, dims):
            if n in case["head"]:
                k = gv.shape[d]
                wv = np.take(wv, list(range(k)), axis=d)
                want = dict(want, **{n: np.asarray(want[n])[:k]})
    if method == "get_phase_along":
        mags = [np.abs(np.asarray(ctx.call(o.get_along, *args, is_squeeze=False, **kw)["X"])) for o in (one,)]
        on = mags[0] > 1e-6
        ctx.agree("value:" + sig, np.exp(1j * gv[on]), np.exp(1j * wv[on]), rtol=1e-6)
    else:
        ctx.agree("value:" + sig, gv, wv, rtol=1e-7, atol=1e-7)
    for n in names:
        ctx.agree("label:" + sig, got[n], want[n])
    if "axes_dict_other" in got and method in ("get_along",):
        go, wo = got["axes_dict_other"], want["axes_dict_other"]
        ctx.agree("other:" + sig, {k: float(np.ravel(v[0])[0]) for k, v in go.items()}, {k: float(np.ravel(v[0])[0]) for k, v in wo.items()})


# --------------------------------------------------------------------------
# requests: (tag, text, extra) on one axis, written with the full coordinates
# --------------------------------------------------------------------------
def direct_requests(a, size):
    x = model.full_coords(a)
    m, n, h = len(x), a["n"], model.full_coords(a)[1] - model.full_coords(a)[0]
    N = a["name"]
    U = {"time": ("ms", 1e3), "angle": ("°", 180 / np.pi), "x": ("mm", 1e3), "z": ("mm", 1e3)}[N]
    out = [("whole", N, {})]
    for r in select.alphabet(a, "mid" if size != "tiny" else "tiny"):
        if r[0] == "val":
            r = ["val", r[1] - 1e-9]  # away from the rounding of the last coordinate
            if r[1] < x[0]:
                continue
        if r[0] not in ("small", "one", "anti", "whole", "omit"):
            out.append((r[0], select.text(N, r), {}))
    out.append(("unit", N + "{%s}" % U[0], {}))
    out += [("op", "%s=%s" % (N, o), {}) for o in (("sum", "mean", "rms", "max", "min", "rss", "integrate") if size != "tiny" else ("sum", "max", "rms"))]
    if size != "tiny":
        out.append(("unit:idx", N + "[%d]{%s}" % (m - 1, U[0]), {}))
        out.append(("unit:int", "%s=[%r,%r]{%s}" % (N, float(U[1] * x[1]) - 1e-7, float(U[1] * x[m - 2]) + 1e-7, U[0]), {}))
        out.append(("derivate", N + "=derivate", {"head": N}))
        if not a["sym"] or a["sym"][0] == "antiperiod" or True:
            out.append(("antiderivate", N + "=antiderivate", {"head": N}))
        pts = [float(x[0] + 0.3 * h), float(x[m // 2] + 0.6 * h) if m > 2 else float(x[0]), float(x[m - 2] + 0.5 * h)]
        out.append(("data", N + "=axis_data", {"data": pts}))
        out.append(("data", N + "=axis_data", {"data": [float(v) for v in x[1:]]}))
        out.append(("list", "%s=[%r,%r,%r]" % (N, float(x[0]), float(x[1]), float(x[-1])), {}))
    return out


def spectral_requests(a, cplx, size):
    s = spectral.spectral_name(a)
    fl = spectral.lines(dict(a, n=a["n"] * model.reps(a), sym=None), cplx)
    out = [("spec", s, {})]
    if size != "tiny":
        red = spectral.lines(a, cplx)
        h = fl[1] - fl[0] if len(fl) > 1 else 1.0
        out.append(("spec:gt", "%s>%r" % (s, float(red[len(red) // 2] - 0.25 * h)), {}))
        out.append(("spec:int", "%s=[%r,%r]" % (s, float(-0.25 * h), float(red[-1] + 0.25 * h)), {}))
        for v in red:
            out.append(("spec:val", "%s=%r" % (s, float(v)), {}))
        if s == "freqs":
            out.append(("spec:unit", s + "{kHz}", {}))
            out.append(("spec:derivate", s + "=derivate", {}))
        out.append(("spec:sum", s + "=sum", {}))
        out.append(("spec:max", s + "=rss", {}))
    return out


def emit(f, forms, combos, methods):
    for combo in combos:
        tag = "+".join(c[0] for c in combo if c is not None)
        args = [c[1] for c in combo if c is not None]
        if not args:
            continue
        kw, head = {}, []
        for c in combo:
            if c is not None and "data" in c[2]:
                kw.setdefault("axis_data", []).append(c[2]["data"])
            if c is not None and "head" in c[2]:
                head.append(c[2]["head"])
        sp = any(c is not None and c[0].startswith("spec") for c in combo)
        for method in methods:
            if method in ("get_phase_along", "get_harmonics", "stored") and not sp:
                continue
            if method in ("get_phase_along", "get_harmonics", "stored") and any(c is not None and c[0] in ("op", "derivate", "antiderivate", "spec:sum", "spec:max", "spec:derivate", "data") for c in combo):
                continue
            if method == "get_harmonics" and any(c is not None and not c[0].startswith("spec") and c[0] != "idx" for c in combo):
                continue
            if method == "derived" and (head or any(c is not None and c[0] == "op" for c in combo) and len(args) == 1):
                continue
            if method == "stored" and any(a["name"] in ("time", "angle") and not (c is not None and c[0].startswith("spec")) for a, c in zip(f["axes"], combo)):
                continue
            units = ["SI"]
            if method == "get_magnitude_along":
                units = ["SI", "dB"]
            for u in units:
                k = dict(kw)
                if u != "SI":
                    if any(c is not None and c[0] in ("spec:sum", "spec:max", "op") for c in combo) or not sp:
                        continue
                    k["unit"] = u
                yield {"field": f, "forms": list(forms), "method": method, "args": args, "kw": k, "tag": tag, "head": head}


METHODS = ("get_along", "get_magnitude_along", "get_phase_along", "get_harmonics", "derived", "stored")


def one_axis(tier):
    for sym in SYMS[1:]:
        for n in (2, 3) if tier != "thorough" else (2, 3, 4, 5):
            for a in (model.axis("time", n, sym, h=0.25), spectral.angle_axis(n, sym), model.axis("x", n, sym), model.axis("time", n, sym, kind="1d", h=0.25), model.axis("z", n, sym, x0=1.0)):
                for cplx in (False, True):
                    f = {"axes": [a], "cplx": cplx}
                    reqs = direct_requests(a, "mid")
                    if cplx:
                        reqs = [r for r in reqs if r[0] != "op" or "sum" in r[1] or "mean" in r[1]]
                    if spectral.is_spectral(a):
                        reqs += spectral_requests(a, cplx, "mid")
                    for s in storages(a):
                        yield from emit(f, [s], [(r,) for r in reqs], METHODS)


def two_axes(tier):
    syms = SYMS[:3] if tier != "thorough" else SYMS[:6]
    for s0, s1 in itertools.product(syms, repeat=2):
        if not s0 and not s1:
            continue
        at, aa = model.axis("time", 2, s0, h=0.25), spectral.angle_axis(3, s1)
        ax = model.axis("x", 2, s1)
        for axes in ([at, aa], [aa, at], [ax, at], [at, ax]):
            f = {"axes": axes, "cplx": False}
            alph = []
            for a in axes:
                al = [None] + direct_requests(a, "tiny")
                if spectral.is_spectral(a):
                    al += spectral_requests(a, False, "tiny")
                alph.append(al)
            fs = [[None] + storages(a) for a in axes]
            for forms in itertools.product(*fs):
                if all(s is None for s in forms):
                    continue
                yield from emit(f, list(forms), itertools.product(*alph), ("get_along", "get_magnitude_along", "derived", "stored", "get_harmonics"))


# --------------------------------------------------------------------------
# change of periodicity of a vector field
# --------------------------------------------------------------------------
def run_change(ctx, case):
    from SciDataTool import Data1D, DataPattern, VectorField

    f = case["field"]
    comps = {}
    for k, c in enumerate(case["comps"]):
        g = dict(f, salt=3 * k)
        obj = model.build_field(g)
        obj.symbol = c[0]
        comps[c] = obj
    axes = comps[case["comps"][0]].axes
    for c in comps.values():
        c.axes = axes
    vf = VectorField(name="v", symbol="V", components=comps)
    keep = model.snapshot(vf)
    new = ctx.call(vf.change_periodicity, *case["to"], **case["kw"])
    ctx.state("change", case)
    if isinstance(new, LibraryError):
        ctx.require("change:error", False, "%s %r" % (case["to"], new))
        return
    ctx.require("change:modified", model.snapshot(vf) == keep, "")
    names = [a["name"] for a in f["axes"]]
    for k, c in enumerate(case["comps"]):
        g = dict(f, salt=3 * k)
        got = ctx.call(new.components[c].get_along, *names, is_squeeze=False)
        if isinstance(got, LibraryError):
            ctx.require("change:read", False, repr(got))
            return
        ctx.agree("change:value", got[c[0]], model.full_values(g), squeeze=False)
        for a in g["axes"]:
            ctx.agree("change:label", got[a["name"]], model.full_coords(a))
        # requested number of repetitions
        for a, p in ((g["axes"][0], case["to"][1]), (g["axes"][1], case["to"][0])):
            i = 0 if a["name"] == "time" else 1
            per, aper = new.components[c].axes[i].get_periodicity()
            ctx.require("change:periodicity", (per // 2 if aper else per) == p, "%s repeated %s times (anti %s), asked %s" % (a["name"], per, aper, p))


def change_cases(tier):
    zs = [model.axis("z", 1, None, x=[0.0]), model.axis("z", 2, None)]
    for s0, s1 in itertools.product(SYMS, repeat=2):
        if tier != "thorough" and s0 in SYMS[6:] and s1 in SYMS[6:]:
            continue
        for n, kind, x0 in ((2, "lin", 0.0), (3, "1d", 0.0), (2, "lin", 0.5), (2, "1d", 0.5)):
            at = model.axis("time", n, s0, kind=kind, h=0.25, x0=x0)
            aa = spectral.angle_axis(3, s1, kind)
            for z in zs:
                f = {"axes": [at, aa, z], "cplx": False}
                pt = [model.reps(at) // (2 if s0 and s0[0] == "antiperiod" else 1), model.reps(aa) // (2 if s1 and s1[0] == "antiperiod" else 1)]
                for p in [k for k in range(1, pt[1] + 1) if pt[1] % k == 0]:
                    for q in [k for k in range(1, pt[0] + 1) if pt[0] % k == 0]:
                        for kw in ({}, {"is_aper_a_new": True, "is_aper_t_new": True}, {"is_aper_a_new": False, "is_aper_t_new": False}, {"is_aper_t_new": True}, {"is_aper_a_new": False}):
                            if kw.get("is_aper_a_new") and not (s1 and s1[0] == "antiperiod") or kw.get("is_aper_t_new") and not (s0 and s0[0] == "antiperiod"):
                                continue
                            yield {"field": f, "to": [p, q], "kw": kw, "comps": ["radial", "tangential"]}


def spaces():
    return [
        Space("one", one_axis, run, "one time, angle, x or z axis, linear or explicit, 2-3 stored samples (5 thorough), 7 symmetries, every equivalent storage, all request kinds and 6 ways to read"),
        Space("two", two_axes, run, "two axes in four layouts, 3x3 symmetries (6x6 thorough), every pair of equivalent storages"),
        Space("change", change_cases, run_change, "change of periodicity of a vector field on time, angle, z: 8x8 symmetries, linear and explicit axes, all divisors"),
    ]


ASSUMPTIONS = ["period selectors are not compared: they name the stored period", "spectra are compared on the lines of the reduced storage, the additional lines of the other one being empty"]
