"""Requested units and normalizations apply to the right quantity only."""
import itertools

import numpy as np

from .. import model, reduce, select, spectral
from ..core import LibraryError, Space

FACTOR = {"ms": 1e3, "min": 1 / 60, "°": 180 / np.pi, "mm": 1e3, "cm": 1e2, "kHz": 1e-3, "s": 1.0, "rad": 1.0, "m": 1.0, "Hz": 1.0}


def norm_object(t):
    from SciDataTool import Norm_affine, Norm_func, Norm_indices, Norm_ref, Norm_vector

    if t[0] == "ref":
        return Norm_ref(ref=t[1])
    if t[0] == "affine":
        return Norm_affine(slope=t[1], offset=t[2])
    if t[0] == "vector":
        return Norm_vector(vector=3.0 + 2.0 * np.arange(t[1]))
    if t[0] == "indices":
        return Norm_indices()
    if t[0] == "func":
        return Norm_func(function=lambda x: x ** 2 + 1)
    raise ValueError(t)


def apply(t, x):
    """Coordinates x of all the samples expressed in the requested quantity."""
    if t is None:
        return x
    if t[0] == "unit":
        return x * FACTOR[t[1]]
    if t[0] == "ref":
        return x / t[1]
    if t[0] == "affine":
        return x * t[1] + t[2]
    if t[0] == "vector":
        return 3.0 + 2.0 * np.arange(len(x))
    if t[0] == "indices":
        return np.arange(len(x)).astype(float)
    if t[0] == "func":
        return x ** 2 + 1
    raise ValueError(t)


def text(name, r, t):
    if t is None:
        return "%s=%s" % (name, r[1]) if r[0] == "op" else name + "=axis_data" if r[0] == "data" else select.text(name, r)
    if t[0] == "unit":
        return text(name, r, None) + "{%s}" % t[1]
    return text(name + "->nrm", r, None) if r[0] != "data" else name + "->nrm=axis_data"


def build(f, trans, field_norms=None):
    obj = model.build_field(f)
    for ax, t in zip(obj.axes, trans):
        if t is not None and t[0] != "unit":
            ax.normalizations = {"other": norm_object(["ref", 7.0]), "nrm": norm_object(t)}
    if field_norms:
        obj.normalizations = {k: norm_object(t) for k, t in field_norms.items()}
    return obj


def reqs_in(a, t, x, size):
    """Requests expressed in the requested quantity."""
    y = apply(t, x)
    out = [["whole"], ["omit"], ["idx", len(x) - 1], ["rng", 0, max(1, len(x) - 1)], ["idxs", [len(x) - 1, 0]]]
    if a is not None:
        out += [["small"], ["one"]]
        if a["sym"] and a["sym"][0] == "antiperiod":
            out.append(["anti"])
        if a["n"] < len(x):
            out += [["idx", a["n"]], ["rng", a["n"] - 1, a["n"] + 1]]
    if size == "full":
        out += [["idx", i] for i in range(len(x) - 1)]
        for i in range(len(y)):
            out.append(["val", float(y[i])])
            out.append(["gt", float(y[i])])
            out.append(["lt", float(y[i])])
            for j in range(i, len(y)):
                out.append(["int", float(y[i]), float(y[j])])
        for i in range(len(y) - 1):
            d = y[i + 1] - y[i]
            out.append(["val", float(y[i] + 0.25 * d)])
            out.append(["gt", float(y[i] + 0.25 * d)])
            out.append(["lt", float(y[i] + 0.25 * d)])
            out.append(["int", float(y[i] + 0.25 * d), float(y[-1])])
        if a is not None:
            out += [["op", o] for o in ("sum", "mean", "rms", "max", "min")]
    else:
        m = len(y)
        out += [["val", float(y[m // 2])], ["gt", float(y[1])], ["lt", float(y[m - 2])], ["int", float(y[0]), float(y[m // 2])]]
        if a is not None:
            out += [["op", "sum"], ["op", "max"]]
    return fuzzy(out)


def fuzzy(reqs):
    """Move bounds a hair outwards so that rounding of the factor cannot matter."""
    res = []
    for r in reqs:
        if r[0] == "gt":
            r = ["gt", r[1] - 1e-9 * max(1, abs(r[1]))]
        elif r[0] == "lt":
            r = ["lt", r[1] + 1e-9 * max(1, abs(r[1]))]
        elif r[0] == "int":
            r = ["int", r[1] - 1e-9 * max(1, abs(r[1])), r[2] + 1e-9 * max(1, abs(r[2]))]
        res.append(r)
    return res


def run_axis(ctx, case):
    f, reqs, trans = case["field"], case["reqs"], case["trans"]
    obj = build(f, trans)
    v = model.full_values(f)
    labels, args, data, ops = {}, [], {}, []
    for i, (a, r, t) in enumerate(zip(f["axes"], reqs, trans)):
        y = apply(t, model.full_coords(a))
        if r[0] == "op":
            ops.append((i, a, r[1]))
            labels[a["name"]] = r[1]
        elif r[0] == "data":
            lab, idx = np.array(r[1]), [int(np.argmin(np.abs(y - p))) for p in r[1]]
            data[a["name"]] = lab
            v = np.take(v, idx, axis=i)
            labels[a["name"]] = lab
        else:
            lab, idx, out = select.pick(a, r, x=y)
            v = np.take(v, idx, axis=i)
            if r[0] == "omit":
                continue
            labels[a["name"]] = lab
        args.append(text(a["name"], r, t))
    for i, a, op in ops:
        v = reduce.reduce_model(v, i, a, op)
    ctx.state("axis", f, trans, reqs)
    got = ctx.call(obj.get_along, *args, axis_data=data)
    sig = "+".join("%s%s" % (r[0], "" if t is None else ":" + t[0]) for r, t in zip(reqs, trans))
    if isinstance(got, LibraryError):
        ctx.require("axis:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("axis:value:" + sig, got.get("X"), np.squeeze(v))
    for name, lab in labels.items():
        ctx.agree("axis:label:" + sig, got.get(name), lab, rtol=1e-9)


def single_cases(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]
    for name, units in (("time", ["ms", "s", "min"]), ("angle", ["°", "rad"]), ("z", ["mm", "cm"]), ("x", ["mm"])):
        for kind in ("lin", "1d"):
            for sym in syms:
                for n in (2, 3) if not big else (2, 3, 4):
                    for x0 in (0.0, 1.5):
                        a = model.axis(name, n, sym, kind=kind, x0=x0)
                        f = {"axes": [a], "cplx": False}
                        trs = [["unit", u] for u in units] + [["ref", 4.0], ["affine", 2.0, -3.0], ["affine", 0.5, 10.0], ["vector", n], ["indices"], ["func"]]
                        for t in trs:
                            for r in reqs_in(a, t, model.full_coords(a), "full"):
                                # mean and rms weigh the samples by the non-uniform coordinate
                                if r[0] == "omit" or r[0] == "op" and t[0] == "func":
                                    continue
                                yield {"field": f, "reqs": [r], "trans": [t]}


def multi_cases(tier):
    syms = [None, ["period", 2], ["antiperiod", 2]]
    trs = {"time": [None, ["unit", "ms"], ["vector", 2], ["affine", 2.0, 1.0]], "angle": [None, ["unit", "°"], ["indices"], ["ref", 3.0]], "z": [None, ["unit", "cm"], ["func"]]}
    for names in (("time", "angle"), ("angle", "time"), ("z", "angle"), ("time", "z")):
        for ss in itertools.product(syms, repeat=2):
            axes = [model.axis(nm, 2 if nm != "angle" else 3, s) for nm, s in zip(names, ss)]
            f = {"axes": axes, "cplx": False}
            for ts in itertools.product(*(trs[nm] for nm in names)):
                if ts == (None, None):
                    continue
                als = [reqs_in(a, t, model.full_coords(a), "mid") for a, t in zip(axes, ts)]
                for rs in itertools.product(*als):
                    if all(r[0] == "omit" for r in rs):
                        continue
                    yield {"field": f, "reqs": list(rs), "trans": list(ts)}
    if tier == "thorough":
        names = ("time", "angle", "z")
        for ss in itertools.product(syms[:2], repeat=3):
            axes = [model.axis(nm, 2, s) for nm, s in zip(names, ss)]
            f = {"axes": axes, "cplx": False}
            for ts in itertools.product(*(trs[nm] for nm in names)):
                als = [reqs_in(a, t, model.full_coords(a), "mid")[::2] for a, t in zip(axes, ts)]
                for rs in itertools.product(*als):
                    if not all(r[0] == "omit" for r in rs):
                        yield {"field": f, "reqs": list(rs), "trans": list(ts)}


# ---------------------------------------------------------------------------
# spectral axes
# ---------------------------------------------------------------------------
def run_spectral(ctx, case):
    f, reqs, trans, doms = case["field"], case["reqs"], case["trans"], case["doms"]
    obj = build(f, trans)
    if case.get("stored"):
        obj = ctx.call(obj.time_to_freq)
        if isinstance(obj, LibraryError):
            ctx.require("spectral:conversion", False, repr(obj))
            return
    plain, labels, args = [], {}, []
    for a, r, t, d in zip(f["axes"], reqs, trans, doms):
        x = spectral.lines(a, f["cplx"]) if d == "s" else model.full_coords(a)
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        y = apply(t, x)
        lab, idx, out = select.pick(a, r, x=y)
        # same samples requested by position: the plain answer of the model
        plain.append(r if r[0] in ("omit",) else ["val", float(x[idx[0]])] if r[0] == "val" else ["idxs", [int(i) for i in idx]])
        if r[0] != "omit":
            labels[name] = lab
            args.append(text(name, r, t))
    _, v = spectral.answer(f, plain, doms, stored=bool(case.get("stored")))
    ctx.state("spectral", f, trans, reqs, doms)
    got = ctx.call(obj.get_along, *args)
    sig = "+".join("%s%s%s" % (d, r[0], "" if t is None else ":" + t[0]) for d, r, t in zip(doms, reqs, trans))
    if isinstance(got, LibraryError):
        ctx.require("spectral:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("spectral:value:" + sig, got.get("X"), np.squeeze(v), rtol=1e-8)
    for name, lab in labels.items():
        ctx.agree("spectral:label:" + sig, got.get(name), lab, rtol=1e-9)


def spectral_cases(tier):
    syms = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]
    for cplx in (False, True):
        for sym in syms:
            for n in (4, 3, 2) if tier == "quick" else (2, 3, 4, 5, 6):
                at = model.axis("time", n, sym, x0=0.0, h=0.25)
                aa = spectral.angle_axis(n, sym)
                for a, units in ((at, ["kHz", "Hz"]), (aa, [])):
                    x = spectral.lines(a, cplx)
                    if len(x) < 2:
                        continue
                    f = {"axes": [a], "cplx": cplx}
                    for t in [["unit", u] for u in units] + [["ref", 4.0], ["ref", 0.5], ["affine", 2.0, 3.0], ["affine", 1.0, -50.0], ["affine", 1.0, 50.0], ["indices"]]:
                        for r in reqs_in(None, t, x, "full"):
                            if r[0] == "omit":
                                continue
                            for stored in (False, True):
                                yield {"field": f, "reqs": [r], "trans": [t], "doms": ["s"], "stored": stored}
    for ss in itertools.product(syms[:3], repeat=2):
        axes = [model.axis("time", 4, ss[0], h=0.25), spectral.angle_axis(3, ss[1])]
        for perm in ((0, 1), (1, 0)):
            ax = [axes[p] for p in perm]
            f = {"axes": ax, "cplx": False}
            trs = {"time": [None, ["unit", "kHz"], ["ref", 2.0]], "angle": [None, ["ref", 3.0], ["affine", 1.0, 20.0]]}
            for ts in itertools.product(*(trs[a["name"]] for a in ax)):
                als = [reqs_in(None, t, spectral.lines(a, False), "mid") for a, t in zip(ax, ts)]
                for rs in itertools.product(*als):
                    if all(r[0] == "omit" for r in rs) or any(r[0] == "omit" and t is not None for r, t in zip(rs, ts)):
                        continue
                    # an axis that is not mentioned is taken in the stored domain
                    doms = ["d" if r[0] == "omit" else "s" for r in rs]
                    yield {"field": f, "reqs": list(rs), "trans": list(ts), "doms": doms}
        for perm in ((0, 1), (1, 0)):
            ax = [axes[p] for p in perm]
            f = {"axes": ax, "cplx": False}
            for kd in (0, 1):
                a_d, a_s = ax[kd], ax[1 - kd]
                for td in ([["unit", "ms"], ["affine", 2.0, 1.0]] if a_d["name"] == "time" else [["unit", "°"], ["indices"]]):
                    for rd in ([["whole"], ["idx", 1], ["rng", 1, 3], ["val", float(apply(td, model.full_coords(a_d))[2])]]):
                        for rs in ([["whole"], ["idx", 1], ["rng", 0, 2]]):
                            reqs, trans, doms = [None, None], [None, None], [None, None]
                            reqs[kd], reqs[1 - kd] = rd, rs
                            trans[kd], trans[1 - kd] = td, None
                            doms[kd], doms[1 - kd] = "d", "s"
                            yield {"field": f, "reqs": reqs, "trans": trans, "doms": doms}


# ---------------------------------------------------------------------------
# the field itself
# ---------------------------------------------------------------------------
FIELD_UNITS = {"T": [("mT", 1e3), ("G", 1e4), ("T", 1.0), ("SI", 1.0), ("kT", 1e-3), ("Wb/m2", 1.0)], "m/s2": [("km/h2", 12960.0), ("mm/s2", 1e3)], "A": [("mA", 1e3)], "dimless": [("", 1.0)]}
FIELD_NORMS = {"ref": ["ref", 0.25], "aff": ["affine", -2.0, 3.0], "fun": ["func"], "two": ["ref", 2.0]}


def run_field(ctx, case):
    f = dict(case["field"], unit=case["unit"])
    obj = build(f, case.get("trans") or [None] * len(f["axes"]), FIELD_NORMS if case.get("norms", True) else None)
    labels, v, _ = select.expected(f, [r if r[0] != "op" else ["whole"] for r in case["reqs"]])
    for i, (a, r) in enumerate(zip(f["axes"], case["reqs"])):
        if r[0] == "op":
            v = reduce.reduce_model(v, i, a, r[1])
            labels[a["name"]] = r[1]
    q = case["ask"]
    kw = {}
    if q[0] == "unit":
        kw["unit"] = q[1]
        v = v * q[2]
    elif q[0] == "is_norm":
        kw["is_norm"] = True
        v = v / 0.25
    elif q[0] == "name":
        kw["unit"] = q[1]
        v = apply(FIELD_NORMS[q[1]], v)
    args = [text(a["name"], r, None) for a, r in zip(f["axes"], case["reqs"]) if r[0] != "omit"]
    ctx.state("field", f, case["reqs"], q)
    before = model.snapshot(obj)
    got = ctx.call(getattr(obj, case["method"]), *args, **kw)
    if isinstance(got, LibraryError):
        ctx.require("field:" + q[0], False, "%s %r" % (args, got))
        return
    ctx.agree("field:value:" + q[0], got.get("X"), np.squeeze(v))
    for name, lab in labels.items():
        ctx.agree("field:label:" + q[0], got.get(name), lab)
    ctx.require("field:unchanged", model.snapshot(obj) == before)


def field_cases(tier):
    syms = [None, ["period", 2], ["antiperiod", 2]]
    for ss in itertools.product(syms, repeat=2):
        axes = [model.axis("time", 2, ss[0]), model.axis("angle", 3, ss[1])]
        f = {"axes": axes, "cplx": False}
        for rs in itertools.product(*((select.alphabet(a, "mid") + [["op", o] for o in ("sum", "mean", "max", "rms")]) for a in axes)):
            if all(r[0] == "omit" for r in rs) or any(r[0] == "val" and select.pick(a, r)[2] for a, r in zip(axes, rs)):
                continue
            for unit, us in FIELD_UNITS.items():
                few = unit != "T" and rs[0][0] not in ("whole", "op")
                if few:
                    continue
                for u, k in us:
                    yield {"field": f, "unit": unit, "reqs": list(rs), "ask": ["unit", u, k], "method": "get_along"}
            yield {"field": f, "unit": "T", "reqs": list(rs), "ask": ["is_norm"], "method": "get_along"}
            for nm in FIELD_NORMS:
                yield {"field": f, "unit": "T", "reqs": list(rs), "ask": ["name", nm], "method": "get_along"}


def run_magnitude(ctx, case):
    """Units of magnitudes and phases of spectra."""
    f, reqs = case["field"], case["reqs"]
    obj = build(f, [None] * len(f["axes"]), FIELD_NORMS)
    doms = ["s" if spectral.is_spectral(a) else "d" for a in f["axes"]]
    labels, v = spectral.answer(f, reqs, doms)
    args = [text(spectral.spectral_name(a) if d == "s" else a["name"], r, None) for a, r, d in zip(f["axes"], reqs, doms)]
    q = case["ask"]
    kw = {}
    mag = np.abs(v)
    if case["method"] == "get_phase_along":
        v = np.angle(v) * (180 / np.pi if q[1] == "°" else 1.0)
        kw["unit"] = q[1]
    else:
        v = np.abs(v)
        if q[0] == "unit":
            kw["unit"] = q[1]
            v = v * q[2]
        elif q[0] == "is_norm":
            kw["is_norm"] = True
            v = v / 0.25
        elif q[0] == "name":
            kw["unit"] = q[1]
            v = apply(FIELD_NORMS[q[1]], v)
    ctx.state("magnitude", f, reqs, q, case["method"])
    got = ctx.call(getattr(obj, case["method"]), *args, **kw)
    if isinstance(got, LibraryError):
        ctx.require(case["method"] + ":" + q[0], False, "%s %r" % (args, got))
        return
    if case["method"] == "get_phase_along":
        # the phase of a line that vanishes has no meaning
        k = np.pi / 180 if q[1] == "°" else 1.0
        keep = np.squeeze(mag) > 1e-9
        w = np.exp(1j * np.asarray(got.get("X"), float) * k)
        ctx.require("phase:shape", w.shape == keep.shape, "%s %s" % (w.shape, keep.shape))
        if w.shape == keep.shape:
            ctx.agree("phase:" + q[1], w[keep], np.squeeze(np.exp(1j * v * k))[keep], rtol=1e-7)
    else:
        ctx.agree("magnitude:" + q[0], got.get("X"), np.squeeze(v), rtol=1e-8, atol=1e-9)
    for name, lab in labels.items():
        ctx.agree("magnitude:label", got.get(name), lab)


def magnitude_cases(tier):
    for sym in (None, ["period", 2], ["antiperiod", 2]):
        for axes in ([model.axis("time", 4, sym, h=0.25)], [model.axis("time", 4, sym, h=0.25), model.axis("x", 2, None)], [spectral.angle_axis(3, sym)], [model.axis("time", 3, None, h=0.25), spectral.angle_axis(3, sym)]):
            f = {"axes": axes, "cplx": False}
            for rs in itertools.product([["whole"], ["idx", 1], ["rng", 0, 2]], repeat=len(axes)):
                for q in [["unit", u, k] for u, k in FIELD_UNITS["T"]] + [["is_norm"]] + [["name", n] for n in FIELD_NORMS]:
                    yield {"field": f, "reqs": list(rs), "ask": q, "method": "get_magnitude_along"}
                for u in ("°", "SI"):
                    yield {"field": f, "reqs": list(rs), "ask": ["unit", u], "method": "get_phase_along"}


# ---------------------------------------------------------------------------
# rejections
# ---------------------------------------------------------------------------
def run_reject(ctx, case):
    from SciDataTool import Norm_ref

    f = case["field"]
    obj = model.build_field(f)
    if case.get("norm_unit"):
        obj.axes[0].normalizations = {"nrm": Norm_ref(ref=2.0, unit=case["norm_unit"])}
    if case.get("stored"):
        obj = obj.time_to_freq()
    before = model.snapshot(obj)
    ctx.state("reject", case)
    got = ctx.call(getattr(obj, case.get("method", "get_along")), *case["args"], **case["kw"])
    ctx.require("rejected:" + case["what"], isinstance(got, LibraryError) and got.kind in ("UnitError", "NormError", "AxisError"), "%s %s gave %r" % (case["args"], case["kw"], got if isinstance(got, LibraryError) else "an answer"))
    ctx.require("rejected:unchanged", model.snapshot(obj) == before)


def reject_cases(tier):
    for sym in (None, ["period", 2], ["antiperiod", 2]):
        for sel in ("", "[0]", "[smallestperiod]", "[oneperiod]", "=[0,1]", "=0.5", ">0.1"):
            for kind in ("lin", "1d"):
                at = model.axis("time", 4, sym, kind=kind)
                aa = spectral.angle_axis(4, sym, kind=kind)
                f = {"axes": [at, aa], "cplx": False}
                for u in ("m", "kg", "rad", "Hz", "qq"):
                    yield {"field": f, "args": ["time%s{%s}" % (sel, u)], "kw": {}, "what": "axis unit"}
                for u in ("m", "s", "qq"):
                    yield {"field": f, "args": ["angle%s{%s}" % (sel, u)], "kw": {}, "what": "axis unit"}
                for u in ("m", "s", "rad", "qq"):
                    if sel in ("[smallestperiod]", "[oneperiod]"):
                        continue
                    yield {"field": f, "args": ["freqs%s{%s}" % (sel, u)], "kw": {}, "what": "spectral axis unit"}
                for n in ("nope", "elec_order"):
                    yield {"field": f, "args": ["time->%s%s" % (n, sel)], "kw": {}, "what": "axis normalization"}
                    yield {"field": f, "args": ["angle->%s%s" % (n, sel)], "kw": {}, "what": "axis normalization"}
                yield {"field": f, "args": ["time->nrm%s" % sel], "kw": {}, "what": "normalization unit", "norm_unit": "min"}
                for u in ("m", "s", "qq", "T/m"):
                    yield {"field": f, "args": ["time" + sel], "kw": {"unit": u}, "what": "field unit"}
                    yield {"field": f, "args": ["freqs"], "kw": {"unit": u}, "what": "field unit", "method": "get_magnitude_along"}
                yield {"field": f, "args": ["time" + sel], "kw": {"is_norm": True}, "what": "missing reference"}
                yield {"field": f, "args": ["freqs"], "kw": {"is_norm": True}, "what": "missing reference", "method": "get_magnitude_along"}


def spaces():
    return [
        Space("axis", single_cases, run_axis, "one axis (4 names, 2 kinds, 5 symmetries, 2 origins, 2-3 samples; 4 thorough) x units, reference, affine, vector, index and function normalizations x every selection and bound expressed in the requested quantity"),
        Space("axes", multi_cases, run_axis, "4 pairs of axes (triples thorough) x 3 symmetries each x units and normalizations on either or both x selections and reductions"),
        Space("spectral", spectral_cases, run_spectral, "frequency and wavenumber axes in other units and normalizations, computed or stored, real and complex, 5 symmetries; both axes; mixed domains"),
        Space("field", field_cases, run_field, "field units, reference, affine and function normalizations on two axes with 3 symmetries x selections and reductions"),
        Space("magnitude", magnitude_cases, run_magnitude, "units and normalizations of magnitudes and phases"),
        Space("reject", reject_cases, run_reject, "incompatible or unknown units and missing normalizations on axes, spectral axes and fields"),
    ]


ASSUMPTIONS = ["integrals, derivatives and integral-based root sum squares along an axis in another unit are not judged", "normalization vectors that are continued by the symmetry"]
