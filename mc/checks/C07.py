"""Time and frequency representations carry the same field."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space

TYPES = {"DataTime": {"F": "DataFreq", "D": "DataDual", "E": "DataDual", "C": "DataTime"},
         "DataFreq": {"T": "DataTime", "D": "DataDual", "E": "DataDual", "C": "DataFreq"},
         "DataDual": {"C": "DataDual"}}
METHOD = {"F": "time_to_freq", "T": "freq_to_time", "D": "to_datadual", "C": "copy"}


def chains(depth):
    """All conversion histories up to `depth`, shortest first, with the final class."""
    level = [("", "DataTime")]
    for _ in range(depth + 1):
        nxt = []
        for c, t in level:
            if c:
                yield c, t
            nxt += [(c + op, t2) for op, t2 in sorted(TYPES[t].items())]
        level = nxt


def convert_all(ctx, obj, chain):
    for op in chain:
        if op == "E":  # dual object from both representations
            other = ctx.call(obj.time_to_freq if type(obj).__name__ == "DataTime" else obj.freq_to_time)
            obj = other if isinstance(other, LibraryError) else ctx.call(obj.to_datadual, other)
        else:
            obj = ctx.call(getattr(obj, METHOD[op]))
        if isinstance(obj, LibraryError):
            return obj
    return obj


def texts(f, reqs, doms):
    out = []
    for a, r, d in zip(f["axes"], reqs, doms):
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        if r[0] == "omit":
            continue
        out.append("%s=%s" % (name, r[1]) if r[0] == "op" else select.text(name, r))
    return out


def run_request(ctx, case):
    f, chain, reqs, doms = case["field"], case["chain"], case["reqs"], case["doms"]
    obj = convert_all(ctx, model.build_field(f), chain)
    ctx.state("rep", f, chain)
    if isinstance(obj, LibraryError):
        ctx.require("conversion", False, repr(obj))
        return
    kind = type(obj).__name__
    recomputed = any(spectral.is_spectral(a) and d == "d" for a, d in zip(f["axes"], doms))
    stored = kind in ("DataDual", "DataFreq") and not recomputed
    labels, want = spectral.answer(f, reqs, doms, stored=stored)
    got = ctx.call(obj.get_along, *texts(f, reqs, doms))
    sig = "%s:%s:%s" % (kind, "".join(doms), "+".join(sorted({r[0] for r in reqs})))
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %s %r" % (chain, texts(f, reqs, doms), got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(want))
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)


def run_structure(ctx, case):
    """The converted object itself: class, axes, coordinates, values, description."""
    f, chain = case["field"], case["chain"]
    obj = convert_all(ctx, model.build_field(f), chain)
    ctx.state("struct", f, chain)
    if isinstance(obj, LibraryError):
        ctx.require("conversion", False, repr(obj))
        return
    kind = type(obj).__name__
    ctx.agree("class", kind, case["kind"])
    for attr, want in (("symbol", "X"), ("unit", "T"), ("name", "Test field")):
        ctx.agree("kept:" + attr, getattr(obj, attr), want)
    ctx.agree("kept:is_real", obj.is_real, not f["cplx"])
    parts = {"DataTime": [("axes", "values", "d")], "DataFreq": [("axes", "values", "s")],
             "DataDual": [("axes_dt", "values_dt", "d"), ("axes_df", "values_df", "s")]}[kind]
    for aname, vname, dom in parts:
        axes = getattr(obj, aname)
        names = [spectral.spectral_name(a) if dom == "s" and spectral.is_spectral(a) else a["name"] for a in f["axes"]]
        if not ctx.agree("axes:" + dom, [x.name for x in axes], names):
            return
        v = np.asarray(getattr(obj, vname))
        for i, (a, x) in enumerate(zip(f["axes"], axes)):
            full = spectral.lines(a, f["cplx"]) if dom == "s" and spectral.is_spectral(a) else model.full_coords(a)
            ctx.agree("coords:" + dom, np.asarray(x.get_values()), full, atol=1e-9)
            if dom == "d" or not spectral.is_spectral(a):
                from SciDataTool.Functions.symmetries import rebuild_symmetries

                v = rebuild_symmetries(v, i, x.symmetries)
        doms = [dom if spectral.is_spectral(a) else "d" for a in f["axes"]]
        want = spectral.answer(f, [["whole"]] * len(axes), doms, stored=True)[1]
        # squeezed dimensions of single-sample axes carry no information
        ctx.agree("values:" + dom, np.squeeze(v), np.squeeze(want))


def fields(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]
    out = []
    for cplx in (False, True):
        for sym in syms:
            for n in (2, 4, 3, 5) + ((6, 7, 8) if big else ()):
                at = model.axis("time", n, sym, kind="lin" if n % 2 else "1d")
                if cplx or model.one_period(at) % 2 == 0:
                    out.append({"axes": [at], "cplx": cplx})
                out.append({"axes": [spectral.angle_axis(n, sym)], "cplx": cplx})
    two = syms if big else syms[:3]
    for cplx in (False, True):
        for s0, s1 in itertools.product(two, two):
            at, aa = model.axis("time", 4, s0), spectral.angle_axis(3, s1)
            out.append({"axes": [at, aa], "cplx": cplx})
            out.append({"axes": [aa, at], "cplx": cplx})
    for s0, s1, s2 in [(None, None, None), (["period", 2], ["antiperiod", 2], None), (["antiperiod", 2], None, ["period", 2])]:
        at, aa, ax = model.axis("time", 2, s0), spectral.angle_axis(2, s1), model.axis("x", 3, s2, x0=1.0)
        for axes in itertools.permutations([at, aa, ax]):
            out.append({"axes": list(axes), "cplx": False})
        for axes in itertools.permutations([at, ax]):
            out.append({"axes": list(axes), "cplx": False})
        for axes in itertools.permutations([aa, ax]):
            out.append({"axes": list(axes), "cplx": False})
    return out


def requests(a, d, cplx, ndim):
    """Requests on one axis in one domain."""
    if not spectral.is_spectral(a):
        return [["whole"], ["idx", 1], ["omit"], ["op", "sum"]] if ndim < 3 else [["whole"], ["omit"]]
    if d == "s":
        fl = spectral.lines(a, cplx)
        m = len(fl)
        df = fl[1] - fl[0]
        out = [["whole"], ["idx", m - 1], ["rng", 0, m - 1], ["op", "sum"], ["int", float(fl[0] - 0.25 * df), float(fl[m // 2] + 0.25 * df)], ["gt", float(fl[1] - 0.25 * df)]]
        return out if ndim == 1 else out[:4] if ndim == 2 else out[:2]
    x = model.full_coords(a)
    m, h = len(x), x[1] - x[0]
    out = [["whole"], ["idx", m - 1], ["op", "sum"], ["rng", 1, m], ["op", "integrate"], ["idx", 0], ["one"], ["idxs", [m - 1, 0]],
           ["val", float(x[(m - 1) // 2] + 0.25 * h)], ["int", float(x[1] - 0.25 * h), float(x[m - 1] + 0.25 * h)], ["lt", float(x[m - 2] + 0.25 * h)],
           ["op", "mean"], ["op", "rms"]] + ([] if cplx else [["op", "max"]])
    return out if ndim == 1 else out[:6] if ndim == 2 else out[:3]


def request_cases(tier):
    depth = 4 if tier == "thorough" else 3
    for f in fields(tier):
        nd = len(f["axes"])
        deep = depth if nd == 1 else depth - 1
        opts = [("d", "s") if spectral.is_spectral(a) else ("d",) for a in f["axes"]]
        for chain, kind in chains(deep):
            for doms in itertools.product(*opts):
                al = [requests(a, d, f["cplx"], nd) for a, d in zip(f["axes"], doms)]
                for reqs in itertools.product(*al):
                    yield {"field": f, "chain": chain, "reqs": list(reqs), "doms": list(doms)}


def structure_cases(tier):
    for f in fields(tier):
        for chain, kind in chains(5 if tier == "thorough" else 4):
            yield {"field": f, "chain": chain, "kind": kind}


# -- a spectrum with arbitrary lines, read at arbitrary instants / angles
def run_series(ctx, case):
    from SciDataTool import Data1D, DataFreq

    axes, shape = [], []
    for name, lines in case["lines"]:
        axes.append(Data1D(name=name, unit="Hz" if name == "freqs" else "dimless", values=np.array(lines, float)))
        shape.append(len(lines))
    v = model.raw_values(tuple(shape), True, case["salt"])
    if case["lines"][0][1][0] == 0 and case["real"] and len(shape) == 1:
        v[0] = v[0].real
    obj = DataFreq(name="s", symbol="X", unit="T", axes=axes, values=v.copy(), is_real=case["real"])
    want = v
    data, args = {}, []
    for i, ((name, lines), pts) in enumerate(zip(case["lines"], case["points"])):
        w = 2 * np.pi if name == "freqs" else 1.0
        kern = np.exp(1j * w * np.outer(pts, lines))
        want = np.moveaxis(np.tensordot(kern, want, axes=([1], [i])), 0, i)
        dual = {"freqs": "time", "wavenumber": "angle"}[name]
        data[dual] = np.array(pts, float)
        args.append(dual + "=axis_data")
    if case["real"]:
        want = want.real
    ctx.state("series", case["lines"], case["points"], case["salt"])
    got = ctx.call(obj.get_along, *args, axis_data=data)
    if isinstance(got, LibraryError):
        ctx.require("series", False, repr(got))
        return
    ctx.agree("series", got.get("X"), np.squeeze(want))
    for k, pts in data.items():
        ctx.agree("series:label", got.get(k), pts)


def series_cases(tier):
    lines = [[0.0, 5.0], [3.0, 7.5, 11.0], [0.0, 1.0, 4.0], [0.0, 2.0, 2.5, 9.0]]
    neg = [[-4.0, 0.0, 3.0], [-7.5, -1.0, 2.0, 8.0], [-3.0, 1.0]]
    pts = [[0.0, 0.013, 0.05], [0.07, 0.02, 0.055, 0.3], [0.001, 0.4, 1.7, 2.3, 2.9]]
    for salt in range(6 if tier == "thorough" else 2):
        for L in lines + neg:
            for P in pts:
                for real in (True, False):
                    yield {"lines": [["freqs", L]], "points": [P], "real": real, "salt": salt}
                yield {"lines": [["wavenumber", L]], "points": [P], "real": False, "salt": salt}
        for L, R in itertools.product(lines, neg):
            for P, Q in itertools.product(pts, pts):
                for real in (True, False):
                    yield {"lines": [["freqs", L], ["wavenumber", R]], "points": [P, Q], "real": real, "salt": salt}
                    yield {"lines": [["wavenumber", R], ["freqs", L]], "points": [Q, P], "real": real, "salt": salt}


# -- axes that can be read in other scales
SCALES = {"time": {"half": 0.5, "order": 12.5}, "angle": {"half": 2.0, "tooth": 0.25}, "x": {"half": 4.0}}


def scaled(f):
    from SciDataTool import Norm_ref

    obj = model.build_field(f)
    for ax in obj.axes:
        ax.normalizations = {k: Norm_ref(ref=v) for k, v in SCALES[ax.name].items()}
    return obj


def run_scales(ctx, case):
    """Scales given on the axes are available in every representation."""
    f, chain = case["field"], case["chain"]
    obj = convert_all(ctx, scaled(f), chain)
    if isinstance(obj, LibraryError):
        ctx.require("conversion", False, repr(obj))
        return
    ctx.state("scales", f, chain)
    for doms in itertools.product(*[("d", "s") if spectral.is_spectral(a) else ("d",) for a in f["axes"]]):
        names = [spectral.spectral_name(a) if d == "s" else a["name"] for a, d in zip(f["axes"], doms)]
        plain = ctx.call(obj.get_along, *names)
        if isinstance(plain, LibraryError):
            ctx.require("scale:plain", False, repr(plain))
            continue
        for i, a in enumerate(f["axes"]):
            for k, ref in SCALES[a["name"]].items():
                asked = list(names)
                asked[i] += "->" + k
                got = ctx.call(obj.get_along, *asked)
                if not ctx.require("scale:read", not isinstance(got, LibraryError), "%s %s: %r" % (chain, asked, got)):
                    continue
                ctx.agree("scale:label", got[names[i]], np.asarray(plain[names[i]]) / ref)
                ctx.agree("scale:value", got["X"], plain["X"])


def scale_cases(tier):
    seen = []
    for f in fields(tier):
        kind = [[a["name"], a["sym"]] for a in f["axes"]] + [f["cplx"]]
        if kind in seen:
            continue
        seen.append(kind)
        for chain, _ in chains(4 if tier == "thorough" else 3):
            yield {"field": f, "chain": chain}


def spaces():
    return [
        Space("structure", structure_cases, run_structure, "every field of the family (1-3 axes, time/angle/x in all orders, period/antiperiod, real/complex) x every conversion history over {time_to_freq, freq_to_time, to_datadual, to_datadual(other representation), copy} up to length 4 (5 thorough)"),
        Space("requests", request_cases, run_request, "same fields x every conversion history up to length 3 on one axis (4 thorough), 2 on several (3) x requests in every mix of time/frequency domains"),
        Space("scales", scale_cases, run_scales, "one field per combination of axes and symmetries x every conversion history up to length 3 (4 thorough): every scale given on an axis read in every mix of domains"),
        Space("series", series_cases, run_series, "spectra with arbitrary (non uniform) lines read at arbitrary instants and angles: 7 line sets, 3 point sets, one and two axes, real and complex"),
    ]


ASSUMPTIONS = [
    "even number of samples per period along time for real fields (the parity is not recorded in a one-sided spectrum), axes starting at 0",
]
