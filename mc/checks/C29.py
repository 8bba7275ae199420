"""Spectral lines may be asked for anywhere, whatever the sampling."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space
from . import C06

UNIT = {"time": ("kHz", 1e3), "angle": None}


def run(ctx, case):
    f, reqs, doms, order = case["field"], case["reqs"], case["doms"], case["order"]
    obj = model.build_field(f)
    args, axis_data, plain = {}, {}, []
    for i, (a, r, d) in enumerate(zip(f["axes"], reqs, doms)):
        plain.append(r)
        if r[0] == "omit":
            continue
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        if r[0] == "op":
            args[i] = "%s=%s" % (name, r[1])
        elif r[0] in ("data", "udata"):
            unit = UNIT[a["name"]] if r[0] == "udata" else None
            args[i] = name + ("->" + unit[0] if unit else "") + "=axis_data"
            axis_data[name] = np.array(r[1]) / (unit[1] if unit else 1.0)
            plain[i] = ["data", r[1]]
        else:
            args[i] = select.text(name, r)
    labels, want = spectral.answer(f, plain, doms)
    for a, r in zip(f["axes"], reqs):
        if r[0] == "udata":
            labels[spectral.spectral_name(a)] = np.array(r[1]) / UNIT[a["name"]][1]
    ctx.state("lines", f, reqs, doms)
    kw = {"axis_data": axis_data} if axis_data else {}
    got = ctx.call(obj.get_along, *[args[i] for i in order if i in args], **kw)
    sig = "%s:%s" % ("".join(doms), "+".join(sorted({r[0] for r in reqs})))
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(want))
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)
    again = ctx.call(obj.get_along, *[args[i] for i in order if i in args], **kw)
    if not isinstance(again, LibraryError):
        ctx.agree("again:" + sig, again.get("X"), got.get("X"))


def base(a):
    """Step between the lines of the axis."""
    x = model.full_coords(a)
    n1 = model.one_period(a)
    if a["name"] == "angle":
        return float(round(model.reps(a) * a["n"] / n1))
    if "x" in a:
        span = x[n1] - x[0] if model.reps(a) * a["n"] > n1 else 2 * x[-1] - x[-2] - x[0]
    else:
        span = n1 * a["h"]
    return 1.0 / span


def data_requests(a, cplx, big):
    """Requested lines, as multiples of the step between lines."""
    df = base(a)
    n1 = model.one_period(a)
    sets = [[0.0, 1.0], [1.0], [0.0, 1.0, 2.0], [-1.0, 0.0, 1.0], [1.0, 0.0], [-2.0, -1.0]]
    if a["sym"] is None:
        sets += [[0.0, 0.3, 1.7], [0.3, 0.55, 0.1], [-0.4, 0.3, 1.7], [0.0, 1.0, 1.5], [2.25, 1.0], [-0.5, -1.5], [0.5, 1.5, 2.5, 3.5], [0.75 * n1, 0.0]]
    out = []
    for s in sets:
        fl = [float(k * df) for k in s]
        if len(fl) == 1 and not float(fl[0]).is_integer():
            continue  # a single line is looked for among the lines first
        out.append(["data", fl])
        if a["name"] == "time" and (big or len(s) != 2):
            out.append(["udata", fl])
    return out


def uniform(name, n, sym, start, kind, h=0.25):
    if name == "angle":
        a = spectral.angle_axis(n, sym, kind)
    else:
        a = model.axis(name, n, sym, kind=kind, h=h)
    a["x0"] = start * a["h"]
    return a


WARPS = [[0, 1, 2, 3, 4, 5, 6], [0, 1, 3, 4, 6, 7, 10], [0, 2, 3, 5, 6, 8, 9], [0, 1.25, 2, 3.5, 4, 5.25, 6]]


def warped(name, n, sym, warp, start):
    h = 0.25 if name == "time" else 2 * np.pi / (n * (sym[1] if sym else 1)) / 2
    return model.axis(name, n, sym, x=[float((start + k) * h) for k in WARPS[warp][:n]])


SYMS = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]


def starts(tier):
    big = tier == "thorough"
    for n in [2, 3, 4, 5, 1] + ([6, 7] if big else []):
        for sym in SYMS:
            for cplx in (False, True):
                for name in ("time", "angle"):
                    for kind in ("lin", "1d"):
                        for start in (0, 1, -1, 0.5, 7, -0.75):
                            a = uniform(name, n, sym, start, kind)
                            f = {"axes": [a], "cplx": cplx}
                            reqs = C06.spec_requests(a, cplx, "full" if big else "mid") + data_requests(a, cplx, big)
                            for r in reqs:
                                if n == 1 and r[0] != "whole" and (sym is None or r[0] in ("data", "udata")):
                                    continue
                                yield {"field": f, "reqs": [r], "doms": ["s"], "order": [0]}


def uneven(tier):
    big = tier == "thorough"
    for n in [3, 4, 5] + ([6, 7] if big else []):
        for warp in range(1, len(WARPS)):
            for start in (0, 1, -1.5):
                for cplx in (False, True):
                    for name in ("time", "angle"):
                        a = warped(name, n, None, warp, start)
                        if not np.ptp(np.diff(a["x"])):
                            continue
                        f = {"axes": [a], "cplx": cplx}
                        for r in data_requests(a, cplx, True):
                            yield {"field": f, "reqs": [r], "doms": ["s"], "order": [0]}


def pairs(tier):
    big = tier == "thorough"
    nt, na = 4, 3
    for cplx in (False, True):
        for st, sa in [(None, None), (["period", 2], None), (None, ["antiperiod", 2]), (["antiperiod", 2], ["period", 3])]:
            for start_t, start_a in itertools.product((0, 1, -0.5), (0, -1, 0.25)):
                ats = [uniform("time", nt, st, start_t, "lin"), uniform("time", nt + 1, st, start_t, "1d")]
                aas = [uniform("angle", na, sa, start_a, "1d"), uniform("angle", na + 1, sa, start_a, "lin")]
                if st is None and start_a == 0:
                    ats.append(warped("time", nt, None, 1, start_t))
                if sa is None and start_t == 0:
                    aas.append(warped("angle", na, None, 1, start_a))
                for at, aa in itertools.product(ats, aas):
                    al = []
                    for a in (at, aa):
                        df = base(a)
                        r = [["data", [0.0, df]], ["data", [df, 0.0, -df]]]
                        if a["sym"] is None:
                            r += [["data", [0.0, 0.3 * df, 1.7 * df]], ["data", [-0.5 * df, 1.5 * df]]]
                        if "x" not in a:
                            r += [["whole"], ["rng", 1, 2], ["op", "sum"]]
                        al.append(r)
                    for rt, ra in itertools.product(*al):
                        for swap in (False, True):
                            axes = [aa, at] if swap else [at, aa]
                            yield {"field": {"axes": axes, "cplx": cplx}, "reqs": [ra, rt] if swap else [rt, ra], "doms": ["s", "s"], "order": [0, 1]}
                    for rt in al[0]:
                        yield {"field": {"axes": [at, aa], "cplx": cplx}, "reqs": [rt, ["whole"]], "doms": ["s", "d"], "order": [1, 0]}
                        yield {"field": {"axes": [aa, at], "cplx": cplx}, "reqs": [["idx", 1], rt], "doms": ["d", "s"], "order": [0, 1]}
                    for ra in al[1]:
                        yield {"field": {"axes": [at, aa], "cplx": cplx}, "reqs": [["whole"], ra], "doms": ["d", "s"], "order": [0, 1]}
                        yield {"field": {"axes": [at, aa], "cplx": cplx}, "reqs": [["omit"], ra], "doms": ["d", "s"], "order": [0, 1]}


# --------------------------------------------------------------------------
# reading the lines back
# --------------------------------------------------------------------------
def run_back(ctx, case):
    from SciDataTool import Data1D, DataFreq

    a, cplx, name = case["axis"], case["cplx"], case["axis"]["name"]
    f = {"axes": [a], "cplx": cplx}
    obj = model.build_field(f)
    n1 = model.one_period(a)
    x = model.full_coords(a)[:n1]
    v = model.full_values(f)[:n1]
    sp = spectral.spectral_name(a)
    k = np.arange(n1) - n1 // 2
    if not cplx and name == "time":
        k = k[k >= 0]
    fl = k * base(a)
    ctx.state("back", a, cplx)
    if case["lines"] == "whole":
        got = ctx.call(obj.get_along, sp)
    else:
        got = ctx.call(obj.get_along, sp + "=axis_data", axis_data={sp: fl})
    if isinstance(got, LibraryError):
        ctx.require("lines", False, repr(got))
        return
    S = DataFreq(name="s", symbol="X", unit="T", axes=[Data1D(name=sp, unit=model.UNITS[sp], values=np.array(got[sp], float))], values=np.array(got["X"]).reshape(-1), is_real=not cplx)
    back = ctx.call(S.get_along, name + "=axis_data", axis_data={name: x})
    if isinstance(back, LibraryError):
        ctx.require("back", False, repr(back))
        return
    y = np.asarray(back["X"])
    ctx.agree("back", y if cplx else np.real(y), v)


def back_cases(tier):
    for n in [3, 5] + ([7, 9] if tier == "thorough" else [7]):
        for sym in (None, ["period", 2], ["period", 3]):
            for cplx in (False, True):
                for name in ("time", "angle"):
                    for start in (0, 1, -1, 0.5, 7, -0.75):
                        if not (start == 0 or True):
                            continue
                        for lines in ("whole", "data"):
                            yield {"axis": uniform(name, n, sym, start, "1d"), "cplx": cplx, "lines": lines}


def spaces():
    return [
        Space("starts", starts, run, "time or angle, 1..5 stored samples (7 thorough), 5 symmetries, real/complex, linear or explicit axis starting at 6 positions; whole spectra, indices, ranges, intervals, reductions, and 6 to 14 lists of lines on or off the lines of the transform, in Hz and kHz"),
        Space("uneven", uneven, run, "time or angle sampled with 3 irregular patterns of 3..5 samples (7 thorough) from 3 starting points, real/complex, 14 lists of lines, in Hz and kHz"),
        Space("pairs", pairs, run, "time x angle in both storage orders, 4 symmetry combinations, 3x3 starting points, regular and irregular samplings, real/complex, 7x7 spectral requests and spectral x direct requests"),
        Space("back", back_cases, run_back, "3, 5, 7 samples (9 thorough) per period, 3 symmetries, real/complex, 6 starting points: the lines are stored as a spectrum and read back at the original positions"),
    ]


ASSUMPTIONS = ["periods are covered once; for repeated periods the lines asked for are lines of the period; a single line is judged when it is a whole number"]
