"""All descriptions of an axis agree."""
import itertools

import numpy as np

from .. import model
from ..core import LibraryError, Space

OPTIONS = [{}, {"is_oneperiod": True}, {"is_antiperiod": True}, {"is_smallestperiod": True}]


def linspace_axis(c):
    from SciDataTool import DataLinspace

    kw = {"initial": c["x0"], "name": c["name"], "unit": "s", "symmetries": sym_dict(c), "include_endpoint": c["end"]}
    n, h = c["n"], c["h"]
    final = c["x0"] + (n - 1) * h if c["end"] else c["x0"] + n * h
    if c["par"] == "final+number":
        kw.update(final=final, number=n)
    elif c["par"] == "final+step":
        kw.update(final=final, step=h)
    elif c["par"] == "step+number":
        kw.update(step=h, number=n)
    elif c["par"] == "all":
        kw.update(step=h, number=n, final=final)
    return DataLinspace(**kw)


def sym_dict(c):
    if not c["sym"]:
        return {}
    d = {c["sym"][0]: c["sym"][1]}
    if c["n"] == 1:
        d["delta"] = c["h"]
    return d


def explicit_axis(c):
    from SciDataTool import Data1D

    return Data1D(name=c["name"], unit="s", values=np.array(c["x"], dtype=float), symmetries=sym_dict(c))


def coords(c):
    return np.array(c["x"], dtype=float) if "x" in c else c["x0"] + c["h"] * np.arange(c["n"])


def expected(c):
    """Model: number of stored blocks of each option (None: rejected) and the coordinates."""
    x = coords(c)
    spectral = c["name"] in ("freqs", "wavenumber")
    kind, n = c["sym"] if c["sym"] else (None, 1)
    period = (x[-1] - x[0]) + (x[-1] - x[-2]) if len(x) > 1 else c["h"]
    if "h" in c:
        period = c["h"] * c["n"]
    blocks = {
        "full": n,
        "is_oneperiod": 2 if kind == "antiperiod" else 1,
        "is_antiperiod": 1 if kind == "antiperiod" else None,
        "is_smallestperiod": 1,
    }
    if spectral:
        blocks = {k: 1 for k in blocks}
    return {k: None if b is None else np.concatenate([x + j * period for j in range(b)]) for k, b in blocks.items()}


def observe(ctx, axis, want, sig):
    """Every description of one axis against the model."""
    for opt in OPTIONS:
        key = next(iter(opt), "full")
        got = ctx.call(axis.get_values, **opt)
        n = ctx.call(axis.get_length, **opt)
        w = want[key]
        if w is None:
            ctx.require(sig + ":rejected:" + key, isinstance(got, LibraryError) and isinstance(n, LibraryError), "%r %r" % (got, n))
            continue
        scale = float(np.max(np.abs(w))) or 1.0
        step = float(np.min(np.abs(np.diff(w)))) if len(w) > 1 else scale
        ctx.agree(sig + ":values:" + key, got, w, rtol=1e-12, atol=1e-6 * step)
        ctx.agree(sig + ":length:" + key, n, len(w))


def run_axis(ctx, case):
    axis = ctx.call(linspace_axis if "par" in case else explicit_axis, case)
    ctx.state("axis", case)
    if isinstance(axis, LibraryError):
        ctx.require("build", False, repr(axis))
        return
    before = model.snapshot(axis)
    observe(ctx, axis, expected(case), "lin" if "par" in case else "explicit")
    kind, n = case["sym"] if case["sym"] else (None, 1)
    per = ctx.call(axis.get_periodicity)
    ctx.agree("periodicity", per if isinstance(per, LibraryError) else list(per), [n if n > 1 else 1, kind == "antiperiod" and n > 1])
    ctx.agree("has_period", ctx.call(axis.has_period), n > 1)
    ctx.require("unchanged", model.snapshot(axis) == before)


def run_field(ctx, case):
    """The field sees the same symmetries as its axes."""
    from SciDataTool import DataTime

    axes = [explicit_axis(c) if "par" not in c else linspace_axis(c) for c in case["axes"]]
    shape = [c["n"] for c in case["axes"]]
    obj = DataTime(name="f", symbol="X", unit="T", axes=axes, values=model.raw_values(shape))
    ctx.state("field", case)
    ctx.agree("field:has_period", ctx.call(obj.has_period), any(c["sym"] for c in case["axes"]))
    got = ctx.call(obj.get_axes)
    ctx.agree("field:get_axes", got if isinstance(got, LibraryError) else [a.name for a in got], [c["name"] for c in case["axes"]])
    for c in case["axes"]:
        got = ctx.call(obj.get_axes, c["name"])
        if ctx.require("field:get_axes(name)", not isinstance(got, LibraryError) and len(got) == 1, repr(got)):
            observe(ctx, got[0], expected(c), "field")


def lin_cases(tier):
    big = tier == "thorough"
    pars = ["final+number", "final+step", "step+number", "all"]
    ns = range(1, 13) if not big else range(1, 41)
    for sym in (None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4], ["period", 5], ["period", 1]):
        for x0, h in itertools.product((0.0, -1.5, 0.1, 3.0, 1e3), (0.1, 0.25, 1 / 3, 1e-3, 0.7, 1e-5, 60.0, -0.5)):
            for n in ns:
                for par in pars:
                    for end in (True, False):
                        yield {"par": par, "x0": x0, "h": h, "n": n, "end": end, "sym": sym, "name": "time"}
    for name in ("freqs", "wavenumber", "angle", "z", "x"):
        for sym in (None, ["period", 2], ["antiperiod", 2], ["period", 3]):
            for n in (1, 2, 5):
                for par in pars:
                    yield {"par": par, "x0": 0.0, "h": 0.5, "n": n, "end": True, "sym": sym, "name": name}


def explicit_cases(tier):
    xs = [[0.0, 1.0], [0.0, 1.0, 3.0], [5.0, 2.0, 1.0], [-1.0, 0.5, 0.75, 4.0], [1e-9, 2e-9, 4e-9], [1e6, 1e6 + 1, 1e6 + 3], [0.0, 0.5, 1.0, 1.5]]
    for name in ("time", "angle", "x", "z", "freqs", "wavenumber"):
        for x in xs:
            for sym in (None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4], ["period", 1], ["antiperiod", 6], ["period", 7]):
                yield {"x": x, "n": len(x), "sym": sym, "name": name}
        for sym in (None, ["period", 2], ["antiperiod", 4]):
            yield {"x": [2.5], "n": 1, "h": 0.5, "sym": sym, "name": name}


def field_cases(tier):
    ax = [{"par": "final+number", "x0": 0.0, "h": 0.5, "n": 3, "end": False, "name": "time"},
          {"x": [0.0, 1.0, 3.0, 4.0], "n": 4, "name": "angle"},
          {"par": "step+number", "x0": 1.0, "h": 0.25, "n": 2, "end": True, "name": "z"}]
    syms = [None, ["period", 2], ["antiperiod", 2], ["period", 3]]
    for k in (1, 2, 3):
        for sub in itertools.permutations(ax, k):
            for ss in itertools.product(syms, repeat=k):
                yield {"axes": [dict(a, sym=s) for a, s in zip(sub, ss)]}


# ---------------------------------------------------------------------------
# reducing an axis to a period, any number of times
# ---------------------------------------------------------------------------
def run_periodic(ctx, case):
    from SciDataTool import Data1D, DataLinspace, Norm_ref, Norm_vector

    n, h, x0 = case["n"], case["h"], case["x0"]
    x = x0 + h * np.arange(n)
    norms = {"ref": Norm_ref(ref=2.0), "vec": Norm_vector(vector=3.0 + 2.0 * np.arange(n))}
    if case["kind"] == "lin":
        axis = DataLinspace(initial=x0, final=x0 + n * h, number=n, include_endpoint=False, name="angle", unit="rad", normalizations=norms)
    elif case["kind"] == "step":
        axis = DataLinspace(initial=x0, final=x0 + (n - 1) * h, step=h, name="angle", unit="rad", normalizations=norms)
    else:
        axis = Data1D(values=x, name="angle", unit="rad", normalizations=norms)
    state = (1, False)
    single = False  # a one-sample vector no longer tells its slope
    for nper, aper in case["ops"]:
        before = model.snapshot(axis)
        new = ctx.call(axis.get_axis_periodic, nper, aper)
        ctx.state("periodic", case["kind"], n, h, x0, state, nper, aper)
        if isinstance(new, LibraryError):
            ctx.require("periodic:call", False, repr(new))
            return
        ctx.require("periodic:source unchanged", model.snapshot(axis) == before, "reducing an axis changed it")
        div = nper * 2 if aper else nper
        if n % div == 0:
            state = (div, aper)
        axis = new
        m = n // state[0]
        ctx.agree("periodic:full", ctx.call(axis.get_values), x, atol=1e-9 * abs(h))
        ctx.agree("periodic:length", ctx.call(axis.get_length), n)
        ctx.agree("periodic:smallest", ctx.call(axis.get_values, is_smallestperiod=True), x[:m], atol=1e-9 * abs(h))
        one = m * 2 if state[1] else m
        ctx.agree("periodic:oneperiod", ctx.call(axis.get_values, is_oneperiod=True), x[:one], atol=1e-9 * abs(h))
        per = ctx.call(axis.get_periodicity)
        ctx.agree("periodic:announced", per if isinstance(per, LibraryError) else list(per), list(state))
        ctx.agree("periodic:name", (axis.name, axis.unit) == ("angle", "rad"), True)
        ctx.agree("periodic:ref", ctx.call(axis.get_values, normalization="ref"), x / 2, atol=1e-9 * abs(h))
        single = single or m == 1
        if not single:
            ctx.agree("periodic:vec", ctx.call(axis.get_values, normalization="vec"), 3.0 + 2.0 * np.arange(n))
            ctx.agree("periodic:vec:smallest", ctx.call(axis.get_values, normalization="vec", is_smallestperiod=True), 3.0 + 2.0 * np.arange(m))
            ctx.agree("periodic:vec:oneperiod", ctx.call(axis.get_values, normalization="vec", is_oneperiod=True), 3.0 + 2.0 * np.arange(one))


def periodic_cases(tier):
    big = tier == "thorough"
    ops = [(p, a) for p in (1, 2, 3, 4, 5, 6, 12) for a in (False, True)]
    for kind in ("lin", "1d", "step"):
        for n in (12, 6, 8, 24) if not big else (12, 6, 8, 24, 5, 36):
            for x0, h in ((0.0, 0.5), (1.0, 0.1), (-2.0, 0.25)):
                for d in range(1, 3 if not big else 4):
                    for seq in itertools.product(ops, repeat=d):
                        if d == 3 and (x0 != 0.0 or n not in (12, 8)):
                            continue
                        yield {"kind": kind, "n": n, "x0": x0, "h": h, "ops": [list(o) for o in seq]}


# ---------------------------------------------------------------------------
# explicit values -> linear description
# ---------------------------------------------------------------------------
def run_linspace(ctx, case):
    from SciDataTool import Data1D

    x = np.array(case["x"], dtype=float)
    sym = {case["sym"][0]: case["sym"][1]} if case["sym"] else {}
    axis = Data1D(values=x.copy(), name=case["name"], unit="rad", symmetries=dict(sym), symbol="sy")
    before = model.snapshot(axis)
    new = ctx.call(axis.to_linspace)
    ctx.state("to_linspace", case)
    if isinstance(new, LibraryError):
        ctx.require("linear:call", False, repr(new))
        return
    step = float(np.min(np.abs(np.diff(x)))) if len(x) > 1 else 1.0
    kind = type(new).__name__
    if case["uniform"] is not None:
        ctx.agree("linear:class", kind, "DataLinspace" if case["uniform"] else "Data1D")
    for opt in OPTIONS:
        key = next(iter(opt), "full")
        if key == "is_antiperiod" and "antiperiod" not in sym:
            continue
        ctx.agree("linear:" + key, ctx.call(new.get_values, **opt), axis.get_values(**opt), rtol=1e-13, atol=1e-4 * step)
        ctx.agree("linear:length:" + key, ctx.call(new.get_length, **opt), len(axis.get_values(**opt)))
    ctx.agree("linear:descr", [new.name, new.unit, new.symbol, new.symmetries] == [case["name"], "rad", "sy", sym], True)
    ctx.require("linear:source unchanged", model.snapshot(axis) == before)
    # the result is an object of its own
    new.symmetries["period"] = 99
    ctx.require("linear:independent", model.snapshot(axis) == before, "changing the new axis changed the source")


def linspace_cases(tier):
    syms = [None, ["period", 2], ["antiperiod", 2], ["period", 3]]
    for name in ("time", "angle", "freqs"):
        for sym in syms:
            for x0, h in itertools.product((0.0, -1.0, 1e6, 50.0, 1e-6), (1.0, 1e-9, 1e-3, 0.1, -0.25, 1e4)):
                if abs(x0) / abs(h) > 1e9:
                    continue
                for n in (1, 2, 3, 4, 7):
                    if n == 1 and sym:
                        continue
                    x = [x0 + h * k for k in range(n)]
                    yield {"x": x, "sym": sym, "name": name, "uniform": n > 1 if abs(x0) / abs(h) < 1e6 else None}
                    for k in range(n):
                        if n < 3:
                            continue
                        for dev in (0.3, -0.2, 0.01):
                            if abs(x0) / abs(h) > 1e10:
                                continue
                            y = list(x)
                            y[k] += dev * h
                            yield {"x": y, "sym": sym, "name": name, "uniform": False if abs(x0) / abs(h) < 1e6 else None}


# ---------------------------------------------------------------------------
# pattern axes
# ---------------------------------------------------------------------------
def run_pattern(ctx, case):
    from SciDataTool import DataPattern

    vals = np.array(case["values"], dtype=float)
    whole = None if case["whole"] is None else np.array(case["whole"], dtype=float)
    axis = DataPattern(name="z", unit="m", values=vals, values_whole=whole, rebuild_indices=list(case["idx"]), unique_indices=list(case["uniq"]), is_step=case["step"])
    before = model.snapshot(axis)
    ctx.state("pattern", case)
    full = vals[case["idx"]] if whole is None else whole
    ctx.agree("pattern:full", ctx.call(axis.get_values), full)
    ctx.agree("pattern:length", ctx.call(axis.get_length), len(full))
    for opt in ({"is_pattern": True}, {"is_smallestperiod": True}):
        ctx.agree("pattern:values", ctx.call(axis.get_values, **opt), vals)
        ctx.agree("pattern:values length", ctx.call(axis.get_length, **opt), len(vals))
    ctx.agree("pattern:has_period", ctx.call(axis.has_period), False)
    ctx.require("pattern:unchanged", model.snapshot(axis) == before)


def pattern_cases(tier):
    for k in (1, 2, 3):
        for m in range(k, 6 if tier == "quick" else 7):
            for idx in itertools.product(range(k), repeat=m):
                if set(idx) != set(range(k)):
                    continue
                uniq = [idx.index(j) for j in range(k)]
                whole = [0.5 * j - 1 for j in range(m)]
                vals = [whole[u] for u in uniq]
                for step in (True, False):
                    yield {"values": vals, "whole": whole, "idx": list(idx), "uniq": uniq, "step": step}
                    yield {"values": vals, "whole": None, "idx": list(idx), "uniq": uniq, "step": step}


def spaces():
    return [
        Space("linear", lin_cases, run_axis, "linear axes: 4 parametrisations x endpoint in or out x 5 origins x 8 steps x 1..12 samples (40 thorough) x 7 symmetries, and 5 other axis names; 4 period options, length, periodicity"),
        Space("explicit", explicit_cases, run_axis, "explicit axes: 8 coordinate lists x 8 symmetries x 6 names; 4 period options, length, periodicity"),
        Space("field", field_cases, run_field, "fields with 1 to 3 axes in every order with 4 symmetries each: axes and periodicity seen from the field"),
        Space("periodic", periodic_cases, run_periodic, "histories of 1 or 2 (3 thorough) reductions to a number of (anti-)periods, 14 per step, on 3 kinds of axes of 6 to 24 samples with normalizations"),
        Space("to_linear", linspace_cases, run_linspace, "explicit axes of 1 to 7 samples at 30 scales, uniform or with one displaced sample, 4 symmetries"),
        Space("pattern", pattern_cases, run_pattern, "all rebuild tables of up to 5 (6 thorough) positions over up to 3 unique samples, with and without explicit coordinates"),
    ]


ASSUMPTIONS = ["frequency and wavenumber axes are never repeated by a symmetry", "normalization vectors that are continued by the symmetry (linear vectors)"]
