"""A derived field object holds what the extraction returned.

Reference: the extraction itself, stored as a plain field with its coordinates
written out.  The derived object must answer like that plain field.  For
requests restricted to the smallest period the derived object keeps the
symmetry, so the reference is the unrestricted extraction.
"""
import itertools
import re

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C01

OPS = ("sum", "mean", "rms", "rss", "max", "min", "integrate", "integrate_local", "derivate", "antiderivate")
UNITS = {"time": "ms", "angle": "°", "z": "mm", "x": "mm", "freqs": "kHz"}
SYM_FIELD = {
    "anti-per": [["time", 4, ["antiperiod", 2], "lin", 0.5], ["angle", 4, ["period", 2], "lin", np.pi / 4]],
    "per-anti": [["angle", 3, ["antiperiod", 4], "1d", np.pi / 6], ["time", 4, ["period", 3], "1d", 0.01]],
    "plain": [["time", 4, None, "lin", 0.5], ["z", 3, None, "1d", 0.25]],
}


def make(name):
    if name in SYM_FIELD:
        axes = [model.axis(n, k, s, kind=kd, h=h) for n, k, s, kd, h in SYM_FIELD[name]]
        return C01.with_norms(model.build_field({"axes": axes, "cplx": False}))
    return C01.make(name)


FIELDS = {
    "one": ["time"],
    "plain": ["time", "z"],
    "anti-per": ["time", "angle"],
    "per-anti": ["angle", "time"],
    "complex": ["time", "x"],
    "freqs-wavenumber": ["freqs", "wavenumber"],
    "spectrum": ["freqs"],
    "components": ["time", "phase"],
    "pattern": ["time", "z"],
    "dual-time": ["time", "angle"],
    "dual-freq": ["freqs", "wavenumber"],
    "three": ["time", "angle", "z"],
    "order-speed": ["order", "speed"],
}


def tokens(field, a):
    """Requests along one axis."""
    f = make(field)
    ax = [x for x in f.get_axes() if x.name == a][0]
    c = np.asarray(ax.get_values())
    out = [a, a + "[0]", a + "[0,1]", a + "[0:2]"]
    if c.dtype.kind in "US":
        return out + [a + "=sum", a + "[]"]
    if len(c) > 2:
        out += ["%s[%d]" % (a, len(c) - 1), "%s[2,0]" % a]
    out += ["%s=[%r,%r]" % (a, float(c[0]), float(c[1])), "%s=%r" % (a, float(c[1])), "%s>%r" % (a, float(c[0])), a + "=axis_data"]
    if field != "pattern" or a != "z":
        out += [a + "[oneperiod]", a + "[smallestperiod]", a + "[antiperiod]"]
    else:
        out += [a + "[smallestperiod]", a + "[pattern]"]
    for op in OPS:
        out.append("%s=%s" % (a, op))
    if a in UNITS:
        out += ["%s{%s}" % (a, UNITS[a]), "%s[1]{%s}" % (a, UNITS[a]), "%s[smallestperiod]{%s}" % (a, UNITS[a])]
    if "nref" in ax.normalizations:
        out += [a + "->nref", a + "->naff[1]"]
    if a == "time":
        out += ["freqs", "freqs[0,1]", "freqs[1]", "freqs=[0,1]", "freqs{kHz}", "freqs=sum", "freqs=derivate", "freqs->nref"]
    elif a == "angle":
        out += ["wavenumber", "wavenumber[0,1]", "wavenumber=[0,2]", "wavenumber=sum", "wavenumber[1]"]
    elif a == "freqs":
        out += ["time", "time[0]", "time[smallestperiod]", "time=mean", "time=axis_data"]
    elif a == "wavenumber":
        out += ["angle", "angle[1]", "angle[oneperiod]", "angle=max"]
    return out


def root(tok):
    return re.split(r"->|[\[=<>{]", tok)[0]


def whole(tok):
    return tok.replace("[smallestperiod]", "")


def axis_data(field, toks):
    d = {}
    for t in toks:
        if t.endswith("=axis_data"):
            d[root(t)] = np.array([0.001, 0.0025, 0.002]) if field == "per-anti" and root(t) == "time" else np.array([0.1, 0.3, 0.2])
    return d


def extract(f, toks, unit, data):
    get = f.get_magnitude_along if "dB" in unit else f.get_along
    return get(*toks, unit=unit, axis_data=data)


def plain_like(E, names, f, D):
    """The extraction stored as a plain field."""
    from SciDataTool import Data1D

    axes = []
    for n in names:
        v = np.asarray(E[n])
        src = [x for x in D.axes if x.name == n][0]
        axes.append(Data1D(name=n, unit=src.unit, values=v, is_components=bool(src.is_components), normalizations=src.normalizations))
    v = np.asarray(E[f.symbol])
    return type(D)(name=f.name, symbol=f.symbol, unit=D.unit, axes=axes, values=v, is_real=f.is_real, normalizations=D.normalizations)


def followups(E, names):
    """Requests made on the derived object."""
    out = [list(names)]
    for n in names:
        others = [m for m in names if m != n]
        size = len(np.atleast_1d(E[n]))
        out.append([n + "[0]"] + others)
        out.append([n + "[%d]" % (size - 1)] + others)
        out.append(others + [n])
        for op in ("sum", "max", "mean"):
            out.append([n + "=" + op] + others)
    if len(names) > 1:
        out.append([names[0]])
    return out


def same_answers(ctx, sig, a, b, symbol, what, scale=1e-3):
    if isinstance(a, LibraryError) or isinstance(b, LibraryError):
        ctx.require(sig, isinstance(a, LibraryError) and isinstance(b, LibraryError), "%s: %s instead of %s" % (what, core.show(a), core.show(b)))
        return
    keys = [k for k in b if k not in ("axes_list", "axes_dict_other") and not isinstance(b[k], str)]
    for k in keys:
        why = core.differ(a.get(k), b[k], rtol=1e-9, atol=1e-9 * scale if k == symbol else 1e-12, squeeze=True)
        ctx.require(sig, why is None, "%s: %s: %s" % (what, k, why))


def smallest(D):
    """Read an object as it is stored."""
    return [x.name + "[smallestperiod]" if x.symmetries and x.name not in ("freqs", "wavenumber") else x.name for x in D.axes]


def run(ctx, case):
    field, toks, unit = case["field"], case["request"], case["unit"]
    f = make(field)
    data = axis_data(field, toks)
    E = ctx.call(extract, make(field), toks, unit, data)
    what = "%s %s %s" % (field, toks, unit)
    kinds = sorted({kind(t) for t in toks})
    sig = "+".join(kinds)
    before = C01.state_of(f)
    D = ctx.call(f.get_data_along, *toks, unit=unit, axis_data=data)
    ctx.state(field, toks, unit)
    ctx.require("purity", C01.state_of(f) == before, "%s: %s" % (what, C01.first_difference(before, C01.state_of(f))))
    if isinstance(E, LibraryError) or isinstance(D, LibraryError):
        ctx.require("exists:" + sig, isinstance(E, LibraryError) and isinstance(D, LibraryError), "%s: derived object %s, extraction %s" % (what, core.show(D), core.show(E)))
        return
    names = [k for k in E if k not in (f.symbol, "axes_list", "axes_dict_other") and not isinstance(E[k], str)]
    if not ctx.require("axes:" + sig, [x.name for x in D.axes] == names, "%s: axes %s, expected %s" % (what, [x.name for x in D.axes], names)):
        return
    ctx.agree("symbol", [D.symbol, D.name], [f.symbol, f.name])
    # content as requested
    small = smallest(D)
    same_answers(ctx, "content:" + sig, ctx.call(D.get_along, *small), E, f.symbol, what + " read as requested")
    # read in full, and through further requests
    Ew = written_out(ctx, f, field, toks, unit, data, E, names)
    if isinstance(Ew, LibraryError):
        return
    G = ctx.call(plain_like, Ew, names, f, D)
    if isinstance(G, LibraryError):
        return ctx.fail("reference", "%s: %s" % (what, G))
    top = np.abs(np.asarray(Ew[f.symbol], dtype=complex))
    top = top[np.isfinite(top)]
    scale = max(1e-3, float(top.max()) if top.size else 0)
    for req in followups(Ew, names):
        same_answers(ctx, "reading:" + sig, ctx.call(D.get_along, *req), ctx.call(G.get_along, *req), f.symbol, what + " then " + str(req), scale)
    # units
    if "dB" in unit:
        ctx.agree("unit:dB", D.unit, unit)
    elif not any(op in t for t in toks for op in ("derivate", "integrate")):
        if unit in ("SI",):
            ctx.agree("unit", D.unit, f.unit)
        elif unit not in f.normalizations:
            back = ctx.call(D.get_along, *small, unit=f.unit)
            ref = ctx.call(extract, make(field), toks, "SI", data)
            same_answers(ctx, "unit:converted", back, ref, f.symbol, what + " read in " + f.unit)
    for n, x, t in zip(names, D.axes, [t for n in names for t in toks if root(t) == n]):
        if "{" in t:
            ctx.agree("axis-unit", x.unit, t.split("{")[1].strip("}"))
        elif "->" not in t:
            src = [y for y in make(field).get_axes() if y.name == n]
            want = src[0].unit if src else {"freqs": "Hz", "wavenumber": "dimless", "time": "s", "angle": "rad"}[n]
            ctx.agree("axis-unit", x.unit, want)


def written_out(ctx, f, field, toks, unit, data, E, names):
    """The extraction with the periods of restricted requests written out.

    The largest value over an axis has no symmetry along the anti-periodic
    ones, so that such a result is only what was extracted.
    """
    sym = {x.name: dict(x.symmetries) for k in ("axes", "axes_dt", "axes_df") for x in getattr(f, k, None) or []}
    extreme = any(t.endswith(("=max", "=min")) for t in toks)
    anti = [root(t) for t in toks if "antiperiod" in sym.get(root(t), {})]
    full = []
    for t in toks:
        full.append(t if extreme and root(t) in anti or (field, root(t)) == ("pattern", "z") else whole(t))
    Ew = ctx.call(extract, make(field), full, unit, data) if full != toks else E
    if isinstance(Ew, LibraryError):
        return Ew
    Ew = dict(Ew)
    v = np.asarray(Ew[f.symbol]).reshape([len(np.atleast_1d(Ew[n])) for n in names])
    positive = "dB" in unit or any(t.endswith(("=rms", "=rss")) for t in toks)
    for i, n in enumerate(names):
        t = [t for t in toks if root(t) == n]
        if not t or not t[0].endswith("derivate") or not sym.get(n) or (extreme and n in anti):
            continue
        k, reps = [(k, r) for k, r in sym[n].items() if k != "delta"][0]
        c = np.asarray(Ew[n])
        # a field holding both domains may have used the spectrum, of one period
        r = len(make(field).get_along(*[m if m == n else m + "[0]" for m in map(root, toks)])[n]) // len(c)
        Ew[n] = c[0] + (c[1] - c[0]) * np.arange(len(c) * r)
        flip = -1 if k == "antiperiod" and r == reps and not positive else 1
        v = np.concatenate([v * flip**j for j in range(r)], axis=i)
    Ew[f.symbol] = v
    return Ew


def kind(t):
    if "->" in t:
        return "norm"
    if "{" in t:
        return "unit"
    if "=axis_data" in t:
        return "axis_data"
    for op in OPS[::-1]:
        if t.endswith("=" + op):
            return op
    for w in ("smallestperiod", "oneperiod", "antiperiod", "pattern"):
        if w in t:
            return w
    if root(t) in ("freqs", "wavenumber"):
        return "fft"
    if "=" in t or ">" in t:
        return "values"
    return "index" if "[" in t else "whole"


def cases(tier):
    for field, names in FIELDS.items():
        per = [tokens(field, a) for a in names]
        if len(names) == 3 and tier != "thorough":
            per = [[t for t in p if kind(t) in ("whole", "smallestperiod", "sum", "fft", "index", "derivate")] for p in per]
        for toks in itertools.product(*per):
            for order in sorted({tuple(range(len(toks))), tuple(reversed(range(len(toks))))}):
                req = [toks[i] for i in order]
                for unit in ("SI",) + (("mT", "dB") if order[0] == 0 and len(toks) < 3 and (tier == "thorough" or kind(toks[0]) in ("whole", "smallestperiod", "fft", "index", "mean", "unit")) else ()):
                    if unit == "mT" and make_unit(field) != "T":
                        continue
                    yield {"field": field, "request": req, "unit": unit}


_UNIT = {}


def make_unit(field):
    if field not in _UNIT:
        _UNIT[field] = make(field).unit
    return _UNIT[field]


# --------------------------------------------------------------------------
# the derived field in the other domain
# --------------------------------------------------------------------------
DUAL = {"time": "freqs", "angle": "wavenumber", "freqs": "time", "wavenumber": "angle"}


def run_domains(ctx, case):
    """Read in any mix of domains, the derived field answers like the field."""
    field, toks, asked = case["field"], case["request"], case["asked"]
    what = "%s %s then %s" % (field, toks, asked)
    D = ctx.call(make(field).get_data_along, *toks)
    ctx.state("domains", field, toks, asked)
    if not ctx.require("domains:exists", not isinstance(D, LibraryError), "%s: %r" % (what, D)):
        return
    f = make(field)
    ctx.require("domains:real", bool(D.is_real) == bool(f.is_real), "%s: is_real %s" % (what, D.is_real))
    want = ctx.call(f.get_along, *asked)
    if isinstance(want, LibraryError):
        return
    same_answers(ctx, "domains:reading", ctx.call(D.get_along, *asked), want, f.symbol, what)


def domain_cases(tier):
    for field in ("one", "plain", "anti-per", "per-anti", "complex", "freqs-wavenumber", "spectrum", "three"):
        names = FIELDS[field]
        sym = {x.name for x in make(field).get_axes() if x.symmetries}
        # an axis written out has more lines than the axis on one period
        for toks in itertools.product(*[(a + "[smallestperiod]",) if a in sym else (a,) for a in names]):
            for asked in itertools.product(*[(a, DUAL[a], a + "[0]", DUAL[a] + "[1]", DUAL[a] + "=sum") if a in DUAL else (a,) for a in names]):
                yield {"field": field, "request": list(toks), "asked": list(asked)}


# --------------------------------------------------------------------------
# units of derived and integrated fields
# --------------------------------------------------------------------------
SYMBOLS = {
    "dimless": {}, "degC": {"K": 1}, "rad": {"m": 1}, "°": {"m": 1}, "rpm": {"m": 1, "s": -1}, "min": {"s": 1},
    "Ohm": {"kg": 1, "m": 2, "s": -3, "A": -2}, "At": {"A": 1}, "Wb": {"kg": 1, "m": 2, "s": -2, "A": -1},
    "Mx": {"kg": 1, "m": 2, "s": -2, "A": -1}, "Hz": {"s": -1}, "Pa": {"kg": 1, "m": -1, "s": -2}, "g": {"kg": 1},
    "s": {"s": 1}, "h": {"s": 1}, "A": {"A": 1}, "J": {"kg": 1, "m": 2, "s": -2}, "W": {"kg": 1, "m": 2, "s": -3},
    "N": {"kg": 1, "m": 1, "s": -2}, "C": {"s": 1, "A": 1}, "T": {"kg": 1, "s": -2, "A": -1}, "G": {"kg": 1, "s": -2, "A": -1},
    "V": {"kg": 1, "m": 2, "s": -3, "A": -1}, "F": {"kg": -1, "m": -2, "s": 4, "A": 2}, "H": {"kg": 1, "m": 2, "s": -2, "A": -2},
    "m": {"m": 1},
}
PREFIX = ("Y", "Z", "E", "P", "T", "G", "M", "k", "h", "da", "d", "c", "m", "u", "n", "p", "f", "a", "z", "y")


def times(a, b, p=1):
    d = dict(a)
    for k, v in b.items():
        d[k] = d.get(k, 0) + p * v
    return {k: v for k, v in d.items() if v}


def readings(text):
    """Dimensions of every reading of a product of symbols."""
    if text == "":
        return [{}]
    out = []
    for s, dim in SYMBOLS.items():
        for pre in ("",) + PREFIX:
            if text.startswith(pre + s):
                rest = text[len(pre + s) :]
                m = re.match(r"\d+", rest)
                powers = [(1, rest)]
                if m:
                    powers = [(int(m.group(0)), rest[m.end() :])]
                for p, r in powers:
                    for d in readings(r):
                        e = times(d, dim, p)
                        if e not in out:
                            out.append(e)
    return out


def dims(text):
    text = text.replace("^", "").replace("*", "").replace(" ", "").replace(".", "")
    num, _, den = text.partition("/")
    if "/" in den:
        return []
    return [times(a, b, -1) for a in readings(num) for b in readings(den)]


FIELD_UNITS = ["", "dimless", "T", "N", "V", "A", "m", "s", "rad", "Hz", "Ohm", "rpm", "min", "Wb", "Pa", "H", "ms", "ms2", "ms3", "ms10", "Nm", "Vs", "m/s", "m/s2", "m/s3", "m2/s", "m2/s2", "N/m2", "N/m^2", "N/m", "A/m", "T/m", "V/m", "T/s", "V/s", "A/s", "kg/m3", "W/m2", "rad/s", "rad/s2", "Ohm/m", "Ohm/s", "rpm/s", "N*m", "V*s", "Nm/s", "s/m", "Nms/rad", "T/ms", "A/m2s", "s2", "m2", "m4", "1/s" , "/s", "/m"]
FIELD_UNITS.remove("1/s")
AXIS = {"time": ("s", "s"), "angle": ("rad", "m"), "z": ("m", "m")}


def run_unit(ctx, case):
    u, ops = case["unit"], case["ops"]
    f = make("three")
    f.unit = u
    want = dims(u)
    toks = []
    for n in ("time", "angle", "z"):
        op = ops.get(n)
        if op is None:
            toks.append(n)
            continue
        toks.append("%s=%s" % (n, op))
        sign = -1 if op == "derivate" else 1
        want = [times(w, SYMBOLS[AXIS[n][1]], sign) for w in want]
    ctx.state(u, sorted(ops.items()))
    D = ctx.call(f.get_data_along, *toks)
    if ctx.require("unit:dimension", not isinstance(D, LibraryError), "%s %s: %s" % (u, ops, D)):
        got = dims(D.unit)
        ctx.require("unit:dimension", any(g in want for g in got), "%s %s: unit %r" % (u, ops, D.unit))


def unit_cases(tier):
    choice = (None, "derivate", "antiderivate", "integrate", "integrate_local")
    for u in FIELD_UNITS:
        for c in itertools.product(choice, repeat=3):
            if tier == "thorough" or sum(x is not None for x in c) <= 2:
                yield {"unit": u, "ops": {n: x for n, x in zip(("time", "angle", "z"), c) if x}}


def run_freq_unit(ctx, case):
    u, op = case["unit"], case["op"]
    f = make("freqs-wavenumber")
    f.unit = u
    ctx.state(u, op)
    D = ctx.call(f.get_data_along, "freqs=" + op, "wavenumber")
    want = [times(w, SYMBOLS["s"], -1 if op == "derivate" else 1) for w in dims(u)]
    if ctx.require("unit:spectral", not isinstance(D, LibraryError), "%s %s: %s" % (u, op, D)):
        ctx.require("unit:spectral", any(g in want for g in dims(D.unit)), "%s %s: unit %r" % (u, op, D.unit))


# --------------------------------------------------------------------------
# chains of derived objects, and vector fields
# --------------------------------------------------------------------------
CHAIN = {
    "anti-per": [["time", "angle"], ["time[smallestperiod]", "angle[smallestperiod]"], ["time", "angle[smallestperiod]"], ["angle", "time"], ["time[oneperiod]", "angle"], ["time[0]", "angle"], ["time", "angle[1]"], ["time=mean", "angle"], ["time=derivate", "angle"], ["angle=derivate", "time[smallestperiod]"], ["freqs", "wavenumber"], ["freqs", "angle[smallestperiod]"], ["time[0:2]", "angle"]],
    "plain": [["time", "z"], ["z", "time"], ["time[0]", "z"], ["time=sum", "z"], ["z=derivate", "time"], ["z=integrate", "time"], ["freqs", "z"], ["time[0,2]", "z[1,2]"]],
}


def run_chain(ctx, case):
    """Deriving twice is reading the first derived object."""
    field = case["field"]
    f = make(field)
    D = ctx.call(f.get_data_along, *case["first"])
    if isinstance(D, LibraryError):
        return ctx.fail("chain", "%s: %s" % (case, D))
    ctx.state(field, case["first"], case["second"])
    E = ctx.call(D.copy().get_along, *case["second"])
    D2 = ctx.call(D.get_data_along, *case["second"])
    if isinstance(E, LibraryError) or isinstance(D2, LibraryError):
        return ctx.require("chain", isinstance(E, LibraryError) and isinstance(D2, LibraryError), "%s: %s / %s" % (case, core.show(E), core.show(D2)))
    names = [k for k in E if k not in (f.symbol, "axes_list", "axes_dict_other") and not isinstance(E[k], str)]
    small = smallest(D2)
    ctx.agree("chain-axes", [x.name for x in D2.axes], names)
    same_answers(ctx, "chain", ctx.call(D2.get_along, *small), E, f.symbol, str(case))
    # back to where it started
    if {root(t) for t in case["first"]} == {"freqs", "wavenumber"} and {root(t) for t in case["second"]} == {"time", "angle"} and case["second"] == [whole(t) for t in case["second"]] and "derivate" not in str(case["second"]):
        same_answers(ctx, "chain-back", E, ctx.call(make(field).get_along, *case["second"]), f.symbol, str(case))


def chain_cases(tier):
    for field, reqs in CHAIN.items():
        for a in reqs:
            for b in reqs:
                yield {"field": field, "first": a, "second": b}


def run_vector(ctx, case):
    vf = C01.make(case["object"])
    before = model.snapshot(vf)
    got = ctx.call(vf.get_vectorfield_along, *case["request"], unit=case["unit"])
    ctx.state(case["object"], case["request"], case["unit"])
    ctx.require("vector-purity", model.snapshot(vf) == before, str(case))
    ref = {k: ctx.call(C01.make(case["object"]).components[k].get_data_along, *case["request"], unit=case["unit"]) for k in vf.components}
    bad = [k for k in ref if isinstance(ref[k], LibraryError)]
    if bad or isinstance(got, LibraryError):
        return ctx.require("vector", bool(bad) and isinstance(got, LibraryError), "%s: %s" % (case, core.show(got)))
    ctx.agree("vector-names", [got.name, got.symbol, type(got).__name__], [vf.name, vf.symbol, "VectorField"])
    if ctx.require("vector-components", list(got.components) == list(vf.components), "%s: %s" % (case, list(got.components))):
        for k in ref:
            ctx.require("vector", model.snapshot(got.components[k]) == model.snapshot(ref[k]), "%s: component %s" % (case, k))


def vector_cases(tier):
    for name in ("vf-xyz", "vf-rphiz", "vf-rphi", "vf-freq", "vf-one"):
        base = CHAIN["anti-per"] + [["time"], ["angle"], [], ["wrong"], ["time=max", "angle=sum"], ["time{ms}", "angle"]]
        for req in base:
            for unit in ("SI", "mT", "dB"):
                yield {"object": name, "request": req, "unit": unit}


def spaces():
    return [
        Space("requests", cases, run, "13 fields, about 30 requests per axis in all combinations and both orders, units SI, mT, dB; 4 to 20 further requests on each derived object"),
        Space("units", unit_cases, run_unit, "%d units, every choice of derivation or integration on up to two axes (three thorough)" % len(FIELD_UNITS)),
        Space("spectral-units", lambda t: [{"unit": u, "op": o} for u in FIELD_UNITS for o in ("derivate", "antiderivate")], run_freq_unit, "derivation and integration of spectra"),
        Space("chains", chain_cases, run_chain, "every pair of requests, the second on the derived object"),
        Space("vectors", vector_cases, run_vector, "5 vector fields, 20 requests, 3 units"),
        Space("domains", domain_cases, run_domains, "8 fields derived in full (on the smallest period when they have symmetries), read whole, at one sample or summed in every mix of domains"),
    ]


ASSUMPTIONS = ["unit labels are products of symbols; a label with several readings is accepted if one of them fits"]
