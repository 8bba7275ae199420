"""Magnitude, phase and harmonics are views of the same spectrum."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space

SYMS = [None, ["period", 2], ["antiperiod", 2], ["period", 3], ["antiperiod", 4]]


def texts(f, reqs, doms):
    out = []
    for a, r, d in zip(f["axes"], reqs, doms):
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        if r[0] != "omit":
            out.append(select.text(name, r))
    return out


def build(ctx, case):
    obj = model.build_field(case["field"])
    if case.get("stored"):
        obj = ctx.call(obj.time_to_freq)
    return obj


def run_views(ctx, case):
    """Modulus and argument of the complex result of the same request."""
    f, reqs, doms = case["field"], case["reqs"], case["doms"]
    obj = build(ctx, case)
    ctx.state("views", f, reqs, doms, case.get("stored"))
    args = texts(f, reqs, doms)
    labels, v = spectral.answer(f, reqs, doms, stored=bool(case.get("stored")))
    v = np.squeeze(v)
    sig = "%s:%s" % ("".join(doms), "+".join(sorted({r[0] for r in reqs})))
    mag = ctx.call(obj.get_magnitude_along, *args)
    if ctx.require("magnitude:error:" + sig, not isinstance(mag, LibraryError), repr(mag)):
        ctx.agree("magnitude:" + sig, mag.get("X"), np.abs(v), atol=1e-9)
        for name, lab in labels.items():
            ctx.agree("magnitude:label:" + sig, mag.get(name), lab)
    pha = ctx.call(obj.get_phase_along, *args)
    if ctx.require("phase:error:" + sig, not isinstance(pha, LibraryError), repr(pha)):
        got = np.asarray(pha.get("X"), dtype=float)
        if ctx.require("phase:shape:" + sig, got.shape == v.shape, "%s, expected %s" % (got.shape, v.shape)):
            # the argument of a vanishing line has no meaning
            keep = np.abs(v) > 1e-9
            ctx.require("phase:range:" + sig, bool((np.abs(got) <= np.pi + 1e-12).all()), "%s" % got)
            ctx.agree("phase:" + sig, np.exp(1j * got[keep]), np.exp(1j * np.angle(v[keep])), rtol=1e-7)
        for name, lab in labels.items():
            ctx.agree("phase:label:" + sig, pha.get(name), lab)
    # and both together are the complex result
    both = ctx.call(obj.get_along, *args)
    if not isinstance(both, LibraryError) and not isinstance(mag, LibraryError) and not isinstance(pha, LibraryError):
        z = np.asarray(mag["X"]) * np.exp(1j * np.asarray(pha["X"]))
        ctx.agree("together:" + sig, z, both["X"], rtol=1e-8, atol=1e-9)
    # a tuple of arguments is the same request
    tup = ctx.call(obj.get_magnitude_along, tuple(args))
    if not isinstance(mag, LibraryError):
        ctx.agree("magnitude:tuple", None if isinstance(tup, LibraryError) else tup["X"], mag["X"])


def reqs_for(a, d, cplx, size):
    if d == "d":
        return [["whole"], ["idx", 1], ["small"], ["omit"]] if size == "mid" else [["whole"], ["idx", 0], ["idx", 1], ["small"], ["one"], ["rng", 0, 2]]
    x = spectral.lines(a, cplx)
    m = len(x)
    out = [["whole"], ["idx", m - 1], ["idxs", [m - 1, 0]]]
    if m > 1:
        h = x[1] - x[0]
        out += [["rng", 1, m], ["gt", float(x[0] + 0.5 * h)], ["int", float(-0.25 * h), float(x[-1] + 0.25 * h)]]
        if size == "full":
            out += [["idx", i] for i in range(m - 1)] + [["lt", float(x[-1] - 0.5 * h)]]
            out += [["int", float(x[i] - 0.25 * h), float(x[j] + 0.25 * h)] for i in range(m) for j in range(i, m)]
    return out


def fields(tier):
    """(field, direct/spectral choices) of one and two axes"""
    big = tier == "thorough"
    for sym in SYMS:
        for n in (3, 4, 2) + ((5, 6) if big else ()):
            for cplx in (False, True):
                yield {"axes": [model.axis("time", n, sym, h=0.25)], "cplx": cplx}, "full"
                yield {"axes": [spectral.angle_axis(n, sym)], "cplx": cplx}, "full"
    for s0, s1 in itertools.product(SYMS[:3], repeat=2):
        at, aa, ax = model.axis("time", 4, s0, h=0.25), spectral.angle_axis(3, s1), model.axis("x", 2, s1)
        for axes in ([at, aa], [aa, at], [at, ax], [ax, at], [ax, aa]):
            for cplx in (False, True) if big else (False,):
                yield {"axes": axes, "cplx": cplx}, "mid"


def views_cases(tier):
    for f, size in fields(tier):
        for doms in itertools.product(*[("s", "d") if spectral.is_spectral(a) else ("d",) for a in f["axes"]]):
            for reqs in itertools.product(*[reqs_for(a, d, f["cplx"], size) for a, d in zip(f["axes"], doms)]):
                if all(r[0] == "omit" for r in reqs):
                    continue
                for stored in (False, True):
                    if stored and "d" in [d for a, d in zip(f["axes"], doms) if spectral.is_spectral(a)]:
                        continue
                    yield {"field": f, "reqs": list(reqs), "doms": list(doms), "stored": stored}


def run_calculus(ctx, case):
    """Modulus and argument of derivatives and primitives."""
    f, args = case["field"], case["args"]
    obj = build(ctx, case)
    ctx.state("calculus", f, args, case.get("stored"))
    both = ctx.call(obj.get_along, *args)
    mag = ctx.call(obj.get_magnitude_along, *args)
    pha = ctx.call(obj.get_phase_along, *args)
    bad = [r for r in (both, mag, pha) if isinstance(r, LibraryError)]
    if not ctx.require("calculus:error", not bad, "%s %s" % (args, bad)):
        return
    z = np.asarray(both["X"])
    keep = np.isfinite(z) & (np.abs(z) > 1e-9)
    ctx.require("calculus:real", not np.iscomplexobj(mag["X"]) and not np.iscomplexobj(pha["X"]), "%s" % args)
    ctx.agree("calculus:magnitude", np.asarray(mag["X"])[keep], np.abs(z[keep]))
    ctx.agree("calculus:phase", np.exp(1j * np.asarray(pha["X"])[keep]), z[keep] / np.abs(z[keep]), rtol=1e-7)


def calculus_cases(tier):
    for f, size in fields(tier):
        alph = []
        for a in f["axes"]:
            n = a["name"]
            al = [n, n + "[1]"]
            if spectral.is_spectral(a):
                al += [n + "=derivate", n + "=antiderivate", spectral.spectral_name(a)]
            if n == "time":
                al += ["freqs=derivate", "freqs=antiderivate"]
            alph.append(al)
        for args in itertools.product(*alph):
            if not any("=" in t for t in args):
                continue
            for stored in (False, True):
                if stored and any(t.startswith(("time", "angle")) for t in args):
                    continue
                yield {"field": f, "args": list(args), "stored": stored}


def run_harmonics(ctx, case):
    """The N largest lines, in decreasing order, each with its own coordinates."""
    f, reqs, doms, N = case["field"], case["reqs"], case["doms"], case["N"]
    obj = build(ctx, case)
    ctx.state("harmonics", f, reqs, doms, N, case.get("stored"))
    labels, v = spectral.answer(f, reqs, doms, stored=bool(case.get("stored")))
    names = [spectral.spectral_name(a) for a, d in zip(f["axes"], doms) if d == "s"]
    dims = [i for i, d in enumerate(doms) if d == "s"]
    mag = np.abs(v)
    assert all(mag.shape[i] == 1 for i in range(mag.ndim) if i not in dims)
    mag = mag.reshape([mag.shape[i] for i in dims])
    table = {}
    for pos in np.ndindex(*mag.shape):
        table[tuple(round(float(labels[n][p]), 6) for n, p in zip(names, pos))] = mag[pos]
    k = case.get("factor", 1.0)
    want = sorted([m * k for m in table.values()], reverse=True)[:N]
    kw = {"unit": case["unit"]} if "unit" in case else {}
    got = ctx.call(obj.get_harmonics, N, *texts(f, reqs, doms), **kw)
    sig = "".join(n[0] for n in names) + (":unit" if kw else "")
    if isinstance(got, LibraryError):
        ctx.require("harmonics:error:" + sig, False, "%s %r" % (texts(f, reqs, doms), got))
        return
    if not ctx.agree("harmonics:values:" + sig, got.get("X"), np.array(want), rtol=1e-8, atol=1e-9):
        return
    coords = [np.asarray(got.get(n)) for n in names]
    if not ctx.require("harmonics:coords:" + sig, all(c.shape == (len(want),) for c in coords), "%s" % (coords,)):
        return
    keys = [tuple(round(float(c[i]), 6) for c in coords) for i in range(len(want))]
    ctx.require("harmonics:distinct:" + sig, len(set(keys)) == len(keys), "%s" % keys)
    for key, m in zip(keys, want):
        if not ctx.require("harmonics:own:" + sig, key in table and abs(table[key] * k - m) <= 1e-8 * abs(want[0]) + 1e-9, "line %s is announced with %s, has %s" % (key, m, table.get(key, "no value"))):
            return


def harmonics_cases(tier):
    for f, size in fields(tier):
        for doms in itertools.product(*[("s", "d") if spectral.is_spectral(a) else ("d",) for a in f["axes"]]):
            if "s" not in doms:
                continue
            alph = []
            for a, d in zip(f["axes"], doms):
                alph.append([["idx", 0], ["idx", 1], ["omit"]] if d == "d" else [r for r in reqs_for(a, d, f["cplx"], "mid")])
            for reqs in itertools.product(*alph):
                nl = 1
                for a, r, d in zip(f["axes"], reqs, doms):
                    if d == "s":
                        nl *= len(select.pick(a, r, x=spectral.lines(a, f["cplx"]))[1])
                for N in sorted({1, 2, 3, max(1, nl - 1), nl, nl + 2}):
                    for stored in (False, True):
                        if stored and "d" in [d for a, d in zip(f["axes"], doms) if spectral.is_spectral(a)]:
                            continue
                        yield {"field": f, "reqs": list(reqs), "doms": list(doms), "N": N, "stored": stored}
                        if N == 2 and not stored:
                            yield {"field": f, "reqs": list(reqs), "doms": list(doms), "N": N, "unit": "mT", "factor": 1e3}


def spaces():
    return [
        Space("views", views_cases, run_views, "time and/or angle (and x) in both storage orders, 5 symmetries (3x3 on pairs), 2-4 samples (6 thorough), direct and spectral selections, sampled and stored spectra, real and complex"),
        Space("calculus", calculus_cases, run_calculus, "derivatives and primitives along one or two axes of the same fields"),
        Space("harmonics", harmonics_cases, run_harmonics, "the same fields, all lines or a selection of them along one or both spectral axes, N from 1 to more than the number of lines"),
    ]


ASSUMPTIONS = ["harmonics are asked along one or two spectral axes, every other axis being reduced to one sample", "requests without reductions: reductions of a magnitude act on the moduli"]
