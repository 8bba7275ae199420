"""Leakage filtering gives back the amplitude and phase of each known frequency."""
import itertools

import numpy as np

from .. import model, spectral
from ..core import LibraryError, Space


def freq_sets(n, big):
    """Known frequencies, as multiples of the step between lines, below half the sampling rate."""
    sets = [[1.3], [0.4], [1.0], [0.0, 1.3], [1.6, 0.6], [1.0, 2.0], [0.0, 1.0], [0.0], [0.3, 1.35, 2.4], [-1.3, 1.3], [-1.2, 0.0, 1.2], [2.45], [0.0, 1.2, 2.4], [-2.3, -1.2, 1.2, 2.3]]
    if big:
        sets += [[0.5, 1.5], [2.25, 1.125], [1.25, 0.0], [0.0, 0.9, 1.9, 3.1], [3.3, 2.2, 1.1], [-2.2, -1.1, 0.0, 1.1, 2.2]]
    sets = [s for s in sets if max(abs(k) for k in s) <= (n - 1) // 2 and 2 * len(set(abs(k) for k in s)) <= n]
    # close frequencies, then a frequency above the range of the spectrum
    top = (n - 1) // 2
    sets += [[1.0, 1.4], [1.3, 3.0 * n], [-3.0 * n, -1.2, 0.0, 1.2, 3.0 * n]]
    return sets


def both_signs(ks):
    return sorted(set([abs(k) for k in ks] + [-abs(k) for k in ks if k]))


def amplitudes(kept, rest, cplx, hole):
    """Complex amplitude of each frequency at every point of the other axes."""
    c = model.raw_values((len(kept),) + rest, True, salt=3) / 10
    if hole is not None and len(kept) > 1:
        c[hole % len(kept)] = 0
    if not cplx and kept[0] == 0:
        c[0] = c[0].real
    return c


def build(case):
    """Returns the sampled field (axes in the order asked for), frequencies, expected lines."""
    from SciDataTool import Data1D, DataLinspace

    n, h, t0, cplx = case["n"], case["h"], case["t0"] * case["h"], case["cplx"]
    df = 1.0 / (n * h)
    asked = case["freqs"]
    kept = both_signs([k for k in asked if abs(k) <= n])
    if not cplx:
        kept = [k for k in kept if k >= 0]
    fk = np.array(kept) * df
    t = t0 + h * np.arange(n)
    others = case["others"]
    full = tuple(len(model.full_coords(a)) for a in others)
    stored = tuple(a["n"] for a in others)
    c = amplitudes(kept, stored, cplx, case.get("hole"))
    v = np.tensordot(np.exp(2j * np.pi * np.outer(t, fk)), c, axes=1)
    if not cplx:
        v = v.real
    if case["kind"] == "lin":
        T = DataLinspace(name="time", unit="s", initial=t0, final=t0 + n * h, number=n, include_endpoint=False)
    else:
        T = Data1D(name="time", unit="s", values=t)
    axes = [T] + [model.build_axis(a) for a in others]
    want = c
    labels = [("freqs", fk)]
    for i, a in enumerate(others):
        want = model.expand(want, i + 1, a)
        if a["name"] == "angle":
            fl = spectral.lines(a, True)
            want = spectral.coefficients(want, i + 1, a, fl, np.ones(len(fl)))
            labels.append(("wavenumber", fl))
        else:
            labels.append((a["name"], model.full_coords(a)))
    order = case.get("order") or list(range(len(axes)))
    return [axes[i] for i in order], np.transpose(v, order), np.array(asked) * df, labels, want


def judge(ctx, sig, res, labels, want, cplx):
    if isinstance(res, LibraryError):
        ctx.require(sig + ":call", False, repr(res))
        return
    got = ctx.call(res.get_along, *[name for name, _ in labels], is_squeeze=False)
    if isinstance(got, LibraryError):
        ctx.require(sig + ":read", False, repr(got))
        return
    for name, lab in labels:
        ctx.agree(sig + ":label", got.get(name), lab)
    # axes are put in the order of the labels
    names = [a.name for a in res.axes]
    try:
        x = np.transpose(np.asarray(got[res.symbol]), [names.index(name) for name, _ in labels])
    except (KeyError, ValueError) as e:
        ctx.require(sig + ":axes", False, "%r %s" % (e, names))
        return
    ctx.agree(sig + ":lines", x, want, rtol=1e-7, atol=1e-8)
    ctx.require(sig + ":real", bool(res.is_real) == (not cplx), "is_real %r" % res.is_real)


def run(ctx, case):
    from SciDataTool import DataTime

    axes, v, freqs, labels, want = build(case)
    obj = DataTime(name="f", symbol="B", unit="T", axes=axes, values=v.copy(), is_real=not case["cplx"])
    before = model.snapshot(obj)
    ctx.state("leak", case)
    res = ctx.call(obj.filter_spectral_leakage, freqs.copy())
    judge(ctx, case["sig"], res, labels, want, case["cplx"])
    ctx.require(case["sig"] + ":kept", model.snapshot(obj) == before, "the field was changed")
    if not isinstance(res, LibraryError) and "back" in case:
        t = np.array([0.3, 1.0, 2.2, 4.6]) * case["h"]
        back = ctx.call(res.get_along, "time=axis_data", axis_data={"time": t})
        if isinstance(back, LibraryError):
            ctx.require("back", False, repr(back))
            return
        y = np.exp(2j * np.pi * np.outer(t, labels[0][1])) @ want
        ctx.agree("back", back["B"], y if case["cplx"] else y.real, rtol=1e-7, atol=1e-8)


def single(tier):
    big = tier == "thorough"
    for n in [5, 6, 7, 8] + ([9, 12] if big else []):
        for s in freq_sets(n, big):
            for cplx in (False, True):
                for h in (0.25, 1e-3, 40.0):
                    for t0 in (0, 1, -2.5):
                        for kind in ("lin", "1d"):
                            for hole in (None, 0, 1):
                                yield {"n": n, "h": h, "t0": t0, "kind": kind, "cplx": cplx, "freqs": s, "others": [], "hole": hole, "sig": "1d", "back": 1}


def other_axes(big):
    z2 = model.axis("z", 2, h=0.5)
    z3 = model.axis("z", 3, h=0.5, kind="1d")
    z1 = model.axis("z", 1, kind="1d", x=[0.5])
    p3 = model.axis("phase", 3, kind="1d", unit="dimless")
    ang = [spectral.angle_axis(na, sym, kind) for na in ([3, 4] + ([5, 6] if big else [])) for sym in (None, ["period", 2], ["antiperiod", 2], ["period", 3]) for kind in ("lin", "1d")]
    out = [[z2], [z3], [z1], [p3], [z2, p3], [z3, z2 | {"name": "x"}, p3]]
    for a in ang:
        out += [[a], [a, z2], [a, z3], [a, z1]]
    a = spectral.angle_axis(4)
    out += [[a, z2, p3], [a, p3]]
    return out


def multi(tier):
    big = tier == "thorough"
    for others in other_axes(big):
        for n in (6, 7):
            for s in freq_sets(n, big):
                for cplx in (False, True):
                    for hole in (None, 1):
                        yield {"n": n, "h": 0.25, "t0": 0, "kind": "lin", "cplx": cplx, "freqs": s, "others": others, "hole": hole, "sig": "nd"}
                    if len(s) == 2:
                        yield {"n": n, "h": 0.25, "t0": -1.5, "kind": "1d", "cplx": cplx, "freqs": s, "others": others, "sig": "nd"}
                        for order in list(itertools.permutations(range(len(others) + 1)))[1:]:
                            yield {"n": n, "h": 0.25, "t0": 0, "kind": "1d", "cplx": cplx, "freqs": s, "others": others, "order": list(order), "sig": "order"}


# --------------------------------------------------------------------------
# stored spectra
# --------------------------------------------------------------------------
def run_stored(ctx, case):
    from SciDataTool import Data1D, DataFreq

    axes, v, freqs, labels, want = build(case)
    n, cplx, others = case["n"], case["cplx"], case["others"]
    t = case["h"] * np.arange(n)
    k = np.arange(n) - n // 2 if cplx else np.arange(n // 2 + 1)
    fl = k / (n * case["h"])
    S = np.tensordot(np.exp(-2j * np.pi * np.outer(fl, t)) / n, v, axes=1)
    if not cplx:
        S[1:] *= 2
    ax = [Data1D(name="freqs", unit="Hz", values=fl)]
    for i, a in enumerate(others):
        if a["name"] == "angle" and case["wave"]:
            w = spectral.lines(a, True)
            S = spectral.coefficients(model.expand(S, i + 1, a), i + 1, a, w, np.ones(len(w)))
            ax.append(Data1D(name="wavenumber", unit="dimless", values=w))
        else:
            ax.append(model.build_axis(a))
    obj = DataFreq(name="f", symbol="B", unit="T", axes=ax, values=S, is_real=not cplx)
    before = model.snapshot(obj)
    ctx.state("stored", case)
    res = ctx.call(obj.filter_spectral_leakage, freqs.copy())
    judge(ctx, case["sig"], res, labels, want, cplx)
    ctx.require(case["sig"] + ":kept", model.snapshot(obj) == before, "the field was changed")


def stored(tier):
    big = tier == "thorough"
    z2 = model.axis("z", 2, h=0.5)
    sets = [[], [z2], [model.axis("phase", 3, kind="1d", unit="dimless")]]
    for na in [3, 4] + ([5] if big else []):
        sets += [[spectral.angle_axis(na)], [spectral.angle_axis(na), z2]]
    for others in sets:
        for n in (6, 8) + ((10,) if big else ()):
            for s in freq_sets(n, big):
                for cplx in (False, True):
                    for wave in (False, True) if any(a["name"] == "angle" for a in others) else (False,):
                        yield {"n": n, "h": 0.25, "t0": 0, "kind": "lin", "cplx": cplx, "freqs": s, "others": others, "wave": wave, "sig": "stored:" + ("w" if wave else "a" if any(a["name"] == "angle" for a in others) else "")}


# --------------------------------------------------------------------------
# vector fields
# --------------------------------------------------------------------------
def run_vector(ctx, case):
    from SciDataTool import DataTime, VectorField

    comps, wants = {}, {}
    for j, name in enumerate(case["comps"]):
        axes, v, freqs, labels, want = build(case)
        w = (1.0, -0.5, 2.0)[j]
        comps[name] = DataTime(name=name, symbol="B_" + name[0], unit="T", axes=axes, values=v * w, is_real=not case["cplx"])
        wants[name] = want * w
    vf = VectorField(name="vf", symbol="B", components=comps)
    before = model.snapshot(vf)
    ctx.state("vector", case)
    res = ctx.call(vf.filter_spectral_leakage, freqs.copy())
    if isinstance(res, LibraryError):
        ctx.require("vector:call", False, repr(res))
        return
    ctx.require("vector:components", list(res.components) == list(comps), list(res.components))
    for name in comps:
        if name in res.components:
            judge(ctx, "vector", res.components[name], labels, wants[name], case["cplx"])
    ctx.require("vector:kept", model.snapshot(vf) == before, "the field was changed")


def vectors(tier):
    big = tier == "thorough"
    z2 = model.axis("z", 2, h=0.5)
    for others in ([], [z2], [spectral.angle_axis(4)], [spectral.angle_axis(3), z2], [spectral.angle_axis(4, ["antiperiod", 2])]):
        for n in (6, 7):
            for s in freq_sets(n, big):
                for cplx in (False, True):
                    for comps in (["radial"], ["radial", "tangential"], ["radial", "tangential", "axial"]):
                        yield {"n": n, "h": 0.25, "t0": 0, "kind": "lin", "cplx": cplx, "freqs": s, "others": others, "comps": comps}


def spaces():
    return [
        Space("single", single, run, "5..8 instants (12 thorough), 3 time steps, 3 starting instants, linear or explicit axis, real/complex, up to 14 lists of known frequencies on or off the lines (20 thorough), with all of them or all but one present"),
        Space("multi", multi, run, "the same lists with 1 to 3 other axes: angle (3, 4 samples; 6 thorough; 4 symmetries), z, phase, in every storage order"),
        Space("stored", stored, run_stored, "the same lists for a stored spectrum of 6 or 8 instants, with angle, wavenumber, z or phase axes, real/complex"),
        Space("vector", vectors, run_vector, "vector fields of 1 to 3 components over 5 axis layouts, the same lists, real/complex"),
    ]


ASSUMPTIONS = ["known frequencies differ by about one line or more (or two of them share a line) and lie strictly below half the sampling rate"]
