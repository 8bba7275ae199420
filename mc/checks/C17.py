"""A change of rotating frame is an exact, invertible shift."""
import itertools

import numpy as np

from .. import model
from ..core import LibraryError, Space

# A wave [k, r, amplitude, phase] is amplitude*cos(2 pi k t/T + r alpha + phase)


def waves_lines(waves, T, hz=0.0):
    """Two-sided-in-wavenumber, one-sided-in-frequency lines {(f, r): complex}, frame at hz turns/s."""
    out = {}

    def add(f, r, a):
        key = (round(f, 6) + 0.0, r)
        out[key] = out.get(key, 0) + a

    for k, r, amp, ph in waves:
        f = k / T + r * hz
        a = amp * np.exp(1j * ph)
        if abs(f) < 1e-9:
            if r == 0:
                add(0.0, 0, a.real)
            else:
                add(0.0, r, a / 2)
                add(0.0, -r, np.conj(a) / 2)
        elif f > 0:
            add(f, r, a)
        else:
            add(-f, -r, np.conj(a))
    return out


def wave_values(waves, T, t, al, hz=0.0):
    v = np.zeros((len(t), len(al)))
    for k, r, amp, ph in waves:
        v = v + amp * np.cos(2 * np.pi * (k / T + r * hz) * t[:, None] + r * al[None, :] + ph)
    return v


def gain(case, i):
    """Factor of a slice: increasing, or of alternate sign so that the slices cancel."""
    return (-1.0) ** i if case.get("flip") else 1 + 0.5 * i


def build(case):
    """DataTime on time and angle (and a slice axis), stored on its symmetries."""
    from SciDataTool import Data1D, DataTime

    at, aa = case["axes"]
    t, al = model.stored_coords(at), model.stored_coords(aa)
    T = at["h"] * model.reps(at) * at["n"]
    v = wave_values(case["waves"], T, t, al)
    axes = [model.build_axis(at), model.build_axis(aa)]
    if case.get("slices"):
        axes.append(Data1D(name="z", unit="m", values=np.arange(case["slices"]) * 0.5))
        v = np.stack([v * gain(case, i) for i in range(case["slices"])], axis=2)
    return DataTime(name="Field", symbol="X", unit="T", axes=axes, values=v), T


def check_lines(ctx, sig, obj, want, case):
    """Every line of the object is one of the expected ones, with its amplitude."""
    slices = case.get("slices", 0)
    args = ["freqs", "wavenumber"] + (["z"] if slices else [])
    res = ctx.call(obj.get_along, *args, is_squeeze=False)
    if isinstance(res, LibraryError):
        ctx.require(sig + ":read", False, repr(res))
        return
    f, r, v = np.asarray(res["freqs"]), np.asarray(res["wavenumber"]), np.asarray(res["X"])
    left = dict(want)
    scale = max([abs(a) for a in want.values()] + [1e-3])
    for s in range(slices or 1):
        left = dict(want)
        vs = v[:, :, s] if v.ndim == 3 else v
        for i, fi in enumerate(f):
            for j, rj in enumerate(r):
                key = (round(float(fi), 6) + 0.0, int(round(float(rj))))
                a = left.pop(key, 0.0) * gain(case, s)
                if abs(vs[i, j] - a) > 1e-8 * scale:
                    ctx.require(sig + ":line", False, "line %s: expected %s, got %s" % (key, a, vs[i, j]))
                    return
        lost = {k: a for k, a in left.items() if abs(a) > 1e-8 * scale}
        if not ctx.require(sig + ":lost", not lost, "lines %s missing" % lost):
            return
    ctx.outcomes.add(repr(sorted((k, round(abs(a), 6)) for k, a in want.items())))


def run_spectral(ctx, case):
    """Sequence of changes of frame: after each, the lines are those of the total rotation."""
    obj, T = build(case)
    if case["stored"]:
        obj = ctx.call(obj.time_to_freq)
    hz = 0.0
    slices = case.get("slices", 0)
    for step, speed in enumerate(case["speeds"]):
        before = model.snapshot(obj)
        got = ctx.call(obj.change_referential, speed, False)
        if isinstance(got, LibraryError):
            ctx.require("spectral:error", False, repr(got))
            return
        ctx.require("spectral:source", model.snapshot(obj) == before, "source changed")
        obj = got[0]
        hz += speed / 60.0
        ctx.state("spectral", case["axes"], case["waves"], case["speeds"][: step + 1], case["stored"], slices, case.get("flip"))
        want = waves_lines(case["waves"], T, hz)
        check_lines(ctx, "spectral%d" % min(step, 1), obj, want, case)
        if case.get("times"):
            t = np.array([0.0, 0.11, 0.37])
            res = ctx.call(obj.get_along, "time=axis_data", "angle", axis_data={"time": t})
            if ctx.require("spectral:time", not isinstance(res, LibraryError), repr(res)):
                al = model.full_coords(case["axes"][1])
                ctx.agree("spectral:values", res["X"], wave_values(case["waves"], T, t, al, hz), rtol=1e-8, atol=1e-8)


def frames(tier):
    """(axes, wavenumber factor, frequency factor, only odd)"""
    out = []
    for st, sa in itertools.product([None, ["period", 2], ["antiperiod", 2]], [None, ["period", 2], ["antiperiod", 2]]):
        nt, na = 8, 6
        if st and st[0] == "antiperiod":
            nt = 4
        if sa and sa[0] == "antiperiod":
            na = 4
        reps_t, reps_a = (st[1] if st else 1), (sa[1] if sa else 1)
        at = model.axis("time", nt, st, h=1.0 / (nt * reps_t))
        aa = model.axis("angle", na, sa, h=2 * np.pi / (na * reps_a))
        ks = [0, 1, 2, 3] if st is None else [0, 2, 4] if st[0] == "period" else [1, 3]
        rs = [0, 1, -1, 2, -2] if sa is None else [0, 2, -2, 4, -4] if sa[0] == "period" else [1, -1, 3, -3]
        out.append((at, aa, ks, rs))
    return out


SPEEDS = [0.0, 60.0, -60.0, 30.0, 45.0, -120.0]


def spectral_cases(tier):
    for at, aa, ks, rs in frames(tier):
        pool = [(k, r) for k in ks for r in rs if not (k == 0 and r < 0)]
        singles = [[[k, r, 2.0, 0.7]] for k, r in pool]
        pairs = [[[k, r, 2.0, 0.7], [k2, r2, 0.75, -0.4]] for (k, r), (k2, r2) in itertools.combinations(pool, 2)]
        for stored in (False, True):
            for w in singles:
                for depth in (1, 2, 3) if tier == "thorough" else (1, 2):
                    for sp in itertools.product(SPEEDS, repeat=depth):
                        yield {"axes": [at, aa], "waves": w, "speeds": list(sp), "stored": stored}
            for w in pairs:
                for sp in [[s] for s in SPEEDS] + [[s, -s] for s in SPEEDS[1:]] + [[60.0, 30.0], [45.0, 15.0]]:
                    yield {"axes": [at, aa], "waves": w, "speeds": sp, "stored": stored}
            for w in [[[k, r, 1.0 + 0.1 * i, 0.3 * i] for i, (k, r) in enumerate(pool)]]:
                for sp in itertools.product(SPEEDS, repeat=2):
                    yield {"axes": [at, aa], "waves": w, "speeds": list(sp), "stored": stored, "slices": 2}
                    yield {"axes": [at, aa], "waves": w, "speeds": list(sp), "stored": stored, "slices": 2, "flip": True}
                    yield {"axes": [at, aa], "waves": w, "speeds": list(sp), "stored": stored}
                    if aa["sym"] is None:
                        yield {"axes": [at, aa], "waves": w, "speeds": list(sp), "stored": stored, "times": True}


def run_complex(ctx, case):
    """Complex field: every two-sided line moves by itself."""
    from SciDataTool import DataTime

    at, aa = case["axes"]
    t, al = model.stored_coords(at), model.stored_coords(aa)
    v = np.zeros((len(t), len(al)), complex)
    for k, r, amp, ph in case["waves"]:
        v = v + amp * np.exp(1j * (2 * np.pi * k * t[:, None] + r * al[None, :] + ph))
    obj = DataTime(name="Field", symbol="X", unit="T", axes=[model.build_axis(at), model.build_axis(aa)], values=v, is_real=False)
    hz = 0.0
    for step, speed in enumerate(case["speeds"]):
        got = ctx.call(obj.change_referential, speed, False)
        if isinstance(got, LibraryError):
            ctx.require("complex:error", False, repr(got))
            return
        obj = got[0]
        hz += speed / 60.0
        ctx.state("complex", case["waves"], case["speeds"][: step + 1])
        want = {}
        for k, r, amp, ph in case["waves"]:
            key = (round(k + r * hz, 6) + 0.0, r)
            want[key] = want.get(key, 0) + amp * np.exp(1j * ph)
        check_lines(ctx, "complex%d" % min(step, 1), obj, want, {})


def complex_cases(tier):
    at = model.axis("time", 8, None, h=1.0 / 8)
    aa = model.axis("angle", 6, None, h=2 * np.pi / 6)
    pool = [(k, r) for k in (0, 1, -1, 2, -3) for r in (0, 1, -1, 2)]
    for (k, r), (k2, r2) in itertools.combinations(pool, 2):
        for sp in itertools.product(SPEEDS, repeat=2):
            yield {"axes": [at, aa], "waves": [[k, r, 2.0, 0.7], [k2, r2, 0.75, -0.4]], "speeds": list(sp)}


def run_vector(ctx, case):
    """Each component of a vector field moves like the field it is."""
    from SciDataTool import VectorField

    comps, plain, T = {}, {}, 1.0
    for name, waves in case["comps"].items():
        obj, T = build({"axes": case["axes"], "waves": waves})
        if case["stored"]:
            obj = obj.time_to_freq()
        comps[name] = obj
    vf = VectorField(name="F", symbol="X", components=comps)
    hz = 0.0
    for step, speed in enumerate(case["speeds"]):
        before = model.snapshot(vf)
        got = ctx.call(vf.change_referential, speed, False)
        if isinstance(got, LibraryError):
            ctx.require("vector:error", False, repr(got))
            return
        ctx.require("vector:source", model.snapshot(vf) == before, "source changed")
        vf = got
        hz += speed / 60.0
        ctx.state("vector", case["comps"], case["speeds"][: step + 1], case["stored"])
        if not ctx.require("vector:components", list(vf.components) == list(comps), "%s" % list(vf.components)):
            return
        for name, waves in case["comps"].items():
            check_lines(ctx, "vector%d" % min(step, 1), vf.components[name], waves_lines(waves, T, hz), {})


def vector_cases(tier):
    for at, aa, ks, rs in frames(tier)[:: 1 if tier == "thorough" else 4]:
        pool = [[k, r, 2.0, 0.7] for k in ks for r in rs if not (k == 0 and r < 0)]
        for names in (("radial", "tangential"), ("axial", "radial", "tangential")):
            for w1 in pool:
                for w2 in pool:
                    comps = {n: [w1, [w2[0], w2[1], 0.5, 0.1]] if i == 2 else [w] for i, (n, w) in enumerate(zip(names, (w1, w2, w1)))}
                    for sp in ([60.0], [60.0, -60.0], [30.0, -120.0]):
                        for stored in (False, True):
                            yield {"axes": [at, aa], "comps": comps, "speeds": sp, "stored": stored}


# ---------------------------------------------------------------------------
def run_function(ctx, case):
    """The routine on arrays: each line moves, amplitudes add up, inputs unchanged."""
    from SciDataTool.Functions.change_referential import change_referential_spectrum

    f, r = np.array(case["f"], float), np.array(case["r"], float)
    shape = (len(f), len(r)) + ((case["slices"],) if case["slices"] else ())
    s = model.raw_values(shape, True, 0)
    if case["zero"] is not None:
        s[case["zero"] % len(f)] = 0
    keep = s.copy()
    ctx.state("function", case)
    got = ctx.call(change_referential_spectrum, f, r, case["speed"], s, atol=case["atol"])
    if isinstance(got, LibraryError):
        ctx.require("function:error", False, repr(got))
        return
    new, fn = np.asarray(got[0]), np.asarray(got[1])
    ctx.require("function:inputs", np.array_equal(s, keep) and f.tolist() == case["f"])
    want = {}
    for i in range(len(f)):
        for j in range(len(r)):
            key = round(f[i] + r[j] * case["speed"] / 60.0, 6) + 0.0
            row = want.setdefault(key, np.zeros(shape[1:], complex))
            row[j] = row[j] + keep[i, j]
    keys = sorted(want)
    tot = max(np.abs(want[k]).max() for k in keys)
    if case["atol"] > 0:
        keys = [k for k in keys if np.abs(want[k]).sum() > tot * case["atol"]]
    if ctx.agree("function:freqs", fn, np.array(keys), rtol=1e-7, atol=1e-7):
        ctx.agree("function:spectrum", new, np.array([want[k] for k in keys]))


def function_cases(tier):
    fs = [[0.0], [10.0], [0.0, 10.0], [-10.0, 0.0, 10.0], [0.0, 5.0, 12.5], [20.0, 0.0, 10.0]]
    rs = [[0.0], [1.0], [-1.0, 0.0, 1.0], [-2.0, 0.0, 2.0], [-2.0, -1.0, 0.0, 1.0]]
    for f in fs:
        for r in rs:
            for speed in (0.0, 600.0, -600.0, 300.0, 75.0, 1000.0):
                for slices in (0, 1, 2):
                    for zero in (None, 0, 1):
                        for atol in (1e-9, 0.0):
                            if zero is not None and len(f) == 1:
                                continue
                            yield {"f": f, "r": r, "speed": speed, "slices": slices, "zero": zero, "atol": atol}


# ---------------------------------------------------------------------------
def run_waveform(ctx, case):
    """Waveform domain: shifts by whole angle steps are exact."""
    from SciDataTool import Data1D, DataTime

    at, aa = case["axes"]
    t, al = model.full_coords(at), model.full_coords(aa)
    shape = (at["n"], aa["n"]) + ((case["slices"],) if case["slices"] else ())
    f = {"axes": [at, aa] + ([model.axis("z", case["slices"])] if case["slices"] else []), "cplx": False}
    v = model.stored_values(f)
    full = v
    for i, a in enumerate(f["axes"]):
        full = model.expand(full, i, a)
    axes = [model.build_axis(a) for a in f["axes"]]
    obj = DataTime(name="Field", symbol="X", unit="T", axes=axes, values=v)
    M = len(al)
    want = full
    total = 0
    for step, m in enumerate(case["steps"]):
        total += m
        # m angle steps per time step
        speed = m * aa["h"] / at["h"] * 60 / (2 * np.pi)
        before = model.snapshot(obj)
        sym = {} if at["sym"] is None else {at["sym"][0]: at["sym"][1]}
        got = ctx.call(obj.change_referential, speed, True, sym_t_new=sym)
        if isinstance(got, LibraryError):
            ctx.require("waveform:error", False, repr(got))
            return
        ctx.require("waveform:source", model.snapshot(obj) == before, "source changed")
        obj = got[0]
        ctx.state("waveform", case["axes"], case["slices"], case["steps"][: step + 1])
        want = np.stack([np.roll(full[i], -total * i, axis=0) for i in range(len(t))], axis=0)
        res = ctx.call(obj.get_along, *[a["name"] for a in f["axes"]], is_squeeze=False)
        if isinstance(res, LibraryError):
            ctx.require("waveform:read", False, repr(res))
            return
        ctx.agree("waveform:values", res["X"], want, rtol=1e-9)
        ctx.agree("waveform:time", res["time"], t)
        ctx.agree("waveform:angle", res["angle"], al)


def waveform_cases(tier):
    for kind in ("lin", "1d"):
        for sa in (None, ["period", 2], ["antiperiod", 2], ["antiperiod", 4]):
            for na in (3, 4):
                reps_a = sa[1] if sa else 1
                aa = model.axis("angle", na, sa, kind=kind, h=2 * np.pi / (na * reps_a))
                one = model.one_period(aa)
                for st in (None, ["period", 2], ["antiperiod", 2]):
                    for nt in (2, 4, 6, one):
                        at = model.axis("time", nt, st, kind=kind, h=0.25)
                        for slices in (0, 1, 2):
                            for m in range(-3, 4):
                                # the symmetry along time must hold in the new frame
                                full_turn = (m * model.one_period(at)) % one == 0
                                half = (m * nt) % one == 0
                                if st and not (full_turn if st[0] == "period" else half):
                                    continue
                                yield {"axes": [at, aa], "slices": slices, "steps": [m]}
                                yield {"axes": [at, aa], "slices": slices, "steps": [m, -m]}
                                if st is None:
                                    yield {"axes": [at, aa], "slices": slices, "steps": [m, 1]}


def spaces():
    return [
        Space("function", function_cases, run_function, "routine on spectra: 6 sets of frequencies x 5 sets of wavenumbers x 6 speeds x slices x vanishing lines x filter"),
        Space("spectral", spectral_cases, run_spectral, "all single waves and pairs of waves on 9 combinations of time/angle symmetries, from sampled fields and stored spectra, all sequences of 1-2 speeds (3 thorough) out of 6"),
        Space("complex", complex_cases, run_complex, "all pairs out of 20 complex waves, all sequences of 2 speeds out of 6"),
        Space("vector", vector_cases, run_vector, "vector fields of 2-3 components each made of any wave, there and back"),
        Space("waveform", waveform_cases, run_waveform, "sampled fields rotated by whole angle steps, 4 angle and 3 time symmetries, slices, there and back"),
    ]


ASSUMPTIONS = ["waves below the Nyquist wavenumber", "time then angle as first axes, as the routines document"]
