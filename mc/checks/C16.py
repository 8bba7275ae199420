"""Sum and product of spectra match the signals they represent."""
import itertools

import numpy as np

from ..core import LibraryError, Space

AMP = [2.0, 1.0 - 2.0j, -0.5 + 1.5j, 3.0 + 0.25j, -1.25j, 0.75]


def amplitudes(freqs, shift, real):
    """One-sided complex amplitudes; the constant term of a real signal is real."""
    out = []
    for k, f in enumerate(freqs):
        a = AMP[(k + shift) % len(AMP)] + 0.1 * shift
        out.append(a.real if (real or f == 0) and not (a.real == 0) else (0.5 if real or f == 0 else a))
    return np.array(out)


def build(freqs, amp, kind, symbol="X"):
    from SciDataTool import Data1D, DataFreq, DataLinspace

    if kind == "lin":
        ax = DataLinspace(name="freqs", unit="Hz", initial=freqs[0], final=freqs[-1], number=len(freqs), include_endpoint=True)
    else:
        ax = Data1D(name="freqs", unit="Hz", values=np.array(freqs, dtype=float))
    return DataFreq(name="Spectrum " + symbol, symbol=symbol, unit="T", axes=[ax], values=amp.copy())


def merge(lines):
    """Sum of the amplitudes of equal frequencies, in increasing order."""
    acc = []
    for f, a in sorted(lines, key=lambda p: p[0]):
        if acc and abs(acc[-1][0] - f) < 1e-5:
            acc[-1][1] += a
        else:
            acc.append([f, a])
    return np.array([p[0] for p in acc]), np.array([p[1] for p in acc])


def product(f1, a1, f2, a2):
    """One-sided lines of the product of the two real signals."""
    lines = []
    for f, a in zip(f1, a1):
        for g, b in zip(f2, a2):
            if f == 0 or g == 0:
                lines.append((f + g, a * b))
                continue
            lines.append((f + g, a * b / 2))
            d = f - g
            if d > 1e-9:
                lines.append((d, a * np.conj(b) / 2))
            elif d < -1e-9:
                lines.append((-d, np.conj(a) * b / 2))
            else:
                # Re(a conj(b)) / 2 is the constant term
                lines.append((0.0, (a * np.conj(b)).real / 2))
    return merge(lines)


def signal(freqs, amp, t):
    return np.real(np.exp(2j * np.pi * np.outer(t, freqs)) @ amp)


def check(ctx, sig, got, freqs, amp, meta):
    if isinstance(got, LibraryError):
        ctx.require(sig + ":error", False, repr(got))
        return False
    ctx.require(sig + ":class", type(got).__name__ == "DataFreq" and len(got.axes) == 1 and got.axes[0].name == "freqs")
    f = np.asarray(got.axes[0].get_values())
    ctx.agree(sig + ":lines", f, freqs, rtol=1e-9, atol=1e-9)
    ctx.agree(sig + ":amplitudes", got.values, amp, rtol=1e-9, atol=1e-9)
    ctx.require(sig + ":meta", (got.name, got.symbol, got.unit) == meta, "%s" % ((got.name, got.symbol, got.unit),))
    return f.shape == np.shape(freqs)


def run(ctx, case):
    f1, f2 = case["f1"], case["f2"]
    a1, a2 = amplitudes(f1, 0, case["real"]), amplitudes(f2, 2, case["real"])
    o1, o2 = build(f1, a1, case["kind"]), build(f2, a2, case["kind"], "Y")
    ctx.state("pair", case)
    kw = {}
    meta = ("Spectrum X", "X", "T")
    if case.get("named"):
        kw = {"name": "N", "symbol": "S", "unit": "T2"}
        meta = ("N", "S", "T2")
    b1, b2 = o1.copy(), o2.copy()
    sf, sa = merge(list(zip(f1, a1)) + list(zip(f2, a2)))
    t = np.array([0.0, 0.013, 0.37, 1.1])
    got = ctx.call(o1.sum, o2, **kw)
    check(ctx, "sum", got, sf, sa, meta)
    if not isinstance(got, LibraryError):
        # what a reader gets from the new object
        res = ctx.call(got.get_along, "freqs")
        if ctx.require("sum:read", not isinstance(res, LibraryError), repr(res)):
            s = signal(res["freqs"], np.atleast_1d(res[got.symbol]), t)
            ctx.agree("sum:signal", s, signal(f1, a1, t) + signal(f2, a2, t))
    pf, pa = product(f1, a1, f2, a2)
    fmin, fmax = case.get("band", [None, np.inf])
    kw2 = dict(kw)
    if "band" in case:
        kw2["f_min"] = fmin
        kw2["f_max"] = np.inf if fmax is None else fmax
        sel = (pf >= (fmin or 0)) & (pf <= kw2["f_max"])
        pf, pa = pf[sel], pa[sel]
    if len(pf):
        got = ctx.call(o1.conv, o2, **kw2)
        check(ctx, "conv", got, pf, pa, meta)
        if not isinstance(got, LibraryError) and "band" not in case:
            res = ctx.call(got.get_along, "freqs")
            if ctx.require("conv:read", not isinstance(res, LibraryError), repr(res)):
                s = signal(res["freqs"], np.atleast_1d(res[got.symbol]), t)
                ctx.agree("conv:signal", s, signal(f1, a1, t) * signal(f2, a2, t))
    ctx.require("sources", o1 == b1 and o2 == b2)


def subsets(lines, size):
    for n in range(1, size + 1):
        for c in itertools.combinations(lines, n):
            yield list(c)


def cases(tier):
    pools = [[0.0, 50.0, 100.0, 150.0], [0.0, 1.0 / 3, 2.0 / 3, 1.0], [10.0, 20.0, 33.7]]
    if tier == "thorough":
        pools[0] = [0.0, 50.0, 100.0, 150.0, 175.0]
    for lines in pools:
        for f1 in subsets(lines, 4):
            for f2 in subsets(lines, 4):
                for real in (False, True):
                    yield {"f1": f1, "f2": f2, "real": real, "kind": "1d"}
                    yield {"f1": f1, "f2": f2, "real": real, "kind": "1d", "named": True}
                    top = 2 * lines[-1]
                    for lo in (0, lines[1] * 0.9, lines[1] * 1.1, lines[-1] * 1.05):
                        for hi in (None, lines[-1] * 1.1, top * 0.95):
                            yield {"f1": f1, "f2": f2, "real": real, "kind": "1d", "band": [lo, hi]}
                    if lines is pools[0]:
                        # limits on a line: both ends belong to the band
                        for lo, hi in ((0, 50.0), (0, 150.0), (50.0, None), (50.0, 100.0), (100.0, 200.0), (100.0, 100.0)):
                            yield {"f1": f1, "f2": f2, "real": real, "kind": "1d", "band": [lo, hi]}
    # unsorted lines
    for f1 in itertools.permutations([0.0, 50.0, 120.0]):
        for f2 in itertools.permutations([0.0, 50.0, 70.0]):
            yield {"f1": list(f1), "f2": list(f2), "real": False, "kind": "1d"}
    for n in (2, 3, 4):
        for m in (2, 3, 4):
            for step1 in (10.0, 25.0):
                for x in (0.0, 5.0):
                    f1 = [x + step1 * k for k in range(n)]
                    f2 = [10.0 * k for k in range(m)]
                    yield {"f1": f1, "f2": f2, "real": False, "kind": "lin"}


def run_time(ctx, case):
    """Spectra computed from sampled signals: the product and the sum, sample by sample."""
    from SciDataTool import DataLinspace, DataTime

    n = case["n"]
    objs, sig = [], []
    for k, (c, amps) in enumerate(case["signals"]):
        ax = DataLinspace(name="time", unit="s", initial=0, final=1.0, number=n, include_endpoint=False)
        t = np.arange(n) / n
        v = c + 0 * t + sum(a * np.cos(2 * np.pi * (i + 1) * t + 0.3 * (i + k)) for i, a in enumerate(amps))
        sig.append(v)
        objs.append(DataTime(name="S", symbol="X", unit="T", axes=[ax], values=v))
    ctx.state("time", case)
    fr = [ctx.call(o.time_to_freq) for o in objs]
    if any(isinstance(f, LibraryError) for f in fr):
        ctx.require("time:spectra", False, "%s" % fr)
        return
    t = np.arange(n) / n
    for what, want in (("sum", sig[0] + sig[1]), ("conv", sig[0] * sig[1])):
        got = ctx.call(getattr(fr[0], what), fr[1])
        if isinstance(got, LibraryError):
            ctx.require("time:" + what, False, repr(got))
            continue
        res = ctx.call(got.get_along, "freqs")
        s = signal(res["freqs"], np.atleast_1d(res["X"]), t)
        ctx.agree("time:" + what, s, want)


def time_cases(tier):
    parts = [[], [1.5], [0.0, -2.0], [1.0, 0.5]]
    for n in (12, 13):
        for c1, c2 in itertools.product((0.0, 2.0), repeat=2):
            for p1 in parts:
                for p2 in parts:
                    yield {"n": n, "signals": [[c1, p1], [c2, p2]]}


def run_reject(ctx, case):
    from SciDataTool import Data1D, DataFreq

    o1 = build([0.0, 10.0], amplitudes([0.0, 10.0], 0, False), "1d")
    what = case["what"]
    if what == "negative":
        o2 = build([-10.0, 0.0, 10.0], amplitudes([-10.0, 0.0, 10.0], 0, False), "1d")
    elif what == "two axes":
        ax = [Data1D(name="freqs", unit="Hz", values=np.array([0.0, 1.0])), Data1D(name="x", unit="m", values=np.array([0.0, 1.0]))]
        o2 = DataFreq(name="a", symbol="a", unit="T", axes=ax, values=np.ones((2, 2), dtype=complex))
    elif what == "other axis":
        o2 = DataFreq(name="a", symbol="a", unit="T", axes=[Data1D(name="wavenumber", unit="dimless", values=np.array([0.0, 1.0]))], values=np.ones(2, dtype=complex))
    else:
        o2 = 3
    pair = (o1, o2) if case["second"] else (o2, o1)
    if not hasattr(pair[0], case["op"]):
        return
    ctx.state("reject", case)
    got = ctx.call(getattr(pair[0], case["op"]), pair[1])
    ctx.require("rejected:" + what, isinstance(got, LibraryError), "gave an answer")


def reject_cases(tier):
    for op in ("sum", "conv"):
        for what in ("two axes", "other axis", "number") + (("negative",) if op == "conv" else ()):
            for second in (True, False):
                yield {"what": what, "op": op, "second": second}


def spaces():
    return [
        Space("pairs", cases, run, "all pairs of spectra with 1-4 lines out of 3 sets of frequencies (constant term, equal, sum and difference lines), 12 bands between lines and 6 ending on lines, real or complex amplitudes, sorted or not, explicit and linear axes"),
        Space("signals", time_cases, run_time, "spectra of sampled signals, compared sample by sample"),
        Space("reject", reject_cases, run_reject, "operands that are not one-sided spectra along frequency only"),
    ]


ASSUMPTIONS = ["band limits are inclusive; limits on a line are used where the sums and differences of frequencies are exact"]
