"""A sparse signal observed at some instants is rebuilt at all of them."""
import itertools

import numpy as np

from .. import model
from ..core import LibraryError, Space

AMPS = [(2.0, 1.25), (-1.5, 3.0), (1.0, 0.75)]


def atoms(n):
    """Cosines and sines of n instants, each of length one."""
    j = np.arange(n)
    cols = []
    for k in range(n):
        c = np.cos(np.pi * k * (2 * j + 1) / (2 * n))
        cols.append(c / np.linalg.norm(c))
    for k in range(1, n):
        s = np.sin(np.pi * k * j / n)
        cols.append(s / np.linalg.norm(s))
    return np.array(cols).T


def pursuit(A, y, count):
    """Greedy decomposition by its definition; None when a choice is not clear-cut."""
    chosen, r = [], y.copy()
    for _ in range(count):
        if np.linalg.norm(r) < 1e-10 * np.linalg.norm(y):
            break
        corr = np.abs(A.T @ r)
        best = np.sort(corr)[::-1]
        if best[0] - best[1] < 1e-6 * best[0]:
            return None
        k = int(np.argmax(corr))
        chosen.append(k)
        B = A[:, chosen]
        if np.linalg.cond(B) > 1e5:
            return None
        x, *_ = np.linalg.lstsq(B, y, rcond=None)
        r = y - B @ x
        if 1e-13 * np.linalg.norm(y) < np.linalg.norm(r) < 1e-6 * np.linalg.norm(y):
            return None
    w = np.zeros(A.shape[1])
    w[chosen] = x
    return w


def run(ctx, case):
    from SciDataTool import Data1D, DataTime

    n, M, h = case["n"], case["obs"], case["h"]
    A = atoms(n)
    if case["dico"]:
        # a dictionary of one's own: other atoms, seen at the instants observed and at all of them
        A = np.concatenate([np.tril(np.ones((n, n))) / np.sqrt(np.arange(n, 0, -1)), A[:, 1:3]], axis=1)
    dico = (A[M].copy(), A.copy()) if case["dico"] else None
    full = np.array([sum(a * A[:, k] for k, a in col) for col in case["cols"]]).T
    t = case["t0"] + h * np.arange(n)
    count = case["count"]
    want = []
    for col in full.T:
        y = col[M]
        if np.linalg.norm(y) < 1e-8:
            ctx.state("dark")
            return
        w = pursuit(A[M], y, count)
        if w is None:
            ctx.state("unclear")
            return
        want.append(A @ w)
    want = np.array(want).T
    exact = np.abs(want - full).max() < 1e-8
    ctx.state("omp", case, exact)
    T = Data1D(name="time", unit="s", values=t)
    axes, obs = [Data1D(name="time", unit="s", values=t[M])], full[M]
    names = ["time"]
    if case["other"] is None:
        want, obs, full = want[:, 0], obs[:, 0], full[:, 0]
    else:
        m = full.shape[1]
        sym = {"antiperiod": 2} if case["other"] == "angle" else {}
        axes.append(Data1D(name=case["other"], unit=model.UNITS.get(case["other"], "dimless"), values=0.5 * np.arange(m), symmetries=sym))
        names.append(case["other"])
        if case["swap"]:
            axes, obs = axes[::-1], obs.T
    f = DataTime(name="f", symbol="B", unit="T", axes=axes, values=obs.copy())
    before, tbefore = model.snapshot(f), model.snapshot(T)
    kw = {} if case["pre"] is None else {"precompute": case["pre"]}
    if dico is not None:
        kw["dictionary"] = dico
    res = ctx.call(f.orthogonal_mp, T, n_coefs=count, **kw)
    sig = "swap" if case["swap"] else "dico" if case["dico"] else "omp"
    if isinstance(res, LibraryError):
        ctx.require(sig + ":call", False, repr(res))
        return
    got = ctx.call(res.get_along, *[k + ("[smallestperiod]" if k == "angle" else "") for k in names], is_squeeze=False)
    if isinstance(got, LibraryError):
        ctx.require(sig + ":read", False, repr(got))
        return
    x = np.asarray(got["B"])
    ctx.agree(sig + ":signal", x.T if case["swap"] else x, want, rtol=1e-6, atol=1e-7)
    ctx.agree(sig + ":time", got.get("time"), t)
    ctx.require(sig + ":axes", [a.name for a in res.axes] == [a.name for a in axes], [a.name for a in res.axes])
    ctx.require(sig + ":unit", (res.unit, res.name, res.symbol) == ("T", "f", "B"), res.unit)
    if exact:
        # observed instants keep their observed values
        ctx.agree(sig + ":kept", np.asarray(x.T if case["swap"] else x)[M], full[M], rtol=1e-6, atol=1e-7)
    ctx.require(sig + ":pure", model.snapshot(f) == before and model.snapshot(T) == tbefore, "an input was changed")


def subsets(n, least):
    for m in range(n, least - 1, -1):
        for M in itertools.combinations(range(n), m):
            yield list(M)


def one_signal(tier):
    big = tier == "thorough"
    for n in [4, 5] + ([6, 7] if big else [6]):
        na = 2 * n - 1
        for M in subsets(n, 3 if not big else 2):
            for k in range(na):
                for pre in (None, False):
                    yield {"n": n, "obs": M, "h": 0.25, "t0": 0.0, "cols": [[[k, 2.5]]], "count": 1, "other": None, "swap": False, "dico": False, "pre": pre}
            if n == 6 and not big and len(M) < 5:
                continue
            for (k, l), (a, b) in itertools.product(itertools.combinations(range(na), 2), AMPS):
                yield {"n": n, "obs": M, "h": 1e-3, "t0": 0.5, "cols": [[[k, a], [l, b]]], "count": 2, "other": None, "swap": False, "dico": False, "pre": None}


def many_signals(tier):
    big = tier == "thorough"
    n = 5
    na = 2 * n - 1
    for M in subsets(n, 3):
        for k, l in itertools.product(range(na), repeat=2):
            for count in (1, 2):
                if count == 2 and not big and (k + l) % 3:
                    continue
                for other in ("angle", "z"):
                    for swap in (False, True):
                        cols = [[[k, 1.5]], [[l, -2.0]]]
                        if count == 2:
                            cols = [[[k, 1.5], [(k + 2) % na, 0.7]], [[l, -2.0], [(l + 3) % na, 0.9]], [[k, 3.0]]]
                        yield {"n": n, "obs": M, "h": 0.25, "t0": -0.5, "cols": cols, "count": count, "other": other, "swap": swap, "dico": False, "pre": None}


def own_dictionary(tier):
    n = 5
    na = n + 2
    for M in subsets(n, 2):
        for k in range(na):
            yield {"n": n, "obs": M, "h": 0.25, "t0": 0.0, "cols": [[[k, 2.5]]], "count": 1, "other": None, "swap": False, "dico": True, "pre": None}
            for l in range(na):
                if l != k:
                    yield {"n": n, "obs": M, "h": 0.25, "t0": 0.0, "cols": [[[k, 2.5], [l, -1.25]]], "count": 2, "other": None, "swap": False, "dico": True, "pre": None}
                    yield {"n": n, "obs": M, "h": 0.25, "t0": 0.0, "cols": [[[k, 2.5]], [[l, -1.25]]], "count": 1, "other": "z", "swap": False, "dico": True, "pre": None}


# --------------------------------------------------------------------------
# choosing the instants
# --------------------------------------------------------------------------
def run_choice(ctx, case):
    from SciDataTool import Data1D
    from SciDataTool.Functions.omp import comp_undersampled_axe, comp_undersampling

    n, share = case["n"], case["eighths"] / 8
    t = case["h"] * np.arange(n) + 0.25
    T = Data1D(name="time", unit="s", values=t)
    ctx.state("choice", case)
    kw = {} if case["seed"] is None else {"seed": case["seed"]}
    got = ctx.call(comp_undersampling, share, T, **kw)
    if isinstance(got, LibraryError):
        ctx.require("choice", False, repr(got))
        return
    M, U = got
    M = np.asarray(M)
    m = (n * case["eighths"]) // 8
    ctx.require("choice:count", M.shape == (m,), "%s of %d" % (M.shape, n))
    ctx.require("choice:order", bool((np.diff(M) > 0).all()) and (m == 0 or (M.min() >= 0 and M.max() < n)), M.tolist())
    ctx.agree("choice:instants", U.values, t[M.astype(int)])
    ctx.require("choice:axis", (U.name, U.unit) == ("time", "s"), U.name)
    again = ctx.call(comp_undersampling, share, T, **kw)
    ctx.agree("choice:again", again[0], M)
    ctx.agree("choice:found", ctx.call(comp_undersampled_axe, T, U), M)


def choices(tier):
    for n in range(1, 17 if tier == "thorough" else 13):
        for e in range(9):
            for seed in (None, 0, 1, 7):
                for h in (0.1, 1e-3):
                    yield {"n": n, "eighths": e, "seed": seed, "h": h}


def spaces():
    return [
        Space("one", one_signal, run, "4..6 instants (7 thorough), every set of at least 3 observed ones (2 thorough), every single cosine or sine, and every pair of them with 3 pairs of amplitudes"),
        Space("many", many_signals, run, "2 or 3 signals over angle or z, time stored first or last, 5 instants, every set of at least 3 observed ones, every pair of atoms"),
        Space("own", own_dictionary, run, "a dictionary given by the user: 5 instants, every set of at least 2 observed ones, every atom and ordered pair of atoms, 1 or 2 signals"),
        Space("choice", choices, run_choice, "1..12 instants (16 thorough), 9 shares, 4 seeds"),
    ]


ASSUMPTIONS = ["cases where two atoms fit equally well (to 1e-6) or the fit is ill-conditioned are not judged: the greedy choice is then arbitrary"]
