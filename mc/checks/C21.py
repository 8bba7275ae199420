"""Tolerant set operations merge only what is within tolerance."""
import itertools

import numpy as np

from ..core import LibraryError, Space

# (tolerance given, absolute?, scale of the values)
TOLS = [(1e-4, True, 1.0), (0.5, True, 10.0), (1e-6, False, 1.0), (1e-6, False, 0.002), (1e-6, False, 3e7), (1e-3, False, 2.5)]
GRID = {True: [0.0, 1.0, -1.0, 0.3], False: [1.0, 0.0, -1.0, 0.3]}


def tolerance(tol, absolute, values):
    """Tolerance in force, as documented: relative to the largest magnitude, at most 1."""
    if absolute:
        return tol
    t = tol * np.max(np.abs(values))
    return 1.0 if t > 1 or t == 0 else t


def pool(tol, absolute, scale):
    """Values of well separated groups, each with members closer than the tolerance.

    The centres are whole numbers of tolerances, the members a fifth of it away.
    """
    t = tol if absolute else min(1.0, tol * scale)
    out = []
    for g in GRID[absolute]:
        c = round(g * scale / t) * t
        out += [c, c + 0.2 * t, c - 0.2 * t]
    return out


def groups(values, t):
    """Group number of every value (values of one group are closer than t)."""
    order = np.argsort(values, kind="stable")
    lab = np.zeros(len(values), dtype=int)
    for p, q in zip(order[:-1], order[1:]):
        lab[q] = lab[p] + (values[q] - values[p] > t)
    return lab


def run_unique(ctx, case):
    from SciDataTool.Functions.set_routines import unique_tol

    tol, absolute, _ = TOLS[case["tol"]]
    a = np.array(case["a"])
    keep = a.copy()
    t = tolerance(tol, absolute, a)
    lab = groups(a, t)
    n = lab.max() + 1
    ctx.state("unique", case)
    idx, inv, cnt, stable = case["opt"]
    got = ctx.call(unique_tol, a, tol=tol, is_abs_tol=absolute, return_index=idx, return_inverse=inv, return_counts=cnt, is_stable=stable)
    ctx.require("unique:input", np.array_equal(a, keep))
    if isinstance(got, LibraryError):
        ctx.require("unique:error", False, repr(got))
        return
    parts = list(got) if idx or inv or cnt else [got]
    if not ctx.require("unique:parts", len(parts) == 1 + idx + inv + cnt, "%d" % len(parts)):
        return
    b = np.asarray(parts.pop(0))
    if not ctx.require("unique:number", b.shape == (n,), "%d groups, got %s" % (n, b)):
        return
    ctx.require("unique:existing", all(v in a for v in b), "%s not all in %s" % (b, a))
    which = [int(lab[np.where(a == v)[0][0]]) for v in b if v in a]
    first = [int(np.where(lab == g)[0][0]) for g in range(n)]
    order = sorted(range(n), key=lambda g: first[g]) if stable else list(range(n))
    ctx.require("unique:order", which == order, "groups %s, expected %s" % (which, order))
    if idx:
        ia = np.asarray(parts.pop(0))
        ctx.require("unique:index", np.array_equal(a[ia], b), "%s %s %s" % (a, ia, b))
    if inv:
        ib = np.asarray(parts.pop(0))
        ok = ib.shape == a.shape and (np.abs(b[ib] - a) <= t).all()
        ctx.require("unique:inverse", ok, "a=%s b=%s inverse=%s" % (a, b, ib))
    if cnt:
        c = np.asarray(parts.pop(0))
        ctx.require("unique:counts", c.tolist() == [int((lab == g).sum()) for g in order], "%s" % c)


def unique_cases(tier):
    opts = list(itertools.product((False, True), repeat=4))
    for k, (tol, absolute, scale) in enumerate(TOLS):
        p = pool(tol, absolute, scale)
        lead = [] if absolute else [p[0]]
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for combo in itertools.product(p, repeat=n):
                for opt in opts if n < 4 else [(True, True, True, False), (True, True, True, True)]:
                    # the largest magnitude fixes a relative tolerance
                    yield {"a": list(combo) + lead, "tol": k, "opt": list(opt)}


def run_pair(ctx, case):
    from SciDataTool.Functions.set_routines import intersect1d_tol, union1d_tol

    tol, absolute, _ = TOLS[case["tol"]]
    a, b = np.array(case["a"]), np.array(case["b"])
    ka, kb = a.copy(), b.copy()
    both = np.concatenate((a, b))
    t = tolerance(tol, absolute, both)
    lab = groups(both, t)
    la, lb = lab[: len(a)], lab[len(a) :]
    ctx.state("pair", case)
    got = ctx.call(union1d_tol, a, b, tol=tol, is_abs_tol=absolute, return_indices=True)
    if isinstance(got, LibraryError):
        ctx.require("union:error", False, repr(got))
    else:
        u, ia, ib = (np.asarray(x) for x in got)
        if ctx.require("union:number", u.shape == (lab.max() + 1,), "%s of %s and %s" % (u, a, b)):
            which = [int(lab[np.where(both == v)[0][0]]) if v in both else -1 for v in u]
            ctx.require("union:groups", which == list(range(lab.max() + 1)), "%s" % which)
            ctx.require("union:first", ia.shape == a.shape and (np.abs(u[ia] - a) <= t).all(), "%s %s %s" % (u, ia, a))
            ctx.require("union:second", ib.shape == b.shape and (np.abs(u[ib] - b) <= t).all(), "%s %s %s" % (u, ib, b))
        only = ctx.call(union1d_tol, a, b, tol=tol, is_abs_tol=absolute)
        ctx.require("union:alone", not isinstance(only, LibraryError) and np.array_equal(only, u))
    ctx.require("pair:input", np.array_equal(a, ka) and np.array_equal(b, kb))
    common = sorted(set(la.tolist()) & set(lb.tolist()))
    for unique in (False, True):
        if unique and (len(set(la.tolist())) < len(la) or len(set(lb.tolist())) < len(lb)):
            continue
        got = ctx.call(intersect1d_tol, a, b, tol=tol, is_abs_tol=absolute, return_indices=True, assume_unique=unique)
        if isinstance(got, LibraryError):
            ctx.require("intersection:error", False, repr(got))
            continue
        c, ia, ib = (np.asarray(x) for x in got)
        if ctx.require("intersection:number", c.shape == (len(common),) and ia.shape == c.shape and ib.shape == c.shape, "%s of %s and %s" % (c, a, b)) and len(common):
            ctx.require("intersection:first", np.array_equal(a[ia], c) and [int(g) for g in la[ia]] == common, "%s %s" % (c, ia))
            ctx.require("intersection:second", [int(g) for g in lb[ib]] == common, "%s %s" % (c, ib))
        only = ctx.call(intersect1d_tol, a, b, tol=tol, is_abs_tol=absolute, assume_unique=unique)
        ctx.require("intersection:alone", not isinstance(only, LibraryError) and np.array_equal(only, c))
    ctx.require("pair:input", np.array_equal(a, ka) and np.array_equal(b, kb))


def pair_cases(tier):
    for k, (tol, absolute, scale) in enumerate(TOLS):
        p = pool(tol, absolute, scale)
        lead = [] if absolute else [p[0]]
        sizes = [(1, 1), (1, 2), (2, 1), (2, 2)] + ([] if tier == "quick" else [(1, 3), (3, 1), (2, 3), (3, 2)])
        for na, nb in sizes:
            pa = p if na + nb < 5 else p[:6]
            for ca in itertools.product(pa, repeat=na):
                for cb in itertools.product(pa, repeat=nb):
                    yield {"a": list(ca) + lead, "b": list(cb) + lead, "tol": k}


def run_exact(ctx, case):
    """Values that are far apart: the usual set operations."""
    from SciDataTool.Functions.set_routines import intersect1d_tol, union1d_tol, unique_tol

    a, b = np.array(case["a"]) * case["scale"], np.array(case["b"]) * case["scale"]
    ctx.state("exact", case)
    ctx.agree("exact:unique", ctx.call(unique_tol, a), np.unique(a), rtol=0, atol=0)
    ctx.agree("exact:union", ctx.call(union1d_tol, a, b), np.union1d(a, b), rtol=0, atol=0)
    ctx.agree("exact:intersection", ctx.call(intersect1d_tol, a, b), np.intersect1d(a, b), rtol=0, atol=0)


def exact_cases(tier):
    vals = [0, 1, -1, 2, 3.5, 7]
    for scale in (1.0, 0.1, 1 / 3.0, 1e-9, 1e4, 1e8):
        for na, nb in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)) + (((3, 3),) if tier == "thorough" else ()):
            for ca in itertools.product(vals, repeat=na):
                for cb in itertools.product(vals, repeat=nb):
                    yield {"a": list(ca), "b": list(cb), "scale": scale}


def run_half(ctx, case):
    """Two values at a millionth of the tolerance, at every fraction of the tolerance."""
    from SciDataTool.Functions.set_routines import intersect1d_tol, union1d_tol, unique_tol

    tol, x, d = case["tol"], case["x"], case["d"]
    a, b = np.array([x * tol]), np.array([x * tol + d * tol])
    ctx.state("half", case)
    where = "half" if x % 1 == 0.5 else "inside"
    u = ctx.call(unique_tol, np.concatenate((a, b)), tol=tol, is_abs_tol=True)
    ctx.require("close:unique:" + where, np.size(u) == 1, "%s" % u)
    u = ctx.call(union1d_tol, a, b, tol=tol, is_abs_tol=True)
    ctx.require("close:union:" + where, np.size(u) == 1, "%s" % u)
    u = ctx.call(intersect1d_tol, a, b, tol=tol, is_abs_tol=True)
    ctx.require("close:intersection:" + where, np.size(u) == 1, "%s" % u)


def half_cases(tier):
    for tol in (1.0, 0.25, 1e-4):
        for k in range(-4, 5):
            for part in (0, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875):
                for d in (1e-6, -1e-6):
                    yield {"tol": tol, "x": k + part, "d": d}


def spaces():
    return [
        Space("unique", unique_cases, run_unique, "all arrays of 1-3 values (4 thorough) out of 4 groups of 3 close values, 6 tolerances (absolute, relative, thresholded), all 16 combinations of the options"),
        Space("pairs", pair_cases, run_pair, "union and intersection of all pairs of arrays of 1-2 values (3 thorough) out of 4 groups of 3 close values, 6 tolerances"),
        Space("exact", exact_cases, run_exact, "all pairs of arrays of 1-3 values far apart, 6 scales, default tolerance"),
        Space("close", half_cases, run_half, "two nearly equal values at every eighth of the tolerance around zero"),
    ]


ASSUMPTIONS = ["groups are separated by more than the tolerance, so that grouping is unambiguous"]
