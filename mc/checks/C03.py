"""Selections return exactly the requested samples, with matching coordinates."""
import itertools

import numpy as np

from .. import model, select
from ..core import LibraryError, Space

SYMS = [None, ["period", 1], ["period", 2], ["period", 3], ["antiperiod", 2], ["antiperiod", 4]]


def run(ctx, case):
    f, reqs, order = case["field"], case["reqs"], case["order"]
    obj = model.build_field(f)
    names = [a["name"] for a in f["axes"]]
    if "text" in case:
        args = [case["text"]]
    else:
        args = [select.text(names[i], reqs[i]) for i in order if reqs[i][0] != "omit"]
    labels, want, other = select.expected(f, reqs)
    ctx.state("sel", f, reqs)
    got = ctx.call(obj.get_along, *args, is_squeeze=case.get("squeeze", True))
    sig = "+".join(sorted({r[0] for r in reqs}))
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    if case.get("squeeze", True):
        want = np.squeeze(want)
    ctx.agree("value:" + sig, got.get("X"), want)
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)
    ctx.require(
        "axes:" + sig,
        set(got) - {"X", "axes_list", "axes_dict_other"} == set(labels),
        "axes returned %s" % sorted(got),
    )
    ctx.require(
        "unmentioned:" + sig,
        {k: list(v) for k, v in got["axes_dict_other"].items()} == other,
        "unmentioned axes reported as %s, expected %s" % (got["axes_dict_other"], other),
    )


def one_axis(tier):
    big = tier == "thorough"
    ns = [2, 3, 1] + ([4, 5] if big else [])
    for sym in SYMS + ([["period", 4], ["antiperiod", 6]] if big else []):
        for n in ns:
            if n == 1 and sym and sym[1] > 1:
                pass
            for name in ("time", "x", "angle", "z"):
                for kind, x0 in (("lin", 0.0), ("1d", 0.0), ("lin", 1.5), ("1d", -1.0), ("x", 0.0)):
                    if kind == "x":
                        if n < 3 or sym and sym[1] > 1:
                            continue
                        xs = [0.0, 0.5, 2.0, 2.5, 5.0][:n]
                        a = model.axis(name, n, sym, kind="1d", x=xs)
                    else:
                        if name in ("angle", "z") and (kind, x0) != ("lin", 0.0):
                            continue
                        a = model.axis(name, n, sym, kind=kind, x0=x0)
                    f = {"axes": [a], "cplx": False}
                    for r in select.alphabet(a):
                        yield {"field": f, "reqs": [r], "order": [0]}
    a = model.axis("time", 3, ["antiperiod", 2])
    for r in select.alphabet(a):
        yield {"field": {"axes": [a], "cplx": True}, "reqs": [r], "order": [0], "squeeze": False}


def two_axes(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2]] + ([["period", 3], ["antiperiod", 4]] if big else [])
    for (n0, n1) in [("time", "angle"), ("x", "time"), ("angle", "z")] + (
        [("z", "x"), ("angle", "time"), ("x", "angle")] if big else []
    ):
        for s0, s1 in itertools.product(syms, syms):
            a0 = model.axis(n0, 2, s0, x0=0.0)
            a1 = model.axis(n1, 3, s1, kind="1d", x0=0.0, h=0.25)
            f = {"axes": [a0, a1], "cplx": False}
            for r0, r1 in itertools.product(select.alphabet(a0, "mid"), select.alphabet(a1, "mid")):
                if r0[0] == "omit" and r1[0] == "omit":
                    continue
                for order in ([0, 1], [1, 0]):
                    yield {"field": f, "reqs": [r0, r1], "order": order}
    f = {"axes": [model.axis("time", 2, ["antiperiod", 2]), model.axis("x", 3, ["period", 2])], "cplx": True}
    for r0, r1 in itertools.product(
        select.alphabet(f["axes"][0], "mid"), select.alphabet(f["axes"][1], "mid")
    ):
        yield {"field": f, "reqs": [r0, r1], "order": [1, 0], "squeeze": False}


def three_axes(tier):
    big = tier == "thorough"
    syms = [(None, None, None), (["period", 2], None, ["antiperiod", 2])]
    if big:
        syms += [(["antiperiod", 2], ["period", 2], None), (None, ["antiperiod", 4], ["period", 3])]
    for names in [("time", "angle", "z"), ("x", "time", "angle")]:
        for ss in syms:
            axes = [model.axis(nm, n, s) for nm, n, s in zip(names, (2, 3, 2), ss)]
            f = {"axes": axes, "cplx": False}
            for reqs in itertools.product(*[select.alphabet(a, "tiny") for a in axes]):
                if all(r[0] == "omit" for r in reqs):
                    continue
                for order in itertools.permutations(range(3)):
                    yield {"field": f, "reqs": list(reqs), "order": list(order)}


def long_axis(tier):
    """Axes long enough for two-digit indices; every list of three indices."""
    for name, n, sym in (("x", 12, None), ("time", 6, ["period", 2]), ("angle", 3, ["antiperiod", 4]), ("x", 7, ["period", 3])):
        for kind in ("lin", "1d"):
            a = model.axis(name, n, sym, kind=kind, x0=-1.0 if kind == "1d" else 0.0, h=0.5)
            m = n * model.reps(a)
            f = {"axes": [a], "cplx": False}
            marks = [0, 1, n - 1, n % m, 9, 10, 11, m - 1] if tier == "quick" else range(m)
            marks = sorted({k for k in marks if k < m})
            for ids in itertools.product(marks, repeat=3):
                yield {"field": f, "reqs": [["idxs", list(ids)]], "order": [0]}
            for ids in itertools.combinations(marks, 5):
                yield {"field": f, "reqs": [["idxs", list(ids[::-1])]], "order": [0]}
            for r in select.alphabet(a):
                yield {"field": f, "reqs": [r], "order": [0]}
    for xs in ([5.0, 2.5, 2.0, 0.5, 0.0], [3.0, 1.0, 0.0, -1.5, -4.0, -4.5]):
        a = model.axis("x", len(xs), None, kind="1d", x=xs)
        cuts = [v + d for v in xs for d in (0.0, 0.125)]
        reqs = [["whole"], ["all"], ["small"]] + [["idx", i] for i in range(len(xs))] + [["val", v] for v in xs] + [["val", v - 0.125] for v in xs[:-1]]
        reqs += [["gt", c] for c in cuts if c <= max(xs)] + [["lt", c] for c in cuts]
        reqs += [["int", lo, hi] for lo in cuts for hi in cuts if lo <= hi and any(lo <= v <= hi for v in xs)]
        reqs += [["rng", i, j] for i in range(len(xs)) for j in range(i + 1, len(xs) + 1)]
        for r in reqs:
            yield {"field": {"axes": [a], "cplx": False}, "reqs": [r], "order": [0]}


SPELL = {
    0.0: ["0", "0.0", "-0.0", "0*pi"],
    np.pi / 4: ["pi/4", "0.25*pi", "pi*0.25", "sqrt(pi**2/16)"],
    np.pi / 2: ["pi/2", "2*pi/4", "pi-pi/2"],
    np.pi: ["pi", "1*pi", "(pi)"],
    2 * np.pi: ["2*pi", "pi*2", "8*pi/4"],
    -np.pi / 2: ["-pi/2", "pi/2-pi"],
    5.0: ["5", "5.0", "5e0", "500e-2", "sqrt(25)", "+5"],
    0.001: ["0.001", "1e-3", "1E-3", "1/1000"],
    -2.0: ["-2", "-2.0", "-2e0", "-sqrt(4)"],
    np.inf: ["inf"],
    -np.inf: ["-inf"],
}


def spelling(tier):
    """Values written as numbers or as expressions."""
    axes = [model.axis("angle", 8, None, x0=0.0, h=np.pi / 4), model.axis("angle", 4, ["antiperiod", 2], x0=-np.pi / 2, h=np.pi / 4), model.axis("angle", 2, ["period", 4], x0=0.0, h=np.pi / 2),
            model.axis("x", 8, None, x0=-2.0, h=1.0), model.axis("time", 4, ["period", 2], x0=0.0, h=0.001)]
    for a in axes:
        x = model.full_coords(a)
        # comparisons on the edge of rounding are not judged
        exact = [v for v in SPELL if np.isinf(v) or v in x or np.abs(x - v).min() > 1e-6]
        f = {"axes": [a], "cplx": False}
        for v in SPELL:
            if not np.isinf(v) and x[0] <= v <= x[-1]:
                for s in SPELL[v]:
                    yield {"field": f, "reqs": [["val", v]], "order": [0], "text": "%s=%s" % (a["name"], s)}
        safe = [v for v in exact if np.isinf(v) or np.abs(x - v).min() > 1e-6 or v == round(v, 3)]
        for v in safe:
            for s in SPELL[v]:
                if not np.isinf(v):
                    if (x >= v).any():
                        yield {"field": f, "reqs": [["gt", v]], "order": [0], "text": "%s>%s" % (a["name"], s)}
                    if (x <= v).any():
                        yield {"field": f, "reqs": [["lt", v]], "order": [0], "text": "%s<%s" % (a["name"], s)}
                for w in safe:
                    if w >= v and ((x >= v) & (x <= w)).any():
                        for u in SPELL[w]:
                            yield {"field": f, "reqs": [["int", v, w]], "order": [0], "text": "%s=[%s,%s]" % (a["name"], s, u)}


def spaces():
    return [
        Space(
            "one_axis",
            one_axis,
            run,
            "1 axis, 4 names, linspace/explicit/non-uniform, 1..3 stored samples (5 thorough), 6 symmetries, "
            "3 origins; every index, index list of 2, range, value on/between/outside samples, interval between "
            "all pairs of cuts on and between samples, above, below, period selectors",
        ),
        Space(
            "two_axes",
            two_axes,
            run,
            "2 axes, 3 name pairs (6 thorough), 3x3 symmetries (5x5), about 15x15 requests, both argument orders",
        ),
        Space(
            "three_axes",
            three_axes,
            run,
            "3 axes, 2 name triples, 2 symmetry combinations (4), 6^3 requests, all 6 argument orders",
        ),
        Space("long_axis", long_axis, run, "axes of 12 and 21 samples: every list of three of 8 indices (of all indices thorough), descending lists of five, and the requests of one_axis; decreasing coordinates"),
        Space("spelling", spelling, run, "values, bounds and intervals written as numbers or expressions with pi, sqrt and inf"),
    ]
