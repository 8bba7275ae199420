"""Reductions equal their definition over the whole represented axis."""
import itertools

import numpy as np

from .. import model, select
from ..reduce import OPS, PHYS, reduce_model
from ..core import LibraryError, Space

def run(ctx, case):
    f, reqs, order = case["field"], case["reqs"], case["order"]
    obj = model.build_field(f)
    names = [a["name"] for a in f["axes"]]
    v = model.full_values(f)
    labels = {}
    args = {}
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        if r[0] == "op":
            args[i] = "%s=%s" % (a["name"], r[1])
            labels[a["name"]] = r[1]
        else:
            lab, idx, out = select.pick(a, r)
            v = np.take(v, idx, axis=i)
            if r[0] != "omit":
                args[i] = select.text(a["name"], r)
                labels[a["name"]] = lab
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        if r[0] == "op":
            v = reduce_model(v, i, a, r[1])
    ctx.state("red", f, reqs)
    squeeze = case.get("squeeze", True)
    got = ctx.call(obj.get_along, *[args[i] for i in order if i in args], is_squeeze=squeeze)
    sig = "+".join(r[1] for r in reqs if r[0] == "op")
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(v) if squeeze else v)
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)


def ops_for(a, ops=OPS):
    for op in ops:
        if op == "integrate" and (a["name"] not in PHYS or a["n"] == 1):
            continue
        yield ["op", op]


def one_axis(tier):
    big = tier == "thorough"
    syms = [None, ["period", 1], ["period", 2], ["period", 3], ["antiperiod", 2], ["antiperiod", 4]]
    if big:
        syms += [["period", 5], ["antiperiod", 6]]
    for salt in range(5 if big else 3):
        for n in [2, 3, 4, 1] + ([5, 6, 7] if big else []):
            for sym in syms:
                for name in ("time", "angle", "z", "x"):
                    for kind in ("lin", "1d"):
                        for x0, h in ((0.0, 0.5), (1.5, 0.5), (0.0, 0.1), (-2.0, 3.0)):
                            a = model.axis(name, n, sym, kind=kind, x0=x0, h=h)
                            f = {"axes": [a], "cplx": False, "salt": salt}
                            for r in ops_for(a):
                                yield {"field": f, "reqs": [r], "order": [0]}


def two_axes(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2]] + ([["period", 3], ["antiperiod", 4]] if big else [])
    for names in [("time", "angle"), ("x", "time"), ("angle", "z"), ("z", "x")]:
        for s0, s1 in itertools.product(syms, syms):
            for n0, n1 in [(2, 3)] + ([(3, 2), (4, 1), (1, 3)] if big else [(3, 1)]):
                axes = [model.axis(names[0], n0, s0), model.axis(names[1], n1, s1, kind="1d", h=0.25)]
                f = {"axes": axes, "cplx": False}
                al = []
                for a in axes:
                    sel = [["omit"]] + [r for r in select.alphabet(a, "mid")]
                    al.append(list(ops_for(a)) + sel)
                al = [
                    [r for r in rs if r[0] != "val" or not select.pick(a, r)[2]]
                    for a, rs in zip(axes, al)
                ]
                for r0, r1 in itertools.product(*al):
                    if "op" not in (r0[0], r1[0]):
                        continue
                    yield {"field": f, "reqs": [r0, r1], "order": [0, 1]}
                    if r0[0] == r1[0] == "op":
                        yield {"field": f, "reqs": [r0, r1], "order": [1, 0]}
                        yield {"field": f, "reqs": [r0, r1], "order": [0, 1], "squeeze": False}


def three_axes(tier):
    big = tier == "thorough"
    syms = [(None, None, None), (["antiperiod", 2], None, ["period", 2]), (["period", 2], ["antiperiod", 2], None)]
    for names in [("time", "angle", "z"), ("x", "time", "angle")] + ([("angle", "x", "time")] if big else []):
        for ss in syms:
            axes = [model.axis(nm, n, s) for nm, n, s in zip(names, (2, 3, 2), ss)]
            f = {"axes": axes, "cplx": False}
            al = [list(ops_for(a)) + [["whole"], ["omit"], ["idx", 1], ["rng", 0, 2]] for a in axes]
            for reqs in itertools.product(*al):
                if not any(r[0] == "op" for r in reqs):
                    continue
                for order in ([0, 1, 2], [2, 0, 1]) if not big else itertools.permutations(range(3)):
                    yield {"field": f, "reqs": list(reqs), "order": list(order)}


def spaces():
    return [
        Space("one_axis", one_axis, run, "1 axis, 4 names, 2 kinds, 1..4 stored samples (7 thorough), 6 symmetries (8), 4 samplings, 3 value sets (5), 7 reductions"),
        Space("two_axes", two_axes, run, "2 axes, 4 name pairs, 3x3 symmetries (5x5), every reduction on one or both axes combined with every mid-size selection on the other"),
        Space("three_axes", three_axes, run, "3 axes, 2 name triples (3), 3 symmetry combinations, 11^3 requests with at least one reduction, 2 argument orders (6)"),
    ]


ASSUMPTIONS = [
    "time/angle/z axes are uniformly sampled over whole periods without repeated end point, as the integration code documents",
]
