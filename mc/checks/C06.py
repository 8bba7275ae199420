"""Spectra are the Fourier coefficients of the full signal."""
import itertools

import numpy as np

from .. import model, select, spectral
from ..core import LibraryError, Space

SYMS = [None, ["period", 2], ["period", 3], ["antiperiod", 2], ["antiperiod", 4]]


def run(ctx, case):
    f, reqs, doms, order = case["field"], case["reqs"], case["doms"], case["order"]
    obj = model.build_field(f)
    args, axis_data = {}, {}
    for i, (a, r, d) in enumerate(zip(f["axes"], reqs, doms)):
        name = spectral.spectral_name(a) if d == "s" else a["name"]
        if r[0] == "omit":
            continue
        if r[0] == "op":
            args[i] = "%s=%s" % (name, r[1])
        elif r[0] == "data":
            args[i] = name + "=axis_data"
            axis_data[name] = np.array(r[1])
        else:
            args[i] = select.text(name, r)
    labels, want = spectral.answer(f, reqs, doms)
    ctx.state("spec", f, reqs, doms)
    kw = {"axis_data": axis_data} if axis_data else {}
    got = ctx.call(obj.get_along, *[args[i] for i in order if i in args], **kw)
    sig = "%s:%s" % ("".join(doms), "+".join(sorted({r[0] for r in reqs})))
    if isinstance(got, LibraryError):
        ctx.require("value:" + sig, False, "%s %r" % (args, got))
        return
    ctx.agree("value:" + sig, got.get("X"), np.squeeze(want))
    for name, lab in labels.items():
        ctx.agree("label:" + sig, got.get(name), lab)


def spec_requests(a, cplx, size):
    fl = spectral.lines(a, cplx)
    m = len(fl)
    out = [["whole"], ["op", "sum"]]
    df = fl[1] - fl[0] if m > 1 else 1.0
    if size == "tiny":
        out = [["whole"]] + ([["rng", 1, m]] if m > 1 else [])
        return out
    out += [["idx", m - 1], ["idx", 0], ["op", "mean"]]
    if m > 1:
        out += [
            ["rng", 0, m - 1],
            ["rng", 1, m],
            ["idxs", [m - 1, 0]],
            ["gt", float(fl[1] - 0.25 * df)],
            ["lt", float(fl[m - 2] + 0.25 * df)],
            ["int", float(fl[0] - 0.25 * df), float(fl[m // 2] + 0.25 * df)],
            ["int", float(-0.25 * df), float(fl[m - 1] + 0.25 * df)],
            ["int", float(fl[m // 2] - 0.25 * df), float(fl[m - 1] + 0.25 * df)],
        ]
        if size == "full":
            out += [["idx", i] for i in range(1, m - 1)]
            out += [["rng", i, j] for i in range(m) for j in range(i + 1, m + 1)]
            if a["name"] == "time" and m > 1:
                out += [["val", float(x)] for x in fl if float(x).is_integer()]
            if a["name"] == "time" and a["sym"] is None:
                out += [["data", [0.0, 0.3 * df, 1.7 * df]], ["data", [0.3 * df, 0.55 * df, 0.1 * df]]]
                out += [["data", [-0.4 * df, 0.3 * df, 1.7 * df]]]
    return out


def one_axis(tier):
    big = tier == "thorough"
    for n in [2, 3, 4, 5, 1] + ([6, 7, 8] if big else [6]):
        for sym in SYMS + ([["period", 5], ["antiperiod", 6]] if big else []):
            for cplx in (False, True):
                for salt in range(3 if big else 1):
                    for h in (0.5, 0.02):
                        a = model.axis("time", n, sym, h=h, kind="lin" if h == 0.5 else "1d")
                        for r in spec_requests(a, cplx, "full"):
                            yield {"field": {"axes": [a], "cplx": cplx, "salt": salt}, "reqs": [r], "doms": ["s"], "order": [0]}
                    for kind in ("lin", "1d"):
                        a = spectral.angle_axis(n, sym, kind)
                        for r in spec_requests(a, cplx, "full"):
                            yield {"field": {"axes": [a], "cplx": cplx, "salt": salt}, "reqs": [r], "doms": ["s"], "order": [0]}


def two_axes(tier):
    big = tier == "thorough"
    syms = [None, ["period", 2], ["antiperiod", 2]] + ([["antiperiod", 4], ["period", 3]] if big else [])
    for s0, s1 in itertools.product(syms, syms):
        for nt, na in [(4, 3), (3, 2)] + ([(2, 4), (5, 4)] if big else []):
            for cplx in (False, True):
                at = model.axis("time", nt, s0)
                aa = spectral.angle_axis(na, s1)
                for axes in ([at, aa], [aa, at]):
                    f = {"axes": axes, "cplx": cplx}
                    for doms in (["s", "s"], ["s", "d"], ["d", "s"]):
                        al = []
                        for a, d in zip(axes, doms):
                            if d == "s":
                                al.append(spec_requests(a, cplx, "mid"))
                            else:
                                al.append([["omit"], ["whole"], ["idx", 1], ["small"], ["rng", 0, 2]])
                        for reqs in itertools.product(*al):
                            yield {"field": f, "reqs": list(reqs), "doms": doms, "order": [0, 1]}
                            if reqs[0][0] != "omit" and reqs[1][0] != "omit" and (big or reqs[0][0] == "whole"):
                                yield {"field": f, "reqs": list(reqs), "doms": doms, "order": [1, 0]}


def three_axes(tier):
    big = tier == "thorough"
    syms = [(None, None, None), (["period", 2], ["antiperiod", 2], None), (["antiperiod", 2], None, ["period", 2])]
    for st, sa, sx in syms:
        at = model.axis("time", 4, st)
        aa = spectral.angle_axis(3, sa)
        ax = model.axis("x", 2, sx)
        for axes in itertools.permutations([at, aa, ax]):
            f = {"axes": list(axes), "cplx": False}
            for dt, da in (("s", "s"), ("s", "d"), ("d", "s")):
                doms = [{"time": dt, "angle": da, "x": "d"}[a["name"]] for a in axes]
                al = []
                for a, d in zip(axes, doms):
                    if d == "s":
                        al.append(spec_requests(a, False, "tiny") + ([["op", "sum"]] if big else []))
                    else:
                        al.append([["omit"], ["whole"], ["idx", 1]])
                for reqs in itertools.product(*al):
                    for order in ([0, 1, 2], [2, 1, 0]) if not big else itertools.permutations(range(3)):
                        yield {"field": f, "reqs": list(reqs), "doms": doms, "order": list(order)}


def spaces():
    return [
        Space("one_axis", one_axis, run, "time or angle, 1..6 stored samples (8 thorough), 5 symmetries (7), real/complex, 2 samplings, every index and range of lines, intervals, reductions, off-grid frequencies"),
        Space("two_axes", two_axes, run, "time x angle in both storage orders, 3x3 symmetries (5x5), real/complex, spectral on one or both axes, 13 spectral x 5 direct requests, both argument orders"),
        Space("three_axes", three_axes, run, "time, angle, x in all 6 storage orders, 3 symmetry combinations, spectral on time and/or angle, selections on the others"),
    ]


ASSUMPTIONS = ["axes to be transformed start at 0 and cover whole periods (angle: one turn); other axes are the subject of C29"]
