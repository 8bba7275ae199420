"""Contribution plots share the overall between the components.

The energy of every component is summed by hand over the frequencies; the plot
must show the overall of all the components and, stacked, their shares of it.
"""
import itertools

import numpy as np

from ..core import LibraryError, Space
from . import C11, C25

SPEED = [100.0, 200.0, 300.0, 400.0]
FREQS = [500.0, 1000.0, 4000.0]
SETS = {
    "loads": ["stator radial", "stator circ.", "rotor radial", "rotor circ."],
    "three": ["stator radial", "stator circ.", "rotor radial"],
    "two": ["rotor circ.", "stator circ."],
}
NZ = 2


def values(case):
    n = {"freqs": len(FREQS), "loadcases": len(SETS[case["names"]]), "speed": len(SPEED), "z": NZ}
    k = np.indices([n[a] for a in case["order"]])
    at = dict(zip(case["order"], k))
    f, c, s, z = at["freqs"], at["loadcases"], at["speed"], at.get("z", 0)
    if case["salt"] == 2:
        # a component without energy at one speed
        v = 3.0 + ((5 * f + 3 * c + 7 * s + 11 * z) % 13) + f * c * 0.5
        return np.where((c == 1) & (s == 2), 0.0, v)
    if case["salt"] == 3:
        # the ranking at the ends is the opposite of the ranking in between
        return np.where((s == 0) | (s == len(SPEED) - 1), 4.0 + c, 30.0 - 7.0 * c) + 0.25 * f
    c = (c + case["salt"]) % n["loadcases"]
    return 2.0 + ((7 * f + 4 * c + 5 * s + 3 * z) % 11) + 0.25 * f * s + 2.0 * c * c + 0.5 * c * s


def build(case):
    from SciDataTool import Data1D, DataFreq, Norm_ref

    axes = {
        "freqs": lambda: Data1D(name="freqs", unit="Hz", values=np.array(FREQS)),
        "loadcases": lambda: Data1D(name="loadcases", unit="", is_components=True, is_overlay=True, values=list(SETS[case["names"]])),
        "speed": lambda: Data1D(name="speed", unit="rpm", values=np.array(SPEED)),
        "z": lambda: Data1D(name="z", unit="m", values=np.array([0.5, 1.0])),
    }
    return DataFreq(
        name=case["title"], symbol="P", unit=case["field"], axes=[axes[a]() for a in case["order"]],
        values=values(case), normalizations={"ref": Norm_ref(ref=case["ref"])},
    )


def reference(case):
    """Energy of every component at every speed, and the overall in the unit."""
    v = values(case)
    order = list(case["order"])
    if "z" in order:
        v = np.take(v, case["slice"], axis=order.index("z"))
        order.remove("z")
    v = np.moveaxis(v, [order.index(a) for a in ("freqs", "loadcases", "speed")], [0, 1, 2])
    energy = v if case["field"] == "W" else v ** 2
    if case["unit"] == "dBA":
        energy = energy * 10 ** (0.1 * C11.weight(FREQS)).reshape(-1, 1, 1)
    part = energy.sum(axis=0)
    whole = part.sum(axis=0)
    if "dB" in case["unit"]:
        ref = case["ref"] if case["field"] == "W" else case["ref"] ** 2
        line = 10 * np.log10(whole / ref)
    else:
        line = whole if case["field"] == "W" else np.sqrt(whole)
    return part / whole, line


def run(ctx, case):
    import matplotlib.pyplot as plt

    try:
        judge(ctx, case)
    finally:
        plt.close("all")


def judge(ctx, case):
    names = SETS[case["names"]]
    share, line = reference(case)
    op = "=sum" if case["field"] == "W" else "=rss"
    pick = case["pick"]
    tok = {"speed": "speed" if case["rows"] is None else "speed[%s]" % ",".join(map(str, case["rows"])), "freqs": "freqs" + op}
    if pick is not None:
        tok["loadcases"] = "loadcases[]" if pick == "whole" else "loadcases" + op if pick == "summed" else "loadcases[%s]" % ",".join(map(str, pick))
    if "z" in case["order"]:
        tok["z"] = "z[%d]" % case["slice"]
    toks = [tok[a] for a in case["asked"] if a in tok]
    words = case["words"]
    kept = [i for i, n in enumerate(names) if (pick in (None, "whole", "summed") or i in pick) and (words == ["all"] or all(w in n for w in words))]
    rows = case["rows"] or list(range(len(SPEED)))
    share, line, X = share[:, rows], line[rows], np.array(SPEED)[rows]
    weight = np.sqrt((share ** 2).sum(axis=1))
    kept.sort(key=lambda i: -weight[i])
    what = str(case)
    ctx.state(sorted(case.items(), key=str))
    f = build(case)
    args = {"unit": case["unit"], "overall_axes": list(case["overall"]), "contribution_axis": "loadcases[%s]" % ",".join(words)}
    out = ctx.call(f.plot_2D_Data, *toks, is_export=True, **args)
    if not ctx.require("answers", not isinstance(out, LibraryError), "%s %s: %r" % (what, toks, out)):
        return
    xs, ys, _, _, _, legends = out
    got = [n for n in legends[1:]]
    if not ctx.require("components", got == [names[i] for i in kept], "%s %s: %s instead of %s" % (what, toks, got, [names[i] for i in kept])):
        return
    ctx.agree("overall", ys[0], line)
    for y, i in zip(ys[1:], kept):
        ctx.agree("share", np.nan_to_num(y), 100 * share[i])
    ctx.agree("abscissa", xs[0], X)
    # the drawing shows the same
    res = ctx.call(build(case).plot_2D_Data, *toks, is_show_fig=False, **dict(C25.canvas("both"), **args))
    if not ctx.require("draws", not isinstance(res, LibraryError), "%s %s: %r" % (what, toks, res)):
        return
    figs = C25.drawn()
    if not ctx.require("one-figure", len(figs) == 1 and len(figs[0]) == 1, what):
        return
    ax = figs[0][0]
    lines = ax.get_lines()
    if not ctx.require("one-line", len(lines) == 1, "%s: %d lines" % (what, len(lines))):
        return
    ctx.agree("drawn-overall", np.asarray(lines[0].get_ydata(orig=True)), line)
    ctx.agree("drawn-abscissa", np.asarray(lines[0].get_xdata(orig=True)), X)
    got = [c.get_label() for c in ax.collections]
    if not ctx.require("drawn-components", got == [names[i] for i in kept], "%s: areas %s" % (what, got)):
        return
    if case["salt"] == 2:
        return
    low = np.zeros(len(X))
    for c, i in zip(ax.collections, kept):
        high = low + share[i] * line
        v = c.get_paths()[0].vertices
        for x, a, b in zip(X, low, high):
            y = v[np.isclose(v[:, 0], x), 1]
            ctx.require("area", len(y) > 0 and np.isclose(y.min(), a, rtol=1e-9, atol=1e-9) and np.isclose(y.max(), b, rtol=1e-9, atol=1e-9), "%s: area of %s at %s is %s instead of %s" % (what, names[i], x, y.tolist(), [a, b]))
        low = high


BASE = {"title": "acoustic power", "ref": 0.01, "slice": 0, "rows": None, "pick": "whole", "words": ["all"], "overall": ["freqs", "loadcases"], "salt": 0}
PLAIN = ("freqs", "loadcases", "speed")


def storage(tier):
    """Every order of storage and of request."""
    for field, unit in itertools.product(("W", "m/s"), ("SI", "dB", "dBA")):
        for order in itertools.permutations(PLAIN):
            for rest in itertools.permutations(("freqs", "loadcases")):
                for names in ("three", "loads") if tier == "quick" else SETS:
                    for overall in (["freqs", "loadcases"], ["loadcases", "freqs"]):
                        for salt in (0, 1, 3):
                            yield dict(BASE, field=field, unit=unit, order=list(order), asked=["speed"] + list(rest), names=names, overall=overall, salt=salt)


def selections(tier):
    """Lists of components and words of their names."""
    for field, unit in itertools.product(("W", "m/s"), ("SI", "dB", "dBA")):
        for order in (PLAIN, ("speed", "loadcases", "freqs"), ("loadcases", "speed", "freqs")):
            for names in SETS:
                n = len(SETS[names])
                picks = ["whole", "summed", None] + [list(c) for k in range(2, n + 1) for c in itertools.combinations(range(n), k)]
                for pick in picks:
                    for words in (["all"], ["stator"], ["rotor"], ["radial"], ["circ."], ["stator", "radial"]):
                        if words == ["all"] or not isinstance(pick, list):
                            yield dict(BASE, field=field, unit=unit, order=list(order), asked=["speed", "freqs", "loadcases"], names=names, pick=pick, words=words)


def slices(tier):
    """A fourth axis read at one position, part of the abscissa, other references."""
    for field, unit in itertools.product(("W", "m/s"), ("SI", "dB", "dBA")):
        for order in itertools.permutations(PLAIN + ("z",)):
            if tier == "quick" and order.index("speed") == 2:
                continue
            for sl, rows, ref, title in ((0, None, 0.01, "acoustic power"), (1, [1, 3], 1e-3, "Power"), (1, [0, 1, 2], 0.25, "Velocity")):
                yield dict(BASE, field=field, unit=unit, order=list(order), asked=["speed", "z", "loadcases", "freqs"], names="three", slice=sl, rows=rows, ref=ref, title=title)


def silent(tier):
    """A component without energy at one speed."""
    for field, unit in itertools.product(("W", "m/s"), ("SI", "dB", "dBA")):
        for order in itertools.permutations(PLAIN):
            for pick in ("whole", "summed", None, [0, 1], [1, 2], [0, 2]):
                yield dict(BASE, field=field, unit=unit, order=list(order), asked=["speed", "freqs", "loadcases"], names="three", pick=pick, salt=2)


def spaces():
    return [
        Space("storage", storage, run, "6 storage orders x 2 request orders x 2 component sets (3 thorough) x 2 orders of the overall axes x 3 sets of values (in one the ranking changes along the abscissa), power and amplitude, linear, dB and A-weighted"),
        Space("selections", selections, run, "3 component sets: every list of two or more components, and 6 selections by name, 3 storage orders, 6 units"),
        Space("slices", slices, run, "storage orders of 4 axes (18 of the 24 in quick), 3 combinations of slice, part of the abscissa and reference, 6 units"),
        Space("silent", silent, run, "a component that vanishes at one abscissa, 6 storage orders, 6 ways to ask for the components, 6 units"),
    ]


ASSUMPTIONS = [
    "frequencies are summed (power) or combined by root of the squares (amplitude), as the overall is; values are not negative and levels are positive",
    "a list of components is not combined with a selection by name",
    "curves are read back from the drawing and from the exported series",
]
