"""Three-dimensional plots and colour maps place the extracted values.

Every plot is drawn off screen; its image, mesh, markers, surface or stems are
read back as a table from two coordinates to a value and compared with the
extraction of the same request.
"""
import itertools
import logging
import re

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C20, C25

root, FFT = C20.root, C20.FFT
FIELDS = {k: v for k, v in C25.FIELDS.items() if len(v) > 1}
FIELDS["negative"] = ["z", "time"]
FIELDS["wide"] = ["time", "angle", "z"]


def make(name):
    ax = model.axis
    if name == "negative":
        return model.build_field({"axes": [ax("z", 4, None, x0=-4.0, h=0.75), ax("time", 3, None, h=0.5)], "cplx": False})
    if name == "wide":
        return model.build_field({"axes": [ax("time", 4, None, h=0.25), ax("angle", 3, None, h=0.5), ax("z", 2, None, x0=-1.0)], "cplx": False})
    return C25.make(name)


def canvas(mode, flat):
    import matplotlib.pyplot as plt

    logging.getLogger("matplotlib").setLevel(logging.CRITICAL)
    plt.close("all")
    if mode == "none":
        return {}
    fig = plt.figure()
    if mode == "empty":
        return {"fig": fig}
    ax = fig.add_subplot() if flat else fig.add_subplot(projection="3d")
    if mode == "behind":
        plt.figure().add_subplot().plot([0, 1], [0, 1])
    return {"both": {"fig": fig, "ax": ax}, "behind": {"fig": fig, "ax": ax}, "fig": {"fig": fig}, "ax": {"ax": ax}}[mode]


def points(ax):
    """(kind, list of (x, y, value)) drawn on the axes."""
    for im in ax.get_images():
        A, x, y = np.ma.filled(np.ma.asarray(im._A, dtype=float), np.nan), im._Ax, im._Ay
        return "image", [(float(x[i]), float(y[j]), float(A[j, i])) for i in range(len(x)) for j in range(len(y))], (np.asarray(x), np.asarray(y))
    for c in ax.collections:
        kind = type(c).__name__
        if kind == "QuadMesh":
            xy = c.get_coordinates()
            A = np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan)
            n = xy.shape[:2]
            if A.size == n[0] * n[1]:
                A = A.reshape(n)
                return "mesh", [(float(xy[i, j, 0]), float(xy[i, j, 1]), float(A[i, j])) for i in range(n[0]) for j in range(n[1])], None
            A = A.reshape(n[0] - 1, n[1] - 1)
            mid = (xy[1:, 1:] + xy[:-1, :-1] + xy[1:, :-1] + xy[:-1, 1:]) / 4
            return "cells", [(float(mid[i, j, 0]), float(mid[i, j, 1]), float(A[i, j])) for i in range(n[0] - 1) for j in range(n[1] - 1)], None
        if kind == "PathCollection":
            off = np.ma.asarray(c.get_offsets())
            A = np.ma.filled(np.ma.asarray(c.get_array(), dtype=float), np.nan)
            out = []
            for k in range(len(off)):
                hidden = np.ma.getmaskarray(off)[k].any() or np.isnan(A[k])
                out.append((float(off.data[k, 0]), float(off.data[k, 1]), np.nan if hidden else float(A[k])))
            return "markers", out, None
        if kind == "Poly3DCollection":
            v = np.asarray(c._vec)[:3]
            return "surface", sorted(set(map(tuple, v.T.tolist()))), None
    lines = [l for l in ax.get_lines() if hasattr(l, "get_data_3d")]
    out = []
    for l in lines:
        x, y, z = l.get_data_3d()
        if x[0] != x[1] or y[0] != y[1] or z[0] != 0:
            return "stems", None, None
        out.append((float(x[1]), float(y[1]), float(z[1])))
    return "stems", out, None


def run(ctx, case):
    import matplotlib.pyplot as plt

    try:
        judge(ctx, case)
    finally:
        plt.close("all")


def judge(ctx, case):
    field, toks, unit, flat = case["field"], case["request"], case["unit"], case["flat"]
    mode, opts = case.get("fig", "both"), case.get("opts", {})
    f = make(field)
    what = str(case)
    ctx.state(sorted(case.items(), key=str))
    x, y = root(toks[0]), root(toks[1])
    fft = any(w in t for t in toks for w in FFT)
    norm = {"is_norm": True} if opts.get("is_norm") else {}

    def get(d, req):
        return (d.get_magnitude_along if fft else d.get_along)(*req, unit=unit, **norm)

    E = ctx.call(get, make(field), toks)
    if isinstance(E, LibraryError) or isinstance(E[x], str) or isinstance(E[y], str) or x == y:
        return
    if np.iscomplexobj(E[f.symbol]):
        return
    axes, size = C25.lengths(f, E)
    if any(size[a] > 1 for a in axes if a not in (x, y)):
        return
    scatter = fft or opts.get("type_plot") == "scatter"
    if not scatter and (size[x] < 2 or size[y] < 2):
        return
    if not flat and (size[x] < 2 or size[y] < 2 or not (fft and set((x, y)) == set(FFT)) and fft):
        return  # stems exist for the two-dimensional spectrum only
    V = np.asarray(E[f.symbol], dtype=float).reshape([size[a] for a in axes])
    if opts.get("is_logscale_z"):
        with np.errstate(divide="ignore"):
            V = 10 * np.log10(np.abs(V))
    V = np.moveaxis(V, [axes.index(x), axes.index(y)], [0, 1]).reshape(size[x], size[y])
    names = {a: np.asarray(E[a]).dtype.kind in "US" for a in (x, y)}
    C = {a: np.arange(size[a]) * 1.0 if names[a] else np.atleast_1d(np.asarray(E[a], dtype=float)) for a in (x, y)}
    mono = all(np.all(np.diff(C[a]) > 0) or np.all(np.diff(C[a]) < 0) for a in (x, y))
    if not scatter and flat and not mono:
        return
    if len(set(C[x])) < len(C[x]) or len(set(C[y])) < len(C[y]):
        return
    logged = {x: opts.get("is_logscale_x"), y: opts.get("is_logscale_y")}
    if any(logged[a] and (names[a] or not (C[a] > 0).any()) for a in (x, y)):
        return
    if scatter and not (V > 0).any() or fft and opts.get("type_plot") == "pcolormesh":
        return
    if not np.isfinite(V).all() and not scatter:
        return
    res = ctx.call(f.plot_3D_Data, *toks, unit=unit, is_2D_view=flat, **dict(canvas(mode, flat), **opts))
    kind = "flat" if flat else "3d"
    if not ctx.require("draws:" + kind, not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    figs = C25.drawn()
    if mode == "behind":
        extra = figs.pop()
        ctx.require("other-figure", len(extra) == 1 and len(extra[0].get_lines()) == 1 and extra[0].get_xlabel() == "" and extra[0].get_xticklabels()[0].get_rotation() == 0, what + ": another figure changed")
    if not ctx.require("one-figure", len(figs) == 1 and len(figs[0]) == (2 if flat else 1), "%s: figures %s" % (what, figs)):
        return
    ax = figs[0][0]
    drawn_as, got, grid = points(ax)
    if not ctx.require("readable", got is not None, what + ": " + drawn_as):
        return
    ctx.outcomes.add(core.digest(drawn_as))
    if grid is not None:
        ok = all(len(g) < 2 or np.all(np.diff(g) > 0) for g in grid)
        ctx.require("increasing", ok, "%s: image with coordinates %s" % (what, core.show(grid)))
    # expected table
    switch = opts.get("is_switch_axes", False)
    want = {}
    for i, a in enumerate(C[x]):
        for j, b in enumerate(C[y]):
            z = V[i, j]
            want[(j, i) if switch else (i, j)] = z
    low, high = opts.get("z_min"), opts.get("z_max")
    if "z_range" in opts:
        if low is None and high is None:
            # measured from the largest value, a whole number of decibels
            high = float(np.ceil(np.nanmax(V)) if "dB" in unit else np.nanmax(V))
        low, high = (low, low + opts["z_range"]) if high is None else (high - opts["z_range"], high)
    table = {}
    sides = (C[y], C[x]) if switch else (C[x], C[y])

    def place(c, side):
        """Position of a drawn coordinate (images store single precision)."""
        k = int(np.argmin(np.abs(side - c)))
        return k if abs(side[k] - c) <= 1e-6 * np.max(np.abs(side)) + 1e-12 else None

    for a, b, z in got:
        table.setdefault((place(a, sides[0]), place(b, sides[1])), []).append(z)
    ok = all(len(v) == 1 for v in table.values()) and set(table) == set(want)
    if drawn_as == "cells":
        ok = len(got) == len(want)
    if drawn_as == "stems":
        ok = ok or len(want) > 100
    if not ctx.require("coordinates:" + drawn_as, ok, "%s: drawn at %s instead of %s" % (what, got[:12], core.show(sides))):
        return
    for k, z in want.items():
        if k not in table:
            continue
        g = table[k][0]
        if drawn_as == "markers" and (z < (low if low is not None else 0) or np.isnan(z)):
            ok = np.isnan(g)
        elif drawn_as == "markers":
            ok = abs(g - z) <= 1e-7 * (1 + abs(z))
        elif drawn_as == "image":
            w = z if low is None else max(z, low)
            w = w if high is None else min(w, high)
            ok = abs(g - w) <= 1e-7 * (1 + abs(w))
        else:
            ok = abs(g - z) <= 1e-7 * (1 + abs(z))
        if not ctx.require("values:" + drawn_as, ok, "%s: %s drawn at %s instead of %s" % (what, g, k, z)):
            break
    # labels and ticks
    order = (y, x) if switch else (x, y)
    tok = {root(t): t for t in toks}
    for a, text, ticks, labels, lim in zip(order, (ax.get_xlabel(), ax.get_ylabel()), (ax.get_xticks(), ax.get_yticks()), (ax.get_xticklabels(), ax.get_yticklabels()), (ax.get_xlim(), ax.get_ylim())):
        if "->" not in tok[a]:
            u = re.findall(r"\[([^\]]*)\]", text)
            ctx.require("axis-label", C20.same_unit(u[0] if u else "", C20.axis_unit(f, tok[a])), "%s: %r in %s" % (what, text, C20.axis_unit(f, tok[a])))
            name = {v: k for k, v in C20.NAMES.items()}.get(a, a)
            ctx.require("axis-label", text.lower().startswith(name.lower()), "%s: %r for %s" % (what, text, a))
        if names[a]:
            said = {round(t, 6): l.get_text() for t, l in zip(ticks, labels)}
            for k, c in enumerate(np.atleast_1d(E[a]).tolist()):
                if k in said or not scatter:
                    ctx.require("ticks", said.get(k) == c, "%s: tick %d of %s is %r instead of %r" % (what, k, a, said.get(k), c))
        # what can be seen
        lo, hi = sorted(lim)
        Z = V if a == x else V.T
        best = np.nanmax(np.where(np.isfinite(Z), Z, np.nan), axis=1) if np.isfinite(Z).any() else np.zeros(len(Z))
        scales = (ax.get_xscale(), ax.get_yscale())
        logs = (opts.get("is_logscale_y" if switch else "is_logscale_x"), opts.get("is_logscale_x" if switch else "is_logscale_y"))
        ctx.require("scale", scales == tuple("log" if l else "linear" for l in logs), "%s: scales %s" % (what, scales))
        if not any(logs):
            for c, b in zip(C[a], best):
                if not scatter or b > 0 and ("dB" in unit and b == np.nanmax(best) or "dB" not in unit and b >= 0.5 * np.nanmax(best)):
                    ctx.require("visible:" + kind, lo - 1e-9 <= c <= hi + 1e-9, "%s: %s=%s outside of %s" % (what, a, c, (lo, hi)))
    text = figs[0][1].get_title() if flat else ax.get_zlabel()
    ok = unit in text if "dB" in unit else "[%s]" % (f.unit if unit == "SI" else unit) in text
    ctx.require("value-label", ok and f.symbol in text, "%s: %r" % (what, text))
    title = ax.get_title()
    ctx.require("title", f.name.lower() in title.lower(), "%s: title %r" % (what, title))
    said, units = {}, {}
    for m in re.finditer(r"([A-Za-z ]+)=([^,\[]*)(?:\[([^\]]*)\])?", title[len(f.name):].replace(" for ", " ")):
        n = m.group(1).strip()
        said[C20.NAMES.get(n, n)] = m.group(2).strip()
        units[C20.NAMES.get(n, n)] = m.group(3) or ""
    if not any(isinstance(E[a], str) for a in axes):
        rest = {a: E[a] for a in axes if size[a] == 1 and a not in (x, y)}
        rest.update({a: v[0] for a, v in (E["axes_dict_other"] or {}).items()})
        for a, v in rest.items():
            v = np.atleast_1d(v).tolist()[0]
            got_v = re.sub(r"\(.*", "", said.get(a, "")).strip()
            ok = C20.clean(got_v) == C20.clean(v).strip() if isinstance(v, str) else C20.same_number(C20.number(got_v), v, 6e-3)
            ctx.require("title", ok, "%s: %s=%s not in %r" % (what, a, v, title))
            if not isinstance(v, str) and "->" not in tok.get(a, a):
                ctx.require("title-unit", C20.same_unit(units.get(a, ""), C20.axis_unit(f, tok.get(a, a))), "%s: %s in %s, title %r" % (what, a, C20.axis_unit(f, tok.get(a, a)), title))


def requests(field, full):
    names = FIELDS[field]
    per = [C20.tokens(field, a, make) if full else C20.few(field, a, make) for a in names]
    for m in range(2, len(names) + 1):
        for sub in itertools.combinations(range(len(names)), m):
            for toks in itertools.product(*[per[i] for i in sub]):
                for order in itertools.permutations(toks):
                    if any("=" in t and "=[" not in t for t in order[:2]):
                        continue
                    if m > 2 and list(order[2:]) != [t for t in toks if t in order[2:]]:
                        continue
                    yield list(order)


def plain_cases(tier):
    for field, names in FIELDS.items():
        full = len(names) <= 2 or tier == "thorough" and len(names) == 3
        f = make(field)
        for toks in requests(field, full):
            if len(toks) > 3:
                continue
            units = ["SI", "dB"] + (["mT"] if f.unit == "T" and len(names) == 2 else [])
            for unit in units:
                for flat in (True, False):
                    yield {"field": field, "request": toks, "unit": unit, "flat": flat}


OPTS = [
    {"is_switch_axes": True},
    {"type_plot": "scatter"},
    {"type_plot": "pcolormesh"},
    {"type_plot": "pcolormesh", "is_switch_axes": True},
    {"type_plot": "scatter", "is_switch_axes": True},
    {"is_contour": True},
    {"type_plot": "pcolormesh", "is_contour": True},
    {"z_min": -1.0},
    {"z_max": 2.0},
    {"z_min": -1.0, "z_max": 2.0},
    {"z_min": -1.0, "z_range": 3.0},
    {"z_max": 2.0, "z_range": 3.0},
    {"z_range": 3.0},
    {"is_auto_range": False},
    {"is_auto_ticks": False},
    {"is_same_size": False},
    {"is_shading_flat": True},
    {"is_norm": True},
]


LOGS = [{"is_logscale_x": True}, {"is_logscale_y": True}, {"is_logscale_z": True}, {"is_logscale_z": True, "type_plot": "pcolormesh"}, {"is_logscale_x": True, "is_switch_axes": True}]


def option_cases(tier):
    for field, names in FIELDS.items():
        if len(names) > 2 and field != "wide":
            continue
        for toks in requests(field, False):
            if len(toks) > 2:
                continue
            for opts in OPTS + LOGS:
                if opts.get("is_norm") and make(field).unit != "T":
                    continue
                for flat in (True, False):
                    if not flat and set(opts) - {"is_switch_axes", "is_norm", "is_logscale_z"}:
                        continue
                    yield {"field": field, "request": toks, "unit": "SI", "flat": flat, "opts": opts}


def figure_cases(tier):
    for field in ("square", "wide", "components", "freqs-wavenumber"):
        for toks in requests(field, False):
            if len(toks) > 2:
                continue
            for mode in ("none", "fig", "ax", "behind", "empty"):
                for flat in (True, False):
                    yield {"field": field, "request": toks, "unit": "SI", "flat": flat, "fig": mode}


# -- the drawing functions called with plain arrays
GRIDS = [([0.0, 1.0, 2.5], [-1.0, 0.5]), ([2.5, 1.0, 0.0], [-1.0, 0.5]), ([0.0, 1.0], [0.5, 0.0, -1.0]), ([3.0, 2.0], [4.0, 1.0]), ([1.0, 2.0, 4.0, 5.0], [1.0, 2.0, 3.0, 7.0])]


def direct_cases(tier):
    for name in ("stem", "surf", "pcolor", "pcolormesh", "scatter", "4D", "4D-size"):
        for g in range(len(GRIDS)):
            for sign in (1, -1):
                for low in (None, -2.5, 1.5):
                    for high in (None, 3.5):
                        for switch in (False, True):
                            for mode in ("both", "fig", "ax", "empty", "none", "behind"):
                                if sign > 0 or not name.startswith("4D"):
                                    yield {"kind": name, "grid": g, "sign": sign, "z_min": low, "z_max": high, "is_switch_axes": switch, "fig": mode}


def run_direct(ctx, case):
    import matplotlib.pyplot as plt

    try:
        judge_direct(ctx, case)
    finally:
        plt.close("all")


def judge_direct(ctx, case):
    from SciDataTool.Functions.Plot.plot_3D import plot_3D
    from SciDataTool.Functions.Plot.plot_4D import plot_4D

    kind, switch, low, high = case["kind"], case["is_switch_axes"], case["z_min"], case["z_max"]
    x, y = [np.array(v) for v in GRIDS[case["grid"]]]
    Z = np.array([[((3 * i + 5 * j) % 7) * 0.75 + 0.5 for j in range(len(y))] for i in range(len(x))])
    if case["sign"] < 0:
        Z = Z - 2.25
    Y2, X2 = np.meshgrid(y, x)
    flat = kind in ("stem", "scatter") or kind.startswith("4D")
    if flat:
        args = [X2.flatten(), Y2.flatten(), Z.flatten()]
    elif kind == "surf":
        args = [X2.copy(), Y2.copy(), Z.copy()]
    else:
        args = [x.copy(), y.copy(), Z.T.copy()]
    before = [a.copy() for a in args]
    opts = {"is_switch_axes": switch, "x_min": float(x.min()), "x_max": float(x.max()), "y_min": float(y.min()), "y_max": float(y.max()), "xlabel": "first", "ylabel": "second", "zlabel": "value", "title": "drawing"}
    opts.update({k: v for k, v in (("z_min", low), ("z_max", high)) if v is not None})
    ctx.state(sorted(case.items(), key=str))
    what = str(case)
    opts.update(canvas(case["fig"], kind not in ("stem", "surf")))
    if kind.startswith("4D"):
        res = ctx.call(plot_4D, *args, type_plot="scatter", is_same_size=kind == "4D", **opts)
    else:
        res = ctx.call(plot_3D, *args, type_plot=kind, **opts)
    if not ctx.require("draws:" + kind, not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    ctx.require("arrays", all(np.array_equal(a, b) for a, b in zip(args, before)), what + ": the given arrays changed")
    figs = C25.drawn()
    if case["fig"] == "behind":
        extra = figs.pop()
        ctx.require("other-figure", len(extra) == 1 and len(extra[0].get_lines()) == 1 and extra[0].get_xlabel() == "", what + ": another figure changed")
    if not ctx.require("one-figure", len(figs) == 1, "%s: figures %s" % (what, figs)):
        return
    ax = figs[0][0]
    drawn_as, got, grid = points(ax)
    want = {}
    for i in range(len(x)):
        for j in range(len(y)):
            z = Z[i, j]
            if drawn_as == "image":
                z = z if low is None else max(z, low)
                z = z if high is None else min(z, high)
            if kind.startswith("4D") and z < (low if low is not None else (high if high is not None else Z.max()) / 1e4):
                z = np.nan
            key = (y[j], x[i]) if switch else (x[i], y[j])
            want[(round(float(key[0]), 4), round(float(key[1]), 4))] = round(float(z), 4)
    have = {(round(a, 4), round(b, 4)): round(z, 4) for a, b, z in got}
    ctx.require("points:" + kind, len(have) == len(want) and repr(sorted(have.items())) == repr(sorted(want.items())), "%s: %s instead of %s" % (what, sorted(have.items()), sorted(want.items())))
    labels = (ax.get_xlabel(), ax.get_ylabel())
    ctx.require("labels", labels == (("second", "first") if switch else ("first", "second")) and ax.get_title() == "drawing", "%s: labels %s" % (what, labels))
    lims = (sorted(ax.get_xlim()), sorted(ax.get_ylim()))
    want_lims = [[opts["x_min"], opts["x_max"]], [opts["y_min"], opts["y_max"]]]
    if kind != "scatter":
        ctx.require("limits", np.allclose(lims, want_lims[::-1] if switch else want_lims), "%s: limits %s" % (what, lims))


def spaces():
    return [
        Space("plain", plain_cases, run, "20 fields of two to four axes, every combination and order of about 15 requests per axis, units SI, mT, dB, seen from above or in perspective"),
        Space("options", option_cases, run, "18 sets of options (switched axes, kinds of colour map, limits, sizes) of every pair of about 4 requests per axis"),
        Space("direct", direct_cases, run_direct, "drawing functions on five grids of plain arrays, with and without limits, switched axes, every way to give the figure"),
        Space("figures", figure_cases, run, "figure, axes, both or none given, or another figure in front"),
    ]


ASSUMPTIONS = [
    "plots of complex values, of repeated coordinates, and colour maps of coordinates in no order are not judged",
    "levels below zero are not drawn in spectra",
]
