"""Vector field plots draw the vectors and components of the field.

Arrows are read back from the figure and compared with the extraction of the
same request; plots by component are compared, figure by figure, with the plot
of the component alone.
"""
import inspect
import itertools
import os
import re
import shutil
import tempfile

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C15, C25

ASSUMPTIONS = [
    "the sign of an arrow of a single cartesian component is a display choice of the library (reversed on the negative side) and is not judged",
]

# ---------------------------------------------------------------- arrows

LAYOUTS = {
    "angle": [C15.angle(4, None)],
    "points": [C15.angle(5, None, "1d")],
    "time-angle": [model.axis("time", 4, None), C15.angle(4, None)],
    "time-period": [model.axis("time", 4, None), C15.angle(3, ["period", 2])],
    "time-antiperiod": [model.axis("time", 3, ["antiperiod", 2]), C15.angle(2, ["antiperiod", 2])],
    "angle-time": [C15.angle(4, None), model.axis("time", 4, ["period", 2])],
    "time-angle-z": [model.axis("time", 4, None), C15.angle(4, None), model.axis("z", 2, None, x0=-1.0)],
}
TOKENS = {
    "angle": ["angle", "angle{°}", "angle{rad}", "angle[oneperiod]", "angle[smallestperiod]", "angle[0,2]", "angle[1]", "angle=[0,1,2]", "angle->axis"],
    "time": ["time[0]", "time[1]", "time=0.5", "time[1]{ms}", "time=mean", "freqs[0]", "freqs[1]", "freqs=1"],
    "z": ["z[0]", "z[1]", "z=mean"],
}


def arrow_cases(tier):
    full = tier == "thorough"
    for layout, axes in LAYOUTS.items():
        comps = C15.COMPS if full or len(axes) == 1 else [C15.COMPS[k] for k in ((0, 3, 8, 11) if len(axes) == 2 else (0, 9))]
        names = [a["name"] for a in axes]
        tokens = TOKENS if full or len(axes) < 3 else {n: t[::3] for n, t in TOKENS.items()}
        for comp in comps:
            if comp in (["axial"], ["comp_z"]):
                continue
            for toks in itertools.product(*[tokens[n] + ([None] if n != "angle" else []) for n in names]):
                for order in ("given", "reversed") if len(axes) > 1 else ("given",):
                    toks_ = [t for t in (toks if order == "given" else toks[::-1]) if t]
                    for drawn in (None, "radial", "tangential", "comp_x", "comp_y"):
                        if order == "reversed" and not full and drawn not in (None, "radial"):
                            continue
                        yield {"layout": layout, "comps": comp, "request": toks_, "drawn": drawn}


def option_cases(tier):
    for layout in ("angle", "time-angle", "time-period"):
        for comp in (C15.COMPS[0], C15.COMPS[8]):
            for toks in ([["angle"]] if layout == "angle" else [["time[1]", "angle"], ["freqs[1]", "angle"], ["angle", "freqs=1"]]):
                for drawn in (None, "radial", "tangential", "comp_x", "comp_y"):
                    for phase, radius, unit, norm, mode in itertools.product((0, np.pi / 2, 0.3), (None, 2.5), ("SI", "mT"), (False, True), ("none", "both", "fig", "ax", "behind")):
                        if norm and unit != "SI" or mode != "none" and tier != "thorough" and (radius or unit != "SI" or norm):
                            continue
                        yield {"layout": layout, "comps": comp, "request": toks, "drawn": drawn, "phase": phase, "radius": radius, "unit": unit, "norm": norm, "fig": mode}


def run_arrows(ctx, case):
    import matplotlib.pyplot as plt

    try:
        arrows(ctx, case)
    finally:
        plt.close("all")


def arrows(ctx, case):
    axes, drawn, req = LAYOUTS[case["layout"]], case["drawn"], case["request"]
    phase, radius, mode = case.get("phase", 0), case.get("radius"), case.get("fig", "both")
    kw = {"unit": case.get("unit", "SI"), "is_norm": case.get("norm", False)}
    what = str({k: v for k, v in case.items() if v})
    ctx.state(sorted(case.items(), key=str))
    data = {}
    toks = list(req)
    if any("axis" in t for t in toks):
        toks = ["angle=axis_data" if "axis" in t else t for t in toks]
        data = {"axis_data": {"angle": np.array([0.25, 1.0, 2.0])}}
    # the request in radians gives the directions
    rad = [t.replace("{°}", "").replace("{rad}", "") if t.startswith("angle") else t for t in toks]
    f = C15.build(axes, case["comps"])
    A = ctx.call(f.get_rphiz_along if drawn in ("radial", "tangential") else f.get_xyz_along, *toks, **kw, **data)
    B = ctx.call(C15.build(axes, case["comps"]).get_rphiz_along, *rad, **data)
    if isinstance(A, LibraryError) or isinstance(B, LibraryError):
        return
    phi = np.atleast_1d(B["angle"]).astype(float)
    if any(t != r and "=" in t for t, r in zip(toks, rad)):
        return
    turn = np.exp(1j * phase)
    if drawn in (None, "comp_x", "comp_y"):
        u, v = np.atleast_1d(np.squeeze(A["comp_x"])), np.atleast_1d(np.squeeze(A["comp_y"]))
        u, v = (u, 0 * v) if drawn == "comp_x" else (0 * u, v) if drawn == "comp_y" else (u, v)
    else:
        w = np.atleast_1d(np.squeeze(A[drawn]))
        u, v = (w * np.cos(phi), w * np.sin(phi)) if drawn == "radial" else (-w * np.sin(phi), w * np.cos(phi))
    if np.shape(u) != np.shape(phi):
        return
    u, v = np.real(u * turn), np.real(v * turn)
    f = C15.build(axes, case["comps"])
    kw.update(data)
    if drawn:
        kw["component_list"] = [drawn]
    if radius is not None:
        kw["radius"] = radius
    if phase:
        kw["phase"] = phase
    res = ctx.call(f.plot_2D_Data, *toks, type_plot="quiver", **C25.canvas(mode), **kw)
    if not ctx.require("arrows:draws", not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    figs = C25.drawn()
    if mode == "behind":
        figs.pop()
    if not ctx.require("arrows:one-figure", len(figs) == 1 and len(figs[0]) == 1, "%s: figures %s" % (what, figs)):
        return
    ax = figs[0][0]
    quivers = [c for c in ax.collections if hasattr(c, "U")]
    if not ctx.require("arrows:one-figure", len(quivers) == 1, "%s: %d sets of arrows" % (what, len(quivers))):
        return
    q = quivers[0]
    R = 1 if radius is None else radius
    at = np.column_stack((R * np.cos(phi), R * np.sin(phi)))
    got = np.column_stack((np.asarray(q.X).ravel(), np.asarray(q.Y).ravel()))
    ctx.agree("arrows:position", got, at)
    gu, gv = np.asarray(q.U).ravel(), np.asarray(q.V).ravel()
    if drawn in ("comp_x", "comp_y"):
        gu, gv, u, v = abs(gu), abs(gv), abs(u), abs(v)
    ctx.agree("arrows:vector", np.column_stack((gu, gv)), np.column_stack((u, v)))
    title = ax.get_title()
    ctx.require("arrows:title", f.name in title, "%s: title %r" % (what, title))
    for a in ("time", "freqs"):
        if a in A and np.size(A[a]) == 1 and not isinstance(A[a], str):
            m = re.search(a + r"=([^,\[]*)\[([^\]]*)\]", title)
            ok = bool(m) and abs(float(m.group(1)) - float(np.squeeze(A[a]))) <= 6e-3 * (1 + abs(float(np.squeeze(A[a]))))
            ctx.require("arrows:title", ok, "%s: %s=%s in %r" % (what, a, A[a], title))
            if ok:
                unit = "ms" if any("{ms}" in t for t in toks) else "s" if a == "time" else "Hz"
                ctx.require("arrows:title-unit", m.group(2) == unit, "%s: %r" % (what, title))


# ---------------------------------------------------------------- by component

BY = {
    "time-angle": [model.axis("time", 4, None), C15.angle(4, None)],
    "time-period": [model.axis("time", 4, None), C15.angle(3, ["period", 2])],
    "angle": [C15.angle(4, None)],
}
REQUESTS = {
    2: [["angle"], ["angle{°}", "time[1]"], ["time", "angle[0,2]"], ["time[oneperiod]{ms}"], ["freqs"], ["wavenumber", "time=mean"], ["freqs", "wavenumber=1"]],
    3: [["angle", "time"], ["time", "angle{°}"], ["freqs", "wavenumber"], ["wavenumber", "freqs"]],
}
# alternative values of every argument which the plot of a component accepts
OPTIONS = {
    2: [
        {}, {"unit": "mT"}, {"unit": "dB"}, {"is_norm": True}, {"type_plot": "curve"}, {"type_plot": "bargraph"}, {"type_plot": "point"}, {"type_plot": "curve_point"},
        {"color_list": ["r", "g", "b", "k"]}, {"linestyles": ["dotted", "dashed", "solid", "dotted"]}, {"linewidth_list": [3.5, 3.5, 3.5, 3.5]}, {"x_min": -1.0}, {"x_max": 2.0}, {"y_min": -7.0}, {"y_max": 9.0},
        {"is_logscale_x": True}, {"is_logscale_y": True}, {"is_disp_title": False}, {"is_grid": False}, {"is_auto_ticks": False}, {"is_auto_range": True}, {"barwidth": 5, "type_plot": "bargraph"},
        {"fund_harm_dict": {"frequency": 1}}, {"win_title": "own window"}, {"thresh": 0.5}, {"font_size_title": 20}, {"font_size_label": 21}, {"font_size_legend": 22, "legend_list": ["own"]},
        {"legend_list": ["own"]}, {"is_show_legend": False, "legend_list": ["own"]}, {"is_outside_legend": True, "legend_list": ["own"]}, {"is_frame_legend": False, "legend_list": ["own"]},
        {"data_list": True}, {"data_list": True, "legend_list": ["own", "other"]}, {"data_list": True, "color_list": ["r", "g", "b", "k", "c", "m"]}, {"data_list": True, "linestyles": ["dotted"] * 3 + ["dashed"] * 3},
    ],
    3: [
        {}, {"unit": "mT"}, {"unit": "dB"}, {"is_norm": True}, {"x_min": -1.0}, {"x_max": 2.0}, {"y_min": -1.0}, {"y_max": 3.0}, {"z_min": -7.0}, {"z_max": 9.0}, {"colormap": "viridis"},
        {"is_auto_ticks": False}, {"is_auto_range": False}, {"is_auto_range": True}, {"is_2D_view": True}, {"is_2D_view": True, "z_min": -1.0, "z_max": 1.0}, {"is_2D_view": True, "is_same_size": True}, {"N_stem": 2},
        {"is_logscale_x": True}, {"is_logscale_y": True}, {"is_logscale_z": True}, {"thresh": 0.5}, {"is_switch_axes": True}, {"is_switch_axes": True, "is_2D_view": True}, {"win_title": "own window"},
        {"font_size_title": 20}, {"font_size_label": 21}, {"font_size_legend": 22},
    ],
}
LISTS = {0: [None, ["radial"], ["axial"], ["tangential", "radial"], ["axial", "tangential"]], 8: [None, ["comp_y"], ["comp_z", "comp_x"]]}


def component_cases(tier):
    for dim in (2, 3):
        for layout in BY:
            if dim > len(BY[layout]) + 1:
                continue
            for comp in (0, 8):
                for req in REQUESTS[dim]:
                    if layout == "angle" and any("time" in t or "freqs" in t for t in req):
                        continue
                    if dim == 3 and layout == "angle":
                        continue
                    lists = LISTS[comp]
                    for k, opt in enumerate(OPTIONS[dim]):
                        for names in lists if not opt or tier == "thorough" else lists[:2]:
                            for mode in ("none", "both") if names and len(names) == 1 else ("none",):
                                yield {"dim": dim, "layout": layout, "comps": comp, "request": req, "list": names, "option": k, "fig": mode}


def picture(ax):
    """What can be seen in the axes."""
    fig = ax.figure
    texts = [fig.canvas.manager.get_window_title() if fig.canvas.manager else None, ax.get_title(), ax.get_xlabel(), ax.get_ylabel(), ax.get_xscale(), ax.get_yscale()]
    texts += [ax.title.get_fontsize(), ax.xaxis.label.get_fontsize(), ax.yaxis.label.get_fontsize()]
    texts += [t.get_text() for t in ax.get_xticklabels()]
    leg = ax.get_legend()
    texts.append(None if leg is None else (leg.get_frame_on(), repr(leg.get_bbox_to_anchor().bounds), [(t.get_text(), t.get_fontsize()) for t in leg.get_texts()]))
    texts.append([l.get_visible() for l in ax.get_xgridlines()][:1])
    numbers = [np.array(ax.get_xlim()), np.array(ax.get_ylim()), np.asarray(ax.get_xticks(), dtype=float)]
    for l in ax.get_lines():
        texts.append((l.get_label(), str(l.get_color()), str(l.get_linestyle()), l.get_linewidth(), str(l.get_marker())))
        numbers += [np.asarray(x, dtype=float) for x in l.get_data(orig=True)]
    for p in ax.patches:
        texts.append(str(p.get_facecolor()))
        numbers.append(np.array([p.get_x(), p.get_width(), p.get_height()]) if hasattr(p, "get_x") else np.zeros(0))
    for c in list(ax.collections) + list(ax.images):
        texts.append((type(c).__name__, str(c.get_cmap().name) if hasattr(c, "get_cmap") else ""))
        a = c.get_array() if hasattr(c, "get_array") else None
        if a is not None:
            numbers.append(np.ma.filled(np.ma.asarray(a, dtype=float), np.nan).ravel())
        if hasattr(c, "get_clim"):
            numbers.append(np.array([np.nan if v is None else v for v in c.get_clim()], dtype=float))
        if hasattr(c, "get_extent"):
            numbers.append(np.array(c.get_extent(), dtype=float))
        if hasattr(c, "_vec"):
            numbers.append(np.asarray(c._vec, dtype=float).ravel())
        elif hasattr(c, "get_offsets"):
            numbers.append(np.ma.filled(np.ma.asarray(c.get_offsets(), dtype=float), np.nan).ravel())
    if hasattr(ax, "get_zlim"):
        texts += [ax.get_zlabel(), ax.zaxis.label.get_fontsize()]
        numbers.append(np.array(ax.get_zlim()))
        for l in ax.get_lines():
            numbers += [np.asarray(x, dtype=float) for x in l.get_data_3d()]
    return repr(texts), numbers


def pictures():
    import matplotlib.pyplot as plt

    out = []
    for k in plt.get_fignums():
        out.append([picture(a) for a in plt.figure(k).axes])
    return out


def same(a, b):
    if len(a) != len(b):
        return "%d axes instead of %d" % (len(a), len(b))
    for (s, x), (t, y) in zip(a, b):
        if re.sub("Figure [0-9]+", "", s) != re.sub("Figure [0-9]+", "", t):
            return "%s instead of %s" % (s, t)
        if len(x) != len(y):
            return "%d arrays instead of %d" % (len(x), len(y))
        for u, v in zip(x, y):
            if u.shape != v.shape or not np.allclose(u, v, rtol=1e-9, atol=1e-12, equal_nan=True):
                return "%s instead of %s" % (core.show(u), core.show(v))
    return None


def build(layout, comp, second=False):
    f = C15.build(BY[layout], C15.COMPS[comp])
    if second:
        f.name = "Second"
        for c in f.components.values():
            c.values = c.values * 2 + 1
            c.name = "Second " + c.name
    return f


def run_components(ctx, case):
    import matplotlib.pyplot as plt

    try:
        components(ctx, case)
    finally:
        plt.close("all")


def defaults(whole, part):
    """Values of the arguments both plots have, when they are not given."""
    own = inspect.signature(part).parameters
    return {k: v.default for k, v in inspect.signature(whole).parameters.items() if k in own and v.default is not v.empty and k not in ("fig", "ax")}


def components(ctx, case):
    dim, layout, comp, req = case["dim"], case["layout"], case["comps"], case["request"]
    option = dict(OPTIONS[dim][case["option"]])
    what = str(dict(case, option=option))
    ctx.state(sorted(case.items(), key=str))
    names = case["list"] or C15.COMPS[comp]
    mode = case["fig"]
    kw = dict(option, is_show_fig=True)
    if case["list"]:
        kw["component_list"] = list(case["list"])
    if option.get("data_list"):
        kw["data_list"] = [build(layout, comp, True)]
    is3d = dim == 3 and not option.get("is_2D_view")

    def args():
        import matplotlib.pyplot as plt

        if mode == "both" and is3d:
            plt.close("all")
            fig = plt.figure()
            return {"fig": fig, "ax": fig.add_subplot(projection="3d")}
        return C25.canvas(mode)

    def method(x):
        return x.plot_2D_Data if dim == 2 else x.plot_3D_Data

    f = build(layout, comp)
    given = args()
    res = ctx.call(method(f), *req, **given, **kw)
    got = None if isinstance(res, LibraryError) else pictures()
    want, refused = [], False
    for c in names:
        one = dict(defaults(method(f), method(f.components[c])), **option)
        one["is_show_fig"] = True
        if option.get("data_list"):
            one["data_list"] = [build(layout, comp, True).components[c]]
        given = args()
        r = ctx.call(method(build(layout, comp).components[c]), *req, **given, **one)
        if isinstance(r, LibraryError):
            refused = True
            break
        want += pictures()
    if refused:
        ctx.require("component:accepted", isinstance(res, LibraryError), "%s drawn although %s is refused: %r" % (what, c, r))
        return
    if not ctx.require("component:draws", not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    if not ctx.require("component:figures", len(got) == len(want), "%s: %d figures instead of %d" % (what, len(got), len(want))):
        return
    for c, g, w in zip(names, got, want):
        diff = same(g, w)
        ctx.require("component:same", diff is None, "%s: %s %s" % (what, c, diff))


# ---------------------------------------------------------------- files

PATHS = ["plot.png", "plot.v1.png", "a.b/plot.png", "./plot.png", "a/../plot.png", "plot.svg", "radial.png"]


def file_cases(tier):
    for dim, req in ((2, ["angle"]), (2, ["freqs"]), (2, "quiver"), (3, ["time", "angle"])):
        for comp in (0, 8):
            for names in LISTS[comp]:
                for path in PATHS:
                    for absolute in (True, False):
                        if req == "quiver" and names and names[0] in ("axial", "comp_z"):
                            continue
                        yield {"dim": dim, "request": req, "comps": comp, "list": names, "path": path, "absolute": absolute}


def run_files(ctx, case):
    import matplotlib.pyplot as plt

    ctx.state(sorted(case.items(), key=str))
    comp, names = case["comps"], case["list"] or C15.COMPS[case["comps"]]
    folder = tempfile.mkdtemp(dir=core.scratch_dir())
    os.mkdir(os.path.join(folder, "a"))
    os.mkdir(os.path.join(folder, "a.b"))
    before = os.getcwd()
    f = build("time-angle", comp)
    C25.canvas("none")
    kw = {"component_list": list(case["list"])} if case["list"] else {}
    try:
        os.chdir(folder)
        path = os.path.join(folder, case["path"]) if case["absolute"] else case["path"]
        if case["request"] == "quiver":
            res = ctx.call(f.plot_2D_Data, "time[1]", "angle", type_plot="quiver", save_path=path, is_show_fig=False, **kw)
        else:
            res = ctx.call(f.plot_2D_Data if case["dim"] == 2 else f.plot_3D_Data, *case["request"], save_path=path, is_show_fig=False, **kw)
    finally:
        os.chdir(before)
        plt.close("all")
    found = sorted(os.path.relpath(os.path.join(d, n), folder) for d, _, ns in os.walk(folder) for n in ns)
    root, ext = os.path.splitext(os.path.normpath(case["path"]))
    if case["request"] == "quiver" or len(names) == 1:
        want = [root + ext]
    else:
        want = sorted(root + "_" + c + ext for c in names)
    shutil.rmtree(folder)
    if not ctx.require("files:saves", not isinstance(res, LibraryError), "%s: %s" % (case, res)):
        return
    ctx.require("files:names", found == want, "%s: %s instead of %s" % (case, found, want))


def spaces():
    return [
        Space("arrows", arrow_cases, run_arrows, "7 layouts of axes, 4 sets of components (14 with a single axis, 2 with three axes), every combination of 9 angle requests and 8 time requests (every third one with three axes) in both orders, whole field and each single component drawn; thorough: all combinations"),
        Space("options", option_cases, run_arrows, "3 phases, 2 radii, 2 units, normalised or not, and 5 ways of giving the figure with each phase (thorough: with each combination), for every drawn component of 3 layouts and 2 frames"),
        Space("components", component_cases, run_components, "36 display options of 2D plots and 28 of 3D plots, 11 requests, 3 layouts, 2 frames and 8 lists of components"),
        Space("files", file_cases, run_files, "7 file names, absolute or not, 8 lists of components, 4 kinds of plots"),
    ]
