"""Animated plots show one picture per value of the animated axis.

The animation is read back picture by picture, and every picture is compared
with the plot of the field at the value the animated axis has reached.
"""
import itertools
import os
import shutil
import tempfile

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C15, C24, C25

# pixels which differ by more than this many levels are different
LEVEL = 60
# pixels which may differ (colours are rounded in the file), in curves and maps
COUNT = {2: 20, 3: 200}


def make(name):
    from SciDataTool import DataTime

    ax = model.axis
    if name == "plain":
        return model.build_field({"axes": [ax("time", 4, None, h=0.25), ax("angle", 5, None, h=0.5)], "cplx": False})
    if name == "period":
        return model.build_field({"axes": [ax("angle", 4, ["antiperiod", 2], h=np.pi / 4), ax("time", 3, ["period", 2], h=0.7, x0=0.3)], "cplx": False})
    if name == "spectrum":
        return make("plain").time_to_freq()
    if name == "three":
        return model.build_field({"axes": [ax("time", 4, None, h=0.25), ax("angle", 4, None, h=0.5), ax("z", 3, None, x0=-1.0)], "cplx": False})
    if name == "pattern":
        p = {"map": [0, 1, 0, 2], "whole": [0.0, 1.0, 2.0, 4.0], "step": False}
        z = C24.pattern_axis(p, "z")
        axes = [ax("time", 4, None, h=0.25), ax("angle", 4, None, h=0.5)]
        return DataTime(name="Test field", symbol="X", unit="T", axes=[model.build_axis(a) for a in axes] + [z], values=model.raw_values((4, 4, 3)))
    raise KeyError(name)


def pictures(path):
    from PIL import Image, ImageSequence

    with Image.open(path) as im:
        return [np.asarray(x.convert("RGB")).astype(int) for x in ImageSequence.Iterator(im)]


def stored(frames, folder):
    """The pictures once their colours are rounded in a file."""
    from PIL import Image

    out = []
    for f in frames:
        path = os.path.join(folder, "expected.gif")
        Image.fromarray(f.astype("uint8")).save(path)
        out += pictures(path)
    return out


def screen(fig):
    fig.canvas.draw()
    return np.asarray(fig.canvas.buffer_rgba())[..., :3].astype(int)


def differ(a, b):
    if a.shape != b.shape:
        return a.size
    return int((np.abs(a - b).max(-1) > LEVEL).sum())


def distinct(frames):
    """Equal pictures in a row are stored once."""
    out = []
    for f in frames:
        if not out or not np.array_equal(out[-1], f):
            out.append(f)
    return out


def frames(ctx, f, axis, nb):
    """Requests of the animated axis, in the order of the pictures."""
    name, rest = axis.split("{")[0].split("[")[0], axis[axis.index("{"):] if "{" in axis else ""
    obj = [a for a in f.get_axes() if a.name == name]
    if obj and hasattr(obj[0], "rebuild_indices"):
        return [name + "[%d]" % k + rest for k in range(obj[0].get_length())]
    if name in ("freqs", "wavenumber"):
        r = ctx.call(f.get_magnitude_along, axis)
    else:
        r = ctx.call(f.get_along, axis)
    if isinstance(r, LibraryError):
        return r
    x = np.asarray(r[name], dtype=float)
    lo, hi = float(np.min(x)), float(np.max(x))
    return [name + "=" + repr(lo + k * (hi - lo) / nb) + rest for k in range(nb)]


AXES = {
    "plain": ["time", "freqs{Hz}", "wavenumber", "time{s}", "time[oneperiod]{s}", "time{ms}", "angle{rad}", "angle[oneperiod]{°}"],
    "period": ["time[oneperiod]{s}", "time[smallestperiod]{s}", "time{ms}", "angle[oneperiod]{rad}", "angle{°}", "angle[antiperiod]{rad}"],
    "spectrum": ["time[oneperiod]{s}", "angle{rad}", "freqs{Hz}", "freqs"],
    "three": ["time{s}", "freqs", "angle{°}", "z{m}"],
    "pattern": ["time{s}", "angle[oneperiod]{rad}", "z{m}", "z[oneperiod]{m}"],
}
OTHER = {
    "time": ["time", "time{ms}", "freqs", "freqs{kHz}", "freqs=[0,1]", "time[0,2]"],
    "angle": ["angle", "angle{°}", "wavenumber", "angle[oneperiod]"],
    "z": ["z", "z{mm}"],
}
NAMES = {"plain": ["time", "angle"], "period": ["angle", "time"], "spectrum": ["time", "angle"], "three": ["time", "angle", "z"], "pattern": ["time", "angle", "z"]}


def line_cases(tier):
    for name in NAMES:
        for axis in AXES[name]:
            moving = axis.split("{")[0].split("[")[0]
            moving = {"freqs": "time", "wavenumber": "angle"}.get(moving, moving)
            for other in NAMES[name]:
                if other == moving:
                    continue
                rest = [n for n in NAMES[name] if n not in (moving, other)]
                for tok in OTHER[other]:
                    slices = [[]] if not rest else [[], [rest[0] + "[1]"]] + ([[rest[0] + "[0,1]"]] if rest[0] != moving else [])
                    for sl in slices:
                        for nb in (1, 2, 3, 5, 7) if not rest and tok == OTHER[other][0] else (3,):
                            yield {"field": name, "axis": axis, "request": [tok] + sl, "frames": nb}
    for unit, kind, title, limits, path in itertools.product(("SI", "mT"), (None, "curve", "bargraph", "point"), ("", "Own title"), (True, False), ("x.png", "x.gif", "a.b/x.png")):
        for tok in ("angle", "wavenumber"):
            yield {"field": "plain", "axis": "time[oneperiod]{s}", "request": [tok], "frames": 2, "unit": unit, "type": kind, "title": title, "limits": limits, "path": path}


def map_cases(tier):
    for name in ("three", "pattern"):
        for axis in AXES[name]:
            moving = axis.split("{")[0].split("[")[0]
            moving = {"freqs": "time", "wavenumber": "angle"}.get(moving, moving)
            others = [n for n in NAMES[name] if n != moving]
            for toks in itertools.product(*[OTHER[o][:4] if o != "time" else ["time", "freqs"] for o in others]):
                for order in (toks, toks[::-1]):
                    for flat in (True, False):
                        for nb in (1, 2, 3) if flat and toks == tuple(OTHER[o][0] for o in others) else (2,):
                            yield {"field": name, "axis": axis, "request": list(order), "frames": nb, "flat": flat}


def run_plot(ctx, case):
    import matplotlib.pyplot as plt

    C25.canvas("none")
    folder = tempfile.mkdtemp(dir=core.scratch_dir())
    dpi = plt.rcParams["figure.dpi"]
    plt.rcParams["figure.dpi"] = 50
    try:
        os.mkdir(os.path.join(folder, "a.b"))
        judge(ctx, case, folder)
    finally:
        plt.close("all")
        plt.rcParams["figure.dpi"] = dpi
        shutil.rmtree(folder)


def judge(ctx, case, folder):
    import matplotlib.pyplot as plt

    ctx.state(sorted(case.items(), key=str))
    f = make(case["field"])
    dim = 3 if "flat" in case else 2
    unit = case.get("unit", "SI")
    steps = frames(ctx, f, case["axis"], case["frames"])
    if isinstance(steps, LibraryError):
        return
    big = 1000.0 if unit == "mT" else 1.0
    if dim == 2:
        limits = {"y_min": -40.0 * big, "y_max": 40.0 * big} if case.get("limits", True) else {"y_min": None, "y_max": None}
        options = dict(unit=unit)
        if case.get("type"):
            options["type_plot"] = case["type"]
    else:
        limits = {"z_min": -40.0, "z_max": 40.0}
        options = dict(unit=unit, is_2D_view=case["flat"])
    want = []
    for s in steps:
        g = make(case["field"])
        given = {k: v for k, v in limits.items() if v is not None}
        r = ctx.call(g.plot_2D_Data if dim == 2 else g.plot_3D_Data, *case["request"], s, is_show_fig=False, **given, **options)
        if isinstance(r, LibraryError):
            return
        fig = plt.gcf()
        if case.get("title"):
            fig.suptitle(case["title"])
        want.append(screen(fig))
        plt.close("all")
    path = os.path.join(folder, case.get("path", "x.png"))
    method = f.plot_2D_Data_Animated if dim == 2 else f.plot_3D_Data_Animated
    r = ctx.call(method, case["axis"], case.get("title", ""), *case["request"], nb_frames=case["frames"], fps=5, save_path=path, **limits, **options)
    if not ctx.require("draws", not isinstance(r, LibraryError), "%s: %s" % (case, r)):
        return
    path = os.path.splitext(path)[0] + ".gif"
    found = [os.path.join(d, n) for d, _, ns in os.walk(folder) for n in ns]
    if not ctx.require("file", found == [path], "%s: files %s" % (case, found)):
        return
    ctx.require("closed", plt.get_fignums() == [], "%s: figures left open" % case)
    got = distinct(pictures(path))
    expected = distinct(stored(want, folder))
    if not case.get("limits", True):
        ctx.require("count", len(got) <= len(want), "%s: %d pictures instead of %d" % (case, len(got), len(want)))
        return
    if not ctx.require("count", len(got) == len(expected), "%s: %d pictures instead of %d" % (case, len(got), len(expected))):
        return
    for k, (a, b) in enumerate(zip(got, expected)):
        d = differ(a, b)
        ctx.require("picture", d <= COUNT[dim], "%s: %d pixels of picture %d are different" % (case, d, k))
    ctx.outcomes.add(core.digest((len(got), len(want))))


VECTORS = {
    "polar": ([model.axis("time", 4, None, h=0.25), C15.angle(4, None)], 1),
    "cartesian": ([C15.angle(5, None), model.axis("time", 3, ["period", 2], x0=0.5)], 8),
}


def vector_cases(tier):
    for name in VECTORS:
        for axis in ("time", "time{ms}", "time[oneperiod]{s}", "time[smallestperiod]"):
            for toks in (["angle"], ["angle", "time"], ["angle{°}"], ["angle[0,2]"], ["freqs[1]", "angle"], ["freqs=1", "angle"]):
                for drawn in (None, "radial", "tangential", "comp_x"):
                    for nb in (1, 3, 4):
                        yield {"vectors": name, "axis": axis, "request": toks, "drawn": drawn, "frames": nb, "type": "quiver"}
            for toks in (["angle"], ["angle{°}"], ["wavenumber"]):
                for names in (None, 0, 1):
                    for path in ("x.png", "a.b/x.png"):
                        yield {"vectors": name, "axis": axis, "request": toks, "drawn": names, "frames": 2, "type": None, "path": path}
            yield {"vectors": name, "axis": axis, "request": ["angle"], "drawn": None, "frames": 2, "type": "bargraph"}


def run_vectors(ctx, case):
    import matplotlib.pyplot as plt

    C25.canvas("none")
    folder = tempfile.mkdtemp(dir=core.scratch_dir())
    dpi = plt.rcParams["figure.dpi"]
    plt.rcParams["figure.dpi"] = 50
    try:
        os.mkdir(os.path.join(folder, "a.b"))
        (arrows if case["type"] == "quiver" else components)(ctx, case, folder)
    finally:
        plt.close("all")
        plt.rcParams["figure.dpi"] = dpi
        shutil.rmtree(folder)


def background():
    import matplotlib.pyplot as plt

    fig, ax = plt.subplots(tight_layout=True)
    ax.add_patch(plt.Circle((0, 0), 0.5, color="r"))
    ax.set_xlim(-3, 3)
    ax.set_ylim(-2, 2)
    fig.suptitle(None)
    return fig, ax


def vectors(case):
    axes, comps = VECTORS[case["vectors"]]
    return C15.build(axes, C15.COMPS[comps])


def arrows(ctx, case, folder):
    import matplotlib.pyplot as plt

    ctx.state(sorted(case.items(), key=str))
    f = vectors(case)
    first = list(f.components.values())[0]
    steps = frames(ctx, first, case["axis"], case["frames"])
    kw = {"component_list": [case["drawn"]]} if case["drawn"] else {}
    want = []
    x = first.get_along(case["axis"])["time"]
    for k, s in enumerate(steps):
        fig, ax = background()
        if "freqs" in case["request"][0]:
            start = float(np.min(x) + k * (np.max(x) - np.min(x)) / case["frames"])
            args, phase = case["request"], {"phase": 2 * np.pi * start / float(np.max(x) - np.min(x))}
        else:
            args, phase = [s] + [t for t in case["request"] if t != "time"], {}
        r = ctx.call(vectors(case).plot_2D_Data, *args, type_plot="quiver", fig=fig, ax=ax, scale=20, is_show_fig=False, **kw, **phase)
        if isinstance(r, LibraryError):
            return
        want.append(screen(fig))
        plt.close("all")
    path = os.path.join(folder, "x.png")
    fig, ax = background()
    r = ctx.call(f.plot_2D_Data_Animated, case["axis"], *case["request"], nb_frames=case["frames"], fps=5, type_plot="quiver", fig=fig, ax=ax, scale=20, save_path=path, **kw)
    if not ctx.require("arrows:draws", not isinstance(r, LibraryError), "%s: %s" % (case, r)):
        return
    same(ctx, case, "arrows:", path, want, folder)


def same(ctx, case, sig, path, want, folder):
    path = os.path.splitext(path)[0] + ".gif"
    if not ctx.require(sig + "file", os.path.exists(path), "%s: no file %s" % (case, os.path.basename(path))):
        return
    got = distinct(pictures(path))
    expected = distinct(stored(want, folder))
    if not ctx.require(sig + "count", len(got) == len(expected), "%s: %d pictures instead of %d" % (case, len(got), len(expected))):
        return
    for k, (a, b) in enumerate(zip(got, expected)):
        d = differ(a, b)
        ctx.require(sig + "picture", d <= COUNT[2], "%s: %d pixels of picture %d are different" % (case, d, k))


def components(ctx, case, folder):
    import matplotlib.pyplot as plt

    ctx.state(sorted(case.items(), key=str))
    f = vectors(case)
    every = list(f.components)
    names = every if case["drawn"] is None else [every[case["drawn"]]]
    kw = {} if case["drawn"] is None else {"component_list": list(names)}
    opt = {"y_min": -40.0, "y_max": 40.0, "thresh": 0.02}
    if case["type"]:
        opt["type_plot"] = case["type"]
    want = {}
    for c in names:
        steps = frames(ctx, f.components[c], case["axis"], case["frames"])
        for s in steps:
            r = ctx.call(vectors(case).components[c].plot_2D_Data, *case["request"], s, is_show_fig=False, **opt)
            if isinstance(r, LibraryError):
                return
            want.setdefault(c, []).append(screen(plt.gcf()))
            plt.close("all")
    path = os.path.join(folder, case.get("path", "x.png"))
    r = ctx.call(f.plot_2D_Data_Animated, case["axis"], *case["request"], nb_frames=case["frames"], fps=5, save_path=path, **opt, **kw)
    if not ctx.require("components:draws", not isinstance(r, LibraryError), "%s: %s" % (case, r)):
        return
    root, ext = os.path.splitext(path)
    found = sorted(os.path.join(d, n) for d, _, ns in os.walk(folder) for n in ns)
    files = {c: (root + "_" + c if len(names) > 1 else root) + ".gif" for c in names}
    if not ctx.require("components:file", found == sorted(files.values()), "%s: files %s" % (case, found)):
        return
    for c in names:
        same(ctx, case, "components:", files[c], want[c], folder)


def spaces():
    return [
        Space("curves", line_cases, run_plot, "5 fields, every animated axis in 2 to 6 forms, every request of another axis, slices of the third axis; 1 to 7 pictures; units, plot types, titles, limits and file names for one field"),
        Space("maps", map_cases, run_plot, "2 fields with three axes, every animated axis, every pair of requests of the two others in both orders, seen flat or in perspective, 1 to 3 pictures"),
        Space("vectors", vector_cases, run_vectors, "2 vector fields, 4 forms of the animated axis; arrows: 6 requests, whole field or 3 single components, 1, 3 or 4 pictures; by component: 3 requests, all components or one, 2 file names"),
    ]
