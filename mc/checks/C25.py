"""Two-dimensional plots draw the extracted values.

Every plot is drawn off screen, its curves and bars are read back from the
figure and compared with the extraction of the same request.
"""
import itertools
import logging
import re

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C19, C20

root, FFT = C20.root, C20.FFT
FIELDS = dict(C20.FIELDS, **{"SI": ["side", "time"]})


def make(name):
    if name == "SI":
        from SciDataTool import Data1D, DataTime

        c = Data1D(name="side", unit="", values=["SIDE A", "SIDE B", "SIDE C"], is_components=True, is_overlay=True)
        return DataTime(name="SIR test", symbol="SIR", unit="A", axes=[c, model.build_axis(model.axis("time", 3, None))], values=model.raw_values((3, 3)))
    return C20.make(name)


TYPES = (None, "curve", "bargraph", "point", "curve_point", "barchart", "octave")


def other(field):
    """A second field to compare with: other values, other name, perhaps other axes."""
    ax = model.axis
    if field == "one-longer":
        f = model.build_field({"axes": [ax("time", 5, None, h=0.75, x0=1.0)], "cplx": False})
    elif field == "square-longer":
        f = model.build_field({"axes": [ax("time", 5, None, h=0.125), ax("angle", 4, None, h=0.25)], "cplx": False})
    elif field == "overlay-single":
        from SciDataTool import Data1D, DataTime

        c = Data1D(name="phase", unit="", values=["Phase D"], is_components=True, is_overlay=True)
        f = DataTime(name="Test field", symbol="X", unit="A", axes=[model.build_axis(ax("time", 4, ["period", 2], h=0.25)), c], values=model.raw_values((4, 1)))
    else:
        f = make(field)
    f.name = "Second field"
    f.symbol = "Y"
    for key in ("values", "values_dt", "values_df"):
        if getattr(f, key, None) is not None:
            setattr(f, key, getattr(f, key) * 2 + 1)
    return f


def canvas(mode):
    """Figure arguments of the plot."""
    import matplotlib.pyplot as plt

    logging.getLogger("matplotlib").setLevel(logging.CRITICAL)
    plt.close("all")
    if mode == "none":
        return {}
    fig, ax = plt.subplots()
    if mode == "behind":
        plt.figure().add_subplot().plot([0, 1], [0, 1])
    return {"both": {"fig": fig, "ax": ax}, "behind": {"fig": fig, "ax": ax}, "fig": {"fig": fig}, "ax": {"ax": ax}}[mode]


def drawn():
    """The axes of the only open figure."""
    import matplotlib.pyplot as plt

    figs = plt.get_fignums()
    return [plt.figure(k).axes for k in figs]


def lengths(f, E):
    axes = [k for k in E if k not in (f.symbol, "axes_list", "axes_dict_other", "kind")]
    return axes, {a: 1 if isinstance(E[a], str) else len(np.atleast_1d(E[a])) for a in axes}


def series(f, asked, E, x):
    """(coordinate of the slice or None, coordinates, values) of every curve."""
    axes, size = lengths(f, E)
    long = [a for a in axes if size[a] > 1]
    V = np.asarray(E[f.symbol]).reshape([size[a] for a in axes])
    V = np.moveaxis(V, axes.index(x), 0).reshape(size[x], -1)
    over = [a for a in long if a != x]
    X = np.atleast_1d(E[x])
    if not over:
        return None, [(None, X, V[:, 0])]
    return over[0], [(c, X, V[:, k]) for k, c in enumerate(np.atleast_1d(E[over[0]]).tolist())]


def run(ctx, case):
    import matplotlib.pyplot as plt

    try:
        judge(ctx, case)
    finally:
        plt.close("all")


def judge(ctx, case):
    field, toks, unit, kind = case["field"], case["request"], case["unit"], case["type"]
    compare, legends, overall, mode, norm = case.get("compare"), case.get("legends"), case.get("overall", []), case.get("fig", "both"), case.get("norm", False)
    f = make(field)
    what = str({k: v for k, v in case.items() if v})
    ctx.state(sorted(case.items(), key=str))
    x = root(toks[0])
    fft = any(w in t for t in toks for w in FFT) and kind != "curve"
    magnitude = fft or "dB" in unit
    positive = [t.replace("wavenumber", "wavenumber>0") if "wavenumber" in t and "[" not in t and "=" not in t else t for t in toks]
    second = field if compare in (None, True) else field + "-" + compare
    data = [make(field)] + ([other(second)] if compare else [])

    def get(d, req):
        kw = {"unit": unit, "is_norm": norm} if norm else {"unit": unit}
        return (d.get_magnitude_along if magnitude else d.get_along)(*req, **kw)

    E = [ctx.call(get, d, positive) for d in data]
    if any(isinstance(e, LibraryError) for e in E):
        return
    axes, size = lengths(f, E[0])
    if isinstance(E[0][x], str):
        return
    many = [a for a in axes if size[a] > 1 and a != x]
    if len(many) > 1 or (many and not C20.is_list(f, [t for t in toks if root(t) == many[0]][0])):
        return
    if any(np.iscomplexobj(e[d.symbol]) for e, d in zip(E, data)):
        return
    names = np.asarray(E[0][x]).dtype.kind in "US"
    if kind == "octave" and x != "freqs":
        return
    if names and size[x] == 1 and C20.is_list(f, toks[0]):
        return
    # expected curves
    want = []
    for k, (d, e) in enumerate(zip(data, E)):
        over, curves = series(d, toks, e, x)
        own = legends[k] if legends else (d.name if compare else "")
        want += [(own, c, X, Y, over) for c, X, Y in curves]
    if overall:
        op = "=sum" if f.unit == "W" else "=rss"
        req = [root(t) + op if root(t) in overall else t for t in positive]
        req += [a + op for a in overall if a not in [root(t) for t in toks]]
        O = ctx.call(get, make(field), req)
        if isinstance(O, LibraryError) or np.size(O[f.symbol]) != np.size(O[x]):
            return
        want.insert(0, ("Overall", None, np.atleast_1d(O[x]), np.atleast_1d(O[f.symbol]), None))
    args = dict(canvas(mode), unit=unit)
    if kind:
        args["type_plot"] = kind
    if compare:
        args["data_list"] = [other(second)]
    if legends:
        args["legend_list"] = list(legends)
    if overall:
        args["overall_axes"] = list(overall)
    if norm:
        args["is_norm"] = True
    limits = case.get("limits", {})
    args.update(limits)
    if case.get("fundamental") is not None:
        args["fund_harm_dict"] = {"frequency": case["fundamental"]}
    res = ctx.call(f.plot_2D_Data, *toks, **args)
    if not ctx.require("draws", not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    figs = drawn()
    if mode == "behind":
        extra = figs.pop()
        line = extra[0].get_lines()
        ctx.require("other-figure", len(extra) == 1 and len(line) == 1 and extra[0].get_xlabel() == "" and extra[0].get_xticklabels()[0].get_rotation() == 0, what + ": another figure changed")
    if not ctx.require("one-figure", len(figs) == 1 and len(figs[0]) == 1, "%s: figures %s" % (what, figs)):
        return
    ax = figs[0][0]
    bars = kind in ("bargraph", "barchart", "octave") or (kind is None and fft)
    if bars:
        got = []
        for c in ax.containers:
            got.append((c.get_label(), np.array([p.get_x() + p.get_width() / 2 for p in c]), np.array([p.get_height() for p in c]), c[0].get_width()))
    else:
        got = [(l.get_label(), np.asarray(l.get_xdata(orig=True)), np.asarray(l.get_ydata(orig=True)), 0.0) for l in ax.get_lines()]
    if kind == "curve_point":
        ctx.require("curves", len(got) == 2 * len(want), "%s: %d lines for %d curves" % (what, len(got), len(want)))
        for a, b in zip(got[::2], got[1::2]):
            ctx.agree("points", b[2], a[2])
            ctx.agree("points", b[1], a[1])
        got = got[::2]
    if not ctx.require("curves", len(got) == len(want), "%s: %d curves instead of %d" % (what, len(got), len(want))):
        return
    tok = {root(t): t for t in toks}
    place = kind in ("barchart", "octave")
    if limits:
        xlim, ylim = ax.get_xlim(), ax.get_ylim()
        shown = {"x_min": xlim[0], "x_max": xlim[1], "y_min": ylim[0], "y_max": ylim[1]}
        for k, v in limits.items():
            ctx.require("limits", abs(shown[k] - v) < 1e-9, "%s: %s is %s" % (what, k, shown[k]))
    if case.get("fundamental") is not None and len(want[0][2]) > 2:
        colors = [p.get_facecolor() for p in ax.containers[0]]
        near = int(np.argmin(np.abs(want[0][2] - case["fundamental"])))
        usual = max(colors, key=colors.count)
        ctx.require("fundamental", [c != usual for c in colors] == [k == near for k in range(len(colors))], "%s: bars %s highlighted" % (what, [k for k, c in enumerate(colors) if c != usual]))
    for (label, gx, gy, w), (own, c, X, Y, over) in zip(got, want):
        Y = np.array(Y, dtype=float)
        if "dB" in unit:
            Y[~(Y > 0)] = np.nan
        w = 0.999 if kind == "octave" else w
        X = np.arange(len(X)) * 1.0 if names or place else np.asarray(X, dtype=float)
        near = np.shape(gx) == X.shape and bool(np.all(np.abs(np.asarray(gx, dtype=float) - X) <= abs(w) / 2 * (1 + 1e-9) + 1e-9 * (1 + np.abs(X))))
        ctx.require("coordinates", near, "%s: drawn at %s instead of %s" % (what, core.show(np.asarray(gx)), core.show(X)))
        gy = np.asarray(gy, dtype=float)
        ok = gy.shape == Y.shape and bool(np.all((np.isnan(gy) & np.isnan(Y)) | (np.abs(gy - Y) <= 1e-9 * (1 + np.abs(Y)))))
        ctx.require("values", ok, "%s: %s drawn instead of %s" % (what, core.show(gy), core.show(Y)))
        if kind == "point":
            continue
        # legend of the curve
        if own:
            ctx.require("legend", label.startswith(own), "%s: %r for the curve of %r" % (what, label, own))
        if c is not None and own != "Overall":
            m = re.search(re.escape(over) + r"=\s*(.*)$", label)
            text = (m.group(1) if m else "").strip()
            if isinstance(c, str):
                ok = text == c.replace(";", "").strip()
            else:
                parts = text.split()
                ok = bool(parts) and C20.same_number(C20.number(parts[0]), c, 6e-3) and ("->" in tok[over] or C20.same_unit(" ".join(parts[1:]), C20.axis_unit(f, tok[over])))
            ctx.require("legend", ok, "%s: %r for the curve at %s=%s" % (what, label, over, c))
    if len(want) > 1 and kind != "point":
        shown = ax.get_legend()
        texts = [t.get_text() for t in shown.get_texts()] if shown else []
        named = [g[0] for g in got if g[0] and not g[0].startswith("_")]
        told = [w for w in want if w[0] or w[1] is not None]
        ctx.require("legend", texts == named and len(texts) == len(told), "%s: legend %s" % (what, texts))
    # labels
    text = ax.get_ylabel()
    if "dB" in unit:
        ok = unit in text
    else:
        ok = "[%s]" % (f.unit if unit == "SI" else unit) in text
    ctx.require("value-label", ok, "%s: %r" % (what, text))
    text = ax.get_xlabel()
    if "->" not in toks[0]:
        u = re.findall(r"\[([^\]]*)\]", text)
        ctx.require("axis-label", C20.same_unit(u[0] if u else "", C20.axis_unit(f, toks[0])), "%s: %r in %s" % (what, text, C20.axis_unit(f, toks[0])))
        name = {v: k for k, v in C20.NAMES.items()}.get(x, x)
        ctx.require("axis-label", text.lower().startswith(name.lower()), "%s: %r" % (what, text))
    # names and slices in the title
    title = ax.get_title()
    ctx.require("title", f.name.lower() in title.lower(), "%s: title %r" % (what, title))
    ctx.require("value-label", f.symbol in ax.get_ylabel(), "%s: %r" % (what, ax.get_ylabel()))
    said, units = {}, {}
    for m in re.finditer(r"([A-Za-z ]+)=([^,\[]*)(?:\[([^\]]*)\])?", title[len(f.name):].replace(" for ", " ")):
        n = m.group(1).strip()
        said[C20.NAMES.get(n, n)] = m.group(2).strip()
        units[C20.NAMES.get(n, n)] = m.group(3) or ""
    if not any(isinstance(E[0][a], str) for a in axes):
        rest = {a: E[0][a] for a in axes if size[a] == 1 and a != x}
        rest.update({a: v[0] for a, v in (E[0]["axes_dict_other"] or {}).items()})
        for a, v in rest.items():
            v = np.atleast_1d(v).tolist()[0]
            got_v = re.sub(r"\(.*", "", said.get(a, "")).strip()
            if isinstance(v, str):
                ok = C20.clean(got_v) == C20.clean(v).strip()
            else:
                ok = C20.same_number(C20.number(got_v), v, 6e-3)
            ctx.require("title", ok, "%s: %s=%s not in %r" % (what, a, v, title))
            if not isinstance(v, str) and "->" not in tok.get(a, a):
                ctx.require("title-unit", C20.same_unit(units.get(a, ""), C20.axis_unit(f, tok.get(a, a))), "%s: %s in %s, title %r" % (what, a, C20.axis_unit(f, tok.get(a, a)), title))
    # names and coordinates written at the ticks
    if names or place:
        ticks = {round(t, 6): l.get_text() for t, l in zip(ax.get_xticks(), ax.get_xticklabels())}
        for k, c in enumerate(np.atleast_1d(E[0][x]).tolist()):
            if isinstance(c, str):
                ctx.require("ticks", ticks.get(k, "") == c, "%s: tick %d is %r instead of %r" % (what, k, ticks.get(k), c))
            else:
                ctx.require("ticks", ticks.get(k, "") == ("%.2f" if kind == "barchart" else "%g") % c, "%s: tick %d is %r instead of %r" % (what, k, ticks.get(k), c))
    # the largest value can be seen
    Y = np.abs(np.asarray(want[0][3], dtype=float))
    if len(Y) and np.isfinite(Y).any() and not place and not limits and np.nanmax(np.where(np.isfinite(Y), Y, np.nan)) > 0:
        k = int(np.nanargmax(np.where(np.isfinite(Y), Y, np.nan)))
        at = float(k) if names else float(np.asarray(want[0][2])[k])
        lo, hi = sorted(ax.get_xlim())
        ctx.require("visible", lo - 1e-12 <= at <= hi + 1e-12, "%s: largest value at %s outside of %s" % (what, at, (lo, hi)))


def requests(field, full):
    names = FIELDS[field]
    per = [C20.tokens(field, a, make) if full else C20.few(field, a, make) for a in names]
    for m in range(1, len(names) + 1):
        for sub in itertools.combinations(range(len(names)), m):
            for toks in itertools.product(*[per[i] for i in sub]):
                for order in itertools.permutations(toks) if m <= 2 else [toks, toks[::-1]]:
                    if "=" in order[0] and "=[" not in order[0]:
                        continue
                    yield list(order)


def plain_cases(tier):
    for field, names in FIELDS.items():
        full = len(names) <= 2 or tier == "thorough" and len(names) == 3
        f = make(field)
        for toks in requests(field, full):
            units = ["SI", "dB"] + (["mT"] if f.unit == "T" else [])
            for unit in units:
                yield {"field": field, "request": toks, "unit": unit, "type": None}


def type_cases(tier):
    for field, names in FIELDS.items():
        if len(names) > 2 and tier != "thorough":
            continue
        for toks in requests(field, False):
            for kind in TYPES[1:]:
                for unit in ("SI", "dB"):
                    yield {"field": field, "request": toks, "unit": unit, "type": kind}


def compare_cases(tier):
    for field, names in FIELDS.items():
        if len(names) > 3:
            continue
        for toks in requests(field, len(names) < 2):
            for kind in (None, "curve", "bargraph", "point"):
                for legends in (None, ["first", "second"]):
                    yield {"field": field, "request": toks, "unit": "SI", "type": kind, "compare": True, "legends": legends}
            yield {"field": field, "request": toks, "unit": "dB", "type": None, "compare": True}
        for mode in ("none", "fig", "ax", "behind"):
            for toks in requests(field, False):
                if len(toks) < 3:
                    yield {"field": field, "request": toks, "unit": "SI", "type": None, "fig": mode}


def pair_cases(tier):
    for field, second, reqs in (
        ("one", "longer", [["time"], ["time[1]"], ["time[1,0]"], ["freqs"], ["time[0,1]"], ["freqs[1]"], ["time{ms}"]]),
        ("square", "longer", [[a, b] for a in ("time", "time[1,0]", "freqs", "freqs[0,1]", "time{ms}") for b in ("angle[1]", "angle[1,0]", "angle=sum", "angle[0,1,2]{°}", "wavenumber[1]", "wavenumber[0,1]")]),
        ("overlay", "single", [["time", "phase"], ["freqs", "phase"], ["time[1,0]", "phase"], ["time"], ["time", "phase[0]"], ["time", "phase=sum"]]),
    ):
        for toks in reqs:
            for toks in [toks, toks[::-1]] if field == "square" else [toks]:
                for kind in TYPES[:4]:
                    for unit in ("SI", "dB"):
                        for legends in (None, ["first", "second"]):
                            yield {"field": field, "request": toks, "unit": unit, "type": kind, "compare": second, "legends": legends}


def option_cases(tier):
    for field in ("one", "square", "cube", "components"):
        x = FIELDS[field]
        for toks in requests(field, False):
            if "freqs" in toks[0] or "wavenumber" in toks[0] or len(toks) > 2:
                continue
            for m in range(1, 5):
                for sub in itertools.combinations((("x_min", 0.25), ("x_max", 0.75), ("y_min", -3.0), ("y_max", 4.5)), m):
                    yield {"field": field, "request": toks, "unit": "SI", "type": "curve", "limits": dict(sub)}
    for field in FIELDS:
        f = make(field)
        if f.unit != "T":
            continue
        for toks in requests(field, False):
            if len(toks) < 3:
                yield {"field": field, "request": toks, "unit": "SI", "type": None, "norm": True}
                yield {"field": field, "request": toks, "unit": "SI", "type": "curve", "norm": True}
    for field, a, rest in (("one", "freqs", []), ("square", "freqs", ["angle[1]"]), ("square", "freqs", ["angle=sum"]), ("spectrum", "freqs", []), ("freqs-wavenumber", "freqs", ["wavenumber[1]"]), ("per-anti", "freqs", ["angle[1]"])):
        E = make(field).get_magnitude_along(a, *rest)[a]
        for harmonic in E:
            for shift in (0.0, 0.4, -0.4):
                at = float(harmonic + shift * (E[1] - E[0]))
                yield {"field": field, "request": [a] + rest, "unit": "SI", "type": None, "fundamental": at}


def overall_cases(tier):
    for field, names in FIELDS.items():
        if len(names) < 2 or len(names) > 3:
            continue
        for toks in requests(field, len(names) == 2):
            for m in (1, 2):
                for over in itertools.combinations([a for a in names if a != root(toks[0]) and {"freqs": "time", "wavenumber": "angle"}.get(root(toks[0])) != a], m):
                    if any("=" in t and "=[" not in t for t in toks):
                        continue
                    for unit in ("SI", "dB"):
                        yield {"field": field, "request": toks, "unit": unit, "type": None, "overall": list(over)}


def spaces():
    return [
        Space("plain", plain_cases, run, "19 fields of one to four axes, every combination and order of about 15 requests per axis, units SI, mT, dB"),
        Space("types", type_cases, run, "six kinds of plots of every combination of about 4 requests per axis, units SI and dB"),
        Space("compare", compare_cases, run, "two fields in one plot, with and without legends; figure, axes, both or none given"),
        Space("pairs", pair_cases, run, "comparison with a field of other lengths or of a single component"),
        Space("options", option_cases, run, "every combination of limits, normalization, and every highlighted harmonic"),
        Space("overall", overall_cases, run, "overall curve over one or two other axes"),
    ]


ASSUMPTIONS = [
    "plots of complex values, of more than one list, and of a request the extraction rejects are not judged",
    "legends and titles write coordinates with three digits",
]
