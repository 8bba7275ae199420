"""Exported files contain the requested values.

Every exported file is read back as a table from coordinates to values and
compared with the extraction of the same request.
"""
import csv
import itertools
import os
import re
import shutil
import tempfile

import numpy as np

from .. import core, model
from ..core import LibraryError, Space
from . import C01, C19

NAMES = {"axial direction": "z", "frequency": "freqs", "load cases": "loadcases"}
OPS = ("sum", "mean", "max", "rms")


def make(name):
    from SciDataTool import Data1D, DataLinspace, DataPattern, DataTime

    ax = model.axis
    if name in C19.SYM_FIELD:
        return C19.make(name)
    if name == "square":
        return C01.with_norms(model.build_field({"axes": [ax("time", 3, None, h=0.5), ax("angle", 3, None, h=0.25)], "cplx": False}))
    if name == "cube":
        return model.build_field({"axes": [ax("angle", 3, None, h=0.5), ax("z", 3, None, x0=-1.0), ax("time", 3, None, h=0.25)], "cplx": False})
    if name == "small":
        return model.build_field({"axes": [ax("time", 4, ["antiperiod", 2]), ax("angle", 2, None, h=np.pi / 2), ax("z", 3, None, x0=-1.0)], "cplx": False})
    if name == "four":
        return model.build_field({"axes": [ax("time", 2, None), ax("angle", 2, None, h=0.5), ax("z", 3, None, x0=-1.0), ax("x", 2, None, kind="1d", x=[0.0, 3.0])], "cplx": False})
    if name == "first":
        c = Data1D(name="phase", unit="", values=["Phase A", "Phase B", "Phase C"], is_components=True)
        t = model.build_axis(ax("time", 3, None))
        return DataTime(name="Test field", symbol="X", unit="A", axes=[c, t], values=model.raw_values((3, 3)))
    if name == "overlay":
        c = Data1D(name="phase", unit="", values=["Phase A", "Phase B", "Phase C"], is_components=True, is_overlay=True)
        t = model.build_axis(ax("time", 3, ["period", 2]))
        return DataTime(name="Test field", symbol="X", unit="A", axes=[t, c], values=model.raw_values((3, 3)))
    if name == "single":
        return model.build_field({"axes": [ax("time", 1, None), ax("angle", 4, None, h=0.5)], "cplx": False})
    if name == "no-ref":
        f = make("square")
        f.normalizations = {}
        return f
    if name == "named":
        f = make("square")
        f.name = "Force for test, in detail"
        return f
    return C01.make(name)


FIELDS = {
    "one": ["time"],
    "spectrum": ["freqs"],
    "square": ["time", "angle"],
    "no-ref": ["time", "angle"],
    "named": ["time", "angle"],
    "anti-per": ["time", "angle"],
    "per-anti": ["angle", "time"],
    "single": ["time", "angle"],
    "complex": ["time", "x"],
    "freqs-wavenumber": ["freqs", "wavenumber"],
    "components": ["time", "phase"],
    "first": ["phase", "time"],
    "overlay": ["time", "phase"],
    "pattern": ["time", "z"],
    "dual-time": ["time", "angle"],
    "order-speed": ["speed", "order"],
    "small": ["time", "angle", "z"],
    "cube": ["angle", "z", "time"],
    "four": ["time", "angle", "z", "x"],
}


def tokens(field, a, make=make):
    f = make(field)
    ax = [x for x in f.get_axes() if x.name == a][0]
    c = np.asarray(ax.get_values())
    n = len(c)
    out = [a, a + "[0]"]
    if n > 1:
        out += [a + "[1,0]"]
    if c.dtype.kind in "US":
        return out + [a + "[]", a + "=sum", a + "[0,1,2]"]
    if n > 1:
        out += ["%s=%r" % (a, float(c[1]))]
    if n > 2 and (field, a) != ("pattern", "z"):
        out += ["%s=[%r,%r,%r]" % (a, float(c[0]), float(c[2]), float(c[1])), "%s=[%r,%r]" % (a, float(c[0]), float(c[1])), "%s[0,1,2]" % a]
    out += ["%s=%s" % (a, op) for op in OPS]
    if (field, a) != ("pattern", "z"):
        out += [a + "[oneperiod]", a + "[smallestperiod]"]
    else:
        out += [a + "[pattern]"]
    if a in C19.UNITS:
        out += ["%s{%s}" % (a, C19.UNITS[a]), "%s[0]{%s}" % (a, C19.UNITS[a]), "%s[1,0]{%s}" % (a, C19.UNITS[a])][: 3 if n > 1 else 2]
    if "nref" in ax.normalizations:
        out += [a + "->nref"]
    if n > 2 and a in ("time", "angle"):
        fft = {"time": "freqs", "angle": "wavenumber"}[a]
        out += [fft, fft + "[1]", fft + "[0,1]"] + (["freqs{kHz}"] if a == "time" else [])
    return out


def few(field, a, make=make):
    """A shorter list, for fields with many axes."""
    f = make(field)
    ax = [x for x in f.get_axes() if x.name == a][0]
    c = np.asarray(ax.get_values())
    return [a, a + "[1]", a + "[1,0]", a + "=sum"] + ([a + "{%s}" % C19.UNITS[a]] if a in C19.UNITS else [])


root = C19.root
FFT = ("freqs", "wavenumber")


def number(text):
    try:
        return float(text)
    except ValueError:
        try:
            return complex(text)
        except ValueError:
            return text


def same_number(a, b, rtol=1e-9):
    if isinstance(a, str) or isinstance(b, str):
        return str(a) == str(b)
    if np.isnan(a) and np.isnan(b):
        return True
    return abs(a - b) <= rtol * abs(b) + 1e-12


def same_unit(label, want):
    plain = ("", "SI", "dimless")
    return label == want or (label in plain and want in plain)


def expected(f, toks, unit, data, magnitude):
    get = f.get_magnitude_along if magnitude else f.get_along
    E = get(*toks, unit=unit, axis_data=data)
    E["kind"] = {}
    return E


def axis_unit(f, tok):
    """Unit of the coordinates of a request."""
    if "{" in tok:
        return tok.split("{")[1].strip("}")
    if "->" in tok:
        return re.split(r"[\[=]", tok.split("->")[1])[0]
    n = root(tok)
    for k in ("axes", "axes_dt", "axes_df"):
        for x in getattr(f, k, None) or []:
            if x.name == n:
                return x.unit
    return {"freqs": "Hz", "wavenumber": "dimless"}[n]


def read(path):
    with open(path, newline="") as fh:
        return list(csv.reader(fh))


def slices_of(text):
    """name=value statements of the first line."""
    text = text.replace("sliced at ", "")
    out = {}
    for part in re.split(r", (?=[A-Za-z ]+=)", text):
        if "=" in part:
            name, value = part.split("=", 1)
            out[name.strip()] = value.strip()
    return out


def run(ctx, case):
    field, toks, unit, is_2D, multi = case["field"], case["request"], case["unit"], case["is_2D"], case["multi"]
    f = make(field)
    what = str(case)
    folder = tempfile.mkdtemp(dir=core.scratch_dir())
    try:
        judge(ctx, f, field, toks, unit, is_2D, multi, folder, what)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def judge(ctx, f, field, toks, unit, is_2D, multi, folder, what):
    ctx.state(field, toks, unit, is_2D, multi)
    asked = list(toks)
    if not toks:
        asked = [x.name + ("[pattern]" if type(x).__name__ == "DataPattern" else "[oneperiod]") for x in f.get_axes()]
    fft = any(w in t for t in asked for w in FFT)
    res = ctx.call(f.export_along, *toks, unit=unit, is_2D=is_2D, save_path=folder, is_multiple_files=multi)
    mode = "2D" if is_2D else "table"
    # what the request returns
    E = ctx.call(expected, make(field), asked, unit, {}, fft or (is_2D and "dB" in unit))
    if isinstance(E, LibraryError):
        ctx.require("rejects:" + mode, isinstance(res, LibraryError) and not os.listdir(folder), "%s: %s although the request is rejected" % (what, core.show(res)))
        return
    axes = [k for k in E if k not in (f.symbol, "axes_list", "axes_dict_other", "kind")]
    size = {a: 1 if isinstance(E[a], str) else len(np.atleast_1d(E[a])) for a in axes}
    long = [a for a in axes if size[a] > 1]
    curve = is_2D and asked and size[root(asked[0])] > 1 and not isinstance(E[root(asked[0])], str)
    if curve:
        others = [a for a in long if a != root(asked[0])]
        lists = [t for t in asked if root(t) in others and is_list(f, t)]
        curve = len(others) == 0 or len(others) == 1 and len(lists) == 1
    if curve and any(t.startswith("wavenumber") and "[" not in t and "=" not in t for t in asked):
        E = ctx.call(expected, make(field), [t.replace("wavenumber", "wavenumber>0") if "[" not in t and "=" not in t else t for t in asked], unit, {}, True)
    if len(long) > 3 or (len(long) == 3 and not multi):
        ctx.require("too-many:" + mode, isinstance(res, LibraryError), what + ": accepted")
        ctx.require("too-many:" + mode, not os.listdir(folder), what + ": left a file")
        return
    if not ctx.require("exports:" + mode, not isinstance(res, LibraryError), "%s: %s" % (what, res)):
        return
    files = sorted(os.listdir(folder))
    values = np.asarray(E[f.symbol]).reshape([len(np.atleast_1d(E[a])) for a in long])
    coords = {a: [number(clean(x)) if isinstance(x, str) else x for x in np.atleast_1d(E[a]).tolist()] for a in long}
    if len(long) < 3:
        if not ctx.require("files:" + mode, files == [f.symbol + "_Data.csv"], "%s: files %s" % (what, files)):
            return
        table(ctx, f, read(os.path.join(folder, files[0])), asked, E, axes, long, coords, values, unit, mode if curve else "table", what, None)
    else:
        if not ctx.require("files:" + mode, len(files) == len(coords[long[2]]), "%s: files %s" % (what, files)):
            return
        seen = []
        for name in files:
            seen.append(table(ctx, f, read(os.path.join(folder, name)), asked, E, axes, long, coords, values, unit, "table", what, long[2]))
        ctx.require("files:all", sorted(map(str, seen)) == sorted(map(str, range(len(coords[long[2]])))), "%s: files for %s" % (what, seen))


def clean(text):
    for c in "${}":
        text = text.replace(c, "")
    return text


def is_list(f, t):
    inside = re.search(r"\[([^\]]*)\]", t)
    ax = [x for x in f.get_axes() if x.name == root(t)]
    if ax and ax[0].is_components and ax[0].is_overlay and root(t) == t:
        return True
    if not inside or root(t) in FFT and False:
        return False
    if "=[" in t:
        return inside.group(1).count(",") >= 2
    return "," in inside.group(1) or inside.group(1) == ""


def table(ctx, f, rows, asked, E, axes, long, coords, values, unit, mode, what, third):
    sig = mode + ":"
    label = f.unit if unit == "SI" else unit
    if "dB" in unit:
        ref = f.normalizations["ref"].ref if "ref" in f.normalizations else 1.0
        label = "%s re. %s %s" % (unit, ref, f.unit)
    ctx.require(sig + "title", len(rows) >= 2 and rows[0][:3] == [f.symbol, f.name, "[" + label + "]"], "%s: first line %s" % (what, rows[:1]))
    tok = {root(t): t for t in asked}
    slices = slices_of(rows[0][3] if mode == "table" else rows[0][3])
    slices = {NAMES.get(k, k): v for k, v in slices.items()}
    rtol = 1e-9 if mode == "table" else 6e-3
    for a in axes:
        if a in long and a != third:
            continue
        if isinstance(E[a], str):
            if mode == "table":
                ctx.require(sig + "slices", slices.get(a) == E[a], "%s: %s along %s not in %s" % (what, E[a], a, rows[0][3]))
        elif a != third and len(axes) > 1:
            got = re.sub(r"[\[(].*", "", slices.get(a, "")).strip()
            want = np.atleast_1d(E[a]).tolist()[0]
            if mode == "2D" and any(isinstance(E[b], str) for b in axes):
                continue
            ctx.require(sig + "slices", same_number(number(got), want if not isinstance(want, str) else number(want), rtol), "%s: %s=%s not in %s" % (what, a, want, rows[0][3]))
    for a, v in (E["axes_dict_other"] or {}).items():
        got = re.sub(r"[\[(].*", "", slices.get(a, "")).strip()
        want = np.atleast_1d(v[0]).tolist()[0]
        ctx.require(sig + "slices", same_number(number(got), number(want) if isinstance(want, str) else want, rtol), "%s: %s=%s not in %s" % (what, a, want, rows[0][3]))
    shown = [a for a in long if a != third]
    k = None
    if third is not None:
        got = number(re.sub(r"[\[(].*", "", slices.get(third, "")).strip())
        hit = [i for i, c in enumerate(coords[third]) if same_number(got, c)]
        if not ctx.require(sig + "third", len(hit) == 1, "%s: %s in %s" % (what, third, rows[0])):
            return None
        k = hit[0]
        values = values[:, :, k]
    head, body = rows[1], rows[2:]
    if not shown:
        flat = [x for r in body for x in r]
        ctx.require(sig + "values", len(flat) >= 1 and same_number(number(flat[-1]), values.reshape(-1).tolist()[0]), "%s: %s" % (what, rows))
        return k
    if mode == "2D":
        x = root(asked[0])
        units = re.findall(r"\[([^\]]*)\]", head[0].split("/")[0])
        ctx.require(sig + "axis-unit", same_unit(units[0] if units else "", axis_unit(f, tok[x])) or "->" in tok[x], "%s: %s" % (what, head[0]))
        other = [a for a in shown if a != x]
        if x in shown and other:
            values = values if shown[0] == x else values.T
            names, cols = [x, other[0]], []
            for c in head[1:]:
                m = re.search(r"=\s*(.*)$", c)
                cols.append(m.group(1) if m else c)
            unit2 = axis_unit(f, tok[other[0]])
            for c, want in zip(cols, coords[other[0]]):
                if isinstance(want, str):
                    ctx.require(sig + "columns", c.strip() == want.strip(), "%s: column %r instead of %r" % (what, c, want))
                else:
                    parts = c.split()
                    ctx.require(sig + "columns", same_number(number(parts[0]), want, 6e-3), "%s: column %r instead of %r" % (what, c, want))
                    ctx.require(sig + "axis-unit", same_unit(" ".join(parts[1:]), unit2) or "->" in tok[other[0]], "%s: column %r, unit %s" % (what, c, unit2))
            ctx.require(sig + "columns", len(cols) == len(coords[other[0]]), "%s: columns %s" % (what, cols))
        else:
            values = values.reshape(-1, 1)
        first = coords[x]
    else:
        parts = re.findall(r"([^\[\]/]+)\[((?:[^\[\]])*)\]", head[0])
        names = [p[0] for p in parts]
        if not ctx.require(sig + "axes", sorted(names) == sorted(shown), "%s: axes %s in %r" % (what, shown, head[0])):
            return k
        for n, u in parts:
            ctx.require(sig + "axis-unit", same_unit(u, axis_unit(f, tok[n])), "%s: %s in [%s]" % (what, n, u))
        if len(shown) == 2:
            values = values if names == shown else values.T
            got = [number(c) for c in head[1:]]
            want = coords[names[1]]
            ctx.require(sig + "columns", len(got) == len(want) and all(same_number(a, b) for a, b in zip(got, want)), "%s: columns %s instead of %s" % (what, got, want))
        else:
            values = values.reshape(-1, 1)
        first = coords[names[0]]
    got = [number(r[0]) for r in body]
    ctx.require(sig + "rows", len(got) == len(first) and all(same_number(a, b) for a, b in zip(got, first)), "%s: rows %s instead of %s" % (what, got, first))
    got = [[number(c) for c in r[1:]] for r in body]
    want = values.tolist()
    ok = len(got) == len(want) and all(len(a) == len(b) and all(same_number(x, y) for x, y in zip(a, b)) for a, b in zip(got, want))
    ctx.require(sig + "values", ok, "%s: values %s instead of %s" % (what, core.show(got), core.show(want)))
    return k


def cases(tier):
    for field, names in FIELDS.items():
        full = len(names) <= 2 or tier == "thorough" and len(names) == 3
        per = [tokens(field, a) if full else few(field, a) for a in names]
        reqs = [()]
        for m in range(1, len(names) + 1):
            for sub in itertools.combinations(range(len(names)), m):
                for toks in itertools.product(*[per[i] for i in sub]):
                    orders = itertools.permutations(toks) if m <= 2 else [toks, toks[::-1]]
                    reqs += list(orders)
        f = make(field)
        for toks in reqs:
            units = ["SI"]
            if (full or all("=" not in t for t in toks)) and len(names) < 4:
                units += ["mT"] if f.unit == "T" else []
                units += ["dB"] if all("=" not in t or "=[" in t for t in toks) else []
            for unit in units:
                for is_2D in (True, False):
                    for multi in (False, True) if len(names) > 2 and not (len(toks) < 3 and toks) else (False,):
                        yield {"field": field, "request": list(toks), "unit": unit, "is_2D": is_2D, "multi": multi}


def spaces():
    return [Space("files", cases, run, "19 fields of one to four axes, every combination and order of about 15 requests per axis, units SI, mT, dB, table and curve formats, one or several files")]


ASSUMPTIONS = ["curves write the coordinates of slices and overlaid curves with three digits"]
