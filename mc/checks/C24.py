"""Pattern axes answer like the axis with all its samples written out."""
import itertools

import numpy as np

from ..core import LibraryError, Space

TECHNIQUE = (
    "exhaustive enumeration of patterns, positions in the field and requests on the real classes, each "
    "compared with plain operations on the samples written out at all coordinates"
)

PHYS = ("time", "angle", "z")
OPS = ["max", "min", "sum", "mean", "rms", "rss", "integrate", "antiderivate", "derivate", "integrate_local"]


# --------------------------------------------------------------------------
# patterns: {"whole": coordinates, "map": sample of each coordinate, "step": bool}
# --------------------------------------------------------------------------
def surjections(n, m):
    for c in itertools.product(range(m), repeat=n):
        if len(set(c)) == m:
            yield list(c)


def step_patterns(pieces, big):
    edges = [[-1.0, 0.0], [-1.0, 0.0, 1.0], [-1.0, 0.0, 1.0, 3.0], [-2.0, -1.0, 0.5, 1.0, 2.0]][pieces - 1]
    whole = []
    for a, b in zip(edges, edges[1:]):
        whole += [a, b]
    for m in range(1, pieces + 1):
        for c in surjections(pieces, m):
            yield {"whole": whole, "map": [s for s in c for _ in (0, 1)], "step": True}


def point_patterns(n, big):
    whole = [0.0, 0.5, 1.0, 1.5, 2.0, 2.5][:n]
    for m in range(1, n + 1):
        for c in surjections(n, m):
            yield {"whole": whole, "map": c, "step": False}


def special_patterns():
    # points with double coordinates holding the same sample
    yield {"whole": [-5.0, -3.0, -3.0, -1.0, -1.0, 0.0, 1.0, 1.0, 3.0, 3.0, 5.0],
           "map": [0, 1, 1, 2, 2, 3, 2, 2, 1, 1, 0], "step": False}
    # uneven points
    yield {"whole": [0.0, 1.0, 3.0, 4.0], "map": [0, 1, 1, 0], "step": False}
    # steps given by their starting points
    yield {"whole": [-1.0, 0.0, 2.0], "map": [0, 1, 0], "step": True}
    yield {"whole": [0.25, 0.25, 1.0, 1.0], "map": [0, 0, 1, 1], "step": True}


def pattern_axis(p, name, unit="m"):
    from SciDataTool import DataPattern

    m = max(p["map"]) + 1
    unique = [p["map"].index(s) for s in range(m)]
    return DataPattern(
        name=name,
        unit=unit,
        values=np.array([p["whole"][i] for i in unique]),
        values_whole=np.array(p["whole"]),
        rebuild_indices=list(p["map"]),
        unique_indices=unique,
        is_step=p["step"],
    )


UNITS = {"z": ("m", "mm", 1000.0), "time": ("s", "ms", 1000.0), "angle": ("rad", "°", 180 / np.pi), "slice": ("m", "mm", 1000.0)}


# --------------------------------------------------------------------------
# requests on the pattern axis
# --------------------------------------------------------------------------
def tokens(p, name, level):
    whole = p["whole"]
    n = len(whole)
    yield ["whole"]
    yield ["pattern"]
    yield ["smallestperiod"]
    yield ["omit"]
    yield ["unit"]
    for i in range(n):
        yield ["idx", i]
    for op in OPS:
        yield ["op", op]
    if level == "short":
        yield ["list", n - 1, 0]
        yield ["interval", whole[0], whole[-1]]
        yield ["data", "all"]
        yield ["data", "between"]
        yield ["single", whole[-1]]
        return
    for a in range(n):
        for b in range(n):
            yield ["list", a, b]
    for a in range(n):
        for b in range(a + 1, n + 1):
            yield ["range", a, b]
    marks = sorted(set(whole))
    marks = sorted(set(marks + [(a + b) / 2 for a, b in zip(marks, marks[1:])]))
    for a in marks:
        yield [">", a]
        yield ["<", a]
        yield ["single", a]
        for b in marks:
            if b >= a:
                yield ["interval", a, b]
    yield ["single", marks[0] - 1.0]
    yield ["single", marks[-1] + 1.0]
    for kind in ("all", "between", "subset", "outside", "one", "two", "reversed", "turned", "twice", "whole"):
        yield ["data", kind]
    for a, b, c in itertools.combinations(marks, 3):
        yield ["points", a, b, c]


def data_of(p, kind):
    marks = sorted(set(p["whole"]))
    mid = [(a + b) / 2 for a, b in zip(marks, marks[1:])]
    if kind == "all":
        return sorted(marks + mid)
    if kind == "between":
        return mid or marks
    if kind == "subset":
        return marks[::2]
    if kind == "outside":
        return [marks[0] - 1.0] + marks + [marks[-1] + 1.0]
    if kind == "turned":
        return marks[::-1]
    if kind == "twice":
        return marks[:1] + marks + marks[-1:]
    if kind == "whole":
        return list(p["whole"])
    if kind == "one":
        return [mid[0]] if mid else [marks[0]]
    if kind == "two":
        return [marks[0], marks[-1]]
    return sorted(marks + mid, reverse=True)


def text(name, t):
    kind = t[0]
    if kind == "whole":
        return name
    if kind in ("pattern", "smallestperiod"):
        return "%s[%s]" % (name, kind)
    if kind == "unit":
        return "%s{%s}" % (name, UNITS[name][1])
    if kind == "idx":
        return "%s[%d]" % (name, t[1])
    if kind == "list":
        return "%s[%d,%d]" % (name, t[1], t[2])
    if kind == "range":
        return "%s[%d:%d]" % (name, t[1], t[2])
    if kind == "op":
        return "%s=%s" % (name, t[1])
    if kind in "<>":
        return "%s%s%r" % (name, kind, t[1])
    if kind == "single":
        return "%s=%r" % (name, t[1])
    if kind in ("interval", "points"):
        return "%s=[%s]" % (name, ",".join(repr(v) for v in t[1:]))
    return "%s=axis_data" % name


def step_value(xs, vals, x):
    """Value of the step function: half sum where two steps meet, ends extended."""
    at = [i for i, v in enumerate(xs) if v == x]
    if len(at) > 1:
        return vals[at].mean(axis=0)
    if x <= xs[0]:
        return vals[0]
    if x >= xs[-1]:
        return vals[-1]
    left = max(i for i, v in enumerate(xs) if v <= x)
    return vals[left]


def line_value(xs, vals, x):
    if x in xs:
        return vals[list(xs).index(x)]
    # straight line of the two samples around, end segments extended
    if x < xs[0]:
        i, j = 0, next(k for k in range(len(xs)) if xs[k] > xs[0])
        i = j - 1
    elif x > xs[-1]:
        i = max(k for k in range(len(xs)) if xs[k] < xs[-1])
        j = i + 1
    else:
        j = next(k for k in range(len(xs)) if xs[k] > x)
        i = j - 1
    w = (x - xs[i]) / (xs[j] - xs[i])
    return vals[i] * (1 - w) + vals[j] * w


def trapezoid(xs, vals):
    tot = np.zeros(vals.shape[1:], dtype=vals.dtype)
    for i in range(len(xs) - 1):
        tot = tot + (vals[i] + vals[i + 1]) / 2 * (xs[i + 1] - xs[i])
    return tot


def answer(p, name, t, vals):
    """(coordinates or operation, values) of the request on samples written out along the first axis;
    None when the request has no meaning on such an axis."""
    xs = np.array(p["whole"])
    kind = t[0]
    n = len(xs)
    if kind == "whole":
        return xs, vals
    if kind in ("pattern", "smallestperiod"):
        first = [p["map"].index(s) for s in range(max(p["map"]) + 1)]
        return xs[first], vals[first]
    if kind == "omit":
        return None, vals[:1]
    if kind == "unit":
        return xs * UNITS[name][2], vals
    if kind == "idx":
        return xs[[t[1]]], vals[[t[1]]]
    if kind == "list":
        return xs[t[1:]], vals[t[1:]]
    if kind == "range":
        return xs[t[1] : t[2]], vals[t[1] : t[2]]
    if kind == ">":
        keep = [i for i in range(n) if xs[i] >= t[1]]
        return xs[keep], vals[keep]
    if kind == "<":
        keep = [i for i in range(n) if xs[i] <= t[1]]
        return xs[keep], vals[keep]
    if kind == "interval":
        keep = [i for i in range(n) if t[1] <= xs[i] <= t[2]]
        return (xs[keep], vals[keep]) if keep else None
    if kind in ("single", "points", "data"):
        points = data_of(p, t[1]) if kind == "data" else t[1:]
        if points == p["whole"] and len(points) > 1:
            out = list(vals)  # both sides of each step
        elif p["step"]:
            out = [step_value(xs, vals, x) for x in points]
        elif len(points) == 1:
            x = points[0]
            if x < min(xs) or x > max(xs):
                out = [np.full(vals.shape[1:], np.nan)]
            else:
                d = np.abs(xs - x)
                near = [i for i in range(n) if d[i] <= d.min() * (1 + 1e-9)]
                if len({p["map"][i] for i in near}) > 1:
                    return None  # two samples at the same distance
                out = [vals[near[0]]]
        else:
            if len(set(xs)) == 1:
                return None
            out = [line_value(xs, vals, x) for x in points]
        return np.array(points), np.array(out)
    op = t[1]
    single = len(xs) == 1
    phys = name in PHYS and not single
    if op in ("max", "min"):
        return op, getattr(np, op)(vals, axis=0)[None]
    if op == "sum":
        return op, vals.sum(axis=0)[None]
    extent = xs.max() - xs.min()
    if op in ("mean", "rms", "rss"):
        base = vals if op == "mean" else np.abs(vals) ** 2
        if phys:
            tot = trapezoid(xs, base)
            tot = tot if op == "rss" else tot / extent
        else:
            tot = base.sum(axis=0) if op == "rss" else base.mean(axis=0)
        return op, (tot if op == "mean" else np.sqrt(tot))[None]
    if name not in PHYS or single:
        return None  # rejected for any axis of that kind
    if op == "integrate":
        return op, trapezoid(xs, vals)[None]
    if op == "antiderivate":
        out = np.array([trapezoid(xs[: i + 1], vals[: i + 1]) for i in range(n)])
        return xs, out - out.mean(axis=0)
    if op == "derivate":
        if (np.diff(xs) == 0).any():
            return None
        return xs, np.gradient(vals, xs, axis=0)
    if op == "integrate_local" and name == "z":
        keep = [i for i in range(n - 1) if xs[i + 1] > xs[i]]
        mid = np.array([(xs[i] + xs[i + 1]) / 2 for i in keep])
        return mid, np.array([(vals[i] + vals[i + 1]) / 2 * (xs[i + 1] - xs[i]) for i in keep])
    return None


# --------------------------------------------------------------------------
# fields
# --------------------------------------------------------------------------
def other_axis(o):
    from SciDataTool import DataLinspace

    kw = {}
    if o.get("sym"):
        kw["symmetries"] = {o["sym"][0]: o["sym"][1]}
    return DataLinspace(
        name=o["name"], unit=UNITS.get(o["name"], ("m",))[0], initial=0, final=o["n"] * 0.25,
        number=o["n"], include_endpoint=False, **kw
    )


def field_of(case):
    """Field stored on the pattern(s), and its samples written out."""
    from SciDataTool import DataTime, DataND

    axes, shape = [], []
    for a in case["axes"]:
        if "map" in a:
            axes.append(pattern_axis(a, a["name"], UNITS[a["name"]][0]))
            shape.append(max(a["map"]) + 1)
        else:
            axes.append(other_axis(a))
            shape.append(a["n"])
    size = int(np.prod(shape))
    vals = np.array([((5 * i * i + 3 * i) % 17) - 4.5 + 0.25 * i for i in range(size)]).reshape(shape)
    full = vals
    for i, a in enumerate(case["axes"]):
        if "map" in a:
            full = np.take(full, a["map"], axis=i)
        elif a.get("sym"):
            kind, k = a["sym"]
            full = np.concatenate([full * ((-1) ** j if kind == "antiperiod" else 1) for j in range(k)], axis=i)
    cls = DataTime if any(a["name"] == "time" for a in case["axes"]) else DataND
    return cls(name="f", symbol="X", unit="T", axes=axes, values=vals), vals, full


def other_text(name, t):
    if t == "whole":
        return name
    if t == "idx":
        return name + "[1]"
    return "%s=%s" % (name, t)


def run(ctx, case):
    field, vals, full = field_of(case)
    before = vals.copy()
    args, data = [], {}
    want = full
    coords = {}
    # selections and interpolations of each axis do not depend on each other
    for i, (a, t) in enumerate(zip(case["axes"], case["tokens"])):
        name = a["name"]
        if "map" not in a:
            if t == "omit":
                want = np.take(want, [0], axis=i)
                continue
            args.append(other_text(name, t))
            if t == "idx":
                want = np.take(want, [1], axis=i)
            elif t in ("sum", "max"):
                want = getattr(np, t)(want, axis=i, keepdims=True)
            continue
        if t[0] == "data":
            data[name] = np.array(data_of(a, t[1]))
        if t[0] != "omit":
            args.append(text(name, t))
        got = answer(a, name, t, np.moveaxis(want, i, 0))
        if got is None:
            return
        if got[0] is not None:
            coords[name] = got[0]
        want = np.moveaxis(got[1], 0, i)
    if not args:
        return
    ctx.state("pattern", case)
    sig = "+".join(
        "%s%s" % ("step:" if a["step"] else "point:", t[1] if t[0] in ("op", "data") else t[0])
        for a, t in zip(case["axes"], case["tokens"])
        if "map" in a
    )
    kw = {"axis_data": data} if data else {}
    order = list(reversed(args)) if case.get("turn") else args
    got = ctx.call(field.get_along, *order, is_squeeze=False, **kw)
    if isinstance(got, LibraryError):
        ctx.require(sig, False, "%s %s %r" % (args, data, got))
        return
    ctx.agree(sig, got["X"], want)
    for name, xs in coords.items():
        if isinstance(xs, str):
            ctx.require(sig + ":coord", isinstance(got[name], str) and got[name] == xs, repr(got[name]))
        else:
            ctx.agree(sig + ":coord", got[name], xs)
    for a, t in zip(case["axes"], case["tokens"]):
        if "map" in a and t[0] == "omit":
            other = got["axes_dict_other"].get(a["name"])
            ctx.require(
                sig + ":unmentioned",
                other is not None and other[0] == a["whole"][0],
                "unmentioned axis reported as %r" % (other,),
            )
    ctx.agree("stored", field.values, before)
    # extraction
    sub = ctx.call(field.get_data_along, *order, **kw)
    if isinstance(sub, LibraryError):
        ctx.require(sig + ":extract", False, "%s %s %r" % (args, data, sub))
        return
    ctx.agree(sig + ":extract", np.squeeze(sub.values), np.squeeze(want))


PLAIN = [{"name": "time", "n": 3}]


def sets(tier):
    """Patterns, simplest first."""
    big = tier == "thorough"
    out = []
    for pieces in (1, 2, 3, 4) if big else (1, 2, 3):
        out += list(step_patterns(pieces, big))
    for n in (1, 2, 3, 4, 5) if big else (1, 2, 3, 4):
        out += list(point_patterns(n, big))
    return out + list(special_patterns())


def alone(tier):
    for p in sets(tier):
        for name in ("z", "slice", "time", "angle"):
            if name in ("time", "angle") and len(p["whole"]) > 4 and tier != "thorough":
                continue
            a = dict(p, name=name)
            for t in tokens(p, name, "full"):
                yield {"axes": [a], "tokens": [t]}


def together(tier):
    big = tier == "thorough"
    for p in sets(tier):
        if len(p["map"]) > 4 and not big and len(set(p["map"])) == len(p["map"]):
            continue
        for name in ("z", "slice", "angle"):
            if not big and name != "z" and len(p["map"]) > 4:
                continue
            a = dict(p, name=name)
            for sym in (None, ["antiperiod", 2], ["period", 3]):
                o = {"name": "time", "n": 3, "sym": sym}
                for axes in ([o, a], [a, o]):
                    for ot in ("whole", "idx", "omit", "max"):
                        if sym and ot == "max":
                            continue
                        for t in tokens(p, name, "short" if (sym or ot != "whole") else "full"):
                            # extrema do not commute with the other operations
                            if ot == "max" and t[0] in ("op", "points", "data", "single"):
                                continue
                            toks = [ot, t] if axes[0] is o else [t, ot]
                            yield {"axes": axes, "tokens": toks}
                            if sym is None and ot == "whole":
                                yield {"axes": axes, "tokens": toks, "turn": True}


def triple(tier):
    """Three axes, the pattern anywhere."""
    few = [p for p in sets("quick") if len(p["map"]) in (3, 4)][:: 1 if tier == "thorough" else 3]
    for p in few:
        a = dict(p, name="z")
        t0, an = {"name": "time", "n": 2}, {"name": "angle", "n": 3, "sym": ["antiperiod", 2]}
        for axes in itertools.permutations([t0, an, a]):
            for tt, ta in itertools.product(("whole", "idx", "omit"), ("whole", "idx", "omit")):
                for t in tokens(p, "z", "short"):
                    toks = [t if "map" in x else (tt if x is t0 else ta) for x in axes]
                    yield {"axes": list(axes), "tokens": toks}


LINEAR = ("sum", "mean", "integrate", "antiderivate", "derivate", "integrate_local")


def double(tier):
    """Two pattern axes."""
    big = tier == "thorough"
    few = [p for p in sets("quick") if 2 <= len(p["map"]) <= (6 if big else 4)]
    small = few[:: 3 if big else 9]
    for p, q in itertools.product(small, small):
        for (n0, n1) in (("z", "slice"), ("slice", "z")):
            for t0 in tokens(p, n0, "short"):
                for t1 in tokens(q, n1, "short"):
                    if t0[0] == "op" and t1[0] == "op" and not (t0[1] in LINEAR and t1[1] in LINEAR):
                        continue
                    if "op" in (t0[0], t1[0]):
                        # interpolating and non linear operations: interpolation comes first
                        op, rest = (t0, t1) if t0[0] == "op" else (t1, t0)
                        if op[1] not in LINEAR and rest[0] in ("single", "data"):
                            continue
                    yield {"axes": [dict(p, name=n0), dict(q, name=n1)], "tokens": [t0, t1]}


# --------------------------------------------------------------------------
# other views of the same field
# --------------------------------------------------------------------------
def run_views(ctx, case):
    """Spectra, transforms, lengths and copies of a field on a pattern axis."""
    from SciDataTool import Data1D

    field, vals, full = field_of(case)
    i = next(k for k, a in enumerate(case["axes"]) if "map" in a)
    a = case["axes"][i]
    axis = field.axes[i]
    ctx.state("views", case)
    ctx.agree("length", ctx.call(axis.get_length), len(a["whole"]))
    ctx.agree("length:pattern", ctx.call(axis.get_length, is_pattern=True), vals.shape[i])
    ctx.agree("length:smallest", ctx.call(axis.get_length, is_smallestperiod=True), vals.shape[i])
    ctx.agree("coordinates", ctx.call(axis.get_values), np.array(a["whole"]))
    unit, other, k = UNITS[a["name"]]
    ctx.agree("coordinates:unit", ctx.call(axis.get_values, unit=other), np.array(a["whole"]) * k)
    # same field with the samples written out
    axes = list(field.axes)
    axes[i] = Data1D(name=a["name"], unit=unit, values=np.array(a["whole"]))
    stored = np.take(vals, a["map"], axis=i)
    plain = type(field)(name="f", symbol="X", unit="T", axes=axes, values=stored)
    names = [x["name"] for x in case["axes"]]
    swap = {"time": "freqs", "angle": "wavenumber"}
    for j, n in enumerate(names):
        if n not in swap:
            continue
        if j == i and (a["whole"][0] != 0 or len({round(d, 9) for d in np.diff(a["whole"])}) != 1):
            continue  # spectra need even samples
        args = [swap[n] if m == n else m for m in names]
        for fn in ("get_along", "get_magnitude_along", "get_phase_along"):
            got = ctx.call(getattr(field, fn), *args, is_squeeze=False)
            ref = ctx.call(getattr(plain, fn), *args, is_squeeze=False)
            if isinstance(got, LibraryError) or isinstance(ref, LibraryError):
                ctx.require("spectrum", isinstance(got, LibraryError) and isinstance(ref, LibraryError), repr(got))
                continue
            ctx.agree("spectrum:" + fn, got["X"], ref["X"])
            for m in args:
                ctx.agree("spectrum:coord", got[m], ref[m])
    if "time" in names and names.index("time") != i:
        got = ctx.call(field.time_to_freq)
        ref = ctx.call(plain.time_to_freq)
        if isinstance(got, LibraryError) or isinstance(ref, LibraryError):
            ctx.require(
                "time_to_freq", isinstance(got, LibraryError) and isinstance(ref, LibraryError), "%r / %r" % (got, ref)
            )
        else:
            args = [x.name for x in ref.axes]
            ctx.require("time_to_freq:axes", [x.name for x in got.axes] == args, repr([x.name for x in got.axes]))
            for req in (args, ["time" if m == "freqs" else m for m in args]):
                u, v = ctx.call(got.get_along, *req), ctx.call(ref.get_along, *req)
                if isinstance(u, LibraryError) or isinstance(v, LibraryError):
                    ctx.require("time_to_freq:request", False, "%s %r / %r" % (req, u, v))
                    continue
                ctx.agree("time_to_freq", u["X"], v["X"])
                for m in req:
                    ctx.agree("time_to_freq:coord", u[m], v[m])
    for unit in ("dB", "mT"):
        got = ctx.call(field.get_magnitude_along, *names, unit=unit, is_squeeze=False)
        ref = ctx.call(plain.get_magnitude_along, *names, unit=unit, is_squeeze=False)
        if isinstance(got, LibraryError) or isinstance(ref, LibraryError):
            ctx.require("magnitude", False, "%r / %r" % (got, ref))
        else:
            ctx.agree("magnitude:" + unit, got["X"], ref["X"])


def views(tier):
    for p in sets(tier):
        for name in ("z", "slice", "angle"):
            a = dict(p, name=name)
            for sym in (None, ["antiperiod", 2], ["period", 2]):
                for n in (3, 4):
                    o = {"name": "time", "n": n, "sym": sym}
                    yield {"axes": [o, a], "tokens": []}
                    yield {"axes": [a, o], "tokens": []}
    for p in [p for p in sets("quick") if len(p["map"]) < 5]:
        a = dict(p, name="z")
        for axes in itertools.permutations([{"name": "time", "n": 3}, {"name": "angle", "n": 4, "sym": ["period", 2]}, a]):
            yield {"axes": list(axes), "tokens": []}


def spaces():
    return [
        Space("alone", alone, run,
              "every map of 1-4 points or 1-3 steps to its samples (5 and 4 thorough), 4 axis names, every index, "
              "pair, range, interval, single value, list of points, interpolation and operation"),
        Space("together", together, run,
              "the same patterns with a second axis without symmetry, periodic or anti-periodic, both orders, "
              "4 requests of the second axis"),
        Space("triple", triple, run, "three axes, the pattern in any position, 9 requests of the other axes"),
        Space("double", double, run, "two pattern axes, all pairs of requests"),
        Space("views", views, run_views,
              "lengths, coordinates, spectra, magnitudes, levels and transformed fields of every pattern"),
    ]
