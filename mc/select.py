"""Reference semantics of the selection part of the request language.

A request on one axis is a JSON list:
    ["whole"] ["small"] ["one"] ["anti"] ["all"]
    ["idx", i] ["idxs", [i, ...]] ["rng", i, j]
    ["val", v] ["int", a, b] ["gt", a] ["lt", b]
    ["omit"]                      the axis is not mentioned
"""
import numpy as np

from . import model


def text(name, r):
    """The request string a user would write."""
    k = r[0]
    if k == "whole":
        return name
    if k == "small":
        return name + "[smallestperiod]"
    if k == "one":
        return name + "[oneperiod]"
    if k == "anti":
        return name + "[antiperiod]"
    if k == "all":
        return name + "[]"
    if k == "idx":
        return "%s[%d]" % (name, r[1])
    if k == "idxs":
        return "%s[%s]" % (name, ",".join(str(i) for i in r[1]))
    if k == "rng":
        return "%s[%d:%d]" % (name, r[1], r[2])
    if k == "val":
        return "%s=%r" % (name, r[1])
    if k == "int":
        return "%s=[%r,%r]" % (name, r[1], r[2])
    if k == "gt":
        return "%s>%r" % (name, r[1])
    if k == "lt":
        return "%s<%r" % (name, r[1])
    raise ValueError(k)


def pick(a, r, x=None):
    """(labels, indices into the full axis, out_of_range) selected by the request."""
    x = model.full_coords(a) if x is None else x
    m = len(x)
    k = r[0]
    if k in ("whole", "all"):
        idx = list(range(m))
    elif k in ("small", "anti"):
        idx = list(range(a["n"]))
    elif k == "one":
        idx = list(range(model.one_period(a)))
    elif k == "idx":
        idx = [r[1] % m]
    elif k == "idxs":
        idx = [i % m for i in r[1]]
    elif k == "rng":
        idx = list(range(r[1], r[2]))
    elif k == "val":
        if r[1] < x.min() or r[1] > x.max():
            return np.array([r[1]]), [0], True
        return np.array([r[1]]), [int(np.argmin(np.abs(x - r[1])))], False
    elif k == "int":
        idx = [i for i in range(m) if r[1] <= x[i] <= r[2]]
    elif k == "gt":
        idx = [i for i in range(m) if x[i] >= r[1]]
    elif k == "lt":
        idx = [i for i in range(m) if x[i] <= r[1]]
    elif k == "omit":
        idx = [0]
    else:
        raise ValueError(k)
    return x[idx], idx, False


def expected(f, reqs):
    """Expected {axis: labels}, values (not squeezed) of a selection request."""
    v = model.full_values(f)
    labels = {}
    other = {}
    for i, (a, r) in enumerate(zip(f["axes"], reqs)):
        lab, idx, out = pick(a, r)
        v = np.take(v, idx, axis=i)
        if out:
            v = v * np.nan
        if r[0] == "omit":
            other[a["name"]] = [model.full_coords(a)[0], a["unit"]]
        else:
            labels[a["name"]] = lab
    return labels, v, other


def alphabet(a, size="full"):
    """Requests on one axis, simplest first."""
    x = model.full_coords(a)
    m = len(x)
    n = a["n"]
    out = [["whole"], ["small"], ["one"], ["all"]]
    if a["sym"] and a["sym"][0] == "antiperiod":
        out.append(["anti"])
    if size == "tiny":
        out = [["whole"], ["omit"], ["idx", m - 1], ["rng", 0, min(2, m)]]
        if m > 1:
            out += [["gt", float(x[1])], ["idxs", [m - 1, 0]]]
        return out
    if size == "mid":
        out += [["omit"], ["idx", 0], ["idx", m - 1], ["rng", 0, max(1, m - 1)]]
        if m > 1:
            h = x[1] - x[0]
            out += [
                ["rng", 1, m],
                ["idxs", [m - 1, 0]],
                ["val", float(x[m - 1])],
                ["val", float(x[m // 2] + 0.25 * h)],
                ["int", float(x[0]), float(x[1])],
                ["int", float(x[m // 2] - 0.25 * h), float(x[m - 1] + h)],
                ["gt", float(x[1])],
                ["lt", float(x[m - 2] + 0.25 * h)],
            ]
        if n < m:
            out += [["idx", n], ["rng", n - 1, n + 1], ["val", float(x[n])]]
        return out
    out += [["idx", i] for i in range(m)] + [["idx", -1]]
    out += [["rng", i, j] for i in range(m) for j in range(i + 1, m + 1)]
    out += [["idxs", [i, j]] for i in range(m) for j in range(m) if i != j]
    if m >= 3:
        out += [["idxs", [m - 1, 0, 1]], ["idxs", [0, 2, 1]], ["idxs", [0, -1, 1]]]
    step = np.append(np.diff(x), x[-1] - x[-2]) if m > 1 else np.array([a.get("h", 1.0)])
    marks = [float(x[0] - 0.25 * step[0])]
    for i in range(m):
        marks += [float(x[i]), float(x[i] + 0.25 * step[i]), float(x[i] + 0.75 * step[i])]
    out += [["val", v] for v in marks] + [["val", float(x[0] - 10)], ["val", float(x[-1] + 10)]]
    cuts = [float(x[0] - 0.25 * step[0])]
    for i in range(m):
        cuts += [float(x[i]), float(x[i] + 0.25 * step[i])]
    for i, lo in enumerate(cuts):
        if any(v >= lo for v in x):
            out.append(["gt", lo])
        if any(v <= lo for v in x):
            out.append(["lt", lo])
        for hi in cuts[i:]:
            if any(lo <= v <= hi for v in x):
                out.append(["int", lo, hi])
    return out
