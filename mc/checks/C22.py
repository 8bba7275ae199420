"""Component axes: selections, filters and operations over named components."""
import itertools

import numpy as np

from ..core import LibraryError, Space

TECHNIQUE = (
    "exhaustive enumeration of component lists, filters, selections and operations on the real "
    "classes, each compared with plain indexing of the named components"
)

WORDS = {
    "plain": [["a", "b"], ["x", "y"], ["u", "v"]],
    # items which contain each other
    "nested": [["r=1", "r=10", "r=-1"], ["r", "=1"], ["1", "10"]],
    # items which appear under several keys
    "shared": [["1", "2"], ["2", "3"], ["3", "1"]],
    "same": [["1", "2"], ["1", "3"], ["4", "5"]],
}
KEYS = ["kind", "order", "part"]
DELIMS = ["-", ", ", " "]


def subsets(items):
    for k in range(len(items) + 1):
        for c in itertools.combinations(items, k):
            yield list(c)


# --------------------------------------------------------------------------
# filters
# --------------------------------------------------------------------------
def names_of(case):
    if case["delim"] in "".join("".join(w) for w in case["words"]):
        raise ValueError("delimiter used in an item")
    return [case["delim"].join(parts) for parts in case["parts"]]


def assignments(case):
    """Orders of the keys which explain every item of every name."""
    keys = case["keys"]
    words = dict(zip(KEYS, case["words"]))
    return [
        order
        for order in itertools.permutations(keys)
        if all(item in words[k] for parts in case["parts"] for k, item in zip(order, parts))
    ]


def run_filter(ctx, case):
    from SciDataTool import Data1D, DataTime, DataLinspace

    names = names_of(case)
    words = dict(zip(KEYS, case["words"]))
    axis = Data1D(
        name="comp",
        unit="",
        values=names,
        is_components=True,
        delimiter=case["delim"],
        filter={k: list(words[k]) for k in case["keys"]},
    )
    n = len(names)
    vals = np.array([[100.0 * t + i for i in range(n)] for t in range(2)])
    field = DataTime(
        name="f", symbol="X", unit="T", values=vals,
        axes=[DataLinspace(name="time", unit="s", initial=0, final=1, number=2), axis],
    )
    order = assignments(case)[0]
    for choice in itertools.product(*[list(subsets(words[k])) for k in case["keys"]]):
        wanted = dict(zip(case["keys"], choice))
        want = [
            i
            for i, parts in enumerate(case["parts"])
            if all(item in wanted[k] for k, item in zip(order, parts))
        ]
        for turn in (False, True):
            given = dict(reversed(list(wanted.items()))) if turn else wanted
            ctx.state("filter", case, choice)
            got = ctx.call(axis.get_filter, given)
            if not ctx.require(
                "filter:" + case["set"],
                not isinstance(got, LibraryError) and list(got) == want,
                "%s of %s with %s gave %r, expected %s" % (given, names, axis.filter, got, want),
            ):
                return
        if want:
            res = ctx.call(field.get_along, "time", "comp" + str(got), is_squeeze=False)
            if isinstance(res, LibraryError):
                ctx.require("filtered:" + case["set"], False, repr(res))
                return
            ctx.agree("filtered:" + case["set"], res["X"], vals[:, want])
            ctx.require(
                "filtered-names:" + case["set"],
                [str(v) for v in res["comp"]] == [names[i] for i in want],
                "%s instead of %s" % (list(res["comp"]), [names[i] for i in want]),
            )
    # the extraction of some components can be filtered again
    for some in itertools.combinations(range(n), min(n, 2)):
        sub = ctx.call(field.get_data_along, "time", "comp" + str(list(some)))
        if isinstance(sub, LibraryError):
            ctx.require("extract:" + case["set"], False, repr(sub))
            return
        for choice in itertools.product(*[[[w] for w in words[k]] for k in case["keys"]]):
            wanted = dict(zip(case["keys"], choice))
            want = [
                j
                for j, i in enumerate(some)
                if all(item in wanted[k] for k, item in zip(order, case["parts"][i]))
            ]
            picked = [case["parts"][i] for i in some]
            if len(assignments(dict(case, parts=picked))) != 1:
                continue
            got = ctx.call(sub.axes[-1].get_filter, wanted)
            ctx.require(
                "extract:" + case["set"],
                not isinstance(got, LibraryError) and list(got) == want,
                "%s of the components %s of %s gave %r, expected %s" % (wanted, some, names, got, want),
            )
    missing = ctx.call(axis.get_filter, {k: words[k] for k in case["keys"][1:]})
    ctx.require("filter-missing-key", isinstance(missing, LibraryError), repr(missing))
    unknown = {k: words[k] for k in case["keys"][1:]}
    unknown["other"] = []
    got = ctx.call(axis.get_filter, unknown)
    ctx.require("filter-unknown-key", isinstance(got, LibraryError), repr(got))


def filters(tier):
    big = tier == "thorough"
    for name in WORDS:
        for k in (1, 2, 3):
            words = WORDS[name][:k]
            combos = [list(c) for c in itertools.product(*words)]
            for size in range(1, len(combos) + 1):
                if k == 3 and not big and size not in (1, 2, len(combos)):
                    continue
                if name == "nested" and k == 3 and size not in (1, 2, len(combos)):
                    continue
                lists = [list(c) for c in itertools.combinations(combos, size)]
                if size == 2:
                    lists += [list(reversed(c)) for c in lists]
                for parts in lists:
                    for pos in itertools.permutations(range(k)):
                        # order of the items in the names
                        turned = [[p[i] for i in pos] for p in parts]
                        for keys in itertools.permutations(KEYS[:k]):
                            if k == 3 and not big and keys not in (
                                tuple(KEYS), tuple(reversed(KEYS)), ("order", "part", "kind")
                            ):
                                continue
                            for delim in DELIMS:
                                if delim != ", " and not (k < 3 and size < 3):
                                    continue
                                case = {
                                    "set": name, "words": words, "parts": turned,
                                    "keys": list(keys), "delim": delim,
                                }
                                if delim in "".join("".join(w) for w in words):
                                    continue
                                # the names must tell which item belongs to which key
                                if len({tuple(a) for a in assignments(case)}) != 1:
                                    continue
                                yield case


# --------------------------------------------------------------------------
# selections and operations
# --------------------------------------------------------------------------
COMPONENTS = {
    "names": ["Phase A", "Phase B", "Phase C", "Phase D"],
    # neither sorted nor of equal length
    "mixed": ["c", "aa", "b", "a"],
    "equal": ["p", "q", "p", "q"],
}
OPS = ["sum", "mean", "rms", "rss", "max", "min"]


def reduced(op, arr, axis):
    if op == "sum":
        return arr.sum(axis=axis, keepdims=True)
    if op == "mean":
        return arr.mean(axis=axis, keepdims=True)
    if op == "rms":
        return np.sqrt((np.abs(arr) ** 2).mean(axis=axis, keepdims=True))
    if op == "rss":
        return np.sqrt((np.abs(arr) ** 2).sum(axis=axis, keepdims=True))
    return getattr(np, op)(arr, axis=axis, keepdims=True)


def comp_axis(case):
    from SciDataTool import Data1D

    c = case["comp"]
    return Data1D(
        name="phase",
        unit="",
        values=COMPONENTS[c["set"]][: c["n"]],
        is_components=True,
        is_overlay=c["overlay"],
        sort_indices=c.get("sort"),
    )


def field_of(case):
    from SciDataTool import DataND, DataFreq, DataTime, DataLinspace

    axes, shape = [], []
    cls = DataND
    for name in case["layout"]:
        if name == "phase":
            axes.append(comp_axis(case))
            shape.append(case["comp"]["n"])
        elif name == "freqs":
            axes.append(DataLinspace(name="freqs", unit="Hz", initial=0, final=20, number=3))
            shape.append(3)
            cls = DataFreq
        elif name == "time":
            axes.append(
                DataLinspace(name="time", unit="s", initial=0, final=1, number=4, include_endpoint=False)
            )
            shape.append(4)
            cls = DataTime
        else:
            axes.append(DataLinspace(name=name, unit="m", initial=0, final=2, number=3))
            shape.append(3)
    size = int(np.prod(shape))
    vals = np.array([((7 * i * i + 3 * i) % 23) - 6.5 + 0.125 * i for i in range(size)])
    vals = vals.reshape(shape)
    if cls is DataFreq:
        vals = vals + 1j * vals[..., ::-1]
    return cls(name="f", symbol="X", unit="T", axes=axes, values=vals), vals


def chosen(case, token):
    """Positions designated by a request."""
    n = case["comp"]["n"]
    kind = token[0]
    if kind in ("whole", "all"):
        return list(range(n))
    if kind in ("index", "list"):
        return list(token[1:])
    if kind == "range":
        return list(range(token[1], token[2]))
    if kind == "largest":
        return case["comp"]["sort"][: token[1]]
    return [0]


def text(name, token):
    kind = token[0]
    if kind == "whole":
        return name
    if kind == "all":
        return name + "[]"
    if kind in ("index", "list"):
        return name + str(list(token[1:]))
    if kind == "range":
        return "%s[%d:%d]" % (name, token[1], token[2])
    if kind == "largest":
        return "%s[%dlargest]" % (name, token[1])
    return "%s=%s" % (name, token[1])


def expected(case, tokens):
    _, vals = field_of(case)
    want = vals
    names = None
    # selections first, then operations
    for i, name in enumerate(case["layout"]):
        token = tokens.get(name, ["omit"])
        if token[0] == "op":
            continue
        if name == "phase":
            pos = chosen(case, token)
            names = [COMPONENTS[case["comp"]["set"]][p] for p in pos]
        elif token[0] == "whole":
            continue
        else:
            pos = token[1:] or [0]
        want = np.take(want, pos, axis=i)
    for i, name in enumerate(case["layout"]):
        token = tokens.get(name, ["omit"])
        if token[0] == "op":
            want = reduced(token[1], want, i)
    return want, names


def run_select(ctx, case):
    field, vals = field_of(case)
    tokens = case["tokens"]
    args = [text(n, tokens[n]) for n in case["order"] if n in tokens]
    want, names = expected(case, tokens)
    ctx.state("select", case)
    sig = tokens.get("phase", ["omit"])[0]
    for squeeze in (True, False):
        got = ctx.call(field.get_along, *args, is_squeeze=squeeze)
        if isinstance(got, LibraryError):
            ctx.require("value:" + sig, False, "%s %r" % (args, got))
            return
        ctx.agree("value:" + sig, got["X"], np.squeeze(want) if squeeze else want)
        if "phase" in tokens:
            if tokens["phase"][0] == "op":
                ctx.require("names:" + sig, got["phase"] == tokens["phase"][1], repr(got["phase"]))
            else:
                ctx.require(
                    "names:" + sig,
                    [str(v) for v in np.atleast_1d(got["phase"])] == names,
                    "%s gave names %s instead of %s" % (args, list(got["phase"]), names),
                )
    mag = ctx.call(field.get_magnitude_along, *args, is_squeeze=False)
    if not any(t[0] == "op" for t in tokens.values()):
        if isinstance(mag, LibraryError):
            ctx.require("magnitude:" + sig, False, "%s %r" % (args, mag))
        else:
            ctx.agree("magnitude:" + sig, mag["X"], np.abs(want))
    if "phase" in tokens and tokens["phase"][0] != "op":
        # what was extracted is again a field of these components
        sub = ctx.call(field.get_data_along, *args)
        if isinstance(sub, LibraryError):
            ctx.require("extract:" + sig, False, "%s %r" % (args, sub))
            return
        left = [n for n in case["layout"] if tokens.get(n, ["omit"])[0] not in ("omit", "op")]
        index = left.index("phase")
        drop = tuple(
            i for i, n in enumerate(case["layout"]) if tokens.get(n, ["omit"])[0] in ("omit", "op")
        )
        stored = np.squeeze(want, axis=drop) if drop else want
        for op in ["whole"] + OPS:
            if np.iscomplexobj(want) and op in ("max", "min"):
                continue
            again = [n + ("=" + op if n == "phase" and op != "whole" else "") for n in left]
            got = ctx.call(sub.get_along, *again, is_squeeze=False)
            if isinstance(got, LibraryError):
                ctx.require("again:" + op, False, "%s then %s %r" % (args, again, got))
                continue
            ref = stored if op == "whole" else reduced(op, stored, index)
            ctx.agree("again:" + op, np.squeeze(got["X"]), np.squeeze(ref))
            if op == "whole":
                ctx.require(
                    "again:names",
                    [str(v) for v in np.atleast_1d(got["phase"])] == names,
                    "%s extracted with names %s instead of %s" % (args, list(got["phase"]), names),
                )
        for i in range(len(names)):
            again = [n + ("[%d]" % i if n == "phase" else "") for n in left]
            got = ctx.call(sub.get_along, *again, is_squeeze=False)
            if isinstance(got, LibraryError):
                ctx.require("again:index", False, "%s then %s %r" % (args, again, got))
                continue
            ctx.agree("again:index", np.squeeze(got["X"]), np.squeeze(np.take(stored, [i], axis=index)))
        sort = case["comp"].get("sort")
        if sort is not None:
            pos = chosen(case, tokens["phase"])
            if len(set(pos)) == len(pos):
                rank = [pos.index(p) for p in sort if p in pos]
                for k in range(1, len(pos) + 1):
                    again = [n + ("[%dlargest]" % k if n == "phase" else "") for n in left]
                    got = ctx.call(sub.get_along, *again, is_squeeze=False)
                    if isinstance(got, LibraryError):
                        ctx.require("again:largest", False, "%s then %s %r" % (args, again, got))
                        continue
                    ctx.agree(
                        "again:largest",
                        np.squeeze(got["X"]),
                        np.squeeze(np.take(stored, rank[:k], axis=index)),
                    )


LAYOUTS = [
    ["phase"],
    ["time", "phase"],
    ["phase", "time"],
    ["x", "phase"],
    ["time", "x", "phase"],
    ["phase", "x", "time"],
    ["x", "phase", "time"],
    ["freqs", "phase"],
    ["phase", "freqs"],
]


def phase_tokens(comp, lists=True):
    n = comp["n"]
    yield ["whole"]
    yield ["all"]
    for i in range(n):
        yield ["index", i]
    if lists:
        for k in range(2, n + 1):
            for sel in itertools.permutations(range(n), k):
                yield ["list"] + list(sel)
        yield ["list", 0, 0] if n == 1 else ["list", 1, 1]
        for a in range(n):
            for b in range(a + 1, n + 1):
                yield ["range", a, b]
    else:
        if n > 1:
            yield ["list", 1, 0]
            yield ["list", 0, n - 1]
    if comp.get("sort") is not None:
        for k in range(1, n + 1):
            yield ["largest", k]
    for op in OPS:
        yield ["op", op]
    yield None


def other_tokens(name):
    yield ["whole"]
    yield ["index", 1]
    yield None
    yield ["list", 0, 2]
    if name == "x":
        yield ["op", "sum"]
        yield ["op", "max"]


def selections(tier):
    big = tier == "thorough"
    for layout in LAYOUTS:
        for which in COMPONENTS:
            for n in (1, 2, 3, 4) if big else (1, 3, 4):
                if which == "equal" and n < 3:
                    continue
                sorts = [None] + [list(s) for s in itertools.permutations(range(n))]
                if n == 4 and not big:
                    sorts = [None, [2, 0, 3, 1], [3, 2, 1, 0], [1, 3, 0, 2]]
                for overlay in (False, True):
                    for sort in sorts:
                        if which != "mixed" and sort is not None and not big and n == 4:
                            continue
                        comp = {"set": which, "n": n, "overlay": overlay, "sort": sort}
                        others = [a for a in layout if a != "phase"]
                        full = len(layout) < 3 and (sort is None or sort == sorts[-1])
                        for pt in phase_tokens(comp, lists=full):
                            for ot in itertools.product(*[list(other_tokens(o)) for o in others]):
                                tokens = {o: t for o, t in zip(others, ot) if t is not None}
                                if pt is not None:
                                    tokens["phase"] = pt
                                if not tokens:
                                    continue
                                ops = [t for t in tokens.values() if t[0] == "op"]
                                # nested extrema and sums depend on the order, one at a time
                                if len(ops) > 1 and len({t[1] for t in ops}) > 1:
                                    continue
                                if "freqs" in layout and ops and ops[0][1] in ("max", "min"):
                                    continue
                                orders = [layout]
                                if len(layout) > 1 and sort is None:
                                    orders.append(list(reversed(layout)))
                                for order in orders:
                                    yield {
                                        "layout": layout, "comp": comp, "tokens": tokens,
                                        "order": order,
                                    }


# --------------------------------------------------------------------------
# components follow the field through its transforms
# --------------------------------------------------------------------------
def run_transform(ctx, case):
    field, vals = field_of(case)
    n = case["comp"]["n"]
    names = COMPONENTS[case["comp"]["set"]][:n]
    index = case["layout"].index("phase")
    spectral = {"time": "freqs", "freqs": "time"}
    args = [spectral.get(a, a) for a in case["layout"]]
    ctx.state("transform", case)
    whole = ctx.call(field.get_along, *args, is_squeeze=False)
    if isinstance(whole, LibraryError):
        ctx.require("spectrum", False, "%s %r" % (args, whole))
        return
    pos = chosen(case, case["token"])
    part_args = [text("phase", case["token"]) if a == "phase" else a for a in args]
    part = ctx.call(field.get_along, *part_args, is_squeeze=False)
    if isinstance(part, LibraryError):
        ctx.require("spectrum", False, "%s %r" % (part_args, part))
        return
    ctx.agree("spectrum", part["X"], np.take(whole["X"], pos, axis=index))
    ctx.require(
        "spectrum-names",
        [str(v) for v in np.atleast_1d(part["phase"])] == [names[p] for p in pos],
        "%s gave %s" % (part_args, part["phase"]),
    )
    # the spectrum of each component is that of the component stored alone
    from SciDataTool import DataFreq, DataTime

    for k, p in enumerate(pos):
        alone = type(field)(
            name="f", symbol="X", unit="T",
            axes=[a for a in field.axes if a.name != "phase"],
            values=np.take(vals, p, axis=index),
        )
        ref = ctx.call(alone.get_along, *[a for a in args if a != "phase"], is_squeeze=False)
        if isinstance(ref, LibraryError):
            ctx.require("alone", False, repr(ref))
            return
        ctx.agree("alone", np.take(part["X"], k, axis=index), ref["X"])
    # transformed field
    name = "time_to_freq" if "time" in case["layout"] else "freq_to_time"
    other = ctx.call(getattr(field, name))
    if isinstance(other, LibraryError):
        ctx.require(name, False, repr(other))
        return
    by_name = {a.name: a for a in other.axes}
    got = by_name.get("phase")
    ctx.require(
        name + "-axis",
        got is not None and got.is_components and [str(v) for v in got.values] == names,
        "component axis became %s" % (got and list(got.get_values())),
    )
    back = ctx.call(other.get_along, *part_args, is_squeeze=False)
    if isinstance(back, LibraryError):
        ctx.require(name, False, "%s %r" % (part_args, back))
        return
    ctx.agree(name, back["X"], part["X"])


def transforms(tier):
    for layout in [["time", "phase"], ["phase", "time"], ["freqs", "phase"], ["phase", "freqs"]]:
        for which in ("names", "mixed"):
            for n in (1, 2, 3, 4):
                for overlay in (False, True):
                    sort = list(reversed(range(n)))
                    comp = {"set": which, "n": n, "overlay": overlay, "sort": sort}
                    for token in phase_tokens(comp):
                        if token is None or token[0] == "op":
                            continue
                        yield {"layout": layout, "comp": comp, "token": token}


def spaces():
    return [
        Space("filters", filters, run_filter,
              "all lists of composed names over 1-3 keys with 2-3 items (distinct, nested, shared items), all "
              "orders of keys and items, 3 delimiters, all filter choices"),
        Space("selections", selections, run_select,
              "1-4 components, 9 layouts, every index, ordered list, range, N largest, operation, with every "
              "request of the other axes, overlay on and off, followed by every request on the extraction"),
        Space("transforms", transforms, run_transform,
              "time and frequency fields of 1-4 components, every selection, compared component by component"),
    ]
