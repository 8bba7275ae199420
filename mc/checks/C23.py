"""Rejected assignments leave objects intact; allowed values are stored and read back.

Alphabet: every attribute of every class and a pool of values of all kinds.
The oracle is the documented kind of the attribute.  Values on which the
documentation is silent (other numpy number types) are not judged.
"""
import itertools

import numpy as np

from .. import core, model, objects
from ..core import LibraryError, Space
from . import C01

KIND = {}
for _cls, _attrs in objects.CLASSES.items():
    for _a in _attrs:
        KIND[_cls, _a] = "str"
for _cls, _kinds in {
    "Norm_ref": {"ref": "float"},
    "Norm_affine": {"slope": "float", "offset": "float"},
    "Norm_vector": {"vector": "array"},
    "Norm_func": {"function": "function"},
    "Data1D": {"values": "array", "is_components": "bool", "symmetries": "dict", "is_overlay": "bool", "sort_indices": "list", "filter": "dict", "char_to_rm": "list"},
    "DataLinspace": {"initial": "float", "final": "float", "step": "float", "number": "int", "include_endpoint": "bool", "is_components": "bool", "symmetries": "dict", "is_overlay": "bool"},
    "DataPattern": {"rebuild_indices": "list", "unique_indices": "list", "is_step": "bool", "values": "array", "is_components": "bool", "symmetries": "dict", "values_whole": "array", "is_overlay": "bool"},
    "VectorField": {"components": "fields"},
    "RequestedAxis": {"values": "array", "indices": "list", "input_data": "array", "index": "int", "is_pattern": "bool", "rebuild_indices": "array", "is_step": "bool", "noct": "int", "corr_values": "array", "is_components": "bool"},
}.items():
    for _a, _k in _kinds.items():
        KIND[_cls, _a] = _k
for _cls in ("DataND", "DataTime", "DataFreq", "DataDual"):
    KIND.update({(_cls, "axes"): "axes", (_cls, "FTparameters"): "dict", (_cls, "values"): "samples", (_cls, "is_real"): "bool"})
KIND.update({("DataDual", "axes_dt"): "axes", ("DataDual", "axes_df"): "axes", ("DataDual", "values_dt"): "array", ("DataDual", "values_df"): "array"})
for _cls, _attrs in objects.CLASSES.items():
    if "normalizations" in _attrs:
        KIND[_cls, "normalizations"] = "norms"

# name -> (maker, kinds that accept it, kinds for which it is not judged)
POOL = {
    "none": (lambda: None, "str bool int float dict list array axes norms fields function samples?".split()),
    "true": (lambda: True, ["bool"]),
    "false": (lambda: False, ["bool"]),
    "zero": (lambda: 0, ["int", "float"]),
    "five": (lambda: 5, ["int", "float"]),
    "minus-two": (lambda: -2, ["int", "float"]),
    "half": (lambda: 0.5, ["float"]),
    "two-float": (lambda: 2.0, ["float", "int"]),
    "inf": (lambda: float("inf"), ["float", "int?"]),
    "np-float": (lambda: np.float64(0.25), ["float"]),
    "np-int32": (lambda: np.int32(4), ["float", "int"]),
    "complex": (lambda: 1 + 2j, []),
    "text": (lambda: "text", ["str"]),
    "empty-text": (lambda: "", ["str"]),
    "lambda-text": (lambda: "lambda x: 4*x", ["str", "function"]),
    "bytes": (lambda: b"text", []),
    "empty-list": (lambda: [], ["list", "array", "axes", "samples?"]),
    "numbers": (lambda: [1, 2, 4], ["list", "array"]),
    "numbers-float": (lambda: [0.5, 1.5], ["list", "array"]),
    "words": (lambda: ["u", "v"], ["list", "array"]),
    "ragged": (lambda: [[1, 2], [3]], ["list"]),
    "tuple": (lambda: (1, 2), []),
    "set": (lambda: {1, 2}, []),
    "empty-dict": (lambda: {}, ["dict", "norms", "fields"]),
    "period": (lambda: {"period": 2}, ["dict", "norms"]),
    "word-dict": (lambda: {"k": "u"}, ["dict"]),
    "list-dict": (lambda: {"k": ["u", "v"]}, ["dict", "norms?"]),
    "none-dict": (lambda: {"k": None}, ["dict", "norms?", "fields?"]),
    "norm-dict": (lambda: {"a": objects.n_ref(2.0)(), "b": objects.n_ind()}, ["dict", "norms"]),
    "vector-dict": (lambda: {"a": np.array([1.0, 2.0])}, ["dict", "norms"]),
    "axis-dict": (lambda: {"a": objects.ax_time()}, ["dict"]),
    "field-dict": (lambda: {"radial": objects.field()}, ["dict", "fields"]),
    "mixed-dict": (lambda: {"a": objects.n_ref(2.0)(), "b": "text"}, ["dict"]),
    "mixed-fields": (lambda: {"radial": objects.field(), "axial": objects.ax_time()}, ["dict"]),
    "array": (lambda: np.array([0.0, 1.0, 3.0]), ["array"]),
    "empty-array": (lambda: np.array([]), ["array", "samples?"]),
    "grid": (lambda: np.arange(9.0).reshape(3, 3), ["array", "samples"]),
    "grid-complex": (lambda: np.arange(9.0).reshape(3, 3) * 1j, ["array", "samples"]),
    "grid-list": (lambda: np.arange(9.0).reshape(3, 3).tolist(), ["list", "array", "samples"]),
    "grid-extra": (lambda: np.arange(9.0).reshape(3, 1, 3), ["array", "samples"]),
    "grid-2x3": (lambda: np.arange(6.0).reshape(2, 3), ["array"]),
    "grid-flat": (lambda: np.arange(9.0), ["array"]),
    "grid-3d": (lambda: np.arange(27.0).reshape(3, 3, 3), ["array"]),
    "axes": (lambda: [objects.ax_angle(), objects.ax_time(unit="ms")], ["list", "axes", "array?"]),
    "axis-in-list-bad": (lambda: [objects.ax_time(), 3], ["list", "array?"]),
    "norm-in-list": (lambda: [objects.n_ref(2.0)()], ["list", "array?"]),
    "none-in-list": (lambda: [None, None], ["list", "array?", "axes?", "samples?"]),
    "axis": (objects.ax_time, []),
    "norm": (objects.n_ref(2.0), []),
    "field": (objects.field, []),
    "vector-field": (lambda: objects.build("VectorField"), []),
    "function": (lambda: abs, ["function"]),
    "class": (lambda: int, ["function"]),
}
CONVERTED = {"array", "samples"}


def verdict(kind, name):
    ok = POOL[name][1]
    if kind + "?" in ok:
        return None
    return kind in ok


def expected(kind, name):
    """Content read back after the value was stored."""
    v = POOL[name][0]()
    if kind in CONVERTED and isinstance(v, list):
        v = np.array(v)
    if kind == "samples" and v is not None:
        v = np.squeeze(v)
    if kind == "norms" and isinstance(v, dict):
        v = {k: objects.lib("Norm_ref")(ref=x) if isinstance(x, (int, float)) else objects.lib("Norm_vector")(vector=x) if isinstance(x, np.ndarray) else x for k, x in v.items()}
    if kind == "function" and isinstance(v, str):
        v = eval(v)
    return v


def read(v):
    if callable(v) and not hasattr(v, "as_dict"):
        return ("function", [float(v(x)) for x in (1.0, 2.0)])
    return model.snapshot(v)


def others(obj, attr):
    s = model.snapshot(obj)
    drop = {attr, "_" + attr, "_" + attr + "_str", "_" + attr + "_func"}
    return (s[0], [kv for kv in s[1] if kv[0] not in drop])


def assign(ctx, obj, cls, attr, name):
    """One assignment; returns False when the state is no more the expected one."""
    kind = KIND[cls, attr]
    ok = verdict(kind, name)
    if ok is None:
        return None
    before, rest = read(getattr(obj, attr)), others(obj, attr)
    got = ctx.call(setattr, obj, attr, POOL[name][0]())
    what = "%s.%s (%s) = %s" % (cls, attr, kind, name)
    if ok:
        if ctx.require("allowed:%s:%s" % (kind, name), not isinstance(got, LibraryError), "%s: %s" % (what, got)):
            ctx.require("stored:%s:%s" % (kind, name), read(getattr(obj, attr)) == read(expected(kind, name)), "%s: read back %s" % (what, core.show(getattr(obj, attr))))
    else:
        ctx.require("rejected:%s:%s" % (kind, name), isinstance(got, LibraryError), "%s is accepted" % what)
        ctx.require("intact:%s:%s" % (kind, name), read(getattr(obj, attr)) == before, "%s: %s" % (what, core.show(getattr(obj, attr))))
    ctx.require("others:%s:%s" % (kind, name), others(obj, attr) == rest, "%s changed other attributes: %s" % (what, C01.first_difference(rest, others(obj, attr))))
    return True


def run_single(ctx, case):
    cls, attr = case["class"], case["attr"]
    for name in POOL:
        ctx.state(cls, attr, name)
        assign(ctx, objects.build(cls), cls, attr, name)


def run_construct(ctx, case):
    """The constructor guards its arguments like the assignment."""
    cls, attr = case["class"], case["attr"]
    kind = KIND[cls, attr]
    for name in POOL:
        ok = verdict(kind, name)
        if ok is None or (kind == "samples" and name == "none") or (kind == "axes" and ok and "values" in objects.CLASSES[cls]):
            continue
        ctx.state(cls, attr, name)
        kw = {a: alts[0]() for a, alts in objects.CLASSES[cls].items()}
        for how in ("arguments", "dictionary"):
            kw[attr] = POOL[name][0]()
            got = ctx.call(lambda: objects.lib(cls)(**kw) if how == "arguments" else objects.lib(cls)(init_dict=dict(kw)))
            ctx.require("construct-%s:%s:%s" % ("allowed" if ok else "rejected", kind, name), isinstance(got, LibraryError) != ok, "%s(%s=%s): %s" % (cls, attr, name, core.show(got)))
            if ok and not isinstance(got, LibraryError):
                ctx.require("construct-stored:%s:%s" % (kind, name), read(getattr(got, attr)) == read(expected(kind, name)), "%s(%s=%s): %s" % (cls, attr, name, core.show(getattr(got, attr))))


def run_unknown(ctx, case):
    """No new attribute can be added, at any value."""
    cls, attr = case["class"], case["attr"]
    for name in POOL:
        obj = objects.build(cls)
        before = model.snapshot(obj)
        keys = set(vars(obj))
        got = ctx.call(setattr, obj, attr, POOL[name][0]())
        ctx.state(cls, attr, name)
        ctx.require("unknown:rejected", isinstance(got, LibraryError), "%s.%s = %s is accepted" % (cls, attr, name))
        ctx.require("unknown:absent", not hasattr(obj, attr) and set(vars(obj)) == keys, "%s.%s exists" % (cls, attr))
        ctx.require("unknown:intact", model.snapshot(obj) == before, "%s changed" % cls)
        got = ctx.call(lambda: objects.lib(cls)(**{attr: 1}))
        ctx.require("unknown:constructor", isinstance(got, LibraryError), "%s(%s=1) is accepted" % (cls, attr))


def unknown_cases(tier):
    for cls in objects.CLASSES:
        for attr in ("other", "Name", "value", "symmetry", "units", "axis", "_other"):
            yield {"class": cls, "attr": attr}
    # copies, rebuilt objects and objects made by the library are guarded as well


def run_history(ctx, case):
    """All sequences of two assignments to an attribute, through a copy or a dictionary."""
    cls, attr, via = case["class"], case["attr"], case["via"]
    for a, b in itertools.product(POOL, repeat=2):
        if None in (verdict(KIND[cls, attr], a), verdict(KIND[cls, attr], b)):
            continue
        obj = objects.build(cls)
        ctx.state(cls, attr, a, b, via)
        if ctx.call(setattr, obj, attr, POOL[a][0]()) is not None and verdict(KIND[cls, attr], a):
            continue
        if via == "copy":
            obj = ctx.call(obj.copy)
        if isinstance(obj, LibraryError):
            continue
        assign(ctx, obj, cls, attr, b)


def history_cases(tier):
    for via in ("same", "copy") if tier == "thorough" else ("same",):
        for cls, attr in KIND:
            yield {"class": cls, "attr": attr, "via": via}


def run_cross(ctx, case):
    """Allowed or rejected assignment to one attribute, then to another one."""
    cls, attr, names = case["class"], case["attr"], ("none", "five", "half", "text", "true", "numbers", "word-dict", "norm-dict", "grid", "axes", "field-dict", "lambda-text")
    for a in names:
        for other in objects.CLASSES[cls]:
            if other == attr:
                continue
            for b in names:
                if {KIND[cls, attr], KIND[cls, other]} == {"axes", "samples"} or (KIND[cls, attr] == "axes" and "samples" in (KIND[cls, other],)):
                    continue
                obj = objects.build(cls)
                ctx.state(cls, attr, a, other, b)
                ctx.call(setattr, obj, attr, POOL[a][0]())
                assign(ctx, obj, cls, other, b)


def run_shape(ctx, case):
    """Values are accepted when there is one per combination of the coordinates, in the order of the axes."""
    cls, kind, sizes = case["class"], case["kind"], case["sizes"]

    def axes():
        out = []
        for i, n in enumerate(sizes):
            if kind == "explicit":
                out.append(objects.lib("Data1D")(name="x%d" % i, unit="m", values=np.arange(n) * 1.0))
            else:
                out.append(objects.lib("DataLinspace")(name="x%d" % i, unit="m", initial=0.0, final=float(n), number=n, include_endpoint=False))
        return out

    def make(values):
        return objects.lib(cls)(name="f", symbol="X", unit="T", axes=axes(), values=values)

    def sample(shape):
        return np.arange(float(np.prod(shape))).reshape(shape) + 0.5

    core_of = lambda s: [n for n in s if n != 1]
    for shape in case["shapes"]:
        if shape != sizes and core_of(shape) == core_of(sizes):
            continue
        what = "%s on %s axes %s, values %s" % (cls, kind, sizes, shape)
        ctx.state(cls, kind, sizes, shape)
        v = sample(shape)
        for given in (v.copy(), v.tolist()):
            got = ctx.call(make, given)
            if shape == sizes:
                if ctx.require("shape:allowed", not isinstance(got, LibraryError), "%s: %s" % (what, got)):
                    ctx.agree("shape:stored", got.values, v)
            else:
                ctx.require("shape:rejected", isinstance(got, LibraryError), what + " are accepted")
                obj = make(sample(sizes))
                before = model.snapshot(obj)
                got = ctx.call(setattr, obj, "values", given)
                ctx.require("shape:assigned", isinstance(got, LibraryError), what + " are accepted afterwards")
                ctx.require("shape:intact", model.snapshot(obj) == before, what)


def shape_cases(tier):
    top = 4 if tier == "thorough" else 3
    pool = [list(s) for d in (1, 2, 3) for s in itertools.product(range(1, top + 1), repeat=d)]
    for sizes in pool:
        for cls in ("DataND", "DataTime", "DataFreq"):
            for kind in ("explicit", "linear"):
                yield {"class": cls, "kind": kind, "sizes": sizes, "shapes": pool}


def spaces():
    each = lambda t: ({"class": c, "attr": a} for c, a in KIND)
    return [
        Space("single", each, run_single, "%d attributes of 14 classes, %d values of all kinds" % (len(KIND), len(POOL))),
        Space("construct", each, run_construct, "the same through the constructor, as argument and by dictionary"),
        Space("unknown", unknown_cases, run_unknown, "7 unknown attributes of 14 classes, every value"),
        Space("history", history_cases, run_history, "every sequence of two values on every attribute (also through a copy thorough)"),
        Space("shapes", shape_cases, run_shape, "values of every shape with up to 3 dimensions of 1 to 3 samples (4 thorough) for axes of every such size"),
        Space("cross", each, run_cross, "every pair of attributes, 12 values each"),
    ]


ASSUMPTIONS = ["the kinds of the attributes are those of their documentation; None means unset", "numpy integers other than 32 bits are not judged"]
