"""Dictionaries and saved files restore the same object.

The transitions are the exports (dictionary in its three forms, file in its
path forms) and the ways back (constructor from a dictionary, constructor from
a path, loading function).  Every object of the alphabet is sent through every
path and through chains of two of them.
"""
import itertools
import json
import os
import shutil

import numpy as np

from .. import core, model, objects
from ..core import LibraryError, Space
from . import C01

CLASSES = list(objects.CLASSES)


def work():
    d = os.path.join(core.scratch_dir(), "c14-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def cls_of(o):
    return type(o)


def has_complex(x):
    if isinstance(x, complex):
        return True
    if isinstance(x, dict):
        return any(has_complex(v) for v in x.values())
    if isinstance(x, list):
        return any(has_complex(v) for v in x)
    return False


def by_dict(o, n):
    return cls_of(o)(init_dict=o.as_dict(type_handle_ndarray=n))


def by_json(o):
    d = o.as_dict()
    if has_complex(d):
        return o
    return cls_of(o)(init_dict=json.loads(json.dumps(d)))


def by_file(o, form, back):
    from SciDataTool.Functions.load import load

    d = work()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if form == "json":
        path = os.path.join(d, "obj.json")
        o.save(path)
    elif form == "bare":
        path = os.path.join(d, "obj")
        o.save(path)
        path += ".json"
    elif form == "dots":
        path = os.path.join(d, "obj.v1")
        o.save(save_path=path)
        path += ".json"
    elif form == "over":
        path = os.path.join(d, "obj.json")
        with open(path, "w") as f:
            f.write("x" * 100000)
        o.save(path)
    elif form == "folder":
        path = os.path.join(d, type(o).__name__)
        os.makedirs(path)
        o.save(path)
        if back == "init":
            path = os.path.join(path, type(o).__name__ + ".json")
    return cls_of(o)(init_str=path) if back == "init" else load(path)


def by_pickle(o):
    import cloudpickle

    from SciDataTool.Functions.load import load

    path = os.path.join(work(), "obj.pkl")
    with open(path, "wb") as f:
        cloudpickle.dump(o, f)
    return load(path)


WAYS = (
    [["dict", n] for n in (0, 1, 2)]
    + [["json"]]
    + [["file", form, back] for form in ("json", "bare", "dots", "over", "folder") for back in ("init", "load")]
    + [["pickle"]]
)


def go(o, way):
    if way[0] == "dict":
        return by_dict(o, way[1])
    if way[0] == "json":
        return by_json(o)
    if way[0] == "pickle":
        return by_pickle(o)
    return by_file(o, way[1], way[2])


def label(way):
    return "+".join("-".join(str(x) for x in w) for w in way)


def restored(ctx, o, ref, way, what):
    """Follow a chain of ways; the object at the end equals the first one."""
    x = o
    for w in way:
        x = ctx.call(go, x, w)
        if isinstance(x, LibraryError):
            ctx.fail("restore:" + label(way), "%s: %s" % (what, x))
            return None
    if not ctx.require("type:" + label(way), type(x) is type(o), "%s: %s" % (what, type(x).__name__)):
        return None
    ctx.require("content:" + label(way), model.snapshot(x) == ref, "%s: %s" % (what, C01.first_difference(ref, model.snapshot(x))))
    ctx.agree("equal:" + label(way), ctx.call(lambda: bool(x == o) and bool(o == x)), True)
    ctx.require("purity:" + label(way), model.snapshot(o) == ref, "%s: the original changed" % what)
    return x


def run_variant(ctx, case):
    cls, change = case["class"], case["change"]
    ref = model.snapshot(objects.build(cls, change))
    for way in WAYS:
        ctx.state(cls, sorted(change.items()), way)
        restored(ctx, objects.build(cls, change), ref, [way], "%s %s" % (cls, change))
    chains = itertools.product(WAYS, repeat=2) if case["chains"] else []
    for way in chains:
        ctx.state(cls, sorted(change.items()), way)
        restored(ctx, objects.build(cls, change), ref, list(way), "%s %s" % (cls, change))


def variant_cases(tier):
    for cls in CLASSES:
        for k, change in enumerate(objects.variants(cls, 2 if tier == "thorough" else 1)):
            yield {"class": cls, "change": change, "chains": len(change) < (2 if tier == "thorough" else 1)}


def run_dict(ctx, case):
    """What is exported belongs to the receiver; one dictionary can serve many times."""
    cls, change = case["class"], case["change"]
    what = "%s %s" % (cls, change)
    o = objects.build(cls, change)
    ref = model.snapshot(o)
    ctx.state(cls, sorted(change.items()))
    d = ctx.call(o.as_dict)
    if not ctx.require("export:" + cls, isinstance(d, dict), "%s: %s" % (what, d)):
        return
    ctx.agree("export-class:" + cls, d.get("__class__"), cls)
    ctx.require("export-keys:" + cls, set(objects.CLASSES[cls]) <= set(d), "%s: keys %s" % (what, sorted(d)))
    pic = model.snapshot(d)
    # the same dictionary builds several independent objects
    C = objects.lib(cls)
    first = ctx.call(C, init_dict=d)
    ctx.require("reuse-dictionary:" + cls, model.snapshot(d) == pic, "%s: building an object changed the dictionary" % what)
    for path in objects.places(first) if not isinstance(first, LibraryError) else []:
        for word in objects.edits(first, path):
            if word not in ("assign", "first", "last"):
                continue  # containers handed over by the user are kept as they are
            a = ctx.call(C, init_dict=d)
            b = ctx.call(C, init_dict=d)
            if isinstance(a, LibraryError) or isinstance(b, LibraryError):
                ctx.fail("reuse:" + cls, "%s: %s %s" % (what, a, b))
                return
            if not objects.edit(a, path, word):
                continue
            ctx.require("reuse:" + cls, model.snapshot(b) == ref, "%s: %s at %s of one object shows in another built from the same dictionary" % (what, word, path))
            ctx.require("reuse-original:" + cls, model.snapshot(o) == ref, "%s: %s at %s shows in the original" % (what, word, path))
            d = ctx.call(o.as_dict)


def run_partial(ctx, case):
    """A dictionary with some attributes means the others at their default."""
    cls = case["class"]
    C = objects.lib(cls)
    for a, alts in objects.CLASSES[cls].items():
        for i in range(len(alts)):
            kw = {a: alts[i]()}
            if a in ("values",) and "axes" in objects.CLASSES[cls]:
                kw["axes"] = objects.CLASSES[cls]["axes"][0]()
            ctx.state(cls, a, i)
            want = ctx.call(lambda: C(**kw))
            kw2 = {a: alts[i]()}
            if "axes" in kw:
                kw2["axes"] = objects.CLASSES[cls]["axes"][0]()
            got = ctx.call(lambda: C(init_dict=kw2))
            if isinstance(want, LibraryError) or isinstance(got, LibraryError):
                ctx.agree("partial:" + cls, got if isinstance(got, LibraryError) else "object", want if isinstance(want, LibraryError) else "object")
                continue
            ctx.require("partial:" + cls, model.snapshot(got) == model.snapshot(want), "%s=%d: %s" % (a, i, C01.first_difference(model.snapshot(want), model.snapshot(got))))
            full = objects.build(cls, {a: i})
            ctx.require("partial-set:" + cls, model.snapshot(getattr(got, a)) == model.snapshot(getattr(full, a)), "%s=%d" % (a, i))


def run_nested(ctx, case):
    """Axes, components and normalizations given as dictionaries or file paths."""
    kind, cls, i = case["as"], case["class"], case["i"]
    attr = {"VectorField": "components"}.get(cls, "axes")
    ctx.state(kind, cls, i)
    want = objects.build(cls, {attr: i})
    content = objects.CLASSES[cls][attr][i]()
    d = work()

    def conv(k, obj):
        if kind == "dict":
            return obj.as_dict()
        path = os.path.join(d, "nested-%s.json" % k)
        obj.save(path)
        return path

    def all_conv():
        if isinstance(content, list):
            return [conv(k, o) for k, o in enumerate(content)]
        return {k: conv(k, o) for k, o in content.items()}

    given = ctx.call(all_conv)
    if isinstance(given, LibraryError):
        return ctx.fail("nested:" + cls, str(given))
    kw = {a: alts[0]() for a, alts in objects.CLASSES[cls].items()}
    kw[attr] = given
    got = ctx.call(lambda: objects.lib(cls)(**kw))
    if ctx.require("nested:" + cls, not isinstance(got, LibraryError), "%s" % got):
        ctx.require("nested:" + cls, model.snapshot(got) == model.snapshot(want), C01.first_difference(model.snapshot(want), model.snapshot(got)))


def nested_cases(tier):
    for kind in ("dict", "file"):
        for cls in ("DataND", "DataTime", "DataFreq", "VectorField"):
            attr = {"VectorField": "components"}.get(cls, "axes")
            for i in range(len(objects.CLASSES[cls][attr])):
                yield {"as": kind, "class": cls, "i": i}


def run_function(ctx, case):
    """A function object cannot be written; the rest of the object is."""
    cls = objects.lib("Norm_func")
    f = abs
    keep, unit = case["keep"], case["unit"]
    ctx.state(keep, unit)
    d = ctx.call(lambda: cls(function=f, unit=unit).as_dict(keep_function=keep))
    if not ctx.require("function", isinstance(d, dict), "%s" % d):
        return
    r = ctx.call(lambda: cls(init_dict=d))
    if ctx.require("function", not isinstance(r, LibraryError), "%s" % r):
        ctx.agree("function-unit", r.unit, unit)
        ctx.require("function-kept", (r.function is f) if keep else r.function is None, "%s" % r.function)


NUMPY = {
    "symmetries": ["Data1D", "symmetries", lambda: {"period": np.int64(2)}],
    "antiperiod": ["DataLinspace", "symmetries", lambda: {"antiperiod": np.int32(2)}],
    "sort": ["Data1D", "sort_indices", lambda: [np.int64(1), np.int64(0)]],
    "initial": ["DataLinspace", "initial", lambda: np.float64(0.25)],
    "number": ["DataLinspace", "number", lambda: np.int32(3)],
    "ref": ["Norm_ref", "ref", lambda: np.float64(3.5)],
    "ref32": ["Norm_ref", "ref", lambda: np.int32(3)],
    "complexed": ["DataFreq", "values", lambda: np.full((3, 3), np.complex64(1 + 2j))],
    "f32": ["DataTime", "values", lambda: np.ones((3, 3), dtype=np.float32) / 4],
    "bools": ["DataTime", "values", lambda: np.ones((3, 3), dtype=bool)],
    "inf": ["Data1D", "values", lambda: np.array([0.0, np.inf, -np.inf])],
    "accents": ["Data1D", "name", lambda: "été ° α \"quoted\" \\ \n"],
    "tiny": ["Data1D", "values", lambda: np.array([0.1 + 0.2, 1e-300, 1.0 / 3.0])],
    "period-delta": ["Data1D", "symmetries", lambda: {"period": 2, "delta": np.float64(0.1)}],
}


def run_numpy(ctx, case):
    cls, attr, mk = NUMPY[case["what"]]
    way = case["way"]

    def make():
        o = objects.build(cls)
        setattr(o, attr, mk())
        return o

    o = make()
    ctx.state(case["what"], way)
    x = ctx.call(go, o, way)
    if ctx.require("numpy:" + label([way]), not isinstance(x, LibraryError), "%s: %s" % (case["what"], x)):
        ctx.agree("numpy:" + label([way]), ctx.call(lambda: bool(x == o)), True)


def run_collection(ctx, case):
    """Lists and dictionaries of objects in one file."""
    from SciDataTool.Functions.load import load_dict, load_list
    from SciDataTool.Functions.save import save_data

    names = case["objects"]
    objs = [objects.build(n) for n in names]
    ctx.state(case["kind"], names)
    path = os.path.join(work(), "many.json")

    def roundtrip():
        if case["kind"] == "list":
            save_data(objs, path)
            return load_list(path)
        save_data({"k%d" % i: o for i, o in enumerate(objs)}, path)
        r = load_dict(path)
        return [r["k%d" % i] for i in range(len(objs))]

    got = ctx.call(roundtrip)
    if ctx.require("collection:" + case["kind"], isinstance(got, list) and len(got) == len(objs), "%s" % core.show(got)):
        for g, o in zip(got, objs):
            ctx.require("collection:" + case["kind"], type(g) is type(o) and model.snapshot(g) == model.snapshot(o), type(o).__name__)


def run_object(ctx, case):
    name = case["object"]
    ref = model.snapshot(C01.make(name))
    for way in WAYS:
        ctx.state(name, way)
        restored(ctx, C01.make(name), ref, [way], name)


def run_answers(ctx, case):
    name, req = case["object"], case["request"]
    want, _ = C01.perform(ctx, C01.make(name), name, req)
    for way in (["dict", 0], ["file", "json", "load"]):
        ctx.state(name, str(req), way)
        o = ctx.call(go, C01.make(name), way)
        if isinstance(o, LibraryError):
            ctx.fail("answers:" + label([way]), "%s: %s" % (name, o))
            continue
        got, _ = C01.perform(ctx, o, name, req)
        ctx.require("answers:" + label([way]), C01.same(got, want), "%s %s: %s instead of %s" % (name, req, core.show(got), core.show(want)))


def answer_cases(tier):
    for name in C01.OBJECTS:
        for req in C01.requests(name):
            if req[0] not in C01.HEAVY or tier == "thorough":
                yield {"object": name, "request": req}


def singles(tier):
    return ({"class": c, "change": v} for c in CLASSES for v in objects.variants(c, 1))


def spaces():
    return [
        Space("contents", variant_cases, run_variant, "14 classes, base and every alternative of every attribute, 15 ways out and back; all chains of two ways from the base (pairs of alternatives and chains from every alternative thorough)"),
        Space("dictionary", singles, run_dict, "dictionaries of those objects used several times, every change at any depth of one of the results"),
        Space("partial", lambda t: [{"class": c} for c in CLASSES], run_partial, "dictionaries holding a single attribute, every alternative"),
        Space("nested", nested_cases, run_nested, "axes and components handed over as dictionaries or paths of files"),
        Space("functions", lambda t: [{"keep": k, "unit": u} for k in (False, True) for u in ("SI", "m")], run_function, "normalizations holding function objects"),
        Space("scalars", lambda t: [{"what": w, "way": list(y)} for w in NUMPY for y in WAYS if y != ["json"]], run_numpy, "numpy scalars, single precision, infinities, accents"),
        Space("collections", lambda t: [{"kind": k, "objects": list(c)} for k in ("list", "dict") for n in (0, 1, 2) for c in itertools.product(("Norm_ref", "Data1D", "DataTime", "DataFreq", "VectorField"), repeat=n)], run_collection, "lists and dictionaries of up to two objects in a file"),
        Space("objects", lambda t: [{"object": n} for n in C01.OBJECTS], run_object, "23 realistic axes, fields and vector fields, every way"),
        Space("answers", answer_cases, run_answers, "every request of the alphabet on the restored objects"),
    ]


ASSUMPTIONS = ["functions are given as text (function objects are documented as not stored)", "there is no writer of hdf5 files in the library"]
