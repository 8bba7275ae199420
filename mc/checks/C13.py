"""Copies are equal and independent; comparison sees every difference.

Every class is instantiated with its base content and with every alternative of
every attribute.  Two such objects are equal exactly when they were built from
the same alternatives; the comparison must name exactly the attributes in which
they differ.  Every change possible on an object, at any depth, is made once on
the copy and once on the original.
"""
import re

from .. import core, model, objects
from ..core import LibraryError, Space
from . import C01

CLASSES = list(objects.CLASSES)


def mentioned(entries):
    """Attributes named by a list of differences."""
    out = set()
    for e in entries:
        e = e.split(" (self=")[0]
        m = re.match(r"^(?:\w+\()?self\.?(\w+)", e)
        out.add(m.group(1) if m else e)
    return out


def norm_diff(a, b):
    return {k for k in set(a) | set(b) if a.get(k, 0) != b.get(k, 0)}


def run_copy(ctx, case):
    cls, change = case["class"], case["change"]
    o = objects.build(cls, change)
    ctx.state(cls, sorted(change.items()))
    before = model.snapshot(o)
    c = ctx.call(o.copy)
    if not ctx.require("copy:" + cls, not isinstance(c, LibraryError), "copy failed: %s" % c):
        return
    ctx.require("copy-type:" + cls, type(c) is type(o), "copy is a %s" % type(c).__name__)
    ctx.require("copy-same:" + cls, c is not o, "the copy is the object itself")
    ctx.require("copy-content:" + cls, model.snapshot(c) == before, "%s: %s" % (change, C01.first_difference(before, model.snapshot(c))))
    ctx.require("copy-purity:" + cls, model.snapshot(o) == before, "the original changed")
    for sig, a, b in (("copy-equal:", o, c), ("copy-equal-back:", c, o)):
        ctx.agree(sig + cls, ctx.call(lambda: bool(a == b)), True)
        ctx.agree(sig + "ne:" + cls, ctx.call(lambda: bool(a != b)), False)
        ctx.agree(sig + "compare:" + cls, len(ctx.call(a.compare, b)), 0)
    cc = ctx.call(c.copy)
    ctx.require("copy-copy:" + cls, model.snapshot(cc) == before, "copy of the copy differs")


def run_equal(ctx, case):
    cls, change = case["class"], case["change"]
    a = objects.build(cls, change)
    ctx.state(cls, sorted(change.items()))
    for other in objects.variants(cls, 1):
        b = objects.build(cls, other)
        diff = norm_diff(change, other)
        ctx.agree("eq:" + cls, ctx.call(lambda: bool(a == b)), not diff)
        ctx.agree("ne:" + cls, ctx.call(lambda: bool(a != b)), bool(diff))
        for add in (False, True):
            got = ctx.call(a.compare, b, is_add_value=add)
            if ctx.require("compare:" + cls, isinstance(got, list), "%s / %s: %s" % (change, other, core.show(got))):
                ctx.require("compare:" + cls, mentioned(got) == diff, "%s / %s: reported %s" % (change, other, got))
                if not add and got:
                    rest = ctx.call(a.compare, b, ignore_list=[got[0]])
                    ctx.require("compare-ignore:" + cls, isinstance(rest, list) and rest == [e for e in got if e != got[0]], "%s / %s: ignoring %s leaves %s of %s" % (change, other, got[0], rest, got))


def equal_cases(tier):
    for cls in CLASSES:
        for change in objects.variants(cls, 2 if tier == "thorough" else 1):
            yield {"class": cls, "change": change}


def run_classes(ctx, case):
    a = objects.build(case["a"])
    for name in CLASSES + [None, "text", 3]:
        b = objects.build(name) if name in CLASSES else name
        same = name == case["a"]
        ctx.state(case["a"], name)
        ctx.agree("class-eq:" + case["a"], ctx.call(lambda: bool(a == b)), same)
        got = ctx.call(a.compare, b)
        ctx.require("class-compare:" + case["a"], isinstance(got, list) and bool(got) != same, "%s / %s: %s" % (case["a"], name, got))


def run_function(ctx, case):
    """Normalizations by functions given as such, not as text."""
    cls = objects.lib("Norm_func")
    f, g = (lambda x: 2 * x), (lambda x: 3 * x)
    pool = {"f": f, "g": g, "text": "lambda x: 2*x", "none": None}
    a, b = cls(function=pool[case["a"]]), cls(function=pool[case["b"]])
    ctx.state(case["a"], case["b"])
    same = case["a"] == case["b"]
    ctx.agree("function-eq", ctx.call(lambda: bool(a == b)), same)
    ctx.agree("function-compare", ctx.call(lambda: bool(a.compare(b))), not same)
    c = ctx.call(a.copy)
    ctx.require("function-copy", not isinstance(c, LibraryError) and c == a and c.function is not None or case["a"] == "none", "copy %s" % c)


def run_independent(ctx, case):
    """Every change on one of the two, at any depth, is invisible in the other."""
    cls, change = case["class"], case["change"]
    o = objects.build(cls, change)
    ref = model.snapshot(o)
    independent(ctx, case, lambda: objects.build(cls, change), ref, cls)


def independent(ctx, case, make, ref, label):
    o = make()
    for path in objects.places(o):
        for word in objects.edits(o, path):
            for side in ("copy", "original"):
                a = make()
                b = ctx.call(a.copy)
                if isinstance(b, LibraryError):
                    ctx.fail("independent:" + label, "copy failed: %s" % b)
                    return
                x, y = (b, a) if side == "copy" else (a, b)
                if not objects.edit(x, path, word):
                    continue
                ctx.transitions += 1
                ctx.state(label, str(case), str(path), word, side)
                ctx.require("independent:" + label, model.snapshot(y) == ref, "%s at %s of the %s shows in the other one" % (word, path, side))
                seen = ctx.call(lambda: bool(x == y))
                if ctx.require("change-seen:" + label, seen is False, "%s at %s is not seen by ==" % (word, path)):
                    got = ctx.call(x.compare, y)
                    ctx.require("change-seen-compare:" + label, isinstance(got, list) and len(got) > 0, "%s at %s: %s" % (word, path, got))


def run_library(ctx, case):
    name = case["object"]
    independent(ctx, case, lambda: C01.make(name), model.snapshot(C01.make(name)), "object")


def run_answers(ctx, case):
    """The copy answers like the original, also after the original was changed."""
    name, req = case["object"], case["request"]
    want, _ = C01.perform(ctx, C01.make(name), name, req)
    o = C01.make(name)
    c = ctx.call(o.copy)
    ctx.state(name, str(req))
    o2 = C01.make(name)
    c2 = ctx.call(o2.copy)
    for path in list(objects.places(o2)):
        try:
            here = objects.reach(o2, path)
        except Exception:
            continue
        if hasattr(here, "flat") and here.dtype.kind in "fc":
            here.flat[:] = 0.5
    for sig, x in (("answers", c), ("answers-after-change", c2)):
        got, _ = C01.perform(ctx, x, name, req)
        ctx.require(sig, C01.same(got, want), "%s %s: %s instead of %s" % (name, req, core.show(got), core.show(want)))


def answer_cases(tier):
    for name in C01.OBJECTS:
        for req in C01.requests(name):
            if req[0] not in C01.HEAVY or tier == "thorough":
                yield {"object": name, "request": req}


def spaces():
    return [
        Space("copy", equal_cases, run_copy, "14 classes, base content and every alternative of every attribute (pairs of alternatives thorough), copied once and twice"),
        Space("equality", equal_cases, run_equal, "every pair of those objects of the same class, ==, != and list of differences with and without values, ignoring one"),
        Space("classes", lambda t: [{"a": c} for c in CLASSES], run_classes, "every pair of classes, and None, text, number"),
        Space("functions", lambda t: [{"a": a, "b": b} for a in ("f", "g", "text", "none") for b in ("f", "g", "text", "none")], run_function, "normalizations by function objects"),
        Space("independence", lambda t: ({"class": c, "change": v} for c in CLASSES for v in objects.variants(c, 1)), run_independent, "every change at every depth (array elements, dictionary and list entries, attributes), on the copy and on the original"),
        Space("objects", lambda t: ({"object": n} for n in C01.OBJECTS), run_library, "the same on 23 realistic axes, fields and vector fields"),
        Space("answers", answer_cases, run_answers, "every request of the alphabet on a copy, also after the arrays of the original were overwritten"),
    ]


ASSUMPTIONS = ["contents without undefined values (NaN is not equal to itself)", "links to a parent are not content"]
