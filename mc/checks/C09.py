"""Unit conversion is a consistent algebra."""
import itertools
from math import pi

import numpy as np

from ..core import LibraryError, Space

# independent table: value in SI and dimension (kg, m, s, temperature, angle, A)
SI = {
    "dimless": (1.0, (0, 0, 0, 0, 0, 0)),
    "degC": (1.0, (0, 0, 0, 1, 0, 0)),
    "rad": (1.0, (0, 0, 0, 0, 1, 0)),
    "°": (pi / 180, (0, 0, 0, 0, 1, 0)),
    "rpm": (2 * pi / 60, (0, 0, -1, 0, 1, 0)),
    "min": (60.0, (0, 0, 1, 0, 0, 0)),
    "s": (1.0, (0, 0, 1, 0, 0, 0)),
    "h": (3600.0, (0, 0, 1, 0, 0, 0)),
    "Hz": (1.0, (0, 0, -1, 0, 0, 0)),
    "A": (1.0, (0, 0, 0, 0, 0, 1)),
    "At": (1.0, (0, 0, 0, 0, 0, 1)),
    "g": (1e-3, (1, 0, 0, 0, 0, 0)),
    "m": (1.0, (0, 1, 0, 0, 0, 0)),
}


def _derive():
    """Dimensions of the derived units, from their physical definition."""
    base = {k: v[1] for k, v in SI.items()}

    def comb(**p):
        out = [0] * 6
        for k, e in p.items():
            out = [o + e * d for o, d in zip(out, base[k])]
        return tuple(out)

    def add(name, value, **p):
        base[name] = comb(**p)
        SI[name] = (value, base[name])

    add("N", 1.0, g=1, m=1, s=-2)
    add("Pa", 1.0, N=1, m=-2)
    add("J", 1.0, N=1, m=1)
    add("W", 1.0, J=1, s=-1)
    add("C", 1.0, A=1, s=1)
    add("V", 1.0, W=1, A=-1)
    add("Ohm", 1.0, V=1, A=-1)
    add("F", 1.0, C=1, V=-1)
    add("Wb", 1.0, V=1, s=1)
    add("Mx", 1e-8, Wb=1)
    add("T", 1.0, Wb=1, m=-2)
    add("G", 1e-4, T=1)
    add("H", 1.0, Wb=1, A=-1)


_derive()

PREFIX = {"Y": 1e24, "Z": 1e21, "E": 1e18, "P": 1e15, "T": 1e12, "G": 1e9, "M": 1e6, "k": 1e3, "h": 1e2, "da": 1e1, "": 1.0,
          "d": 1e-1, "c": 1e-2, "m": 1e-3, "µ": 1e-6, "u": 1e-6, "μ": 1e-6, "n": 1e-9, "p": 1e-12, "f": 1e-15, "a": 1e-18, "z": 1e-21, "y": 1e-24}
SYMBOLS = sorted(SI)

# one-letter prefixes that are also symbols: "hm" also reads as hour, ... (see DESIGN.md)
AMBIGUOUS = {(p, s) for p, ss in (("h", "AJWNCTGVFHm"), ("T", "GVFHm"), ("G", "VFHm")) for s in ss}


def term(p, s, e, style=""):
    if style == "^":
        power = "^%d" % e
    elif style == " ^ ":
        power = " ^ %d" % e
    elif style == "one":
        power = "%d" % e
    else:
        power = "" if e == 1 else "%d" % e
    return p + s + power


def text(u, style=""):
    """u: [[prefix, symbol, power]] or numerator and denominator."""
    return "/".join(term(*t, style=style) for t in u)


def value(u):
    v, dim = 1.0, (0,) * 6
    for (p, s, e), sign in zip(u, (1, -1)):
        x, d = SI[s]
        v *= (PREFIX[p] * x) ** (e * sign)
        dim = tuple(a + sign * e * b for a, b in zip(dim, d))
    return v, dim


VALUES = np.array([0.0, 1.0, -2.5, 1e-3, 3e6])


def check(ctx, u1, u2, sig, style=""):
    from SciDataTool.Functions.conversions import convert

    t1, t2 = text(u1, style), text(u2, style)
    v1, d1 = value(u1)
    v2, d2 = value(u2)
    x = VALUES.copy()
    got = ctx.call(convert, x, t1, t2)
    if d1 == d2:
        if isinstance(got, LibraryError):
            ctx.require(sig + ":accepted", False, "%s -> %s %r" % (t1, t2, got))
        else:
            want = VALUES * (v1 / v2)
            ctx.validated += 1
            got = np.asarray(got)
            ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-12 * np.abs(want)))
            ctx.require(sig + ":factor", ok, "%s -> %s: expected %s, got %s" % (t1, t2, want, got))
    else:
        ctx.require(sig + ":rejected", isinstance(got, LibraryError) and got.kind == "UnitError", "%s -> %s: %r" % (t1, t2, got))
    ctx.require(sig + ":input kept", bool(np.array_equal(x, VALUES)), "%s -> %s modified its input" % (t1, t2))


def run_pairs(ctx, case):
    ctx.state(case["sig"], case["u1"])
    for u2 in case["u2"]:
        check(ctx, case["u1"], u2, case["sig"], case.get("style", ""))


def terms(tier):
    for s in SYMBOLS:
        for e in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 6):
            ps = [p for p in PREFIX if (p, s) not in AMBIGUOUS]
            for p1 in ps:
                yield {"sig": "prefix", "u1": [[p1, s, e]], "u2": [[[p2, s, e]] for p2 in ps]}


def symbols(tier):
    us = [[[p, s, e]] for s in SYMBOLS for e in (1, 2, 3) for p in ("", "k", "m")]
    for u1 in us:
        yield {"sig": "symbol", "u1": u1, "u2": us}


def fractions(tier):
    nums = [["", s, 1] for s in SYMBOLS] + [["k", "m", 1], ["m", "m", 2], ["m", "T", 1], ["k", "g", 1], ["c", "m", 3], ["", "m", 2], ["k", "N", 1]]
    dens = [["", s, e] for s in SYMBOLS for e in (1, 2)] + [["m", "s", 2], ["k", "m", 1], ["c", "m", 2], ["m", "m", 3], ["", "h", 2], ["µ", "s", 1]]
    us = [[n, d] for n in nums for d in dens]
    plain = [[["", s, 1]] for s in SYMBOLS]
    groups = {}
    for u in us + plain:
        groups.setdefault(value(u)[1], []).append(u)
    for u1 in us:
        same = groups[value(u1)[1]]
        yield {"sig": "fraction", "u1": u1, "u2": same + plain}
    for u1 in plain:
        yield {"sig": "fraction", "u1": u1, "u2": us}


def styles(tier):
    us = [[["", "m", 1]], [["c", "m", 2]], [["m", "s", 3]], [["k", "m", 1], ["", "h", 1]], [["", "m", 1], ["", "s", 2]], [["m", "m", 1], ["m", "s", 2]], [["k", "N", 1], ["m", "m", 2]], [["", "Pa", 1]]]
    for style in ("^", " ^ ", "one", ""):
        for u1 in us:
            yield {"sig": "style", "u1": u1, "u2": us, "style": style}


def ambiguous(tier):
    for p, s in sorted(AMBIGUOUS):
        yield {"sig": "ambiguous:" + p + s, "u1": [[p, s, 1]], "u2": [[["", s, 1]]]}


def run_ambiguous(ctx, case):
    from SciDataTool.Functions.conversions import convert

    ctx.state(case["sig"])
    u1, u2 = case["u1"], case["u2"][0]
    got = ctx.call(convert, 1.0, text(u1), text(u2))
    ok = not isinstance(got, LibraryError) and abs(got - PREFIX[u1[0][0]]) <= 1e-9 * PREFIX[u1[0][0]]
    ctx.require(case["sig"], ok, "%s -> %s: %r" % (text(u1), text(u2), got))


def run_unknown(ctx, case):
    from SciDataTool.Functions.conversions import convert

    ctx.state("unknown", case["a"], case["b"])
    got = ctx.call(convert, VALUES.copy(), case["a"], case["b"])
    ctx.require("unknown", isinstance(got, LibraryError) and got.kind == "UnitError", "%s -> %s: %r" % (case["a"], case["b"], got))


def unknown(tier):
    good = ["m", "s", "T", "m/s", "km/h2", "dimless", "Pa"]
    bad = ["q", "xq", "qm", "xs", "kks", "mmT", "QPa", "qq/s", "m/qq", "m/qs", "xT/m", "?", "K", "kkm/s"]
    for g, b in itertools.product(good, bad):
        yield {"a": g, "b": b}
        yield {"a": b, "b": g}


TRAILING = [("sone", "s"), ("Nm", "N"), ("s-1", "s"), ("m/s/s", "m/s"), ("m2x", "m2")]


def trailing(tier):
    for a, b in TRAILING:
        yield {"a": a, "b": b}


def run_trailing(ctx, case):
    """Text after the symbol makes it another unit."""
    from SciDataTool.Functions.conversions import convert

    ctx.state("trailing", case["a"], case["b"])
    got = ctx.call(convert, VALUES.copy(), case["a"], case["b"])
    ctx.require("trailing:" + case["a"], isinstance(got, LibraryError) and got.kind == "UnitError", "%s -> %s: %r" % (case["a"], case["b"], got))


KINDS = {
    "float": 2.5, "int": 3, "zero": 0.0, "intarr": np.array([1, 2, 3]), "arr2": np.arange(6.0).reshape(2, 3),
    "cplx": np.array([1 + 2j, -3j]), "empty": np.array([]), "neg": np.array([-1.5, -2.0]), "nan": np.array([1.0, np.nan]),
    "f32": np.array([1.5, 2.5], dtype=np.float32), "strided": np.arange(10.0)[::3],
}


def run_values(ctx, case):
    """Any kind of values, any chain of conversions of one dimension and back."""
    from SciDataTool.Functions.conversions import convert

    x0 = KINDS[case["kind"]]
    keep = np.array(x0, copy=True)
    x, cur = x0, case["chain"][0]
    ctx.state("chain", case)
    for nxt in case["chain"][1:]:
        y = ctx.call(convert, x, text(cur), text(nxt))
        if isinstance(y, LibraryError):
            ctx.require("chain:call", False, "%s -> %s: %r" % (text(cur), text(nxt), y))
            return
        x, cur = y, nxt
        f = value(case["chain"][0])[0] / value(cur)[0]
        ctx.agree("chain:value", x, keep * f, rtol=1e-6 if case["kind"] == "f32" else 1e-11)
    ctx.agree("chain:input", np.asarray(x0), keep, rtol=0, atol=0)


def values(tier):
    groups = [
        [[["", "m", 1]], [["k", "m", 1]], [["m", "m", 1]]],
        [[["", "rad", 1]], [["", "°", 1]], [["m", "rad", 1]]],
        [[["", "m", 1], ["", "s", 2]], [["k", "m", 1], ["", "h", 2]], [["d", "m", 1], ["m", "s", 2]]],
        [[["", "T", 1]], [["", "G", 1]], [["m", "T", 1]], [["", "Wb", 1], ["", "m", 2]]],
        [[["", "rpm", 1]], [["", "rad", 1], ["", "s", 1]], [["", "°", 1], ["", "min", 1]]],
        [[["", "Pa", 1]], [["", "N", 1], ["", "m", 2]], [["", "J", 1], ["", "m", 3]], [["M", "Pa", 1]]],
        [[["", "dimless", 1]], [["m", "dimless", 1]], [["", "m", 1], ["m", "m", 1]]],
    ]
    for kind in KINDS:
        for g in groups:
            for d in (2, 3) if tier == "quick" else (2, 3, 4):
                for ch in itertools.product(g, repeat=d):
                    yield {"kind": kind, "chain": list(ch)}


def run_bark(ctx, case):
    from SciDataTool.Functions.conversions import convert

    f = np.array(case["f"])
    ctx.state("bark", case)
    z = ctx.call(convert, f.copy(), "Hz", "Bark")
    ctx.agree("bark:forward", z, 26.81 * f / (1960 + f) - 0.53)
    if not isinstance(z, LibraryError):
        ctx.agree("bark:back", ctx.call(convert, np.array(z, copy=True), "Bark", "Hz"), f, rtol=1e-10)
    for u in ("m", "kHz", "rad"):
        if u != "kHz":
            got = ctx.call(convert, f.copy(), u, "Bark")
            ctx.require("bark:rejected", isinstance(got, LibraryError), "%s -> Bark gave %r" % (u, got))


def bark(tier):
    fs = [0.0, 20.0, 100.0, 440.0, 1000.0, 5000.0, 20000.0]
    for k in (1, 2, 3):
        for f in itertools.combinations(fs, k):
            yield {"f": list(f)}


def run_empty(ctx, case):
    from SciDataTool.Functions.conversions import convert

    ctx.state("empty", case["a"], case["b"])
    got = ctx.call(convert, VALUES.copy(), case["a"], case["b"])
    ctx.agree("dimensionless", got, VALUES * case["f"])


def empty(tier):
    for a, b, f in (("", "dimless", 1), ("dimless", "", 1), ("", "", 1), ("dimless", "dimless", 1), ("m/m", "", 1), ("", "mm/m", 1e3), ("/s", "Hz", 1), ("Hz", "/s", 1), ("/ms", "kHz", 1), ("km/m", "", 1e3)):
        yield {"a": a, "b": b, "f": f}


def spaces():
    return [
        Space("terms", terms, run_pairs, "27 symbols x powers 1-3 (up to 6 thorough): every ordered pair of the 23 prefixes"),
        Space("symbols", symbols, run_pairs, "every ordered pair of (prefix none/k/m, 27 symbols, power 1-3): factor if the dimensions agree, rejection otherwise"),
        Space("fractions", fractions, run_pairs, "2,040 numerator/denominator units: every pair of equal dimension, and against every plain symbol in both directions"),
        Space("styles", styles, run_pairs, "8 units written with ^, spaces and explicit power one"),
        Space("values", values, run_values, "11 kinds of values x chains of 2 or 3 (4 thorough) units in 7 dimensions"),
        Space("unknown", unknown, run_unknown, "16 malformed units against 7 good ones, both directions"),
        Space("bark", bark, run_bark, "Bark scale, all sets of up to 3 of 7 frequencies"),
        Space("dimensionless", empty, run_empty, "10 writings of dimensionless and inverse units"),
        Space("trailing", trailing, run_trailing, "5 units with text after a known symbol"),
        Space("ambiguous", ambiguous, run_ambiguous, "20 prefix+symbol pairs whose prefix letter is also a symbol"),
    ]


ASSUMPTIONS = ["one symbol per numerator and denominator; products such as N*m are outside the unit language"]
