"""Alphabet of objects: every class of the library with alternatives for each attribute.

`CLASSES[name]` maps each attribute to a list of makers; the first one is the
content of the base object, the others differ from it and from one another.
A *variant* is (class name, {attribute: position of the alternative}).
"""
import numpy as np

NORMS = ("Norm_ref", "Norm_affine", "Norm_vector", "Norm_func", "Norm_indices")


def lib(name):
    return getattr(__import__("SciDataTool.Classes." + name, fromlist=[name]), name)


def _norms(**kw):
    return lambda: {k: v() for k, v in kw.items()}


def n_ref(r, unit="SI"):
    return lambda: lib("Norm_ref")(ref=r, unit=unit)


def n_aff(s, o):
    return lambda: lib("Norm_affine")(slope=s, offset=o)


def n_vec(*v):
    return lambda: lib("Norm_vector")(vector=np.array(v))


def n_fun(text):
    return lambda: lib("Norm_func")(function=text)


def n_ind():
    return lib("Norm_indices")()


def const(v):
    return lambda: v


def arr(*v, dtype=None):
    return lambda: np.array(v, dtype=dtype)


def new_list(*v):
    return lambda: list(v)


def new_dict(**kw):
    return lambda: {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}


STR = [const("a"), const("b"), const(""), const("A")]
BOOL_F = [const(False), const(True)]
BOOL_T = [const(True), const(False)]
SYM = [
    new_dict(),
    new_dict(period=2),
    new_dict(period=3),
    new_dict(antiperiod=2),
    new_dict(period=2, delta=0.5),
]
LIST = [const(None), new_list(), new_list(0, 1), new_list(1, 0), new_list(0, 1, 2)]
NORMALIZATIONS = [
    _norms(),
    _norms(a=n_ref(2.0)),
    _norms(a=n_ref(3.0)),
    _norms(b=n_ref(2.0)),
    _norms(a=n_ref(2.0, "m")),
    _norms(a=n_aff(2.0, 0.0)),
    _norms(a=n_aff(2.0, 1.0)),
    _norms(a=n_aff(3.0, 0.0)),
    _norms(a=n_vec(1.0, 2.0, 4.0)),
    _norms(a=n_vec(1.0, 2.0, 5.0)),
    _norms(a=n_fun("lambda x: 2*x")),
    _norms(a=n_fun("lambda x: 3*x")),
    _norms(a=n_ind),
    _norms(a=n_ref(2.0), b=n_ref(3.0)),
    _norms(a=n_ref(3.0), b=n_ref(2.0)),
]
DATA = {"symbol": STR, "name": [const("n"), const("m"), const("")], "unit": [const("T"), const("s"), const("")],
        "normalizations": NORMALIZATIONS}


def ax_time(**kw):
    d = dict(name="time", unit="s", values=np.array([0.0, 0.5, 1.5]))
    d.update(kw)
    return lib("Data1D")(**d)


def ax_angle(**kw):
    d = dict(name="angle", unit="rad", initial=0.0, final=3.0, number=3, include_endpoint=False)
    d.update(kw)
    return lib("DataLinspace")(**d)


AXES = [
    lambda: [ax_time(), ax_angle()],
    lambda: [ax_angle(), ax_time()],
    lambda: [ax_time(unit="ms"), ax_angle()],
    lambda: [ax_time(name="z"), ax_angle()],
    lambda: [ax_time(symbol="t"), ax_angle()],
    lambda: [ax_time(values=np.array([0.0, 0.5, 1.0])), ax_angle()],
    lambda: [ax_time(symmetries={"period": 2}), ax_angle()],
    lambda: [ax_time(is_overlay=True), ax_angle()],
    lambda: [ax_time(delimiter=","), ax_angle()],
    lambda: [ax_time(filter={"k": ["u", "v"]}), ax_angle()],
    lambda: [ax_time(sort_indices=[2, 0, 1]), ax_angle()],
    lambda: [ax_time(normalizations={"k": lib("Norm_ref")(ref=2.0)}), ax_angle()],
    lambda: [ax_time(), ax_angle(final=6.0)],
    lambda: [ax_time(), ax_angle(initial=1.0)],
    lambda: [ax_time(), ax_angle(symmetries={"antiperiod": 4})],
    lambda: [ax_time(), ax_angle(normalizations={"k": lib("Norm_affine")(slope=2.0, offset=1.0)})],
    lambda: [ax_angle(name="time", unit="s"), ax_angle()],
]
SAMPLES = np.arange(9.0).reshape(3, 3) * 0.75 - 2.0


def values(change=None, cplx=False, scale=1.0):
    def make():
        v = SAMPLES * scale
        if cplx:
            v = v + 1j * np.arange(9.0).reshape(3, 3)
        if change is not None:
            v = v.copy()
            v.flat[change] += 1.0
        return v

    return make


FIELD_VALUES = [values(), values(change=8), values(change=0), values(cplx=True), values(scale=-1.0),
                lambda: np.arange(9).reshape(3, 3)]
FT = [new_dict(), new_dict(window="hann"), new_dict(window="hamming"), new_dict(zero_padding=2), new_dict(k=[1, 2])]
FIELD = dict(DATA, axes=AXES, FTparameters=FT, values=FIELD_VALUES, is_real=BOOL_T)


def freq_axes(**kw):
    d = dict(name="freqs", unit="Hz", values=np.array([0.0, 1.0, 2.0]))
    d.update(kw)
    return [lib("Data1D")(**d), lib("Data1D")(name="wavenumber", unit="dimless", values=np.array([-1.0, 0.0, 1.0]))]


def field(cls="DataTime", axes=0, vals=0, **kw):
    d = dict(name="f", symbol="F", unit="T", axes=AXES[axes](), values=FIELD_VALUES[vals]())
    d.update(kw)
    return lib(cls)(**d)


COMPONENTS = [
    lambda: {"radial": field()},
    lambda: {"radial": field(), "tangential": field()},
    lambda: {"tangential": field()},
    lambda: {"comp_x": field()},
    lambda: {"radial": field(vals=1)},
    lambda: {"radial": field(axes=2)},
    lambda: {"radial": field(unit="N")},
    lambda: {"radial": field(cls="DataND")},
    lambda: {"radial": field(), "tangential": field(vals=1)},
    lambda: {"radial": field(vals=1), "tangential": field()},
    lambda: {},
]

CLASSES = {
    "Norm_ref": {"ref": [const(2.0), const(3.0), const(-2.0), const(0.5)], "unit": [const("SI"), const("m"), const("")]},
    "Norm_affine": {
        "slope": [const(2.0), const(3.0), const(1.0)],
        "offset": [const(0.5), const(2.0), const(0.0)],
        "unit": [const("SI"), const("m")],
    },
    "Norm_vector": {
        "vector": [arr(1.0, 2.0, 4.0), arr(1.0, 2.0, 5.0), arr(2.0, 1.0, 4.0), arr(1.0, 2.0), arr(1.0, 2.0, 4.0, 8.0), const(None)],
        "unit": [const("SI"), const("m")],
    },
    "Norm_func": {
        "function": [const("lambda x: 2*x"), const("lambda x: 3*x"), const("lambda x: x**2"), const(None)],
        "unit": [const("SI"), const("m")],
    },
    "Norm_indices": {"unit": [const("SI"), const("m"), const("")]},
    "Data": DATA,
    "Data1D": dict(
        DATA,
        values=[arr(0.0, 0.5, 1.5), arr(0.0, 0.5, 1.0), arr(0.5, 0.0, 1.5), arr(0.0, 0.5), arr(), arr("u", "v", "w"),
                arr("u", "w", "v"), arr(0, 1, 2), const(None)],
        is_components=BOOL_F,
        symmetries=SYM,
        is_overlay=BOOL_F,
        delimiter=[const(None), const(","), const("")],
        sort_indices=LIST,
        filter=[const(None), new_dict(), new_dict(k=["u", "v"]), new_dict(k=["u", "w"]), new_dict(l=["u", "v"])],
        char_to_rm=[const(None), new_list(), new_list("x"), new_list("y")],
    ),
    "DataLinspace": dict(
        DATA,
        initial=[const(0.0), const(1.0), const(None)],
        final=[const(3.0), const(4.0), const(None)],
        step=[const(None), const(1.0), const(0.5)],
        number=[const(3), const(4), const(None)],
        include_endpoint=BOOL_T,
        is_components=BOOL_F,
        symmetries=SYM,
        is_overlay=BOOL_F,
    ),
    "DataPattern": dict(
        DATA,
        rebuild_indices=[new_list(0, 1, 0), new_list(0, 1, 1), new_list(0, 1), const(None)],
        unique_indices=[new_list(0, 1), new_list(0, 2), new_list(0), const(None)],
        is_step=BOOL_T,
        values=[arr(0.0, 0.5), arr(0.0, 0.75), arr(0.5, 0.0), arr(0.0), const(None)],
        is_components=BOOL_F,
        symmetries=SYM,
        values_whole=[arr(0.0, 0.5, 1.0), arr(0.0, 0.5, 1.5), arr(0.0, 0.5), const(None)],
        is_overlay=BOOL_F,
    ),
    "DataND": FIELD,
    "DataTime": FIELD,
    "DataFreq": dict(
        FIELD,
        axes=[freq_axes, lambda: freq_axes(values=np.array([0.0, 1.0, 3.0])), lambda: freq_axes(unit="Hz2"),
              lambda: freq_axes(symmetries={"period": 2}), lambda: list(reversed(freq_axes()))],
    ),
    "DataDual": dict(
        FIELD,
        axes=[AXES[0], AXES[1], AXES[2]],
        values=FIELD_VALUES[:4],
        axes_dt=AXES[:6],
        values_dt=FIELD_VALUES,
        axes_df=[freq_axes, lambda: freq_axes(values=np.array([0.0, 1.0, 3.0])), lambda: freq_axes(unit="Hz2")],
        values_df=[values(cplx=True), values(cplx=True, change=8), values(cplx=True, change=0), values()],
    ),
    "VectorField": {"name": [const("n"), const("m"), const("")], "symbol": STR, "components": COMPONENTS},
    "RequestedAxis": {
        "name": [const("time"), const("angle"), const("")],
        "corr_name": [const("time"), const("freqs"), const("")],
        "unit": [const("SI"), const("ms")],
        "corr_unit": [const("s"), const("Hz")],
        "extension": [const("whole"), const("interval"), const("")],
        "values": [arr(0.0, 0.5, 1.5), arr(0.0, 0.5, 1.0), arr(0.0, 0.5), const(None)],
        "indices": [new_list(0, 1), new_list(1, 0), new_list(), const(None)],
        "input_data": [const(None), arr(0.0, 1.0), arr(0.0, 2.0)],
        "operation": [const(None), const("freqs_to_time"), const("")],
        "index": [const(None), const(0), const(2)],
        "transform": [const(None), const("fft"), const("ifft")],
        "is_pattern": BOOL_F,
        "rebuild_indices": [const(None), arr(0, 1, 0), arr(0, 1, 1)],
        "is_step": BOOL_F,
        "noct": [const(None), const(1), const(3)],
        "corr_values": [const(None), arr(0.0, 1.0), arr(0.0, 2.0)],
        "is_components": BOOL_F,
    },
}


def variants(cls, depth=1):
    """Variants with at most `depth` attributes away from the base, simplest first."""
    attrs = list(CLASSES[cls])
    yield {}
    singles = [(a, i) for a in attrs for i in range(1, len(CLASSES[cls][a]))]
    for a, i in singles:
        yield {a: i}
    if depth > 1:
        for k, (a, i) in enumerate(singles):
            for b, j in singles[k + 1 :]:
                if a != b:
                    yield {a: i, b: j}


def build(cls, change=None):
    change = change or {}
    kw = {a: alts[change.get(a, 0)]() for a, alts in CLASSES[cls].items()}
    return lib(cls)(**kw)


def attributes(obj):
    """Public attributes of an object, None if it has no known class."""
    return CLASSES.get(type(obj).__name__)


# --------------------------------------------------------------------------
# changes that can be made to an object, at any depth
# --------------------------------------------------------------------------
def places(obj, path=()):
    """Paths of all the things reachable from an object (attributes, items)."""
    yield path
    if isinstance(obj, dict):
        for k in obj:
            yield from places(obj[k], path + (["key", k],))
    elif isinstance(obj, list):
        for k, v in enumerate(obj):
            yield from places(v, path + (["item", k],))
    elif attributes(obj) is not None:
        for a in attributes(obj):
            yield from places(getattr(obj, a), path + (["attr", a],))


def reach(obj, path):
    for kind, k in path:
        obj = getattr(obj, k) if kind == "attr" else obj[k]
    return obj


def edits(obj, path):
    """Changes possible at a place, as words."""
    here = reach(obj, path)
    out = []
    if isinstance(here, np.ndarray) and here.size:
        out += ["first", "last"]
    elif isinstance(here, dict):
        out += ["add", "clear"]
    elif isinstance(here, list):
        out += ["append", "clear"]
    if path and path[-1][0] == "attr":
        out.append("assign")
    return out


def same_content(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and np.array_equal(a, b)
    if callable(b) and isinstance(a, str):
        return b(1.5) == eval(a)(1.5)
    from .model import snapshot

    plain = (bool, int, float, str, type(None))
    if isinstance(a, plain) and isinstance(b, plain):
        return a == b
    return snapshot(a) == snapshot(b)


def edit(obj, path, word):
    """Make the change; True if something was changed."""
    here = reach(obj, path)
    if word in ("first", "last"):
        k = 0 if word == "first" else -1
        here.flat[k] = "zz" if here.dtype.kind in "U" else here.flat[k] + 1
    elif word == "add":
        owner = path[-1][1]
        here["zz"] = n_ref(5.0)() if owner == "normalizations" else field() if owner == "components" else 7
    elif word == "append":
        first = here[0] if here else None
        here.append(first.copy() if attributes(first) is not None else 7)
    elif word == "clear":
        if not here:
            return False
        here.clear()
    elif word == "assign":
        owner = reach(obj, path[:-1])
        name = path[-1][1]
        alts = attributes(owner)[name]
        for make in alts:
            new = make()
            if same_content(new, here):
                continue
            try:
                setattr(owner, name, new)
            except Exception:
                continue
            return True
        return False
    return True
