"""Reference model of sampled fields: boring numpy on fully written-out arrays.

Axis spec (JSON)
    {"name": "time", "kind": "lin"|"1d", "n": 4, "x0": 0.0, "h": 0.5,
     "sym": None | ["period", 3] | ["antiperiod", 2], "unit": "s", "x": [..]}
`n` samples are stored; the symmetry repeats them.  `x` gives explicit stored
coordinates (non uniform axis) instead of x0 + i*h.

Field spec
    {"axes": [axis, ...], "cplx": bool}
"""
import numpy as np

UNITS = {"time": "s", "angle": "rad", "z": "m", "x": "m", "freqs": "Hz", "wavenumber": "dimless"}


def axis(name, n, sym=None, kind="lin", x0=0.0, h=None, x=None, unit=None):
    d = {"name": name, "kind": kind, "n": n, "sym": sym, "unit": unit or UNITS.get(name, "m")}
    if x is not None:
        d["x"] = x
    else:
        d["x0"] = x0
        d["h"] = 0.5 if h is None else h
    return d


def reps(a):
    return a["sym"][1] if a["sym"] else 1


def stored_coords(a):
    if "x" in a:
        return np.array(a["x"], dtype=float)
    return a["x0"] + a["h"] * np.arange(a["n"])


def full_coords(a):
    """Coordinates of every sample of the axis, all periods written out."""
    x = stored_coords(a)
    n = reps(a)
    if n == 1:
        return x
    if "x" in a:
        period = x[-1] - x[0] + (x[-1] - x[-2])
    else:
        period = a["h"] * a["n"]
    return np.concatenate([x + k * period for k in range(n)])


def raw_values(shape, cplx=False, salt=0):
    """Deterministic values, all distinct in magnitude, no symmetry of their own."""
    size = int(np.prod(shape))
    k = np.arange(size)
    v = ((k * 37 + 11 + 5 * salt) % 101) - 50.0 + (k * k % 17) / 16.0 + 0.125
    if cplx:
        v = v + 1j * (((k * 53 + 7 + salt) % 97) - 48.0 + 0.25)
    return v.reshape(shape)


def stored_shape(f):
    return tuple(a["n"] for a in f["axes"])


def stored_values(f):
    return raw_values(stored_shape(f), f.get("cplx", False), f.get("salt", 0))


def expand(v, i, a):
    """Write out all periods of `v` along dimension i."""
    if not a["sym"]:
        return v
    kind, n = a["sym"]
    parts = [v if (kind == "period" or k % 2 == 0) else -v for k in range(n)]
    return np.concatenate(parts, axis=i)


def full_values(f):
    v = stored_values(f)
    for i, a in enumerate(f["axes"]):
        v = expand(v, i, a)
    return v


def one_period(a):
    """Number of samples of one full period."""
    return a["n"] * (2 if a["sym"] and a["sym"][0] == "antiperiod" else 1)


# --------------------------------------------------------------------------
# building the real objects
# --------------------------------------------------------------------------
def sym_dict(a):
    if not a["sym"]:
        return {}
    d = {a["sym"][0]: a["sym"][1]}
    if a["n"] == 1 and "h" in a:
        d["delta"] = a["h"]
    return d


def build_axis(a, full=False):
    """Real axis object; `full` writes all periods out (no symmetry)."""
    from SciDataTool import Data1D, DataLinspace

    norm = {}
    if full:
        x = full_coords(a)
        if "x" in a or a["kind"] == "1d":
            return Data1D(name=a["name"], unit=a["unit"], values=x, normalizations=norm)
        n = len(x)
        return DataLinspace(
            name=a["name"],
            unit=a["unit"],
            initial=a["x0"],
            final=a["x0"] + n * a["h"],
            number=n,
            include_endpoint=False,
            normalizations=norm,
        )
    if a["kind"] == "1d" or "x" in a:
        return Data1D(
            name=a["name"],
            unit=a["unit"],
            values=stored_coords(a),
            symmetries=sym_dict(a),
            normalizations=norm,
        )
    return DataLinspace(
        name=a["name"],
        unit=a["unit"],
        initial=a["x0"],
        final=a["x0"] + a["n"] * a["h"],
        number=a["n"],
        include_endpoint=False,
        symmetries=sym_dict(a),
        normalizations=norm,
    )


def build_field(f, full=False, cls=None):
    from SciDataTool import DataTime

    cls = cls or DataTime
    axes = [build_axis(a, full) for a in f["axes"]]
    vals = full_values(f) if full else stored_values(f)
    return cls(
        name="Test field",
        symbol="X",
        unit=f.get("unit", "T"),
        axes=axes,
        values=vals.copy(),
        is_real=not f.get("cplx", False),
    )


def snapshot(obj):
    """Canonical, deep, JSON-like picture of a library object (for purity)."""
    if obj is None or isinstance(obj, (bool, int, str)):
        return obj
    if isinstance(obj, float):
        return repr(obj)
    if isinstance(obj, complex):
        return repr(obj)
    if isinstance(obj, np.generic):
        return ("np", repr(obj.item()))
    if isinstance(obj, np.ndarray):
        return ("arr", obj.shape, obj.dtype.kind, [snapshot(v) for v in obj.ravel().tolist()])
    if isinstance(obj, dict):
        return ("dict", [(str(k), snapshot(obj[k])) for k in sorted(obj, key=str)])
    if isinstance(obj, (list, tuple)):
        return ("list", [snapshot(v) for v in obj])
    if callable(obj) and not hasattr(obj, "as_dict"):
        return ("callable", getattr(obj, "__name__", "?"))
    if hasattr(obj, "__dict__"):
        # what can be read through the public attributes
        d = {
            k: v
            for k, v in vars(obj).items()
            if k not in ("parent", "logger_name", "path")
            and (not k.startswith("_") or hasattr(type(obj), k[1:]))
        }
        return (type(obj).__name__, [(k, snapshot(d[k])) for k in sorted(d)])
    return repr(obj)
