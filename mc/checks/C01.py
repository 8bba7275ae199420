"""Reading a field or an axis never changes it.

The state of an object is the deep picture of everything it holds.  Every
request is a transition; the property says that the reachable state graph has
one state and that the answer of a request does not depend on the history.
Pairs of requests reveal memory kept outside of the object.
"""
import itertools
import os

import numpy as np

from .. import core, model
from ..core import LibraryError, Space

def with_norms(obj, vector=True):
    from SciDataTool import Norm_affine, Norm_indices, Norm_ref, Norm_vector

    for ax in obj.axes:
        ax.normalizations = {"nref": Norm_ref(ref=2.0), "naff": Norm_affine(slope=2.0, offset=1.0), "nind": Norm_indices()}
        if vector and hasattr(ax, "number"):
            ax.normalizations["nvec"] = Norm_vector(vector=np.arange(ax.number) * 10.0)
    obj.normalizations = {"ref": Norm_ref(ref=0.01), "half": Norm_ref(ref=2.0)}
    return obj


def make(name):
    """Freshly built object."""
    from SciDataTool import Data1D, DataFreq, DataLinspace, DataPattern, DataTime, VectorField

    ax = model.axis
    if name == "time-angle":
        return with_norms(model.build_field({"axes": [ax("time", 4, ["antiperiod", 2]), ax("angle", 4, ["period", 2], h=np.pi / 4)], "cplx": False}))
    if name == "angle-time":
        return with_norms(model.build_field({"axes": [ax("angle", 3, ["antiperiod", 4], kind="1d", h=np.pi / 6), ax("time", 5, ["period", 3], kind="1d", h=0.01)], "cplx": False}))
    if name == "complex":
        return with_norms(model.build_field({"axes": [ax("time", 4, None), ax("x", 3, None, kind="1d", x=[0.0, 0.5, 2.0])], "cplx": True}))
    if name == "one":
        return with_norms(model.build_field({"axes": [ax("time", 6, None, h=0.001)], "cplx": False}))
    if name == "three":
        return model.build_field({"axes": [ax("time", 4, ["period", 2]), ax("angle", 4, None, h=np.pi / 2), ax("z", 3, None, x0=-1.0)], "cplx": False})
    if name == "freqs-wavenumber":
        f = Data1D(name="freqs", unit="Hz", values=np.array([0.0, 10.0, 20.0]))
        r = DataLinspace(name="wavenumber", unit="dimless", initial=-2, final=2, number=4, include_endpoint=False)
        return with_norms(DataFreq(name="Test field", symbol="X", unit="T", axes=[f, r], values=model.raw_values((3, 4), True)), vector=False)
    if name == "spectrum":
        f = DataLinspace(name="freqs", unit="Hz", initial=0, final=100, number=5, include_endpoint=True)
        return with_norms(DataFreq(name="Test field", symbol="X", unit="W", axes=[f], values=model.raw_values((5,), True)))
    if name == "levels":
        f = Data1D(name="freqs", unit="Hz", values=np.array([20.0, 50.0, 100.0, 500.0]))
        return DataFreq(name="Test field", symbol="X", unit="dB", axes=[f], values=np.array([1.0, 30.0, -4.0, 55.0]))
    if name == "order-speed":
        from SciDataTool import Norm_ref

        s = Data1D(name="speed", unit="rpm", values=np.array([600.0, 1200.0]))
        o = Data1D(name="order", unit="dimless", values=np.array([1.0, 2.0, 4.0]))
        return DataFreq(name="Test field", symbol="X", unit="T", axes=[s, o], values=model.raw_values((2, 3)) + 0j, normalizations={"ref": Norm_ref(ref=0.01)})
    if name == "components":
        c = Data1D(name="phase", unit="", values=["Phase A", "Phase B", "Phase C"], is_components=True)
        t = model.build_axis(ax("time", 4, ["period", 2]))
        return DataTime(name="Test field", symbol="X", unit="A", axes=[t, c], values=model.raw_values((4, 3)))
    if name == "pattern":
        z = DataPattern(name="z", unit="m", values=np.array([-1.0, 0.0]), values_whole=np.array([-1.0, 0.0, 0.0, 1.0]), rebuild_indices=[0, 0, 1, 1], unique_indices=[0, 2])
        t = model.build_axis(ax("time", 4, None))
        return DataTime(name="Test field", symbol="X", unit="T", axes=[t, z], values=model.raw_values((4, 2)))
    if name == "dual-time":
        return make("time-angle").to_datadual()
    if name == "dual-freq":
        return make("freqs-wavenumber").to_datadual()
    if name.startswith("vf-"):
        layout = {"xyz": ("comp_x", "comp_y", "comp_z"), "rphiz": ("radial", "tangential", "axial"), "rphi": ("radial", "tangential"), "freq": ("radial", "tangential"), "one": ("radial",)}[name[3:]]
        comps = {}
        for k, c in enumerate(layout):
            if name == "vf-freq":
                d = make("freqs-wavenumber")
            elif name == "vf-rphiz":
                d = make("three")
            else:
                d = make("time-angle")
            d.values = d.values + k
            d.symbol = "X_" + {"comp_x": "x", "comp_y": "y", "comp_z": "z", "radial": "r", "tangential": "t", "axial": "z"}[c]
            comps[c] = d
        return VectorField(name="Test vector field", symbol="X", components=comps)
    if name.startswith("axis-"):
        kind = name[5:]
        from SciDataTool import Norm_affine, Norm_ref, Norm_vector

        nn = {"nref": Norm_ref(ref=2.0), "naff": Norm_affine(slope=2.0, offset=1.0), "nvec": Norm_vector(vector=np.array([3.0, 1.0, 2.0]))}
        if kind == "lin":
            return DataLinspace(name="angle", unit="rad", initial=0, final=np.pi / 2, number=3, include_endpoint=False, symmetries={"antiperiod": 4}, normalizations=nn)
        if kind == "1d":
            return Data1D(name="time", unit="s", values=np.array([0.0, 0.5, 1.0]), symmetries={"period": 2}, normalizations=nn)
        if kind == "uneven":
            return Data1D(name="time", unit="s", values=np.array([0.0, 0.5, 2.0]), symmetries={"antiperiod": 2}, normalizations=nn)
        if kind == "pattern":
            return DataPattern(name="z", unit="m", values=np.array([-1.0, 0.0]), values_whole=np.array([-1.0, 0.0, 0.0, 1.0]), rebuild_indices=[0, 0, 1, 1], unique_indices=[0, 2], normalizations={"nref": nn["nref"]})
        if kind == "components":
            return Data1D(name="phase", unit="", values=["1-a", "1-b", "2-a"], is_components=True, delimiter="-", filter={"n": ["1", "2"], "l": ["a", "b"]})
    raise KeyError(name)


GA, GM, GP, GD, GH = "get_along", "get_magnitude_along", "get_phase_along", "get_data_along", "get_harmonics"
BAD = [
    [GA, ["nothing"], {}],
    [GA, ["time=wrong"], {}],
    [GA, ["time[0]", "angle[99]"], {}],
    [GA, ["time", "angle", "x", "phase", "freqs"], {"unit": "kg"}],
    [GM, ["freqs"], {"unit": "Pa"}],
    [GA, ["time{rad}"], {}],
    [GA, ["time->unknown"], {}],
    [GD, ["time", "angle"], {"unit": "Pa"}],
    ["export_along", ["time"], {"file_format": "doc", "save_path": "SCRATCH"}],
]
COMMON = [
    ["copy", [], {}],
    ["as_dict", [], {}],
    ["get_axes", [], {}],
    ["has_period", [], {}],
    ["==", [], {}],
    ["export_along", [], {"save_path": "SCRATCH", "is_2D": False}],
    ["save", [], {"save_path": "SCRATCHFILE"}],
]


def td(a, b, ops=True):
    """Requests on a field along axes a and b."""
    out = [
        [GA, [a, b], {}], [GA, [a], {}], [GA, [b], {}], [GA, [], {}],
        [GA, [a + "[1]", b], {}], [GA, [a + "[oneperiod]", b + "[smallestperiod]"], {}],
        [GA, [a + "[smallestperiod]", b + "[oneperiod]"], {}], [GA, [a + "[antiperiod]", b], {}], [GA, [a, b + "[antiperiod]"], {}],
        [GA, [a + "=[0,0.5]", b], {}], [GA, [b + "<1", a], {}],
        [GA, [a, b], {"unit": "mT"}], [GA, [a, b], {"is_norm": True}], [GA, [a, b], {"unit": "half"}],
        [GA, [a + "->nref", b + "->naff"], {}], [GA, [a + "[oneperiod]->nvec", b], {}], [GA, [a, b + "->nvec"], {}],
        [GA, [a + "=axis_data", b], {"axis_data": {a: [0.1, 0.3, 0.2]}}],
        [GA, [a, b + "=axis_data"], {"axis_data": {b: [0.0, 0.3, 0.3]}}],
        [GM, [a, b], {}], [GM, [a, b], {"unit": "dB"}], [GM, [a, b + "=sum"], {"unit": "dB"}], [GP, [a, b], {}],
        [GD, [a, b], {}], [GD, [a + "[oneperiod]", b + "[0]"], {}], [GD, [a + "=mean", b], {}], [GD, [a, b], {"unit": "dB"}],
        ["compare_along", [a, b], {"data_list": ["self", "fresh"]}],
        ["compare_magnitude_along", [a, b], {"data_list": ["fresh"]}],
        ["compare_phase_along", [a, b], {"data_list": ["fresh"]}],
    ]
    if ops:
        for op in ("sum", "mean", "rms", "rss", "max", "min", "integrate", "integrate_local", "derivate", "antiderivate"):
            out.append([GA, [a + "=" + op, b], {}])
            out.append([GA, [a, b + "=" + op], {}])
        out.append([GA, [a + "=rms", b + "=max"], {}])
    return out


def spectral(t, s):
    out = [[GA, ["freqs"], {}], [GM, ["freqs"], {}], [GM, ["freqs"], {"unit": "dB"}], [GM, ["freqs"], {"unit": "dBA"}], [GP, ["freqs"], {}], [GH, [2, "freqs"], {}], [GA, ["freqs=[10,30]"], {}], [GA, ["freqs->nref"], {}], [GA, ["freqs=[3,4,7]"], {}], [GM, ["freqs=sum"], {"unit": "dBA"}], [GM, ["freqs->1/3oct"], {"unit": "dB"}], [GD, ["freqs"], {}]]
    if s:
        out += [[GA, ["freqs", "wavenumber"], {}], [GA, ["wavenumber", t], {}], [GM, ["wavenumber=[0,2]", "freqs"], {}], [GH, [3, "freqs", "wavenumber"], {}], [GD, ["freqs", "wavenumber"], {}], [GM, ["freqs", "wavenumber"], {"unit": "dB"}], ["change_referential", [60.0, True], {}], ["change_referential", [60.0, False], {}]]
    out += [["time_to_freq", [], {}], ["to_datadual", [], {}], ["filter_spectral_leakage", [[0.0, 0.25, 0.5]], {}]]
    return out


PLOTS = [["plot_2D_Data", ["time"], {"is_show_fig": False}], ["plot_2D_Data", ["time", "angle[0,1]"], {"is_show_fig": False}], ["plot_2D_Data", ["freqs"], {"is_show_fig": False}], ["plot_3D_Data", ["time", "angle"], {"is_show_fig": False, "is_2D_view": True}], ["plot_2D_Data", ["time=wrong"], {"is_show_fig": False}], ["export_along", ["time", "angle[0]"], {"save_path": "SCRATCH"}]]


def vf_requests():
    out = []
    for g in ("get_xyz_along", "get_rphiz_along", "get_mag_xyz_along", "get_mag_rphiz_along"):
        for args in (["time", "angle"], ["time[0]", "angle[1]"], ["angle=mean"], ["freqs", "wavenumber"], ["time", "angle[smallestperiod]"], ["time=wrong"], ["time", "angle=wrong"], ["angle{T}"], []):
            out.append([g, args, {}])
        out.append([g, ["time", "angle"], {"unit": "mT"}])
        out.append([g, ["time", "angle[1]"], {"unit": "kg"}])
    for g in ("get_harm_xyz_along", "get_harm_rphiz_along"):
        out += [[g, [2, "freqs"], {}], [g, [2, "wavenumber"], {}], [g, [2, "wrong"], {}]]
    out += [["to_xyz", [], {}], ["to_rphiz", [], {}], ["get_vectorfield_along", ["time", "angle[0]"], {}], ["get_vectorfield_along", ["wrong"], {}], ["get_vectorfield_along", ["freqs", "wavenumber"], {}], ["time_to_freq", [], {}], ["freq_to_time", [], {}], ["get_axes", [], {}], ["change_referential", [60.0], {}], ["change_periodicity", [1, False, 1, False], {}], ["filter_spectral_leakage", [[0.0, 0.25, 0.5]], {}], ["copy", [], {}], ["as_dict", [], {}], ["==", [], {}], ["save", [], {"save_path": "SCRATCHFILE"}]]
    return out


def axis_requests(kind):
    gv = "get_values"
    out = [[gv, [], {}], [gv, [], {"is_oneperiod": True}], [gv, [], {"is_antiperiod": True}], [gv, [], {"is_smallestperiod": True}], [gv, [], {"unit": "ms"}], [gv, [], {"unit": "°"}], [gv, [], {"unit": "kg"}], [gv, [], {"normalization": "nref"}], [gv, [], {"normalization": "naff"}], [gv, [], {"normalization": "nvec"}], [gv, [], {"unit": "nvec"}], [gv, [], {"unit": "nref", "is_oneperiod": True}], [gv, [], {"normalization": "unknown"}], [gv, [], {"operation": "time_to_freqs"}], [gv, [], {"operation": "angle_to_wavenumber", "is_full": True}], [gv, [], {"operation": "unknown"}], ["get_length", [], {}], ["get_length", [], {"is_oneperiod": True}], ["get_length", [], {"is_antiperiod": True}], ["get_periodicity", [], {}], ["has_period", [], {}], ["get_axis_periodic", [2, False], {}], ["get_axis_periodic", [2, True], {}], ["get_axis_periodic", [7, False], {}], ["to_linspace", [], {}], ["copy", [], {}], ["as_dict", [], {}], ["==", [], {}], ["save", [], {"save_path": "SCRATCHFILE"}]]
    if kind == "components":
        out = [[gv, [], {}], ["get_filter", [{"n": ["1"], "l": ["a", "b"]}], {}], ["get_filter", [{"n": ["1"]}], {}], ["get_filter", [{"n": [], "l": []}], {}], ["check_filter", [], {}], ["copy", [], {}], ["as_dict", [], {}], ["==", [], {}], ["get_length", [], {}], ["has_period", [], {}], ["to_linspace", [], {}]]
    return out


def requests(name):
    if name.startswith("vf-"):
        return vf_requests()
    if name.startswith("axis-"):
        return axis_requests(name[5:])
    if name in ("time-angle", "angle-time", "dual-time"):
        r = td("time", "angle") + spectral("time", True)
    elif name == "complex":
        r = td("time", "x") + spectral("time", False)
    elif name == "one":
        r = td("time", "time") + spectral("time", False)
        r = [q for q in r if len([a for a in q[1] if isinstance(a, str) and a.startswith("time")]) < 2]
    elif name == "three":
        r = td("time", "z") + spectral("time", True) + [[GA, ["time", "angle", "z"], {}], [GA, ["z=integrate_local", "angle", "time"], {}], [GD, ["time", "angle", "z[0]"], {}], ["export_along", ["time", "angle", "z"], {"save_path": "SCRATCH", "is_2D": False, "is_multiple_files": True}]]
    elif name in ("freqs-wavenumber", "dual-freq"):
        r = td("freqs", "wavenumber") + [[GA, ["time"], {}], [GA, ["time", "angle"], {}], [GA, ["angle[smallestperiod]", "freqs"], {}], ["freq_to_time", [], {}], ["to_datadual", [], {}], [GD, ["time", "angle"], {}], [GH, [3, "freqs", "wavenumber"], {}], [GM, ["freqs", "wavenumber"], {"unit": "dBA"}], ["change_referential", [60.0, False], {}]]
    elif name == "spectrum":
        r = [q for q in td("freqs", "freqs") if len([a for a in q[1] if isinstance(a, str) and a.startswith("freqs")]) < 2]
        r += spectral("time", False) + [[GA, ["time"], {}], ["freq_to_time", [], {}], ["sum", ["fresh"], {}], ["conv", ["fresh"], {}], ["sum", ["self"], {}], ["conv", ["self"], {}], ["sum", [3], {}]]
    elif name == "levels":
        r = spectral("time", False) + [[GM, ["freqs[1]"], {}], [GM, ["freqs=sum"], {}], [GA, ["freqs=sum"], {}], [GM, ["freqs"], {"is_norm": True}], [GA, ["freqs"], {"unit": "dBA"}]]
    elif name == "order-speed":
        r = td("order", "speed") + [[GM, ["order", "speed"], {"unit": "dBA"}], [GM, ["order=sum", "speed"], {"unit": "dBA"}], [GM, ["speed[1]", "order[0,1]"], {"unit": "dBA"}]]
    elif name == "components":
        r = td("time", "phase", ops=False) + [[GA, ["phase[0,2]", "time"], {}], [GA, ["phase=sum", "time"], {}], [GA, ["phase[1]", "freqs"], {}], [GM, ["freqs", "phase"], {}], [GD, ["time", "phase[1]"], {}]]
    elif name == "pattern":
        r = td("time", "z") + [[GA, ["z[pattern]", "time"], {}], [GA, ["z[smallestpattern]", "time"], {}], [GA, ["z[2]", "time=sum"], {}], [GD, ["time", "z[smallestpattern]"], {}], ["filter_spectral_leakage", [[0.0, 0.5]], {}], ["change_referential", [60.0, True], {}]]
    r += BAD + COMMON
    seen, out = set(), []
    for q in r:
        k = repr(q)
        if k not in seen:
            seen.add(k)
            out.append(q)
    return out


OBJECTS = ["axis-lin", "axis-1d", "axis-uneven", "axis-pattern", "axis-components", "one", "complex", "time-angle", "angle-time", "three", "spectrum", "levels", "freqs-wavenumber", "order-speed", "components", "pattern", "dual-time", "dual-freq", "vf-xyz", "vf-rphiz", "vf-rphi", "vf-freq", "vf-one"]
HEAVY = ("export_along", "save", "plot_2D_Data", "plot_3D_Data", "filter_spectral_leakage", "change_referential")


def picture(x, depth=0):
    """Comparable picture of an answer."""
    if isinstance(x, LibraryError):
        return ("error", x.kind)
    if isinstance(x, dict):
        return {str(k): picture(v, depth + 1) for k, v in x.items() if k not in ("axes_list",)}
    if isinstance(x, (list, tuple)):
        return [picture(v, depth + 1) for v in x]
    if isinstance(x, np.ndarray):
        return x.copy()
    if x is None or isinstance(x, (str, bool, int, float, complex, np.generic)):
        return x
    if type(x).__module__.startswith("SciDataTool"):
        return {"class": type(x).__name__, "dict": {k: picture(v, depth + 1) for k, v in vars(x).items() if k not in ("parent", "logger_name", "path") and (not k.startswith("_") or hasattr(type(x), k[1:]))}}
    return type(x).__name__


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return core.differ(a, b) is None
    if isinstance(a, (float, complex, np.generic)) and isinstance(b, (float, complex, np.generic, int)):
        return core.differ(np.asarray(a), np.asarray(b)) is None
    return a == b


def resolve(x, obj, name, inputs):
    if x == "self":
        return obj
    if x == "fresh":
        inputs.append(make(name))
        return inputs[-1]
    if x == "SCRATCH":
        d = os.path.join(core.scratch_dir(), "w%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        return d
    if x == "SCRATCHFILE":
        return os.path.join(resolve("SCRATCH", obj, name, inputs), "saved.json")
    return x


def perform(ctx, obj, name, req):
    """Answer of one request, and whether what was handed in is unchanged."""
    meth, args, kw = req
    inputs = []
    if meth == "==":
        return picture(ctx.call(lambda: bool(obj == make(name)))), True
    args = [np.array(a) if isinstance(a, list) else resolve(a, obj, name, inputs) for a in args]
    kw = dict(kw)
    if "axis_data" in kw:
        kw["axis_data"] = {k: np.array(v) for k, v in kw["axis_data"].items()}
    if "data_list" in kw:
        kw["data_list"] = [resolve(d, obj, name, inputs) for d in kw["data_list"]]
    for k in ("save_path",):
        if k in kw:
            kw[k] = resolve(kw[k], obj, name, inputs)
    before = model.snapshot([[state_of(i) for i in inputs], {k: v for k, v in kw.items() if k == "axis_data"}, [a for a in args if isinstance(a, np.ndarray)]])
    if not hasattr(obj, meth):
        return ("no such request",), True
    got = ctx.call(getattr(obj, meth), *args, **kw)
    if meth.startswith("plot_"):
        import matplotlib.pyplot as plt

        plt.close("all")
        got = None if not isinstance(got, LibraryError) else got
    after = model.snapshot([[state_of(i) for i in inputs], {k: v for k, v in kw.items() if k == "axis_data"}, [a for a in args if isinstance(a, np.ndarray)]])
    return picture(got), before == after


def state_of(obj):
    """Everything the object holds; which of its two domains a dual field read last is kept apart."""
    s = model.snapshot(obj)
    if s[0] == "DataDual":
        s = (s[0], [kv for kv in s[1] if kv[0] not in ("_axes", "_values")])
    return s


def selection_of(obj):
    if type(obj).__name__ == "DataDual":
        return model.snapshot([obj.axes, obj.values])
    return None


_BASE = {}


def baseline(name, req):
    """Answer on a freshly built object, computed in a process of its own."""
    key = (name, repr(req))
    if key not in _BASE:
        import pickle

        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                a, _ = perform(core.Ctx(), make(name), name, req)
                with os.fdopen(w, "wb") as f:
                    pickle.dump(a, f)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        _BASE[key] = pickle.loads(data)
    return _BASE[key]


def sig_of(req):
    return req[0]


def run(ctx, case):
    """A history of requests on one object."""
    name, hist = case["object"], case["history"]
    obj = make(name)
    s0, d0 = state_of(obj), selection_of(obj)
    ctx.state(name)
    for req in hist:
        want = baseline(name, req)
        got, inputs_ok = perform(ctx, obj, name, req)
        ctx.require("inputs:" + sig_of(req), inputs_ok, "%s changed what it was given" % req)
        s = state_of(obj)
        if s != s0:
            ctx.state(name, s)
        ctx.require("state:" + sig_of(req), s == s0, "%s after %s: %s" % (name, req, first_difference(s0, s)))
        ctx.require("selection:dual", selection_of(obj) == d0, "%s after %s: axes and values are those of the domain read last" % (name, req))
        kind = "answer-dual:" if name.startswith("dual") else "answer:"
        ctx.require(kind + sig_of(req), same(got, want), "%s %s: %s instead of %s" % (name, req, core.show(got), core.show(want)))
        if s != s0:
            break


def first_difference(a, b, path=""):
    if type(a) != type(b) or not isinstance(a, (list, tuple)):
        return "" if a == b else "%s: %s -> %s" % (path, core.show(a, 120), core.show(b, 120))
    if len(a) != len(b):
        return "%s: %s -> %s" % (path, core.show(a, 120), core.show(b, 120))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            p = path + "/" + (a[0] if i and isinstance(a[0], str) else str(i))
            return first_difference(x, y, p)
    return ""


def singles(tier):
    for name in OBJECTS:
        make(name)
        for req in requests(name) + (PLOTS if name in ("time-angle", "dual-time") else []):
            baseline(name, req)
            yield {"object": name, "history": [req]}


def pairs(tier):
    for name in OBJECTS:
        reqs = requests(name)
        if tier != "thorough":
            reqs = [q for q in reqs if q[0] not in HEAVY]
        for a, b in itertools.product(reqs, repeat=2):
            yield {"object": name, "history": [a, b]}


def spaces():
    return [
        Space("single", singles, run, "every request of the alphabet (40-90 per object, accepted and rejected) on 23 kinds of objects"),
        Space("pairs", pairs, run, "every ordered pair of requests on every object (file output, frame change and filtering only thorough)"),
    ]


ASSUMPTIONS = ["the state of an object is everything reachable from its attributes, except links to a parent and log names"]
