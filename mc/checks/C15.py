"""Vector fields hold the same vectors in every frame.

Every field is written out in full, rotated with numpy, and stored as a plain
field of the target frame: the answers of the vector field have to be the ones
of these components.
"""
import itertools

import numpy as np

from .. import model
from ..core import LibraryError, Space

RPHIZ = ["radial", "tangential", "axial"]
XYZ = ["comp_x", "comp_y", "comp_z"]
SYMBOL = {"radial": "X_r", "tangential": "X_t", "axial": "X_z", "comp_x": "X_x", "comp_y": "X_y", "comp_z": "X_z"}
NAME = {"radial": "Radial field", "tangential": "Tangential field", "axial": "Axial field", "comp_x": "field along x-axis", "comp_y": "field along y-axis", "comp_z": "field along z-axis"}


def angle(n, sym, kind="lin"):
    return model.axis("angle", n, sym, kind=kind, h=2 * np.pi / (n * (sym[1] if sym else 1)))


def layouts(tier):
    t, ta, z = model.axis("time", 4, None), model.axis("time", 3, ["antiperiod", 2]), model.axis("z", 2, None, x0=-1.0)
    tp = model.axis("time", 4, ["period", 2])
    out = [
        [angle(4, None)],
        [angle(5, None, "1d")],
        [t, angle(4, None)],
        [t, angle(3, ["period", 2])],
        [t, angle(2, ["antiperiod", 2])],
        [ta, angle(4, None)],
        [ta, angle(3, ["antiperiod", 4])],
        [tp, angle(5, None)],
        [angle(4, None), t],
        [angle(3, ["period", 2]), ta],
        [t, angle(4, None), z],
        [z, angle(3, ["period", 2])],
        [angle(4, None), z],
    ]
    if tier == "thorough":
        out += [[t, angle(n, s)] for n in (2, 3, 4, 5, 6) for s in (None, ["period", 2], ["period", 3], ["antiperiod", 2], ["antiperiod", 4])]
        out += [[z, t, angle(4, None)], [t, z, angle(2, ["antiperiod", 2])], [tp, angle(3, ["period", 2]), z]]
    return out


COMPS = [
    ["radial", "tangential", "axial"],
    ["radial", "tangential"],
    ["radial"],
    ["tangential"],
    ["axial"],
    ["radial", "axial"],
    ["tangential", "axial"],
    ["radial", "tangential", "comp_z"],
    ["comp_x", "comp_y", "comp_z"],
    ["comp_x", "comp_y"],
    ["comp_x"],
    ["comp_y"],
    ["comp_z"],
    ["comp_x", "comp_z"],
    ["comp_y", "comp_z"],
    ["comp_x", "comp_y", "axial"],
    ["radial", "comp_z"],
    ["tangential", "comp_z"],
    ["comp_x", "axial"],
    ["comp_y", "axial"],
]


def build(axes, comps, cplx=False, spectral=False):
    from SciDataTool import DataTime, Norm_ref, VectorField

    out = {}
    for k, c in enumerate(comps):
        d = DataTime(
            name=NAME[c],
            symbol=SYMBOL[c],
            unit="T",
            axes=[model.build_axis(a) for a in axes],
            values=model.raw_values(tuple(a["n"] for a in axes), cplx, 7 * k + len(c)),
            normalizations={"ref": Norm_ref(ref=0.5)},
            is_real=not cplx,
        )
        out[c] = d.time_to_freq() if spectral else d
    return VectorField(name="field", symbol="X", components=out)


def whole(axes, comps, cplx=False):
    """All the samples of (r, t, z) and (x, y, z), None when there is no such component."""
    v = {}
    for k, c in enumerate(comps):
        w = model.raw_values(tuple(a["n"] for a in axes), cplx, 7 * k + len(c))
        for i, a in enumerate(axes):
            w = model.expand(w, i, a)
        v[c] = w
    zero = np.zeros_like(w)
    i = [a["name"] for a in axes].index("angle")
    phi = model.full_coords(axes[i]).reshape([-1 if j == i else 1 for j in range(len(axes))])
    if "comp_x" in v or "comp_y" in v:
        x, y = v.get("comp_x", zero), v.get("comp_y", zero)
        r, t = x * np.cos(phi) + y * np.sin(phi), y * np.cos(phi) - x * np.sin(phi)
    else:
        r, t = v.get("radial", zero), v.get("tangential", zero)
        x, y = r * np.cos(phi) - t * np.sin(phi), r * np.sin(phi) + t * np.cos(phi)
    z = v.get("axial", v.get("comp_z", zero))
    return {"radial": r, "tangential": t, "axial": z, "comp_x": x, "comp_y": y, "comp_z": z}


def present(comps, frame):
    """Components of the frame which are not zero everywhere."""
    plane = [c for c in comps if c not in ("axial", "comp_z")]
    out = []
    if plane:
        same = all(c in frame for c in plane)
        out += [c for c in frame[:2] if not same or c in plane]
    if "axial" in comps or "comp_z" in comps:
        out.append(frame[2])
    return out


def way(comps, frame):
    """Whether the components have to be converted to be given in the frame."""
    plane = [c for c in comps if c not in ("axial", "comp_z")]
    return "convert" if plane and not any(c in frame for c in plane) else "plain"


COUNT = {"[smallestperiod]": lambda a: a["n"], "[antiperiod]": lambda a: a["n"], "[oneperiod]": model.one_period}


def reference(axes, values, args, cplx, converted):
    """Plain field of the target frame.

    The angle of a converted field is written out, up to the end of the period
    the request names; all the other axes keep their symmetry.
    """
    from SciDataTool import Data1D, DataTime, Norm_ref

    new, objs = list(args), []
    for i, a in enumerate(axes):
        if converted and a["name"] == "angle":
            ax = model.build_axis(a, full=True)
            for j, s in enumerate(args):
                for key, n in COUNT.items():
                    if s == "angle" + key:
                        ax = Data1D(name="angle", unit=a["unit"], values=model.full_coords(a)[: n(a)])
                        values = np.take(values, range(n(a)), axis=i)
                        new[j] = "angle"
        else:
            ax = model.build_axis(a)
            values = np.take(values, range(a["n"]), axis=i)
        objs.append(ax)
    d = DataTime(name="field", symbol="X", unit="T", axes=objs, values=values.copy(), normalizations={"ref": Norm_ref(ref=0.5)}, is_real=not cplx)
    return d, new


def requests(axes, tier, cplx):
    names = [a["name"] for a in axes]
    ang = ["angle", "angle[1]", "angle[0,2]", "angle[1:3]", "angle=sum", "angle=mean", "angle=max", "angle=rms", "angle=integrate", "angle=derivate", "angle{°}", "angle[smallestperiod]", "angle[oneperiod]", "wavenumber", "wavenumber=[0,2]", "angle<2.5", "angle=1.0", "angle=axis_data"]
    if [a for a in axes if a["name"] == "angle"][0]["sym"] and [a for a in axes if a["name"] == "angle"][0]["sym"][0] == "antiperiod":
        ang.append("angle[antiperiod]")
    other = {
        "time": ["time", "time[1]", "time[smallestperiod]", "time=rms", "time=max", "time=mean", "time=derivate", "freqs", "freqs[1]", "time{ms}"],
        "z": ["z", "z[1]", "z=mean", "z=max"],
    }
    if cplx:
        ang = [s for s in ang if "max" not in s]
        other = {k: [s for s in v if "max" not in s] for k, v in other.items()}
    lists = []
    for n in names:
        if n == "angle":
            lists.append([None] + ang)
        elif len(names) == 3:
            lists.append([other[n][0], other[n][3], other[n][-2] if n == "time" else None])
        else:
            lists.append([None] + other[n])
    for combo in itertools.product(*lists):
        if all(c is None for c in combo):
            continue
        if any(c and "=max" in c for c in combo) and any(c and c.startswith(("freqs", "wavenumber")) for c in combo):
            # complex numbers have no maximum
            continue
        yield [c for c in combo if c is not None]
    if len(names) == 2:
        # order of the request
        yield [names[1], names[0]]


UNITS = [[], ["mT"], ["norm"]]


def kwargs(unit, args):
    kw = {}
    if unit == ["norm"]:
        kw["is_norm"] = True
    elif unit:
        kw["unit"] = unit[0]
    if "angle=axis_data" in args:
        kw["axis_data"] = {"angle": np.array([0.0, 1.0, 2.0])}
    return kw


def cases(tier):
    for axes in layouts(tier):
        for comps in COMPS if len(axes) < 3 else COMPS[:3] + COMPS[8:11]:
            for cplx in (False, True) if len(axes) == 2 and comps in (COMPS[0], COMPS[8]) else (False,):
                yield {"axes": axes, "comps": comps, "cplx": cplx}


def compare(ctx, sig, frame, comps, got, want, what, squeezed=True, absent=True):
    if isinstance(got, LibraryError):
        ctx.fail(sig + ":error", "%s: %r" % (what, got))
        return
    for c in frame:
        if c not in present(comps, frame) and not absent:
            continue
        if c not in got:
            ctx.fail(sig + ":missing", "%s: no %s" % (what, c))
            continue
        w = want[c]
        w = w["X"]
        if not ctx.agree(sig + ":" + ("value" if c in present(comps, frame) else "zero"), got[c], w, rtol=1e-8, atol=1e-8):
            return
    for k in want[frame[0]]:
        if k in ("X", "axes_list", "axes_dict_other"):
            continue
        if isinstance(want[frame[0]][k], str):
            ctx.require(sig + ":axis", k in got and isinstance(got[k], str) and got[k] == want[frame[0]][k], "%s: %s" % (what, k))
        elif k not in got or isinstance(got[k], str):
            ctx.fail(sig + ":axis", "%s: %s" % (what, k))
        else:
            ctx.agree(sig + ":axis", got[k], want[frame[0]][k], rtol=1e-8, atol=1e-9)


def run(ctx, case):
    """Extractions, magnitudes and harmonics in both frames."""
    axes, comps, cplx = case["axes"], case["comps"], case["cplx"]
    vf = build(axes, comps, cplx)
    full = whole(axes, comps, cplx)
    ctx.state(*[repr(axes), repr(comps), cplx])
    tier = case.get("tier", "quick")
    for frame, get in ((XYZ, "xyz"), (RPHIZ, "rphiz")):
        kind = way(comps, frame)
        for args in requests(axes, tier, cplx):
            for unit in UNITS if args in (["angle"], ["time", "angle"], ["time", "angle=mean"], ["time=rms", "angle"], ["freqs", "angle[1]"]) else [[]]:
                what = "get_%s_along(%s) %s of %s" % (get, args, unit, comps)
                want = {}
                for c in frame:
                    d, new = reference(axes, full[c], args, cplx, kind == "convert")
                    want[c] = ctx.call(d.get_along, *new, **kwargs(unit, args))
                bad = [w for w in want.values() if isinstance(w, LibraryError)]
                if bad:
                    ctx.fail("reference", "%s: %r" % (what, bad[0]))
                    continue
                got = ctx.call(getattr(vf, "get_%s_along" % get), *args, **kwargs(unit, args))
                compare(ctx, "%s:%s" % (get, kind), frame, comps, got, want, what)
                spectral = any(s.startswith(("freqs", "wavenumber")) for s in args)
                # magnitudes
                if spectral or len(args) == 2 and args[0] in ("time", "time[1]"):
                    for u in [unit] + ([["dB"]] if spectral and args in (["freqs", "angle"], ["freqs", "wavenumber"], ["wavenumber"]) else []):
                        kw = kwargs(u, args)
                        want = {}
                        for c in frame:
                            d, new = reference(axes, full[c], args, cplx, kind == "convert")
                            want[c] = ctx.call(d.get_magnitude_along, *new, **kw)
                        got = ctx.call(getattr(vf, "get_mag_%s_along" % get), *args, **kw)
                        compare(ctx, "mag_%s:%s" % (get, kind), frame, comps, got, want, "get_mag_%s_along(%s) %s of %s" % (get, args, u, comps), absent=u != ["dB"])
                # harmonics
                if spectral and not unit and args in (["freqs"], ["wavenumber"], ["freqs", "wavenumber"], ["freqs", "angle[1]"], ["time[1]", "wavenumber"]):
                    want = {}
                    for c in frame:
                        d, new = reference(axes, full[c], args, cplx, kind == "convert")
                        want[c] = ctx.call(d.get_harmonics, 2, *new)
                    got = ctx.call(getattr(vf, "get_harm_%s_along" % get), 2, *args)
                    if isinstance(got, LibraryError):
                        ctx.fail("harm_%s:%s:error" % (get, kind), "get_harm_%s_along(2, %s) of %s: %r" % (get, args, comps, got))
                        continue
                    for c in frame:
                        if c in present(comps, frame):
                            ctx.agree("harm_%s:%s:value" % (get, kind), got[c], want[c]["X"], rtol=1e-8, atol=1e-8)
                        else:
                            ctx.require("harm_%s:%s:zero" % (get, kind), np.all(np.asarray(got[c]) == 0), "%s %s" % (args, c))


def run_convert(ctx, case):
    """Explicit conversions and their way back."""
    axes, comps, cplx, spectral = case["axes"], case["comps"], case["cplx"], case["spectral"]
    vf = build(axes, comps, cplx, spectral)
    full = whole(axes, comps, cplx)
    sym = any(a["name"] == "angle" and a["sym"] for a in axes)
    ctx.state(*[repr(axes), repr(comps), cplx, spectral])
    names = [a["name"] for a in axes]
    for first, frame, back, frame_back in (("to_xyz", XYZ, "to_rphiz", RPHIZ), ("to_rphiz", RPHIZ, "to_xyz", XYZ)):
        kind = way(comps, frame)
        one = ctx.call(getattr(vf, first))
        if isinstance(one, LibraryError):
            ctx.fail("%s:%s:error" % (first, kind), "%s: %r" % (comps, one))
            continue
        two = ctx.call(getattr(one, back))
        if isinstance(two, LibraryError):
            ctx.fail("%s:%s:error" % (back, kind), "%s after %s: %r" % (comps, first, two))
            continue
        for obj, fr, what in ((one, frame, first), (two, frame_back, first + "." + back)):
            for c in present(comps, fr):
                alias = {"axial": "comp_z", "comp_z": "axial"}.get(c)
                key = c if c in obj.components or alias not in obj.components or kind == "convert" else alias
                if key not in obj.components:
                    ctx.fail("%s:%s:missing" % (what, kind), "%s of %s has no %s: %s" % (what, comps, c, sorted(obj.components)))
                    continue
                comp = obj.components[key]
                m = names.index("angle")
                if sym and not spectral:
                    # judged on the stored period (see known finding for the others)
                    args = [n if n != "angle" else "angle[smallestperiod]" for n in names]
                    w = np.take(full[c], range(axes[m]["n"]), axis=m)
                else:
                    args, w = names, full[c]
                got = ctx.call(comp.get_along, *args, is_squeeze=False)
                if isinstance(got, LibraryError):
                    ctx.fail("%s:%s:read" % (what, kind), "%s of %s: %r" % (c, comps, got))
                    continue
                ctx.agree("%s:%s:value" % (what, kind), got[comp.symbol], w, rtol=1e-8, atol=1e-8)
                ctx.require("%s:%s:unit" % (what, kind), comp.unit == "T", "%s: %s" % (c, comp.unit))
                if sym and not spectral and fr is frame:
                    got = ctx.call(comp.get_along, *names, is_squeeze=False)
                    ok = not isinstance(got, LibraryError) and np.shape(got[comp.symbol]) == full[c].shape and np.allclose(got[comp.symbol], full[c], rtol=1e-8, atol=1e-8)
                    ctx.require("%s:whole:%s" % (what, axes[m]["sym"][0]), ok, "%s of %s, angle %s: other periods differ from the rotated vectors" % (c, comps, axes[m]["sym"]))
            for c in fr:
                if c not in present(comps, fr) and c in obj.components:
                    got = ctx.call(obj.components[c].get_along, *names)
                    ctx.require("%s:%s:zero" % (what, kind), not isinstance(got, LibraryError) and np.allclose(got[obj.components[c].symbol], 0, atol=1e-8), "%s of %s" % (c, comps))
            if kind == "convert":
                extra = [c for c in obj.components if c not in fr]
                ctx.require("%s:%s:names" % (what, kind), not extra, "%s of %s holds %s" % (what, comps, extra))
            symbols = [c.symbol for c in obj.components.values()]
            ctx.require("%s:%s:symbols" % (what, kind), len(set(symbols)) == len(symbols), "%s of %s: %s" % (what, comps, symbols))


def cases_convert(tier):
    for axes in layouts(tier):
        for comps in COMPS:
            for cplx in (False, True):
                yield {"axes": axes, "comps": comps, "cplx": cplx, "spectral": False}
            if any(a["name"] == "time" for a in axes):
                yield {"axes": axes, "comps": comps, "cplx": False, "spectral": True}


def run_spectral(ctx, case):
    """Fields stored as spectra."""
    axes, comps = case["axes"], case["comps"]
    vf = build(axes, comps, False, True)
    full = whole(axes, comps)
    ctx.state(*[repr(axes), repr(comps)])
    for frame, get in ((XYZ, "xyz"), (RPHIZ, "rphiz")):
        kind = way(comps, frame)
        for args in (["time", "angle"], ["time", "angle=sum"], ["time[1]", "angle"], ["freqs", "angle"], ["freqs", "wavenumber"], ["freqs[1]", "wavenumber"], ["time", "angle[1]"], ["angle=rms", "time"], ["freqs=[0,1]", "angle[0]"]):
            args = [s for s in args if "time" in [a["name"] for a in axes] or not s.startswith(("time", "freqs"))]
            want = {}
            for c in frame:
                d, new = reference(axes, full[c], args, False, kind == "convert")
                want[c] = ctx.call(d.get_along, *new)
            got = ctx.call(getattr(vf, "get_%s_along" % get), *args)
            compare(ctx, "spectral:%s:%s" % (get, kind), frame, comps, got, want, "get_%s_along(%s) of the spectrum of %s" % (get, args, comps))


def cases_spectral(tier):
    for axes in layouts(tier):
        if len(axes) == 2 and axes[0]["name"] == "time":
            for comps in COMPS:
                yield {"axes": axes, "comps": comps}


def run_points(ctx, case):
    """Conversions of lists of points and of vectors at these points."""
    from SciDataTool.Functions import conversions as cv

    pts = np.array(case["points"], dtype=float)
    x, y, z = pts.T
    got = ctx.call(cv.xyz_to_rphiz, pts)
    ctx.state("points", repr(case["points"]))
    if isinstance(got, LibraryError):
        ctx.fail("points:error", repr(got))
        return
    r, phi = np.hypot(x, y), np.mod(np.arctan2(y, x), 2 * np.pi)
    ctx.agree("points:r", got[:, 0], r)
    ctx.require("points:phi", np.allclose(np.exp(1j * got[:, 1]) * r, x + 1j * y, atol=1e-9) and np.all((got[:, 1] >= 0) & (got[:, 1] < 2 * np.pi)), "%s" % got[:, 1])
    ctx.agree("points:z", got[:, 2], z)
    cyl = np.column_stack((r, phi, z))
    back = ctx.call(cv.rphiz_to_xyz, cyl)
    ctx.agree("points:back", back, pts, atol=1e-9)
    back = ctx.call(cv.rphiz_to_xyz, cyl[:, :2])
    ctx.agree("points:back2", back, pts[:, :2], atol=1e-9)
    vec = np.array(case["vectors"], dtype=float)
    got = ctx.call(cv.xyz_to_rphiz_field, vec, phi)
    want = np.column_stack((vec[:, 0] * np.cos(phi) + vec[:, 1] * np.sin(phi), vec[:, 1] * np.cos(phi) - vec[:, 0] * np.sin(phi), vec[:, 2]))
    ctx.agree("vectors", got, want, atol=1e-9)
    got = ctx.call(cv.rphiz_to_xyz_field, want, phi)
    ctx.agree("vectors:back", got, vec, atol=1e-9)


def cases_points(tier):
    grid = [-2.0, 0.0, 1.0] if tier != "thorough" else [-2.0, -1.0, 0.0, 1.0, 3.0]
    pts = [list(p) for p in itertools.product(grid, repeat=3) if p[0] or p[1]]
    vecs = [[1, 0, 0], [0, 1, 0], [2, -3, 4]]
    for p in pts:
        for v in vecs:
            yield {"points": [p], "vectors": [v]}
    for p, q in itertools.product(pts, repeat=2):
        yield {"points": [p, q], "vectors": [[1, 2, 3], [-2, 0.5, 1]]}


def spaces():
    return [
        Space("points", cases_points, run_points, "every point and pair of points of a grid with three values per coordinate, three vectors"),
        Space("convert", cases_convert, run_convert, "13 layouts of axes x 16 sets of components x real, complex, spectral: to the other frame and back"),
        Space("requests", cases, run, "13 layouts x 16 sets of components x up to 209 requests in both frames, with magnitudes, harmonics and units"),
        Space("spectra", cases_spectral, run_spectral, "fields stored as spectra: 6 layouts x 16 sets of components x 10 requests"),
    ]
