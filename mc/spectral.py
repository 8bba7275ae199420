"""Reference Fourier coefficients, by definition, on the fully written-out signal."""
import numpy as np

from . import model, reduce, select

TWO_PI = 2 * np.pi


def is_spectral(a):
    return a["name"] in ("time", "angle")


def spectral_name(a):
    return {"time": "freqs", "angle": "wavenumber"}[a["name"]]


def lines(a, cplx):
    """Frequencies / wavenumbers reported for the axis."""
    n1 = model.one_period(a)
    if n1 == 1:
        return np.array([0.0])
    if a["name"] == "time":
        k = np.arange(n1) - n1 // 2 if cplx else np.arange(n1 // 2 + 1)
        return k / (n1 * a["h"])
    k = np.arange(n1) - n1 // 2
    return k * (model.reps(a) * a["n"] // n1)


def coefficients(v, i, a, f, factor):
    """(factor/M) sum v exp(-i 2 pi f t) along dimension i at the lines f."""
    x = model.full_coords(a)
    w = TWO_PI if a["name"] == "time" else 1.0
    kern = np.exp(-1j * w * np.outer(np.asarray(f, float), x)) / len(x)
    kern = kern * np.asarray(factor, float).reshape(-1, 1)
    return np.moveaxis(np.tensordot(kern, v, axes=([1], [i])), 0, i)


def angle_axis(n, sym=None, kind="lin"):
    """Angle axis covering one turn with all its periods."""
    full = n * (sym[1] if sym else 1)
    return model.axis("angle", n, sym, kind=kind, x0=0.0, h=TWO_PI / full)


def fft_axis_model(a):
    """Axis spec whose full coordinates are the reported lines (for selections)."""
    return {"name": spectral_name(a), "n": 0, "sym": None, "unit": "Hz"}


def answer(f, reqs, doms, stored=False):
    """doms[i]: 's' spectral, 'd' direct.  Returns labels, values.

    `stored`: the lines are read from a stored two-sided spectrum, which is not
    folded when only its non-negative wavenumbers are selected.
    """
    v = model.full_values(f)
    labels, ops = {}, []
    wn_only = not stored and not any(
        d == "s" and a["name"] == "time" for a, d in zip(f["axes"], doms)
    )
    for i, (a, r, d) in enumerate(zip(f["axes"], reqs, doms)):
        if d == "d":
            if r[0] == "op":
                ops.append((i, a, d, r[1]))
                labels[a["name"]] = r[1]
                continue
            lab, idx, out = select.pick(a, r)
            v = np.take(v, idx, axis=i)
            if r[0] != "omit":
                labels[a["name"]] = lab
            continue
        name = spectral_name(a)
        if r[0] == "data":
            fl = lab = np.array(r[1])
            one_sided = not f["cplx"] and (fl >= 0).all() and (a["name"] == "time" or wn_only)
            fac = np.where(fl == 0, 1.0, 2.0) if one_sided else np.ones(len(fl))
        else:
            fl = lines(a, f["cplx"])
            if r[0] == "op":
                idx, lab = list(range(len(fl))), r[1]
                ops.append((i, a, d, r[1]))
            else:
                lab, idx, out = select.pick(fft_axis_model(a), r, x=fl)
            fl = fl[idx]
            if a["name"] == "time" and not f["cplx"]:
                fac = np.where(fl == 0, 1.0, 2.0)
            elif a["name"] == "angle" and not f["cplx"] and wn_only and fl.min() >= 0:
                fac = np.where(fl == 0, 1.0, 2.0)
            else:
                fac = np.ones(len(fl))
        v = coefficients(v, i, a, fl, fac)
        labels[name] = lab
    for i, a, d, op in ops:
        if d == "d":
            v = reduce.reduce_model(v, i, a, op)
        elif op == "sum":
            v = v.sum(axis=i, keepdims=True)
        elif op == "mean":
            v = v.mean(axis=i, keepdims=True)
    return labels, v
