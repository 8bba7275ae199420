"""Reference definition of the reductions on fully written-out fields."""
import numpy as np

OPS = ["sum", "mean", "max", "min", "rms", "rss", "integrate"]
PHYS = ("time", "angle", "z")


def step(a):
    return a["h"]


def reduce_model(v, i, a, op):
    """Definition of the reduction on the fully written-out field."""
    h = step(a)
    if op == "sum":
        return v.sum(axis=i, keepdims=True)
    if op == "mean":
        return v.mean(axis=i, keepdims=True)
    if op == "max":
        return v.max(axis=i, keepdims=True)
    if op == "min":
        return v.min(axis=i, keepdims=True)
    if op == "rms":
        return np.sqrt((np.abs(v) ** 2).mean(axis=i, keepdims=True))
    if op == "rss":
        s = (np.abs(v) ** 2).sum(axis=i, keepdims=True)
        return np.sqrt(s * h if a["name"] in PHYS and a["n"] > 1 else s)
    if op == "integrate":
        return h * v.sum(axis=i, keepdims=True)
    raise ValueError(op)
