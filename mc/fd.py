"""Finite difference oracle: Richardson-extrapolated central differences with an error estimate."""
import numpy as np


def central(fun, h):
    """d fun(x0 + t)/dt at 0; fun takes a displacement t and returns an array.
    Returns (derivative, error estimate)."""
    d1 = (fun(h) - fun(-h)) / (2 * h)
    d2 = (fun(h / 2) - fun(-h / 2)) / h
    return (4 * d2 - d1) / 3, np.abs(d2 - d1)
