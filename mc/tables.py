"""Airfoil tables: small literal grids of angles, Reynolds numbers and shapes."""
import numpy as np

from mc.rotors import _shape

ALPHAS = {
    "full": np.concatenate([np.arange(-180.0, -30.0, 10.0), np.arange(-30.0, 30.0, 3.0), np.arange(30.0, 181.0, 10.0)]),
    "fine": np.concatenate([np.arange(-180.0, -24.0, 6.0), np.arange(-24.0, 24.0, 1.0), np.arange(24.0, 181.0, 6.0)]),
    "ragged": np.array([-180.0, -150.0, -100.0, -61.0, -33.0, -20.0, -14.0, -9.0, -4.5, -1.0, 0.0, 2.5, 4.0, 7.0, 11.5, 13.0, 17.0,
                        21.0, 34.0, 55.0, 90.0, 119.0, 144.0, 180.0]),
    "short": np.arange(-12.0, 17.0, 2.0),
    "cyl3": np.array([-180.0, 0.0, 180.0]),
    "cyl2": np.array([-180.0, 180.0]),
    "four": np.array([-180.0, -10.0, 20.0, 180.0]),
    "five": np.array([-180.0, -10.0, 5.0, 20.0, 180.0]),
}
RES = {0: [], 1: [1e6], 2: [5e5, 8e6], 3: [2e5, 1e6, 8e6], 4: [2e5, 1e6, 4e6, 9e6], 5: [2e4, 1e5, 6e5, 3e6, 1e7], 6: [1e5, 5e5, 1e6, 3e6, 8e6, 2e7],
       13: [80.0, 1500.0, 9e3], 22: [3e3, 7e4], 24: [2e7, 9e7, 4e8, 3e9]}  # the last digit is the number of them


def shape(kind, alpha, j=0):
    """cl, cd, cm at the j-th Reynolds number"""
    if kind == "const":
        return np.full(len(alpha), 0.3 + 0.1 * j), np.full(len(alpha), 0.5 - 0.02 * j), np.full(len(alpha), -0.02 * j)
    if kind == "zero":
        return np.zeros(len(alpha)), np.full(len(alpha), 0.35 + 0.01 * j), np.zeros(len(alpha))
    a0, clmax, cd0 = {"camber": (-4.0, 1.5, 0.010), "sym": (0.0, 1.1, 0.012), "sharp": (-2.0, 1.9, 0.006),
                      "thick": (-1.0, 0.9, 0.03), "inv": (3.0, 1.2, 0.015)}[kind]
    cl, cd, cm = _shape(alpha, clmax=clmax + 0.08 * j, a0=a0 - 0.3 * j, cd0=cd0 * (1 - 0.08 * j))
    return cl, cd, cm


def grid(alphas, nre, kind):
    alpha, Re = ALPHAS[alphas], RES[nre]
    cols = [shape(kind, alpha, j) for j in range(max(1, len(Re)))]
    return (alpha, Re) + tuple(np.array([c[k] for c in cols]).T for k in range(3))
