"""Reference model of the frame chain of docs/csystem.rst: rotation matrices built from the documented axis and sense."""
import numpy as np

# method: (derivative name, axis the frame turns about, sense)
OPS = dict(
    windToInertial=("beta", 2, -1), inertialToWind=("beta", 2, 1), windToYaw=("yaw", 2, 1), yawToWind=("yaw", 2, -1),
    yawToHub=("tilt", 1, 1), hubToYaw=("tilt", 1, -1), hubToAzimuth=("azimuth", 0, 1), azimuthToHub=("azimuth", 0, -1),
    azimuthToBlade=("precone", 1, -1), bladeToAzimuth=("precone", 1, 1), bladeToAirfoil=("theta", 2, -1), airfoilToBlade=("theta", 2, 1),
    airfoilToProfile=(None, None, 0), profileToAirfoil=(None, None, 0))
INVERSE = dict(windToInertial="inertialToWind", windToYaw="yawToWind", yawToHub="hubToYaw", hubToAzimuth="azimuthToHub", azimuthToBlade="bladeToAzimuth",
               bladeToAirfoil="airfoilToBlade", airfoilToProfile="profileToAirfoil")
INVERSE.update({b: a for a, b in list(INVERSE.items())})
LETTERS = list(OPS)
SWAP = np.array([[0.0, 1, 0], [1, 0, 0], [0, 0, 1]])
ANGLES = [np.array([5.0, -37.0, 90.0, 211.0]), np.array([0.0, 180.0, -90.0, 13.3]), np.array([1e-7, 400.0, -721.5, 45.0])]
VECTORS = {"mixed": [[1.0, -2.0, 3.0], [0.0, 0.0, 1.0], [-4e3, 5e-3, 0.0], [1.0, 1.0, 1.0]], "zero": [[0.0] * 3, [0.0, 1, 0], [0, 0, 0], [-1.0, 0, 0]],
           "huge": [[1e12, -1e12, 1.0], [1e-12, 2e-12, -3e-12], [7.0, 0, 7e6], [1.0, -1e5, 1e-5]], "whole": [[1, 2, 3], [0, -1, 4], [5, 0, 0], [2, 2, -2]]}


def matrix(op, angle, order=0):
    """new components = matrix @ old components, or its derivative of the given order with respect to the angle in degrees"""
    name, axis, sense = OPS[op]
    if axis is None:
        return SWAP if order == 0 else np.zeros((3, 3))
    t = np.deg2rad(angle) * sense
    e = np.zeros(3)
    e[axis] = 1.0
    K = np.array([[0, -e[2], e[1]], [e[2], 0, -e[0]], [-e[1], e[0], 0]])
    if order == 0:
        return (np.eye(3) + np.sin(t) * K + (1 - np.cos(t)) * K @ K).T
    return ((np.cos(t) * K + np.sin(t) * K @ K).T) * sense * np.pi / 180


def chain(word, angles):
    """matrix of a word of operations applied from left to right"""
    M = np.eye(3)
    for op, a in zip(word, angles):
        M = matrix(op, a) @ M
    return M


def chain_deriv(word, angles, name):
    D = np.zeros((3, 3))
    for i, op in enumerate(word):
        if OPS[op][0] == name:
            M = np.eye(3)
            for j, (o, a) in enumerate(zip(word, angles)):
                M = matrix(o, a, 1 if j == i else 0) @ M
            D = D + M
    return D


def apply(v, op, angle):
    return getattr(v, op)() if OPS[op][0] is None else getattr(v, op)(angle)
