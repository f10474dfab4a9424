"""Analytical surfaces and values of the models made by the creation checks."""
import numpy as np

NODATA = -1.0e+20


def top(x, y):
    return 3.0 * np.sin(x / 7.0) + 2.0 * np.cos(y / 5.0 + x / 11.0) + 1.0


def topo(x, y):
    return top(x, y) - 7.0 - np.abs(np.sin(x / 3.0 + y / 4.0))


def values(x, y, z, nv=2):
    v = [100.0 + 3.0 * np.sin(x / 13.0 + y / 17.0) + 2.0 * np.cos(z / 9.0) + z / 8.0, -50.0 + 5.0 * np.cos(x / 6.0) * np.sin(y / 8.0 + z / 3.0), x * 0.125 - y * 0.25 + z]
    v = np.stack(v[:nv], axis=-1)
    hole = np.sin(x * 1.7 + y * 2.3 + z * 0.9) > 0.93
    v[hole] = NODATA
    return v
