"""Small-scope alphabets: label domains, coordinates, patches."""
from __future__ import annotations

import itertools

import numpy as np

T0 = np.datetime64("2020-01-02T03:04:05.000000000", "ns")


class Dom:
    """A label domain: maps (half-)integer grid positions to labels exactly."""

    def __init__(self, name, fn, dtype, delta=None, kind="num"):
        self.name, self.fn, self.dtype = name, fn, np.dtype(dtype)
        self.kind = kind
        self._delta = delta

    def label(self, g):
        """Label of grid position g (float allowed: half positions)."""
        return self.fn(g)

    def arr(self, gs):
        return np.array([self.fn(g) for g in gs], dtype=self.dtype)

    def delta(self, k):
        """Offset of k grid steps (for relative selection)."""
        return self._delta(k)


def _ns(x):
    return np.timedelta64(int(round(x)), "ns")


DOMS = {
    d.name: d
    for d in [
        Dom("i", lambda g: int(10 * g - 10), "int64", lambda k: int(10 * k)),
        Dom("f", lambda g: float(0.5 * g - 0.5), "float64", lambda k: float(0.5 * k)),
        # awkward decimal steps
        Dom("fd", lambda g: float(np.round(0.1 * g + 0.3, 12)), "float64",
            lambda k: float(np.round(0.1 * k, 12))),
        Dom("dt_s", lambda g: T0 + _ns(1e9 * g), "datetime64[ns]",
            lambda k: _ns(1e9 * k), "dt"),
        Dom("dt_ns", lambda g: T0 + _ns(2 * g), "datetime64[ns]",
            lambda k: _ns(2 * k), "dt"),
        Dom("td", lambda g: _ns(1e7 * g - 1e7), "timedelta64[ns]",
            lambda k: _ns(1e7 * k), "td"),
        Dom("tiny", lambda g: float(1e-9 * g), "float64", lambda k: float(1e-9 * k)),
        Dom("f32", lambda g: np.float32(0.5 * g + 2), "float32", lambda k: float(0.5 * k)),
    ]
}


def words(nletters, maxlen, minlen=0):
    for n in range(minlen, maxlen + 1):
        yield from itertools.product(range(nletters), repeat=n)


def same(a, b, tol=0.0):
    """Exact (or close) array equality with nan/NaT equal, dtype kind respected."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "mM" or b.dtype.kind in "mM":
        if a.dtype.kind != b.dtype.kind:
            return False
        return bool(np.array_equal(a.astype(b.dtype).astype("int64"), b.astype("int64"))) \
            if a.dtype != b.dtype else bool(np.array_equal(a.astype("int64"), b.astype("int64")))
    if a.dtype.kind in "OUS" or b.dtype.kind in "OUS":
        return [str(x) for x in a.ravel()] == [str(x) for x in b.ravel()]
    if not tol:
        return bool(np.array_equal(a, b, equal_nan=a.dtype.kind in "fc" and b.dtype.kind in "fc"))
    return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))


def is_even(gs):
    """strictly monotonic, constant difference."""
    if len(gs) < 2:
        return False
    d = {b - a for a, b in zip(gs, gs[1:])}
    return len(d) == 1 and 0 not in d


def strictly(gs):
    if len(gs) < 2:
        return "one"
    if all(b > a for a, b in zip(gs, gs[1:])):
        return "up"
    if all(b < a for a, b in zip(gs, gs[1:])):
        return "down"
    return "none"
