"""Concrete oracles: generators of JSON cases and checks on the real code."""
import json
import math
import numpy as np


class Oracle:
    def __init__(self, name, gen, check, n, weight):
        self.name, self.gen, self.check = name, gen, check
        self.n, self.weight = n, weight


ORACLES = []


def oracle(name, gen, n=40, weight=1):
    """check(case) -> None or a message; gen(rng, k) -> case (JSON)."""
    def deco(f):
        ORACLES.append(Oracle(name, gen, f, n, weight))
        return f
    return deco


def close(got, want, rtol=1e-8, atol=1e-9, what='value'):
    """Message when got differs from want (shape, values, nan pattern)."""
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        return f'{what}: shape {got.shape} instead of {want.shape}'
    if got.size == 0:
        return None
    with np.errstate(all='ignore'):
        a = np.asarray(got, dtype=complex if got.dtype.kind == 'c'
                       or want.dtype.kind == 'c' else float)
        b = np.asarray(want, dtype=a.dtype)
        scale = np.nanmax(np.abs(b)) if np.isfinite(b).any() else 0.
        if not np.isfinite(scale):
            scale = np.max(np.abs(b[np.isfinite(b)]), initial=0.)
        ok = (np.abs(a - b) <= atol + rtol*np.abs(b) + 1e-12*scale) | (
            np.isnan(a) & np.isnan(b)) | (a == b)
    if ok.all():
        return None
    i = tuple(int(x[0]) for x in np.nonzero(~np.atleast_1d(ok)))
    return (f'{what}: {np.atleast_1d(a)[i]!r} instead of '
            f'{np.atleast_1d(b)[i]!r} at {i} of shape {got.shape}')


def raises(f, exc=Exception):
    try:
        f()
    except exc:
        return True
    return False


def arr(x):
    return np.asarray(x, dtype=float)


class J(json.JSONEncoder):
    def default(self, o):
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, (np.integer,)):
            return int(o)
        if isinstance(o, (np.floating,)):
            return float(o)
        if isinstance(o, np.bool_):
            return bool(o)
        if isinstance(o, complex):
            return [o.real, o.imag]
        return str(o)


def _hints():
    """Integer literals of the current sources (sizes worth trying)."""
    import ast
    import os
    import chaosmagpy
    d = os.path.dirname(chaosmagpy.__file__)
    out = set()
    for f in ('model_utils', 'coordinate_utils', 'chaos', 'data_utils'):
        try:
            with open(os.path.join(d, f + '.py')) as fh:
                tree = ast.parse(fh.read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and type(n.value) is int \
                    and 5 <= n.value <= 400:
                out.add(n.value)
    return sorted(out)


HINTS = _hints()


def size(rng, k, base, limit):
    """A size: first the listed ones, then literals of the sources +1."""
    if k < len(base):
        return base[k]
    h = [x + d for x in HINTS for d in (1, 0) if x + d <= limit]
    k -= len(base)
    if k < len(h):
        return h[k]
    return int(rng.integers(1, max(base) + 1))
