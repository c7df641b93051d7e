"""Equality of weighted sets of real vectors up to rounding"""
from fractions import Fraction

import numpy as np


def _key(v, tol):
    return tuple(int(np.floor(x / tol + 0.3819660112501051)) if np.isfinite(x) else repr(x) for x in v)


def collapse(pairs, tol=1e-7):
    """[(vector, weight)] -> {key: [vector, weight]} adding up equal vectors"""
    out = {}
    for v, w in pairs:
        k = _key(v, tol)
        if k in out:
            out[k][1] += w
        else:
            out[k] = [tuple(float(x) for x in v), Fraction(w)]
    return out


def _near(a, b, tol):
    return len(a) == len(b) and all(
        x == y or (x != x and y != y) or abs(x - y) <= tol * (1 + abs(y)) for x, y in zip(a, b)
    )


def difference(real, want, tol=1e-7):
    """None if both weighted sets agree, else a description"""
    a, b = collapse(real, tol), collapse(want, tol)
    ra = [v for k, v in a.items() if k not in b or b[k][1] != v[1]]
    rb = [v for k, v in b.items() if k not in a or a[k][1] != v[1]]
    if not ra and not rb:
        return None
    # rounding may have put equal vectors into neighbouring cells
    pool = [[v, w] for v, w in rb]
    for v, w in ra:
        w = Fraction(w)
        for p in pool:
            if p[1] > 0 and w > 0 and _near(v, p[0], 2 * tol):
                m = min(w, p[1])
                w -= m
                p[1] -= m
        if w > 0:
            best = min(pool, key=lambda p: sum(abs(x - y) for x, y in zip(p[0], v)) if p[1] > 0 else np.inf, default=None)
            return f"outcome {v} has probability {w} too much (program); closest missing outcome of the model {best[0] if best else None}"
    left = [p for p in pool if p[1] > 0]
    if left:
        return f"outcome {left[0][0]} of the model is missing with probability {left[0][1]}"
    return None
