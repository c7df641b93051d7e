"""Choice trees: every random draw is a branch the explorer decides"""
from fractions import Fraction
import itertools

import numpy as np


class Divergence(Exception):
    """Replaying a prefix met a different choice: nondeterminism outside our control"""


class TooLarge(Exception):
    """The tree exceeds the leaf bound of the harness"""


class Chooser:
    """Replays a prefix of choices, then takes the default (the first alternative) everywhere"""

    def __init__(self, prefix=(), uniforms=(0.25, 0.75), normals=(-1.0, 1.0), default=None):
        self.default = default
        self.prefix = list(prefix)
        self.points = []  # (choice, arity)
        self.kinds = []  # what was drawn: "u", "n" or "i"
        self.weight = Fraction(1)
        self.uniforms = list(uniforms)
        self.normals = list(normals)

    def choose(self, n, kind="i"):
        i = len(self.points)
        if i < len(self.prefix):
            c, arity = self.prefix[i]
            if arity != n:
                raise Divergence(f"choice {i}: arity {n}, was {arity} before")
        else:
            c = self.default(i, n) if self.default else 0
        self.points.append((c, n))
        self.kinds.append(kind)
        self.weight /= n
        return c


CURRENT = None


def explore(run, uniforms=(0.25, 0.75), normals=(-1.0, 1.0), max_leaves=10**6):
    """Run `run()` once per leaf of its choice tree

    :yield: (result, probability of the leaf, choices taken)
    """
    global CURRENT
    prefix = []
    leaves = 0
    while True:
        ch = Chooser(prefix, uniforms, normals)
        old, CURRENT = CURRENT, ch
        try:
            res = run()
        finally:
            CURRENT = old
        if len(ch.points) < len(prefix):
            raise Divergence("execution became shorter than its own prefix")
        leaves += 1
        if leaves > max_leaves:
            raise TooLarge(f"more than {max_leaves} leaves")
        yield res, ch.weight, list(ch.points)
        pts = ch.points
        while pts and pts[-1][0] + 1 >= pts[-1][1]:
            pts.pop()
        if not pts:
            return
        c, n = pts[-1]
        prefix = pts[:-1] + [(c + 1, n)]


def run_once(run, choices, uniforms, normals):
    """Replay one leaf"""
    global CURRENT
    ch = Chooser([tuple(c) for c in choices], uniforms, normals)
    old, CURRENT = CURRENT, ch
    try:
        return run()
    finally:
        CURRENT = old


def single_deviations(run, kind, uniforms=(0.25, 0.75), normals=(0.0, 1.0)):
    """The default execution, then all that differ from it in one draw of the given kind

    Linear in the number of draws: reaches executions whose complete tree is out of reach.

    :yield: (index of the draw or None, result)
    """
    global CURRENT

    def go(prefix):
        global CURRENT
        ch = Chooser(prefix, uniforms, normals)
        old, CURRENT = CURRENT, ch
        try:
            return run(), ch
        finally:
            CURRENT = old

    res, base = go([])
    yield None, res
    for j, (what, (c, n)) in enumerate(zip(base.kinds, base.points)):
        if what == kind:
            for alt in range(1, n):
                res, ch = go(base.points[:j] + [(alt, n)])
                yield j, res


def after_deviation(run, j, alt, uniforms=(0.25, 0.75), normals=(0.0, 1.0)):
    """Default up to draw j, the alternative there; then every integer draw that follows in turn takes all its values

    :yield: (index of the integer draw or None, result)
    """
    global CURRENT

    def go(prefix):
        global CURRENT
        ch = Chooser(prefix, uniforms, normals)
        old, CURRENT = CURRENT, ch
        try:
            return run(), ch
        finally:
            CURRENT = old

    _, base = go([])
    res, base = go(base.points[:j] + [(alt, base.points[j][1])])
    yield None, res
    for k in range(j + 1, len(base.points)):
        if base.kinds[k] == "i":
            for c in range(1, base.points[k][1]):
                yield k, go(base.points[:k] + [(c, base.points[k][1])])[0]


def spread(i, n):
    """default values all over the range: partner and visiting order do not coincide"""
    return (7 * i * i + 3 * i + 5) % n


def shifted(run, shifts, uniforms=(0.25, 0.75), normals=(0.0, 1.0)):
    """One execution per shift, its integers spread over their ranges

    :yield: like explore
    """
    global CURRENT
    for k in range(shifts):
        ch = Chooser([], uniforms, normals, lambda i, n: spread(i + 13 * k, n))
        old, CURRENT = CURRENT, ch
        try:
            res = run()
        finally:
            CURRENT = old
        yield res, ch.weight, f"spread integers, shift {k}"


def integer_deviations(run, alts, uniforms=(0.25, 0.75), normals=(0.0, 1.0)):
    """An execution with spread out integers, then those that differ from it in one integer draw

    :param alts: how many other values to try per draw (all of the very first integer draw)
    :yield: (index of the draw or None, result)
    """
    global CURRENT

    def go(prefix):
        global CURRENT
        ch = Chooser(prefix, uniforms, normals, spread)
        old, CURRENT = CURRENT, ch
        try:
            return run(), ch
        finally:
            CURRENT = old

    res, base = go([])
    yield None, res
    every = True
    for k, (what, (was, n)) in enumerate(zip(base.kinds, base.points)):
        if what != "i" or n == 1:
            continue
        values = range(n) if every else sorted({(n - 1) * i // max(alts - 1, 1) for i in range(alts)})
        every = False
        for c in values:
            if c == was:
                continue
            yield k, go(base.points[:k] + [(c, n)])[0]


class ChoiceRNG:
    """Looks like numpy.random.Generator, draws from the current chooser

    Continuous distributions are replaced by uniform distributions over a small
    alphabet; discrete ones are enumerated completely.
    """

    def __init__(self, seed=None):
        self.seed = seed

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    @staticmethod
    def _ch():
        if CURRENT is None:
            raise RuntimeError("random draw outside of an exploration")
        return CURRENT

    def _fill(self, size, draw):
        if size is None:
            return draw()
        shape = (size,) if np.ndim(size) == 0 else tuple(size)
        n = int(np.prod(shape, dtype=int))
        vals = [draw() for _ in range(n)]
        return np.array(vals).reshape(shape) if n else np.empty(shape)

    def _u(self):
        ch = self._ch()
        return float(ch.uniforms[ch.choose(len(ch.uniforms), "u")])

    def _n(self):
        ch = self._ch()
        return float(ch.normals[ch.choose(len(ch.normals), "n")])

    @staticmethod
    def _out(res, out):
        if out is not None:
            out[...] = res
            return out
        return res

    def random(self, size=None, dtype=np.float64, out=None):
        if out is not None and size is None:
            size = out.shape
        return self._out(self._fill(size, self._u), out)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (np.ndim(low) or np.ndim(high)):
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        u = self._fill(size, self._u)
        return low + (np.asarray(high) - np.asarray(low)) * u if np.ndim(u) else (
            low + (high - low) * u
        )

    def standard_normal(self, size=None, dtype=np.float64, out=None):
        if out is not None and size is None:
            size = out.shape
        return self._out(self._fill(size, self._n), out)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and (np.ndim(loc) or np.ndim(scale)):
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self._fill(size, self._n)

    def integers(self, low, high=None, size=None, dtype=np.int64, endpoint=False):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high) + (1 if endpoint else 0)
        if high <= low:
            raise ValueError("low >= high")
        return self._fill(
            size, lambda: np.int64(low + self._ch().choose(high - low))
        )

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        arr = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = arr.shape[axis]
        if n == 0:
            raise ValueError("a cannot be empty")
        if p is not None:
            # uniform over the entries that can be drawn
            p = np.asarray(p, float)
            some = np.flatnonzero(p)
            if len(some) == 0 or not np.allclose(p[some], 1.0 / len(some)):
                raise NotImplementedError("weighted choice is not modelled")
            arr = np.take(arr, some, axis=axis)
            n = len(some)
        if size is None:
            return np.take(arr, self._ch().choose(n), axis=axis)
        k = int(np.prod(size))
        if replace:
            idx = [self._ch().choose(n) for _ in range(k)]
        else:
            rest = list(range(n))
            idx = [rest.pop(self._ch().choose(len(rest))) for _ in range(k)]
        res = np.take(arr, np.array(idx, dtype=int), axis=axis)
        if np.ndim(size) and len(size) > 1:
            res = res.reshape(tuple(size) + res.shape[1:])
        return res

    def _perm(self, n):
        rest = list(range(n))
        return [rest.pop(self._ch().choose(len(rest))) for _ in range(n)]

    def shuffle(self, x, axis=0):
        order = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = np.take(x, order, axis=axis)
        else:
            x[:] = [x[i] for i in order]

    def permutation(self, x, axis=0):
        arr = np.arange(x) if np.ndim(x) == 0 else np.array(x)
        return np.take(arr, self._perm(arr.shape[axis]), axis=axis)

    def permuted(self, x, axis=None, out=None):
        arr = np.array(x)
        if arr.ndim != 1:
            raise NotImplementedError
        return self._out(arr[self._perm(len(arr))], out)


def distribution(leaves):
    """Sum the probabilities of equal results"""
    dist = {}
    for res, w, _ in leaves:
        dist[res] = dist.get(res, Fraction(0)) + w
    return dist


def compare_distributions(real, ref, limit=3):
    """None if equal, else a description of the differences"""
    diffs = []
    for key in itertools.chain(ref, (k for k in real if k not in ref)):
        a, b = real.get(key, Fraction(0)), ref.get(key, Fraction(0))
        if a != b:
            diffs.append(f"outcome {key}: probability {a} (program) vs {b} (model)")
    if not diffs:
        return None
    return f"{len(diffs)} outcomes differ; " + "; ".join(diffs[:limit])
