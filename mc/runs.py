"""Whole runs of the program with scripted walkers, observed after every time step

The integrators' motion is replaced by a script; everything else (set-up from the
input file, main loop, birth-death, all output) is the program's own.
"""
import types

import numpy as np

from . import env, inputs, sysb
from .core import Violation

FLAT = {
    1: {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.0, 0.25], "min": -8.0, "max": 8.0},
    2: {"type": "polynomial", "n_dim": 2, "coeffs-file": "pot.coeffs", "min": [-8.0, -8.0], "max": [8.0, 8.0]},
    3: {"type": "polynomial", "n_dim": 3, "coeffs-file": "pot.coeffs", "min": [-8.0] * 3, "max": [8.0] * 3},
}
FILES = {
    1: {},
    2: {"pot.coeffs": sysb.coeffs_file({(0, 0): 0.0, (2, 0): 0.25, (0, 1): 0.5})},
    3: {"pot.coeffs": sysb.coeffs_file({(0, 0, 0): 0.0, (2, 0, 0): 0.25, (0, 1, 0): 0.5, (0, 0, 2): 1.0})},
}
DT = 0.03125


def text(n_steps, walkers, dim, kind="bussi-parinello", kt=1.0, dt=DT, bc=None, mass=None, **sections):
    return inputs.text(
        ld=sysb.ld_section(kind, dt=dt, n_steps=n_steps, kt=kt, seed=4),
        potential={**FLAT[dim], "boundary-condition": bc},
        particles={
            "number": walkers,
            "initial-distribution": "fractions-pos",
            "pos1": [0.0] * dim,
            "fractions": [1.0],
            "mass": mass,
        },
        **sections,
    )


def run(n_steps, walkers, dim, script, observe_files=True, leftovers=None, kind="bussi-parinello", kt=1.0, dt=DT, expect_ok=True, bc=None, mass=None, **sections):
    """script(step) -> [position per walker] or [(position, momentum) per walker]

    :param observe_files: True, False or the set of steps to look at
    :return: namespace with
        disk[s]  files right after time step s (bytes by name), s = 0..n_steps-1
        pop[s]   [(pos, mom)] of all walkers after time step s, s = 0..n_steps
        files    files at the end, res the Result, got the actions
    """
    rec = types.SimpleNamespace(disk={}, pop={}, script={}, files=None)
    skip = ("in", "pot.coeffs")

    def population(ld):
        return [(np.array(p.pos, float).copy(), np.array(p.mom, float).copy()) for p in ld.particles]

    def step_script(step, ld):
        if observe_files is True or observe_files and (step - 1) in observe_files:
            rec.disk[step - 1] = env.read_files(skip)
        rec.pop[step - 1] = population(ld)
        if len(ld.particles) != walkers:
            raise Violation(f"{len(ld.particles)} walkers instead of {walkers} at step {step}")
        for i, state in enumerate(script(step)):
            pos, mom = state if isinstance(state, tuple) else (state, None)
            sysb.set_walker(ld, i, pos, mom)
        rec.script[step] = population(ld)

    files = dict(FILES[dim])
    files.update(leftovers or {})
    with env.scratch(files), env.registry() as got, env.scripted_motion(step_script):
        rec.res = env.run_main(text(n_steps, walkers, dim, kind, kt, dt, bc, mass, **sections))
        rec.files = {k: v for k, v in rec.res.files.items() if k not in skip}
        if got.ld is not None:
            rec.pop[n_steps] = population(got.ld)
    rec.got = got
    if expect_ok and rec.res.status != "ok":
        raise Violation(f"the run ended with {rec.res.status}: {rec.res.text()[-600:]}")
    return rec


def rows(content, ncols=None, what=""):
    """Numeric rows of a data file"""
    res = env.data_rows(content)
    if ncols is not None:
        for r in res:
            if len(r) != ncols:
                raise Violation(f"{what}: row {r} has {len(r)} columns instead of {ncols}")
    return res


def same(a, b, tol=0.0):
    """Rows equal up to the printed precision; inf and nan match themselves"""
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x == y or (x != x and y != y):
            continue
        if not abs(x - y) <= tol:
            return False
    return True


class Surface:
    """Model of histogram and free energy surface for positions on bin midpoints

    :param site: function(step, walker) -> bin index per dimension, or None if outside
    """

    def __init__(self, n, walkers, nb, lo, h, site, hs=1, tws=100, resets=(), fs=None, kt=1.0):
        self.n, self.walkers, self.nb, self.lo, self.h = n, walkers, list(nb), list(lo), list(h)
        self.site, self.hs, self.tws, self.resets, self.fs, self.kt = site, hs, tws, list(resets), fs, kt
        self.dim = len(self.nb)
        self._sums = None
        self.hi = [l + x * b for l, x, b in zip(lo, h, nb)]

    def script(self, step):
        res = []
        for w in range(self.walkers):
            i = self.site(step, w)
            if i is None:
                res.append([x + 0.75 for x in self.hi])
            else:
                res.append([l + x * (k + 0.5) for l, x, k in zip(self.lo, self.h, i)])
        return res

    def histogram_options(self, **more):
        one = self.dim == 1
        return {
            "min": self.lo[0] if one else self.lo,
            "max": self.hi[0] if one else self.hi,
            "bins": self.nb[0] if one else self.nb,
            "stride": self.hs if self.hs != 1 else None,
            "reset": self.resets or None,
            **more,
        }

    def _count(self, first, last):
        """selected positions of the steps first+1..last"""
        if self._sums is None:
            sums = np.zeros([self.n + 1] + self.nb, int)
            for s in range(self.hs, self.n + 1, self.hs):
                for w in range(self.walkers):
                    i = self.site(s, w)
                    if i is not None:
                        sums[(s, *i)] += 1
            self._sums = np.cumsum(sums, axis=0)
        return self._sums[last] - self._sums[min(first, last)]

    def counts_at(self, s):
        """histogram after the histogram action of step s"""
        return self._count(max([r for r in self.resets if r <= s], default=0), s - s % self.tws)

    def counts_final(self):
        return self._count(max([r for r in self.resets if r <= self.n], default=0), self.n)

    def counts_of_fes(self, s):
        """histogram of the surface current after step s, None before the first one"""
        if not self.fs or s < self.fs:
            return None
        return self.counts_at(s - s % self.fs)

    def fes(self, counts):
        with np.errstate(divide="ignore"):
            f = -self.kt * np.log(counts.astype(float))
        if counts.any():
            f -= f.min()
        return f

    def midpoints(self):
        return [[l + x * (k + 0.5) for k in range(b)] for l, x, b in zip(self.lo, self.h, self.nb)]

    def read(self, content, what):
        """data of a histogram or FES file as an array"""
        import itertools

        got = rows(content, self.dim + 1, what)
        size = int(np.prod(self.nb))
        if len(got) != size:
            raise Violation(f"{what}: {len(got)} rows instead of {size}")
        data = np.full(self.nb, np.nan)
        seen = set()
        for r in got:
            idx = []
            for d in range(self.dim):
                i = (r[d] - self.lo[d]) / self.h[d] - 0.5
                if abs(i - round(i)) > 1e-6 or not 0 <= round(i) < self.nb[d]:
                    raise Violation(f"{what}: coordinate {r[d]} is no bin midpoint")
                idx.append(int(round(i)))
            if tuple(idx) in seen:
                raise Violation(f"{what}: coordinates {r[:-1]} twice")
            seen.add(tuple(idx))
            data[tuple(idx)] = r[-1]
        return data


def pattern(nb, gap=True):
    """Uneven visits: some bins often, some never, sometimes outside"""

    def site(step, w):
        if gap and (step + w) % 7 == 3:
            return None
        k = step * (w + 2) + (step // 3) * w
        return [(k * (d + 1) + d) % max(1, b - 1) for d, b in enumerate(nb)]

    return site


def watched(n, *strides):
    """steps of a long run to look at: around all multiples of the strides, the ends, powers of two and ten"""
    res = {0, 1, n - 2, n - 1}
    for k in strides:
        if k:
            m = list(range(k, n + 1, k))
            res.update(x + d for x in m[:3] + m[-3:] for d in (-1, 0, 1))
    res.update(x + d for x in [2**i for i in range(15)] + [10**i for i in range(5)] for d in (-1, 0, 1))
    return {x for x in res if 0 <= x < n}
