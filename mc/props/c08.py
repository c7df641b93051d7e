"""C08: equilibrium density and reference, enumerated over potentials, temperatures and grids"""
import itertools
import math

import numpy as np

from .. import env, ref, sysb
from ..core import Violation

RULE = (
    "a state = (potential, constant offset, kT, grid); the real density is compared at every grid point with the "
    "Boltzmann factor of the closed-form energy (log domain) and summed with the volume element"
)
ASSUMPTIONS = ["values below 1e-290 may be zero", "grids have at least two points per dimension"]
BOUNDS = {
    "quick": "11 potentials in 1-3 dimensions x 7 offsets x 6 temperatures x 3-4 grids, kT from 1e-5 to 2e10 on ranges up to 1.5e6, grids of up to 10001 points; all sequences of 2-3 of 6 requests to one potential",
    "thorough": "as quick x 11 offsets x 9 temperatures and finer grids",
}

POTS = {
    "double-well": {(0,): 0.0, (1,): 0.2, (2,): -4.0, (4,): 1.0},
    "slope": {(0,): 0.0, (1,): -3.5},
    "flat": {(0,): 2.0},
    "steep": {(0,): 0.0, (2,): -300.0, (4,): 200.0},
    "barrier": {(0,): 0.0, (2,): -900.0},
    "wolfe-quapp": {(0, 0): 0.0, (1, 0): 0.3, (2, 0): -2.0, (4, 0): 1.0, (0, 1): 0.1, (1, 1): 1.0, (0, 2): -4.0, (0, 4): 1.0},
    "asym2": {(0, 0): 1.0, (1, 0): 5.0, (0, 2): 0.7, (2, 1): -0.3},
    "deep2": {(0, 0): 0.0, (2, 0): -50.0, (4, 0): 40.0, (0, 2): 80.0},
    "tri": {(0, 0, 0): 0.5, (1, 0, 0): 2.0, (0, 2, 0): -1.0, (0, 0, 3): 0.6, (1, 1, 1): 0.4},
    "tri-deep": {(0, 0, 0): 0.0, (2, 0, 0): -200.0, (0, 1, 0): 30.0, (0, 0, 2): 5.0},
    "mb": None,
}


def check(case, cov):
    b = env.load()
    name = case["pot"]
    coeffs = POTS[name]
    kt, off = case["kt"], case["offset"]
    if name == "mb":
        pot = sysb.build(1, 2, {"type": "mueller-brown", "scaling-factor": case["scale"]}, start=[0.0, 0.5]).ld.pot
        dim = 2
        energy = lambda x: float(pot.energy(x))
    else:
        dim = len(next(iter(coeffs)))
        coeffs = dict(coeffs)
        coeffs[(0,) * dim] = coeffs.get((0,) * dim, 0.0) + off
        sec, files = sysb.potential(coeffs, [(-2.0, 2.0)] * dim)
        pot = sysb.build(1, dim, sec, files).ld.pot
        energy = lambda x: ref.poly_energy(coeffs, x)
    ranges = [tuple(r) for r in case["ranges"]]
    shape = list(case["shape"])
    with env.quiet():
        g = pot.calculate_probability_density(kt, ranges, shape)
    judge(g, energy, kt, ranges, shape, f"{name} offset {off} kT {kt} grid {shape} {ranges}", cov)
    # reference free energy on the same points
    ax = [np.linspace(*r, n) for r, n in zip(ranges, shape)]
    pts = [np.array(x) for x in itertools.product(*ax)]
    want = np.array([energy(x) for x in pts])
    size = np.max(np.abs(want)) + 1
    got = np.asarray(pot.calculate_reference(np.array(pts)))
    if got.shape != want.shape or np.max(np.abs(got - (want - want.min()))) > 1e-9 * size:
        raise Violation(f"reference of {name} offset {off} is {got[:5]}.. instead of {(want - want.min())[:5]}..")
    cov.trace()


def judge(g, energy, kt, ranges, shape, what, cov):
    dim = len(shape)
    data = np.asarray(g.data)
    if data.shape != tuple(shape):
        raise Violation(f"{what}: data of shape {data.shape}")
    if not np.all(np.isfinite(data)):
        raise Violation(f"{what}: density is not finite: {data.reshape(-1)[:5]}")
    if np.any(data < 0):
        raise Violation(f"{what}: negative density")
    ax = [np.linspace(*r, n) for r, n in zip(ranges, shape)]
    vol = math.prod((r[1] - r[0]) / (n - 1) for r, n in zip(ranges, shape))
    if abs(np.sum(data) * vol - 1) > 1e-9:
        raise Violation(f"{what}: sums to {np.sum(data) * vol!r}")
    u = np.array([energy(x) for x in itertools.product(*ax)]).reshape(shape) / kt
    umin = u.min()
    logz = math.log(np.sum(np.exp(-(u - umin)))) + math.log(vol)
    tol = 1e-9 + 64 * np.finfo(float).eps * np.max(np.abs(u))
    for idx in itertools.product(*[range(n) for n in shape]):
        want = -(u[idx] - umin) - logz
        v = data[idx]
        if want < -660:
            ok = v <= 1e-280
        else:
            ok = v > 0 and abs(math.log(v) - want) <= tol * 10
        if not ok:
            x = [ax[d][i] for d, i in enumerate(idx)]
            raise Violation(f"{what}: density at {x} is {v!r} instead of exp({want!r})")
    cov.trans(data.size)
    cov.state(what)
    cov.sample(f"{what}: {data.size} points")


def gen(tier):
    offsets = [0.0, -100.0, 100.0, -3000.0, 3000.0, 1e5, -1e5]
    kts = [1.0, 0.05, 0.3, 2.5, 20.0, 0.01]
    if tier == "thorough":
        offsets += [745.0, -745.0, 1e7, -1e7]
        kts += [0.002, 1e3, 0.7]
    grids = {
        1: [([2], [(-2.0, 2.0)]), ([5], [(-2.0, 2.0)]), ([101], [(-2.5, 2.0)]), ([17], [(0.5, 1.5)])],
        2: [([5, 4], [(-2.0, 2.0), (-1.0, 2.0)]), ([3, 8], [(-2.0, 2.0), (-2.0, 2.0)]), ([21, 17], [(-1.5, 1.5), (-0.5, 2.5)])],
        3: [([3, 4, 5], [(-2.0, 2.0), (-1.0, 1.0), (0.0, 2.0)]), ([5, 3, 2], [(-1.0, 2.0), (-2.0, 2.0), (-2.0, 0.0)]), ([4, 4, 4], [(-1.0, 1.0)] * 3)],
    }
    for name, c in POTS.items():
        dim = 2 if c is None else len(next(iter(c)))
        for shape, ranges in grids[dim]:
            for kt in kts:
                if c is None:
                    for scale in (None, 0.1, 5.0):
                        yield dict(pot=name, kt=kt, offset=0.0, scale=scale, shape=shape, ranges=ranges)
                else:
                    for off in offsets:
                        yield dict(pot=name, kt=kt, offset=off, shape=shape, ranges=ranges)


def gen_wide(tier):
    """very cold and very hot, ranges far beyond those of the examples"""
    grids = {
        1: [([51], [(-2.5, 2.0)]), ([61], [(-300.0, 400.0)]), ([41], [(-7e4, -6.9e4)]), ([33], [(1e6, 1.5e6)]), ([21], [(-1e-4, 2e-4)])],
        2: [([9, 7], [(-2.0, 2.0), (-1.0, 2.0)]), ([13, 12], [(-120.0, 300.0), (60.0, 95.0)])],
        3: [([4, 5, 3], [(-2.0, 2.0), (-1.0, 1.0), (0.0, 2.0)]), ([5, 4, 6], [(-70.0, 80.0), (200.0, 300.0), (-1.0, 1.0)])],
    }
    for name, c in POTS.items():
        if c is None:
            continue
        dim = len(next(iter(c)))
        for shape, ranges in grids[dim]:
            for kt in (1e-5, 1e-3, 0.004, 1.0, 60.0, 1.3e3, 3e6, 2e10):
                yield dict(pot=name, kt=kt, offset=-3.0, shape=shape, ranges=ranges)


def gen_large(tier):
    grids = {
        1: [([2001], [(-2.5, 2.0)]), ([10001], [(-2.0, 2.0)])],
        2: [([130, 70], [(-1.5, 1.5), (-0.5, 2.5)])],
        3: [([22, 18, 25], [(-2.0, 2.0), (-1.0, 1.0), (0.0, 2.0)])],
    }
    for name, c in POTS.items():
        dim = 2 if c is None else len(next(iter(c)))
        for shape, ranges in grids[dim]:
            for kt in (1.0, 0.05):
                yield dict(pot=name, kt=kt, offset=-3.0 if c else 0.0, scale=None, shape=shape, ranges=ranges)


def check_bd(case, cov):
    """the density handed to the birth-death approximations"""
    b = env.load()
    fn = getattr(b.main, "bd_prob_density", None)
    if fn is None:
        return
    coeffs = POTS[case["pot"]]
    dim = len(next(iter(coeffs)))
    ranges = [tuple(r) for r in case["ranges"]]
    sec, files = sysb.potential(coeffs, ranges)
    pot = sysb.build(1, dim, sec, files, start=[r[0] for r in ranges]).ld.pot
    with env.quiet():
        g = fn(pot, np.array(case["bw"]), case["kt"])
    if [tuple(map(float, r)) for r in g.ranges] != ranges:
        raise Violation(f"density for birth-death on {g.ranges} instead of {ranges}")
    judge(g, lambda x: ref.poly_energy(coeffs, x), case["kt"], ranges, list(g.n_points), f"birth-death {case}", cov)
    cov.trace()


def gen_bd(tier):
    for pot in ("double-well", "slope", "steep", "barrier"):
        for r in ([(-2.5, 2.5)], [(-1.0, 2.0)], [(0.25, 0.75)]):
            for kt in (1.0, 0.1, 4.0):
                for bw in (0.3, 0.004):
                    yield dict(pot=pot, ranges=r, kt=kt, bw=[bw])


def check_reuse(case, cov):
    """one potential asked for several densities and references, all results kept until the end"""
    coeffs = POTS[case["pot"]]
    if coeffs is None:
        pot = sysb.build(1, 2, {"type": "mueller-brown", "scaling-factor": 0.1}, start=[0.0, 0.5]).ld.pot
        dim, energy = 2, ref.MB(0.1, pot.energy).energy
    else:
        dim = len(next(iter(coeffs)))
        sec, files = sysb.potential(coeffs, [(-2.0, 2.0)] * dim)
        pot = sysb.build(1, dim, sec, files).ld.pot
        energy = lambda x: ref.poly_energy(coeffs, x)
    grids = {
        "a": ([(-2.0, 2.0), (-1.0, 2.0), (0.0, 1.0)][:dim], [5, 4, 3][:dim]),
        "b": ([(-2.0, 2.0), (-1.0, 2.0), (0.0, 1.0)][:dim], [4, 5, 3][:dim]),
        "c": ([(-1.0, 2.0), (-1.0, 1.0), (0.0, 2.0)][:dim], [5, 4, 3][:dim]),
    }
    kept, refs = [], []
    pts = [np.array(x[:dim]) for x in ([0.5, 0.25, 1.0], [-1.0, 0.5, 0.0], [1.5, -0.75, 0.3], [0.5, 0.25, 1.0])]
    for k, op in enumerate(case["ops"]):
        with env.quiet():
            if op[0] == "reference":
                sel = pts[: 1 + k] if op[1] == "some" else pts[::-1]
                refs.append((sel, pot.calculate_reference(sel if k % 2 else np.array(sel))))
            else:
                ranges, shape = grids[op[1]]
                kept.append((op, pot.calculate_probability_density(op[0], list(ranges), list(shape))))
    for op, g in kept:
        ranges, shape = grids[op[1]]
        judge(g, energy, op[0], ranges, shape, f"{case['pot']} {case['ops']}: density {op}", cov)
    for sel, got in refs:
        want = np.array([energy(x) for x in sel])
        want -= want.min()
        if np.shape(got) != want.shape or np.max(np.abs(np.asarray(got) - want)) > 1e-9 * (1 + np.max(np.abs(want))):
            raise Violation(f"{case}: reference at {sel} is {got} instead of {want}")
        cov.trans()
    cov.trace()


def gen_reuse(tier):
    ops = [(1.0, "a"), (0.4, "a"), (1.0, "b"), (1.0, "c"), ("reference", "some"), ("reference", "all")]
    for pot in ("double-well", "asym2", "tri", "mb"):
        for n in (2, 3) if tier == "quick" or pot == "tri" else (2, 3, 4):
            for seq in itertools.product(ops, repeat=n):
                yield dict(pot=pot, ops=list(seq))


FAMILIES = {"reuse": (gen_reuse, check_reuse, 16), "large": (gen_large, check, 1), "wide": (gen_wide, check, 4), "densities": (gen, check, 16), "birth-death": (gen_bd, check_bd, 4)}
