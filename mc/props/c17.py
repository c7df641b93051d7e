"""C17: placement of the walkers, over all small numbers, fractions and outcomes of the draws"""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import choice, covering, env, inputs, match, ref, sysb
from ..core import Violation

RULE = (
    "a state = (distribution, number, positions, fractions, dimension, integrator); for fixed fractions every combination "
    "of small weights is set up and compared with exact rational arithmetic; for the random distributions all leaves of "
    "the choice tree are set up and the exact law over placements is compared"
)
ASSUMPTIONS = [
    "uniform draws are represented by alphabets of two or three values in (0,1)",
    "a share within 1e-6 of a whole number, but not equal to it, is not explored (rounding of decimal fractions)",
]
BOUNDS = {
    "quick": "number 1..12 (selected up to 1000), 1-4 positions (selected up to 21), integer weights 0..6 and decimal fractions; random-pos "
    "number <= 5 with <= 4 positions, random-global number <= 4 in 1-3 dimensions, ranges from 1e-12 to 2e9 wide; up to 1100 walkers with the real generator; all triples of 13 settings together",
    "thorough": "number 1..20, weights 0..9, larger trees",
}

COEFFS = {1: {(0,): 0.25, (1,): 0.5, (2,): 1.5}, 2: {(0, 0): 0.0, (2, 0): 1.0, (1, 1): 0.5, (0, 2): 0.75}, 3: {(0, 0, 0): 1.0, (2, 0, 0): 1.0, (0, 1, 1): 0.5, (0, 0, 2): 0.75}}
RANGES = {1: [(-2.3, 3.1)], 2: [(-2.0, 2.45), (10.2, 14.7)], 3: [(-4.1, -0.3), (1.05, 1.9), (100.0, 300.5)]}
POS = {
    1: [[0.5], [-1.25], [2.75], [1.0], [-2.0]],
    2: [[0.5, 11.0], [-1.25, 13.5], [0.5, 13.5], [1.0, 10.0]],
    3: [[-0.5, 1.5, 150.0], [-3.0, 1.5, 150.0], [-0.5, 1.25, 200.0]],
}


def positions(dim, k):
    """k different positions"""
    known = POS[dim]
    if k <= len(known):
        return known[:k]
    lo, hi = RANGES[dim][0]
    return known + [[lo + 0.015625 + (hi - lo) * (i + 1) / (2 * k)] + known[0][1:] for i in range(k - len(known))]


def setup(case, particles):
    dim = case.get("dim", 1)
    sec, files = sysb.potential(COEFFS[dim], case.get("ranges") or RANGES[dim])
    text = inputs.text(
        ld=sysb.ld_section(case.get("ld", "bussi-parinello")), potential=sec, particles=particles,
    )
    return env.build(text, files).ld


def common(case, ld, number, mass):
    dim = case.get("dim", 1)
    if len(ld.particles) != number:
        raise Violation(f"{case}: {len(ld.particles)} walkers instead of {number}")
    for p in ld.particles:
        pos = [float(x) for x in p.pos]
        if len(pos) != dim:
            raise Violation(f"{case}: position {pos}")
        if list(map(float, p.mom)) != [0.0] * dim:
            raise Violation(f"{case}: initial momentum {p.mom}")
        if float(p.mass) != mass:
            raise Violation(f"{case}: mass {p.mass} instead of {mass}")
        if not sysb.close(float(p.energy), ref.poly_energy(COEFFS[dim], pos), 1e-9) or not sysb.close(
            p.forces, ref.poly_force(COEFFS[dim], pos), 1e-9
        ):
            raise Violation(f"{case}: walker at {pos} has energy {p.energy} and forces {p.forces}")
    if len({id(p) for p in ld.particles}) != number:
        raise Violation(f"{case}: walkers share their state")


def check_fractions(case, cov):
    dim = case.get("dim", 1)
    number, fr = case["number"], case["fractions"]
    pos = positions(dim, len(fr))
    ld = setup(
        case,
        {
            "number": number, "initial-distribution": "fractions-pos", "fractions": ", ".join(fr), "mass": case.get("mass"),
            **inputs.pos_opts(pos),
        },
    )
    common(case, ld, number, float(case.get("mass") or 1.0))
    w = [Fraction(x) for x in fr]
    want = [math.floor(x * number / sum(w)) for x in w]
    want[0] = number - sum(want[1:])
    got = [sum(list(map(float, p.pos)) == q for p in ld.particles) for q in pos]
    if got != want:
        raise Violation(f"{case}: {got} walkers on the positions instead of {want}")
    cov.trans()
    cov.trace()
    cov.state((dim, number, tuple(fr)))
    cov.outcome(tuple(got))
    cov.sample(f"{case}: {got}")


def gen_fractions(tier):
    th = tier == "thorough"
    numbers = range(1, 21 if th else 13)
    for n in numbers:
        yield dict(number=n, fractions=["1"])
        yield dict(number=n, fractions=["0.3"])
        for a, b in itertools.product(range(0, 10 if th else 7), repeat=2):
            if a + b:
                yield dict(number=n, fractions=[str(a), str(b)])
    for n in (1, 3, 7, 10, 12):
        for f in itertools.product(range(0, 4), repeat=3):
            if sum(f):
                yield dict(number=n, fractions=[str(x) for x in f])
    dec = ["0.1", "0.2", "0.3", "0.25", "0.7", "0.05", "0.95", "0.333", "0.6"]
    for n in (1, 3, 10, 12, 20, 30, 100, 1000) if not th else (1, 3, 7, 10, 12, 20, 30, 50, 70, 100, 300, 1000):
        for a in dec:
            for b in dec:
                yield dict(number=n, fractions=[a, b])
        yield dict(number=n, fractions=["0.1", "0.2", "0.7"])
        yield dict(number=n, fractions=["0.6", "0.3", "0.1"])
        yield dict(number=n, fractions=["0.1", "0.2", "0.3", "0.4"])
        yield dict(number=n, fractions=["0.2", "0.2", "0.2", "0.2", "0.2"])
    for n in (500, 999, 1500) if not th else (500, 501, 999, 1000, 1500, 2000):
        for a, b in itertools.product(range(1, 12), (7, 13, 37, 96, 97, 103)):
            yield dict(number=n, fractions=[str(a), str(b)])
            yield dict(number=n, fractions=[str(a), str(b), "0.96"])
    # shares just below and above whole numbers
    for n in (5, 10, 40, 200):
        for k in range(1, n, max(1, n // 5)):
            for eps in ("1e-3", "1e-4", "1e-5", "1e-6"):
                for sign in (1, -1):
                    f = Fraction(k, n) + sign * Fraction(eps)
                    if 0 < f < 1:
                        yield dict(number=n, fractions=[f"{float(1 - f):.13f}", f"{float(f):.13f}"])
                        yield dict(number=n, fractions=[f"{float(f):.13f}", f"{float(1 - f):.13f}"])
    for n in (10007, 12345):
        for a, b in (("0.1", "0.2"), ("0.333", "0.6"), ("1", "99999"), ("123.45", "0.001")):
            yield dict(number=n, fractions=[a, b])
    for n in (1, 2, 3, 4, 5, 6, 7):
        # absolute numbers
        for f in itertools.product(range(0, n + 1), repeat=3):
            if sum(f) == n:
                yield dict(number=n, fractions=[str(x) for x in f], dim=3)
    # the number of a position counts, not its place in an alphabetical list
    for k in (9, 10, 11, 12, 21):
        for dim in (1, 2, 3):
            w = [str(1 + (3 * i + i // 4) % 7) for i in range(k)]
            yield dict(number=sum(map(int, w)), fractions=w, dim=dim)
            yield dict(number=40, fractions=w, dim=dim)
            yield dict(number=k, fractions=["0"] * (k - 1) + ["1"], dim=dim)
            yield dict(number=3 * k + 1, fractions=["1"] * k, dim=dim)
    for dim, ld, mass in ((2, "overdamped", "2.5"), (3, "bussi-parinello", "0.125"), (1, "overdamped", None), (1, "bussi-parinello", "5000"), (2, "bussi-parinello", "1e-3"), (1, "overdamped", "2.5e7"), (3, "overdamped", "1e-9")):
        for n in (1, 4, 9):
            yield dict(number=n, fractions=["2", "1", "1"][: len(POS[dim])], dim=dim, ld=ld, mass=mass)


def check_random(case, cov):
    """random-pos and random-global in complete choice trees"""
    dim = case.get("dim", 1)
    number = case["number"]
    parts = {"number": number, "initial-distribution": case["dist"], "mass": case.get("mass"), "seed": case.get("seed")}
    if case["dist"] == "random-pos":
        pos = positions(dim, case["npos"])
        if case.get("twice"):
            pos = pos[:-1] + pos[:1]
        parts.update(inputs.pos_opts(pos))
    got = []
    u = case.get("u", [0.25, 0.75])

    def run():
        with env.choice_mode():
            ld = setup(case, parts)
        common(case, ld, number, float(case.get("mass") or 1.0))
        return tuple(float(x) for p in ld.particles for x in p.pos)

    n = 0
    for res, w, ch in choice.explore(run, uniforms=u, max_leaves=30000):
        got.append((res, w))
        n += 1
        cov.trans(len(ch))
        cov.state((str(case), res))
        cov.outcome(res)
    if case["dist"] == "random-pos":
        w = Fraction(1, len(pos) ** number)
        want = [([x for p in combo for x in p], w) for combo in itertools.product(pos, repeat=number)]
    else:
        w = Fraction(1, len(u) ** (number * dim))
        rg = case.get("ranges") or RANGES[dim]
        want = []
        for us in itertools.product(u, repeat=number * dim):
            want.append(([rg[k % dim][0] + x * (rg[k % dim][1] - rg[k % dim][0]) for k, x in enumerate(us)], w))
    d = match.difference(got, want)
    if d:
        raise Violation(f"{case}: positions of all walkers: {d}")
    cov.trace(n)
    cov.sample(f"{case}: {n} placements")


def gen_random(tier):
    th = tier == "thorough"
    for ld in ("bussi-parinello", "overdamped"):
        for npos in (1, 2, 3, 4):
            for number in range(1, 6 if npos < 4 or th else 5):
                yield dict(dist="random-pos", npos=npos, number=number, ld=ld)
        for npos in (9, 10, 11, 12, 21):
            for number in (1, 2):
                yield dict(dist="random-pos", npos=npos, number=number, ld=ld)
        for npos in (2, 3, 4):
            for number in (1, 2, 3):
                yield dict(dist="random-pos", npos=npos, number=number, ld=ld, twice=True)
        for dim in (2, 3):
            for number in (1, 2, 3):
                yield dict(dist="random-pos", npos=3, number=number, dim=dim, ld=ld, mass="0.5", seed=number - 1)
        for dim in (1, 2, 3):
            for number in range(1, 5):
                if number * dim <= (9 if th else 8):
                    yield dict(dist="random-global", number=number, dim=dim, ld=ld)
        yield dict(dist="random-global", number=2, dim=2, ld=ld, u=[0.0, 0.125, 0.9375], seed=0)
        for rg in ([[-5000.0, 8000.0]], [[-1e9, 1e9]], [[2e4, 2.5e4]], [[-1e-3, 1e-5]], [[0.0, 1e-12]]):
            yield dict(dist="random-global", number=2, dim=1, ld=ld, u=[0.0, 0.125, 0.9375], ranges=rg)
            yield dict(dist="random-global", number=1, dim=2, ld=ld, u=[0.0, 0.125, 0.9375], ranges=rg + [[-3e3, -2e3]])
            yield dict(dist="random-global", number=1, dim=3, ld=ld, u=[0.0, 0.125, 0.9375], ranges=[[1e5, 1e6]] + rg + [[-3e3, -2e3]])
        for mass in ("3", "1234.5", "4e-6"):
            yield dict(dist="random-global", number=3, dim=1, ld=ld, u=[0.0, 0.125, 0.9375], mass=mass)
            yield dict(dist="random-pos", npos=2, number=2, dim=2, ld=ld, mass=mass)


def check_real(case, cov):
    """with the real generator: inside the range of the own dimension, and different from each other"""
    dim = case["dim"]
    ld = setup(case, {"number": case["number"], "initial-distribution": case["dist"], "seed": case["seed"], "mass": case.get("mass"), **(inputs.pos_opts(POS[dim][:3]) if case["dist"] == "random-pos" else {})})
    common(case, ld, case["number"], float(case.get("mass") or 1.0))
    xs = np.array([p.pos for p in ld.particles])
    if case["dist"] == "random-global":
        for d in range(dim):
            lo, hi = RANGES[dim][d]
            if xs[:, d].min() < lo or xs[:, d].max() > hi or len(set(xs[:, d])) < case["number"]:
                raise Violation(f"{case}: coordinates {xs[:5]} for range {RANGES[dim][d]}")
            if np.ptp(xs[:, d]) < 0.5 * (hi - lo):
                raise Violation(f"{case}: coordinates of dimension {d} only fill {np.ptp(xs[:, d])} of {hi - lo}")
    else:
        for x in xs:
            if list(map(float, x)) not in POS[dim][:3]:
                raise Violation(f"{case}: walker at {x}")
        if len({tuple(x) for x in xs}) != 3:
            raise Violation(f"{case}: not all positions are used")
    cov.trace()
    cov.state(str(case))


def gen_real(tier):
    for dist in ("random-global", "random-pos"):
        for dim in (1, 2, 3):
            for seed in (None, 0, 1, 17):
                yield dict(dist=dist, dim=dim, seed=seed, number=200)
            for mass in ("2.5", "0.01"):
                for number in (60, 300, 1100):
                    yield dict(dist=dist, dim=dim, seed=3, number=number, mass=mass, ld="overdamped" if dim == 2 else "bussi-parinello")


FACTORS = {
    "dist": ["fractions-pos", "random-pos", "random-global"],
    "pot": ["1", "2", "3", "mb"],
    "number": [1, 2, 3, 17, 60, 1100],
    "npos": [1, 2, 3, 5, 11],
    "weights": ["equal", "rising", "one", "decimal"],
    "mass": [None, "0.125", "40"],
    "ld": ["bussi-parinello", "overdamped"],
    "seed": [None, 0, 7],
    "ldseed": [None, 0, 11],
    "bc": [None, "periodic", "reflective"],
    "bd": [False, True],
    "output": [False, True],
    "steps": [1, 40],
}


def check_together(case, cov):
    """All settings together, with the real generator"""
    number = case["number"]
    dim = 2 if case["pot"] == "mb" else int(case["pot"])
    if case["pot"] == "mb":
        sec, files, ranges = {"type": "mueller-brown", "scaling-factor": 0.02, "boundary-condition": case["bc"]}, {}, [(-1.5, 1.5), (-0.5, 2.5)]
    else:
        ranges = RANGES[dim]
        sec, files = sysb.potential(COEFFS[dim], ranges, case["bc"])
    k = case["npos"]
    pos = [[round(lo + (hi - lo) * (0.05 + (0.618 * (i + 1) + 0.3 * d) % 0.9), 4) for d, (lo, hi) in enumerate(ranges)] for i in range(k)]
    w = {"equal": ["1"] * k, "rising": [str(i + 1) for i in range(k)], "one": ["0"] * (k - 1) + ["2"], "decimal": [f"{0.1 + 0.13 * i:.2f}" for i in range(k)]}[case["weights"]]
    parts = {"number": number, "initial-distribution": case["dist"], "mass": case["mass"], "seed": case["seed"]}
    if case["dist"] != "random-global":
        parts.update(inputs.pos_opts(pos))
    if case["dist"] == "fractions-pos":
        parts["fractions"] = ", ".join(w)
    more = {}
    if case["bd"]:
        more["birth_death"] = {"stride": 3, "kernel-bandwidth": 0.4 if dim == 1 else [0.4] * dim, "stats-stride": 5}
    if case["output"]:
        more["trajectories"] = {"stride": 2, "filename": "t"}
        more["histogram"] = {"stride": 2, "min": ranges[0][0] if dim == 1 else [r[0] for r in ranges], "max": ranges[0][1] if dim == 1 else [r[1] for r in ranges], "bins": 4 if dim == 1 else [4] * dim}
    text = inputs.text(ld=sysb.ld_section(case["ld"], seed=case["ldseed"], n_steps=case["steps"]), potential=sec, particles=parts, **more)
    ld = env.build(text, files).ld
    mass = float(case["mass"] or 1.0)
    if len(ld.particles) != number or len({id(p) for p in ld.particles}) != number:
        raise Violation(f"{case}: {len(ld.particles)} walkers instead of {number}")
    coeffs = ref.MB(0.02, ld.pot.energy) if case["pot"] == "mb" else COEFFS[dim]
    for p in ld.particles:
        at = [float(x) for x in p.pos]
        if len(at) != dim or list(map(float, p.mom)) != [0.0] * dim or float(p.mass) != mass:
            raise Violation(f"{case}: walker at {at} with momentum {p.mom} and mass {p.mass}")
        if not sysb.close(float(p.energy), ref.poly_energy(coeffs, at), 1e-8) or not sysb.close(p.forces, ref.poly_force(coeffs, at), 1e-8):
            raise Violation(f"{case}: walker at {at} has energy {p.energy} and forces {p.forces}")
    xs = np.array([p.pos for p in ld.particles], float)
    if case["dist"] == "random-global":
        for d, (lo, hi) in enumerate(ranges):
            x = xs[:, d]
            if x.min() < lo or x.max() > hi or len(set(x)) < number or (number > 1000 and np.ptp(x) < 0.9 * (hi - lo)):
                raise Violation(f"{case}: coordinates {x[:5]} for the range {(lo, hi)}")
    else:
        got = [sum(list(map(float, p.pos)) == q for p in ld.particles) for q in pos]
        if sum(got) != number:
            raise Violation(f"{case}: {got} walkers on the positions")
        if case["dist"] == "random-pos":
            if number > 1000 and min(got) == 0:
                raise Violation(f"{case}: {got} walkers on the positions")
        else:
            f = [Fraction(x) for x in w]
            want = [math.floor(x * number / sum(f)) for x in f]
            want[0] = number - sum(want[1:])
            if got != want:
                raise Violation(f"{case}: {got} walkers on the positions instead of {want}")
    cov.trans()
    cov.trace()
    cov.state(str(case))


def gen_together(tier):
    return covering.covering(FACTORS, 3 if tier == "quick" else 4, tries=2)


FAMILIES = {
    "together": (gen_together, check_together, 8),
    "fractions": (gen_fractions, check_fractions, 32),
    "random": (gen_random, check_random, 1),
    "generator": (gen_real, check_real, 4),
}
