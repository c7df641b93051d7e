"""C05: boundary conditions, on a lattice of targets and through complete noise trees"""
import itertools
import math

import numpy as np

from .. import choice, covering, env, sysb
from ..core import Violation

RULE = (
    "a state = (boundary condition, box, integrator, per-dimension target relative to the box, momentum sign); one "
    "real integrator step is executed for every state of the lattice; noise trees of two overdamped steps on top"
)
ASSUMPTIONS = ["walkers enter a step with finite position and momentum"]
BOUNDS = {
    "quick": "dims 1-3, 9 boxes (1e-6 to 5e5 wide), time steps 1e-12 to 6e4, 23 targets per dimension (walls, +-ulp, up to a million box lengths off), both momentum "
    "signs; 2-step noise trees over 4 values; steps up to the 5000th of a run; all triples of 12 settings together",
    "thorough": "as quick with 31 targets per dimension and 3-step noise trees",
}

BOXES = {
    "sym": (-2.0, 2.0),
    "unit": (0.0, 1.0),
    "upto0": (-3.0, 0.0),
    "neg": (-5.0, -3.0),
    "odd": (-0.1, 0.3),
    "wide": (1.5, 1001.5),
    "tiny": (-0.0005, 0.0005),
    "speck": (0.0, 1e-6),
    "huge": (-250000.0, 250000.0),
}
REL = {
    "quick": [0.0, 0.25, 1.0, "0-", "1+", -0.25, -1.0, -1.5, -2.0, -7.25, 1.125, 1.75, 2.0, 2.5, 3.0, 8.25, "0+", "1-", 0.5, -1203.25, 2047.75, -123456.5, 1048576.25],
}
REL["thorough"] = REL["quick"] + [-0.5, -3.0, -12.75, -100.5, 4.0, 9.5, 33.0, 101.25]


def target(rel, lo, hi):
    if rel == "0-":
        return np.nextafter(lo, -np.inf)
    if rel == "0+":
        return np.nextafter(lo, np.inf)
    if rel == "1+":
        return np.nextafter(hi, np.inf)
    if rel == "1-":
        return np.nextafter(hi, -np.inf)
    if rel == 0.0:
        return lo
    if rel == 1.0:
        return hi
    return lo + rel * (hi - lo)


def judge(bc, box, want, mom, pos, newmom, what):
    """want/mom: state a free flight would give; pos/newmom: what the program made of it"""
    for d, (lo, hi) in enumerate(box):
        x, y, m, n = want[d], pos[d], mom[d], newmom[d]
        inside = lo <= x <= hi
        tol = 1e-9 * (hi - lo) * max(1.0, abs((x - lo) / (hi - lo)))
        where = f"{what}, dimension {d}: free flight to {x!r} in [{lo}, {hi}] with momentum {m!r}"
        if bc is None or inside:
            # the flight itself may carry a rounding error
            if y != x:
                raise Violation(f"{where} ended at {y!r}, should not be altered")
            if n != m:
                raise Violation(f"{where}: momentum became {n!r}, should not be altered")
            continue
        if not lo <= y <= hi:
            raise Violation(f"{where} ended outside at {y!r}")
        if bc == "periodic":
            k = (y - x) / (hi - lo)
            if abs(k - round(k)) * (hi - lo) > tol:
                raise Violation(f"{where} was displaced by {y - x!r}, no multiple of the box length")
            if n != m:
                raise Violation(f"{where}: momentum became {n!r}, periodic must leave it alone")
        else:
            wall = lo if x < lo else hi
            if y != wall:
                raise Violation(f"{where} ended at {y!r} instead of the wall {wall!r}")
            if n != -m:
                raise Violation(f"{where}: momentum became {n!r} instead of {-m!r}")


def flat(dim):
    return {(0,) * dim: 0.5}


def condition(bc):
    """the program's own value for a boundary condition"""
    pot, files = sysb.potential(flat(1), [(0.0, 1.0)], bc)
    return sysb.build(1, 1, pot, files).ld.pot.boundary_condition


def check_lattice(case, cov):
    bc, box, kind = case["bc"], [BOXES[b] for b in case["box"]], case["ld"]
    dim = len(box)
    rels = case["rels"]
    pot, files = sysb.potential(flat(dim), box, bc)
    scale = 4.0 ** case.get("power", 0)  # of the time step
    combos = [
        (t, s)
        for t in itertools.product(*[rels] * dim)
        for s in (itertools.product((1, -1), repeat=dim) if case["signs"] == "all" else [(1,) * dim, (-1,) * dim])
    ]
    s = sysb.build(
        len(combos), dim, pot, files, start=[b[0] for b in box],
        ld=sysb.ld_section(kind, dt=scale if kind == "bussi-parinello" else 0.5 * scale, friction=0.0),
    )
    ld = s.ld
    for other in case.get("via", []) + [bc] * bool(case.get("via")):  # the condition can be exchanged at any time
        ld.pot.boundary_condition = condition(other)
    env.rng_to_choice(ld)
    before = case.get("before", 0)  # quiet steps
    for k in range(before):
        sysb.with_draws(lambda: ld.run(k + 1))
    expect = []
    for i, (t, sg) in enumerate(combos):
        p = ld.particles[i]
        mom = np.array([sg[d] * (box[d][1] - box[d][0]) * 0.375 for d in range(dim)])
        goal = np.array([target(t[d], *box[d]) for d in range(dim)])
        if kind == "bussi-parinello":
            start = goal - mom
            p.pos[:] = start
            p.mom = sysb.momentum(p, mom / scale)
            goal = start + mom
            mom = mom / scale
        else:
            # the single draw is scripted to a displacement of 1 (prefactor sqrt(2 dt) = 2**power)
            start = goal - 1.0
            p.pos[:] = start
            p.mom = sysb.momentum(p, mom)
            goal = start + 1.0
        expect.append((goal, mom))
    sysb.with_draws(lambda: ld.run(before + 1), normals=[0.5 ** case.get("power", 0)])
    cov.trans(len(combos))
    for (goal, mom), p, (t, sg) in zip(expect, ld.particles, combos):
        judge(bc, box, goal, mom, p.pos, p.mom, f"{kind} {bc} target {t} signs {sg}")
        cov.state((bc, tuple(case["box"]), kind, t, sg))
        cov.trace()
    cov.sample(f"{kind}, {bc}, boxes {case['box']}: {len(combos)} walkers, one real step each")


def gen_lattice(tier):
    rel1 = REL[tier]
    rel2 = [0.0, 1.0, 0.5, "0-", "1+", -1.5, 2.5, -7.25, 1.125, -0.25]
    rel3 = [0.0, 0.5, "1+", -1.5, 2.5, -0.25]
    for kind in ("bussi-parinello", "overdamped"):
        for bc in (None, "periodic", "reflective"):
            for b in BOXES:
                yield dict(bc=bc, box=[b], ld=kind, rels=rel1, signs="all")
            for power in (-20, -10, -4, 3, 8):
                for b in ("sym", "unit", "odd", "upto0"):
                    yield dict(bc=bc, box=[b], ld=kind, rels=rel1, signs="all", power=power)
            for before in (1, 7, 52, 63, 99, 127, 255, 499, 511, 999, 1002, 1023, 2047, 4999):
                yield dict(bc=bc, box=["sym"], ld=kind, rels=rel3, signs="all", before=before)
                if before < 1200:
                    yield dict(bc=bc, box=["unit", "odd"], ld=kind, rels=[0.5, "1+", -0.25], signs="all", before=before)
            for k in (1, 2):
                for via in itertools.product((None, "periodic", "reflective"), repeat=k):
                    for b in (["sym"], ["unit", "odd"]):
                        yield dict(bc=bc, box=b, ld=kind, rels=rel3, signs="all", via=list(via))
            for pair in (["upto0", "sym"], ["sym", "unit"], ["neg", "odd"], ["wide", "neg"], ["unit", "unit"]):
                yield dict(bc=bc, box=pair, ld=kind, rels=rel2 if tier == "quick" else rel1, signs="all")
            for tri in (["sym", "unit", "neg"], ["odd", "wide", "sym"]):
                yield dict(bc=bc, box=tri, ld=kind, rels=rel3, signs="all")


def check_mb(case, cov):
    """The Mueller-Brown potential has its own hardcoded range"""
    bc = case["bc"]
    box = [(-1.5, 1.5), (-0.5, 2.5)]
    rels = case["rels"]
    combos = list(itertools.product(rels, rels, (1, -1), (1, -1)))
    s = sysb.build(
        len(combos), 2, {"type": "mueller-brown", "scaling-factor": 0.1, "boundary-condition": bc},
        start=[0.0, 0.5], ld=sysb.ld_section(dt=1.0, friction=0.0),
    )
    expect = []
    for p, (a, b, sa, sb) in zip(s.ld.particles, combos):
        mom = np.array([sa * 1.125, sb * 1.125])
        start = np.array([target(a, *box[0]), target(b, *box[1])]) - mom
        p.pos[:] = start
        p.mom = sysb.momentum(p, mom)
        p.forces = np.zeros(2)
        expect.append((start + mom, mom))
    env.rng_to_choice(s.ld)
    sysb.with_draws(lambda: s.ld.run(1))
    for (goal, mom), p, c in zip(expect, s.ld.particles, combos):
        f = np.asarray(s.ld.pot.force(p.pos), float)
        if not np.all(np.isfinite(f)) or np.max(np.abs(f)) > 1e6:
            mom_new = None  # kick of the new force hides the reversal
        else:
            mom_new = p.mom - 0.5 * f
            # undo the kick up to rounding
            mom_new = np.where(np.abs(np.abs(mom_new) - 1.125) < 1e-6, np.sign(mom_new) * 1.125, mom_new)
        judge(bc, box, goal, mom, p.pos, mom if mom_new is None and bc != "reflective" else (
            mom_new if mom_new is not None else np.where((goal < [b[0] for b in box]) | (goal > [b[1] for b in box]), -mom, mom)
        ), f"mueller-brown {bc} {c}")
        cov.state(("mb", bc, c))
        cov.trace()
    cov.trans(len(combos))


def gen_mb(tier):
    for bc in ("periodic", "reflective", None):
        yield dict(bc=bc, rels=[0.0, 0.25, 1.0, "0-", "1+", -0.25, -1.5, 2.5, 0.5] if bc else [0.0, 0.25, 1.0, 0.5])


def check_tree(case, cov):
    """Every noise realisation of a few steps: always inside, always a legal image"""
    bc, box = case["bc"], [BOXES[b] for b in case["box"]]
    kind = case["ld"]
    dim = len(box)
    coeffs = {(0,) * dim: 0.0, tuple([2] + [0] * (dim - 1)): 0.3, tuple([1] + [0] * (dim - 1)): -0.2}
    pot, files = sysb.potential(coeffs, box, bc)
    dt = case["dt"]
    start = [b[0] + 0.3 * (b[1] - b[0]) for b in box]
    base = sysb.build(1, dim, pot, files, start=start, ld=sysb.ld_section(kind, dt=dt, friction=0.7), choice_rng=True)
    hist = []

    def run():
        ld = env.snapshot(base.ld)
        p = ld.particles[0]
        hist.clear()
        for k in range(case["steps"]):
            ld.run(k + 1)
            hist.append((p.pos.copy(), p.mom.copy()))
        return tuple(tuple(x) for x, _ in hist)

    n = 0
    outside = 0
    for res, _, ch in choice.explore(run, normals=case["normals"], max_leaves=200000):
        n += 1
        cov.trans(len(res))
        for k, x in enumerate(res):
            cov.state((kind, bc, tuple(case["box"]), k, x))
            for d, (lo, hi) in enumerate(box):
                if not lo <= x[d] <= hi:
                    raise Violation(
                        f"{kind} {bc} step {k + 1}: coordinate {x[d]!r} outside of [{lo}, {hi}] for noise choices {ch}"
                    )
                if x[d] in (lo, hi):
                    outside += 1
    cov.trace(n)
    cov.count("wall hits", outside)
    cov.sample(f"{kind} {bc} {case['box']}: {n} noise realisations of {case['steps']} steps")


def gen_tree(tier):
    steps = 2 if tier == "quick" else 3
    for bc in ("periodic", "reflective"):
        for box in (["sym"], ["unit"], ["neg"], ["odd"]):
            yield dict(bc=bc, box=box, ld="overdamped", dt=0.4, steps=steps + 1, normals=[-9.7, -2.1, 0.4, 3.3])
            yield dict(bc=bc, box=box, ld="bussi-parinello", dt=0.9, steps=steps, normals=[-9.7, -2.1, 0.4, 3.3])
        yield dict(bc=bc, box=["sym", "unit"], ld="overdamped", dt=0.4, steps=steps, normals=[-9.7, -2.1, 0.4, 3.3])
        yield dict(bc=bc, box=["odd", "neg"], ld="bussi-parinello", dt=0.9, steps=1, normals=[-9.7, -2.1, 0.4, 3.3])
        yield dict(bc=bc, box=["odd", "neg", "sym"], ld="overdamped", dt=0.9, steps=1, normals=[-9.7, -2.1, 0.4, 3.3])


MASSSETS = {"one": [1.0], "light": [0.31], "heavy": [6.5], "mixed": [0.4, 2.5, 1.0, 13.0]}
SHAPES = [["sym"], ["unit"], ["neg"], ["odd", "upto0"], ["unit", "sym"], ["neg", "wide"], ["sym", "odd", "unit"], ["upto0", "neg", "sym"]]
FACTORS = {
    "ld": ["bussi-parinello", "overdamped"],
    "bc": ["periodic", "reflective", None],
    "box": SHAPES,
    "dt": [4e-4, 0.02, 0.3, 1.5],
    "friction": [0.0, 0.2, 1.5, 8.0],
    "kt": [0.04, 1.0, 12.0],
    "masses": list(MASSSETS),
    "n": [1, 2, 7, 40, 220],
    "before": [0, 1, 56, 1004],
    "tilt": [0.0, 2.5, -300.0],
    "reach": [0.2, 1.3, 40.0],  # box lengths
    "sign": [1, -1],
}


def check_together(case, cov):
    """All settings together: a step with the boundary condition against the same step without, in a constant force"""
    box, kind, dt = [BOXES[b] for b in case["box"]], case["ld"], case["dt"]
    dim, n, bc = len(box), case["n"], case["bc"]
    coeffs = {(0,) * dim: 0.5}
    force = [0.0] * dim
    for d in range(dim):
        force[d] = case["tilt"] * (1 + d)
        coeffs[tuple(int(d == e) for e in range(dim))] = -force[d]
    masses = [MASSSETS[case["masses"]][i % len(MASSSETS[case["masses"]])] for i in range(n)]
    c1 = math.exp(-0.5 * case["friction"] * dt)
    rels = [0.5, "1+", -0.25, 1.5, 0.9, "0-", 0.1, -3.25, 2.0, 7.75]

    def motion(condition):
        pot, files = sysb.potential(coeffs, box, condition)
        ld = sysb.build(
            1, dim, pot, files, start=[b[0] + 0.5 * (b[1] - b[0]) for b in box], mass=masses[0],
            ld=sysb.ld_section(kind, dt=dt, friction=case["friction"], kt=case["kt"]), choice_rng=True,
        ).ld
        with env.quiet():
            for i in range(1, n):
                ld.add_particle([b[0] + 0.25 * (b[1] - b[0]) for b in box], masses[i])
        for k in range(case["before"]):
            sysb.with_draws(lambda: ld.run(k + 1))
        amp = 0.0 if kind == "bussi-parinello" else case["sign"] * case["reach"] * min(b[1] - b[0] for b in box) / math.sqrt(2 * dt)
        for i in range(n):
            goal = [target(rels[(i + 3 * d + case["before"]) % len(rels)], *box[d]) for d in range(dim)]
            jump = [case["sign"] * case["reach"] * (b[1] - b[0]) for b in box]
            if kind == "bussi-parinello":
                mom = [jump[d] / dt * masses[i] for d in range(dim)]
                start = [goal[d] - jump[d] for d in range(dim)]
                mom = [(mom[d] - 0.5 * dt * force[d]) / c1 for d in range(dim)]
            else:
                mom = [(-1) ** d * 0.7 for d in range(dim)]
                start = [goal[d] - dt * force[d] - math.sqrt(2 * dt) * amp for d in range(dim)]
            sysb.set_walker(ld, i, start, mom)
        sysb.with_draws(lambda: ld.run(case["before"] + 1), normals=[amp])
        cov.trans()
        return [([float(v) for v in p.pos], [float(v) for v in p.mom]) for p in ld.particles]

    free = motion(None)
    for i, ((x, p), (y, q)) in enumerate(zip(free, motion(bc))):
        for d, (lo, hi) in enumerate(box):
            where = f"{case}: walker {i}, dimension {d}: without boundary condition at {x[d]!r} with momentum {p[d]!r}, now at {y[d]!r} with {q[d]!r}"
            size = hi - lo
            tol = 1e-9 * max(size, abs(x[d]), case["reach"] * size)
            same = abs(q[d] - p[d]) <= 1e-9 * (1 + abs(p[d]) + dt * abs(force[d]))
            if bc is None or lo + tol < x[d] < hi - tol:
                if abs(y[d] - x[d]) > tol or not same:
                    raise Violation(f"{where}: altered inside of the box")
                continue
            if not lo <= y[d] <= hi:
                raise Violation(f"{where}: outside of [{lo}, {hi}]")
            near = min(abs(x[d] - lo), abs(x[d] - hi)) <= tol  # in or out
            if bc == "periodic":
                k = (y[d] - x[d]) / size
                if abs(k - round(k)) * size > tol:
                    raise Violation(f"{where}: displaced by no multiple of the box length")
                if not same:
                    raise Violation(f"{where}: periodic must leave the momentum alone")
                continue
            wall = lo if x[d] < (lo + hi) / 2 else hi
            if y[d] != wall and not (near and abs(y[d] - wall) <= tol):
                raise Violation(f"{where}: not at the wall {wall}")
            back = c1 * dt * force[d] - p[d] if kind == "bussi-parinello" else -p[d]  # the second half kick comes after the reversal
            if abs(q[d] - back) > 1e-9 * (1 + abs(p[d]) + dt * abs(force[d])) and not (near and same):
                raise Violation(f"{where}: not reversed ({back!r})")
        cov.state((str(case), i))
    cov.trace()


def gen_together(tier):
    return covering.covering(FACTORS, 3 if tier == "quick" else 4, lambda c: c["n"] * c["before"] <= 8000, tries=2)


FAMILIES = {
    "together": (gen_together, check_together, 4),
    "lattice": (gen_lattice, check_lattice, 1),
    "mueller-brown": (gen_mb, check_mb, 1),
    "noise-tree": (gen_tree, check_tree, 1),
}
