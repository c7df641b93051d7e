"""C04: one and several integrator steps over all noise realisations of a bounded alphabet"""
import itertools
import math
from fractions import Fraction

import numpy as np

from .. import choice, covering, env, inputs, match, ref, sysb
from ..core import Violation

RULE = (
    "a case = (integrator, potential, walkers, parameters, number of steps); every leaf of the noise tree (each normal "
    "draw in {-1, +1}) is executed on the real integrator, and the weighted set of final states is compared with the "
    "documented scheme over the same alphabet, so neither draw order nor sign matters"
)
ASSUMPTIONS = [
    "the integrators take normal numbers from numpy's Generator interface; they enter the schemes linearly, so a two "
    "point alphabet determines the coefficients",
]
BOUNDS = {
    "quick": "1-3 dimensions, 1-3 walkers with different masses, 1-3 steps, up to 4096 noise leaves per case, "
    "3 boundary conditions, 18 parameter sets (time steps 1e-6 to 12, friction*dt up to 100), masses 1e-9 to 1e11, Mueller-Brown included; 260 walkers or 210 steps "
    "with one draw changed per execution; every single one of 12000 consecutive steps, all of 1100 walkers; all triples of 11 settings together (up to 220 walkers, step 1006)",
    "thorough": "as quick, up to 65536 leaves per case (3 walkers, 4 steps); 700 walkers or 600 steps with one draw changed",
}

POTS = {
    "quartic": ({(1,): 0.2, (2,): -4.0, (4,): 1.0}, [(-2.5, 2.5)]),
    "cubic": ({(0,): 1.0, (1,): -1.0, (3,): 0.7}, [(-1.0, 3.0)]),
    "wolfe-quapp": ({(1, 0): 0.3, (2, 0): -2.0, (4, 0): 1.0, (0, 1): 0.1, (1, 1): 1.0, (0, 2): -4.0, (0, 4): 1.0}, [(-2.5, 2.5), (-2.0, 3.0)]),
    "tri": ({(1, 0, 0): 0.5, (0, 2, 0): 1.5, (1, 0, 1): -0.8, (0, 0, 3): 0.4, (2, 1, 0): 0.3}, [(-2.0, 2.0), (-1.0, 1.5), (-3.0, 3.0)]),
}
POTS["hill"] = ({(0,): 2.0, (2,): -1.5, (4,): 0.5}, [(-2.5, 2.5)])  # no force in the middle
POTS["steep"] = ({(1,): 40000.0, (2,): 30000.0, (3,): -900.0}, [(-2.5, 2.5)])
POTS["steep2"] = ({(1, 0): 9000.0, (1, 1): -60000.0, (0, 2): 5000.0}, [(-2.5, 2.5), (-2.5, 2.5)])
POTS["well"] = ({(1,): 0.3, (2,): 1.0}, [(-1.5, 1.25)])
POTS["bowl"] = ({(1, 0): 0.3, (2, 0): 1.0, (0, 2): 0.7, (1, 1): 0.4}, [(-1.5, 1.25), (-1.0, 2.0)])
POTS["far"] = ({(1,): 0.5, (2,): 1e-7}, [(-3e7, 3e7)])
POTS["mb"] = (None, [(-1.5, 1.5), (-0.5, 2.5)])
MB_SCALE = 0.02
STARTS = [[0.4, -0.7, 1.1], [-1.2, 0.5, 0.3], [1.7, 1.3, -0.9]]
STEEP = ("steep", "steep2")
ZERO = [[0.0] * 3] * 3
MOMS = [[0.9, -0.4, 0.2], [-1.5, 0.8, -0.6], [0.3, 2.0, 1.4]]


def bc_ref(bc, ranges, x, p):
    for d, (lo, hi) in enumerate(ranges):
        if lo <= x[d] <= hi or bc is None:
            continue
        if bc == "periodic":
            x[d] = lo + (x[d] - lo) % (hi - lo)
        else:
            x[d] = lo if x[d] < lo else hi
            p[d] = -p[d]


def bp_ref(coeffs, ranges, bc, par, x, p, m, xi):
    """one step; xi: 2*dim numbers"""
    dim = len(x)
    dt = par["dt"]
    c1 = math.exp(-0.5 * par["friction"] * dt)
    c2 = math.sqrt((1 - c1 * c1) * m * par["kt"])
    f = ref.poly_force(coeffs, x)
    p = [c1 * p[d] + c2 * xi[d] + 0.5 * dt * f[d] for d in range(dim)]
    x = [x[d] + p[d] / m * dt for d in range(dim)]
    bc_ref(bc, ranges, x, p)
    f = ref.poly_force(coeffs, x)
    p = [c1 * (p[d] + 0.5 * dt * f[d]) + c2 * xi[dim + d] for d in range(dim)]
    return x, p


def od_ref(coeffs, ranges, bc, par, x, p, m, xi):
    f = ref.poly_force(coeffs, x)
    dt = par["dt"]
    x = [x[d] + dt * f[d] + math.sqrt(2 * dt) * xi[d] for d in range(len(x))]
    p = list(p)
    bc_ref(bc, ranges, x, p)
    return x, p


def setup(case):
    """section and files of the potential, coefficients for the reference, start positions"""
    coeffs, ranges = POTS[case["pot"]]
    starts = ZERO if case.get("at") == "zero" else [[x * case.get("far", 1.0) for x in p] for p in STARTS]
    if coeffs is None:
        sec = {"type": "mueller-brown", "scaling-factor": MB_SCALE, "boundary-condition": case["bc"]}
        return sec, {}, ranges, [[0.4, 0.3], [-1.2, 0.5], [-0.3, 1.4]]
    return sysb.potential(coeffs, ranges, case["bc"]) + (ranges, starts)


def reference(case, coeffs):
    _, ranges = POTS[case["pot"]]
    starts = setup(case)[3]
    dim = len(ranges)
    step = bp_ref if case["ld"] == "bussi-parinello" else od_ref
    nd = 2 * dim if case["ld"] == "bussi-parinello" else dim
    n, steps = case["n"], case["steps"]
    masses = case["masses"]
    amp = case.get("amp", 1.0)
    # walkers are independent: product of the per-walker outcomes
    per = []
    for i in range(n):
        cur = [(starts[i][:dim], MOMS[i][:dim])]
        for _ in range(steps):
            cur = [step(coeffs, ranges, case["bc"], case["par"], x, p, masses[i], xi) for x, p in cur for xi in itertools.product((-amp, amp), repeat=nd)]
        per.append(cur)
    w = Fraction(1, math.prod(len(c) for c in per))
    return [([v for x, p in combo for v in list(x) + list(p)], w) for combo in itertools.product(*per)]


def system(case):
    pot, files, ranges, starts = setup(case)
    dim = len(ranges)
    par = case["par"]
    s = sysb.build(
        1, dim, pot, files, start=starts[0][:dim], mass=case["masses"][0],
        ld=sysb.ld_section(case["ld"], dt=par["dt"], friction=par["friction"], kt=par["kt"]), choice_rng=True,
    )
    with env.quiet():
        if case.get("replaced"):
            # the walkers under test replace others of different mass
            for i in range(case["n"]):
                if i:
                    s.ld.add_particle(starts[0][:dim], 3.25 + i)
                s.ld.add_particle(starts[i][:dim], case["masses"][i], i, True)
        elif case.get("inserted"):
            # between others, the last ones first; one that is not wanted any more is removed
            s.ld.add_particle(starts[1][:dim], 5.5)
            for i in range(case["n"] - 1, 0, -1):
                s.ld.add_particle(starts[i][:dim], case["masses"][i], 1)
            s.ld.remove_particle(case["n"])
            s.ld.add_particle(starts[0][:dim], case["masses"][0], 0)
            s.ld.remove_particle(1)
        else:
            for i in range(1, case["n"]):
                s.ld.add_particle(starts[i][:dim], case["masses"][i])
    for i, p in enumerate(s.ld.particles):
        p.mom = sysb.momentum(p, MOMS[i][:dim])
    return s.ld


def check_derived(case, ld, coeffs):
    for i, p in enumerate(ld.particles):
        e, f = ref.poly_energy(coeffs, p.pos), ref.poly_force(coeffs, p.pos)
        size = 100 + abs(e) + max(map(abs, f)) if isinstance(coeffs, ref.MB) else 1 + sum(abs(c) * math.prod(max(1.0, abs(x)) ** k for x, k in zip(p.pos, ks)) for ks, c in coeffs.items())
        if not abs(float(p.energy) - e) <= 1e-8 * size:
            raise Violation(f"{case}: stored energy {p.energy} of walker {i} at {p.pos}, potential is {e}")
        if np.shape(p.forces) != np.shape(p.pos) or not np.max(np.abs(np.asarray(p.forces) - f)) <= 1e-8 * size * 10:
            raise Violation(f"{case}: stored forces {p.forces} of walker {i} at {p.pos} instead of {f}")


def check(case, cov):
    base = system(case)
    coeffs = POTS[case["pot"]][0] or ref.MB(MB_SCALE, base.pot.energy)
    check_derived(case, base, coeffs)

    def run():
        ld = env.snapshot(base)
        for k in range(case["steps"]):
            ld.run(k + 1)
            check_derived(case, ld, coeffs)
        if len(ld.particles) != case["n"]:
            raise Violation(f"{case}: {len(ld.particles)} walkers after the step")
        for p, m in zip(ld.particles, case["masses"]):
            if p.mass != m:
                raise Violation(f"{case}: mass became {p.mass}")
        return [float(v) for p in ld.particles for v in list(p.pos) + list(p.mom)]

    real = []
    for res, w, ch in choice.explore(run, normals=[-case.get("amp", 1.0), case.get("amp", 1.0)], max_leaves=case.get("limit", 20000)):
        real.append((res, w))
        cov.trans(case["steps"])
    want = reference(case, coeffs)
    diff = match.difference(real, want, case.get("tol", 1e-7))
    if diff:
        raise Violation(f"{case}: state = (pos, mom) per walker; {diff}")
    cov.trace(len(real))
    for k in match.collapse(real):
        cov.state((repr(case["par"]), case["ld"], case["pot"], case["bc"], k))
    cov.sample(f"{case['ld']} {case['pot']} {case['n']} walkers {case['steps']} steps: {len(real)} noise leaves")


PARS = [
    dict(dt=0.01, friction=3.0, kt=1.0), dict(dt=0.2, friction=0.5, kt=2.5), dict(dt=0.05, friction=0.0, kt=1.0),
    dict(dt=0.1, friction=25.0, kt=0.3), dict(dt=0.0, friction=1.0, kt=1.0), dict(dt=0.3, friction=1.0, kt=0.7),
]
# time steps and frictions of very different size
EXTREME = [
    dict(dt=0.001, friction=4.0, kt=1.5), dict(dt=2.0, friction=0.1, kt=1.0), dict(dt=0.004, friction=0.01, kt=40.0),
    dict(dt=0.02, friction=5000.0, kt=1.0), dict(dt=12.0, friction=0.003, kt=0.01), dict(dt=1e-5, friction=100.0, kt=100.0),
]
# friction that forgets the momentum within a step or two
STRONG = [dict(dt=0.5, friction=18.0, kt=1.2), dict(dt=2.0, friction=6.0, kt=0.4), dict(dt=0.01, friction=1500.0, kt=1.0)]
# hardly any noise
WEAK = [dict(dt=1e-3, friction=1e-5, kt=1e-2), dict(dt=0.05, friction=1e-3, kt=1e-6), dict(dt=1e-6, friction=0.5, kt=0.02)]
MASSES = [[1.0, 1.0, 1.0], [2.5, 0.4, 7.0]]
# of very different size, with many digits
ODD = [[1.23456789, 0.7654321, 3.3333333], [0.0123456789, 0.3, 11.0], [40000.515625, 1e-3, 2e7], [1.00000123, 0.99999, 1.5]]


def gen(tier):
    bp, od = "bussi-parinello", "overdamped"
    for kind in (bp, od):
        for par in PARS:
            for masses in MASSES:
                for bc in (None, "periodic", "reflective"):
                    for pot in POTS:
                        if pot in STEEP or pot == "far":
                            continue
                        yield dict(ld=kind, pot=pot, n=1, steps=1, par=par, masses=masses, bc=bc)
    for kind in (bp, od):
        for par in EXTREME:
            for masses in MASSES:
                for pot in ("quartic", "hill", "tri"):
                    yield dict(ld=kind, pot=pot, n=1, steps=1, par=par, masses=masses, bc=None)
        # unlikely noise, strong forces, weak noise, walkers that replaced others
        for amp in (4.5, 9.0, 1e-7):
            for pot in ("quartic", "wolfe-quapp"):
                yield dict(ld=kind, pot=pot, n=1, steps=1, par=PARS[0], masses=MASSES[1], bc="periodic", amp=amp)
                yield dict(ld=kind, pot=pot, n=1, steps=1, par=PARS[3], masses=MASSES[1], bc=None, amp=amp)
        for pot in STEEP:
            for bc in (None, "periodic", "reflective"):
                for dt in (1e-6, 1e-4, 3e-3):
                    yield dict(ld=kind, pot=pot, n=1, steps=1, par=dict(dt=dt, friction=2.0, kt=1.0), masses=MASSES[1], bc=bc)
        for pot in STEEP[1:] + ("well", "bowl"):  # huge displacements and momenta
            for dt in (3.0, 1e3, 1e5):
                yield dict(ld=kind, pot=pot, n=1, steps=1, par=dict(dt=dt, friction=2.0, kt=1.0), masses=MASSES[1], bc=None)
        for far in (1e-12, 1e-9, 1e-6, 1e4, 1e6):
            for bc in (None, "periodic"):
                yield dict(ld=kind, pot="far", n=2, steps=1, par=PARS[1], masses=MASSES[1], bc=bc, far=far)
        for par in WEAK:
            for pot in ("quartic", "wolfe-quapp"):
                yield dict(ld=kind, pot=pot, n=1, steps=1, par=par, masses=MASSES[1], bc=None, tol=1e-11)
        for par in STRONG:
            for pot in ("quartic", "wolfe-quapp", "cubic"):
                for bc in (None, "periodic"):
                    yield dict(ld=kind, pot=pot, n=1, steps=1, par=par, masses=MASSES[1], bc=bc, tol=1e-9)
        for masses in ODD:
            for par in (PARS[0], PARS[1]):
                for pot in ("quartic", "wolfe-quapp"):
                    for bc in (None, "periodic", "reflective"):
                        yield dict(ld=kind, pot=pot, n=1, steps=1, par=par, masses=masses, bc=bc, tol=1e-9)
            yield dict(ld=kind, pot="quartic", n=2, steps=1, par=PARS[0], masses=masses, bc="periodic", tol=1e-9)
        for masses in MASSES:
            yield dict(ld=kind, pot="quartic", n=2, steps=1, par=PARS[1], masses=masses, bc="reflective", replaced=True)
            yield dict(ld=kind, pot="cubic", n=3, steps=1, par=PARS[5], masses=masses, bc=None, replaced=True)
            yield dict(ld=kind, pot="quartic", n=2, steps=1, par=PARS[1], masses=masses, bc="periodic", inserted=True)
            yield dict(ld=kind, pot="cubic", n=3, steps=1, par=PARS[0], masses=masses, bc=None, inserted=True)
            yield dict(ld=kind, pot="wolfe-quapp", n=2, steps=1, par=PARS[5], masses=masses, bc="reflective", inserted=True)
        for par in PARS[:2]:
            for bc in (None, "periodic", "reflective"):
                # starting where there is no force
                yield dict(ld=kind, pot="hill", n=1, steps=3, par=par, masses=MASSES[1], bc=bc, at="zero")
                yield dict(ld=kind, pot="hill", n=2, steps=2, par=par, masses=MASSES[1], bc=bc, at="zero")
                for n, steps in ((1, 1), (1, 2), (2, 1), (3, 1)) if kind == od else ((1, 1), (1, 2), (2, 1)):
                    yield dict(ld=kind, pot="mb", n=n, steps=steps, par=dict(par, dt=par["dt"] / 8), masses=MASSES[1], bc=bc)
        yield dict(ld=kind, pot="mb", n=2, steps=2 if kind == od else 1, par=dict(dt=0.02, friction=1.0, kt=0.7), masses=MASSES[0], bc=None)
    big = tier == "thorough"
    for kind in (bp, od):
        for par in PARS[:2] + PARS[5:]:
            for bc in (None, "periodic", "reflective"):
                m = MASSES[1]
                for pot in ("quartic", "cubic"):
                    yield dict(ld=kind, pot=pot, n=1, steps=3, par=par, masses=m, bc=bc)
                    yield dict(ld=kind, pot=pot, n=2, steps=1, par=par, masses=m, bc=bc)
                    yield dict(ld=kind, pot=pot, n=2, steps=2, par=par, masses=m, bc=bc)
                    yield dict(ld=kind, pot=pot, n=3, steps=1, par=par, masses=m, bc=bc)
                yield dict(ld=kind, pot="wolfe-quapp", n=2, steps=1, par=par, masses=m, bc=bc)
                yield dict(ld=kind, pot="wolfe-quapp", n=1, steps=2, par=par, masses=m, bc=bc)
                yield dict(ld=kind, pot="tri", n=1, steps=2 if kind == od else 1, par=par, masses=m, bc=bc)
    if big:
        for bc in (None, "periodic", "reflective"):
            yield dict(ld=bp, pot="quartic", n=1, steps=6, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)
            yield dict(ld=bp, pot="quartic", n=2, steps=3, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)
            yield dict(ld=bp, pot="quartic", n=3, steps=2, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)
            yield dict(ld=od, pot="quartic", n=3, steps=4, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)
            yield dict(ld=bp, pot="tri", n=1, steps=2, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)
            yield dict(ld=od, pot="tri", n=2, steps=2, par=PARS[1], masses=MASSES[1], bc=bc, limit=70000)


def check_main(case, cov):
    """The same through the whole program: trajectory files of every noise realisation"""
    coeffs, ranges = POTS[case["pot"]]
    dim = len(ranges)
    sec, files = sysb.potential(coeffs, ranges, case["bc"])
    par = case["par"]
    n, steps = case["n"], case["steps"]
    text = inputs.text(
        ld=sysb.ld_section(case["ld"], dt=par["dt"], friction=par["friction"], kt=par["kt"], n_steps=steps),
        potential=sec,
        particles={
            "number": n, "initial-distribution": "fractions-pos", "mass": case["masses"][0],
            **inputs.pos_opts([STARTS[i][:dim] for i in range(n)]), "fractions": [1] * n,
        },
        trajectories={"filename": "t", "momentum": True, "write-stride": 2, "fmt": "%%.12f"},
    )

    def run():
        with env.scratch(files):
            res = env.run_main(text)
        if res.status != "ok":
            raise Violation(f"{case}: program ended with {res.status}\n{res.text()[-800:]}")
        out = []
        for i in range(n):
            rows = env.data_rows(res.files[f"t.{i}"])
            if len(rows) != steps:
                raise Violation(f"{case}: {len(rows)} rows for {steps} steps")
            for r in rows:
                out += r[1:]
        return out

    real = []
    with env.choice_mode():
        for res, w, _ in choice.explore(run, normals=[-1.0, 1.0]):
            real.append((res, w))
            cov.trans(steps)
    step = bp_ref if case["ld"] == "bussi-parinello" else od_ref
    nd = 2 * dim if case["ld"] == "bussi-parinello" else dim
    per = []
    for i in range(n):
        cur = [([], STARTS[i][:dim], [0.0] * dim)]
        for _ in range(steps):
            nxt = []
            for h, x, p in cur:
                for xi in itertools.product((-1.0, 1.0), repeat=nd):
                    x2, p2 = step(coeffs, ranges, case["bc"], par, x, p, case["masses"][0], xi)
                    nxt.append((h + list(x2) + list(p2), x2, p2))
            cur = nxt
        per.append([h for h, _, _ in cur])
    w = Fraction(1, math.prod(len(c) for c in per))
    want = [([v for h in combo for v in h], w) for combo in itertools.product(*per)]
    diff = match.difference(real, want)
    if diff:
        raise Violation(f"{case}: rows of the trajectory files; {diff}")
    cov.trace(len(real))
    for k in match.collapse(real):
        cov.state(("main", repr(case), k))


def gen_main(tier):
    for kind in ("bussi-parinello", "overdamped"):
        for bc in (None, "periodic", "reflective"):
            for par in (PARS[1], PARS[5]):
                for masses in MASSES:
                    yield dict(ld=kind, pot="quartic", n=1, steps=3 if kind == "overdamped" else 2, par=par, masses=masses, bc=bc)
                    yield dict(ld=kind, pot="quartic", n=2, steps=1, par=par, masses=masses, bc=bc)
                yield dict(ld=kind, pot="wolfe-quapp", n=1, steps=1, par=par, masses=MASSES[1], bc=bc)
                yield dict(ld=kind, pot="tri", n=1, steps=1, par=par, masses=MASSES[1], bc=bc)


def wide_state(case, i):
    """start, momentum and mass of walker i"""
    dim = len(POTS[case["pot"]][1])
    x = [-1.9 + (0.613 * i + 1.17 * d) % 3.7 for d in range(dim)]
    p = [math.sin(1.3 * i + d) * 1.1 for d in range(dim)]
    return x, p, (0.5 + (i * 0.37) % 3.0) * case.get("heavy", 1.0)


def check_wide(case, cov):
    """Many walkers or many steps: one draw after the other is changed from 0 to 1

    Every (step, walker, dimension, use) has to own exactly one of the draws."""
    coeffs, ranges = POTS[case["pot"]]
    dim, n, steps, par = len(ranges), case["n"], case["steps"], case["par"]
    pot, files = sysb.potential(coeffs, ranges, case["bc"])
    states = [wide_state(case, i) for i in range(n)]
    s = sysb.build(
        1, dim, pot, files, start=states[0][0], mass=states[0][2],
        ld=sysb.ld_section(case["ld"], dt=par["dt"], friction=par["friction"], kt=par["kt"]), choice_rng=True,
    )
    with env.quiet():
        for x, _, m in states[1:]:
            s.ld.add_particle(x, m)
    for p, (_, mom, _) in zip(s.ld.particles, states):
        p.mom = sysb.momentum(p, mom)
    base = s.ld
    step, nd = (bp_ref, 2 * dim) if case["ld"] == "bussi-parinello" else (od_ref, dim)

    def expected(i, at=None):
        """states of walker i after every step, noise +-1 in slot `at` = (step, use, sign) and 0 elsewhere"""
        x, p, m = states[i]
        out = []
        for k in range(steps):
            xi = [at[2] if at and at[:2] == (k, u) else 0.0 for u in range(nd)]
            x, p = step(coeffs, ranges, case["bc"], par, x, p, m, xi)
            out += list(x) + list(p)
        return out

    def run():
        ld = env.snapshot(base)
        out = [[] for _ in range(n)]
        for k in range(steps):
            ld.run(k + 1)
            if len(ld.particles) != n:
                raise Violation(f"{case}: {len(ld.particles)} walkers after the step")
            for o, p in zip(out, ld.particles):
                o += [float(v) for v in list(p.pos) + list(p.mom)]
        return out

    quiet = [expected(i) for i in range(n)]
    # the sign of a noise term has no meaning
    slots = [{(k, u): [expected(i, (k, u, sg)) for sg in (1.0, -1.0)] for k in range(steps) for u in range(nd)} for i in range(n)]
    tol = 1e-8

    def same(a, b):
        return max(abs(v - w) for v, w in zip(a, b)) <= tol * (1 + max(map(abs, b)))

    leaves = 0
    for j, res in choice.single_deviations(run, "n", normals=[0.0, 1.0]):
        leaves += 1
        cov.trans(steps)
        if j is None:
            for i in range(n):
                if not same(res[i], quiet[i]):
                    raise Violation(f"{case}: without noise walker {i} moves through {res[i][:8]} instead of {quiet[i][:8]}")
            continue
        moved = [i for i in range(n) if not same(res[i], quiet[i])]
        if not moved:
            continue  # a number that is not used
        if len(moved) > 1:
            raise Violation(f"{case}: random number {j} enters the motion of the walkers {moved[:6]}")
        i = moved[0]
        hit = [u for u, v in slots[i].items() if same(res[i], v[0]) or same(res[i], v[1])]
        if not hit:
            raise Violation(f"{case}: random number {j} changes the path of walker {i} as no single noise term of the scheme does (or one that has its number already)")
        del slots[i][hit[0]]
        cov.state((repr(case), i, hit[0]))
    left = [(i, u) for i in range(n) for u, v in slots[i].items() if not same(v[0], quiet[i])]
    if left:
        raise Violation(f"{case}: no random number of their own for (walker, (step, noise term)) {left[:5]}")
    cov.trace(leaves)
    cov.sample(f"{case['ld']} {case['pot']} {n} walkers {steps} steps: {leaves} executions, one draw changed in each")


def gen_wide(tier):
    big = tier == "thorough"
    for kind in ("bussi-parinello", "overdamped"):
        par = dict(dt=0.01, friction=1.5, kt=1.3)
        yield dict(ld=kind, pot="quartic", n=700 if big else 260, steps=1, par=par, bc="periodic")
        yield dict(ld=kind, pot="wolfe-quapp", n=150 if big else 40, steps=1, par=par, bc=None)
        yield dict(ld=kind, pot="tri", n=60 if big else 20, steps=1, par=par, bc="reflective")
        yield dict(ld=kind, pot="quartic", n=1, steps=600 if big else 210, par=par, bc=None)
        yield dict(ld=kind, pot="cubic", n=3, steps=30, par=par, bc=None)


def check_long(case, cov):
    """Every one of many consecutive steps leads to a state the scheme allows for the noise of that step"""
    coeffs, ranges = POTS[case["pot"]]
    dim, n, par = len(ranges), case["n"], case["par"]
    pot, files = sysb.potential(coeffs, ranges, case["bc"])
    states = [wide_state(case, i) for i in range(n)]
    s = sysb.build(
        1, dim, pot, files, start=[0.1] * dim, mass=states[0][2],
        ld=sysb.ld_section(case["ld"], dt=par["dt"], friction=par["friction"], kt=par["kt"]), choice_rng=True,
    )
    with env.quiet():
        for i, (_, _, m) in enumerate(states[1:], 1):
            s.ld.add_particle([0.1 + 0.2 * (i % 6)] * dim, m)
    ld = s.ld
    step, nd = (bp_ref, 2 * dim) if case["ld"] == "bussi-parinello" else (od_ref, dim)
    hits = 0
    for k in range(1, case["steps"] + 1):
        amp = math.sin(1.7 * k) * (6.0 if k % 7 == 0 else 1.0)
        old = [([float(v) for v in p.pos], [float(v) for v in p.mom]) for p in ld.particles]
        sysb.with_draws(lambda: ld.run(k), normals=[amp])
        if len(ld.particles) != n:
            raise Violation(f"{case}: {len(ld.particles)} walkers after step {k}")
        for i, ((x, p), w) in enumerate(zip(old, ld.particles)):
            now = [float(v) for v in list(w.pos) + list(w.mom)]
            allowed = []
            for sg in itertools.product((1, -1), repeat=nd):  # the sign of a noise term has no meaning
                a, b = step(coeffs, ranges, case["bc"], par, list(x), list(p), states[i][2], [amp * g for g in sg])
                allowed.append(list(a) + list(b))
                if max(abs(u - v) for u, v in zip(now, allowed[-1])) <= 1e-9 * (1 + max(map(abs, allowed[-1]))):
                    break
            else:
                raise Violation(f"{case}: step {k} takes walker {i} from {(x, p)} to {now}, with noise of size {amp} the scheme gives {allowed[0]}")
            hits += any(v in r for v, r in zip(now, ranges))
            cov.trans()
        check_derived(case, ld, coeffs)
    cov.state(str(case))
    cov.trace()
    cov.count("wall hits", hits)


def gen_long(tier):
    for kind in ("bussi-parinello", "overdamped"):
        for bc in (None, "periodic", "reflective"):
            for pot, n, steps in (("well", 1, 12000 if tier == "quick" else 60000), ("well", 3, 2500), ("bowl", 2, 2500)):
                yield dict(ld=kind, pot=pot, n=n, steps=steps, par=dict(dt=0.06, friction=1.5, kt=1.3), bc=bc)
        # many walkers for a few steps; extremely heavy ones
        for pot, bc in (("well", "reflective"), ("bowl", None)):
            yield dict(ld=kind, pot=pot, n=1100, steps=3, par=dict(dt=0.06, friction=1.5, kt=1.3), bc=bc)
            yield dict(ld=kind, pot=pot, n=3, steps=40, par=dict(dt=0.06, friction=1.5, kt=1.3), bc=bc, heavy=3e10)
            yield dict(ld=kind, pot=pot, n=3, steps=40, par=dict(dt=1e-5, friction=1.5, kt=1e-3), bc=bc, heavy=1e-9)


MASSSETS = {"one": [1.0], "light": [0.31], "heavy": [6.5], "mixed": [0.4, 2.5, 1.0, 13.0]}
FACTORS = {
    "ld": ["bussi-parinello", "overdamped"],
    "pot": ["quartic", "well", "wolfe-quapp", "bowl", "tri", "mb"],
    "bc": [None, "periodic", "reflective"],
    "dt": [4e-4, 0.02, 0.3, 1.5],
    "friction": [0.0, 0.2, 1.5, 8.0],
    "kt": [0.04, 0.7, 1.0, 2.5, 12.0],
    "masses": list(MASSSETS),
    "n": [1, 2, 3, 7, 30, 220],
    "calls": [1, 2, 58, 1006],
    "moving": [False, True],
    "amp": [0.0, 0.8, 6.0],
}


def together_ok(c):
    return c["n"] * c["calls"] <= 8000 and not (c["ld"] == "overdamped" and c["moving"])


def check_together(case, cov):
    """All settings together: every walker in the first and the last of some steps

    A walker that left the surroundings of the box is put back with add_particle."""
    coeffs, ranges = POTS[case["pot"]]
    dim, n = len(ranges), case["n"]
    sec, files = setup(case)[:2]
    par = {k: case[k] for k in ("dt", "friction", "kt")}
    if case["pot"] == "mb":
        par["dt"] = par["dt"] / 8
    masses = [MASSSETS[case["masses"]][i % len(MASSSETS[case["masses"]])] for i in range(n)]

    def place(i, k):
        return [lo + (hi - lo) * (0.07 + (0.618 * (i + 1) + 0.31 * d + 0.173 * k) % 0.86) for d, (lo, hi) in enumerate(ranges)]

    def mom(i, k):
        return [math.sin(1.3 * i + d + k) * 1.1 * masses[i] if case["moving"] else 0.0 for d in range(dim)]

    s = sysb.build(
        1, dim, sec, files, start=place(0, 0), mass=masses[0],
        ld=sysb.ld_section(case["ld"], dt=par["dt"], friction=par["friction"], kt=par["kt"]), choice_rng=True,
    )
    ld = s.ld
    with env.quiet():
        for i in range(1, n):
            ld.add_particle(place(i, 0), masses[i])
    coeffs = coeffs or ref.MB(MB_SCALE, ld.pot.energy)
    for i, p in enumerate(ld.particles):
        p.mom = sysb.momentum(p, mom(i, 0))
    step, nd = (bp_ref, 2 * dim) if case["ld"] == "bussi-parinello" else (od_ref, dim)
    for k in range(1, case["calls"] + 1):
        amp = case["amp"] * (1 if k % 3 else 0.9)
        last = k <= 2 or case["calls"] - k < 3
        old = [([float(v) for v in p.pos], [float(v) for v in p.mom]) for p in ld.particles]
        sysb.with_draws(lambda: ld.run(k), normals=[amp])
        cov.trans()
        if len(ld.particles) != n:
            raise Violation(f"{case}: {len(ld.particles)} walkers after step {k}")
        for i, ((x, p), w) in enumerate(zip(old, ld.particles)):
            now = [float(v) for v in list(w.pos) + list(w.mom)]
            if last:
                first = None
                for sg in itertools.product((1, -1), repeat=nd if amp else 0):  # the sign of a noise term has no meaning
                    a, b = step(coeffs, ranges, case["bc"], par, list(x), list(p), masses[i], [amp * g for g in sg] if amp else [0.0] * nd)
                    want = list(a) + list(b)
                    first = first or want
                    if max(abs(u - v) for u, v in zip(now, want)) <= 1e-9 * (1 + max(map(abs, want))):
                        break
                else:
                    raise Violation(f"{case}: step {k} takes walker {i} from {(x, p)} to {now}, with noise of size {amp} the scheme gives {first}")
            span = max(hi - lo for lo, hi in ranges)
            if any(not lo - 0.6 * span < v < hi + 0.6 * span for v, (lo, hi) in zip(now, ranges)) or max(map(abs, now[dim:])) > 20 * masses[i]:
                with env.quiet():
                    ld.add_particle(place(i, k), masses[i], i, True)
                ld.particles[i].mom = sysb.momentum(ld.particles[i], mom(i, k))
            elif w.mass != masses[i]:
                raise Violation(f"{case}: mass of walker {i} became {w.mass} in step {k}")
        if last:
            check_derived(case, ld, coeffs)
    cov.state(str(case))
    cov.trace()


def gen_together(tier):
    return covering.covering(FACTORS, 3 if tier == "quick" else 4, together_ok, tries=2)


FAMILIES = {"long": (gen_long, check_long, 1), "steps": (gen, check, 4), "wide": (gen_wide, check_wide, 1), "main": (gen_main, check_main, 1), "together": (gen_together, check_together, 4)}
