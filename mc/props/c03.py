"""C03: walkers own their state, over all operation histories up to a depth"""
import contextlib

import numpy as np

from .. import choice, env, inputs, runs, sysb
from ..core import Violation
from .c04 import bp_ref, od_ref

RULE = (
    "a state = population reached by a history of operations (append / insert / replace / remove a walker, integrator "
    "step, copy event); all histories up to the depth are executed on the real objects and after every operation every "
    "walker is compared with a model that has no shared state; complete runs of the program on top"
)
ASSUMPTIONS = ["noise of the integrator steps is held constant: independence does not depend on its value"]
BOUNDS = {
    "quick": "all histories of depth 4 over 9-11 operations, both integrators, 1-2 dimensions, 2 boundary conditions; whole "
    "runs of 2-4 steps with complete birth-death choice trees; runs of 3 steps with 24-130 walkers and 4 sequences of partners",
    "thorough": "histories of depth 5; whole runs up to 3 walkers and 3 steps",
}

XI = 0.375
CONF = {
    "bp1": ("bussi-parinello", 1, None),
    "bp2": ("bussi-parinello", 2, "reflective"),
    "od1": ("overdamped", 1, "reflective"),
    "od2": ("overdamped", 2, "periodic"),
}
COEFFS = {1: {(0,): 0.0, (1,): 0.5, (2,): 1.5}, 2: {(0, 0): 0.0, (2, 0): 1.0, (1, 1): 0.5, (0, 2): 0.75}}
RANGES = {1: [(-2.0, 2.0)], 2: [(-2.0, 2.0), (-1.0, 1.5)]}
PAR = dict(dt=0.125, friction=1.5, kt=0.75)
START = {1: [0.5], 2: [0.5, -0.25]}
OTHER = {1: [-1.25], 2: [1.75, 1.25]}


class Real:
    """The program's objects"""

    def __init__(self, conf):
        kind, dim, bc = CONF[conf]
        sec, files = sysb.potential(COEFFS[dim], RANGES[dim], bc)
        self.s = sysb.build(
            2, dim, sec, files, start=START[dim], mass=2.0,
            ld=sysb.ld_section(kind, dt=PAR["dt"], friction=PAR["friction"], kt=PAR["kt"]), choice_rng=True,
            birth_death={"stride": 1, "kernel-bandwidth": 0.5 if dim == 1 else [0.5, 0.5]},
        )
        self.dim = dim
        # one array for several walkers
        self.shared = np.array(OTHER[dim])
        self.listed = list(START[dim])

    def op(self, op):
        ld, bd = self.s.ld, self.s.bd
        name = op[0]
        with env.quiet():
            if name == "append":
                ld.add_particle(self.shared, 1.0)
            elif name == "insert":
                ld.add_particle(self.listed, 3.0, op[1])
            elif name == "replace":
                ld.add_particle(self.shared, 0.5, op[1], True)
            elif name == "remove":
                ld.remove_particle(op[1])
            elif name == "step":
                sysb.with_draws(lambda: ld.run(1), normals=(XI,))
            elif name == "copy":
                bd.perform_moves([(op[1], op[2])])
            elif name == "copies":
                bd.perform_moves([(op[1], op[2]), (op[2], op[1])])

    def state(self):
        ld, bd = self.s.ld, self.s.bd
        if [id(p) for p in ld.particles] != [id(p) for p in bd.particles]:
            raise Violation("integrator and birth-death act on different walkers")
        if list(self.shared) != OTHER[self.dim] or self.listed != START[self.dim]:
            raise Violation(f"the start position handed in changed to {self.shared} / {self.listed}")
        return [
            (tuple(map(float, p.pos)), tuple(map(float, p.mom)), float(p.mass), float(p.energy), tuple(map(float, p.forces)))
            for p in ld.particles
        ]


def model_op(conf, state, op):
    """state: [(pos, mom, mass)]"""
    kind, dim, bc = CONF[conf]
    state = list(state)
    name = op[0]
    zero = tuple([0.0] * dim)
    if name == "append":
        state.append((tuple(OTHER[dim]), zero, 1.0))
    elif name == "insert":
        state.insert(op[1], (tuple(START[dim]), zero, 3.0))
    elif name == "replace":
        state[op[1]] = (tuple(OTHER[dim]), zero, 0.5)
    elif name == "remove":
        del state[op[1]]
    elif name == "step":
        step = bp_ref if kind == "bussi-parinello" else od_ref
        new = []
        for x, p, m in state:
            x, p = step(COEFFS[dim], RANGES[dim], bc, PAR, list(x), list(p), m, [XI] * (2 * dim))
            new.append((tuple(map(float, x)), tuple(map(float, p)), m))
        state = new
    elif name == "copy":
        state[op[2]] = state[op[1]]
    elif name == "copies":
        state[op[2]] = state[op[1]]
        state[op[1]] = state[op[2]]
    return state


def ops(n):
    res = [("step",)]
    if n < 4:
        res += [("append",), ("insert", 0), ("insert", 1)]
    res += [("replace", 0), ("replace", n - 1)]
    if n > 2:
        res += [("remove", 0), ("remove", n - 1)]
    res += [("copy", 0, n - 1), ("copy", n - 1, 0)]
    if n > 2:
        res += [("copy", 1, 0), ("copies", 0, 1)]
    else:
        res += [("copies", 0, 1)]
    return res


def judge(conf, hist, before, after, model, op):
    from .. import ref

    dim = CONF[conf][1]
    if len(after) != len(model):
        raise Violation(f"{conf} {hist}: {len(after)} walkers instead of {len(model)}")
    for i, (got, want) in enumerate(zip(after, model)):
        tol = 1e-11
        if not (sysb.close(got[0], want[0], tol) and sysb.close(got[1], want[1], tol) and got[2] == want[2]):
            raise Violation(
                f"{conf} history {hist}: walker {i} has (position, momentum, mass) {got[:3]}, should have {want}"
            )
        e, f = ref.poly_energy(COEFFS[dim], got[0]), ref.poly_force(COEFFS[dim], got[0])
        if not (sysb.close(got[3], e, 1e-9) and sysb.close(got[4], f, 1e-9)):
            raise Violation(f"{conf} history {hist}: walker {i} at {got[0]} has energy {got[3]}, forces {got[4]} instead of {e}, {f}")
    if op[0] != "step":
        # everything except the addressed slot is bitwise untouched
        if op[0] == "copy":
            if after[op[2]] != before[op[1]]:
                raise Violation(f"{conf} history {hist}: copy {after[op[2]]} differs from its source {before[op[1]]}")
            rest = [i for i in range(len(before)) if i != op[2]]
        elif op[0] == "copies":
            if after[op[2]] != before[op[1]] or after[op[1]] != before[op[1]]:
                raise Violation(f"{conf} history {hist}: copies {after} of {before}")
            rest = [i for i in range(len(before)) if i not in op[1:]]
        elif op[0] == "replace":
            rest = [i for i in range(len(before)) if i != op[1]]
        else:
            return
        for i in rest:
            if after[i] != before[i]:
                raise Violation(f"{conf} history {hist}: walker {i} changed from {before[i]} to {after[i]}")


def check(case, cov):
    conf, depth = case["conf"], case["depth"]
    prefix = [tuple(o) for o in case["prefix"]]
    real = Real(conf)
    dim = CONF[conf][1]
    model = [(tuple(START[dim]), tuple([0.0] * dim), 2.0)] * 2
    hist = []
    has_moves = hasattr(real.s.bd, "perform_moves")

    def apply(real, model, hist, op):
        before = real.state()
        try:
            real.op(op)
        except (TypeError, AttributeError, KeyError, IndexError, ValueError):
            if not op[0].startswith("cop"):
                raise
            # events represented differently: copies are then judged in the whole runs only
            return None
        new = model_op(conf, model, op)
        after = real.state()
        judge(conf, hist, before, after, new, op)
        cov.trans()
        cov.state((conf, tuple(after)))
        return new

    for op in prefix:
        hist.append(op)
        if op[0].startswith("cop") and not has_moves:
            return
        model = apply(real, model, hist, op)
        if model is None:
            return

    def dfs(real, model, hist):
        if len(hist) == depth:
            cov.trace()
            return
        for op in ops(len(model)):
            if op[0].startswith("cop") and not has_moves:
                continue
            r = env.snapshot(real)
            new = apply(r, model, hist + [op], op)
            if new is not None:
                dfs(r, new, hist + [op])

    dfs(real, model, hist)
    cov.sample(f"{conf} after {prefix}: all continuations to depth {depth}")


def gen(tier):
    depth = 5 if tier == "thorough" else 4
    for conf in CONF:
        for a in ops(2):
            n = len(model_op(conf, [(0, 0, 1)] * 2, a)) if a[0] != "step" else 2
            for b in ops(n):
                yield dict(conf=conf, prefix=[("step",), a, b], depth=depth + 1)
    for conf in ("bp1", "od2"):
        for a in ops(2):
            yield dict(conf=conf, prefix=[a], depth=3)


# ---------------------------------------------------------------- whole runs
@contextlib.contextmanager
def watched(before, after):
    """Integrator steps run as they are, observed before and after"""
    b = env.load()
    with contextlib.ExitStack() as st:
        for cls in (b.bussi_parinello_ld.BussiParinelloLD, b.overdamped_ld.OverdampedLD):

            def make(orig):
                def run(self, step=None):
                    before(step, self)
                    orig(self, step)
                    after(step, self)

                return run

            st.enter_context(env.patched(cls, "run", make(cls.run)))
        yield


def check_run(case, cov):
    """birth-death, integrator and output of a complete run, for all choices of the birth-death steps"""
    kind, dim, bc = CONF[case["conf"]]
    n, walkers = case["n"], case["walkers"]
    sec, files = sysb.potential(COEFFS[dim], RANGES[dim], bc)
    step_ref = bp_ref if kind == "bussi-parinello" else od_ref
    text = inputs.text(
        ld=sysb.ld_section(kind, dt=PAR["dt"], n_steps=n, friction=PAR["friction"], kt=PAR["kt"]),
        potential=sec,
        particles={
            "number": walkers, "initial-distribution": "fractions-pos", "mass": 2.0,
            "pos1": START[dim], "pos2": OTHER[dim], "fractions": [walkers - 1, 1],
        },
        birth_death={"stride": case["stride"], "kernel-bandwidth": 0.5 if dim == 1 else [0.5, 0.5], "recalculate-probabilities": case["recalc"]},
        trajectories={"filename": "traj", "momentum": "true", "write-stride": 2, "fmt": "%%.17g"},
        particle_distribution={"filename": "pd", "stride": 1, "state1-min": [0.0] * dim, "state1-max": [9.0] * dim},
    )

    def run():
        log = {}

        def states(ld):
            return [(tuple(p.pos), tuple(p.mom), float(p.mass), float(p.energy), tuple(p.forces)) for p in ld.particles]

        def before(step, ld):
            if step == 1 and kind == "bussi-parinello":  # tell walkers apart
                for i, p in enumerate(ld.particles):
                    p.mom = sysb.momentum(p, [0.25 * (i + 1) + 0.125 * d for d in range(dim)])
            if step == 1 and walkers > 9:
                for i in range(walkers):
                    sysb.set_walker(ld, i, [lo + (hi - lo) * ((i * (7 + 4 * d)) % walkers + 0.5) / walkers for d, (lo, hi) in enumerate(RANGES[dim])])
            log["before", step] = states(ld)

        def after(step, ld):
            log["after", step] = states(ld)

        with env.scratch(files), env.registry() as got, env.choice_mode(), watched(before, after):
            res = env.run_main(text)
        if res.status != "ok":
            raise Violation(f"{case}: the run ended with {res.status}: {res.text()[-500:]}")
        log["before", n + 1] = states(got.ld)
        return log, res.files

    if "shifts" in case:  # large populations: the same events with other partners
        leaves = choice.shifted(run, case["shifts"], uniforms=case["u"], normals=[XI])
    else:
        leaves = choice.explore(run, uniforms=case["u"], normals=[XI], max_leaves=50000)
    for (log, files_out), w, ch in leaves:
        for s in range(1, n + 1):
            a, b = log["before", s], log["after", s]
            for i in range(walkers):
                x, p = step_ref(COEFFS[dim], RANGES[dim], bc, PAR, list(a[i][0]), list(a[i][1]), a[i][2], [XI] * (2 * dim))
                if not (sysb.close(b[i][0], x, 1e-11) and sysb.close(b[i][1], p, 1e-11)):
                    raise Violation(
                        f"{case} choices {ch}: step {s} took walker {i} from {a[i]} to {b[i]}, on its own it would be at {x}, {p}"
                    )
            # birth-death only copies whole walkers
            nxt = log["before", s + 1]
            for i in range(walkers):
                if nxt[i] not in b:
                    raise Violation(f"{case} choices {ch}: after birth-death of step {s} walker {i} is {nxt[i]}, none of {b}")
            cov.trans()
            cov.state((case["conf"], tuple(nxt)))
        pd = runs.rows(files_out["pd"], 2)
        for s in range(1, n + 1):
            nxt = log["before", s + 1]
            for i in range(walkers):
                row = runs.rows(files_out[f"traj.{i}"], 1 + 2 * dim)[s - 1]
                if not runs.same(row[1:], list(nxt[i][0]) + list(nxt[i][1]), 1e-12):
                    raise Violation(f"{case} choices {ch}: trajectory of walker {i} at step {s} has {row}, walker was {nxt[i][:2]}")
            inside = sum(all(c >= 0 for c in st[0]) for st in nxt)
            if pd[s - 1] != [s, inside]:
                raise Violation(f"{case} choices {ch}: distribution row {pd[s - 1]}, walkers {nxt}")
        cov.trace()
        cov.outcome(tuple(log["before", n + 1]))
    cov.sample(f"{case}: {case.get('shifts', 'complete tree')}")


def gen_run(tier):
    u = [1e-9]
    for conf in CONF:
        for recalc in ("false", "true"):
            yield dict(conf=conf, n=4, walkers=2, stride=1, recalc=recalc, u=u)
            yield dict(conf=conf, n=5, walkers=2, stride=2, recalc=recalc, u=u)
            yield dict(conf=conf, n=2, walkers=2, stride=1, recalc=recalc, u=[1e-9, 1 - 1e-9])
            yield dict(conf=conf, n=3, walkers=3, stride=2, recalc=recalc, u=u)
            if tier == "thorough":
                yield dict(conf=conf, n=4, walkers=3, stride=2, recalc=recalc, u=u)


def gen_crowd(tier):
    for conf in CONF:
        for recalc in ("false", "true"):
            for walkers in (24, 60) + ((130,) if recalc == "false" else ()):
                yield dict(conf=conf, n=3, walkers=walkers, stride=1, recalc=recalc, u=[1e-9], shifts=4 if tier == "quick" else 40)


FAMILIES = {"histories": (gen, check, 2), "runs": (gen_run, check_run, 1), "crowd": (gen_crowd, check_run, 1)}
