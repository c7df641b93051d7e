"""C13: populations of states, row by row and crash point by crash point"""
import itertools

import numpy as np

from .. import runs, whole
from ..core import Violation

RULE = (
    "a trace = one complete run with scripted walkers; the particle-distribution file is compared after every time step "
    "and at the end with a count of the walkers' positions after the birth-death events of that step"
)
ASSUMPTIONS = [
    "write-stride is a multiple of stride (otherwise the program refuses to run)",
    "a crash loses what was not handed to the operating system; completed writes survive",
]
BOUNDS = {
    "quick": "run length 1..15 x stride none/1..5 x write-stride multiple 1..4/default; every placement of 2 walkers on a "
    "lattice with the state boundaries (1-3 dimensions); up to 101 states and 70001 walkers; with birth-death; boundaries from 1e-8 to 1e15; all sections together (pairs of 36 settings, triples of those of the populations)",
    "thorough": "run length 1..30, stride up to 9, multiples up to 6; 3 walkers on the lattice",
}

STATES = {
    1: [([-1.0], [0.0]), ([0.0], [0.5]), ([0.25], [0.25]), ([-9.0], [9.0]), ([0.5], [-0.5])],
    2: [([-1.0, 0.0], [0.0, 0.5]), ([-0.5, -0.5], [0.5, 0.5]), ([0.0, 0.5], [0.0, 0.5]), ([-9.0, 0.25], [9.0, 9.0])],
    3: [([-1.0, 0.0, 0.0], [0.0, 0.5, 1.0]), ([-0.5] * 3, [0.5] * 3), ([-9.0, -9.0, 0.25], [9.0, 9.0, 9.0])],
}
COORD = {
    1: [-1.5, -1.0, -0.25, 0.0, 0.25, 0.5, 0.75, 0.5000001, -1.0000001],
    2: [-1.0, -0.25, 0.0, 0.25, 0.5, 0.75],
    3: [-0.25, 0.0, 0.5, 1.0, 1.25],
}
# one floating point number beyond a boundary
NEXT = {
    1: [np.nextafter(b, s * np.inf) for b in (-1.0, 0.0, 0.25, 0.5) for s in (-1, 1)],
    2: [np.nextafter(b, s * np.inf) for b in (0.0, 0.5) for s in (-1, 1)] + [0.0, 0.5, 0.25],
    3: [np.nextafter(0.5, np.inf), np.nextafter(0.0, -np.inf), 0.25, 0.5],
}

# boundaries of other sizes, none of them a number of few binary digits
FAR = [
    ([0.1], [0.7]), ([-1e-7], [3e-8]), ([12345.6789], [23456.789]), ([-3.3e7], [-1e4 - 0.1]), ([1e6 / 3], [1e9 + 0.1]), ([1.1e12], [1.2e15]), ([-0.3], [1e-300]),
]


def count(pop, states):
    return [sum(all(a[d] <= x[d] <= b[d] for d in range(len(x))) for x, _ in pop) for a, b in states]


def options(states, stride, ws, fmt=None):
    o = {"stride": stride, "write-stride": ws, "filename": "pd", "fmt": fmt}
    for i, (a, b) in enumerate(states):
        o[f"state{i+1}-min"] = a
        o[f"state{i+1}-max"] = b
    return o


def judge(case, rec, n, stride, ws, states, cov, tol=0.0):
    want = []
    if stride:
        for s in range(stride, n + 1, stride):
            want.append([s] + count(rec.pop[s], states))
    else:
        want.append([n] + count(rec.pop[n], states))
    nc = len(states) + 1
    if "pd" not in rec.files:
        raise Violation(f"{case}: no file, only {sorted(rec.files)}")
    got = runs.rows(rec.files["pd"], nc, str(case))
    if len(got) != len(want) or not all(runs.same(a, b, tol) for a, b in zip(got, want)):
        raise Violation(f"{case}: rows {got} instead of {want}")
    for s in sorted(rec.disk):
        part = runs.rows(rec.disk[s].get("pd", b""), nc, str(case))
        due = len(range(stride, s - s % ws + 1, stride)) if stride else 0
        most = len(range(stride, s + 1, stride)) if stride else 0
        if not due <= len(part) <= most:
            raise Violation(f"{case}: {len(part)} rows when dying after step {s}, at least {due} and at most {most} are due")
        if not all(runs.same(a, b, tol) for a, b in zip(part, want)):
            raise Violation(f"{case}: rows {part} after step {s}, should start {want[:len(part)]}")
        cov.trans()
        cov.state((str(case), s))
    for w in want:
        cov.outcome(tuple(w))
    cov.trace()


def check(case, cov):
    n, dim, walkers = case["n"], case.get("dim", 1), case.get("walkers", 3)
    stride = case.get("stride")
    ws = case.get("ws") or (stride * 100 if stride else 1)
    co = COORD[dim]
    states = STATES[dim]
    if case.get("states"):
        states = [states[(3 * i) % len(states)] for i in range(case["states"])]

    def script(step):
        return [[co[(step * (w + 1) + d * w + step // 2) % len(co)] for d in range(dim)] for w in range(walkers)]

    sections = {}
    if case.get("bd"):
        sections["birth_death"] = {
            "stride": case["bd"],
            "kernel-bandwidth": 0.5 if dim == 1 else [0.5] * dim,
            "exponential-factor": 1e6,
            "seed": 3,
        }
    rec = runs.run(n, walkers, dim, script, observe_files=runs.watched(n, ws, stride) if n > 500 else True, particle_distribution=options(states, stride, case.get("ws"), case.get("fmt")), **sections)
    if case.get("bd"):
        cov.count(
            "steps_with_events",
            sum(any((a[0] != b[0]).any() for a, b in zip(rec.pop[s], rec.script[s])) for s in range(1, n + 1)),
        )
    judge(case, rec, n, stride, ws, states, cov, case.get("tol", 0.0))
    cov.sample(f"{case}: counts at the end {count(rec.pop[n], states)}")


def gen_sweep(tier):
    th = tier == "thorough"
    for n in range(1, 31 if th else 16):
        yield dict(n=n)
        for stride in range(1, 10 if th else 6):
            for mult in list(range(1, 7 if th else 5)) + [None]:
                yield dict(n=n, stride=stride, ws=stride * mult if mult else None)


def gen_shapes(tier):
    for n in (1, 4, 5, 7):
        for stride, ws in ((1, 1), (1, 3), (2, 4), (3, None), (None, None)):
            for dim in (1, 2, 3):
                for walkers in (1, 4):
                    yield dict(n=n, stride=stride, ws=ws, dim=dim, walkers=walkers)
                for bd in (1, 2, 3):
                    yield dict(n=n, stride=stride, ws=ws, dim=dim, walkers=4, bd=bd)
    for k in (1, 2, 9, 10, 11, 12, 23, 40, 101):
        for dim in (1, 2, 3):
            yield dict(n=6, stride=2, ws=4, states=k, dim=dim, walkers=5)
            yield dict(n=5, states=k, dim=dim, walkers=12)
    for walkers in (10, 11, 50, 130):
        yield dict(n=7, stride=2, ws=4, walkers=walkers)
        yield dict(n=3, walkers=walkers, dim=2, stride=1, ws=2, bd=1)
    for walkers in (300, 2051, 33001, 70001):
        yield dict(n=2 if walkers < 3000 else 1, stride=1, walkers=walkers)
    yield dict(n=2101, stride=1, ws=700, walkers=1)
    for n, stride, ws in (
        (5003, 1000, 2000), (10007, 5000, 10000), (10007, 3, 4098), (4097, 4096, 4096), (1500, 2000, None), (3000, 1, 5000), (12001, 1, 1), (10500, 1, None), (10500, 99, None),
        (11000, None, None), (21003, 1, 50), (25001, 7, 77),
    ):
        yield dict(n=n, stride=stride, ws=ws, walkers=1 + n % 2)
    yield dict(n=1200, stride=1, ws=400, walkers=3, bd=11)
    for ws in (50, 53, 64, 100, 128, 500, 1000, 1003, 1024):
        for n in (ws - 1, ws, ws + 1, ws + ws // 2, 2 * ws, 2 * ws + 3):
            yield dict(n=n, stride=1, ws=ws, walkers=1)
            yield dict(n=3 * n, stride=3, ws=3 * ws, walkers=1)
            yield dict(n=n, stride=ws, ws=ws, walkers=1)
    for n in (50, 53, 64, 128, 1000, 1003, 1024):
        yield dict(n=n, walkers=1)
    for n in (99, 100, 101, 201):
        yield dict(n=n, stride=1)
        yield dict(n=n, stride=2)
    for n in (5, 6):
        yield dict(n=n, stride=2, ws=4, fmt="%%d")
        yield dict(n=n, stride=2, ws=4, fmt="%%.2e", tol=1e-6)


def check_lattice(case, cov):
    """one step per placement: every placement of the walkers on a lattice holding all boundaries"""
    dim, walkers = case["dim"], case["walkers"]
    states = STATES[dim]
    pts = [tuple(float(x) for x in p) for p in itertools.product((NEXT if case.get("next") else COORD)[dim], repeat=dim)]
    combos = list(itertools.product(pts, repeat=walkers))[case["part"] :: case["parts"]]
    n = len(combos)
    rec = runs.run(
        n, walkers, dim, lambda s: [list(p) for p in combos[s - 1]], observe_files=False,
        particle_distribution=options(states, 1, None),
    )
    got = runs.rows(rec.files["pd"], len(states) + 1, str(case))
    if len(got) != n:
        raise Violation(f"{case}: {len(got)} rows instead of {n}")
    for s, row in enumerate(got, 1):
        want = [s] + count([(p, None) for p in combos[s - 1]], states)
        if row != want:
            raise Violation(f"{case}: walkers at {combos[s - 1]}: row {row} instead of {want}, states {states}")
        cov.state((dim, combos[s - 1]))
        cov.outcome(tuple(want[1:]))
    cov.trans(n)
    cov.trace()


def check_far(case, cov):
    """positions at, next to and close to boundaries of all sizes"""
    dim = case["dim"]
    states = [([a[0] * (d + 1) for d in range(dim)], [b[0] * (d + 1) for d in range(dim)]) for a, b in FAR]
    pts = []
    for k in range(len(states)):
        for side in (0, 1):
            for eps in (0.0, "down", "up", -1e-12, 1e-12, -1e-8, 1e-8, -1e-4, 1e-4, 0.3, -0.3):
                x = list(states[k][0])
                for d in range(dim):
                    v = states[k][side if d == case["moved"] else 0][d]
                    if d == case["moved"]:
                        v = np.nextafter(v, -np.inf if eps == "down" else np.inf) if isinstance(eps, str) else v * (1 + eps)
                    x[d] = float(v)
                pts.append(x)
    n = len(pts)
    rec = runs.run(n, 2, dim, lambda s: [pts[s - 1], pts[-s]], observe_files=False, particle_distribution=options(states, 1, None))
    got = runs.rows(rec.files["pd"], len(states) + 1, str(case))
    if len(got) != n:
        raise Violation(f"{case}: {len(got)} rows instead of {n}")
    for s, row in enumerate(got, 1):
        want = [s] + count([(pts[s - 1], None), (pts[-s], None)], states)
        if row != want:
            raise Violation(f"{case}: walkers at {pts[s - 1]} and {pts[-s]}: row {row} instead of {want}, states {states}")
        cov.state((dim, tuple(pts[s - 1])))
        cov.outcome(tuple(want[1:]))
    cov.trans(n)
    cov.trace()


def gen_far(tier):
    for dim in (1, 2, 3):
        for moved in range(dim):
            yield dict(dim=dim, moved=moved)


def gen_lattice(tier):
    for dim in (1, 2, 3):
        yield dict(dim=dim, walkers=1, part=0, parts=1, next=True)
    yield dict(dim=1, walkers=2, part=0, parts=1, next=True)
    for dim, walkers, parts in ((1, 1, 1), (1, 2, 1), (1, 3, 2), (2, 1, 1), (2, 2, 4), (3, 1, 1)) + (
        ((1, 4, 8), (3, 2, 16)) if tier == "thorough" else ()
    ):
        for part in range(parts):
            yield dict(dim=dim, walkers=walkers, part=part, parts=parts)


FAMILIES = {
    "sweep": (gen_sweep, check, 32),
    "shapes": (gen_shapes, check, 16),
    "lattice": (gen_lattice, check_lattice, 1),
    "far": (gen_far, check_far, 1),
    "whole": whole.family("C13"),
}
