"""C12: free energy differences, row by row, for all small combinations of strides and states"""
import itertools
import math

import numpy as np

from .. import runs, whole
from ..core import Violation

RULE = (
    "a trace = one complete run with scripted walkers; every row of the free-energy-difference file is compared with "
    "-kT log of the ratio of the model histogram's counts inside the states at the step the current surface belongs to"
)
ASSUMPTIONS = [
    "rows due before the first surface was computed only have to exist with the right time",
    "write-stride is a multiple of stride (otherwise the program refuses to run)",
]
BOUNDS = {
    "quick": "run length 1..12 x stride none/1..4 x write-stride multiple 1..4/default x FES stride 1..3 x trajectory "
    "write-stride 1..3/100; all pairs and triples of 7 interval states, up to 101 states; 1-3 dimensions; all sections together (pairs of 36 settings, triples of those of the differences)",
    "thorough": "run length 1..20, strides up to 6, FES stride up to 5, all ordered triples of states",
}

NB = {1: [6], 2: [3, 4], 3: [3, 2, 2]}
LO = {1: [-1.0], 2: [-1.0, 2.0], 3: [0.0, -1.0, 1.0]}
H = {1: [0.5], 2: [0.25, 0.5], 3: [0.5, 1.0, 0.25]}
# midpoints 1D: -0.75 -0.25 0.25 0.75 1.25 1.75
STATES = {
    1: {
        "left": ([-1.0], [0.0]),
        "right": ([0.5], [1.5]),
        "edge": ([-0.75], [0.25]),  # both boundaries are midpoints
        "point": ([0.25], [0.25]),
        "none": ([0.3], [0.7]),
        "all": ([-9.0], [9.0]),
        "beyond": ([1.75], [50.0]),
    },
    2: {
        "a": ([-1.0, 2.0], [-0.6, 3.0]),
        "b": ([-0.875, 2.75], [-0.375, 3.75]),  # boundaries are midpoints
        "c": ([-0.7, 1.0], [0.0, 2.5]),
        "row": ([-9.0, 2.25], [9.0, 2.25]),
        "col": ([-0.375, -9.0], [-0.375, 9.0]),
    },
    3: {
        "a": ([0.0, -1.0, 1.0], [0.6, 0.0, 2.0]),
        "b": ([0.25, -0.5, 1.125], [1.25, 0.5, 1.125]),
        "c": ([0.5, -9.0, 1.2], [2.0, 9.0, 9.0]),
        "d": ([-9.0, 0.4, -9.0], [9.0, 9.0, 9.0]),
    },
}


def check(case, cov):
    dim, n, kt = case.get("dim", 1), case["n"], case.get("kt", 2.5)
    nb = case.get("nb") or NB[dim]
    site = (lambda s, w: [(s - 1 + w) % b for b in nb]) if case.get("all") else runs.pattern(nb)
    m = runs.Surface(
        n, 3, nb, LO[dim], H[dim], site, case.get("hs", 1), case.get("tws") or 100, case.get("reset") or (), case.get("fs"), kt
    )
    stride = case.get("stride")
    states = [STATES[dim][k] for k in case["states"]]
    opts = {"stride": stride, "write-stride": case.get("ws"), "filename": "df", "fmt": case.get("fmt")}
    for i, (a, b) in enumerate(states):
        opts[f"state{i+1}-min"] = a
        opts[f"state{i+1}-max"] = b
    rec = runs.run(
        n, 3, dim, m.script, observe_files=False, kt=case.get("ldkt", 1.0), dt=case.get("dt", runs.DT),
        trajectories={"write-stride": case.get("tws")},
        histogram=m.histogram_options(),
        fes={"kt": kt, "stride": case.get("fs")},
        delta_f=opts,
    )
    mids = m.midpoints()
    masks = []
    for a, b in states:
        mask = np.zeros(nb, bool)
        for i in np.ndindex(*nb):
            mask[i] = all(a[d] <= mids[d][i[d]] <= b[d] for d in range(dim))
        masks.append(mask)

    def delta(counts):
        p = [int(counts[k].sum()) for k in masks]
        res = []
        for x in p[1:]:
            if p[0] == 0:
                res.append(-math.inf if x else math.nan)
            else:
                res.append(-kt * math.log(x / p[0]) if x else math.inf)
        return res

    want = []
    if stride:
        for s in range(stride, n + 1, stride):
            counts = m.counts_of_fes(s)
            want.append((s, None if counts is None else delta(counts)))
    else:
        want.append((n, delta(m.counts_final())))
    if "df" not in rec.files:
        raise Violation(f"{case}: no file, only {sorted(rec.files)}")
    got = runs.rows(rec.files["df"], len(states), f"{case}")
    if len(got) != len(want):
        raise Violation(f"{case}: {len(got)} rows instead of {len(want)}: times {[r[0] / runs.DT for r in got]}, steps {[w[0] for w in want]}")
    tol = case.get("tol", 3e-9) * max(1, kt)
    for g, (s, d) in zip(got, want):
        time = s * case.get("dt", runs.DT)
        if abs(g[0] - time) > case.get("tol", 1e-9):
            raise Violation(f"{case}: row with time {g[0]} instead of {time} (step {s})")
        if d is not None and not runs.same(g[1:], d, tol):
            raise Violation(f"{case}: step {s} has {g[1:]} instead of {d}; counts {m.counts_of_fes(s) if stride else m.counts_final()}")
        cov.trans()
        cov.outcome((s, tuple(d or ())))
    cov.trace()
    cov.state(str(case))
    cov.sample(f"{case}: {len(want)} rows, last {got[-1] if got else None}")


def gen_sweep(tier):
    th = tier == "thorough"
    two = ["left", "right"]
    for n in range(1, 21 if th else 13):
        for tws in (1, 2, 3, None):
            for fs in range(1, 6 if th else 4):
                yield dict(n=n, tws=tws, fs=fs, states=two)
                for stride in range(1, 7 if th else 5):
                    for mult in (1, 2, 3, 4, None):
                        yield dict(n=n, tws=tws, fs=fs, stride=stride, ws=stride * mult if mult else None, states=two)


def gen_states(tier):
    for dim in (1, 2, 3):
        names = list(STATES[dim])
        combos = list(itertools.permutations(names, 2))
        combos += list(itertools.permutations(names, 3)) if tier == "thorough" or dim > 1 else list(itertools.combinations(names, 3))
        combos += [tuple(names)]
        combos += [(names[0], names[0])]
        for st in combos:
            for n in (2, 9):
                yield dict(n=n, tws=1, fs=1, stride=1, ws=2, states=list(st), dim=dim)
            yield dict(n=12, tws=1, fs=1, states=list(st), dim=dim, all=True)


def gen_kinds(tier):
    for kt in (1e-5, 2e-3, 7e4, 1e9):
        yield dict(n=12, tws=2, fs=2, stride=2, ws=4, states=["left", "right", "edge"], kt=kt)
        yield dict(n=9, tws=2, states=["a", "b", "c"], dim=2, kt=kt)
    for kt in (0.02, 1.0, 400.0):
        for ldkt in (0.5, 7.0):
            for dim in (1, 2, 3):
                st = list(STATES[dim])[:3]
                yield dict(n=8, tws=2, fs=2, stride=2, ws=4, states=st, dim=dim, kt=kt, ldkt=ldkt)
                yield dict(n=8, tws=2, states=st, dim=dim, kt=kt, ldkt=ldkt)
    for n in range(1, 9):
        for r in [[k] for k in range(1, n + 1)] + [[2, 5]]:
            yield dict(n=n, tws=1, fs=1, stride=1, ws=3, states=["left", "right"], reset=r)
            yield dict(n=n, tws=2, fs=2, stride=2, ws=4, states=["left", "edge"], reset=r, hs=2)
    # the number of a state counts, not its place in an alphabetical list
    for k in (9, 10, 11, 12, 23, 31, 45, 101):
        names = list(STATES[1])
        st = [names[(3 * i) % 7] for i in range(k)]
        yield dict(n=9, tws=1, fs=1, stride=1, ws=2, states=st)
        yield dict(n=12, tws=1, fs=1, states=st, all=True)
        names = list(STATES[2])
        yield dict(n=6, tws=1, fs=1, stride=2, ws=2, states=[names[(2 * i) % 5] for i in range(k)], dim=2)
    for dim, nb in ((1, [60]), (1, [101]), (2, [12, 15]), (2, [3, 40]), (3, [5, 6, 7]), (1, [500]), (2, [30, 25]), (2, [2, 300]), (3, [8, 9, 10])):
        st = list(STATES[dim])[:4]
        yield dict(n=30, tws=1, fs=1, stride=3, ws=6, states=st, dim=dim, nb=nb)
        yield dict(n=40, tws=1, fs=1, states=st, dim=dim, nb=nb)
        yield dict(n=2000, tws=100, fs=500, stride=500, ws=1000, states=st, dim=dim, nb=nb)
    for n, tws, fs, stride, ws in (
        (1050, 1, 1, 1, None), (2500, 1000, 500, 500, 1000), (5003, 11, 13, 7, 700), (10007, None, 5000, 1000, 10000), (3000, 5000, 100, 50, 1500), (10500, 100, 100, 1, None), (10500, 1000, 1, 99, None),
        (12000, 1, 50, 1, 1), (10100, None, None, None, None),
        (21003, 50, 100, 20, 1000), (25010, 100, 1000, 7, 77),
    ):
        yield dict(n=n, tws=tws, fs=fs, stride=stride, ws=ws, states=["left", "right"])
        yield dict(n=n, tws=tws, fs=fs, stride=stride, ws=ws, states=["right", "left", "all"], reset=[1001, n - 20])
    for n in (99, 100, 101, 250):
        yield dict(n=n, tws=1, fs=1, stride=1, states=["left", "right"])
        yield dict(n=n, tws=2, fs=2, stride=2, states=["left", "right"])
    for dt in (0.000123, 0.7654321, 1234.5678, 98765.4321):
        yield dict(n=7, tws=1, fs=1, stride=1, ws=2, states=["left", "right"], dt=dt)
        yield dict(n=7, tws=1, fs=1, states=["left", "right", "edge"], dt=dt)
    for n in (5, 6):
        yield dict(n=n, tws=1, fs=1, stride=2, ws=4, states=["left", "right"], fmt="%%.3f", tol=6e-4)


FAMILIES = {
    "sweep": (gen_sweep, check, 32),
    "states": (gen_states, check, 16),
    "kinds": (gen_kinds, check, 8),
    "whole": whole.family("C12"),
}
