"""C11: free energy surfaces of all small combinations of strides"""
import os

import numpy as np

from .. import runs, whole
from ..core import Violation

RULE = (
    "a trace = one complete run with scripted walkers; every FES file that appears (after every step and at the end) is "
    "compared bin by bin with -kT log of the counts of the histogram model at the step the surface belongs to"
)
ASSUMPTIONS = ["before the first multiple of the FES stride there is no current surface: a file written then only has to exist"]
BOUNDS = {
    "quick": "run length 1..9 x histogram stride 1..3 x trajectory write-stride 1..4/100 x FES stride none/1..4 x "
    "write-stride 1..5; resets; 1 to 3 dimensions; kT 1e-12 to 1e12; all sections together (pairs of 36 settings, triples of those of the surface)",
    "thorough": "run length 1..14, FES stride up to 6, write-stride up to 8",
}

NB = {1: [5], 2: [3, 4], 3: [3, 2, 4]}
LO = {1: [-1.0], 2: [-1.0, 2.0], 3: [-1.0, 2.0, 0.5]}
H = {1: [0.5], 2: [0.25, 0.5], 3: [0.25, 0.5, 0.125]}


def check(case, cov):
    dim = case.get("dim", 1)
    n, kt = case["n"], case.get("kt", 2.5)
    nb = case.get("nb") or NB[dim]
    site = runs.pattern(nb, case.get("gap", True))
    if case.get("empty"):
        site = lambda s, w: None
    if case.get("all"):
        site = lambda s, w: [((s - 1) * 3 + w) % b for b in nb]
    if case.get("late"):  # every second visit is to the last but one bin
        site = lambda s, w: [b - 2 for b in nb] if (s + w) % 2 else [(s * 7 + w * (d + 3)) % b for d, b in enumerate(nb)]
    m = runs.Surface(
        n, 3, nb, LO[dim], H[dim], site, case.get("hs", 1), case.get("tws") or 100, case.get("reset") or (), case.get("fs"), kt
    )
    base = case.get("name", "fes")
    rec = runs.run(
        n, 3, dim, m.script, observe_files=runs.watched(n, case.get("fws")) if n > 500 else True, leftovers={os.path.dirname(base): None} if os.path.dirname(base) else None, kind=case.get("kind", "bussi-parinello"), kt=case.get("ldkt", 1.0),
        trajectories={"write-stride": case.get("tws")},
        histogram=m.histogram_options(filename=case.get("hname"), **{"write-stride": case.get("hws")}),
        fes={"kt": kt, "stride": case.get("fs"), "write-stride": case.get("fws"), "filename": base, "fmt": case.get("fmt")},
    )
    tol = case.get("tol", 2e-9)
    compare(case, m, rec.files, base, m.counts_final(), tol)
    names = {base}
    fws = case.get("fws")
    if fws:
        for s in range(fws, n + 1, fws):
            name = f"{base}_{s}"
            names.add(name)
            if name in rec.disk.get(s - 1, ()):
                raise Violation(f"{case}: {name} on disk before step {s}")
            if s in rec.disk and rec.disk[s].get(name) != rec.files.get(name):
                raise Violation(f"{case}: {name} not written at step {s}")
            counts = m.counts_of_fes(s)
            if name not in rec.files:
                raise Violation(f"{case}: no file {name}, only {sorted(rec.files)}")
            if counts is not None:
                compare(case, m, rec.files, name, counts, tol)
            cov.trans()
    extra = [f for f in rec.files if f.startswith(base) and f not in names]
    if extra:
        raise Violation(f"{case}: unexpected FES files {extra}")
    cov.trace()
    cov.trans(n)
    cov.state(str(case))
    cov.outcome((m.counts_final().tobytes(), kt))
    cov.sample(f"{case}: counts at the end {m.counts_final().tolist()}")


def kt_scale(case):
    return case["kt"] if case.get("rel") else 1


def compare(case, m, files, name, counts, tol):
    if name not in files:
        raise Violation(f"{case}: no file {name}, only {sorted(files)}")
    data = m.read(files[name], f"{case} {name}")
    want = m.fes(counts)
    for i in np.ndindex(*want.shape):
        if not runs.same([data[i]], [want[i]], tol * ((kt_scale(case) + abs(want[i])) if np.isfinite(want[i]) else 1)):
            raise Violation(f"{case}: {name} holds {data[i]} in bin {i} with count {counts[i]}, should be {want[i]}; counts {counts.tolist()}")


def gen_sweep(tier):
    th = tier == "thorough"
    for n in range(1, 15 if th else 10):
        for hs in (1, 2, 3):
            for tws in (1, 2, 3, 4, None):
                yield dict(n=n, hs=hs, tws=tws)
                for fs in range(1, 7 if th else 5):
                    yield dict(n=n, hs=hs, tws=tws, fs=fs)
                    for fws in range(1, 9 if th else 6):
                        yield dict(n=n, hs=hs, tws=tws, fs=fs, fws=fws)


def gen_reset(tier):
    for n in range(1, 9):
        for tws in (1, 2, 3, None):
            for fs, fws in ((1, 1), (2, 2), (2, 3), (3, 2)):
                for r in [[k] for k in range(1, n + 1)] + [[2, 5], [3, 4]]:
                    yield dict(n=n, tws=tws, fs=fs, fws=fws, reset=r, hname="histo", hws=3)


def gen_kinds(tier):
    for nb, dim in (([30], 1), ([1200], 1), ([4000], 1), ([35, 40], 2), ([2, 700], 2), ([9, 11, 10], 3)):
        yield dict(n=40, tws=2, fs=2, fws=10, nb=nb, dim=dim, late=True)
        yield dict(n=31, nb=nb, dim=dim, late=True)
    for kt in (1e-5, 2e-3, 7e4, 1e9):
        yield dict(n=12, tws=2, fs=2, fws=4, kt=kt)
        yield dict(n=9, tws=2, kt=kt, dim=2)
    for kt in (1e-12, 3e-9, 1e-7, 1e12):
        yield dict(n=12, tws=2, fs=2, fws=4, kt=kt, fmt="%%20.12e", tol=1e-11, rel=True)
        yield dict(n=9, tws=2, kt=kt, dim=2, fmt="%%20.12e", tol=1e-11, rel=True)
    for kt in (0.02, 1.0, 3.3, 400.0):
        for ldkt in (0.5, 1.0, 7.0):
            for n in (1, 5, 12):
                yield dict(n=n, tws=2, fs=2, fws=2, kt=kt, ldkt=ldkt)
        yield dict(n=6, tws=2, fs=2, fws=2, kt=kt, kind="overdamped")
        for n in (1, 3, 8):
            yield dict(n=n, tws=2, fs=2, fws=2, kt=kt, dim=2)
            yield dict(n=n, tws=2, fs=2, fws=2, kt=kt, dim=2, nb=[5, 2])
            yield dict(n=n, tws=3, fs=3, fws=6, kt=kt, dim=2, nb=[1, 6], hs=2)
            yield dict(n=n, tws=2, fs=2, fws=2, kt=kt, dim=3)
            yield dict(n=n, tws=3, fs=3, fws=6, kt=kt, dim=3, nb=[2, 5, 1], hs=2)
            yield dict(n=n, tws=1, fs=1, fws=2, kt=kt, dim=3, nb=[1, 1, 6], hname="histo", hws=2)
    for dim in (1, 2, 3):
        for n in (1, 4):
            yield dict(n=n, tws=2, fs=1, fws=1, dim=dim, empty=True)
            yield dict(n=n, tws=1, fs=1, fws=1, dim=dim, all=True)
    for n in (7, 30):
        yield dict(n=n, tws=1, fs=1, fws=2, all=True, nb=[3])
        yield dict(n=n, tws=1, fs=1, fws=2, nb=[1], gap=False)
        yield dict(n=n, tws=1, fs=1, fws=2, fmt="%%.3f", tol=6e-4)
        yield dict(n=n, tws=1, fs=1, fws=2, fmt="%%20.12e", tol=1e-11)
    for name in ("f.dat", "out/f", "out.d/f.txt", "a_1", "x.y.z", "2"):
        for dim in (1, 2, 3):
            yield dict(n=5, tws=1, fs=1, fws=2, dim=dim, name=name)
    for n in (4, 9):
        yield dict(n=n, tws=1, fs=1, fws=3, nb=[40])
        yield dict(n=n, tws=1, fs=1, fws=3, nb=[250])
        yield dict(n=n, tws=1, fs=1, fws=3, nb=[12, 9], dim=2)
        yield dict(n=n, tws=1, fs=1, fws=3, nb=[40, 30], dim=2)
        yield dict(n=n, tws=2, nb=[100])
    for n, hs, tws, fs, fws in (
        (1050, 1, None, 1, 350), (2500, 1, 1000, 500, 1000), (5003, 7, 11, 13, 1000), (10007, 1, None, 5000, 10000), (3000, 1, 5000, 100, 1500), (4500, 1, 1, 1, 100), (10500, 1000, 100, None, None),
        (9001, 1, 1, 30, 30), (9001, 1, None, 3, 270), (6003, 2, 5, 7, 21), (21003, 1, 50, 100, 7000),
    ):
        yield dict(n=n, hs=hs, tws=tws, fs=fs, fws=fws)
        yield dict(n=n, hs=hs, tws=tws, fs=fs, fws=fws, reset=[1001, n - 20], all=True)
    # high counts in few bins
    for n in (9000, 12000):
        for nb in ([1], [2], [3]):
            yield dict(n=n, tws=100, fs=100, fws=3000, nb=nb, gap=nb != [1])
    yield dict(n=9000, tws=100, fs=100, fws=3000, dim=2, nb=[2, 1], gap=False)
    for n in (100, 101, 205):
        yield dict(n=n, fs=50, fws=100)
        yield dict(n=n, fs=100, fws=100, tws=20, hs=3)


FAMILIES = {
    "sweep": (gen_sweep, check, 32),
    "resets": (gen_reset, check, 32),
    "kinds": (gen_kinds, check, 8),
    "whole": whole.family("C11"),
}
