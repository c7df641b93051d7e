"""C15: reproducibility and independence of the dynamics from the output, by exhaustive products of runs"""
import hashlib
import itertools
import json
import os
import random
import subprocess
import sys
import tempfile
import time

import numpy as np

from .. import env, inputs, runs, sysb, whole
from ..core import Violation
from ..covering import covering
from .c03 import watched

RULE = (
    "a pair of complete runs with the program's real generators (global generators are reseeded differently in between); "
    "for the product of seeds x integrators x birth-death modes all output has to be identical, for every subset of the "
    "output sections and every run length the states of all walkers after every step have to be those of the bare run"
)
ASSUMPTIONS = ["the initial distribution is seeded too where it is random"]
BOUNDS = {
    "quick": "10 seeds x 2 integrators x 4 birth-death modes x 3 initial distributions; all 40 valid subsets of 6 output "
    "sections x 3 stride sets x 2 integrators, 26 other ways to configure them (sizes up to 2^40); run lengths 1..15, up to 1050, and 6100; up to 520 walkers; 16 configurations in 3 processes, directories and environments each; all pairs of all settings together",
    "thorough": "20 seeds; 6 stride sets; run lengths 1..40",
}

POT1 = {"type": "polynomial", "n_dim": 1, "coeffs": [0.0, 0.2, -2.0, 0.0, 0.5], "min": -3.0, "max": 3.0}
POT3 = {"type": "polynomial", "n_dim": 3, "coeffs-file": "pot.coeffs", "min": [-2.0, -1.0, 0.0], "max": [2.0, 3.0, 1.5]}
FILES3 = {"pot.coeffs": sysb.coeffs_file({(0, 0, 0): 0.0, (2, 0, 0): 1.0, (1, 1, 0): 0.25, (0, 2, 0): 0.5, (0, 0, 2): 2.0})}
POT2 = {"type": "mueller-brown", "scaling-factor": 0.2}


def sections(case):
    """all sections of the input"""
    dim = case.get("dim", 1)
    n = case.get("n", 12)
    seed = case["seed"]
    res = {
        "ld": sysb.ld_section(case["ld"], dt=0.01, n_steps=n, friction=2.0, kt=1.0, seed=seed),
        "potential": {1: POT1, 2: POT2, 3: POT3}[dim],
    }
    if dim == 1:
        res["potential"] = dict(POT1, **({"boundary-condition": case["bc"]} if case.get("bc") else {}))
    init = case.get("init", "fractions-pos")
    p = {"number": case.get("number", 5), "initial-distribution": init, "seed": seed}
    pos = [[-0.5], [0.75], [1.0]] if dim == 1 else [[-0.5, 1.0, 0.75][:dim], [0.25, 0.5, 1.0][:dim], [0.0, 0.4, 0.1][:dim]]
    if init != "random-global":
        p.update(inputs.pos_opts(pos))
    if init == "fractions-pos":
        p["fractions"] = [2, 2, 1]
    res["particles"] = p
    if case.get("bd"):
        b = {"stride": 2, "kernel-bandwidth": 0.5 if dim == 1 else [0.5, 0.3, 0.4][:dim], "exponential-factor": 200.0, "seed": seed}
        if case["bd"] == "recalc":
            b["recalculate-probabilities"] = "true"
        elif case["bd"] != "orig":
            b["approximation-variant"] = case["bd"]
        res["birth_death"] = b
    out = set(case.get("out", ()))
    a, b, c = case.get("strides", (1, 2, 4))
    one = dim == 1
    lo, hi = ([-3.0], [3.0]) if one else ([-1.5, -0.5, 0.0][:dim], [1.5, 2.5, 1.5][:dim])
    if "traj" in out:
        res["trajectories"] = {"filename": "traj" if case.get("tfile", True) else None, "stride": a, "write-stride": b, "momentum": "true"}
    if "histo" in out:
        res["histogram"] = {
            "filename": "histo", "min": lo[0] if one else lo, "max": hi[0] if one else hi, "bins": 6 if one else [4, 6, 3][:dim],
            "stride": a, "write-stride": c, "reset": [5] if c > 2 else None,
        }
    if "fes" in out:
        res["fes"] = {"kt": 1.0, "stride": b, "write-stride": c, "filename": "fes", "plot-filename": case.get("plot")}
    states = {"state1-min": lo, "state1-max": [0.0] * dim, "state2-min": [0.0] * dim, "state2-max": hi}
    if "df" in out:
        res["delta_f"] = {"stride": b, "filename": "df", "write-stride": 2 * b, **states}
    if "pd" in out:
        res["particle_distribution"] = {"stride": a, "filename": "pd", "write-stride": 3 * a, **states}
    if "stats" in out and case.get("bd"):
        res["birth_death"]["stats-filename"] = "stats"
        res["birth_death"]["stats-stride"] = b
    for sec, opts in case.get("more", {}).items():
        res[sec].update(opts)
    return res


def run(case):
    states = []

    def note(step, ld):
        states.append([(tuple(p.pos), tuple(p.mom)) for p in ld.particles])

    files = FILES3 if case.get("dim") == 3 else {}
    with env.scratch(files), env.registry() as got, watched(note, note):
        res = env.run_main(inputs.text(**sections(case)))
        if res.status != "ok":
            raise Violation(f"{case}: the run ended with {res.status}: {res.text()[-500:]}")
        note(None, got.ld)
    return states, res


def disturb(k):
    np.random.seed(k)
    random.seed(k)
    np.random.random(k % 5)


def check_twice(case, cov):
    disturb(1)
    a, ra = run(case)
    disturb(2)
    clock = time.time
    # at another time
    with env.patched(time, "time", lambda: clock() + 98765.4):
        b, rb = run(case)
    if a != b:
        k = next(i for i, (x, y) in enumerate(zip(a, b)) if x != y)
        raise Violation(f"{case}: two runs differ at observation {k}: {a[k]} vs {b[k]}")
    if ra.files.keys() != rb.files.keys():
        raise Violation(f"{case}: files {sorted(ra.files)} vs {sorted(rb.files)}")
    for f in ra.files:
        if not f.endswith(".png") and ra.files[f] != rb.files[f]:
            raise Violation(f"{case}: file {f} differs between two runs")
    if ra.out != rb.out:
        raise Violation(f"{case}: screen output differs between two runs")
    cov.trace(2)
    cov.trans(len(a))
    cov.state(str(case))
    cov.outcome(str(a[-1]))
    cov.sample(f"{case}: {len(ra.files)} files identical")


def digest(case):
    states, res = run(case)
    h = hashlib.sha256(repr(states).encode())
    for name in sorted(res.files):
        if not name.endswith(".png"):
            h.update(name.encode() + b"\0" + res.files[name] + b"\0")
    h.update(repr(res.out).encode())
    return h.hexdigest()


def check_process(case, cov):
    """separate processes: another order of hashes, process number, directory and environment"""
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    code = "import sys, json; sys.path.insert(0, sys.argv[1]); from mc.props import c15; print(c15.digest(json.loads(sys.argv[2])))"
    seen = {}
    for seed in ("1", "2", "3"):
        with tempfile.TemporaryDirectory() as tmp:
            sub = os.path.join(tmp, "a" * (7 * int(seed)))
            os.mkdir(sub)
            for attempt in range(2):  # not for want of memory or the like
                res = subprocess.run(
                    [sys.executable, "-W", "ignore", "-c", code, here, json.dumps(case)], cwd=sub, capture_output=True, text=True,
                    env=dict(
                        os.environ, PYTHONHASHSEED=seed, TMPDIR=sub, BDLDMC_SCRATCH=sub, HOME=sub, USER="u" * int(seed), TZ=f"UTC{seed}",
                        COLUMNS=str(40 * int(seed)), OMP_NUM_THREADS=seed,
                    ),
                )
                if not res.returncode:
                    break
        if res.returncode:
            raise Violation(f"{case}: run in a process of its own failed: {res.stderr[-500:]}")
        seen[seed] = res.stdout.split()[-1]
        cov.trace()
    if len(set(seen.values())) > 1:
        raise Violation(f"{case}: runs in different processes, directories and environments differ (digests {seen})")
    cov.trans(3)
    cov.state(("process", str(case)))


def gen_process(tier):
    for ld in ("bussi-parinello", "overdamped"):
        for bd, init in (("orig", "random-pos"), ("recalc", "random-global"), ("mult", "fractions-pos")):
            yield dict(seed=11, ld=ld, bd=bd, init=init, out=["traj", "histo", "fes", "df", "pd", "stats"])
    for seed in (0, 1, 12345, 2**40 + 1):
        for ld in ("bussi-parinello", "overdamped"):
            yield dict(seed=seed, ld=ld, bd="orig", init="random-pos", out=["traj", "stats"])
    yield dict(seed=0, ld="bussi-parinello", bd="add", init="random-global", dim=1, out=["traj", "stats"])
    yield dict(seed=5, ld="overdamped", bd="orig", init="random-global", dim=2, out=["traj", "stats", "pd"])


ALL = ("traj", "histo", "fes", "df", "pd", "stats")


def gen_twice(tier):
    seeds = [0, 1, 2, 3, 7, 42, 999, 1000, 2**31 - 1, 2**40 + 1]
    if tier == "thorough":
        seeds += [4, 5, 6, 10, 100, 1001, 2000, 123456, 2**32, 2**63]
    for seed in seeds:
        for ld in ("bussi-parinello", "overdamped"):
            for bd in (None, "orig", "recalc", "mult"):
                if bd == "mult" and seed not in (0, 1, 42):
                    continue
                for init in ("fractions-pos", "random-pos", "random-global"):
                    yield dict(seed=seed, ld=ld, bd=bd, init=init, out=ALL)
    for bc in ("periodic", "reflective"):
        yield dict(seed=0, ld="overdamped", bd="orig", out=ALL, bc=bc)
    for seed in (0, 1, 8):
        for ld in ("bussi-parinello", "overdamped"):
            for bd, init in ((None, "random-global"), ("orig", "random-global"), ("recalc", "random-pos")):
                yield dict(seed=seed, ld=ld, bd=bd, dim=3, init=init, out=ALL)
    for number in (60, 130, 520):
        for ld in ("bussi-parinello", "overdamped"):
            for bd in (None, "orig") + (("recalc",) if number < 100 else ()):
                yield dict(seed=6, ld=ld, bd=bd, init="random-global", number=number, n=6, out=ALL)
    for ld in ("bussi-parinello", "overdamped"):
        for bd in (None, "orig"):
            yield dict(seed=6, ld=ld, bd=bd, n=6100, number=2, init="random-pos", strides=(10, 50, 2500), out=ALL)
    for seed in (0, 5):
        for ld in ("bussi-parinello", "overdamped"):
            yield dict(seed=seed, ld=ld, bd="recalc", dim=2, init="random-pos", out=ALL)


def subsets():
    for k in range(len(ALL) + 1):
        for s in itertools.combinations(ALL, k):
            if "histo" in s and "traj" not in s or "fes" in s and "histo" not in s or "df" in s and "fes" not in s:
                continue
            yield s


def check_output(case, cov):
    base, _ = run(dict(case, out=()))
    for out in subsets():
        for strides in case["strides_list"]:
            c = dict(case, out=out, strides=strides, tfile=(sum(strides) + len(out)) % 3 > 0)
            disturb(len(out))
            got, _ = run(c)
            if got != base:
                k = next(i for i, (x, y) in enumerate(zip(base, got)) if x != y)
                raise Violation(f"{c}: output changes the motion at observation {k}: {got[k]} instead of {base[k]}")
            cov.trace()
            cov.trans(len(got))
            cov.state(str(c))
            cov.outcome(str(got[-1]))


def gen_output(tier):
    sl = [(1, 1, 1), (1, 2, 4), (3, 3, 6)]
    if tier == "thorough":
        sl += [(2, 1, 5), (5, 10, 20), (1, 7, 3)]
    for ld in ("bussi-parinello", "overdamped"):
        for bd in (None, "orig", "recalc"):
            for s in sl:
                yield dict(seed=3, ld=ld, bd=bd, strides_list=[s])
    yield dict(seed=0, ld="bussi-parinello", bd="orig", dim=2, strides_list=sl[:1], init="random-pos")
    for ld in ("bussi-parinello", "overdamped"):
        yield dict(seed=2, ld=ld, bd="orig", strides_list=sl[1:2], init="random-global", number=75, n=6)


def check_plots(case, cov):
    """plots and other ways to write the output"""
    base, _ = run(dict(case, out=()))
    for strides in case["strides_list"]:
        for more in MORE[case["part"] :: PARTS]:
            c = dict(case, out=ALL, strides=strides, more=more)
            got, _ = run(c)
            if got != base:
                k = next(i for i, (x, y) in enumerate(zip(base, got)) if x != y)
                raise Violation(f"{c}: output changes the motion at observation {k}: {got[k]} instead of {base[k]}")
            cov.trace()
            cov.trans(len(got))
            cov.state(str(c))


PARTS = 6
MORE = [
    {"fes": {"plot-filename": "p.png"}},
    {"fes": {"plot-filename": "p.png", "plot-stride": 3, "plot-title": "t", "plot-domain": [0.0, 3.0]}},
    {"fes": {"filename": None, "write-stride": None}, "histogram": {"filename": None, "write-stride": None}},
    {"trajectories": {"momentum": "false", "fmt": "%%.3f"}, "histogram": {"fmt": "%%.2f", "reset": [1, 3, 4]}},
    {"trajectories": {"filename": None}, "delta_f": {"filename": None, "write-stride": None}, "particle_distribution": {"filename": None, "write-stride": None}},
    {"delta_f": {"stride": None, "write-stride": None}, "particle_distribution": {"stride": None, "write-stride": None}},
    {"birth_death": {"stats-filename": None}},
    {"birth_death": {"stats-filename": None, "stats-stride": None}},
    {"fes": {"kt": 9.0}, "histogram": {"bins": 3, "min": -0.5, "max": 0.5}},
] + [
    # settings of all sizes, also far beyond the length of the run
    {
        "trajectories": {"stride": 1, "write-stride": min(k, 5000)},
        "histogram": {"stride": 1, "write-stride": k, "reset": [k], "bins": min(k, 500)},
        "fes": {"stride": k, "write-stride": k, "plot-stride": k, "plot-filename": "p.png", "kt": float(k)},
        "delta_f": {"stride": k, "write-stride": k},
        "particle_distribution": {"stride": k, "write-stride": k},
        "birth_death": {"stats-stride": k},
    }
    for k in (11, 53, 100, 256, 1000, 5000, 10**6, 2**31, 2**40)
] + [
    {"trajectories": {"stride": k, "write-stride": k}, "histogram": {"stride": k, "write-stride": k}, "fes": {"stride": k, "write-stride": k}}
    for k in (53, 1000, 10**6)
] + [
    {"trajectories": {"fmt": "%%" + fmt}, "histogram": {"fmt": "%%" + fmt}, "fes": {"fmt": "%%" + fmt}, "delta_f": {"fmt": "%%" + fmt}}
    for fmt in (".0f", ".1e", "14.9f", ".17g", "20.12e")
]


def gen_plots(tier):
    sl = [(1, 2, 4)] if tier == "quick" else [(1, 1, 1), (1, 2, 4), (3, 3, 6)]
    for ld in ("bussi-parinello", "overdamped"):
        for bd in ("orig", "recalc"):
            for part in range(PARTS):
                yield dict(seed=3, ld=ld, bd=bd, strides_list=sl, part=part)


def check_longer(case, cov):
    n = case["n"]
    full, _ = run(case)
    for k in case["lengths"]:
        part, _ = run(dict(case, n=k))
        # last observation is after the final birth-death step: before step k+1 of the longer run
        if part[:-1] != full[: 2 * k] or part[-1] != full[2 * k]:
            raise Violation(f"{case}: a run of {k} steps differs from the first {k} of {n}")
        cov.trace()
        cov.trans(k)
        cov.state((str(case), k))


def gen_longer(tier):
    top = 40 if tier == "thorough" else 15
    for seed in (0, 3):
        for ld in ("bussi-parinello", "overdamped"):
            for bd in (None, "orig", "recalc"):
                for out in ((), ALL):
                    yield dict(seed=seed, ld=ld, bd=bd, out=out, n=top + 1, lengths=list(range(1, top + 1)))
                if seed == 3:
                    yield dict(seed=seed, ld=ld, bd=bd, out=() if bd else ALL, n=1050, lengths=[16, 20, 21, 64, 99, 100, 101, 128, 250, 500, 999, 1000, 1024])


def motion(c, out):
    """states of all walkers before and after every step; out: with the output sections"""
    sec = whole.sections(c)
    if not out:
        sec = {k: {a: b for a, b in v.items() if not a.startswith("stats")} for k, v in sec.items() if k == "birth_death"}
    else:
        for k in ("trajectories", "histogram", "fes", "delta_f")[c["chain"] :] + (() if c["pdsec"] else ("particle_distribution",)):
            del sec[k]
    if c["bd"]:
        sec["birth_death"]["approximation-variant"] = c["variant"]
    states = []

    def note(step, ld):
        states.append([(tuple(p.pos), tuple(p.mom)) for p in ld.particles])

    files = dict(runs.FILES[c["dim"]], **({"out": None} if c["dir"] else {}))
    with env.scratch(files), env.registry() as got, watched(note, note):
        res = env.run_main(runs.text(c["n"], c["walkers"], c["dim"], c["kind"], dt=c["dt"], bc=c["bc"], mass=c["mass"], **sec))
        if res.status != "ok":
            raise Violation(f"{c}: the run ended with {res.status}: {res.text()[-500:]}")
        note(None, got.ld)
    return states


def check_whole(case, cov):
    base = motion(case, False)
    disturb(len(str(case)))
    got = motion(case, True)
    if repr(got) != repr(base):
        k = next((i for i, (x, y) in enumerate(zip(base, got)) if repr(x) != repr(y)), None)
        raise Violation(f"{case}: output changes the motion at observation {k}: {got[k]} instead of {base[k]}")
    cov.trace(2)
    cov.trans(len(got))
    cov.state(str(case))


def gen_whole(tier):
    """every combination of two settings"""
    factors = dict(whole.FACTORS, dt=[0.0004, 0.03, 0.3], chain=[0, 1, 2, 3, 4], pdsec=[True, False], variant=[None, "add", "mult"])
    for seed in range(5 if tier == "thorough" else 2):
        for c in covering(factors, 2, lambda c: c["variant"] is None or not c["bd"] or c["dim"] == 1 and c["walkers"] < 20, seed, 4):
            yield c


FAMILIES = {
    "whole": (gen_whole, check_whole, 1),
    "processes": (gen_process, check_process, 1),
    "twice": (gen_twice, check_twice, 4),
    "output": (gen_output, check_output, 1),
    "output-kinds": (gen_plots, check_plots, 1),
    "longer": (gen_longer, check_longer, 1),
}
