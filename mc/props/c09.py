"""C09: trajectory files of all small run lengths and strides, after every step"""
import itertools

from .. import runs, whole
from ..core import Violation
from ..covering import covering

RULE = (
    "a trace = one complete run of the program for (run length, stride, write-stride, walkers, dimension, momentum, "
    "birth-death) with scripted unique positions; the files on disk are compared with the population after every single "
    "time step (every crash point) and at the end"
)
ASSUMPTIONS = ["a crash loses what was not handed to the operating system; completed writes survive"]
BOUNDS = {
    "quick": "run length 1..20 x stride 1..9 x write-stride 1..12 (1 walker, 1D), defaults up to 301 steps, 2-3 walkers, "
    "1-3 dimensions, momenta and birth-death on a coarser product; all triples of 13 settings, all sections together (pairs of 36 settings)",
    "thorough": "run length 1..40 x stride 1..13 x write-stride 1..21 and the finer product",
}


def script_for(walkers, dim, momentum, jump=False, scale=(1.0, 1.0)):
    def script(step):
        out = []
        for w in range(walkers):
            # values that need their full precision
            pos = [step * 0.512345678 + w * 0.127654321 + d * 0.015678943 for d in range(dim)]
            if jump:  # from one end of the potential's range to the other
                pos = [(-7.98765432 if (step + w + d) % 3 else 7.87654321) + 0.001 * x for d, x in enumerate(pos)]
            mom = [-step * 0.25123457 - w * 0.06257913 - d * 0.03125777 for d in range(dim)]
            pos, mom = [scale[0] * x for x in pos], [scale[1] * x for x in mom]
            out.append((pos, mom) if momentum else pos)
        return out

    return script


def opts(case):
    t = {
        "filename": case.get("name", "traj"),
        "stride": case.get("stride"),
        "write-stride": case.get("ws"),
        "momentum": "true" if case.get("mom") else case.get("momtext"),
        "fmt": case.get("fmt"),
    }
    return t


def check(case, cov):
    n, walkers, dim = case["n"], case.get("walkers", 1), case.get("dim", 1)
    mom = bool(case.get("mom"))
    stride = case.get("stride") or 1
    ws = case.get("ws") or 100
    sections = {}
    if case.get("bd"):
        sections["birth_death"] = {
            "stride": case["bd"],
            "kernel-bandwidth": 0.5 if dim == 1 else [0.5] * dim,
            "exponential-factor": 1e6,
            "seed": 3,
        }
    dt = case.get("dt", runs.DT)
    rec = runs.run(
        n, walkers, dim, observe_files=runs.watched(n, ws, stride) if n > 500 else True, script=script_for(walkers, dim, True, case.get("jump"), case.get("scale", (1.0, 1.0))), bc=case.get("bc"), mass=case.get("mass"), kind=case.get("kind", "bussi-parinello"), dt=dt, trajectories=opts(case), **sections
    )
    tol = case.get("tol", 6e-10)
    ncols = 1 + dim * (2 if mom else 1)
    if case.get("bd"):
        changed = [s for s in range(1, n + 1) if any((a[0] != b[0]).any() for a, b in zip(rec.pop[s], rec.script[s]))]
        if changed:
            cov.count("steps_with_events", len(changed))
        elif n >= case["bd"] and walkers > 1:
            raise Violation(f"{case}: no birth-death event although every rate is accepted")

    def expected(w, upto):
        res = []
        for s in range(stride, upto + 1, stride):
            pos, m = rec.pop[s][w]
            res.append([s * dt] + list(pos) + (list(m) if mom else []))
        return res

    for w in range(walkers):
        name = f"{case.get('name', 'traj')}.{w}"
        want = expected(w, n)
        if name not in rec.files:
            raise Violation(f"{case}: no trajectory file {name}, files {sorted(rec.files)}")
        got = runs.rows(rec.files[name], ncols, f"{case} {name}")
        compare(case, f"{name} at the end", got, want, tol)
        for s in sorted(rec.disk):  # crash after step s
            got = runs.rows(rec.disk[s].get(name, b""), ncols, f"{case} {name}")
            due = len(range(stride, s - s % ws + 1, stride))
            most = len(range(stride, s + 1, stride))
            if not due <= len(got) <= most:
                raise Violation(
                    f"{case}: {len(got)} rows in {name} when dying after step {s}, at least {due} and at most {most} are due"
                )
            compare(case, f"{name} after step {s}", got, want[: len(got)], tol)
            cov.state((str(case), w, s, len(got)))
            cov.trans()
    extra = [f for f in rec.files if f.split(".")[0] == case.get("name", "traj") and f not in {f"{case.get('name', 'traj')}.{w}" for w in range(walkers)}]
    if extra:
        raise Violation(f"{case}: unexpected files {extra}")
    cov.trace()
    cov.outcome((n, stride, ws, walkers, dim, mom, case.get("bd")))
    cov.sample(f"{case}: {len(expected(0, n))} rows per walker")


def compare(case, what, got, want, tol):
    if len(got) != len(want):
        raise Violation(f"{case}: {what} has {len(got)} rows instead of {len(want)}: times {[r[0] for r in got]} vs {[r[0] for r in want]}")
    for g, x in zip(got, want):
        if not (runs.same(g, x, tol) if tol < 1 else all(abs(a - b) <= 1e-14 * abs(b) for a, b in zip(g, x))):
            raise Violation(f"{case}: {what} has row {g} instead of {x}")


def gen_strides(tier):
    n, k, w = (40, 13, 21) if tier == "thorough" else (20, 9, 12)
    for a in range(1, n + 1):
        for b in range(1, k + 1):
            for c in range(1, w + 1):
                yield dict(n=a, stride=b, ws=c)


def gen_default(tier):
    for n in (1, 99, 100, 101, 199, 200, 201, 301):
        yield dict(n=n)
        yield dict(n=n, stride=7)
        yield dict(n=n, stride=100)
    for n in (5, 12, 100):
        for ws in (1, 5, 100, 101):
            yield dict(n=n, ws=ws)


def gen_shapes(tier):
    ns = (1, 2, 5, 6, 7, 12) if tier == "quick" else range(1, 15)
    for n, stride, ws in itertools.product(ns, (1, 2, 3), (1, 2, 3, 5)):
        for walkers, dim, mom, bd, kind in (
            (2, 1, True, None, "bussi-parinello"),
            (3, 2, False, None, "overdamped"),
            (2, 3, True, None, "bussi-parinello"),
            (3, 1, True, 2, "bussi-parinello"),
            (2, 2, False, 1, "overdamped"),
            (3, 3, False, 3, "bussi-parinello"),
        ):
            yield dict(n=n, stride=stride, ws=ws, walkers=walkers, dim=dim, mom=mom, bd=bd, kind=kind)


def gen_options(tier):
    for n in (6, 13):
        for kind in ("bussi-parinello", "overdamped"):
            for mass in (0.37, 12.5):
                yield dict(n=n, stride=2, ws=3, walkers=2, mom=True, mass=mass, kind=kind)
            for bc in (None, "periodic", "reflective"):
                for dim in (1, 2):
                    for bd in (None, 2):
                        yield dict(n=n, stride=1, ws=4, walkers=2, dim=dim, bc=bc, jump=True, mom=True, bd=bd, kind=kind)
                    yield dict(n=n, stride=2, ws=100, walkers=2, dim=dim, bc=bc, jump=True, kind=kind)
    for n in (1, 6, 7):
        yield dict(n=n, stride=2, ws=3, name="out.x", walkers=2)
        yield dict(n=n, stride=2, ws=3, momtext="false", walkers=2)
        yield dict(n=n, stride=2, ws=3, momtext="no")
        yield dict(n=n, stride=2, ws=3, fmt="%%.3f", tol=6e-4)
        yield dict(n=n, stride=2, ws=3, fmt="%%.15e", tol=1e-12, mom=True)
        yield dict(n=n, stride=2, ws=3, walkers=11)
        yield dict(n=n, stride=2, ws=3, walkers=12, mom=True, dim=2)
        for dt in (0.000123, 0.7654321, 1234.5678, 98765.4321):
            yield dict(n=n, stride=1, ws=3, dt=dt, walkers=2)
            yield dict(n=n, stride=2, ws=5, dt=dt, mom=True)
    for walkers in (16, 17, 18, 20, 33, 60, 110):
        for dim in (1, 2):
            yield dict(n=3, stride=1, ws=2, walkers=walkers, mom=True, dim=dim)
            yield dict(n=3, stride=1, ws=2, walkers=walkers, mom=True, dim=dim, bd=2)
    # values of all sizes, written with all their digits (tol 1: relative)
    for fmt in ("%%.17g", "%%.16e"):
        for sp in (1e-12, 1e-9, 1e-7, 1e-5, 1e-3, 1.0, -1e4, 1e6, -1e9, 1e15):
            for sm in (1e-12, 1e-7, 1.0, 1e4, -1e9):
                for mom in (True, False):
                    yield dict(n=5, stride=1, ws=2, walkers=2, mom=mom, fmt=fmt, scale=(sp, sm), tol=1)
        for dt in (1e-15, 1e-9, 1e-7, 0.005, 1 / 3, 1e7 / 3, 1e15 / 3):
            yield dict(n=5, stride=1, ws=2, fmt=fmt, dt=dt, tol=1)
            yield dict(n=5, stride=2, ws=3, fmt=fmt, dt=dt, tol=1, mom=True)
    yield dict(n=2, stride=1, ws=2, walkers=103)
    yield dict(n=1, stride=1, walkers=1003)


def gen_long(tier):
    """long runs and large strides"""
    for n, stride, ws in (
        (1100, 1, 1000), (2500, 1, 7), (2500, 3, None), (5003, 1000, 2000), (5003, 7, 1500), (10007, 5000, 10000), (10007, 3, 4096), (4097, 4096, 4097),
        (1500, 2000, 700), (3000, 1, 5000), (12001, 1, 1), (21003, 1, 50), (25001, 10, 7),
    ):
        yield dict(n=n, stride=stride, ws=ws, walkers=1 + n % 2, mom=n % 3 == 0)
        if tier == "thorough":
            yield dict(n=n, stride=stride, ws=ws, walkers=3, dim=2, bd=50, mom=True)
    for ws in (50, 53, 64, 100, 128, 500, 1000, 1003, 1024):
        for n in (ws - 1, ws, ws + 1, ws + ws // 2, 2 * ws, 2 * ws + 3):
            for mom in (True, False):
                yield dict(n=n, stride=1, ws=ws, mom=mom)
                yield dict(n=n, stride=3, ws=ws, mom=mom)
    for n in (60, 130, 1010, 1030):
        yield dict(n=n, stride=1, ws=1, mom=True)
        yield dict(n=n, stride=1, ws=1, walkers=2, mom=True, bd=3)
    for stride in (50, 70, 100, 120, 260):
        for ws in (1, 3, 7, 9, 30, 100):
            yield dict(n=267, stride=stride, ws=ws)
    yield dict(n=1200, stride=1, ws=400, walkers=3, bd=11)


FACTORS = {
    "n": [1, 2, 7, 12, 65, 131, 1012],
    "stride": [None, 1, 2, 3, 7, 30, 51],
    "ws": [None, 1, 2, 4, 15, 53, 102, 1000],
    "walkers": [1, 2, 3, 12, 101],
    "dim": [1, 2, 3],
    "mom": [True, False],
    "kind": ["bussi-parinello", "overdamped"],
    "bd": [None, 1, 3, 20],
    "dt": [0.0004, 0.03, 0.7, 12.0],
    "fmt": [None, "%%.12f", "%%.17g"],
    "bc": [None, "periodic", "reflective"],
    "mass": [None, 0.3, 20.0],
    "name": ["traj", "out.x"],
}


def gen_together(tier):
    """every combination of three settings, in one array (thorough: in several)"""
    few = lambda c: (c["n"] * c["walkers"] < 15000) and not (c["bd"] and c["walkers"] > 50 and c["n"] / c["bd"] > 100)
    for seed in range(4 if tier == "thorough" else 1):
        for c in covering(FACTORS, 3, few, seed):
            yield dict(c, jump=c["bc"] is not None, tol={None: 6e-10, "%%.12f": 6e-13, "%%.17g": 1}[c["fmt"]])


def check_none(case, cov):
    """without a file name nothing is written and the run works"""
    rec = runs.run(case["n"], 2, 1, script_for(2, 1, False), trajectories={"stride": case["stride"], "write-stride": case["ws"]})
    if rec.files:
        raise Violation(f"{case}: files {sorted(rec.files)} without a file name")
    cov.trace()
    cov.state(str(case))


def gen_none(tier):
    for n in (1, 4, 7):
        for s in (None, 2):
            for ws in (None, 3):
                yield dict(n=n, stride=s, ws=ws)


FAMILIES = {
    "strides": (gen_strides, check, 32),
    "shapes": (gen_shapes, check, 16),
    "default": (gen_default, check, 2),
    "long": (gen_long, check, 1),
    "options": (gen_options, check, 8),
    "together": (gen_together, check, 2),
    "no-file": (gen_none, check_none, 8),
    "whole": whole.family("C09"),
}
