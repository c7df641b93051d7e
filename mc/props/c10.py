"""C10: histograms of all small run lengths, strides and resets"""
import itertools
import os

import numpy as np

from .. import runs, whole
from ..core import Violation

RULE = (
    "a trace = one complete run with scripted walkers that visit a bin of their own at every (step, walker), some outside "
    "the range; final and intermediate histogram files are compared bin by bin with the selected steps"
)
ASSUMPTIONS = ["a position exactly on an inner bin edge may be counted in either neighbouring bin"]
BOUNDS = {
    "quick": "run length 1..10 x stride 1..4 x trajectory write-stride 1..5/100 x write-stride none/1..4 x up to two resets; "
    "1-3 dimensions; 1-40 walkers; default strides up to 205 steps; up to 3500 walkers in one bin; all sections together (pairs of 36 settings, triples of those of the histogram)",
    "thorough": "run length 1..16 x stride 1..6 x trajectory write-stride 1..8/100 x write-stride none/1..6 x all reset pairs",
}

WALKERS = 2


def layout(dim, n, walkers, cube=False):
    """histogram options, bin midpoints per axis and the site of (step, walker)

    every (step, walker) has a bin of its own; walker 1 is outside at each third step
    """
    h = 0.25
    if dim == 1:
        nb = [n * walkers + 1]
        site = lambda s, w: [(s - 1) * walkers + w]
    elif dim == 2:
        nb = [n + 1, walkers + 1]
        site = lambda s, w: [s - 1, w]
    else:
        nb = [n + 1, 2, walkers]
        if cube:
            nb = [max(n + 1, 2, walkers)] * 3
        site = lambda s, w: [s - 1, s % 2, w]
    lo = [-1.0 - d for d in range(dim)]
    hi = [l + h * b for l, b in zip(lo, nb)]

    def pos(s, w):
        return [l + h * (i + 0.5) for l, i in zip(lo, site(s, w))]

    return nb, lo, hi, h, site, pos


def outside(s, w):
    return w == 1 and s % 3 == 0


def check(case, cov):
    n, dim = case["n"], case.get("dim", 1)
    walkers = case.get("walkers", WALKERS)
    hs = case.get("stride") or 1
    tws = case.get("tws") or 100
    hws = case.get("hws")
    base = case.get("name", "histo")
    resets = case.get("reset") or []
    nb, lo, hi, h, site, pos = layout(dim, n, walkers, case.get("cube"))
    one = dim == 1

    def script(step):
        res = []
        for w in range(walkers):
            p = pos(step, w)
            if outside(step, w):
                d = step % dim
                p[d] = hi[d] + 0.5 if step % 2 else lo[d] - 0.125
            res.append(p)
        return res

    rec = runs.run(
        n, walkers, dim, script, observe_files=runs.watched(n, hws) if n > 500 and hws else bool(hws), leftovers={os.path.dirname(base): None} if os.path.dirname(base) else None,
        trajectories={"filename": case.get("traj"), "write-stride": case.get("tws"), "stride": case.get("tstride")},
        histogram={
            "filename": base,
            "min": lo[0] if one else lo,
            "max": hi[0] if one else hi,
            "bins": nb[0] if one else nb,
            "stride": case.get("stride"),
            "write-stride": hws,
            "reset": resets or None,
            "fmt": case.get("fmt"),
        },
    )

    def model(first, last):
        """selected steps in (first, last]"""
        data = np.zeros(nb, int)
        for s in range(first + 1, last + 1):
            if s % hs == 0:
                for w in range(walkers):
                    if not outside(s, w):
                        data[tuple(site(s, w))] += 1
        return data

    def last_reset(before):
        return max([r for r in resets if r < before], default=0)

    final = model(last_reset(n + 1), n)
    compare(case, rec.files, base, final, nb, lo, h)
    names = {base}
    if hws:
        for s in range(hws, n + 1, hws):
            name = f"{base}_{s}"
            names.add(name)
            data = model(last_reset(s), s - s % tws)
            compare(case, rec.files, name, data, nb, lo, h)
            if s in rec.disk and name not in rec.disk[s]:
                raise Violation(f"{case}: {name} not on disk after step {s}")
            if name in rec.disk.get(s - 1, ()):
                raise Violation(f"{case}: {name} on disk before step {s}")
            cov.trans()
    extra = [f for f in rec.files if f.startswith(base) and f not in names]
    if extra:
        raise Violation(f"{case}: unexpected histogram files {extra}")
    cov.trace()
    cov.trans(n)
    cov.state(str(case))
    cov.outcome(final.tobytes())
    cov.sample(f"{case}: {int(final.sum())} counts at the end, {len(names) - 1} intermediate files")


def diff(data, want):
    if data.shape != want.shape:
        return f"shape {data.shape} instead of {want.shape}"
    bad = np.argwhere(data != want)
    return "; ".join(f"bin {tuple(int(x) for x in i)}: {data[tuple(i)]} instead of {want[tuple(i)]}" for i in bad[:4]) + (
        f" ({len(bad)} bins)"
    )


def compare(case, files, name, want, nb, lo, h):
    if name not in files:
        raise Violation(f"{case}: no file {name}, only {sorted(files)}")
    dim = len(nb)
    got = runs.rows(files[name], dim + 1, f"{case} {name}")
    if len(got) != want.size:
        raise Violation(f"{case}: {name} has {len(got)} rows instead of {want.size}")
    data = np.full(want.shape, -1.0)
    for r in got:
        idx = []
        for d in range(dim):
            i = (r[d] - lo[d]) / h - 0.5
            if abs(i - round(i)) > 1e-6 or not 0 <= round(i) < nb[d]:
                raise Violation(f"{case}: {name} has coordinate {r[d]}, no bin midpoint")
            idx.append(int(round(i)))
        data[tuple(idx)] = r[dim]
    if not np.array_equal(data, want):
        raise Violation(f"{case}: {name} differs: {diff(data, want)}")


def gen_sweep(tier):
    th = tier == "thorough"
    for n in range(1, 17 if th else 11):
        for stride in range(1, 7 if th else 5):
            for tws in list(range(1, 9 if th else 6)) + [None]:
                for hws in [None] + list(range(1, 7 if th else 5)):
                    yield dict(n=n, stride=stride, tws=tws, hws=hws)


def gen_reset(tier):
    th = tier == "thorough"
    for n in range(1, 11 if th else 8):
        for stride in (1, 2, 3):
            for tws in (1, 2, 3, 4, None):
                rs = [[r] for r in range(1, n + 2)]
                rs += [list(p) for p in itertools.combinations(range(1, n + 1), 2)]
                if th:
                    rs += [list(p) for p in itertools.combinations(range(1, n + 1), 3)]
                for r in rs:
                    yield dict(n=n, stride=stride, tws=tws, hws=2 if (n + tws if tws else n) % 2 else 3, reset=r)
    for k in (4, 5, 8, 12, 20):
        for n in (24, 25):
            for tws in (1, 2, None):
                yield dict(n=n, stride=1, tws=tws, hws=3, reset=list(range(1, k + 1)))
                yield dict(n=n, stride=1, tws=tws, hws=3, reset=[1 + i * 23 // k for i in range(k)])
    for r in ([5, 2], [2, 2], [3, 1, 6]):
        yield dict(n=7, stride=1, tws=2, hws=1, reset=r)


def gen_traj(tier):
    """whether and how trajectories are written must not matter"""
    for n in (1, 3, 6, 7, 12, 13):
        for stride in (1, 2, 3):
            for tws in (1, 2, 3, 4, 5, None):
                for ts in (1, 2, 3, 5):
                    yield dict(n=n, stride=stride, tws=tws, hws=3, traj="traj", tstride=ts)
                    if stride == 1:
                        # no stride of its own
                        yield dict(n=n, stride=None, tws=tws, hws=3, traj="traj" if ts % 2 else None, tstride=ts)
                yield dict(n=n, stride=stride, tws=tws, hws=2, tstride=3, reset=[4])
                yield dict(n=n, stride=stride, tws=tws, hws=2, traj="traj", tstride=2, reset=[2, 7])


def gen_dims(tier):
    for dim in (2, 3):
        for n in (1, 2, 5, 6, 9) if tier == "quick" else range(1, 13):
            for stride in (1, 2, 3):
                for tws in (1, 2, 4, None):
                    for reset in ([], [2], [4, 5]):
                        yield dict(n=n, dim=dim, stride=stride, tws=tws, hws=3, reset=reset, walkers=3)
                        if dim == 3:
                            yield dict(n=n, dim=3, stride=stride, tws=tws, hws=2, reset=reset, walkers=3, cube=True)


def gen_walkers(tier):
    for walkers in (1, 3, 10, 11, 12, 40):
        for n in (3, 4, 7):
            for tws in (2, 3, None):
                yield dict(n=n, stride=1, tws=tws, hws=2, walkers=walkers)
                yield dict(n=n, stride=2, tws=tws, hws=3, walkers=walkers, traj="traj", reset=[2])


def gen_names(tier):
    for name in NAMES:
        for dim in (1, 2, 3):
            yield dict(n=5, stride=1, tws=2, hws=2, name=name, dim=dim)
            yield dict(n=4, stride=1, tws=2, hws=2, name=name, dim=dim, fmt="%%.3f")


NAMES = ("h.dat", "out/h", "out.d/h.txt", "a_1", "x.y.z", "2")


def gen_long(tier):
    for n in (99, 100, 101, 150, 200, 205):
        yield dict(n=n, stride=None, tws=None, hws=None, walkers=1)
        yield dict(n=n, stride=3, tws=None, hws=70, walkers=1, reset=[130])
        yield dict(n=n, stride=7, tws=10, hws=50, walkers=1, traj="traj")
    for hws in (50, 53, 64, 100, 128, 1003):
        for n in (hws - 1, hws, hws + 1, hws + hws // 2, 2 * hws + 3):
            for tws in (1, hws, None):
                yield dict(n=n, stride=1, tws=tws, hws=hws, walkers=1)
    for n in (60, 130):
        yield dict(n=n, stride=1, tws=1, hws=1, walkers=1)
    for n, stride, tws, hws in ((1050, 1, None, 350), (2500, 1, 1000, 1000), (5003, 7, 11, 2500), (6001, 3, 5000, 6000), (4100, 1, 1, 1025), (3000, 1, 5000, 1500), (5000, 1000, 100, 5000), (12001, 1, 6000, 6000), (12001, 1, 12000, 3000), (21003, 1, 50, 7001)):
        yield dict(n=n, stride=stride, tws=tws, hws=hws, walkers=1)
        yield dict(n=n, stride=stride, tws=tws, hws=hws, walkers=1, traj="traj", tstride=n // 400, reset=[1001, n - 20])


def check_crowd(case, cov):
    """many walkers, often, in few bins; several of them at exactly the same place"""
    n, walkers, dim, nb = case["n"], case["walkers"], case["dim"], case["nb"]
    lo, h = [-1.0, 0.5, 2.0][:dim], 0.25
    hi = [l + h * b for l, b in zip(lo, nb)]
    spread = case["spread"]
    place = lambda s, w: [(s * (w % spread) + d) % nb[d] for d in range(dim)]
    shift = (lambda s, w: 0.0) if case["same"] else (lambda s, w: 0.2 * ((w * 37 + s) % 101) / 101 - 0.1)
    rec = runs.run(
        n, walkers, dim, lambda s: [[l + h * (i + 0.5) + shift(s, w) for l, i in zip(lo, place(s, w))] for w in range(walkers)],
        observe_files=False,
        trajectories={"write-stride": case.get("tws")},
        histogram={
            "filename": "histo", "min": lo[0] if dim == 1 else lo, "max": hi[0] if dim == 1 else hi,
            "bins": nb[0] if dim == 1 else nb, "reset": case.get("reset"), "write-stride": case.get("hws"),
        },
    )
    first = max(case.get("reset") or [0])
    want = np.zeros(nb, int)
    for s in range(first + 1, n + 1):
        for w in range(walkers):
            want[tuple(place(s, w))] += 1
    compare(case, rec.files, "histo", want, nb, lo, h)
    cov.trans(n)
    cov.trace()
    cov.state(str(case))
    cov.outcome(want.tobytes())


def gen_crowd(tier):
    for same in (True, False):
        for dim, nb in ((1, [1]), (1, [3]), (2, [2, 2]), (2, [4, 1]), (3, [2, 1, 3])):
            for spread in (1, 2):
                yield dict(n=3, walkers=300, dim=dim, nb=nb, spread=spread, same=same, tws=2)
                yield dict(n=7, walkers=5, dim=dim, nb=nb, spread=spread, same=same, tws=3, reset=[2], hws=2)
        yield dict(n=20, walkers=3500, dim=1, nb=[2], spread=1, same=same, tws=3)
        yield dict(n=300, walkers=2, dim=1, nb=[2], spread=1, same=same)
        # batches of 70000 positions
        yield dict(n=20, walkers=3500, dim=2, nb=[2, 2], spread=1, same=same, tws=20)
        yield dict(n=7001, walkers=10, dim=1, nb=[3], spread=2, same=same, tws=7000)
        for reset in ([4], [5], [1, 6]):
            yield dict(n=7, walkers=1500, dim=1, nb=[2], spread=1, same=same, tws=2, reset=reset)
            yield dict(n=7, walkers=1500, dim=2, nb=[2, 3], spread=1, same=same, tws=1, reset=reset)


def check_bd(case, cov):
    """walkers replaced by birth-death: the positions after its events count"""
    n, walkers, dim = case["n"], case["walkers"], case["dim"]
    nb, lo, hi, h, site, pos = layout(dim, n, walkers)
    one = dim == 1
    hs, tws = case.get("stride") or 1, case.get("tws") or 100
    rec = runs.run(
        n, walkers, dim, lambda s: [pos(s, w) for w in range(walkers)], observe_files=False, kind=case["kind"],
        trajectories={"write-stride": case.get("tws")},
        birth_death={"stride": case["bd"], "kernel-bandwidth": 0.5 if one else [0.5] * dim, "exponential-factor": 1e6, "seed": 5},
        histogram={
            "filename": "histo", "min": lo[0] if one else lo, "max": hi[0] if one else hi, "bins": nb[0] if one else nb,
            "stride": case.get("stride"), "reset": case.get("reset"), "write-stride": case.get("hws"),
        },
    )
    if n >= case["bd"] and not any((a[0] != b[0]).any() for s in range(1, n + 1) for a, b in zip(rec.pop[s], rec.script[s])):
        raise Violation(f"{case}: no birth-death event although every rate is accepted")

    def model(first, last):
        data = np.zeros(nb, int)
        for s in range(first + 1, last + 1):
            if s % hs == 0:
                for x, _ in rec.pop[s]:
                    data[tuple(int(np.floor((v - l) / h)) for v, l in zip(x, lo))] += 1
        return data

    reset = case.get("reset") or []
    compare(case, rec.files, "histo", model(max([r for r in reset if r <= n], default=0), n), nb, lo, h)
    if case.get("hws"):
        for s in range(case["hws"], n + 1, case["hws"]):
            compare(case, rec.files, f"histo_{s}", model(max([r for r in reset if r < s], default=0), s - s % tws), nb, lo, h)
    cov.trans(n)
    cov.trace()
    cov.state(str(case))


def gen_bd(tier):
    for kind in ("bussi-parinello", "overdamped"):
        for dim in (1, 2, 3):
            for n in (1, 4, 7):
                for bd in (1, 2, 3):
                    for stride, tws in ((None, 2), (2, 3), (None, None), (3, 1)):
                        yield dict(n=n, walkers=3, dim=dim, bd=bd, stride=stride, tws=tws, kind=kind, hws=3, reset=[2] if n == 7 else None)


def check_edges(case, cov):
    """every coordinate of a fine lattice, edges of bins and range included"""
    dim, nb, lo, hi = case["dim"], case["nb"], case["lo"], case["hi"]
    one = dim == 1
    lattice = []
    for d in range(dim):
        h = (hi[d] - lo[d]) / nb[d]
        lattice.append([lo[d] + h * k / 2 for k in range(-2, 2 * nb[d] + 3)])
    points = list(itertools.product(*lattice))
    if dim > 1:
        points = points[:: case["every"]]
    eps = [np.nextafter(hi[0], np.inf), np.nextafter(lo[0], -np.inf), np.nextafter(hi[0], -np.inf), np.nextafter(lo[0], np.inf)]
    points += [tuple([e] + [lo[d] + 1e-3 for d in range(1, dim)]) for e in eps]
    if case.get("near"):
        # close to the edges of many bins: one run, one walker per position
        return check_near(case, cov)
    for p in points:
        rec = runs.run(
            1, 1, dim, lambda s: [list(p)], observe_files=False,
            trajectories={},
            histogram={
                "filename": "histo",
                "min": lo[0] if one else lo,
                "max": hi[0] if one else hi,
                "bins": nb[0] if one else nb,
            },
        )
        rows = runs.rows(rec.files["histo"], dim + 1)
        if len(rows) != int(np.prod(nb)):
            raise Violation(f"{case}: {len(rows)} rows for bins {nb}")
        got = [tuple(r[:dim]) for r in rows if r[dim]]
        total = sum(r[dim] for r in rows)
        inside = all(lo[d] <= p[d] <= hi[d] for d in range(dim))
        if total != (1 if inside else 0):
            raise Violation(f"{case}: position {p} counted {total} times")
        if inside:
            for d in range(dim):
                h = (hi[d] - lo[d]) / nb[d]
                if abs(got[0][d] - p[d]) > h / 2 * (1 + 1e-6) + 2e-9:
                    raise Violation(f"{case}: position {p} counted in the bin around {got[0]}")
        cov.trans()
        cov.state((dim, tuple(nb), p))
    cov.trace()


def check_near(case, cov):
    nb, lo, hi, n = case["nb"][0], case["lo"][0], case["hi"][0], case.get("n", 1)
    h = (hi - lo) / nb
    tiny = 1e-9 * max(abs(lo), abs(hi))
    want = np.zeros(nb, int)
    pos = []
    for k in range(nb + 1):
        for m, off in enumerate((tiny, 1e-6 * h, 1e-3 * h, 0.02 * h)):
            for i, x in ((k - 1, lo + k * h - off), (k, lo + k * h + off)):
                # uneven counts, so that a shifted bin shows
                for _ in range(1 + (3 * k + m + i) % 3):
                    pos.append([x])
                    if 0 <= i < nb:
                        want[i] += 1
    rec = runs.run(
        n, len(pos), 1, lambda s: pos[::-1] if s % 2 else pos, observe_files=False, trajectories={"write-stride": case.get("tws")},
        histogram={"filename": "histo", "min": lo, "max": hi, "bins": nb},
    )
    rows = runs.rows(rec.files["histo"], 2)
    if len(rows) != nb:
        raise Violation(f"{case}: {len(rows)} rows for {nb} bins")
    for i, r in enumerate(rows):
        if abs(r[0] - (lo + (i + 0.5) * h)) > 1e-6 * h + 2e-9:
            raise Violation(f"{case}: bin {i} at {r[0]}")
        if r[1] != n * want[i]:
            raise Violation(f"{case}: bin {i} holds {r[1]} instead of {n * want[i]} positions")
    cov.trans(len(pos))
    cov.trace()
    cov.state(str(case))


def gen_edges(tier):
    for nb in (5, 30, 51, 97, 100, 101, 333, 1000):
        for lo, hi in ((-0.7, 2.3), (0.1, 1.1), (-2.5, 2.5), (-3.14159, 3.14159), (100.0, 101.7), (-1e-3, 2e-3), (2e6, 2.5e6), (-7e7, -6.8e7), (-3e5, 4e5), (0.0, 1.0), (-1e-7, 1.1e-7)):
            yield dict(dim=1, nb=[nb], lo=[lo], hi=[hi], near=True)
            yield dict(dim=1, nb=[nb], lo=[lo], hi=[hi], near=True, n=2, tws=1)
            yield dict(dim=1, nb=[nb], lo=[lo], hi=[hi], near=True, n=3, tws=2)
    yield dict(dim=1, nb=[4], lo=[-1.0], hi=[1.0])
    yield dict(dim=1, nb=[3], lo=[0.5], hi=[2.0])
    yield dict(dim=1, nb=[1], lo=[-0.5], hi=[0.25])
    yield dict(dim=1, nb=[10], lo=[-0.7], hi=[2.3])
    yield dict(dim=2, nb=[3, 2], lo=[-1.0, 2.0], hi=[0.5, 4.0], every=1)
    yield dict(dim=2, nb=[2, 4], lo=[1.0, -4.0], hi=[2.0, -2.0], every=2)
    yield dict(dim=3, nb=[2, 3, 1], lo=[1.0, -4.0, 0.0], hi=[2.0, -2.5, 0.5], every=3)


FAMILIES = {
    "sweep": (gen_sweep, check, 32),
    "resets": (gen_reset, check, 32),
    "trajectories": (gen_traj, check, 32),
    "dimensions": (gen_dims, check, 32),
    "walkers": (gen_walkers, check, 8),
    "names": (gen_names, check, 8),
    "long": (gen_long, check, 2),
    "crowd": (gen_crowd, check_crowd, 1),
    "birth-death": (gen_bd, check_bd, 8),
    "edges": (gen_edges, check_edges, 1),
    "whole": whole.family("C10"),
}
