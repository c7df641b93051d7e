"""C14: statistics of the birth-death steps, over complete choice trees of whole runs"""
import math
import re

import numpy as np

from .. import choice, env, inputs, ref, runs, sysb, whole
from ..core import Violation

RULE = (
    "a case = (walkers, mode, run length, stride, stats-stride, output, alphabet of acceptance draws); every leaf of the "
    "choice tree is one complete run of the program; the exact joint distribution of all statistics records and of the "
    "populations after every step is compared with that of the reference model"
)
ASSUMPTIONS = [
    "a rate of exactly zero is only explored where rounding cannot produce another one (2, 4 or 8 walkers in the same place)",
    "on screen a record is recognised by 'After <step> time steps' and '<successes>/<attempts>' of birth and death events",
]
BOUNDS = {
    "quick": "N=2..4 (default mode), N=3 (recalculating); run length 1..6 x stride 1..3 x stats-stride none/1..4, file and "
    "screen; complete trees of one or two birth-death steps, forced draws for longer runs up to 60 steps; attempts of up to 2500 birth-death steps and 1900 walkers; rates down to 1e-9; 12-150 walkers recalculating; all sections together (pairs of 36 settings, triples of those of birth-death)",
    "thorough": "as quick with trees of three birth-death steps for N=2 and run length up to 10",
}

COEFFS = {(0,): 0.0, (1,): 0.2, (2,): -1.0, (4,): 0.25}
XS = {2: [-1.3, 0.4], 3: [-1.5, 0.1, 1.75], 4: [-1.9, -0.6, 0.3, 1.6]}
# three that multiply and one that dies: slots are overwritten several times in a step
XS["flock"] = [-1.9, -1.2, 1.2, 2.4]
BW, KT, DT = 0.5, 1.0, 0.05


def level(energy, lo, hi):
    """position between lo and hi with this energy"""
    up = ref.poly_energy(COEFFS, [hi]) > ref.poly_energy(COEFFS, [lo])
    for _ in range(200):
        mid = (lo + hi) / 2
        lo, hi = (mid, hi) if (ref.poly_energy(COEFFS, [mid]) < energy) == up else (lo, mid)
    return lo


# two walkers of almost the same energy have tiny rates
for _d in (1e-5, 3e-7, 2e-9):
    XS[f"near{_d}"] = [-1.9, level(ref.poly_energy(COEFFS, [-1.9]) + _d, -1.4, 0.0)]


def rate_of_factory(n):
    cache = {}

    def rate_of(labels):
        if labels not in cache:
            pos = [[XS[n][i]] for i in labels]
            cache[labels] = ref.rates_original(pos, [ref.poly_energy(COEFFS, p) for p in pos], [BW], KT)
        return cache[labels]

    return rate_of


def prob_of(stride, fac):
    return lambda r: 0.0 if abs(r) < 1e-12 else 1 - math.exp(-abs(r) * DT * stride * fac)


def parse_stats(rec, fname):
    if fname:
        return tuple(tuple(int(x) for x in r) for r in runs.rows(rec.files.get(fname, b""), 5, "stats file"))
    out = []
    for part in re.split(r"After\s+", rec.res.out)[1:]:
        m = re.match(r"(\d+)\s+time\s*steps", part)
        if not m:
            continue
        b = re.search(r"Birth events:\s*(\d+)/(\d+)", part)
        d = re.search(r"Death events:\s*(\d+)/(\d+)", part)
        if not b or not d:
            raise Violation(f"statistics without events: {part[:300]!r}")
        out.append(tuple(int(x) for x in (m.group(1), *b.groups(), *d.groups())))
    return tuple(out)


def real_run(case):
    n, xs = case["walkers"], XS[case.get("pop", case["walkers"])]
    fname = "stats" if case.get("file") else None
    sec, files = sysb.potential(COEFFS, [(-4.0, 4.0)])

    def run():
        rec = type("Rec", (), {})()
        pops = []

        def labels(ld):
            res = []
            for p in ld.particles:
                hit = [i for i, x in enumerate(xs) if p.pos[0] == x]
                if len(hit) != 1:
                    raise Violation(f"walker at {p.pos}, no copy of any")
                res.append(hit[0])
            return tuple(res)

        seen = []

        def script(step, ld):
            if step > 1:
                pops.append(labels(ld))
                if fname and case.get("ss"):
                    seen.append((step - 1, len(env.data_rows(open(fname, "rb").read()))))
            for i, x in enumerate(xs):
                sysb.set_walker(ld, i, [x])

        text = inputs.text(
            ld=sysb.ld_section(dt=DT, n_steps=case["n"], kt=KT),
            potential=sec,
            particles={"number": n, "initial-distribution": "fractions-pos", "pos1": [0.0], "fractions": [1.0]},
            birth_death={
                "stride": case["stride"],
                "kernel-bandwidth": BW,
                "exponential-factor": case.get("fac"),
                "recalculate-probabilities": "true" if case.get("recalc") else None,
                "stats-stride": case.get("ss"),
                "stats-filename": fname,
            },
        )
        with env.scratch(files), env.registry() as got, env.scripted_motion(script), env.choice_mode():
            rec.res = env.run_main(text)
            rec.files = rec.res.files
        if rec.res.status != "ok":
            raise Violation(f"the run ended with {rec.res.status}: {rec.res.text()[-500:]}")
        pops.append(labels(got.ld))
        for step, k in seen:
            if k != step // case["ss"]:
                raise Violation(f"{case}: {k} records in the stats file after step {step}")
        return tuple(pops), parse_stats(rec, fname)

    return run


def ref_run(case):
    n = case["walkers"]
    rate_of = rate_of_factory(case.get("pop", n))
    prob = prob_of(case["stride"], case.get("fac") or 1.0)

    def run():
        tot = dict(dup=0, kill=0, dup_att=0, kill_att=0)
        pops, rows = [], []
        for s in range(1, case["n"] + 1):
            lab = tuple(range(n))
            if s % case["stride"] == 0:
                lab, _, cnt = ref.bd_step(lab, rate_of, prob, choice.ChoiceRNG(), case.get("recalc"))
                for k in tot:
                    tot[k] += cnt[k]
            pops.append(tuple(lab))
            if case.get("ss") and s % case["ss"] == 0:
                rows.append((s, tot["dup"], tot["dup_att"], tot["kill"], tot["kill_att"]))
        if not case.get("ss"):
            rows.append((case["n"], tot["dup"], tot["dup_att"], tot["kill"], tot["kill_att"]))
        return tuple(pops), tuple(rows)

    return run


def check(case, cov):
    u = case["u"]
    real = {}
    leaves = 0
    for res, w, ch in choice.explore(real_run(case), uniforms=u, max_leaves=20000):
        real[res] = real.get(res, 0) + w
        leaves += 1
        cov.trans(len(ch))
        cov.outcome((res[1]))
        cov.state((str(case), res))
        # successes are the events: each changes exactly one slot at most
    want = choice.distribution(choice.explore(ref_run(case), uniforms=u, max_leaves=80000))
    diff = choice.compare_distributions(real, want)
    if diff:
        raise Violation(f"{case}: (populations per step, statistics records): {diff}")
    cov.trace(leaves)
    cov.sample(f"{case}: {leaves} runs, {len(real)} distinct (populations, records)")


def us(n, stride, fac):
    """one alphabet per gap between the acceptance probabilities, no draws near a threshold"""
    ps = sorted(prob_of(stride, fac)(r) for r in rate_of_factory(n)(tuple(range(len(XS[n])))))
    ps = [p for i, p in enumerate(ps) if i == 0 or p > ps[i - 1] * (1 + 1e-6)]
    mids = [ps[0] / 2] + [(a + b) / 2 for a, b in zip(ps, ps[1:])] + [(1 + ps[-1]) / 2]
    return mids


def gen_strides(tier):
    """one value for every draw: all run lengths and strides"""
    for n in range(1, 11 if tier == "thorough" else 7):
        for stride in (1, 2, 3):
            for ss in (None, 1, 2, 3, 4):
                for file in (True, False):
                    # only the walker with the largest probability accepts; none; all
                    w = 2 + (n + stride) % 2
                    mids = us(w, stride, 1.0)
                    yield dict(walkers=w, n=n, stride=stride, ss=ss, file=file, u=[mids[-2]])
    for n in (1, 3, 4):
        for ss in (None, 2):
            for file in (True, False):
                yield dict(walkers=2, n=n, stride=2, ss=ss, file=file, u=[0.999999])
                yield dict(walkers=3, n=n, stride=5, ss=ss, file=file, u=[1e-9])
                yield dict(walkers=3, n=n, stride=5, ss=ss, file=file, u=[1e-9], recalc=True)


def gen_near(tier):
    for pop in XS:
        if not str(pop).startswith("near"):
            continue
        for fac in (None, 1e6):
            p = us(pop, 1, fac or 1.0)
            for recalc in (False, True):
                for u in (p[0], 0.9999999):
                    # with the low draw both accept and become equal: a rate of zero is then possible in the second mode
                    if recalc and u < 0.5:
                        continue
                    yield dict(walkers=2, pop=pop, n=3, stride=1, ss=2, file=fac is None, fac=fac, u=[u], recalc=recalc)


def gen_long(tier):
    for n, stride, ss in ((30, 7, 10), (60, 20, 25), (60, 20, None), (24, 12, 6), (25, 12, 25), (11, 10, 11)):
        for file in (True, False):
            mids = us(3, stride, 1.0)
            yield dict(walkers=3, n=n, stride=stride, ss=ss, file=file, u=[mids[-2]])


def gen_rare(tier):
    """strides far apart"""
    for n, stride, ss in ((1003, 1002, 501), (2100, 2050, 700), (1500, 1499, None), (2001, 5000, 1000)):
        for file in (True, False):
            mids = us(2, stride, 1e-4)
            yield dict(walkers=2, n=n, stride=stride, ss=ss, file=file, fac=1e-4, u=[mids[-2]])


def check_crowd(case, cov):
    """many walkers: large counters; attempts and events are known from the populations and rates"""
    n, N, stride, ss = case["n"], case["walkers"], case["stride"], case["ss"]
    sec, files = sysb.potential(COEFFS, [(-4.0, 4.0)])
    calls = []
    text = inputs.text(
        ld=sysb.ld_section(dt=DT, n_steps=n, kt=KT, seed=1),
        potential=sec,
        particles={"number": N, "initial-distribution": "random-global", "seed": 5},
        birth_death={
            "stride": stride, "kernel-bandwidth": BW, "stats-stride": ss, "stats-filename": "stats" if case["file"] else None,
            "seed": 3, "exponential-factor": case.get("fac"), "recalculate-probabilities": "true" if case.get("recalc") else None,
        },
    )
    snaps = {}

    def script(step, ld):
        if step > 1:
            snaps[step - 1][1] = [p.pos[0] for p in ld.particles]
        for i, p in enumerate(ld.particles):
            sysb.set_walker(ld, i, [-2.4 + 4.8 * ((i * 7919 + step * 131) % 10007) / 10007])
        snaps[step] = [[p.pos[0] for p in ld.particles], None]

    with env.scratch(files), env.registry() as got, env.scripted_motion(script):
        res = env.run_main(text)
        snaps[n][1] = [p.pos[0] for p in got.ld.particles]
    if res.status != "ok":
        raise Violation(f"the run ended with {res.status}: {res.text()[-500:]}")
    rec = type("Rec", (), {"res": res, "files": res.files})()
    rows = parse_stats(rec, "stats" if case["file"] else None)
    steps = list(range(ss, n + 1, ss)) if ss else [n]
    if [r[0] for r in rows] != steps:
        raise Violation(f"{case}: records of steps {[r[0] for r in rows]} instead of {steps}")
    att = [0, 0]
    per_step = {}
    for s in range(1, n + 1):
        before, after = snaps[s]
        if s % stride == 0:
            x = np.array(before)
            dens = np.exp(-((x[:, None] - x[None, :]) ** 2) / (2 * BW**2)).sum(axis=1)
            b = np.log(dens) + np.array([ref.poly_energy(COEFFS, [v]) for v in x]) / KT
            b -= b.mean()
            if np.min(np.abs(b)) < 1e-10:
                raise AssertionError("ambiguous rate in the explored population")
            att[0] += int((b < 0).sum())
            att[1] += int((b > 0).sum())
        elif before != after:
            raise Violation(f"{case}: population changed in step {s}, stride is {stride}")
        # events overwrite a slot each; slots overwritten twice or by an equal walker hide some
        per_step[s] = (sum(a != b for a, b in zip(before, after)), tuple(att))
    changed = 0
    last = (0, 0)
    k = 0
    for s in range(1, n + 1):
        changed += per_step[s][0]
        if k < len(rows) and rows[k][0] == s:
            _, dup, dup_att, kill, kill_att = rows[k]
            if case.get("recalc"):
                # everybody is visited once per birth-death step; if all accept, every attempt is an event
                if dup_att + kill_att != N * (s // stride) or (case["fac"] > 1e5 and (dup, kill) != (dup_att, kill_att)):
                    raise Violation(f"{case}: record {rows[k]} of {s // stride} birth-death steps of {N} walkers")
            elif (dup_att, kill_att) != per_step[s][1]:
                raise Violation(f"{case}: record {rows[k]}, attempts should be {per_step[s][1]}")
            if dup < last[0] or kill < last[1] or not changed <= dup + kill <= dup_att + kill_att or dup > dup_att or kill > kill_att:
                raise Violation(f"{case}: record {rows[k]} after {changed} changed slots, previous successes {last}")
            last = (dup, kill)
            k += 1
    cov.trans(n)
    cov.trace()
    cov.state(str(case))


def gen_crowd(tier):
    for file in (True, False):
        yield dict(walkers=700, n=40, stride=1, ss=7, file=file)
        yield dict(walkers=301, n=50, stride=2, ss=None, file=file, fac=3.0)
        yield dict(walkers=5, n=650, stride=1, ss=50, file=file)
        yield dict(walkers=7, n=1201, stride=3, ss=100, file=file, fac=2.0)
        yield dict(walkers=6, n=260, stride=1, ss=None, file=file)
        yield dict(walkers=2000, n=40, stride=1, ss=8, file=file, fac=1e6)
        for N in (12, 40, 150):
            for fac in (1e7, 3.0):
                yield dict(walkers=N, n=9, stride=2, ss=3, file=file, fac=fac, recalc=True)
    yield dict(walkers=4, n=5003, stride=2, ss=1, file=True)
    yield dict(walkers=1900, n=40, stride=1, ss=13, file=True, fac=0.2)


def check_equal(case, cov):
    """walkers in the same place have no rate: nothing is attempted, nothing happens"""
    n, N, stride, ss = case["n"], case["walkers"], case["stride"], case["ss"]
    sec, files = sysb.potential(COEFFS, [(-4.0, 4.0)])
    text = inputs.text(
        ld=sysb.ld_section(dt=DT, n_steps=n, kt=KT),
        potential=sec,
        particles={"number": N, "initial-distribution": "fractions-pos", "pos1": [0.0], "fractions": [1.0]},
        birth_death={
            "stride": stride, "kernel-bandwidth": BW, "stats-stride": ss, "stats-filename": "stats" if case["file"] else None,
            "recalculate-probabilities": "true" if case["recalc"] else None, "approximation-variant": case.get("variant"),
        },
    )

    def script(step, ld):
        for i in range(N):
            # the other ones differ: one of them is judged
            sysb.set_walker(ld, i, [case["x"] if step in case["equal"] else XS[2][i % 2]])

    def run():
        with env.scratch(files), env.scripted_motion(script), env.choice_mode():
            res = env.run_main(text)
        if res.status != "ok":
            raise Violation(f"{case}: the run ended with {res.status}: {res.text()[-500:]}")
        return parse_stats(type("Rec", (), {"res": res, "files": res.files})(), "stats" if case["file"] else None)

    rate_of = rate_of_factory(2)
    # no event, so the order of the walkers has no effect: all orders for two of them, one order for more
    if N == 2:
        results = [res for res, _, _ in choice.explore(run, uniforms=[case["u"]], max_leaves=5000)]
    else:
        results = [sysb.with_draws(run, uniforms=[case["u"]])]
    for rows in results:
        r = rate_of(tuple(range(2)))
        births = sum(x < 0 for x in r) * N // 2
        want = []
        for s in range(1, n + 1):
            if ss and s % ss == 0 or not ss and s == n:
                active = len([k for k in range(stride, s + 1, stride) if k not in case["equal"]])
                want.append((s, 0, active * births, 0, active * (N - births)))
        if list(rows) != want:
            raise Violation(f"{case}: records {rows} instead of {want}")
        cov.trans(n)
        cov.trace()
        cov.outcome(rows)
    cov.state(str(case))


def gen_equal(tier):
    for recalc in (True, False):
        for file in (True, False):
            for N in (2, 4, 8):
                for x in (0.4, -1.3, 2.0):
                    yield dict(walkers=N, n=3, stride=1, ss=1, file=file, recalc=recalc, equal=[1, 2, 3], x=x, u=1e-9)
                # nobody accepts; only some steps have rates
                yield dict(walkers=N, n=4, stride=1, ss=2, file=file, recalc=recalc, equal=[2, 3], x=0.4, u=0.9999999)
                yield dict(walkers=N, n=5, stride=2, ss=None, file=file, recalc=recalc, equal=[2], x=0.4, u=0.9999999)
            # the multiplicative variant has none either, nor has a walker that is alone
            for variant in (None, "multiplicative"):
                for N in (1, 2, 4, 8):
                    yield dict(walkers=N, n=3, stride=1, ss=2, file=file, recalc=recalc, equal=[1, 2, 3], x=-0.7, u=1e-9, variant=variant)


def gen_trees(tier):
    for file in (True, False):
        for fac in (None, 3.0):
            mids = us(2, 1, fac or 1.0)
            yield dict(walkers=2, n=2, stride=1, ss=1, file=file, fac=fac, u=[mids[0], mids[1]])
            yield dict(walkers=2, n=2, stride=1, ss=None, file=file, fac=fac, u=[mids[0], mids[1]])
            yield dict(walkers=2, n=3, stride=2, ss=1, file=file, fac=fac, u=[mids[0], mids[0] * 1.5, mids[1]])
            mids = us(3, 1, fac or 1.0)
            yield dict(walkers=3, n=1, stride=1, ss=1, file=file, fac=fac, u=[mids[0], mids[1]])
            yield dict(walkers=3, n=1, stride=1, ss=1, file=file, fac=fac, u=[mids[2], mids[3]])
            yield dict(walkers=3, n=2, stride=1, ss=1, file=file, fac=fac, u=[mids[1]])
    for pop in (4, "flock"):
        mids = us(pop, 1, 1.0)
        yield dict(walkers=4, n=1, stride=1, ss=1, file=True, u=[mids[0]], pop=pop)
        yield dict(walkers=4, n=1, stride=1, ss=None, file=False, u=[mids[1]], pop=pop)
    if tier == "thorough":
        mids = us(2, 1, 1.0)
        yield dict(walkers=2, n=3, stride=1, ss=2, file=True, u=[mids[0], mids[1]])
        yield dict(walkers=2, n=3, stride=1, ss=1, file=False, u=[mids[0], mids[1]])


def gen_recalc(tier):
    """draws for which the walkers never all become equal, where rates vanish"""
    for n in (3, 4):
        for fac in (1.0, 4.0):
            for file in (True, False):
                for u in recalc_us(n, fac):
                    if n == 3:
                        yield dict(walkers=3, n=2, stride=1, ss=1, file=file, fac=fac, u=[u], recalc=True)
                        yield dict(walkers=3, n=1, stride=1, ss=None, file=file, fac=fac, u=[u, 0.9999999], recalc=True)
                    elif file:
                        yield dict(walkers=4, n=1, stride=1, ss=1, file=file, fac=fac, u=[u], recalc=True)


def recalc_us(n, fac):
    rate_of, prob = rate_of_factory(n), prob_of(1, fac)
    found = []
    ps = set()
    todo, seen = [tuple(range(n))], set()
    while todo:
        lab = todo.pop()
        if lab in seen or len(set(lab)) == 1:
            continue
        seen.add(lab)
        ps |= {prob(r) for r in rate_of(lab)}
        for i in range(n):
            for j in range(n):
                new = list(lab)
                new[j] = lab[i]
                todo.append(tuple(new))
    ps = sorted(p for p in ps if p > 0)
    cands = [(a + b) / 2 for a, b in zip(ps, ps[1:]) if b > a * 1.01] + [(1 + ps[-1]) / 2]
    for u in cands[::3]:
        ok = True

        def run():
            bad = []

            def rates(lab):
                r = rate_of(lab)
                # a walker still to be judged with a vanishing rate is ambiguous
                if any(abs(x) < 1e-9 for x in r):
                    bad.append(lab)
                return r

            ref.bd_step(tuple(range(n)), rates, prob, choice.ChoiceRNG(), True)
            return bool(bad)

        for bad, _, _ in choice.explore(run, uniforms=[u, 0.9999999]):
            if bad:
                ok = False
                break
        if ok:
            found.append(u)
    return found[:4]


FAMILIES = {
    "strides": (gen_strides, check, 8),
    "trees": (gen_trees, check, 1),
    "recalculating": (gen_recalc, check, 1),
    "rare": (gen_rare, check, 1),
    "crowd": (gen_crowd, check_crowd, 1),
    "long": (gen_long, check, 2),
    "equal": (gen_equal, check_equal, 4),
    "near": (gen_near, check, 2),
    "whole": whole.family("C14"),
}
