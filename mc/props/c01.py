"""C01: law of the birth-death events, by complete choice trees of the real step"""
import math
import types

import numpy as np

from .. import choice, covering, env, inputs, ref, sysb
from ..core import Violation, h64

RULE = (
    "a case = population + mode + alphabet of acceptance draws; all leaves of the choice tree (acceptance draw of "
    "every walker x visiting order x partner) are executed on the real step and the exact distribution over "
    "(final population, event list) is compared with the tree of the reference model"
)
ASSUMPTIONS = [
    "acceptance draws are uniform on [0,1): represented by alphabets straddling every acceptance threshold by a "
    "relative 1e-6",
    "the step consumes randomness through numpy's Generator interface",
]
BOUNDS = {
    "quick": "N=2..4 all draws (thresholds one at a time; two of 29 for N=4 with recalculation), N=12/25/60/130 with 1-3 candidates, N=24..300 with each walker accepting alone, N=15..90 with all accepting and one other draw changed, two consecutive steps for N=2,3, a step after 60 and 1010 quiet ones for N=2,3; all pairs of 14 settings and triples of the main ones together (N=2..65, dims 1-3, late steps)",
    "thorough": "as quick plus all thresholds for N=4, N up to 1100 with single acceptances, N=5 complete trees, joint threshold alphabets for N=3, three steps for N=2",
}

COEFFS = [0, 0.2, -4, 0, 1]
EPS = 1e-6

POPS = {
    # name: positions (1d), kt, bw, dt, stride, factor
    "pair": ([-1.3, 0.1], 1.0, 0.4, 0.01, 7, None),
    "pair-far": ([-2.4, 1.9], 2.0, 0.1, 0.02, 5, 2.5),
    "pair-equal": ([0.7, 0.7], 1.0, 0.4, 0.01, 10, None),
    "three": ([-1.4, -1.35, 1.0], 1.0, 0.5, 0.02, 10, None),
    "three-mixed": ([-1.5, 0.0, 2.3], 0.7, 0.3, 0.005, 4, 1.7),
    "three-twin": ([0.2, 0.2, -1.1], 1.5, 0.6, 0.05, 3, 0.4),
    "four": ([-1.5, -1.45, 0.3, 1.9], 1.3, 0.35, 0.01, 12, 0.8),
    "four-cluster": ([1.2, 1.25, 1.3, -2.0], 1.0, 0.8, 0.1, 2, None),
    # extreme time scales: rates of hundreds in short intervals, tiny rates in long ones
    "pair-steep": ([-1.3, 0.4], 0.01, 0.1, 1.3e-5, 7, 3.1),
    "three-steep": ([-1.3, 0.4, 2.2], 0.02, 0.1, 2.0e-5, 3, None),
    "three-slow": ([-1.5, 0.0, 2.3], 1.0, 0.3, 3e-7, 1, None),
    "pair-long": ([-0.3, 0.5], 80.0, 40.0, 4.5, 30, 0.7),
    # a stride of thousands of steps
    "pair-rare": ([-1.3, 0.1], 1.0, 0.4, 2e-5, 2500, None),
    "three-rare": ([-1.4, -1.35, 1.0], 1.0, 0.5, 1e-6, 120000, 0.9),
    # almost certain events
    "pair-sure": ([-1.3, 0.1], 1.0, 0.4, 0.5, 14, None),
    "three-sure": ([-1.5, 0.0, 2.3], 1.0, 0.3, 0.3, 10, 1.2),
    # large factors of the rates
    "pair-factor": ([-1.3, 0.1], 1.0, 0.4, 2e-9, 7, 8e6),
    "three-factor": ([-1.5, 0.0, 2.3], 0.7, 0.3, 1e-5, 2, 4.1e3),
    # unlikely and almost certain events together
    "three-fast": ([-1.5, 0.0, 2.3], 1.0, 0.3, 0.05, 6, None),
    "four-fast": ([-1.5, -1.45, 0.3, 1.1], 1.0, 0.35, 0.1, 8, None),
    "five": ([-2.0, -1.4, -1.3, 0.4, 1.5], 1.0, 0.3, 0.01, 9, 1.2),
}
POPS["many12"] = ([-2.3 + 0.37 * i + 0.05 * (i % 3) for i in range(12)], 1.0, 0.3, 0.01, 5, None)
POPS["many25"] = ([-2.4 + 0.19 * i + 0.04 * (i % 4) for i in range(25)], 1.0, 0.2, 0.01, 5, None)
POPS["many60"] = ([-2.4 + 0.08 * i + 0.03 * (i % 5) for i in range(60)], 1.0, 0.15, 0.01, 5, None)
POPS["many130"] = ([-2.4 + 0.037 * i + 0.013 * (i % 7) for i in range(130)], 1.0, 0.1, 0.01, 5, None)

_built = {}
POT = {
    1: {(i,): c for i, c in enumerate(COEFFS)},
    2: {(1, 0): 0.3, (2, 0): -1.0, (4, 0): 0.5, (0, 1): 0.1, (1, 1): 0.7, (0, 2): 0.8},
    3: {(1, 0, 0): 0.5, (0, 2, 0): 0.9, (1, 0, 1): -0.8, (0, 0, 2): 0.4, (2, 1, 0): 0.3},
}


def vec(x):
    return list(x) if isinstance(x, (list, tuple)) else [x]


def system(pop, recalc, ld="bussi-parinello", variant=None, before=0):
    """Actions from the input text; with before: after that many steps without any event"""
    key = (pop, recalc, ld, variant, before)
    if before and key not in _built:
        s = system(pop, recalc, ld, variant)

        def quiet():
            for _ in range(before):
                if s.bd.do_birth_death():
                    raise Violation("events although every acceptance draw is close to 1")

        for _ in choice.explore(quiet, uniforms=[1 - 1e-12]):
            break
        _built[key] = s
    if key not in _built:
        xs, kt, bw, dt, stride, fac = POPS[pop]
        opts = dict(type=ld, timestep=dt, n_steps=10)
        if ld == "bussi-parinello":
            opts.update(friction=3.0, kt=kt)
        dim = len(vec(xs[0]))
        sec, files = sysb.potential(POT[dim], [(-2.5, 2.5)] * dim)
        text = inputs.text(
            ld=opts,
            potential=sec,
            particles={"number": len(xs), "initial-distribution": "random-pos", "pos1": [0.5] * dim},
            birth_death={
                "stride": stride,
                "kernel-bandwidth": bw,
                "exponential-factor": fac,
                "recalculate-probabilities": "true" if recalc else None,
                "approximation-variant": variant,
            },
        )
        with env.choice_mode():
            for got, _, _ in choice.explore(lambda: env.build(text, files)):
                break
        if len(got.ld.particles) != len(xs):
            raise Violation(f"{len(got.ld.particles)} walkers instead of {len(xs)}")
        for i, (p, x) in enumerate(zip(got.ld.particles, xs)):
            p.pos[:] = vec(x)
            p.mom = sysb.momentum(p, 10.0 + i)
            p.mass = 1.0 + i
            p.energy, p.forces = got.ld.pot.evaluate(p.pos)
        env.rng_to_choice(got.bd)
        env.rng_to_choice(got.ld)
        # the actions share their walkers: copy them together
        _built[key] = types.SimpleNamespace(ld=got.ld, bd=got.bd)
    return env.snapshot(_built[key])


def model(pop, ld="bussi-parinello", variant=None):
    xs, kt, bw, dt, stride, fac = POPS[pop]
    if ld == "overdamped":
        kt = 1.0
    energy = [ref.poly_energy(POT[len(vec(x))], vec(x)) for x in xs]
    cache = {}

    if variant is None:

        def rate_of(labels):
            if labels not in cache:
                cache[labels] = ref.rates_original(
                    [vec(xs[i]) for i in labels], [energy[i] for i in labels], vec(bw), kt
                )
            return cache[labels]

    else:  # rates of the other variants are the subject of C02
        sys0 = system(pop, False, ld, variant)

        def rate_of(labels):
            if labels not in cache:
                s = env.snapshot(sys0)
                for p, i in zip(s.ld.particles, labels):
                    p.pos[:] = vec(xs[i])
                    p.energy = energy[i]
                cache[labels] = [float(b) for b in s.bd.calc_betas()]
            return cache[labels]

    def prob_of(rate):
        # rates that are zero up to rounding never cause events
        if abs(rate) < 1e-12:
            return 0.0
        return 1 - math.exp(-abs(rate) * dt * stride * (fac or 1.0))

    return rate_of, prob_of


def thresholds(pop, recalc, ld="bussi-parinello", variant=None):
    """All acceptance probabilities that can be met in a step"""
    rate_of, prob_of = model(pop, ld, variant)
    n = len(POPS[pop][0])
    seen = set()
    todo = [tuple(range(n))]
    res = set()
    while todo:
        lab = todo.pop()
        if lab in seen:
            continue
        seen.add(lab)
        res |= {prob_of(r) for r in rate_of(lab)}
        if recalc:
            for i in range(n):
                for j in range(n):
                    new = list(lab)
                    new[j] = lab[i]
                    if tuple(new) not in seen:
                        todo.append(tuple(new))
    out = []
    for p in sorted(res):
        if p > 0 and p < 1 - 1e-10 and (not out or p > out[-1] * (1 + 5 * EPS)):
            out.append(p)
    return out


def real_step(pop, recalc, ld, variant, n_steps=1, via=None, before=0):
    xs, stride = POPS[pop][0], POPS[pop][4]

    def run():
        s = system(pop, recalc, ld, variant, before)
        all_events = []
        ident = s.ld.particles
        for k in range(n_steps):
            if via == "run":  # as in the main loop, which does not get the events
                s.bd.run(stride * (before + k + 1))
                continue
            events = s.bd.do_birth_death()
            all_events.append(tuple((int(a), int(b)) for a, b in events))
        if s.bd.particles is not ident:
            # the population is shared between integrator and birth-death
            if [id(p) for p in s.bd.particles] != [id(p) for p in s.ld.particles]:
                raise Violation("integrator and birth-death step hold different walkers")
        labels = []
        for p in s.ld.particles:
            i = int(round(float(p.mass))) - 1
            if not (0 <= i < len(xs)) or list(p.pos) != vec(xs[i]) or np.any(p.mom != 10.0 + i):
                raise Violation(f"walker is no copy of an original: pos {p.pos} mom {p.mom} mass {p.mass}")
            labels.append(i)
        return tuple(labels), tuple(all_events)

    return run


def ref_step(pop, recalc, ld, variant, n_steps=1, via=None):
    rate_of, prob_of = model(pop, ld, variant)
    n = len(POPS[pop][0])

    def run():
        labels = list(range(n))
        ev = []
        for _ in range(n_steps):
            labels, events, _ = ref.bd_step(labels, rate_of, prob_of, choice.ChoiceRNG(), recalc)
            ev.append(tuple(events))
        return tuple(labels), () if via == "run" else tuple(ev)

    return run


def check(case, cov):
    pop, recalc = case["pop"], case["recalc"]
    ld, variant = case.get("ld", "bussi-parinello"), case.get("variant")
    steps = case.get("steps", 1)
    u = case["u"]
    limit = case.get("limit", 300000)
    via = case.get("via")
    real = {}
    leaves = 0
    run = real_step(pop, recalc, ld, variant, steps, via, case.get("before", 0))
    for res, w, ch in choice.explore(run, uniforms=u, max_leaves=limit):
        real[res] = real.get(res, 0) + w
        leaves += 1
        cov.trans(len(ch))
        # the reported events explain the population
        if via == "run":
            continue
        labels = list(range(len(res[0])))
        for evs in res[1]:
            for a, b in evs:
                if a == b:
                    raise Violation(f"walker {a} copied onto itself, events {evs}, choices {ch}")
                labels[b] = labels[a]
        if tuple(labels) != res[0]:
            raise Violation(f"events {res[1]} reported, but population became {res[0]} (sources per slot)")
    want = choice.distribution(
        choice.explore(ref_step(pop, recalc, ld, variant, steps, via), uniforms=u, max_leaves=4 * limit)
    )
    diff = choice.compare_distributions(real, want)
    if diff:
        rates = model(pop, ld, variant)[0](tuple(range(len(POPS[pop][0]))))
        raise Violation(f"(final sources per slot, events): {diff}; initial rates {rates}")
    cov.trace(leaves)
    for k in real:
        cov.state((pop, recalc, ld, variant, k[0]))
        cov.outcome((pop, recalc, ld, variant, k))
    cov.sample(f"{case}: {leaves} executions, {len(real)} distinct (population, events) outcomes")


def straddle(t):
    if t > 0.999:
        return [1 - (1 - t) * (1 + 1e-3), 1 - (1 - t) * (1 - 1e-3)]
    return [t * (1 - EPS), min(t * (1 + EPS), 1 - 1e-12)]


def gen_threshold(tier):
    for pop in ("pair", "pair-far", "pair-equal", "pair-steep", "pair-long", "pair-rare", "pair-sure", "pair-factor", "three", "three-sure", "three-factor", "three-rare", "three-mixed", "three-twin", "three-steep", "three-slow", "four", "four-cluster"):
        for recalc in (False, True):
            ts = thresholds(pop, recalc) or [0.5]
            if tier == "quick" and recalc and pop.startswith("four"):
                # 29 thresholds with 24 orders x 2^4 draws x partners each: the extreme ones
                ts = thresholds(pop, False)[-2:]
            for t in ts:
                yield dict(pop=pop, recalc=recalc, u=straddle(t))
    for pop in ("pair", "three"):
        for recalc in (False, True):
            for t in thresholds(pop, recalc, "overdamped"):
                yield dict(pop=pop, recalc=recalc, ld="overdamped", u=straddle(t))
    for variant in ("add", "mult"):
        for recalc in (False, True):
            for t in thresholds("three-mixed", recalc, variant=variant):
                yield dict(pop="three-mixed", recalc=recalc, variant=variant, u=straddle(t))


def gen_full(tier):
    """everything can be accepted or rejected by every walker"""
    for pop in ("pair", "pair-far", "three", "three-mixed", "three-twin", "three-fast", "four", "four-cluster", "four-fast"):
        for recalc in (False, True):
            yield dict(pop=pop, recalc=recalc, u=[1e-9, 1 - 1e-9])
    for pop in ("pair", "pair-far") + (("three", "three-mixed") if tier == "thorough" else ()):
        for recalc in (False, True):
            t = thresholds(pop, False)
            yield dict(pop=pop, recalc=recalc, u=sorted(x for p in t for x in straddle(p)))
    for pop in ("pair", "pair-far", "three", "three-twin"):
        for recalc in (False, True):
            yield dict(pop=pop, recalc=recalc, u=[1e-9, 1 - 1e-9], via="run")
            yield dict(pop=pop, recalc=recalc, u=straddle(thresholds(pop, False)[0]), via="run")
    if tier == "thorough":
        yield dict(pop="five", recalc=False, u=[1e-9, 1 - 1e-9], limit=10**6)
        yield dict(pop="five", recalc=True, u=[1e-9, 1 - 1e-9], limit=10**6)
        for t in thresholds("five", False):
            yield dict(pop="five", recalc=False, u=straddle(t), limit=10**6)


def gen_many(tier):
    for pop in ("many12", "many25"):
        t = sorted(thresholds(pop, False), reverse=True)
        for k in (0, 1, 2) if tier == "thorough" or pop == "many12" else (0, 1):
            # exactly the k+1 largest probabilities accept
            yield dict(pop=pop, recalc=False, u=[(t[k] + t[k + 1]) / 2])
    for pop, ks in (("many60", (0, 1)), ("many130", (0,))):
        t = sorted(thresholds(pop, False), reverse=True)
        for k in ks:
            yield dict(pop=pop, recalc=False, u=[(t[k] + t[k + 1]) / 2])


def gen_repeat(tier):
    for pop in ("pair", "pair-far", "three", "three-mixed"):
        for recalc in (False, True):
            t = thresholds(pop, False)
            u = [(t[0] + t[-1]) / 2] if pop.startswith("three") and tier == "quick" else [1e-9, 1 - 1e-9]
            yield dict(pop=pop, recalc=recalc, u=u, steps=2, limit=400000)
            if pop.startswith("three"):
                # everybody acts in both steps
                yield dict(pop=pop, recalc=recalc, u=[1e-9], steps=2)
    if tier == "thorough":
        for recalc in (False, True):
            yield dict(pop="pair", recalc=recalc, u=[1e-9, 1 - 1e-9], steps=3)


def gen_late(tier):
    for before in (60, 1010) if tier == "quick" else (1, 2, 7, 60, 127, 1010, 5000):
        for pop in ("pair", "three"):
            for recalc in (False, True):
                for via in (None, "run"):
                    yield dict(pop=pop, recalc=recalc, u=[1e-9, 1 - 1e-9], before=before, via=via)


def wide(n):
    pop = f"wide{n}"
    if pop not in POPS:
        POPS[pop] = ([-2.4 + (4.8 * i) / n + 0.013 * (i % 7) for i in range(n)], 1.0, 0.1, 0.01, 5, None)
    return pop


def check_single(case, cov):
    """Large populations: exactly one walker accepts, in turn each of them

    The draws that cause events have to belong to different walkers, all walkers with a
    rate have one; the partner of a walker is any other with the same probability."""
    n = case["n"]
    pop, recalc = wide(n), case["recalc"]
    rates = model(pop)[0](tuple(range(n)))
    run = real_step(pop, recalc, "bussi-parinello", None)
    owner = {}
    execs = 0
    u = [1 - 1e-12, 1e-9]
    for j, (labels, (events,)) in choice.single_deviations(run, "u", uniforms=u):
        execs += 1
        cov.trans()
        if j is None:
            if events or labels != tuple(range(n)):
                raise Violation(f"{case}: events {events} although every acceptance draw is close to 1")
            continue
        if not events:
            continue
        if len(events) > 1:
            raise Violation(f"{case}: one accepted draw causes the events {events}")
        (a, b), = events
        # default partner is some other walker; the own role follows from the sign of the rate
        cand = [w for w in (a, b) if abs(rates[w]) > 1e-12 and (w == b) == (rates[w] > 0)]
        owner[j] = (a, b, cand)
        cov.state((repr(case), a, b))
    # enumerate the partners of some draws completely: the walker that stays fixed is the owner
    base = sorted(owner)
    partners = {}
    for j in base[:: max(1, len(base) // case["full"])] + base[-1:]:
        by_draw = {}
        first = None
        for k, (labels, (events,)) in choice.after_deviation(run, j, 1, uniforms=u):
            execs += 1
            cov.trans()
            if len(events) != 1:
                raise Violation(f"{case}: one accepted draw causes the events {events}")
            if k is None:
                first = events[0]
            by_draw.setdefault(k, []).append(events[0])
        # draws that only concern the visiting order change nothing here
        effect = [k for k, ev in by_draw.items() if set(ev) != {first}]
        seen = {first: 1}
        for k in effect:
            for e in by_draw[k]:
                seen[e] = seen.get(e, 0) + 1
        own = [w for w in owner[j][2] if all(w in e for e in seen)]
        if len(own) != 1:
            raise Violation(f"{case}: draw {j} causes {sorted(seen)[:4]}..., no walker with a fitting rate takes part in all")
        w = own[0]
        want = {((w, x) if rates[w] < 0 else (x, w)) for x in range(n) if x != w}
        if set(seen) != want or (len(effect) == 1 and max(seen.values()) > 1):
            raise Violation(
                f"{case}: partners of walker {w} (rate {rates[w]}): {len(seen)} of {n - 1} reached, "
                f"missing {sorted(want - set(seen))[:4]}, drawn more than once {[e for e in seen if seen[e] > 1][:4]}"
            )
        partners[j] = w
        cov.count("partner lists enumerated")
    # all walkers with a rate have a draw of their own: match draws and walkers
    need = {w for w in range(n) if abs(rates[w]) > 1e-9}
    taken = {}

    def place(j, visited):
        for w in [partners[j]] if j in partners else owner[j][2]:
            if w not in visited:
                visited.add(w)
                if w not in taken or place(taken[w], visited):
                    taken[w] = j
                    return True
        return False

    for j in base:
        if not place(j, set()):
            raise Violation(f"{case}: draw {j} causes {owner[j][:2]}, but every walker in it owns another draw or has no fitting rate")
    if not need <= set(taken):
        raise Violation(f"{case}: no acceptance draw lets the walkers {sorted(need - set(taken))[:6]} act alone, rates {[rates[w] for w in sorted(need - set(taken))[:6]]}")
    cov.trace(execs)
    cov.sample(f"{n} walkers, each accepting alone: {execs} executions")


def gen_single(tier):
    for n, full in ((60, 6), (130, 4), (300, 2)) if tier == "quick" else ((60, 60), (130, 40), (300, 10), (1100, 2)):
        yield dict(n=n, full=full, recalc=False)
    for n, full in ((24, 4),) if tier == "quick" else ((24, 24), (60, 4)):
        yield dict(n=n, full=full, recalc=True)


def unmatched(options):
    """Index of an entry that cannot get one of its options for itself, None if there is none"""
    taken = {}

    def place(t, visited):
        for w in options[t]:
            if w not in visited:
                visited.add(w)
                if w not in taken or place(taken[w], visited):
                    taken[w] = t
                    return True
        return False

    for t in range(len(options)):
        if not place(t, set()):
            return t
    return None


def check_order(case, cov):
    """Large populations in which everybody accepts: one integer draw after the other takes other values

    The events of every execution have to be those of some visiting order, and the first
    event can be that of any walker."""
    n, recalc = case["n"], case["recalc"]
    pop = case["pop"] if "pop" in case else wide(n)
    ld, variant = case.get("ld", "bussi-parinello"), case.get("variant")
    rate_of, prob_of = model(pop, ld, variant)
    rates = rate_of(tuple(range(n)))
    # all draws are equal: those with a rate of at least the limit accept
    limit = 1e-9
    u = [1e-13]
    if case.get("share"):
        order = sorted(abs(r) for r in rates)
        k = int((1 - case["share"]) * n)
        while k < n - 1 and order[k] - order[k - 1] < 1e-5 * order[k]:
            k += 1  # not between equal rates
        limit = (order[k - 1] + order[k]) / 2
        u = [prob_of(limit)]
        if not 1e-7 < u[0] < 1 - 1e-6:  # (almost) all or nobody
            limit, u = 1e-9, [1e-13]
    active = {w for w in range(n) if abs(rates[w]) > limit}
    run = real_step(pop, recalc, ld, variant, before=case.get("before", 0))
    first, always = set(), None
    xs, kt, bw = POPS[pop][:3]
    if ld == "overdamped":
        kt = 1.0
    kern = np.array([[ref.kernel([a - b for a, b in zip(vec(x), vec(y))], vec(bw)) for y in xs] for x in xs])
    energy = np.array([ref.poly_energy(POT[len(vec(x))], vec(x)) for x in xs]) / kt

    def current(labels):
        if variant:
            return np.array(rate_of(tuple(labels)))
        b = np.log(kern[np.ix_(labels, labels)].mean(axis=1)) + energy[labels]
        return b - b.mean()

    execs = 0
    seen = set()
    for k, (labels, (events,)) in choice.integer_deviations(run, case["alts"], uniforms=u):
        execs += 1
        cov.trans(len(events))
        seen.add(h64(events))
        if not events:
            raise Violation(f"{case}: no event although everybody accepts")
        now = list(range(n))
        options = []
        below = set()  # walkers that can have been visited without effect
        for a, b in events:
            if recalc:  # rates change after every event
                r = current(now)
                options.append([w for w in (a, b) if abs(r[w]) > limit * (1 - 1e-6) and (w == b) == (r[w] > 0)])
                below |= set(np.flatnonzero(abs(r) < limit * (1 + 1e-6)))
            now[b] = now[a]
        if tuple(now) != labels:
            raise Violation(f"{case}: events {events} reported, but population became {labels} (sources per slot)")
        first |= set(events[0])
        always = set(events[0]) if always is None else always & set(events[0])
        if recalc:
            lost = unmatched(options)
            if lost is not None:
                raise Violation(f"{case}: event {events[lost]} (number {lost}) has no walker of its own that causes it with the rates after the events before: {events}")
            below |= set(np.flatnonzero(abs(current(now)) < limit * (1 + 1e-6)))
            must = [w for w in range(n) if w not in below]
            lost = unmatched([[t for t, opt in enumerate(options) if w in opt] for w in must])
            if lost is not None:
                raise Violation(f"{case}: walker {must[lost]} would accept at any time of the step, but caused no event: {events}")
            cov.state((repr(case), k, events[0]))
            continue
        # every event needs a walker that causes it: not overwritten before, right sign, only once
        killed = {}
        for t, (a, b) in enumerate(events):
            killed.setdefault(b, t)
        options = []
        for t, (a, b) in enumerate(events):
            opt = [w for w in (a, b) if w in active and (w == b) == (rates[w] > 0) and killed.get(w, n * n) >= t]
            options.append(opt)
        lost = unmatched(options)
        if lost is not None:
            raise Violation(f"{case}: event {events[lost]} (number {lost}) has no walker of its own that causes it: {events}")
        # all that were not overwritten cause an event (both together: Mendelsohn-Dulmage)
        alive = [w for w in active if w not in killed]
        lost = unmatched([[t for t, opt in enumerate(options) if w in opt] for w in alive])
        if lost is not None:
            raise Violation(f"{case}: walker {alive[lost]} accepted and was not overwritten, but caused no event: {events}")
        cov.state((repr(case), k, events[0]))
    if not active <= first and not case.get("share"):
        raise Violation(f"{case}: the first event of a step never involves the walkers {sorted(active - first)[:6]}, the visiting order is not random")
    if always and not case.get("share"):
        raise Violation(f"{case}: the first event of a step always involves the walkers {sorted(always)}, the visiting order is not random")
    cov.count("event lists", len(seen))
    cov.trace(execs)
    cov.sample(f"{case}: {execs} executions, {len(seen)} different event lists")


def gen_order(tier):
    for n in (15, 40, 90) if tier == "quick" else (15, 40, 90, 250):
        yield dict(n=n, alts=3 if tier == "quick" else 12, recalc=False)
    for n in (15, 25) if tier == "quick" else (15, 25, 60):
        yield dict(n=n, alts=2, recalc=True)
    for n in (40, 70) if tier == "quick" else (40, 70, 150):
        for share in (0.7, 0.5, 0.3):
            yield dict(n=n, alts=2, recalc=True, share=share)
            yield dict(n=n, alts=2, recalc=False, share=share)


FACTORS = {
    "ld": ["bussi-parinello", "overdamped"],
    "dim": [1, 2, 3],
    "n": [2, 3, 8, 30, 65],
    "recalc": [False, True],
    "variant": [None, "add", "mult"],
    "kt": [0.3, 1.0, 4.0],
    "bw": [0.12, 0.4, 1.3],
    "aniso": [False, True],
    "dt": [5e-4, 0.02, 0.6],
    "stride": [1, 7, 40],
    "fac": [None, 0.3, 0.01, 6.0],
    "before": [0, 2, 55, 1005],
    "twins": [False, True],
    "uses": ["some", "all"],
}


def together_ok(c):
    # the density of the variants is tabulated: more dimensions take minutes (C02 has some); quiet steps before recalculating cost as much as many steps
    # no certain events
    if c["dt"] * c["stride"] * (c["fac"] or 1.0) > 0.5:
        return False
    if c["variant"] and c["recalc"] and c["n"] > 30:
        return False
    return not (c["variant"] and c["dim"] > 1) and c["n"] * c["before"] <= (9000 if not c["recalc"] else 5000)


def check_together(case, cov):
    """All settings together: complete trees of small populations, some draws of large ones"""
    n, dim = case["n"], case["dim"]
    pop = "t:" + repr(sorted((k, str(v)) for k, v in case.items()))
    xs = [[-2.2 + (4.4 * (0.618 * (i - i % 2 if case["twins"] and i < 4 else i) + 0.29 * d)) % 4.4 for d in range(dim)] for i in range(n)]
    bw = [case["bw"] * (1 + 0.6 * d * case["aniso"]) for d in range(dim)]
    POPS[pop] = (xs, case["kt"], bw, case["dt"], case["stride"], case["fac"])
    more = dict(pop=pop, ld=case["ld"], variant=case["variant"], before=case["before"], recalc=case["recalc"])
    rate_of, prob_of = model(pop, case["ld"], case["variant"])
    t = [x for x in thresholds(pop, False, case["ld"], case["variant"]) if 1e-7 < x < 1 - 1e-6]
    if n <= 3:
        check(dict(more, u=straddle(t[len(t) // 2]) if t and case["uses"] == "some" else [1e-9, 1 - 1e-9] if case["uses"] == "all" else [0.5]), cov)
    elif not case["recalc"] and case["uses"] == "some" and n <= 30 and len(t) > 2 and sum(prob_of(r) > t[-3] * (1 + EPS) for r in rate_of(tuple(range(n)))) <= 2:
        check(dict(more, u=[(t[-2] + t[-3]) / 2]), cov)
    else:
        check_order(dict(more, n=n, alts=1, share=0.5 if case["uses"] == "some" else 0.95), cov)
    for key in [k for k in _built if k[0] == pop]:
        del _built[key]
    del POPS[pop]


def gen_together(tier):
    out = covering.covering(FACTORS, 2, together_ok)
    few = {"fac": [None, 0.3], "dt": FACTORS["dt"][:2], "stride": [1, 7], "kt": [0.3, 1.0], "bw": [0.12, 0.4], "ld": FACTORS["ld"][:1], "aniso": [True]}
    return out + covering.covering({**FACTORS, **few}, 3, together_ok, tries=2)


FAMILIES = {
    "full": (gen_full, check, 1),
    "threshold": (gen_threshold, check, 1),
    "many": (gen_many, check, 1),
    "repeat": (gen_repeat, check, 1),
    "late": (gen_late, check, 1),
    "single": (gen_single, check_single, 1),
    "order": (gen_order, check_order, 1),
    "together": (gen_together, check_together, 1),
}
