"""C02: rates of every placement on a lattice, against the closed formulas"""
import itertools
import math

import numpy as np

from .. import covering, env, ref, sysb
from ..core import Violation

RULE = (
    "a state = (dimension, bandwidths, kT, variant, placement of the walkers); one birth-death action per configuration "
    "is carried through all placements of the lattice (every multiset of sites, every order up to 4 walkers) and its "
    "rates are compared with the closed formulas after each change"
)
ASSUMPTIONS = [
    "the equilibrium density is tabulated; at table nodes the terms are those of the discrete convolution with the "
    "Gaussian cut at 5 sigma, between nodes they are only required to lie between the neighbouring nodes up to curvature",
    "linear interpolation in two and three dimensions is judged on nodes and cell edges, where it is unambiguous",
]
BOUNDS = {
    "quick": "dims 1-3, N = 1..4 all orders of all multisets of 6-8 sites, N=5..5000 selected, N=10000 and 10001; 3 variants; every variant with N=1..260 in all triples of 7 circumstances",
    "thorough": "as quick with more sites, all multisets up to N=5, N=10001 in 1-3 dimensions",
}


# ---------------------------------------------------------------- original
SITES = {
    1: [[-2.0], [-1.3], [-0.1], [0.0], [0.7], [2.4], [30.0], [0.7 + 1e-7]],
    2: [[0.0, 0.0], [1.5, -0.2], [-0.3, 1.1], [1.5, 1.1], [-2.0, 2.0], [0.4, -25.0]],
    3: [[0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 0.5, 0.0], [0.0, 0.0, -0.25], [1.0, 0.5, -0.25], [-1.7, 0.6, 1.9]],
}
COEFFS = {
    1: {(0,): 0.3, (1,): 0.2, (2,): -4.0, (4,): 1.0},
    2: {(0, 0): 1.0, (1, 0): 0.3, (2, 0): -2.0, (0, 1): 0.1, (1, 1): 1.0, (0, 2): 0.4},
    3: {(0, 0, 0): 0.5, (1, 0, 0): 2.0, (0, 2, 0): -1.0, (0, 0, 3): 0.6, (1, 1, 1): 0.4},
}
BWS = {1: [[0.4], [0.1], [2.5]], 2: [[0.5, 0.3], [0.2, 1.4], [1.0, 1.0]], 3: [[0.4, 0.7, 1.1], [2.0, 0.5, 0.3]]}

# further ones, only for small populations
MORE = {1: [[0.013], [60.0]], 2: [[0.02, 2.0], [3.0, 0.04], [0.05, 0.05]], 3: [[0.6, 0.6, 0.6], [0.03, 1.5, 3.0], [2.0, 2.0, 0.02], [0.4, 0.4, 1.2]]}


def place(s, sites):
    for i, x in enumerate(sites):
        sysb.set_walker(s.ld, i, x)


def rates(s):
    r = np.asarray(s.bd.calc_betas(), float)
    if r.shape != (len(s.ld.particles),):
        raise Violation(f"rates of shape {r.shape} for {len(s.ld.particles)} walkers")
    return r


def bw_opt(bw):
    return bw[0] if len(bw) == 1 else bw


def scaled(coeffs, f):
    """the same potential for coordinates in other units"""
    return {k: c / f ** sum(k) for k, c in coeffs.items()}


def system(n, dim, bw, kt, kind="bussi-parinello", unit=1.0, **bd):
    sec, files = sysb.potential(scaled(COEFFS[dim], unit), [(-2.5 * unit, 2.5 * unit)] * dim)
    ld = sysb.ld_section(kind, kt=kt)
    return sysb.build(
        n, dim, sec, files, ld=ld, birth_death={"stride": 5, "kernel-bandwidth": bw_opt(bw), **bd}
    )


def expect(got, want, what):
    scale = 1 + np.max(np.abs(want))
    if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > 1e-9 * scale:
        raise Violation(f"{what}: rates {got.tolist()} instead of {list(map(float, want))}")


def check_orig(case, cov):
    dim, n, bw, kt = case["dim"], case["n"], case["bw"], case["kt"]
    kind = case.get("kind", "bussi-parinello")
    unit = case.get("unit", 1.0)
    bw = [unit * x for x in bw]
    coeffs = scaled(COEFFS[dim], unit)
    s = system(n, dim, bw, kt, kind, unit)
    kt = 1.0 if kind == "overdamped" else kt
    sites = [[unit * x for x in z] for z in SITES[dim][: case["sites"]]]
    for combo in itertools.combinations_with_replacement(range(len(sites)), n):
        base = None
        for order in sorted(set(itertools.permutations(combo))) if n <= 4 else [combo, combo[::-1], combo[2:] + combo[:2]]:
            xs = [sites[i] for i in order]
            place(s, xs)
            got = rates(s)
            want = ref.rates_original(xs, [ref.poly_energy(coeffs, x) for x in xs], bw, kt)
            expect(got, np.array(want), f"{case} walkers at {xs}")
            by_site = {i: float(r) for i, r in zip(order, got)}
            if base is None:
                base = by_site
            elif any(abs(base[i] - by_site[i]) > 1e-9 * (1 + abs(base[i])) for i in base):
                raise Violation(f"{case} rates depend on the order of the walkers: {base} vs {by_site}")
            cov.trans()
        cov.state((dim, n, tuple(bw), kt, combo))
        cov.trace()
    cov.sample(f"{case}: all multisets of {len(sites)} sites")


def gen_orig(tier):
    more = tier == "thorough"
    for dim in (1, 2, 3):
        for bw in BWS[dim]:
            for kt in (1.0, 0.37, 5.0):
                for n in (1, 2, 3):
                    yield dict(dim=dim, n=n, bw=bw, kt=kt, sites=8)
            for kt in (0.02, 1e-4, 300.0, 2e5):
                yield dict(dim=dim, n=2, bw=bw, kt=kt, sites=8)
            yield dict(dim=dim, n=4, bw=bw, kt=1.0, sites=8 if more else 5)
            if more:
                yield dict(dim=dim, n=5, bw=bw, kt=0.8, sites=8)
        for bw in MORE[dim]:
            for n in (1, 2, 3):
                yield dict(dim=dim, n=n, bw=bw, kt=0.9, sites=8)
        yield dict(dim=dim, n=2, bw=BWS[dim][0], kt=1.0, sites=8, kind="overdamped")
        for unit in (2000.0, 1e6, 1e-3, 1e-6):
            for n in (1, 2, 3):
                yield dict(dim=dim, n=n, bw=BWS[dim][0], kt=0.8, sites=6, unit=unit)


def check_many(case, cov):
    """larger populations, among them those above the limit of the pairwise matrix"""
    dim, n, bw, kt = case["dim"], case["n"], case["bw"], case["kt"]
    kinds = case["kinds"]
    unit = case.get("unit", 1.0)
    bw = [unit * x for x in bw]
    sites = [[unit * x for x in z] for z in SITES[dim][:kinds]]
    b = env.load()
    s = system(2, dim, bw, kt, unit=unit)
    # walkers are spread unevenly over few sites, so the exact density is a short sum
    which = [(i * i + i // 3) % kinds for i in range(n)]
    parts = []
    for k in which:
        p = b.bussi_parinello_ld.BpldParticle(list(sites[k]))
        p.energy, p.forces = s.ld.pot.evaluate(p.pos)
        parts.append(p)
    with env.quiet():
        bd = b.birth_death.BirthDeath(parts, 0.01, 5, np.array(bw), kt)
    got = np.asarray(bd.calc_betas(), float)
    if got.shape != (n,):
        raise Violation(f"rates of shape {got.shape} for {n} walkers")
    cnt = [which.count(k) for k in range(kinds)]
    beta = []
    for k in range(kinds):
        rho = sum(c * ref.kernel([x - y for x, y in zip(sites[k], z)], bw) for c, z in zip(cnt, sites)) / n
        beta.append(math.log(rho) + ref.poly_energy(scaled(COEFFS[dim], unit), sites[k]) / kt)
    mean = sum(c * x for c, x in zip(cnt, beta)) / n
    expect(got, np.array([beta[k] - mean for k in which]), f"{n} walkers in {dim} dimensions")
    cov.trans(n)
    cov.trace()
    cov.state((dim, n, tuple(bw), kt))
    cov.outcome((dim, n))


def gen_huge(tier):
    yield dict(dim=2, n=10001, bw=[0.5, 0.3], kt=1.3, kinds=5)
    if tier == "thorough":
        yield dict(dim=1, n=10001, bw=[0.4], kt=1.3, kinds=6)
        yield dict(dim=3, n=10001, bw=[0.4, 0.7, 1.1], kt=0.9, kinds=6)
        yield dict(dim=3, n=10000, bw=[0.4, 0.7, 1.1], kt=0.9, kinds=6)
    yield dict(dim=1, n=10000, bw=[0.4], kt=1.3, kinds=6)


def gen_many(tier):
    for dim in (1, 2, 3):
        for n in (5, 7, 8, 12, 40, 64, 100, 101, 128, 200, 333, 500, 1000, 1001, 1500, 2500, 5000):
            for bw in BWS[dim] if n <= 1500 else BWS[dim][:1]:
                yield dict(dim=dim, n=n, bw=bw, kt=0.8, kinds=6)
        for bw in MORE[dim]:
            for n in (12, 130):
                yield dict(dim=dim, n=n, bw=bw, kt=0.9, kinds=6)
        for n in (7, 101, 1001):
            for unit in (2000.0, 1e-3):
                yield dict(dim=dim, n=n, bw=BWS[dim][0], kt=0.8, kinds=6, unit=unit)


def check_density(case, cov):
    """all implementations of the walker density that exist agree with the formula"""
    b = env.load()
    dim, bw = case["dim"], np.array(case["bw"])
    for n in (1, 2, 3):
        for combo in itertools.product(SITES[dim][:6], repeat=n):
            pos = np.array(combo)
            want = np.array(ref.kde(combo, case["bw"]))
            for name in ("walker_density", "_walker_density_manual", "_walker_density_pdist"):
                fn = getattr(b.birth_death, name, None)
                if fn is None:
                    continue
                try:
                    got = np.asarray(fn(pos.copy(), bw.copy()))
                except TypeError:
                    if name[0] != "_":
                        raise
                    continue  # internal routine with another signature; judged through the rates
                if got.shape != (n,) or np.max(np.abs(got - want) / want) > 1e-10:
                    raise Violation(f"{name} at {pos.tolist()} bandwidth {bw} is {got} instead of {want}")
                cov.trans()
            cov.state((dim, tuple(case["bw"]), combo.__repr__()))
    cov.trace()


def gen_density(tier):
    for dim in (1, 2, 3):
        for bw in BWS[dim] + MORE[dim]:
            yield dict(dim=dim, bw=bw)


# ---------------------------------------------------------------- tabulated terms, 1D through the input
def conv_1d(pi, h, bw, more=0):
    """discrete K*pi with the Gaussian cut at 5 sigma"""
    m = int(round(5 * bw / h)) + more
    k = np.exp(-((np.arange(-m, m + 1) * h) ** 2) / (2 * bw * bw)) / (math.sqrt(2 * math.pi) * bw)
    n = len(pi)
    out = np.zeros(n)
    for i in range(n):
        lo, hi = max(0, i - m), min(n, i + m + 1)
        out[i] = np.dot(pi[lo:hi], k[lo - i + m : hi - i + m]) * h
    return out


def boltzmann(coeffs, xs, kt, vol):
    u = np.array([ref.poly_energy(coeffs, x) for x in xs]) / kt
    w = np.exp(-(u - u.min()))
    return w / (w.sum() * vol)


POT1 = {
    "double-well": {(0,): 0.0, (1,): 0.2, (2,): -4.0, (4,): 1.0},
    "slope": {(0,): 0.0, (1,): -1.5},
    "shifted": {(0,): 12.0, (1,): 1.0, (2,): 3.0},
}


def check_1d(case, cov):
    h = case["h"]
    lo = case["lo"]
    S = case.get("steps", 500)  # of the tabulated density
    st = S // 100  # per step of the table of the correction
    hi = lo + S * h
    bw, kt, variant = case["bw"], case["kt"], case["variant"]
    coeffs = POT1[case["pot"]]
    sec, files = sysb.potential(coeffs, [(lo, hi)])
    n = 3
    key = case.get("key", "approximation-variant")
    s = sysb.build(
        n, 1, sec, files, start=[lo], ld=sysb.ld_section(kt=kt),
        birth_death={"stride": 5, "kernel-bandwidth": bw, key: variant},
    )
    x = lo + h * np.arange(S + 1)
    pi = boltzmann(coeffs, x[:, None], kt, h)
    add = variant.startswith("add")

    def tabulate(more):
        conv = conv_1d(pi, h, bw, more)
        if not add:
            return -np.log(conv)
        log = np.log(conv / pi)
        prod = log * pi
        return -log + h * (prod.sum() - (prod[0] + prod[-1]) / 2)

    table = tabulate(0)
    # how many points of the kernel are within 5 sigma is a matter of rounding unless its width is a multiple of the step
    cut = 0 * table if case["exact"] else np.maximum(np.abs(tabulate(-1) - table), np.abs(tabulate(1) - table))
    nodes = range(0, S + 1, st * case["every"])
    inner = {}
    for i in nodes:
        inner[float(x[i])] = (table[i], 2e-6 * (1 + abs(table[i])) + cut[i])
    for i in list(nodes)[:-1]:
        for f in (0.2, 0.5, 0.9):
            t = table[i] + f * (table[i + st] - table[i]) if i + st <= S else table[i]
            curv = np.ptp(table[i : i + st + 1])
            bend = np.max(np.abs(np.diff(table[max(0, i - st) : i + 2 * st + 1 : st], 2))) if st <= i <= S - 2 * st else curv
            inner[float(x[i] + f * st * h)] = (t, 1.2 * bend + 2e-6 * (1 + abs(t)) + max(cut[i], cut[min(i + st, S)]))
    outer = {lo - 1e-3: (0.0, 0.0), hi + 1e-3: (0.0, 0.0), lo - 7.0: (0.0, 0.0), hi + 12.0: (0.0, 0.0)}
    fixed = [float(x[S // 4]), hi + 0.5]
    tf = [table[S // 4], 0.0]
    for p, (t, tol) in list(inner.items()) + list(outer.items()):
        xs = [[p], [fixed[0]], [fixed[1]]]
        tt = np.array([t, tf[0], tf[1]])
        for order in ((0, 1, 2), (2, 0, 1)):
            xo = [xs[k] for k in order]
            place(s, xo)
            got = rates(s)
            logk = np.log(np.array(ref.kde(xo, [bw])))
            if add:
                e = np.array([ref.poly_energy(coeffs, q) for q in xo]) / kt
                b = logk + e
                want = b - b.mean() + tt[list(order)]
            else:
                b = logk + tt[list(order)]
                want = b - b.mean()
            # a uniform node tolerance also covers the walker on the fixed node
            lim = 1e-9 * (1 + np.max(np.abs(want))) + tol + 2e-6 * (1 + abs(tf[0])) + cut[S // 4]
            if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > lim:
                raise Violation(
                    f"{case} walkers at {xo}: rates {got.tolist()} instead of {want.tolist()} (tolerance {lim:.2e})"
                )
            cov.trans()
        cov.state((str(case), p))
    cov.trace()
    cov.sample(f"{case}: {len(inner) + len(outer)} positions")


def gen_1d(tier):
    e = 1 if tier == "thorough" else 4
    for variant in ("add", "additive", "mult", "multiplicative"):
        for pot in POT1:
            for kt in (1.0, 0.6, 3.0):
                for h, lo, bw, exact in (
                    (2.0**-7, -1.953125, 0.4, True),
                    (2.0**-7, -1.0, 0.1, True),
                    (2.0**-6, -3.0, 0.5, True),
                    (2.0**-8, -0.75, 0.0390625, True),
                    (0.01, -2.5, 0.33, False),
                    (0.008, -2.0, 0.4, False),
                    (0.005, -0.3, 0.2, False),
                    # widths that are no multiple of the step
                    (0.01, -2.5, 0.123, False),
                    (0.01, -2.5, 0.1, False),
                    (2.0**-7, -1.953125, 0.3333, False),
                    (2.0**-7, -1.953125, 0.02, False),
                ):
                    if variant in ("additive", "multiplicative") and kt != 1.0:
                        continue
                    yield dict(variant=variant, pot=pot, kt=kt, h=h, lo=lo, bw=bw, exact=exact, every=e)
    for variant in ("add", "mult"):
        yield dict(variant=variant, pot="slope", kt=1.0, h=2.0**-7, lo=-1.0, bw=0.1, exact=True, every=e, key="correction-variant")
        # kernels much narrower than the range need a finer table of the density
        for pot in POT1:
            yield dict(variant=variant, pot=pot, kt=1.0, h=2.0**-10, lo=-2.0, bw=2.0**-9, exact=True, every=e, steps=3000)
            yield dict(variant=variant, pot=pot, kt=0.6, h=2.0**-9, lo=-0.5, bw=2.0**-8, exact=True, every=e, steps=1000)


def check_deep(case, cov):
    """potentials that are far above kT somewhere in the range: rates stay usable"""
    coeffs = {(0,): 0.0, (2,): case["k"]} if case["k"] > 0 else {(0,): 0.0, (2,): case["k"], (4,): -0.6 * case["k"]}
    h, lo = 2.0**-6, -250 * 2.0**-6
    hi = -lo
    bw = 0.3125
    sec, files = sysb.potential(coeffs, [(lo, hi)])
    s = sysb.build(
        3, 1, sec, files, ld=sysb.ld_section(kt=case["kt"]),
        birth_death={"stride": 5, "kernel-bandwidth": bw, "approximation-variant": case["variant"]},
    )
    x = lo + h * np.arange(501)
    u = np.array([ref.poly_energy(coeffs, [q]) for q in x]) / case["kt"]
    pi = boltzmann(coeffs, x[:, None], case["kt"], h)
    conv = conv_1d(pi, h, bw)
    low = 5 * int(np.argmin(u[::5]))  # a node of the table
    for i in range(0, 501, 10):
        xs = [[x[i]], [x[low]], [x[low]]]
        place(s, xs)
        got = rates(s)
        if not np.all(np.isfinite(got)):
            raise Violation(f"{case}: rates {got.tolist()} for walkers at {xs}")
        logk = np.log(np.array(ref.kde(xs, [bw])))
        if conv[i] > 1e-250 and (pi[i] > 1e-250 or case["variant"] == "mult"):
            with np.errstate(all="ignore"):
                if case["variant"] == "mult":
                    b = logk - np.log(conv[[i, low, low]])
                    want = b - b.mean()
                else:
                    log = np.where(pi > 0, np.log(conv / np.where(pi > 0, pi, 1)), 0.0)
                    integral = h * np.sum(log * pi)
                    b = logk + u[[i, low, low]]
                    want = b - b.mean() - log[[i, low, low]] + integral
            if np.max(np.abs(got - want)) > 1e-4 * (1 + np.max(np.abs(want))):
                raise Violation(f"{case}: rates {got.tolist()} instead of {want.tolist()} for walkers at {xs}")
        elif not got[0] > max(got[1], got[2]):
            raise Violation(f"{case}: walker in a region without density is not preferred for removal: {got.tolist()}, at {xs}")
        cov.trans()
        cov.state((case["k"], case["kt"], case["variant"], i))
    cov.trace()


def gen_deep(tier):
    for variant in ("add", "mult"):
        for k in (20.0, 300.0, -60.0, -600.0):
            for kt in (1.0, 0.2):
                yield dict(variant=variant, k=k, kt=kt)


# ---------------------------------------------------------------- tabulated terms, 2D and 3D on own densities
def conv_nd(pi, hs, bws, more=0):
    out = pi
    for d, (h, bw) in enumerate(zip(hs, bws)):
        out = np.apply_along_axis(lambda v: conv_1d(v, h, bw, more), d, out)
    return out


def check_nd(case, cov):
    b = env.load()
    shape, lows, hs, bw, kt = case["shape"], case["lows"], case["hs"], case["bw"], case["kt"]
    dim = len(shape)
    coeffs = COEFFS[dim]
    axes = [l + h * np.arange(n) for l, h, n in zip(lows, hs, shape)]
    ranges = [(float(a[0]), float(a[-1])) for a in axes]
    pts = list(itertools.product(*axes))
    pi = boltzmann(coeffs, pts, kt, math.prod(hs)).reshape(shape)
    g = b.grid.from_npoints(ranges, list(shape))
    g.data = pi.copy()
    s = system(3, dim, bw, kt)
    V = b.birth_death.ApproxVariant
    variant = V.add if case["variant"] == "add" else V.mult
    with env.quiet():
        bd = b.birth_death.BirthDeath(
            s.ld.particles, 0.01, 5, np.array(bw), kt, None, False, variant, g
        )
    if not np.array_equal(np.asarray(g.data), pi):
        raise Violation(f"{case}: the density handed in was changed")
    conv = conv_nd(pi, hs, bw)
    if variant == V.add:
        log = np.log(conv / pi)
        t = log * pi
        for h in reversed(hs):
            t = h * (t.sum(axis=-1) - (t[..., 0] + t[..., -1]) / 2)
        table = -log + float(t)
    else:
        table = -np.log(conv)
    far = [r[1] + 0.7 for r in ranges]
    mid = tuple(n // 2 for n in shape)
    s.bd = bd
    todo = [(idx, None) for idx in itertools.product(*map(range, shape))]
    # middles of cell edges
    for idx in itertools.product(*[range(n) for n in shape]):
        d = sum(idx) % dim
        if idx[d] + 1 < shape[d] and sum(idx) % 3 == 0:
            todo.append((idx, d))
    outside = [[(r[0] + r[1]) / 2 for r in ranges] for _ in range(2 * dim)]
    for d in range(dim):
        outside[2 * d][d] = ranges[d][0] - 0.3
        outside[2 * d + 1][d] = ranges[d][1] + 0.3
    for item in todo + outside:
        if isinstance(item, tuple):
            idx, d = item
            p = [axes[k][i] for k, i in enumerate(idx)]
            val = table[idx]
            if d is not None:
                j = list(idx)
                j[d] += 1
                val = (val + table[tuple(j)]) / 2
                p[d] += hs[d] / 2
        else:
            p, val = item, 0.0
        xs = [p, [axes[k][i] for k, i in enumerate(mid)], far]
        place(s, xs)
        got = rates(s)
        tt = np.array([val, table[mid], 0.0])
        logk = np.log(np.array(ref.kde(xs, bw)))
        if variant == V.add:
            q = logk + np.array([ref.poly_energy(coeffs, x) for x in xs]) / kt
            want = q - q.mean() + tt
        else:
            q = logk + tt
            want = q - q.mean()
        if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > 1e-6 * (1 + np.max(np.abs(want))):
            raise Violation(f"{case} walkers at {xs}: rates {got.tolist()} instead of {want.tolist()}")
        cov.trans()
        cov.state((str(case), tuple(p)))
    cov.trace()
    cov.sample(f"{case}: {len(todo) + len(outside)} positions")


def gen_nd(tier):
    q = 2.0**-3
    specs = [
        ((9, 6), [-1.0, 0.25], [q, 2 * q], [0.1, 0.2]),
        ((5, 12), [-0.5, -1.0], [2 * q, q], [0.1, 0.175]),
        ((4, 5, 6), [-0.25, 0.0, -0.5], [q, 2 * q, q], [0.05, 0.1, 0.075]),
        ((6, 4, 3), [0.0, -0.5, 0.25], [2 * q, q, 4 * q], [0.1, 0.05, 0.2]),
        ((7,), [-1.0], [2 * q], [0.1]),
    ]
    for shape, lows, hs, bw in specs:
        for kt in (1.0, 0.5):
            for variant in ("add", "mult"):
                yield dict(shape=shape, lows=lows, hs=hs, bw=bw, kt=kt, variant=variant)


Q = 2.0**-3
TABLES = {  # shape, lower limits, steps, widths of the kernel (5 sigma: whole steps)
    "1": ((7,), [-1.0], [2 * Q], [0.1]),
    "1w": ((41,), [-2.0], [Q], [0.4]),
    "2": ((9, 6), [-1.0, 0.25], [Q, 2 * Q], [0.1, 0.2]),
    "2i": ((12, 15), [-0.5, -1.0], [Q, Q], [0.175, 0.175]),
    "3": ((4, 5, 6), [-0.25, 0.0, -0.5], [Q, 2 * Q, Q], [0.05, 0.1, 0.075]),
    "3i": ((8, 7, 9), [-0.5, -0.25, 0.0], [Q, Q, Q], [0.075, 0.075, 0.075]),
}
CROWD = {
    "table": list(TABLES),
    "variant": ["orig", "add", "mult"],
    "n": [1, 2, 3, 4, 7, 30, 90, 260],
    "kt": [0.1, 0.5, 1.0, 3.0, 20.0],
    "scale": [1e-4, 1.0, 5.0],
    "outside": ["none", "one", "most"],
    "pattern": ["spread", "pairs", "one place"],
}


def check_crowd(case, cov):
    """Populations of any size with every variant: walkers on the nodes of the table or outside of it"""
    b = env.load()
    shape, lows, hs, bw = TABLES[case["table"]]
    dim, n, kt = len(shape), case["n"], case["kt"]
    coeffs = {k: c * case["scale"] for k, c in COEFFS[dim].items()}
    axes = [l + h * np.arange(m) for l, h, m in zip(lows, hs, shape)]
    ranges = [(float(a[0]), float(a[-1])) for a in axes]
    pts = list(itertools.product(*axes))
    pi = boltzmann(coeffs, pts, kt, math.prod(hs)).reshape(shape)
    sec, files = sysb.potential(coeffs, [(-2.5, 2.5)] * dim)
    s = sysb.build(n, dim, sec, files, ld=sysb.ld_section(kt=kt))
    V = b.birth_death.ApproxVariant
    variant = getattr(V, case["variant"])
    g = None
    if variant != V.orig:
        g = b.grid.from_npoints(ranges, list(shape))
        g.data = pi.copy()
    with env.quiet():
        s.bd = b.birth_death.BirthDeath(s.ld.particles, 0.01, 5, np.array(bw), kt, None, False, variant, g)
    conv = conv_nd(pi, hs, bw)
    with np.errstate(all="ignore"):
        log = np.log(conv / pi)
        t = log * pi
    for h in reversed(hs):
        t = h * (t.sum(axis=-1) - (t[..., 0] + t[..., -1]) / 2)
    table = {V.orig: 0 * conv, V.add: -log + float(t), V.mult: -np.log(conv)}[variant]
    idx = list(itertools.product(*map(range, shape)))
    for turn in range(4):
        xs, tt = [], []
        for i in range(n):
            j = {"spread": 7 * i + 3 * turn, "pairs": 5 * (i // 2) + turn, "one place": 2 * turn}[case["pattern"]] % len(idx)
            p = [float(axes[d][k]) for d, k in enumerate(idx[j])]
            val = table[idx[j]]
            if case["outside"] == "one" and i == turn % n or case["outside"] == "most" and i % 4 != turn:
                d, up = (i + turn) % dim, (i // 2 + turn) % 2
                p[d] = ranges[d][1] + 0.3 + 0.01 * (i % 5) if up else ranges[d][0] - 0.2 - 0.03 * (i % 3)
                val = 0.0
            xs.append(p)
            tt.append(val)
        place(s, xs)
        got = rates(s)
        x = np.array(xs)
        kern = np.ones((n, n))
        for d in range(dim):
            kern *= np.exp(-((x[:, None, d] - x[None, :, d]) ** 2) / (2 * bw[d] ** 2)) / (math.sqrt(2 * math.pi) * bw[d])
        logk = np.log(kern.mean(axis=1))
        e = np.array([ref.poly_energy(coeffs, q) for q in xs]) / kt
        tt = np.array(tt)
        if variant == V.mult:
            q = logk + tt
            want = q - q.mean()
        else:
            q = logk + e
            want = q - q.mean() + tt
        if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > 1e-6 * (1 + np.max(np.abs(want))):
            k = int(np.argmax(np.abs(got - want)))
            raise Violation(f"{case} placement {turn}: rate of walker {k} at {xs[k]} is {got[k]} instead of {want[k]}; walkers {xs[:6]}")
        cov.trans()
        cov.state((str(case), turn))
    cov.trace()


def gen_crowd(tier):
    # a density that can be represented
    return covering.covering(CROWD, 3 if tier == "quick" else 4, lambda c: 52 * c["scale"] / c["kt"] < 600, tries=2)


# ---------------------------------------------------------------- tabulated terms, 2D through the input
def check_input(case, cov):
    kt, bw, variant = case["kt"], case["bw"], case["variant"]
    # steps of the tabulated density; narrow kernels need more than 500
    S = [500, 1000] if case.get("fine") else [500, 500]
    if case["pot"] == "poly":
        lows, hs = [-1.0, -0.5], [2.0**-8, 2.0**-10 if case.get("fine") else 2.0**-9]
        coeffs = {(0, 0): 1.0, (1, 0): 0.3, (2, 0): -2.0, (0, 1): 0.1, (1, 1): 1.0, (0, 2): 3.4}
        ranges = [(l, l + n * h) for l, h, n in zip(lows, hs, S)]
        sec, files = sysb.potential(coeffs, ranges)
        scale = None

        def energy(x, y):
            return sum(c * x**i * y**j for (i, j), c in coeffs.items())

        exact = True
    else:
        scale = 0.001
        lows, hs = [-1.5, -0.5], [0.006, 0.006]
        sec, files = {"type": "mueller-brown", "scaling-factor": scale}, {}

        def energy(x, y):
            return mb.energy((x, y))

        exact = False
    s = sysb.build(
        3, 2, sec, files, start=[lows[0] + 0.1, lows[1] + 0.1], ld=sysb.ld_section(kt=kt),
        birth_death={"stride": 5, "kernel-bandwidth": bw, "approximation-variant": variant},
    )
    if scale is not None:
        mb = ref.MB(scale, s.ld.pot.energy)
    axes = [l + h * np.arange(n + 1) for l, h, n in zip(lows, hs, S)]
    X, Y = np.meshgrid(*axes, indexing="ij")
    u = energy(X, Y) / kt
    pi = np.exp(-(u - u.min()))
    pi /= pi.sum() * hs[0] * hs[1]

    def tabulate(more):
        conv = conv_nd(pi, hs, bw, more)
        if variant == "mult":
            return -np.log(conv)
        log = np.log(conv / pi)
        t = log * pi
        for h in reversed(hs):
            t = h * (t.sum(axis=-1) - (t[..., 0] + t[..., -1]) / 2)
        return -log + float(t)

    table = tabulate(0)
    cut = 0 * table if exact else np.maximum(np.abs(tabulate(-1) - table), np.abs(tabulate(1) - table))

    def tol(i, j):
        return 2e-6 * (1 + abs(table[i, j])) + cut[i, j]

    mid = (200, 300)
    far = [axes[0][-1] + 0.7, axes[1][0]]
    idx = [0, 5, 60, 250, 345, 495, 500]
    for i, j in itertools.product(idx, [k * S[1] // 500 for k in idx]):
        if not exact and (i in (0, 500) or j in (0, 500)):
            continue  # may be just outside of the table
        xs = [[axes[0][i], axes[1][j]], [axes[0][mid[0]], axes[1][mid[1]]], far]
        place(s, xs)
        got = rates(s)
        tt = np.array([table[i, j], table[mid], 0.0])
        logk = np.log(np.array(ref.kde(xs, bw)))
        if variant == "add":
            q = logk + np.array([float(energy(*x)) for x in xs]) / kt
            want = q - q.mean() + tt
        else:
            q = logk + tt
            want = q - q.mean()
        lim = 1e-6 * (1 + np.max(np.abs(want))) + tol(i, j) + tol(*mid)
        if not np.all(np.isfinite(got)) or np.max(np.abs(got - want)) > lim:
            raise Violation(f"{case} walkers at {xs}: rates {got.tolist()} instead of {want.tolist()} (tolerance {lim:.2e})")
        cov.trans()
        cov.state((str(case), i, j))
    cov.trace()
    cov.sample(f"{case}: {len(idx)**2} positions")


def gen_input(tier):
    for variant in ("add", "mult"):
        yield dict(pot="poly", variant=variant, kt=1.0, bw=[2.0**-6, 2.0**-6])
        if variant == "mult" or tier == "thorough":
            yield dict(pot="poly", variant=variant, kt=1.0, bw=[2.0**-6, 2.0**-9], fine=True)
        yield dict(pot="mb", variant=variant, kt=1.2, bw=[0.0317, 0.0455])
    if tier == "thorough":
        for kt in (0.5, 2.0):
            yield dict(pot="poly", variant="add", kt=kt, bw=[2.0**-5, 2.0**-7])
            yield dict(pot="mb", variant="mult", kt=kt, bw=[0.06, 0.03])


FAMILIES = {
    "huge": (gen_huge, check_many, 1),
    "tabulated-input": (gen_input, check_input, 1),
    "original": (gen_orig, check_orig, 1),
    "density": (gen_density, check_density, 1),
    "many": (gen_many, check_many, 4),
    "tabulated": (gen_1d, check_1d, 2),
    "deep": (gen_deep, check_deep, 2),
    "tabulated-nd": (gen_nd, check_nd, 1),
    "crowd": (gen_crowd, check_crowd, 4),
}
