"""C06: energies and forces of every potential reachable from the input"""
import itertools
import math

import numpy as np

from .. import env, inputs, ref, sysb
from ..core import Violation

RULE = (
    "a state = (coefficient table or scaling factor, way of giving it, position); energy, force and the joint "
    "evaluation of the real potential are compared with the closed formula and its analytic gradient. History "
    "family: all sequences of creating/using potentials up to a depth, all of them re-evaluated after every operation"
)
ASSUMPTIONS = ["floating point agreement to 1e-9 relative to the sum of the absolute terms"]
BOUNDS = {
    "quick": "all monomials up to order 4 (1D), 3x4 (2D), 2x3x2 (3D), dense tables of up to 32 coefficients in 1D, 8x8, 5x5x5, coefficients from 1e-12 to 1e9, 11 positions per dimension in 1D, "
    "7 in 2D, 6 in 3D (up to 2.5e6); Mueller-Brown 11 scaling factors x 90 positions (7 far outside the range); creation/use histories up to length 3",
    "thorough": "as quick with orders up to 6 and histories up to length 4",
}

XS = {1: [-35.0, -2.0, -1.0, -0.3, 0.0, 0.45, 1.0, 1.9, 12.5, -4.0e4, 2.5e6], 2: [-1.3, -0.4, 0.0, 0.7, 1.6, 14.0, -3.0e5], 3: [-1.1, 0.0, 0.6, 1.4, -8.0, 7.0e4]}

AMP = [-200.0, -100.0, -170.0, 15.0]
MB = dict(
    a=[-1.0, -1.0, -6.5, 0.7], b=[0.0, 0.0, 11.0, 0.6], c=[-10.0, -10.0, -6.5, 0.7],
    x0=[1.0, 0.0, -0.5, -1.0], y0=[0.0, 0.5, 1.5, 1.0],
)


def mb(pos, scale, amp=AMP):
    x, y = pos
    e, fx, fy, size = 0.0, 0.0, 0.0, 1.0
    for i in range(4):
        dx, dy = x - MB["x0"][i], y - MB["y0"][i]
        t = scale * amp[i] * math.exp(MB["a"][i] * dx * dx + MB["b"][i] * dx * dy + MB["c"][i] * dy * dy)
        e += t
        fx -= t * (2 * MB["a"][i] * dx + MB["b"][i] * dy)
        fy -= t * (MB["b"][i] * dx + 2 * MB["c"][i] * dy)
        size += abs(t) * (1 + abs(dx) + abs(dy)) * 20
    return e, [fx, fy], size


def get_pot(sec, files, dim):
    return sysb.build(1, dim, sec, files, start=[0.1] * dim).ld.pot


def three_ways(pot, pos, dim):
    """(energy, force) asked for separately and together, list and array arguments"""
    res = []
    for p in (list(pos), np.array(pos, dtype=float)):
        keep = np.array(p, dtype=float)
        e = float(pot.energy(p))
        f = np.asarray(pot.force(p), dtype=float).copy()
        e2, f2 = pot.evaluate(p)
        res += [(e, f), (float(e2), np.asarray(f2, dtype=float))]
        if not np.array_equal(np.array(p, dtype=float), keep):
            raise Violation(f"evaluating at {pos} changed the position to {p}")
    for e, f in res:
        if f.shape != (dim,):
            raise Violation(f"force at {pos} has shape {f.shape} instead of ({dim},)")
    return res


def check_poly(pot, coeffs, pos, const, what):
    dim = len(pos)
    want = ref.poly_energy(coeffs, pos)
    wf = ref.poly_force(coeffs, pos)
    # sizes of coefficients and positions set the scale
    size = 1e-300 + sum(abs(c) * math.prod(max(1.0, abs(pos[d])) ** e * (1 + e) for d, e in enumerate(k)) for k, c in coeffs.items())
    for e, f in three_ways(pot, pos, dim):
        if const[0] is None:
            const[0] = e - want
        if not abs(e - want - const[0]) <= 1e-9 * size:
            raise Violation(f"{what} at {pos}: energy {e!r}, formula gives {want!r} (+ constant {const[0]!r})")
        for d in range(dim):
            if not abs(f[d] - wf[d]) <= 1e-9 * size:
                raise Violation(f"{what} at {pos}: force {list(f)} instead of {wf}")


def table(case):
    return {tuple(k): c for k, c in case["coeffs"]}


def check_table(case, cov):
    coeffs = table(case)
    dim = case["dim"]
    ranges = [(-2.0 - d, 2.5 + d) for d in range(dim)]
    sec, files = sysb.potential(coeffs, ranges)
    if case["form"] == "file":
        sec.pop("coeffs", None)
        sec["coeffs-file"] = "pot.coeffs"
        rows = [(k, c) for k, c in coeffs.items()]
        style = case["style"]
        if style == "reversed":
            rows = rows[::-1]
        lines = []
        if style != "bare":
            lines += ["#! FIELDS idx_dim1 pot.coeffs index description", "#! SET type LinearBasisSet"]
        for n, (k, c) in enumerate(rows):
            line = "  ".join(f"{i:8d}" for i in k) + f"   {c:+.16e}"
            if style in ("full", "reversed"):
                line += f"   {n}  s^{k[0]}*1"
            lines.append(line)
        if style != "bare":
            lines.append("#!-------------------")
        files = {"pot.coeffs": "\n".join(lines) + "\n"}
    pot = get_pot(sec, files, dim)
    const = [None]
    # a polynomial given by all its coefficients has no freedom in the constant
    const[0] = 0.0
    for pos in itertools.product(XS[dim], repeat=dim):
        check_poly(pot, coeffs, pos, const, f"polynomial {coeffs} ({case['form']})")
        cov.state((str(sorted(coeffs.items())), case["form"], case.get("style"), pos))
        cov.trans()
        cov.trace()
    got = [tuple(float(x) for x in r) for r in pot.ranges]
    if got != [tuple(map(float, r)) for r in ranges]:
        raise Violation(f"ranges {got} instead of {ranges}")
    cov.sample(f"{dim}D {case['form']} table with {len(coeffs)} coefficients at {len(XS[dim])**dim} positions")


def dense(shape, seed):
    vals = [0.7, -1.3, 2.1, 0.4, -0.9, 1.7, -2.3, 0.35, 1.1, -0.6, 0.25, 3.1, -1.9]
    return [[list(k), vals[(n * 5 + seed) % len(vals)]] for n, k in enumerate(itertools.product(*[range(s) for s in shape]))]


def gen_table(tier):
    big = 5 if tier == "quick" else 7
    shapes = {1: [(big,)], 2: [(3, 4)] if tier == "quick" else [(3, 4), (5, 5)], 3: [(2, 3, 2)] if tier == "quick" else [(2, 3, 2), (3, 2, 4)]}
    for dim in (1, 2, 3):
        for shape in shapes[dim]:
            for k in itertools.product(*[range(s) for s in shape]):
                # the other coefficients keep the table from being trivial
                c = {tuple([0] * dim): 0.5, k: 1.75 if k != tuple([0] * dim) else -0.5}
                c = [[list(x), v] for x, v in c.items()]
                yield dict(dim=dim, coeffs=c, form="file" if dim > 1 else "option", style="full")
                if dim == 1:
                    yield dict(dim=dim, coeffs=c, form="file", style="full")
    for dim, shs in {1: [(1,), (2,), (5,), (7,)], 2: [(2, 5), (5, 2), (4, 4), (1, 4), (4, 1), (5, 5)], 3: [(2, 3, 4), (4, 3, 2), (3, 1, 2), (3, 3, 3)]}.items():
        for sh in shs:
            for seed in (0, 3):
                c = dense(sh, seed)
                if dim == 1:
                    yield dict(dim=1, coeffs=c, form="option")
                for style in ("full", "bare", "reversed", "short"):
                    yield dict(dim=dim, coeffs=c, form="file", style=style)
    # high orders
    for dim, shs in {1: [(11,), (13,), (16,), (21,), (32,)], 2: [(9, 3), (3, 13), (8, 8)], 3: [(7, 2, 2), (2, 2, 9), (2, 8, 1), (5, 5, 5)]}.items():
        for sh in shs:
            c = dense(sh, 2)
            if dim == 1:
                yield dict(dim=1, coeffs=c, form="option")
            yield dict(dim=dim, coeffs=c, form="file", style="full")
    # nothing but zeros, zeros at the end
    for c in ([0.0], [0.0, 0.0, 0.0], [1.5, 0.0, 0.0], [0.0, 0.0, 2.0, 0.0], [0.0, -1.0, 0.0, 0.0, 0.0]):
        c = [[[i], v] for i, v in enumerate(c)]
        yield dict(dim=1, coeffs=c, form="option")
        yield dict(dim=1, coeffs=c, form="file", style="full")
    for dim in (2, 3):
        yield dict(dim=dim, coeffs=[[list(k), 0.0] for k in itertools.product(range(2), repeat=dim)], form="file", style="full")
    # coefficients of very different size
    for dim, sh in ((1, (5,)), (2, (3, 3)), (3, (2, 2, 3))):
        for scale in (1e-7, 1e-12, 1e9, "mixed"):
            c = [[k, v * (10.0 ** (-9 + 5 * (n % 4)) if scale == "mixed" else scale)] for n, (k, v) in enumerate(dense(sh, 1))]
            if dim == 1:
                yield dict(dim=1, coeffs=c, form="option")
            yield dict(dim=dim, coeffs=c, form="file", style="full")
    # single row files, sparse tables
    for dim in (1, 2, 3):
        for k in ([0] * dim, [2] * dim, [1] + [0] * (dim - 1), [0] * (dim - 1) + [3]):
            yield dict(dim=dim, coeffs=[[k, -1.25]], form="file", style="bare")
            yield dict(dim=dim, coeffs=[[k, -1.25]], form="file", style="full")
    # documented examples
    yield dict(dim=1, coeffs=[[[0], 0.0], [[1], 0.2], [[2], -4.0], [[3], 0.0], [[4], 1.0]], form="option")
    wq = {(0, 0): 0.0, (1, 0): 0.3, (2, 0): -2.0, (4, 0): 1.0, (0, 1): 0.1, (1, 1): 1.0, (0, 2): -4.0, (0, 4): 1.0}
    yield dict(dim=2, coeffs=[[list(k), v] for k, v in wq.items()], form="file", style="full")


def mb_positions(tier):
    xs = [-1.5, -1.1, -0.5, -0.1, 0.0, 0.4, 0.6, 1.0, 1.5]
    ys = [-0.5, -0.2, 0.0, 0.3, 0.5, 1.0, 1.4, 1.9, 2.5]
    # without boundary condition walkers can be anywhere: the last term grows without limit outside the range
    far = [(3.0, 3.0), (5.0, 4.0), (-4.5, -3.0), (7.0, -2.0), (-9.0, 10.0), (0.0, 12.0), (15.0, 0.5)]
    return list(itertools.product(xs, ys)) + [(-1.7, 2.6), (1.8, -0.9)] + far


def mb_mismatch(pot, scale, positions, amp):
    const = None
    for pos in positions:
        e0, f0, size = mb(pos, scale, amp)
        for e, f in three_ways(pot, pos, 2):
            if const is None:
                const = e - e0
            if not (math.isfinite(e) and abs(e - e0 - const) <= 1e-9 * size):
                return f"scaling {scale} at {pos}: energy {e!r}, documented sum {e0!r} (+ constant {const!r})"
            if not (abs(f[0] - f0[0]) <= 1e-9 * size and abs(f[1] - f0[1]) <= 1e-9 * size):
                return f"scaling {scale} at {pos}: force {list(f)} instead of {f0}"
    return None


def check_mb_values(pot, scale, positions):
    bad = mb_mismatch(pot, scale, positions, AMP)
    if bad:
        # the documented third amplitude is not the one of the code (listed)
        other = mb_mismatch(pot, scale, positions, [-200.0, -100.0, -175.0, 15.0])
        if other is None:
            return "Mueller-Brown " + bad
        raise Violation(f"Mueller-Brown {other} (third amplitude -175); {bad} (third amplitude -170)")
    return None


def check_mb(case, cov):
    scale = case["scale"]
    pot = get_pot({"type": "mueller-brown", "scaling-factor": scale, "n_dim": case.get("n_dim")}, {}, 2)
    positions = mb_positions("quick")
    known = check_mb_values(pot, 1.0 if scale is None else scale, positions)
    if [tuple(map(float, r)) for r in pot.ranges] != [(-1.5, 1.5), (-0.5, 2.5)]:
        raise Violation(f"Mueller-Brown ranges {pot.ranges}")
    for p in positions:
        cov.state(("mb", scale, p))
    cov.trans(len(positions))
    cov.trace(len(positions))
    if known:
        cov.finding("mb-amplitude", known)


def gen_mb(tier):
    for scale in (None, 1.0, 0.0, 0.1, 0.5, 2.0, 10.0, -0.5, -1.0, 1e-3, 500.0):
        yield dict(scale=scale)
    yield dict(scale=0.25, n_dim=2)


OPS = ["mb", "mb0.1", "mb3", "polyA", "polyB", "mb-periodic", "use"]
POLY = {"polyA": {(0,): 0.3, (1,): -0.2, (2,): 0.0, (3,): 1.1, (4,): 0.6}, "polyB": {(0, 0): 0.1, (2, 1): 0.8, (0, 3): -0.4, (1, 0): 0.9}}


def make(op):
    if op == "mb":
        return get_pot({"type": "mueller-brown"}, {}, 2), 1.0
    if op == "mb0.1":
        return get_pot({"type": "mueller-brown", "scaling-factor": 0.1}, {}, 2), 0.1
    if op == "mb3":
        return get_pot({"type": "mueller-brown", "scaling-factor": 3.0}, {}, 2), 3.0
    if op == "mb-periodic":
        return get_pot({"type": "mueller-brown", "scaling-factor": 0.5, "boundary-condition": "periodic"}, {}, 2), 0.5
    sec, files = sysb.potential(POLY[op], [(-2.0, 2.0)] * (1 if op == "polyA" else 2))
    return get_pot(sec, files, 1 if op == "polyA" else 2), POLY[op]


def use(pot, i):
    """Everything a simulation does with a potential"""
    n = pot.n_dim
    pos = [np.array([0.3 + i, -0.2][:n]), np.array([-0.4, 0.9][:n])]
    with env.quiet():
        pot.calculate_reference(np.array(pos))
        pot.calculate_probability_density(1.5, pot.ranges, [3] * n)
    for x in pos:
        pot.evaluate(x)
        pot.apply_boundary_condition(x, np.array([1.0, -1.0][:n]))
    str(pot)


def check_history(case, cov):
    some = [(-0.5, 1.4), (0.6, 0.0), (0.0, 0.4), (-1.2, 2.0)]
    pots = []
    known = None
    for op in case["ops"]:
        if op == "use":
            for i, (p, _) in enumerate(pots):
                use(p, i)
        else:
            pots.append(make(op))
        cov.trans()
        for i, (p, spec) in enumerate(pots):
            if isinstance(spec, dict):
                for x in some:
                    check_poly(p, spec, x[: p.n_dim], [0.0], f"potential {i} of history {case['ops']}")
            else:
                try:
                    known = check_mb_values(p, spec, some) or known
                except Violation as v:
                    raise Violation(f"potential {i} of history {case['ops']} after {op}: {v}")
        cov.state(tuple(case["ops"][: len(pots)]))
    cov.trace()
    if known:
        cov.finding("mb-amplitude", known)


def gen_history(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for ops in itertools.product(OPS, repeat=n):
            if ops[0] != "use":
                yield dict(ops=list(ops))


# ---------------------------------------------------------------- many evaluations with one potential
def check_reuse(case, cov):
    """One array object moved around, as the integrators do, and results kept until the end"""
    pot, spec = make(case["pot"])
    if not isinstance(spec, dict):
        spec = ref.MB(spec, pot.energy)
    dim = pot.n_dim
    base = [(-0.5, 1.4), (0.6, 0.0), (0.0, 0.4), (-1.2, 2.0), (0.3, 0.3)]
    points = []
    for b in base:
        # neighbours closer than any sensible output resolution, and back again
        for eps in (0.0, 4e-7, 0.0, -3e-8, 1e-3, 0.0):
            points.append([v + eps * (-1) ** d for d, v in enumerate(b[:dim])])
    order = points if case["order"] == "as is" else points[::2] + points[1::2][::-1]
    kept = []
    x = np.array(order[0])
    for k in order:
        x[:] = k
        for how in case["how"]:
            if how == "energy":
                kept.append((list(k), pot.energy(x), None))
            elif how == "force":
                kept.append((list(k), None, pot.force(x)))
            else:
                kept.append((list(k), *pot.evaluate(x)))
        cov.trans()
    size = 100.0 if isinstance(spec, ref.MB) else 1 + sum(abs(c) for c in spec.values())
    for k, e, f in kept:
        we, wf = ref.poly_energy(spec, k), ref.poly_force(spec, k)
        if e is not None and not abs(float(e) - we) <= 1e-10 * size:
            raise Violation(f"{case}: energy at {k} was given as {float(e)!r} instead of {we!r}")
        if f is not None and not np.max(np.abs(np.asarray(f, float) - wf)) <= 1e-9 * size:
            raise Violation(f"{case}: force at {k} was given as {list(f)} instead of {wf}")
        cov.state((case["pot"], tuple(k)))
    cov.trace()


def gen_reuse(tier):
    for pot in ("mb", "mb3", "polyA", "polyB"):
        for order in ("as is", "other"):
            for how in (["energy"], ["force"], ["both"], ["energy", "force"], ["both", "energy"], ["force", "both"]):
                yield dict(pot=pot, order=order, how=how)


FAMILIES = {
    "reuse": (gen_reuse, check_reuse, 4),
    "tables": (gen_table, check_table, 4),
    "mueller-brown": (gen_mb, check_mb, 1),
    "histories": (gen_history, check_history, 8),
}
