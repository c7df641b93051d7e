"""C07: grids, enumerated over shapes, ranges, contents and operations"""
import copy
import itertools
import math
import operator

import numpy as np

from .. import env
from ..core import Violation

RULE = (
    "a state = (shape, ranges, content, operation); every grid of the bounded family is built with the real class and "
    "each of its points is compared with an explicit nested-loop model"
)
ASSUMPTIONS = ["two or more points per dimension"]
BOUNDS = {
    "quick": "1D 2..9 and up to 2000 points, 2D 2..5 x 2..5 and up to 90 x 120, 3D 2..4 cubed and 16 x 15 x 14, 3 range sets, all binary operators x 4 operand kinds, "
    "all operation sequences of length 2, convolutions with kernels of 1..11 points per dimension, also wider than the grid",
    "thorough": "as quick plus 3D up to 5 points and operation sequences of length 3",
}

RANGES = [
    [(-1.0, 1.0), (0.0, 2.0), (-3.0, -1.0)],
    [(-2.5, 2.5), (-0.5, 1.5), (0.0, 0.7)],
    [(0.1, 0.4), (-7.0, 13.0), (2.0, 2.5)],
]


def func(kind, dim):
    if kind == "linear":
        return lambda x: 1.5 + sum((0.7, -1.3, 2.1)[d] * x[d] for d in range(dim))
    if kind == "positive":
        return lambda x: 2.0 + math.sin(3 * x[0]) + sum((0.31, 0.17)[d - 1] * math.cos(2 * x[d] + d) for d in range(1, dim))
    return lambda x: sum((1.0, 10.0, 100.0)[d] * x[d] for d in range(dim)) + math.prod(1.1 + x[d] * x[d] for d in range(dim))


def model_axes(ranges, shape):
    return [[lo + i * (hi - lo) / max(n - 1, 1) for i in range(n)] for (lo, hi), n in zip(ranges, shape)]


def indices(shape):
    return itertools.product(*[range(n) for n in shape])


def make(case, kind=None):
    g = env.load().grid
    shape, ranges = case["shape"], [tuple(r) for r in case["ranges"]]
    grid = g.from_npoints(ranges, list(shape))
    f = func(kind or case["kind"], len(shape))
    grid.set_from_func(f)
    return grid, f


def check_points(grid, ranges, shape, what=""):
    ax = model_axes(ranges, shape)
    dim = len(shape)
    pts = np.asarray(grid.points())
    if pts.shape != (math.prod(shape), dim):
        raise Violation(f"{what}points of shape {pts.shape} for grid {shape}")
    scale = max(abs(v) for r in ranges for v in r) + 1
    for d, a in enumerate(grid.axes()):
        if len(a) != shape[d] or np.max(np.abs(np.asarray(a) - ax[d])) > 1e-12 * scale:
            raise Violation(f"{what}axis {d} is {a} instead of {ax[d]}")
    for k, idx in enumerate(indices(shape)):
        want = [ax[d][i] for d, i in enumerate(idx)]
        if np.max(np.abs(pts[k] - want)) > 1e-12 * scale:
            raise Violation(f"{what}shape {shape}: point {k} (index {idx}) is {pts[k]} instead of {want}")


def compare(grid, want, shape, what, tol=1e-12):
    data = np.asarray(grid.data)
    if data.shape != tuple(shape):
        raise Violation(f"{what}: data of shape {data.shape} instead of {tuple(shape)}")
    for idx in indices(shape):
        w, v = want(idx), data[idx]
        if not (v == w or (math.isnan(v) and math.isnan(w)) or abs(v - w) <= tol * (1 + abs(w))):
            raise Violation(f"{what}: value at index {idx} is {v!r} instead of {w!r}")


def check_basic(case, cov):
    b = env.load()
    shape, ranges = case["shape"], [tuple(r) for r in case["ranges"]]
    dim = len(shape)
    grid, f = make(case)
    check_points(grid, ranges, shape)
    ax = model_axes(ranges, shape)
    coord = lambda idx: [ax[d][i] for d, i in enumerate(idx)]
    compare(grid, lambda i: f(coord(i)), shape, f"set_from_func on {shape} {ranges}")
    for d in range(dim):
        if abs(grid.stepsizes[d] - (ranges[d][1] - ranges[d][0]) / (shape[d] - 1)) > 1e-12:
            raise Violation(f"stepsize {grid.stepsizes[d]} in dimension {d} of {shape} {ranges}")
    nodes = np.asarray(grid.points())  # compared with the model above
    vals = np.array([f(x) for x in nodes])
    for method in ("linear", "nearest"):
        got = np.asarray(grid.interpolate(nodes, method)).reshape(-1)
        for x, v, w in zip(nodes, got, vals):
            if not abs(v - w) <= 1e-9 * (1 + abs(w)):
                raise Violation(f"{method} interpolation of {shape} {ranges} at its own point {list(x)}: {v!r} instead of {w!r}")
    # outside: fill value
    for d in range(dim):
        for side in (0, 1):
            x = np.array([0.5 * (r[0] + r[1]) for r in ranges])
            x[d] = ranges[d][side] + (0.37 if side else -0.37) * (ranges[d][1] - ranges[d][0])
            for fill in (0.0, 7.5, np.nan):
                v = float(np.asarray(grid.interpolate(np.array([x]), "linear", fill)).reshape(-1)[0])
                if not (v == fill or (math.isnan(v) and math.isnan(fill))):
                    raise Violation(f"interpolation of {shape} {ranges} outside at {list(x)}: {v!r} instead of fill value {fill}")
            v = float(np.asarray(grid.interpolate(np.array([x]))).reshape(-1)[0])
            if not math.isnan(v):
                raise Violation(f"default fill value is {v!r} instead of nan")
    cov.trans(2 * len(nodes) + 8 * dim)
    # half way to the next point
    if dim < 3:
        for d in range(dim):
            sub = [i for i in indices(shape) if i[d] + 1 < shape[d]]
            nxt = [i[:d] + (i[d] + 1,) + i[d + 1 :] for i in sub]
            xs = np.array([(np.array(coord(i)) + coord(j)) / 2 for i, j in zip(sub, nxt)])
            got = np.asarray(grid.interpolate(xs, "linear")).reshape(-1)
            for i, j, x, v in zip(sub, nxt, xs, got):
                w = (f(coord(i)) + f(coord(j))) / 2
                # on the outline rounding can put a point outside
                if math.isnan(v) and any(k in (0, shape[e] - 1) for e, k in enumerate(i) if e != d):
                    continue
                if not abs(v - w) <= 1e-9 * (1 + abs(w)):
                    raise Violation(f"interpolation of {shape} {ranges} at {list(x)}: {v!r} instead of {w!r}")
        cov.trans(len(nodes))
    # linear functions are reproduced everywhere inside
    lin, lf = make(case, "linear")
    mids = []
    for fr in itertools.product((0.21, 0.5, 0.83), repeat=dim):
        mids.append([r[0] + q * (r[1] - r[0]) for q, r in zip(fr, ranges)])
    got = np.asarray(lin.interpolate(np.array(mids), "linear")).reshape(-1)
    for x, v in zip(mids, got):
        if not abs(v - lf(x)) <= 1e-9 * (1 + abs(lf(x))):
            raise Violation(f"linear interpolation of a linear function at {x}: {v!r} instead of {lf(x)!r}")
    # a function whose values have different types
    mixed = grid.copy_empty()
    first = tuple(coord((0,) * dim))
    mf = lambda x: 2 if np.allclose(x, first) else (np.float64(f(x)) if x[0] > first[0] else f(x))
    mixed.set_from_func(mf)
    compare(mixed, lambda i: mf(coord(i)), shape, f"set_from_func on {shape} {ranges}, integer at the first point")
    # assigning flat data follows the order of the points
    flat = grid.copy_empty()
    flat.data = np.array([f(p) for p in np.asarray(grid.points())])
    compare(flat, lambda i: f(coord(i)), shape, "flat data")
    if not (flat == grid):
        raise Violation("grids with the same points and values are not equal")
    for idx in indices(shape):
        if grid[idx] != grid.data[idx]:
            raise Violation("item access does not match the data")
    cov.state((tuple(shape), tuple(ranges), case["kind"]))
    cov.trace()
    cov.sample(f"shape {shape} ranges {ranges}: {len(nodes)} points")


def shapes(tier):
    for n in range(2, 10):
        yield [n]
    for s in itertools.product(range(2, 6), repeat=2):
        yield list(s)
    for s in itertools.product(range(2, 5 if tier == "quick" else 6), repeat=3):
        yield list(s)
    yield from ([101], [256], [31, 20], [7, 45], [11, 6, 13])
    yield from ([1025], [2000], [90, 120], [130, 2], [16, 15, 14])
    if tier == "thorough":
        yield from ([20000], [300, 250], [30, 25, 20])


def gen_basic(tier):
    for s in shapes(tier):
        for r in RANGES if math.prod(s) < 3000 else RANGES[2:]:
            yield dict(shape=s, ranges=r[: len(s)], kind="generic")


def check_sparsify(case, cov):
    b = env.load()
    shape, ranges, mx = case["shape"], [tuple(r) for r in case["ranges"]], case["max"]
    dim = len(shape)
    want_n = [min(n, m) for n, m in zip(shape, mx)]
    for kind in ("linear", "generic"):
        grid, f = make(case, kind)
        before = grid.data.copy()
        sp = b.grid.sparsify(grid, list(mx), "linear")
        if list(sp.n_points) != want_n:
            raise Violation(f"sparsify {shape} to {mx}: {sp.n_points} points")
        if [tuple(map(float, r)) for r in sp.ranges] != [tuple(map(float, r)) for r in ranges]:
            raise Violation(f"sparsify changed the ranges {ranges} to {sp.ranges}")
        check_points(sp, ranges, want_n, "sparsified ")
        ax = model_axes(ranges, want_n)
        for idx in indices(want_n):
            x = [ax[d][i] for d, i in enumerate(idx)]
            common = all((i * (n - 1)) % (m - 1) == 0 for i, n, m in zip(idx, shape, want_n))
            if kind == "linear" or common:
                v = sp.data[idx]
                if not abs(v - f(x)) <= 1e-9 * (1 + abs(f(x))):
                    raise Violation(f"sparsify {shape} to {mx} ({kind}): value at {x} is {v!r} instead of {f(x)!r}")
            elif not math.isfinite(sp.data[idx]):
                raise Violation(f"sparsify {shape} to {mx}: value at {x} is {sp.data[idx]!r}")
        if not np.array_equal(before, grid.data):
            raise Violation("sparsify changed its argument")
        cov.trans(math.prod(want_n))
    cov.state(("sparsify", tuple(shape), tuple(mx), tuple(ranges)))
    cov.trace()


def gen_sparsify(tier):
    for r in RANGES:
        for n in (3, 5, 7, 9):
            for m in (2, 3, 5, 7, 20):
                yield dict(shape=[n], ranges=r[:1], max=[m])
        for n, m in ((201, 41), (201, 101), (1001, 501), (1000, 334), (1200, 900)):
            yield dict(shape=[n], ranges=r[:1], max=[m])
        for s, m in (([101, 81], [26, 21]), ([61, 121], [31, 61]), ([21, 31, 13], [11, 16, 7]), ([60, 300], [100, 100])):
            yield dict(shape=s, ranges=r[: len(s)], max=m)
        for s in ([5, 3], [3, 5], [9, 5], [4, 7], [5, 5]):
            for m in itertools.product((2, 3, 5), repeat=2):
                yield dict(shape=s, ranges=r[:2], max=list(m))
        for s in ([3, 4, 5], [5, 3, 3]):
            for m in ([2, 2, 2], [3, 2, 3], [3, 3, 3], [9, 9, 9]):
                yield dict(shape=s, ranges=r, max=m)


BIN = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "truediv": operator.truediv,
    "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow,
}
UN = {"neg": operator.neg, "pos": operator.pos, "exp": np.exp, "log": np.log}


def same_grid(a, b):
    return (
        list(a.n_points) == list(b.n_points)
        and [tuple(r) for r in a.ranges] == [tuple(r) for r in b.ranges]
        and list(a.stepsizes) == list(b.stepsizes)
        and np.array_equal(a.data, b.data, equal_nan=True)
    )


def check_arith(case, cov):
    shape, ranges = case["shape"], [tuple(r) for r in case["ranges"]]
    grid, f = make(case, "positive")
    other, h = make(case, "linear")
    arr = np.array(np.asarray(other.data) * 0.5 + 3.0)
    if case.get("content") == "negative":
        grid.data = -2.0 * np.asarray(grid.data) - 1.0
    elif case.get("content") == "counts":
        grid.data = np.arange(math.prod(shape)) % 7
    operands = {
        "float": 2.5, "int": 3, "array": arr, "grid": other, "one": 1, "onef": 1.0, "zero": 0, "zerof": 0.0,
        "neg": -1, "npfloat": np.float64(0.75),
    }
    # model value: plain nested lists, operation by operation
    cur = grid
    keep = []
    for op in case["ops"]:
        snap = copy.deepcopy(cur)
        model = {i: float(cur.data[i]) for i in indices(shape)}
        if op in UN:
            new = UN[op](cur)
            model = {i: float(UN[op](np.float64(v))) for i, v in model.items()}
        else:
            name, kind = op.split(":")
            val = cur if kind == "self" else operands[kind]
            vsnap = copy.deepcopy(val)
            if name.startswith("r"):
                new = BIN[name[1:]](val, cur)
            elif name.startswith("i"):
                new = cur
                new = getattr(operator, name)(new, val)
            else:
                new = BIN[name](cur, val)
            bop = BIN[name[1:] if name[0] in "ri" else name]
            model = {
                i: float(bop(np.float64(v), np.float64(val[i] if kind == "array" else (val.data[i] if kind in ("grid", "self") else val))))
                for i, v in model.items()
            }
            if kind in ("grid", "self") and not same_grid(val, vsnap):
                raise Violation(f"{op} on {shape} changed its right operand")
            if kind == "array" and not np.array_equal(val, vsnap):
                raise Violation(f"{op} on {shape} changed its array operand")
        if new is cur:
            raise Violation(f"{op} on {shape} returned its operand instead of a new grid")
        if not same_grid(cur, snap):
            raise Violation(f"{op} on {shape} changed its left operand")
        check_points(new, ranges, shape, f"{op}: ")
        compare(new, lambda i: model[i], shape, f"{case['ops']} at {op} on {shape}", 1e-10)
        keep.append((cur, snap))
        cur = new
        cov.trans()
    # the result is independent of everything it came from
    cur.data[...] = -12345.0
    cur.ranges[0] = (99.0, 100.0)
    for g, s in keep:
        if not same_grid(g, s):
            raise Violation(f"changing the result of {case['ops']} changed an operand")
    if not np.array_equal(other.data, make(case, "linear")[0].data):
        raise Violation(f"changing the result of {case['ops']} changed the right operand")
    cov.state((tuple(shape), tuple(case["ops"])))
    cov.trace()


def all_ops():
    ops = list(UN)
    for name in BIN:
        for kind in ("float", "int", "array", "grid"):
            ops.append(f"{name}:{kind}")
    for name in ("radd", "rmul"):
        for kind in ("float", "int"):
            ops.append(f"{name}:{kind}")
    for name in ("iadd", "isub", "imul", "itruediv"):
        for kind in ("float", "grid"):
            ops.append(f"{name}:{kind}")
    return ops


def gen_arith(tier):
    for c in _gen_arith(tier):
        # integer arithmetic has rules of its own
        if c.get("content") == "counts" and any(o.split(":")[0] in ("floordiv", "mod", "pow", "log") or ":zero" in o for o in c["ops"]):
            continue
        yield c


def _gen_arith(tier):
    ops = all_ops()
    for s in ([4], [2, 3]):
        for name in BIN:
            for kind in ("one", "onef", "zero", "zerof", "neg", "npfloat", "self"):
                for content in (None, "negative", "counts"):
                    yield dict(shape=s, ranges=RANGES[1][: len(s)], ops=[f"{name}:{kind}"], content=content)
        for op in ops + ["radd:zero", "rmul:one", "radd:zerof", "rmul:onef", "iadd:zero", "imul:one", "isub:self"]:
            for content in ("negative", "counts"):
                yield dict(shape=s, ranges=RANGES[2][: len(s)], ops=[op], content=content)
    for s in ([4], [3, 2], [2, 3], [2, 3, 4]):
        for op in ops:
            yield dict(shape=s, ranges=RANGES[1][: len(s)], ops=[op])
    for s in ([1100], [40, 30], [12, 9, 11]):
        for op in ops:
            yield dict(shape=s, ranges=RANGES[1][: len(s)], ops=[op])
    for s in ([2, 3],) if tier == "quick" else ([4], [2, 3], [2, 3, 2]):
        for pair in itertools.product(ops, repeat=2):
            yield dict(shape=s, ranges=RANGES[0][: len(s)], ops=list(pair))
    if tier == "thorough":
        for tri in itertools.product(ops, repeat=3):
            yield dict(shape=[2, 3], ranges=RANGES[0][:2], ops=list(tri))


def check_refuse(case, cov):
    a, _ = make(dict(shape=case["a"][0], ranges=case["a"][1]), "positive")
    b, _ = make(dict(shape=case["b"][0], ranges=case["b"][1]), "positive")
    for name, op in BIN.items():
        try:
            op(a, b)
        except ValueError:
            cov.trans()
            continue
        raise Violation(f"{name} of grids with different points {case['a']} and {case['b']} was not refused")
    if a == b:
        raise Violation("grids with different points compare equal")
    cov.state(("refuse", repr(case)))
    cov.trace()


def gen_refuse(tier):
    grids = [
        ([4], [(-1.0, 1.0)]), ([5], [(-1.0, 1.0)]), ([4], [(-1.0, 1.5)]), ([4], [(-1.2, 1.0)]), ([4], [(0.0, 2.0)]),
        ([4, 4], [(-1.0, 1.0), (0.0, 2.0)]), ([4, 4], [(0.0, 2.0), (-1.0, 1.0)]), ([4, 3], [(-1.0, 1.0), (0.0, 2.0)]),
        ([3, 4], [(-1.0, 1.0), (0.0, 2.0)]), ([2, 8], [(-1.0, 1.0), (0.0, 2.0)]), ([4, 4], [(-1.0, 1.0), (0.0, 2.1)]),
        # slightly different
        ([4], [(-1.0, 1.0001)]), ([4], [(-1.000001, 1.0)]), ([4, 4], [(-1.0, 1.0), (0.0, 2.0001)]), ([4], [(-2.0, 1.0)]),
        ([2, 3, 4], RANGES[0]), ([3, 2, 4], RANGES[0]), ([2, 3, 4], RANGES[1]), ([4, 3, 2], RANGES[0]),
    ]
    for i, a in enumerate(grids):
        for j, b in enumerate(grids):
            if i != j:
                yield dict(a=a, b=b)


def check_convolve(case, cov):
    b = env.load()
    shape, ksize, step = case["shape"], case["kernel"], case["step"]
    dim = len(shape)
    lo = [-1.0, 0.5, 2.0][:dim]
    ranges = [(lo[d], lo[d] + step[d] * (shape[d] - 1)) for d in range(dim)]
    kr = [(-step[d] * (ksize[d] - 1) / 2, step[d] * (ksize[d] - 1) / 2) for d in range(dim)]
    # from_stepsizes guarantees bitwise equal spacing
    g = b.grid.from_stepsizes(ranges, list(step))
    k = b.grid.from_stepsizes(kr, list(step))
    if list(g.n_points) != list(shape) or list(k.n_points) != list(ksize):
        raise Violation(f"from_stepsizes {ranges} {step}: {g.n_points}, {k.n_points} points instead of {shape}, {ksize}")
    fg, fk = func("positive", dim), func("generic", dim)
    g.set_from_func(fg)
    k.set_from_func(lambda x: 0.3 + 0.5 * x[0] + sum(0.2 * (d + 1) * x[d] ** 2 for d in range(dim)))
    gs, ks = g.data.copy(), k.data.copy()
    args = (k, g) if case.get("swap") else (g, k)
    con = b.grid.convolve(*args, mode=case["mode"], method=case["method"])
    if not (np.array_equal(g.data, gs) and np.array_equal(k.data, ks)):
        raise Violation("convolution changed its arguments")
    gax, kax = model_axes(ranges, shape), model_axes(kr, ksize)
    if case["mode"] == "same":
        osh, org = list(shape), ranges
    else:
        osh = [n - m + 1 for n, m in zip(shape, ksize)]
        org = [(r[0] + kk[1], r[1] - kk[1]) for r, kk in zip(ranges, kr)]
    if list(con.n_points) != osh:
        raise Violation(f"{case}: result has {con.n_points} points instead of {osh}")
    cax = con.axes()
    vol = math.prod(step)
    for d in range(dim):
        want = [org[d][0] + step[d] * i for i in range(osh[d])]
        if np.max(np.abs(np.asarray(cax[d]) - want)) > 1e-9:
            raise Violation(f"{case}: coordinates {list(cax[d])} instead of {want} in dimension {d}")
    # brute force integral at the coordinates of the result
    for idx in indices(osh):
        x = [cax[d][i] for d, i in enumerate(idx)]
        s = 0.0
        first = []
        for d in range(dim):
            t = (x[d] - gax[d][0] - kr[d][0]) / step[d]
            if abs(t - round(t)) > 1e-6:
                raise Violation(f"{case}: result points do not lie on the common lattice")
            first.append(round(t))
        for ki in indices(ksize):
            gi = tuple(first[d] - ki[d] for d in range(dim))
            if all(0 <= gi[d] < shape[d] for d in range(dim)):
                s += gs[gi] * ks[ki]
        s *= vol
        v = con.data[idx]
        if not abs(v - s) <= 1e-9 * (1 + abs(s)):
            raise Violation(f"{case}: convolution at {x} is {v!r}, integral gives {s!r}")
        cov.trans()
    cov.state(("conv", repr(case)))
    cov.trace()


def gen_convolve(tier):
    for c in _gen_convolve(tier):
        # grids have at least two points per dimension
        if c["mode"] == "same" or all(n > m for n, m in zip(c["shape"], c["kernel"])):
            yield c


def _gen_convolve(tier):
    steps = [0.5, 0.25, 0.125]
    for mode in ("same", "valid"):
        for method in ("direct", "auto"):
            for n in (5, 6, 9):
                for m in (1, 3, 5) if mode == "same" else (1, 2, 3, 4, 5):
                    yield dict(shape=[n], kernel=[m], step=steps[:1], mode=mode, method=method)
            if mode == "same":  # kernels wider than the grid
                for n, m in (([5], [7]), ([4], [11]), ([3], [5]), ([5, 4], [7, 3]), ([4, 5], [3, 9]), ([4, 3], [7, 5]), ([3, 4, 3], [5, 3, 7])):
                    yield dict(shape=n, kernel=m, step=steps[: len(n)], mode=mode, method=method)
            for s in ([5, 4], [4, 6], [5, 5]):
                for m in ([3, 3], [1, 3], [3, 1], [3, 2]) if mode == "valid" else ([3, 3], [1, 3], [3, 1]):
                    yield dict(shape=s, kernel=m, step=steps[:2], mode=mode, method=method)
            for s in ([4, 3, 5], [3, 5, 4], [4, 5, 4]):
                for m in ([3, 1, 3], [1, 3, 3], [3, 3, 3]):
                    yield dict(shape=s, kernel=m, step=steps, mode=mode, method=method)
        # more points, where other algorithms are chosen
        for s, m in (([300], [31]), ([700], [301]), ([24, 18], [7, 5]), ([30, 26], [15, 11]), ([9, 8, 7], [3, 5, 3])):
            yield dict(shape=s, kernel=m, step=steps[: len(s)], mode=mode, method="auto")
    for s, m in (([6], [3]), ([5, 4], [3, 3]), ([4, 3, 5], [3, 1, 3])):
        yield dict(shape=s, kernel=m, step=steps[: len(s)], mode="valid", method="direct", swap=True)


def check_file(case, cov):
    shape, ranges = case["shape"], [tuple(r) for r in case["ranges"]]
    grid, f = make(case)
    ax = model_axes(ranges, shape)
    if case.get("special"):
        # empty bins of a free energy surface are infinite
        base, n = f, 0
        special = {}
        for i in indices(shape):
            if n % 3 == 1:
                special[i] = case["special"][n // 3 % len(case["special"])]
                grid[i] = special[i]
            n += 1
        back = {tuple(ax[d][i] for d, i in enumerate(idx)): v for idx, v in special.items()}
        f = lambda x: back[tuple(x)] if tuple(x) in back else base(x)
    with env.scratch():
        if case["fmt"]:
            grid.write_to_file("g", case["fmt"], "#! FIELDS a b c")
        else:
            grid.write_to_file("g", header="#! FIELDS a b c")
        content = open("g", "rb").read()
    if not content.startswith(b"#! FIELDS a b c\n"):
        raise Violation(f"written grid does not start with its header: {content[:60]!r}")
    rows = env.data_rows(content)
    if len(rows) != math.prod(shape):
        raise Violation(f"{len(rows)} rows for grid {shape}")
    tol = 1e-8 if case["fmt"] else 1e-12
    seen = {}
    for r in rows:
        if len(r) != len(shape) + 1:
            raise Violation(f"row {r} for a {len(shape)}D grid")
        idx = []
        for d in range(len(shape)):
            lo, hi = ranges[d]
            i = min(max(round((r[d] - lo) / (hi - lo) * (shape[d] - 1)), 0), shape[d] - 1) if math.isfinite(r[d]) else 0
            if not abs(ax[d][i] - r[d]) <= tol * 10:
                raise Violation(f"coordinate {r[d]} is no grid point of {ax[d]}")
            idx.append(i)
        idx = tuple(idx)
        if idx in seen:
            raise Violation(f"point {r[:-1]} is listed twice")
        seen[idx] = True
        w = f([ax[d][i] for d, i in enumerate(idx)])
        if not (r[-1] == w or (r[-1] != r[-1] and w != w) or abs(r[-1] - w) <= tol * (1 + abs(w))):
            raise Violation(f"shape {shape}: written value at {r[:-1]} is {r[-1]} instead of {w}")
    cov.trans(len(rows))
    cov.state(("file", tuple(shape), tuple(ranges), case["fmt"]))
    cov.trace()


def gen_file(tier):
    for s in shapes(tier):
        for r in RANGES:
            for fmt in (None, "%14.9f"):
                yield dict(shape=s, ranges=r[: len(s)], kind="generic", fmt=fmt)
            if math.prod(s) < 40:
                yield dict(shape=s, ranges=r[: len(s)], kind="generic", fmt=None, special=[math.inf, -math.inf, math.nan, 1e300, 1e-300])


FAMILIES = {
    "points": (gen_basic, check_basic, 2),
    "files": (gen_file, check_file, 4),
    "arithmetic": (gen_arith, check_arith, 64),
    "refusal": (gen_refuse, check_refuse, 32),
    "sparsify": (gen_sparsify, check_sparsify, 2),
    "convolution": (gen_convolve, check_convolve, 1),
}
