"""All actions together: complete runs with every output section, for a covering array of all settings

One run is judged for the files of one property; the other sections are there because they must not matter.
"""
import contextlib
import math

import numpy as np

from . import env, runs
from .core import Violation
from .covering import covering

LO = {1: [-1.0], 2: [-1.0, 2.0], 3: [0.0, -1.0, 1.0]}
H = {1: [0.5], 2: [0.25, 0.5], 3: [0.5, 1.0, 0.25]}
BINS = {
    "few": {1: [6], 2: [3, 4], 3: [3, 2, 2]},
    "cube": {1: [4], 2: [4, 4], 3: [3, 3, 3]},
    "one": {1: [1], 2: [1, 5], 3: [1, 4, 1]},
    "many": {1: [120], 2: [12, 11], 3: [5, 6, 4]},
}
# midpoints of the bins are on the boundaries of some states
STATES = {
    1: [([-1.0], [0.0]), ([0.5], [1.5]), ([-0.75], [0.25]), ([0.25], [0.25]), ([-9.0], [99.0]), ([0.3], [0.7])],
    2: [([-1.0, 2.0], [-0.6, 3.0]), ([-0.875, 2.75], [-0.375, 3.75]), ([-0.7, 1.0], [0.0, 2.5]), ([-9.0, 2.25], [9.0, 2.25]), ([-9.0, -9.0], [9.0, 9.0]), ([-0.375, -9.0], [-0.375, 9.0])],
    3: [([0.0, -1.0, 1.0], [0.6, 0.0, 2.0]), ([0.25, -0.5, 1.125], [1.25, 0.5, 1.125]), ([0.5, -9.0, 1.2], [2.0, 9.0, 9.0]), ([-9.0, 0.4, -9.0], [9.0, 9.0, 9.0]), ([-9.0] * 3, [9.0] * 3), ([0.25] * 3, [1.5] * 3)],
}
FMT = [None, "%%.12f", "%%.17g"]
FACTORS = {
    "n": [1, 2, 7, 12, 65, 131],
    "dim": [1, 2, 3],
    "walkers": [1, 2, 3, 12, 55],
    "kind": ["bussi-parinello", "overdamped"],
    "bd": [None, 1, 3, 20],
    "recalc": [True, False],
    "bc": [None, "periodic", "reflective"],
    "dt": [0.0004, 0.03, 0.7, 12.0],
    "mass": [None, 0.3, 20.0],
    "traj": [True, False],
    "mom": [True, False],
    "stride": [None, 1, 2, 3, 51],
    "tws": [None, 1, 2, 4, 15, 53],
    "histo": [True, False],
    "hs": [None, 1, 2, 5, 53],
    "hws": [None, 1, 3, 10, 60],
    "reset": [None, [1], [5], [3, 10], [12, 2, 60]],
    "bins": ["few", "cube", "one", "many"],
    "fes": [True, False],
    "fs": [None, 1, 2, 5, 53],
    "fws": [None, 1, 4, 50],
    "kt": [0.004, 1.0, 2.5, 700.0],
    "df": [True, False],
    "ds": [None, 1, 3, 51],
    "dws": [None, 1, 2, 5],
    "dstates": [2, 3, 6],
    "pd": [True, False],
    "ps": [None, 1, 2, 52],
    "pws": [None, 1, 3, 4],
    "pstates": [1, 2, 6, 11],
    "stats": [True, False],
    "ss": [None, 1, 4, 51],
    "plot": [None, "end", 3, 20],
    "domain": [None, [0.0, 2.0], [0.5, 60.0]],
    "fmt": FMT,
    "dir": ["", "out/"],
}
# what has to be written for a property to be judged
NEEDS = {"C09": {"traj": True}, "C10": {"histo": True}, "C11": {"fes": True}, "C12": {"df": True}, "C13": {"pd": True}, "C14": {}, "C18": {}}
MATTER = {
    "C09": ["n", "dim", "walkers", "kind", "bd", "recalc", "mom", "stride", "tws", "dt", "fmt"],
    "C10": ["n", "dim", "walkers", "bd", "stride", "tws", "hs", "hws", "reset", "bins", "traj", "fs"],
    "C11": ["n", "dim", "bd", "tws", "hs", "hws", "histo", "reset", "bins", "fs", "fws", "kt", "plot"],
    "C12": ["n", "dim", "tws", "hs", "reset", "bins", "fs", "fes", "kt", "ds", "dws", "dstates", "plot"],
    "C13": ["n", "dim", "walkers", "bd", "recalc", "ps", "pws", "pstates", "tws", "traj", "fmt"],
    "C14": ["n", "dim", "walkers", "kind", "bd", "recalc", "stats", "ss", "tws", "pd"],
    "C18": ["n", "dim", "walkers", "mom", "traj", "histo", "fes", "df", "pd", "stats", "dstates", "pstates", "dir"],
}


def gen(prop, triples=True):
    """all pairs of all settings, all triples of those that matter most"""

    def cases(tier):
        if prop == "C14":
            factors = dict(FACTORS, bd=[1, 3, 20], walkers=[2, 3, 12, 55])
        else:
            factors = {k: [NEEDS[prop][k]] if k in NEEDS[prop] else v for k, v in FACTORS.items()}
        for c in covering(factors, 2, seed=1, tries=3):
            yield c
        most = {k: factors[k] for k in MATTER[prop]}
        if triples:
            rest = {k: v for k, v in factors.items() if k not in most}
            for seed in range(3 if tier == "thorough" else 1):
                for i, c in enumerate(covering(most, 3, seed=10 + seed, tries=2)):
                    # the others take turns
                    yield {**c, **{k: v[(i * (2 * j + 1) + i // len(v) + seed) % len(v)] for j, (k, v) in enumerate(sorted(rest.items()))}}

    return cases


def numbered(states):
    o = {}
    for i, (a, b) in enumerate(states):
        o[f"state{i+1}-min"] = a
        o[f"state{i+1}-max"] = b
    return o


def bounds(c):
    dim = c["dim"]
    lo, h, nb = LO[dim], H[dim], BINS[c["bins"]][dim]
    return lo, h, nb, [l + x * b for l, x, b in zip(lo, h, nb)]


def sections(c):
    """birth-death and all output"""
    dim = c["dim"]
    lo, h, nb, hi = bounds(c)
    one, fmt, where = dim == 1, c["fmt"], c["dir"]
    sec = {}
    if c["bd"]:
        sec["birth_death"] = {
            "stride": c["bd"], "kernel-bandwidth": 0.5 if one else [0.5] * dim, "exponential-factor": 3.0 / (c["dt"] * c["bd"]), "seed": 3,
            "recalculate-probabilities": "true" if c["recalc"] else None, "stats-filename": where + "stats" if c["stats"] else None, "stats-stride": c["ss"],
        }
    sec["trajectories"] = {"filename": where + "traj" if c["traj"] else None, "stride": c["stride"], "write-stride": c["tws"], "momentum": "true" if c["mom"] else None, "fmt": fmt}
    sec["histogram"] = {
        "filename": where + "histo" if c["histo"] else None, "min": lo[0] if one else lo, "max": hi[0] if one else hi, "bins": nb[0] if one else nb,
        "stride": c["hs"], "write-stride": c["hws"] if c["histo"] else None, "reset": c["reset"], "fmt": fmt,
    }
    sec["fes"] = {"kt": c["kt"], "stride": c["fs"], "filename": where + "fes" if c["fes"] else None, "write-stride": c["fws"] if c["fes"] and c["fs"] else None, "fmt": fmt}
    if c["plot"]:
        sec["fes"].update({"plot-filename": "image.png", "plot-stride": c["plot"] if c["fs"] and c["plot"] != "end" else None, "plot-domain": c["domain"]})
    sec["delta_f"] = {
        "filename": where + "df" if c["df"] else None, "stride": c["ds"], "write-stride": c["ds"] * c["dws"] if c["ds"] and c["dws"] and c["df"] else None, "fmt": fmt,
        **numbered(states(c, "dstates")),
    }
    sec["particle_distribution"] = {
        "filename": where + "pd" if c["pd"] else None, "stride": c["ps"], "write-stride": c["ps"] * c["pws"] if c["ps"] and c["pws"] and c["pd"] else None, "fmt": fmt,
        **numbered(states(c, "pstates")),
    }
    return sec


@contextlib.contextmanager
def drawn_only():
    """figures are drawn, but not rendered (C19 looks at the files)"""
    from matplotlib.backend_bases import FigureCanvasBase

    orig = FigureCanvasBase.print_figure

    def print_figure(self, filename, *a, **kw):
        if not isinstance(filename, str):
            return orig(self, filename, *a, **kw)
        open(filename, "wb").close()

    with env.patched(FigureCanvasBase, "print_figure", print_figure):
        yield


def run(c):
    n, dim, walkers = c["n"], c["dim"], c["walkers"]
    lo, h, nb, hi = bounds(c)
    site = runs.pattern(nb)

    def script(s):
        out = []
        for w in range(walkers):
            i = site(s, w)
            if i is None:
                pos = [x + 0.75 + 0.001 * w + 0.0001 * s for x in hi]
            else:  # inside the bin, not in the middle
                pos = [l + x * (k + 0.5 + ((s * 37 + w * 11 + d * 5) % 97) / 97 * 0.6 - 0.3) for d, (l, x, k) in enumerate(zip(lo, h, i))]
            out.append((pos, [-s * 0.25123457 - w * 0.06257913 - d * 0.03125777 for d in range(dim)]))
        return out

    with drawn_only() if c["plot"] else contextlib.nullcontext():
        rec = runs.run(
            n, walkers, dim, script, observe_files=runs.watched(n, c["tws"], c["hws"], c["fws"], c["ss"]) if n > 20 else True, leftovers={"out": None} if c["dir"] else None,
            kind=c["kind"], dt=c["dt"], bc=c["bc"], mass=c["mass"], **sections(c),
        )
    for files in [rec.files, *rec.disk.values()]:
        for k in [k for k in files if k.startswith("image")]:
            del files[k]
    rec.lo, rec.h, rec.nb = lo, h, nb
    where = c["dir"]
    rec.files = {k[len(where):] if where and k.startswith(where) else k: v for k, v in rec.files.items()}
    rec.disk = {s: {k[len(where):] if where and k.startswith(where) else k: v for k, v in d.items()} for s, d in rec.disk.items()}
    return rec


def states(c, key):
    all_ = STATES[c["dim"]]
    return [all_[i % len(all_)] for i in range(c[key])]


def near(c, got, want, scale=0.0):
    """equal up to the digits that are written"""
    if len(got) != len(want):
        return False
    for x, y in zip(got, want):
        if x == y or (x != x and y != y):
            continue
        if not math.isfinite(y):
            return False
        tol = {None: 6e-10, "%%.12f": 6e-13, "%%.17g": 0.0}[c["fmt"]] + 1e-13 * (abs(y) + scale)
        if not abs(x - y) <= tol:
            return False
    return True


def table(case, rec, name, want, stride, ws, cov):
    """rows of a table at the end and whenever the program could die"""
    if name not in rec.files:
        raise Violation(f"{case}: no file {name}, only {sorted(rec.files)}")
    ncols = len(want[0][1]) if want else None

    def compare(got, rows, when):
        for g, (s, w, scale) in zip(got, rows):
            if len(g) != len(w) or not near(case, g, [y if y is not None else x for x, y in zip(g, w)], scale):
                raise Violation(f"{case}: {name} {when} has row {g} instead of {w} (step {s})")

    got = runs.rows(rec.files[name], ncols, f"{case} {name}")
    if len(got) != len(want):
        raise Violation(f"{case}: {name} has {len(got)} rows instead of {len(want)}: {[r[0] for r in got]}, steps {[w[0] for w in want]}")
    compare(got, want, "at the end")
    if ws is None:
        return
    for s in sorted(rec.disk):
        part = runs.rows(rec.disk[s].get(name, b""), ncols, f"{case} {name}")
        due = sum(1 for w in want if w[0] <= s - s % ws) if stride else 0
        most = sum(1 for w in want if w[0] <= s) if stride else 0
        if not due <= len(part) <= most:
            raise Violation(f"{case}: {len(part)} rows in {name} when dying after step {s}, at least {due} and at most {most} are due")
        compare(part, want, f"after step {s}")
        cov.trans()


class Model:
    """counts of the histogram from the observed population"""

    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        self.tws = c["tws"] or 100
        self.resets = c["reset"] or []
        hs = c["hs"] or 1
        sums = np.zeros([c["n"] + 1] + rec.nb, int)
        for s in range(hs, c["n"] + 1, hs):
            for x, _ in rec.pop[s]:
                i = [math.floor((v - l) / h) for v, l, h in zip(x, rec.lo, rec.h)]
                if all(0 <= k < b for k, b in zip(i, rec.nb)):
                    sums[(s, *i)] += 1
        self.sums = np.cumsum(sums, axis=0)

    def between(self, first, last):
        return self.sums[last] - self.sums[min(first, last)]

    def at(self, s):
        return self.between(max([r for r in self.resets if r <= s], default=0), s - s % self.tws)

    def written(self, s):
        return self.between(max([r for r in self.resets if r < s], default=0), s - s % self.tws)

    def final(self):
        n = self.c["n"]
        return self.between(max([r for r in self.resets if r <= n], default=0), n)

    def of_fes(self, s):
        fs = self.c["fs"]
        if not fs or s < fs:
            return None
        return self.at(s - s % fs)

    def fes(self, counts):
        with np.errstate(divide="ignore"):
            f = -self.c["kt"] * np.log(counts.astype(float))
        if counts.any():
            f -= f.min()
        return f

    def grid(self, name, want, scale):
        """file of a grid"""
        c, rec = self.c, self.rec
        if name not in rec.files:
            raise Violation(f"{c}: no file {name}, only {sorted(rec.files)}")
        got = runs.rows(rec.files[name], len(rec.nb) + 1, f"{c} {name}")
        if len(got) != want.size:
            raise Violation(f"{c}: {name} has {len(got)} rows instead of {want.size}")
        seen = set()
        for r in got:
            i = [(v - l) / h - 0.5 for v, l, h in zip(r, rec.lo, rec.h)]
            if any(abs(k - round(k)) > 1e-6 or not 0 <= round(k) < b for k, b in zip(i, rec.nb)):
                raise Violation(f"{c}: {name} has coordinates {r[:-1]}, no bin midpoint")
            i = tuple(int(round(k)) for k in i)
            if i in seen:
                raise Violation(f"{c}: {name} lists {r[:-1]} twice")
            seen.add(i)
            if not near(c, [r[-1]], [float(want[i])], scale):
                raise Violation(f"{c}: {name} holds {r[-1]} in bin {i} instead of {want[i]}")

    def series(self, base, stride, wanted, final, scale, cov):
        """files named after their step and the one of the end"""
        c, rec = self.c, self.rec
        names = {base}
        self.grid(base, final, scale)
        for s in range(stride, c["n"] + 1, stride) if stride else ():
            name = f"{base}_{s}"
            names.add(name)
            if name not in rec.files:
                raise Violation(f"{c}: no file {name}, only {sorted(rec.files)}")
            if name in rec.disk.get(s - 1, ()):
                raise Violation(f"{c}: {name} on disk before step {s}")
            if s in rec.disk and rec.disk[s].get(name) != rec.files[name]:
                raise Violation(f"{c}: {name} not written at step {s}")
            w = wanted(s)
            if w is not None:
                self.grid(name, w, scale)
            cov.trans()
        extra = [f for f in rec.files if f.startswith(base) and f not in names]
        if extra:
            raise Violation(f"{c}: unexpected files {extra}")


def judge_traj(c, rec, cov):
    stride, ws = c["stride"] or 1, c["tws"] or 100
    for w in range(c["walkers"]):
        want = []
        for s in range(stride, c["n"] + 1, stride):
            pos, mom = rec.pop[s][w]
            want.append((s, [s * c["dt"]] + list(pos) + (list(mom) if c["mom"] else []), 0.0))
        table(c, rec, f"traj.{w}", want, stride, ws, cov)
    extra = [f for f in rec.files if f.startswith("traj") and f not in {f"traj.{w}" for w in range(c["walkers"])}]
    if extra:
        raise Violation(f"{c}: unexpected files {extra}")


def judge_histo(c, rec, cov):
    m = Model(c, rec)
    m.series("histo", c["hws"], m.written, m.final(), 0.0, cov)


def judge_fes(c, rec, cov):
    m = Model(c, rec)

    def wanted(s):
        counts = m.of_fes(s)
        return None if counts is None else m.fes(counts)

    m.series("fes", c["fws"] if c["fs"] else None, wanted, m.fes(m.final()), 100 * c["kt"], cov)


def judge_df(c, rec, cov):
    m = Model(c, rec)
    kt = c["kt"]
    mids = [[l + h * (k + 0.5) for k in range(b)] for l, h, b in zip(rec.lo, rec.h, rec.nb)]
    masks = []
    for a, b in states(c, "dstates"):
        mask = np.zeros(rec.nb, bool)
        for i in np.ndindex(*rec.nb):
            mask[i] = all(x <= mids[d][i[d]] <= y for d, (x, y) in enumerate(zip(a, b)))
        masks.append(mask)

    def delta(counts):
        if counts is None:  # no surface yet
            return [None] * (len(masks) - 1)
        p = [int(counts[k].sum()) for k in masks]
        res = []
        for x in p[1:]:
            if p[0] == 0:
                res.append(-math.inf if x else math.nan)
            else:
                res.append(-kt * math.log(x / p[0]) if x else math.inf)
        return res

    ds = c["ds"]
    steps = [(s, m.of_fes(s)) for s in range(ds, c["n"] + 1, ds)] if ds else [(c["n"], m.final())]
    table(c, rec, "df", [(s, [s * c["dt"]] + delta(x), 1e4 * kt) for s, x in steps], ds, None, cov)


def judge_pd(c, rec, cov):
    st = states(c, "pstates")

    def count(pop):
        return [sum(all(a[d] <= x[d] <= b[d] for d in range(len(x))) for x, _ in pop) for a, b in st]

    ps = c["ps"]
    steps = range(ps, c["n"] + 1, ps) if ps else [c["n"]]
    table(c, rec, "pd", [(s, [s] + count(rec.pop[s]), 0.0) for s in steps], ps, (ps * (c["pws"] or 100)) if ps else c["n"] + 1, cov)


def judge_stats(c, rec, cov):
    from .props.c14 import parse_stats

    got = parse_stats(rec, "stats" if c["stats"] else None)
    times = list(range(c["ss"], c["n"] + 1, c["ss"])) if c["ss"] else [c["n"]]
    if [r[0] for r in got] != times:
        raise Violation(f"{c}: records of the steps {[r[0] for r in got]} instead of {times}")
    changed = {s for s in range(1, c["n"] + 1) if any((a[0] != b[0]).any() for a, b in zip(rec.pop[s], rec.script[s]))}
    for s in changed:
        if s % c["bd"]:
            raise Violation(f"{c}: walkers were exchanged at step {s}, no multiple of the stride")
    last = (0, 0, 0, 0, 0)
    for r in got:
        s, ds, da, ks, ka = r
        steps = s // c["bd"]
        if any(x < y for x, y in zip(r, last)) or ds > da or ks > ka or da + ka > steps * c["walkers"]:
            raise Violation(f"{c}: impossible record {r} after {last}")
        if not c["recalc"] and da + ka != steps * c["walkers"]:
            raise Violation(f"{c}: {da} + {ka} attempts after {steps} birth-death steps of {c['walkers']} walkers")
        if ds + ks < sum(1 for x in changed if x <= s) or (ds + ks > last[1] + last[3]) and not any(last[0] < x <= s for x in changed):
            raise Violation(f"{c}: record {r} after {last}, but walkers changed at {sorted(changed)}")
        last = r
        cov.trans()


def judge_headers(c, rec, cov):
    from .props.c18 import constants, header

    want = set()
    if c["traj"]:
        want |= {f"traj.{i}" for i in range(c["walkers"])}
    for k in ("histo", "fes", "df", "pd"):
        if c[k]:
            want.add(k)
    if c["bd"] and c["stats"]:
        want.add("stats")
    if not want <= set(rec.files):
        raise Violation(f"{c}: no files {sorted(want - set(rec.files))}")
    for name, content in rec.files.items():
        words, data = header(name, content, c)
        if len(set(words)) != len(words):
            raise Violation(f"{c}: header of {name} names a column twice: {words}")
        for r in data:
            if len(r) != len(words):
                raise Violation(f"{c}: header of {name} names {words}, rows have {len(r)} columns: {r}")
        base = name.split("_")[0].split(".")[0]
        cols = {"traj": 1 + c["dim"] * (2 if c["mom"] else 1), "histo": c["dim"] + 1, "fes": c["dim"] + 1, "df": c["dstates"], "pd": c["pstates"] + 1, "stats": 5}
        if base not in cols:
            raise Violation(f"{c}: unexpected file {name}")
        if len(words) != cols[base]:
            raise Violation(f"{c}: header of {name} names {words}, the file has {cols[base]} columns")
        if base in ("histo", "fes"):
            const = constants(content)
            for d in range(c["dim"]):
                half = rec.h[d] / 2 if base == "fes" else 0.0
                for k, v in (("min", rec.lo[d] + half), ("max", rec.lo[d] + rec.h[d] * rec.nb[d] - half), ("n_bins", rec.nb[d])):
                    if abs(const.get(f"{words[d]}_{k}", math.inf) - v) > 1e-6:
                        raise Violation(f"{c}: header of {name} gives {words[d]}_{k} = {const.get(f'{words[d]}_{k}')}, the grid has {v}")
        cov.trans()


JUDGES = {"C09": judge_traj, "C10": judge_histo, "C11": judge_fes, "C12": judge_df, "C13": judge_pd, "C14": judge_stats, "C18": judge_headers}


def check(prop):
    def f(case, cov):
        rec = run(case)
        JUDGES[prop](case, rec, cov)
        cov.trace()
        cov.trans(case["n"])
        cov.state(str(case))

    return f


def family(prop):
    return gen(prop), check(prop), 2
