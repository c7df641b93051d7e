"""C18: earlier results survive, headers name the columns"""
import itertools
import os

from .. import env, runs, whole
from ..core import Violation

RULE = (
    "a state = set of files left over in the working directory; the program is run on every subset of leftover kinds and "
    "in every sequence of up to three runs (completed or dying after any step) in one directory; every content that "
    "existed before a run has to exist after it, also at every step in between"
)
ASSUMPTIONS = [
    "the helper that renames an existing file is the stand-in for the missing submodule (first free bck.<n>.<name>)",
    "plots are not data files",
]
BOUNDS = {
    "quick": "all 256 subsets of 8 leftover kinds plus existing backups, also with every step written, in sub-directories and with other names; sequences of up to 3 runs over 5 configurations "
    "with deaths after every step; headers for 1-3 dimensions, momentum, 1-23 states, up to 101 walkers, odd ranges; 19 refused inputs; all sections together (pairs of 36 settings)",
    "thorough": "as quick for 2 stride sets and 4-run sequences",
}

STATES = {"state1-min": [-9.0], "state1-max": [0.0], "state2-min": [0.0], "state2-max": [9.0]}


def sections(conf, dim=1):
    """conf["pre"]: put in front of all file names"""
    pre = conf.get("pre", "")
    lo, hi = [conf.get("lo", -2.0)] * dim, [conf.get("hi", 10.0)] * dim
    one = dim == 1
    a, b = conf.get("strides") or ((1, 2) if conf.get("fine", True) else (2, 3))
    res = {}
    if "stats" in conf["out"]:
        res["birth_death"] = {
            "stride": 2, "kernel-bandwidth": 0.5 if one else [0.5] * dim, "seed": 1, "stats-filename": pre + "stats",
            "stats-stride": b if conf.get("stats_stride", True) else None,
        }
    if "traj" in conf["out"] or "histo" in conf["out"]:
        res["trajectories"] = {
            "filename": pre + "traj" if "traj" in conf["out"] else None, "stride": a, "write-stride": b,
            "momentum": "true" if conf.get("mom") else None,
        }
    if "histo" in conf["out"]:
        res["histogram"] = {
            "filename": pre + "histo", "min": lo[0] if one else lo, "max": hi[0] if one else hi, "bins": 6 if one else [3 + d for d in range(dim)],
            "write-stride": b,
        }
    if "fes" in conf["out"]:
        res["fes"] = {"kt": 1.0, "stride": b, "write-stride": b, "filename": pre + "fes"}
    n_states = conf.get("states", 2)
    st = {}
    for i in range(n_states):
        st[f"state{i+1}-min"] = [float(-2 + i)] * dim
        st[f"state{i+1}-max"] = [float(3 + i)] * dim
    if "df" in conf["out"]:
        res["delta_f"] = {"filename": pre + "df", "stride": b if conf.get("df_stride", True) else None, **st}
    if "pd" in conf["out"]:
        res["particle_distribution"] = {"filename": pre + "pd", "stride": a if conf.get("pd_stride", True) else None, **st}
    return res


ALL = ["stats", "traj", "histo", "fes", "df", "pd"]
N = 4


def script(offset, walkers, dim):
    def f(step):
        return [[0.25 * step + 0.5 * w + 0.125 * d + offset for d in range(dim)] for w in range(walkers)]

    return f


KINDS = {
    "traj": ["traj.0", "traj.1"],
    "histo": ["histo"],
    "histo-step": ["histo_2", "histo_4"],
    "histo-every": [f"histo_{s}" for s in range(1, 5)],
    "fes-every": [f"fes_{s}" for s in range(1, 5)],
    "fes": ["fes"],
    "fes-step": ["fes_2", "fes_4"],
    "df": ["df"],
    "pd": ["pd"],
    "stats": ["stats"],
}


def survive(before, after, what):
    """every content of before exists in after, as often"""
    have = list(after.values())
    for name, content in before.items():
        if content in have:
            have.remove(content)
        else:
            raise Violation(f"{what}: content of {name} is gone; files now {sorted(after)}")


def check_left(case, cov):
    left = {}
    pre = case.get("pre", "")
    folder, start = os.path.split(pre)
    dirs = {folder: None} if folder else {}
    for k in case["kinds"]:
        for f in KINDS[k]:
            left[pre + f] = f"old content of {f}\n1 2 3\n".encode()
            if case.get("backups"):
                for i in range(case["backups"]):
                    left[os.path.join(folder, f"bck.{i}.{start}{f}")] = f"backup {i} of {f}\n".encode()
    left["unrelated"] = b"keep me"
    if folder not in ("", "."):
        for fs in KINDS.values():  # files of the same name elsewhere
            for f in fs:
                left[start + f] = f"{f} in another directory\n".encode()
    if case.get("walkers"):
        for i in range(case["walkers"]):
            left[f"{pre}traj.{i}"] = f"old content of traj.{i}\n1 2 3\n".encode()
    W = case.get("walkers", 2)
    rec = runs.run(N, W, 1, script(0.0, W, 1), leftovers={**dirs, **left}, **sections({"out": case.get("out", ALL), "mom": case.get("mom"), "fine": case.get("fine", True), "pre": pre, **{k: case[k] for k in ("df_stride", "pd_stride", "stats_stride", "strides") if k in case}}))
    for s in range(N):
        survive(left, rec.disk[s], f"{case} after step {s}")
        cov.trans()
    survive(left, rec.files, f"{case} at the end")
    for name, content in left.items():
        if (name == "unrelated" or b"another directory" in content) and rec.files.get(name) != content:
            raise Violation(f"{case}: the unrelated file {name} changed")
    # the new files are new
    out = case.get("out", ALL)
    made = [f for k, fs in KINDS.items() for f in fs if k.split("-")[0] in out and (case.get("fine", True) or not f[-2:] in ("_2", "_4"))]
    if case.get("strides") != [1, 1]:
        made = [f for f in made if f[-2:] not in ("_1", "_3")]
    for f in [os.path.normpath(pre + f) for f in made]:
        if f not in rec.files:
            raise Violation(f"{case}: no new file {f}")
        if b"old content" in rec.files[f]:
            raise Violation(f"{case}: the new {f} starts with the old content")
    cov.trace()
    cov.state(str(case))
    cov.sample(f"{case}: {len(left)} old contents kept, {len(made)} new files")


def check_refused(case, cov):
    """an input that is refused does not destroy anything either"""
    left = {f: f"old content of {f}\n".encode() for fs in KINDS.values() for f in fs}
    secs = sections({"out": ALL})
    for sec, opt, val in case["faults"]:
        secs[sec][opt] = val
    rec = runs.run(N, 2, 1, script(0.0, 2, 1), leftovers=dict(left), expect_ok=False, **secs)
    survive(left, rec.files, f"{case} ({rec.res.status})")
    cov.trans()
    cov.trace()
    cov.state(str(case))
    cov.outcome(rec.res.status)


def gen_refused(tier):
    for sec, opt, vals in (
        ("birth_death", "stride", (None, "0")), ("birth_death", "kernel-bandwidth", (None, "-1")), ("trajectories", "write-stride", ("0", "a")),
        ("histogram", "bins", (None, "0")), ("histogram", "min", (None, "x")), ("fes", "kt", (None, "-1")),
        ("delta_f", "state2-max", (None, "x")), ("delta_f", "write-stride", ("0", "3")), ("particle_distribution", "state1-min", (None, "x")),
        ("particle_distribution", "write-stride", ("-1",)),
    ):
        for v in vals:
            yield dict(faults=[[sec, opt, v]])


def gen_left(tier):
    names = [k for k in KINDS if not k.endswith("-every")]
    for fine in (True, False) if tier == "thorough" else (True,):
        for k in range(len(names) + 1):
            for kinds in itertools.combinations(names, k):
                yield dict(kinds=list(kinds), fine=fine)
    for k in names:
        for b in (1, 2):
            yield dict(kinds=[k], backups=b)
    yield dict(kinds=names, backups=3)
    for pre in ("out/", "out/sub.d/run.1_", "./", "x.y.", "a-b_"):
        for k in range(len(names) + 1) if pre == "out/" or tier == "thorough" else (0, 1, len(names)):
            for kinds in itertools.combinations(names, k):
                yield dict(kinds=list(kinds), pre=pre)
        for b in (1, 2):
            yield dict(kinds=names, pre=pre, backups=b)
    # every step is written
    for k in range(len(KINDS) + 1) if tier == "thorough" else (0, 1, 2, len(KINDS)):
        for kinds in itertools.combinations(list(KINDS), k):
            yield dict(kinds=list(kinds), strides=[1, 1])
    for b in (1, 2):
        yield dict(kinds=list(KINDS), strides=[1, 1], backups=b)
    # leftovers of sections that are not used now stay as they are
    for out in (["traj"], ["pd"], ["stats"], ["traj", "histo"], ["histo"], ["histo", "fes"], ["histo", "fes", "df"]):
        yield dict(kinds=names, out=out)
    # many walkers
    for w in (12, 40, 130) if tier == "thorough" else (12, 40):
        for mom in (None, True):
            yield dict(kinds=[], walkers=w, mom=mom, out=["traj"])
            yield dict(kinds=names, walkers=w, mom=mom, pre="out/")
    # strides left to the program
    for k in range(3):
        for off in itertools.combinations(("df_stride", "pd_stride", "stats_stride"), k + 1):
            for kinds in ([], ["df"], ["pd"], ["stats"], names):
                yield dict(kinds=kinds, **{o: False for o in off})


CONFS = {
    "all": dict(out=ALL),
    "coarse": dict(out=ALL, fine=False),
    "traj": dict(out=["traj"], mom=True),
    "analysis": dict(out=["histo", "fes", "df"], df_stride=False),
    "counts": dict(out=["pd", "stats"], pd_stride=False, stats_stride=False),
}


def check_seq(case, cov):
    files = {}
    for k, (conf, die) in enumerate(case["runs"]):
        conf = CONFS[conf]
        offset = 0.03125 * (k + 1)
        rec = runs.run(N, 2, 1, script(offset, 2, 1), leftovers=dict(files), **sections(conf))
        for s in range(N):
            survive(files, rec.disk[s], f"{case} run {k} after step {s}")
        survive(files, rec.files, f"{case} run {k}")
        # a run that dies leaves the files of that step
        files = rec.files if die is None else rec.disk[die]
        cov.trans(N)
    cov.trace()
    cov.state(str(case))
    cov.outcome(tuple(sorted(files)))


def gen_seq(tier):
    ops = [(c, None) for c in CONFS] + [("all", d) for d in range(N)]
    for a, b in itertools.product(ops, repeat=2):
        yield dict(runs=[a, b])
    for a, b, c in itertools.product([o for o in ops if o[1] in (None, 2)], repeat=3):
        yield dict(runs=[a, b, c])
    for c in CONFS:
        yield dict(runs=[(c, None)] * (12 if tier == "thorough" else 5))
    if tier == "thorough":
        for q in itertools.product([("all", None), ("coarse", None), ("all", 1)], repeat=4):
            yield dict(runs=list(q))


def header(name, content, case):
    lines = content.decode().splitlines()
    if not lines or not lines[0].startswith("#"):
        raise Violation(f"{case}: {name} does not start with a header: {lines[:2]}")
    words = lines[0].split()
    if "FIELDS" in words:
        words = words[words.index("FIELDS") + 1 :]
    else:
        words = [w for w in words if w.strip("#!")]
    data = env.data_rows(content)
    for i, l in enumerate(lines):
        if l.strip() and not l.startswith("#") and any(m.startswith("#") for m in lines[i:]):
            raise Violation(f"{case}: header lines of {name} between the data")
    return words, data


def constants(content):
    """values of the header lines after the first one"""
    res = {}
    for l in content.decode().splitlines():
        w = l.split()
        if l.startswith("#") and "SET" in w and w.index("SET") + 2 == len(w) - 1:
            try:
                res[w[-2]] = float(w[-1])
            except ValueError:
                pass
    return res


def grid_header(name, content, words, data, case, dim):
    """the range and the number of bins are those of the grid in the file"""
    const = constants(content)
    lo, hi = case.get("lo", -2.0), case.get("hi", 10.0)
    for d in range(dim):
        nb = 6 if dim == 1 else 3 + d
        half = (hi - lo) / nb / 2 if name.startswith("fes") else 0.0
        want = {f"{words[d]}_min": lo + half, f"{words[d]}_max": hi - half, f"{words[d]}_n_bins": float(nb)}
        for k, v in want.items():
            if k not in const or abs(const[k] - v) > 1e-6 * max(1.0, min(abs(v), 1e3)):
                raise Violation(f"{case}: header of {name} gives {k} = {const.get(k)}, the grid has {v}")
        if len({r[d] for r in data}) != nb:
            raise Violation(f"{case}: {name} lists {len({r[d] for r in data})} coordinates instead of {nb}")


def check_header(case, cov):
    dim = case["dim"]
    walkers = case.get("walkers", 2)
    rec = runs.run(case.get("n", N), walkers, dim, script(0.0, walkers, dim), kind=case.get("kind", "bussi-parinello"), observe_files=True, **sections(case, dim))
    stages = list(rec.disk.values()) + [rec.files]
    names = set()
    for files in stages:
        for name, content in files.items():
            words, data = header(name, content, case)
            names.add(name)
            if len(set(words)) != len(words):
                raise Violation(f"{case}: header of {name} names a column twice: {words}")
            if files is rec.files and not data:
                raise Violation(f"{case}: {name} holds no data")
            for r in data:
                if len(r) != len(words):
                    raise Violation(f"{case}: header of {name} names {len(words)} columns {words}, rows have {len(r)}: {r}")
            if name.split("_")[0] in ("histo", "fes"):
                grid_header(name, content, words, data, case, dim)
            kinds = {"traj": ["time"] + ["pos"] * dim + (["mom"] * dim if case.get("mom") else []), "stats": ["step", "dup_s", "dup_a", "kill_s", "kill_a"]}
            want = kinds.get(name.split(".")[0])
            if want and all(any(k in w for w in words) for k in want):
                if not all(k in w for k, w in zip(want, words)):
                    raise Violation(f"{case}: header of {name} lists {words}, columns are {want}")
            cov.trans()
            cov.state((name, tuple(words)))
    if "traj" in case["out"] and not {f"traj.{i}" for i in range(walkers)} <= names:
        raise Violation(f"{case}: only the files {sorted(names)}")
    need = {"traj": "traj.0", "histo": "histo", "fes": "fes", "df": "df", "pd": "pd", "stats": "stats"}
    for o in case["out"]:
        if need[o] not in names:
            raise Violation(f"{case}: no file {need[o]}, only {sorted(names)}")
    cov.trace()
    cov.sample(f"{case}: {sorted(names)}")


def gen_header(tier):
    for dim in (1, 2, 3):
        for mom in (False, True):
            for states in (2, 3):
                for fine in (True, False):
                    yield dict(dim=dim, mom=mom, states=states, out=ALL, fine=fine)
        for kind in ("bussi-parinello", "overdamped"):
            yield dict(dim=dim, out=["pd"], states=1, kind=kind)
            yield dict(dim=dim, out=["pd"], states=4, kind=kind, pd_stride=False)
            yield dict(dim=dim, out=["histo", "fes", "df"], states=4, kind=kind, df_stride=False)
            yield dict(dim=dim, out=["traj"], mom=True, kind=kind)
        for walkers in (1, 11, 12, 101):
            yield dict(dim=dim, out=["traj"], mom=walkers % 2 == 0, walkers=walkers, n=2)
        for states in (9, 10, 11, 23):
            yield dict(dim=dim, out=["histo", "fes", "df", "pd"], states=states)
            yield dict(dim=dim, out=["histo", "fes", "df", "pd"], states=states, df_stride=False, pd_stride=False)
        yield dict(dim=dim, out=ALL, stats_stride=False)
        yield dict(dim=dim, out=["stats"], stats_stride=False, n=3)
    for n in (3, 5, 7):
        yield dict(dim=1, out=ALL, n=n, fine=False)
    for lo, hi in ((-2.0, 10.1234567), (-2.718281, 10.0), (-0.0009765625, 0.0078125), (-1234.56789, 98765.4321), (-20000.0, -3.3333333)):
        for dim in (1, 2, 3):
            yield dict(dim=dim, out=["histo", "fes"], lo=lo, hi=hi)


FAMILIES = {
    "leftovers": (gen_left, check_left, 16),
    "sequences": (gen_seq, check_seq, 8),
    "refused": (gen_refused, check_refused, 4),
    "headers": (gen_header, check_header, 4),
    "whole": whole.family("C18"),
}
