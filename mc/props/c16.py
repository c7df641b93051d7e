"""C16: interpretation of the input, over the full table of sections, options and classes of values"""
import itertools
import os
import re
import subprocess
import sys

import numpy as np

from .. import choice, env, inputs, sysb
from ..core import ROOT, Violation

RULE = (
    "a state = input file; the model is the documented table of options (type, requirement, default, range, choices). "
    "Every single fault at every option (missing, every class of wrong value) and every pair of faults has to be refused "
    "by the program before a step, every subset of sections accepted exactly if it is closed under the documented "
    "requirements; every valid rewriting (default written out, value inherited from [DEFAULT], other spelling, unknown "
    "options) has to leave the complete run unchanged, every other valid value has to change it"
)
ASSUMPTIONS = [
    "complete runs are compared by the walkers' states before every step, the sizes of all files after every step and the "
    "content of all files at the end",
    "not claimed: list lengths that do not match the dimension, combinations of strides that make no sense",
]
BOUNDS = {
    "quick": "5 base inputs (1D with both integrators, 2D and 3D polynomial, Mueller-Brown), 9 sections, 53 options, "
    "3-12 wrong values each (also without a value, with one or 300 walkers, one or 2e6 steps), very small and large valid values, all 512 subsets of sections, all pairs of faults (one representative per option)",
    "thorough": "as quick with two representatives per option in the pairs, for all base inputs",
}

N = 12
FMT = "%%14.9f"


def base(name):
    """The full input: every option of every section is set"""
    dim = {"1d": 1, "1d-od": 1, "2d": 2, "3d": 3, "mb": 2}[name]
    one = dim == 1
    files = {}
    if name == "mb":
        pot = {"type": "mueller-brown", "scaling-factor": 0.5, "boundary-condition": "reflective"}
        lo, hi = [-1.5, -0.5], [1.5, 2.5]
        pos = [[-0.5, 1.0], [0.25, 0.5], [0.0, 0.25]]
    else:
        lo, hi = [-3.0 + d for d in range(dim)], [3.0 + 2 * d for d in range(dim)]
        coeffs = {
            1: {(0,): 0.5, (1,): 0.25, (2,): -1.0, (4,): 0.25},
            2: {(0, 0): 0.0, (2, 0): 0.5, (1, 1): 0.25, (0, 2): 0.75},
            3: {(0, 0, 0): 0.0, (2, 0, 0): 0.5, (0, 1, 1): 0.25, (0, 2, 0): 0.75, (0, 0, 2): 0.5},
        }[dim]
        pot, files = sysb.potential(coeffs, list(zip(lo, hi)), "reflective")
        pos = [[-0.5, 1.0, 2.0][:dim], [0.75, 0.5, 1.0][:dim], [0.0, 1.25, 0.5][:dim]]
    ld = {"type": "overdamped" if name == "1d-od" else "bussi-parinello", "timestep": 0.125, "n_steps": N, "seed": 1}
    if name != "1d-od":
        ld.update(kt=1.25, friction=2.0)
    mid = [(a + b) / 2 for a, b in zip(lo, hi)]
    states = {"state1-min": lo, "state1-max": mid, "state2-min": mid, "state2-max": hi}
    secs = {
        "ld": ld,
        "potential": pot,
        "particles": {
            "number": 5, "mass": 1.5, "seed": 2, "initial-distribution": "fractions-pos", **inputs.pos_opts(pos), "fractions": [2, 2, 1],
        },
        "birth_death": {
            "stride": 2, "kernel-bandwidth": 0.5 if one else [0.5, 0.25, 0.75][:dim], "approximation-variant": "orig",
            "exponential-factor": 4.0, "recalculate-probabilities": "false", "stats-stride": 4, "stats-filename": "stats", "seed": 3,
        },
        "trajectories": {"filename": "traj", "stride": 1, "momentum": "false", "write-stride": 2, "fmt": FMT},
        "histogram": {
            "stride": 1, "reset": [5], "filename": "histo", "write-stride": 4, "fmt": FMT, "min": lo[0] if one else lo,
            "max": hi[0] if one else hi, "bins": 8 if one else [4, 6, 3][:dim],
        },
        "fes": {"kt": 1.5, "stride": 2, "filename": "fes", "write-stride": 4, "fmt": FMT},
        "delta_f": {"stride": 2, "filename": "df", "write-stride": 4, "fmt": FMT, **states},
        "particle_distribution": {"stride": 2, "filename": "pd", "write-stride": 4, "fmt": FMT, **states},
    }
    return {k: dict(v) for k, v in secs.items()}, files


BASES = ["1d", "1d-od", "2d", "3d", "mb"]
INT, FLT, BOOL, STR = "int", "float", "bool", "str"


def table(name):
    """{(section, option): (type, required, range, choices)}"""
    dim = {"1d": 1, "1d-od": 1, "2d": 2, "3d": 3, "mb": 2}[name]
    L = lambda t: t if dim == 1 else "list " + t  # noqa: E731
    t = {
        ("ld", "type"): (STR, True, None, ["bussi-parinello", "overdamped"]),
        ("ld", "timestep"): (FLT, True, "nonneg", None),
        ("ld", "n_steps"): (INT, True, "pos", None),
        ("ld", "seed"): (INT, False, None, None),
        ("potential", "type"): (STR, True, None, ["polynomial", "mueller-brown"]),
        ("potential", "boundary-condition"): (STR, False, None, ["reflective", "periodic"]),
        ("particles", "number"): (INT, True, "pos", None),
        ("particles", "mass"): (FLT, False, "pos", None),
        ("particles", "seed"): (INT, False, None, None),
        ("particles", "initial-distribution"): (STR, True, None, ["random-global", "random-pos", "fractions-pos"]),
        ("particles", "pos1"): ("list float", True, None, None),
        ("particles", "fractions"): ("list float", True, None, None),
        ("birth_death", "stride"): (INT, True, "pos", None),
        ("birth_death", "kernel-bandwidth"): (L(FLT), True, "pos", None),
        ("birth_death", "approximation-variant"): (STR, False, None, ["orig"]),
        ("birth_death", "exponential-factor"): (FLT, False, "pos", None),
        ("birth_death", "recalculate-probabilities"): (BOOL, False, None, None),
        ("birth_death", "stats-stride"): (INT, False, "pos", None),
        ("birth_death", "seed"): (INT, False, None, None),
        ("trajectories", "stride"): (INT, False, "pos", None),
        ("trajectories", "momentum"): (BOOL, False, None, None),
        ("trajectories", "write-stride"): (INT, False, "pos", None),
        ("histogram", "stride"): (INT, False, "pos", None),
        ("histogram", "reset"): ("list int", False, "pos", None),
        ("histogram", "write-stride"): (INT, False, "pos", None),
        ("histogram", "min"): (L(FLT), True, None, None),
        ("histogram", "max"): (L(FLT), True, None, None),
        ("histogram", "bins"): (L(INT), True, "pos", None),
        ("fes", "kt"): (FLT, True, "pos", None),
        ("fes", "stride"): (INT, False, "pos", None),
        ("fes", "write-stride"): (INT, False, "pos", None),
        ("fes", "plot-domain"): ("list float", False, None, None),
        ("fes", "plot-stride"): (INT, False, None, None),
        ("delta_f", "stride"): (INT, False, "pos", None),
        ("delta_f", "write-stride"): (INT, False, "pos", None),
        ("particle_distribution", "stride"): (INT, False, "pos", None),
        ("particle_distribution", "write-stride"): (INT, False, "pos", None),
    }
    for sec in ("delta_f", "particle_distribution"):
        for i in (1, 2):
            for m in ("min", "max"):
                t[(sec, f"state{i}-{m}")] = ("list float", True, None, None)
    for i in (2, 3):
        t[("particles", f"pos{i}")] = ("list float", False, None, None)
    if name != "1d-od":
        t[("ld", "kt")] = (FLT, True, "pos", None)
        t[("ld", "friction")] = (FLT, True, "nonneg", None)
    if name == "mb":
        t[("potential", "scaling-factor")] = (FLT, False, None, None)
    else:
        t[("potential", "n_dim")] = (INT, True, "1to3", None)
        t[("potential", "min")] = (L(FLT), True, None, None)
        t[("potential", "max")] = (L(FLT), True, None, None)
        if dim == 1:
            t[("potential", "coeffs")] = ("list float", True, None, None)
        else:
            t[("potential", "coeffs-file")] = (STR, True, None, None)
    return t


def wrong_values(spec):
    """one value of every class the option does not allow"""
    typ, _, rng, choices = spec
    bad = []
    if typ == INT:
        bad += ["abc", "1.5", "2.0", "1e2", "", "1, 2", "ten", "[5]", "5 6", "'5'"]
    elif typ == FLT:
        bad += ["abc", "", "1,5", "1.0.0", "--1", "(1.0)", "1.0 2.0", "1/2", "2*3"]
    elif typ == BOOL:
        bad += ["maybe", "2", "", "tru"]
    elif typ == "list float":
        bad += ["abc", "1.0, b", "b, 1.0", "", "1.0;2.0", "1.0,,2.0", "[1.0, 2.0]", "(1.0, 2.0)", "1.0 2.0", "[1.0]", "1.0,", ", 1.0"]
    elif typ == "list int":
        bad += ["abc", "1, b", "", "1.5, 2", "1;2", "1,,2", "[1, 2]", "(1, 2)", "1 2", "1,", "3.0, 2"]
    if choices:
        bad += ["none-of-these", choices[0] + "s", choices[0][:-1]]
        if choices[0] != "orig":  # spelling variants are only given for the approximation
            bad += ["", choices[0].upper(), choices[-1].capitalize(), choices[0].replace("-", "_") + "_"]
    if typ in (INT, FLT):
        if rng == "pos":
            bad += ["0", "-1"] + ([] if typ == INT else ["-0.5", "0.0", "-inf", "nan"])
        elif rng == "nonneg":
            bad += ["-1", "-0.001", "-inf", "nan"]
        elif rng == "1to3":
            bad += ["0", "4", "-1", "17"]
    elif typ and typ.startswith("list") and rng == "pos":
        bad += ["0", "-1", "2, 0", "0, 2", "3, -1", "2, 2, -1"]
        bad += ["nan", "0.5, nan"] if typ == "list float" else []
    return bad


def sec_name(sec):
    return sec.replace("_", "-")


def run(secs, files, text=None):
    """Run with the real motion; returns (number of steps, Result, digest)"""
    b = env.load()
    steps = []
    digest = []
    with env.scratch(files), env.registry() as got:

        def hook(orig):
            def go(self, step=None):
                steps.append(step)
                digest.append([(tuple(map(float, p.pos)), tuple(map(float, p.mom)), float(p.mass)) for p in self.particles])
                digest.append(sorted((e.name, e.stat().st_size) for e in os.scandir(".") if e.name != "in"))
                return orig(self, step)

            return go

        bp, od = b.bussi_parinello_ld.BussiParinelloLD, b.overdamped_ld.OverdampedLD
        with env.patched(bp, "run", hook(bp.run)), env.patched(od, "run", hook(od.run)):
            res = env.run_main(text if text is not None else inputs.text(**secs))
        if got.ld is not None:
            digest.append([(tuple(map(float, p.pos)), tuple(map(float, p.mom))) for p in got.ld.particles])
        digest.append(sorted((k, v) for k, v in res.files.items() if k not in ("in",) + tuple(files)))
    return len(steps), res, digest


def named(word, res):
    text = "\n".join([x for x in res.log if x.startswith(("ERROR", "CRITICAL"))] + [res.err])
    return re.search(r"(?<![\w-])" + re.escape(word) + r"(?![\w-])", text) is not None


def expect_refusal(what, res, steps, words):
    if steps:
        raise Violation(f"{what}: {steps} time steps were run ({res.status})")
    if res.status != "exit 1":
        raise Violation(f"{what}: ends with '{res.status}' instead of exit status 1")
    if not any(named(w, res) for w in words):
        raise Violation(f"{what}: the error does not name {words}: {res.log} {res.err[-300:]}")


def words_for(opt):
    if opt.startswith("state"):
        return [opt, "statex-min", "statex-max", "state2-min", "state2-max"]
    return [opt]


def apply(secs, fault):
    sec, opt, val = fault
    if val is None:
        secs[sec].pop(opt, None)
    else:
        secs[sec][opt] = val


def check_fault(case, cov):
    """one or several faults, at least one has to be named"""
    secs, files = base(case["base"])
    for f in case.get("with", []):
        apply(secs, f)
    for f in case["faults"]:
        apply(secs, f)
    words = [w for f in case["faults"] for w in words_for(f[1])]
    steps, res, _ = run(secs, files)
    expect_refusal(f"{case}", res, steps, words)
    cov.state(str(case))
    cov.trans()
    cov.trace()
    cov.outcome((tuple(res.log)))
    cov.sample(f"{case['base']} {case['faults']}: {res.log[-1] if res.log else res.err}")


def faults(name):
    t = table(name)
    for (sec, opt), spec in t.items():
        if spec[1]:
            yield [sec, opt, None]
        for v in wrong_values(spec):
            if opt.startswith("plot-"):
                continue
            yield [sec, opt, v]
    yield ["fes", "plot-stride", "abc"]
    yield ["fes", "plot-domain", "0, b"]
    if name in ("2d", "3d", "mb"):
        yield ["birth_death", "kernel-bandwidth", "0.5"]
        yield ["birth_death", "kernel-bandwidth", "0.5, 0.5, 0.5, 0.5"]
    yield ["birth_death", "correction-variant", "nonsense"]


def gen_fault(tier):
    for name in BASES:
        for f in faults(name):
            if f[1] == "correction-variant":
                continue
            yield dict(base=name, faults=[f])
    # whatever the rest of the input is: one walker, no time step, a single step, long runs
    for w in (["particles", "number", "1"], ["particles", "number", "300"], ["ld", "timestep", "0"], ["ld", "n_steps", "1"], ["ld", "n_steps", "2000000"]):
        seen = {}
        for f in faults("1d"):
            if f[1] == "correction-variant" or f[:2] == w[:2] or seen.setdefault((f[0], f[1], f[2] is None), f) is not f:
                continue
            yield dict(base="1d", faults=[f], **{"with": [w]})
    # the deprecated name, alone
    yield dict(base="1d", faults=[["birth_death", "approximation-variant", None], ["birth_death", "correction-variant", "nonsense"]])
    yield dict(base="1d", faults=[["birth_death", "approximation-variant", "nonsense"], ["birth_death", "correction-variant", "add"]])
    # random-pos needs positions as well
    yield dict(base="1d", faults=[["particles", "pos1", None]])
    # states: all missing
    for sec in ("delta_f", "particle_distribution"):
        yield dict(base="1d", faults=[[sec, f"state{i}-{m}", None] for i in (1, 2) for m in ("min", "max")])


def gen_pairs(tier):
    """all pairs of faulty options"""
    for name in BASES if tier == "thorough" else ["1d", "mb"]:
        reps = {}
        for f in faults(name):
            if f[1] == "correction-variant" or f[1].startswith("plot"):
                continue
            reps.setdefault((f[0], f[1]), [])
            if len(reps[(f[0], f[1])]) < (2 if tier == "thorough" else 1):
                reps[(f[0], f[1])].append(f)
        for a, b in itertools.combinations(list(reps), 2):
            if a == ("particle_distribution", "state2-min") and b == ("particle_distribution", "state2-max"):
                continue  # without both one state remains, which is fine
            for x, y in itertools.product(reps[a], reps[b]):
                yield dict(base=name, faults=[x, y])


NEEDS = {"histogram": "trajectories", "fes": "histogram", "delta_f": "fes"}


def check_sections(case, cov):
    """subsets of the sections"""
    secs, files = base(case["base"])
    present = set(case["present"])
    secs = {k: v for k, v in secs.items() if k in present}
    missing = [s for s in ("ld", "potential", "particles") if s not in present]
    missing += [n for s, n in NEEDS.items() if s in present and n not in present]
    steps, res, _ = run(secs, files)
    if missing:
        expect_refusal(f"{case}", res, steps, [sec_name(m) for m in missing])
    elif res.status != "ok" or steps != N:
        raise Violation(f"{case}: {res.status} after {steps} steps: {res.text()[-400:]}")
    cov.state(str(case))
    cov.trans()
    cov.trace()
    cov.outcome((res.status, tuple(res.log)))


def gen_sections(tier):
    for name in BASES if tier == "thorough" else ["1d", "2d"]:
        allsecs = list(base(name)[0])
        for k in range(len(allsecs) + 1):
            for s in itertools.combinations(allsecs, k):
                yield dict(base=name, present=list(s))


def ok_digest(what, secs, files, text=None):
    steps, res, digest = run(secs, files, text)
    if res.status != "ok":
        raise Violation(f"{what}: the program refuses a valid input: {res.status} {res.log} {res.text()[-400:]}")
    return digest


def differ(a, b):
    if len(a) != len(b):
        return f"{len(a)} vs {len(b)} observations"
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"observation {i}: {str(x)[:300]} vs {str(y)[:300]}"
    return None


# documented defaults; None: left out and 'explicit' mean the same
DEFAULTS = {
    ("particles", "mass"): "1.0",
    ("birth_death", "recalculate-probabilities"): "false",
    ("birth_death", "approximation-variant"): "original",
    ("birth_death", "exponential-factor"): "1.0",
    ("trajectories", "stride"): "1",
    ("trajectories", "write-stride"): "100",
    ("trajectories", "momentum"): "false",
    ("trajectories", "fmt"): FMT,
    ("histogram", "stride"): "1",
    ("histogram", "fmt"): FMT,
    ("fes", "fmt"): FMT,
    ("delta_f", "write-stride"): "200",
    ("delta_f", "fmt"): FMT,
    ("particle_distribution", "write-stride"): "200",
    ("particle_distribution", "fmt"): FMT,
}


def check_default(case, cov):
    """the option left out is the option at its default (in an otherwise perturbed input)"""
    secs, files = base(case["base"])
    secs["ld"]["n_steps"] = case.get("n", N)
    for f in case.get("changes", []):
        apply(secs, f)
    a = {k: dict(v) for k, v in secs.items()}
    for sec, opt in case["opts"]:
        a[sec].pop(opt, None)
        secs[sec][opt] = DEFAULTS[(sec, opt)]
    d = differ(ok_digest(case, a, files), ok_digest(case, secs, files))
    if d:
        raise Violation(f"{case}: leaving the options out is not {[DEFAULTS[tuple(o)] for o in case['opts']]}: {d}")
    cov.state(str(case))
    cov.trans()
    cov.trace(2)


def gen_default(tier):
    opts = [list(o) for o in DEFAULTS]
    for name in ("1d", "1d-od", "2d"):
        for o in opts:
            yield dict(base=name, opts=[o])
            if "write-stride" in o[1]:
                yield dict(base=name, opts=[o], n=205)
    # all subsets within a section
    for sec in ("trajectories", "histogram", "fes", "delta_f", "particle_distribution", "birth_death"):
        own = [o for o in opts if o[0] == sec]
        for k in range(2, len(own) + 1):
            for s in itertools.combinations(own, k):
                yield dict(base="1d", opts=list(s))
    yield dict(base="1d", opts=opts, n=205)
    yield dict(base="2d", opts=opts)
    yield dict(base="1d", opts=[["delta_f", "write-stride"]], changes=[["delta_f", "stride", "2"]], n=410)


SPELLINGS = {
    BOOL: {"true": ["True", "yes", "on", "1", "YES"], "false": ["False", "no", "off", "0", "Off"]},
    INT: [("{}", " {} "), ("{}", "+{}")],
}


def gen_same(tier):
    """rewritings that mean the same"""
    for name in BASES:
        secs, _ = base(name)
        for sec, opts in secs.items():
            for opt in opts:
                # moved to [DEFAULT]; all other sections have their own value or do not know the option
                yield dict(base=name, kind="inherit", sec=sec, opt=opt)
        yield dict(base=name, kind="override")
        yield dict(base=name, kind="unknown")
        yield dict(base=name, kind="equals")
        yield dict(base=name, kind="comments")
        yield dict(base=name, kind="upper")
        yield dict(base=name, kind="reversed")
        yield dict(base=name, kind="blanks")
        yield dict(base=name, kind="shared")
    for sec, opt in (("birth_death", "recalculate-probabilities"), ("trajectories", "momentum")):
        for value, others in SPELLINGS[BOOL].items():
            for o in others:
                yield dict(base="1d", kind="spelling", sec=sec, opt=opt, value=value, other=o)
    for v, others in (("orig", ["original"]), ("add", ["additive"]), ("mult", ["multiplicative"])):
        for o in others:
            yield dict(base="1d", kind="spelling", sec="birth_death", opt="approximation-variant", value=v, other=o)
        yield dict(base="1d", kind="variant-alias", value=v, other=o)
        for w in ("orig", "add", "mult"):
            yield dict(base="1d", kind="variant-both", value=v, other=w)
    yield dict(base="1d", kind="coeffs-file")
    yield dict(base="2d", kind="relative-fractions", fr=[4, 4, 2])
    yield dict(base="2d", kind="relative-fractions", fr=[0.4, 0.4, 0.2])


UNKNOWN = {
    "frictoin": "3", "Kt2": "abc", "foo": "", "stride2": "-1", "coefs": "1,2", "pos": "a", "state-min": "x", "write_stride": "-3", "n-steps": "0",
}


def check_same(case, cov):
    secs, files = base(case["base"])
    orig = {k: dict(v) for k, v in secs.items()}
    kind = case["kind"]
    text = None
    if kind == "inherit":
        val = secs[case["sec"]].pop(case["opt"])
        secs = {"DEFAULT": {case["opt"]: val}, **secs}
    elif kind == "override":
        d = {}
        for sec, opts in secs.items():
            for opt in opts:
                # the value of another section or nonsense, unless a section reads it only from here
                if all(opt in o for s, o in secs.items() if (s, opt) in table(case["base"])):
                    d[opt] = "nonsense"
        for skip in ("filename", "fmt", "stats-filename"):
            d[skip] = "nonsense" if skip != "fmt" else "%%3.1f"
        secs = {"DEFAULT": d, **secs}
    elif kind == "unknown":
        for sec in secs:
            secs[sec].update(UNKNOWN)
        secs = {"DEFAULT": dict(UNKNOWN), **secs, "output": {"stride": "a"}, "histograms": {"bins": 1}, "LD": {"kt": "x"}}
    elif kind == "equals":
        text = re.sub(r"(?m)^([\w-]+): ", r"\1 = ", inputs.text(**secs))
    elif kind == "comments":
        text = "# a comment\n; another\n" + inputs.text(**secs).replace("\n", "\n# comment: 1\n\n")
    elif kind == "upper":
        text = re.sub(r"(?m)^([\w-]+):", lambda m: m.group(0).upper(), inputs.text(**secs))
    elif kind == "reversed":
        secs = {k: dict(reversed(list(v.items()))) for k, v in reversed(list(secs.items()))}
    elif kind == "blanks":
        text = re.sub(r"(?m)^([\w-]+): (.*)$", lambda m: f"{m.group(1)} :   {m.group(2).replace(', ', ' ,   ')}  ", inputs.text(**secs))
    elif kind == "shared":
        # a value all sections inherit is the value written everywhere
        d = {}
        for opt, val in (("kt", 1.75), ("seed", 11), ("stride", 3), ("write-stride", 6), ("fmt", "%%10.4f")):
            for sec in secs:
                if opt in secs[sec]:
                    orig[sec][opt] = val
                    secs[sec].pop(opt)
            d[opt] = val
        secs = {"DEFAULT": d, **secs}
    elif kind == "spelling":
        orig[case["sec"]][case["opt"]] = case["value"]
        secs[case["sec"]][case["opt"]] = case["other"]
    elif kind == "variant-alias":
        orig["birth_death"]["approximation-variant"] = case["value"]
        del secs["birth_death"]["approximation-variant"]
        secs["birth_death"]["correction-variant"] = case["other"]
    elif kind == "variant-both":
        orig["birth_death"]["approximation-variant"] = case["value"]
        secs["birth_death"].update({"approximation-variant": case["value"], "correction-variant": case["other"]})
    elif kind == "coeffs-file":
        c = secs["potential"].pop("coeffs")
        secs["potential"]["coeffs-file"] = "pot.coeffs"
        files = {"pot.coeffs": sysb.coeffs_file({(i,): x for i, x in enumerate(c)})}
    elif kind == "relative-fractions":
        secs["particles"]["fractions"] = case["fr"]
    a = ok_digest(case, orig, files)
    b = ok_digest(case, secs, files, text)
    d = differ(a, b)
    if d:
        raise Violation(f"{case}: the input means something else: {d}")
    cov.state(str(case))
    cov.trans()
    cov.trace(2)


def alternatives(name):
    """(section, option) -> valid values that all have to make a difference"""
    one = name.startswith("1d")
    dim = {"1d": 1, "1d-od": 1, "2d": 2, "3d": 3, "mb": 2}[name]

    alt = {
        ("ld", "timestep"): ["0.125", "0.25", "0.001", "1e-2", "0"],
        ("ld", "n_steps"): ["12", "1", "2", "13", "30"],
        ("ld", "seed"): ["0", "1", "2", "1000", str(2**40)],
        ("particles", "number"): ["5", "1", "2", "10"],
        ("particles", "fractions"): ["2, 2, 1", "1, 0, 0", "0, 1, 0", "0, 0, 1"],
        ("birth_death", "stride"): ["1", "2", "3", "5"],
        ("birth_death", "exponential-factor"): ["0.01", "4.0", "32", "1e3"],
        ("birth_death", "seed"): ["0", "1", "2", "1000"],
        ("birth_death", "recalculate-probabilities"): ["true", "false"],
        ("birth_death", "stats-stride"): ["1", "2", "3", "4"],
        ("birth_death", "stats-filename"): ["stats", "other.dat"],
        ("trajectories", "filename"): ["traj", "Some.Name", None],
        ("trajectories", "stride"): ["1", "2"],
        ("trajectories", "write-stride"): ["1", "2", "3", "6"],
        ("trajectories", "momentum"): ["true", "false"],
        ("trajectories", "fmt"): ["%%14.9f", "%%12.4e", "%%.17g"],
        ("histogram", "stride"): ["1", "2", "3"],
        ("histogram", "reset"): ["5", "4", "4, 9", "11", None],
        ("histogram", "filename"): ["histo", "other", None],
        ("histogram", "write-stride"): ["1", "2", "3", None],
        ("histogram", "fmt"): ["%%14.9f", "%%.1f"],
        ("fes", "kt"): ["1.5", "1.25", "0.5", "10"],
        ("fes", "stride"): ["2", "3", "4"],
        ("fes", "filename"): ["fes", "other"],
        ("fes", "write-stride"): ["1", "2", "3", None],
        ("fes", "fmt"): ["%%14.9f", "%%.1f"],
        ("delta_f", "stride"): ["1", "2", None],
        ("delta_f", "filename"): ["df", "other"],
        ("delta_f", "write-stride"): ["2", "4", "6"],
        ("delta_f", "fmt"): ["%%14.9f", "%%.1f"],
        ("particle_distribution", "stride"): ["1", "2", None],
        ("particle_distribution", "filename"): ["pd", "other"],
        ("particle_distribution", "write-stride"): ["2", "4", "6"],
        ("particle_distribution", "fmt"): ["%%14.9f", "%%.1f"],
    }
    if name != "1d-od":  # the mass has no effect on the overdamped motion
        alt[("ld", "kt")] = ["1.25", "0.5", "3"]
        alt[("ld", "friction")] = ["2.0", "0", "10", "0.1"]
        alt[("particles", "mass")] = ["1.5", "1", "0.5", "10"]
    if one:
        alt[("birth_death", "approximation-variant")] = ["orig", "add", "mult"]
        alt[("birth_death", "kernel-bandwidth")] = ["0.5", "0.1", "1", "2.0"]
        alt[("potential", "coeffs")] = ["0.5, 0.25, -1.0, 0, 0.25", "0, 0.25", "0, -1, 0.5", "0, 0, 0, 0.1"]
        alt[("particles", "pos1")] = ["-0.5", "1", "0.125"]
        alt[("particles", "pos3")] = ["0.0", "1", "-2.5"]
        alt[("histogram", "bins")] = ["8", "4", "9"]
        alt[("histogram", "min")] = ["-3", "-2", "0"]
        alt[("histogram", "max")] = ["3", "2", "0.5"]
    else:
        v = {2: ["0.5, 0.25", "0.25, 0.5", "0.5, 0.5"], 3: ["0.5, 0.25, 0.75", "0.25, 0.5, 0.75", "0.5, 0.25, 0.25"]}[dim]
        alt[("birth_death", "kernel-bandwidth")] = v
        alt[("histogram", "bins")] = {2: ["4, 6", "6, 4", "4, 5"], 3: ["4, 6, 3", "4, 3, 6", "2, 2, 2"]}[dim]
        alt[("histogram", "min")] = {2: ["-3, -2", "-2, -3", "-3, -1"], 3: ["-3, -2, -1", "-2, -3, -1", "-3, -2, 0"]}[dim]
        alt[("histogram", "max")] = {2: ["3, 5", "5, 3", "3, 4"], 3: ["3, 5, 7", "5, 3, 7", "3, 5, 6"]}[dim]
        alt[("particles", "pos1")] = {2: ["0.5, 0.25", "0.25, 0.5"], 3: ["0.5, 0.25, 1", "0.5, 1, 0.25"]}[dim]
    if name == "mb":
        alt[("potential", "scaling-factor")] = ["0.5", "2", "0.01", "0"]
    return alt


def check_effect(case, cov):
    """every value makes another run"""
    seen = []
    for v in case["values"]:
        secs, files = base(case["base"])
        if case["sec"] == "birth_death":  # many events: no coincidences
            secs["ld"]["n_steps"], secs["particles"]["number"] = 60, 12
            secs["birth_death"].update({"exponential-factor": 8.0, "stats-stride": 12})
        apply(secs, [case["sec"], case["opt"], v])
        if v is None and case["opt"] == "filename":
            secs[case["sec"]].pop("write-stride", None)
        if v is None and case["opt"] == "stride":
            secs[case["sec"]].pop("write-stride", None)
        dig = ok_digest(f"{case} {v}", secs, files)
        for w, other in seen:
            if differ(dig, other) is None:
                raise Violation(f"{case}: the values {w} and {v} give the same run")
        seen.append((v, dig))
        cov.state((str(case), v))
        cov.trans()
        cov.trace()
    cov.outcome(str(case))


def gen_effect(tier):
    for name in BASES:
        for (sec, opt), values in alternatives(name).items():
            yield dict(base=name, sec=sec, opt=opt, values=values)


def check_value(case, cov):
    """values that can be read off directly"""
    kind = case["kind"]
    b = env.load()
    if kind == "range":
        # random placement shows both ends of every dimension
        secs, files = base(case["base"])
        dim = len(case["lo"])
        secs["potential"].update({"min": case["lo"][0] if dim == 1 else case["lo"], "max": case["hi"][0] if dim == 1 else case["hi"]})
        secs["particles"] = {"number": 1, "initial-distribution": "random-global"}
        secs = {k: secs[k] for k in ("ld", "potential", "particles")}
        for u in (0.25, 0.75):

            def go():
                with env.choice_mode():
                    return [float(x) for x in env.build(inputs.text(**secs), files).ld.particles[0].pos]

            got = sysb.with_draws(go, uniforms=(u,))
            want = [a + u * (c - a) for a, c in zip(case["lo"], case["hi"])]
            if not sysb.close(got, want):
                raise Violation(f"{case}: a uniform number {u} places at {got} instead of {want}")
    elif kind == "fmt":
        # the text of every file is the format applied to the values
        secs, files = base(case["base"])
        for sec in secs:
            if "fmt" in secs[sec]:
                secs[sec]["fmt"] = "%%.17g"
        secs["trajectories"]["momentum"] = "true"
        _, exact, _ = run(secs, files)
        for sec in secs:
            if "fmt" in secs[sec]:
                secs[sec]["fmt"] = case["fmt"].replace("%", "%%")
        _, res, _ = run(secs, files)
        if exact.status != "ok" or res.status != "ok":
            raise Violation(f"{case}: {exact.status} {res.status}")
        n = 0
        for name, content in exact.files.items():
            if name in files or name == "stats" or name.startswith("in"):
                continue
            a, c = content.decode().splitlines(), res.files.get(name, b"").decode().splitlines()
            if len(a) != len(c):
                raise Violation(f"{case}: {name} has {len(c)} lines instead of {len(a)}")
            for x, y in zip(a, c):
                if x.startswith("#"):
                    continue
                want = [(case["fmt"] % float(v)).strip() for v in x.split()]
                if y.split() != want:
                    raise Violation(f"{case}: {name} has the line {y!r} instead of {want}")
                n += 1
        if not n:
            raise Violation(f"{case}: no data in any file")
    elif kind == "time":
        secs, files = base(case["base"])
        secs["ld"]["timestep"] = case["dt"]
        secs["ld"]["n_steps"] = case["n"]
        secs["trajectories"]["fmt"] = "%%.15g"
        steps, res, _ = run(secs, files)
        got = [r[0] for r in env.data_rows(res.files.get("traj.0", b""))]
        want = [i * float(case["dt"]) for i in range(1, case["n"] + 1)]
        if steps != case["n"] or not sysb.close(sorted(x for x in got if x), [x for x in want if x], 1e-9):
            raise Violation(f"{case}: {steps} steps at times {got}")
    elif kind == "potential":
        secs, files = base(case["base"])
        ld = env.build(inputs.text(**secs), files).ld
        scale = {}
        for s in (None, "1", "2", "0.25", "0", "-1"):
            apply(secs, ["potential", "scaling-factor", s])
            ld = env.build(inputs.text(**secs), files).ld
            e, f = ld.pot.evaluate(np.array([0.3, 0.7]))
            scale[s] = (float(e), [float(x) for x in f])
        for s, k in ((None, 1.0), ("2", 2.0), ("0.25", 0.25), ("0", 0.0), ("-1", -1.0)):
            if not sysb.close(scale[s][1], [k * x for x in scale["1"][1]], 1e-9):
                raise Violation(f"{case}: scaling factor {s}: {scale[s]} compared to {scale['1']}")
    elif kind == "bc":
        secs, files = base(case["base"])
        apply(secs, ["potential", "boundary-condition", case["bc"]])
        secs["ld"]["timestep"] = 0.0
        if "friction" in secs["ld"]:
            secs["ld"]["friction"] = 0.0
        got = env.build(inputs.text(**{k: secs[k] for k in ("ld", "potential", "particles")}), files)
        p = sysb.set_walker(got.ld, 0, [x + 0.5 for x in case["hi"]])
        with env.quiet():
            got.ld.run(1)
        x = [float(v) for v in got.ld.particles[0].pos]
        want = {
            None: [v + 0.5 for v in case["hi"]], "reflective": list(case["hi"]), "periodic": [v + 0.5 for v in case["lo"]],
        }[case["bc"]]
        if not sysb.close(x, want):
            raise Violation(f"{case}: walker beyond the range ends up at {x} instead of {want}")
    elif kind == "seeds":
        # a seed shared through [DEFAULT] reaches all three generators
        secs, files = base(case["base"])
        secs["particles"] = {"number": 4, "initial-distribution": "random-global"}
        for s in ("ld", "birth_death"):
            secs[s].pop("seed")
        runs_ = [ok_digest(case, {"DEFAULT": {"seed": case["seed"]}, **secs}, files) for _ in range(2)]
        if differ(*runs_):
            raise Violation(f"{case}: two runs with the same seed differ: {differ(*runs_)}")
    elif kind == "file-name":
        # every character of a value counts
        secs, files = base(case["base"])
        name = case["name"]
        for sec, opt in NAMED.values():
            secs[sec][opt] = (name + opt[0] + sec).replace("%", "%%")
        steps, res, _ = run(secs, files)
        want = set()
        for k, (sec, opt) in NAMED.items():
            f = name + opt[0] + sec
            want |= {f"{f}.{i}" for i in range(5)} if k == "traj" else {f, f + "_4", f + "_8", f + "_12"} if k in ("histo", "fes") else {f}
        got = {f for f in res.files if f != "in" and f not in files}
        if res.status != "ok" or got != want:
            raise Violation(f"{case}: {res.status}, files {sorted(got)} instead of {sorted(want)}")
    elif kind == "many-states":
        # all states reach the run, in their order
        secs, files = base(case["base"])
        k = case["states"]
        lo, hi = [[-4.0], [-4.0, -4.0]][case["base"] == "2d"], [[8.0], [8.0, 8.0]][case["base"] == "2d"]
        st = {}
        for i in range(k):
            for m, x in (("min", lo), ("max", hi)):
                st[f"state{i+1}-{m}"] = list(x) if i % 3 == 0 or m == "min" else [lo[0] + 0.5 + 0.25 * i] + hi[1:]
        names = list(st)
        for sec in ("delta_f", "particle_distribution"):
            for o in [o for o in secs[sec] if o.startswith("state")]:
                del secs[sec][o]
            secs[sec].update({o: st[o] for o in (names if case["order"] == "up" else names[::-1])})
        steps, res, _ = run(secs, files)
        if res.status != "ok":
            raise Violation(f"{case}: {res.status} {res.text()[-300:]}")
        for f, cols in (("df", k), ("pd", k + 1)):
            rows = env.data_rows(res.files.get(f, b""))
            if not rows or any(len(r) != cols for r in rows):
                raise Violation(f"{case}: rows of {f} are {rows[:2]}, {k} states are given")
        for r in env.data_rows(res.files["pd"]):
            for i in range(k):
                if i % 3 == 0 and r[i + 1] != 5:
                    raise Violation(f"{case}: {r[i + 1]} of 5 walkers in state {i + 1}, which is everything")
    elif kind == "many-positions":
        secs, files = base(case["base"])
        pos = [[-2.5 + 0.125 * i] for i in range(case["n"])]
        secs["particles"] = {"number": case["n"], "initial-distribution": "fractions-pos", "fractions": [1] * case["n"]}
        opts = inputs.pos_opts(pos)
        secs["particles"].update({o: opts[o] for o in (opts if case["order"] == "up" else list(opts)[::-1])})
        ld = env.build(inputs.text(**{k: secs[k] for k in ("ld", "potential", "particles")}), files).ld
        got = sorted(float(p.pos[0]) for p in ld.particles)
        if got != [x for (x,) in pos]:
            raise Violation(f"{case}: walkers at {got}")
    elif kind == "accepted":
        # large and small values are as good as any other
        secs, files = base(case["base"])
        for f in case["changes"]:
            apply(secs, f)
        secs = {k: secs[k] for k in secs if k in case.get("only", secs)}
        try:
            env.build(inputs.text(**secs), files)
        except env.SetupFailed as e:
            raise Violation(f"{case}: a valid input is refused: {e}")
    elif kind == "bare":
        # an option without a value
        secs, files = base(case["base"])
        lines = inputs.text(**secs).splitlines()
        sec, out = None, []
        for l in lines:
            if l.startswith("["):
                sec = l
            if sec == f"[{sec_name(case['sec'])}]" and l.startswith(case["opt"] + ":"):
                l = case["opt"]
            out.append(l)
        steps, res, _ = run(secs, files, "\n".join(out) + "\n")
        if steps or res.status == "ok" or not (named(case["opt"], res) or case["opt"] in res.status):
            raise Violation(f"{case}: {res.status} after {steps} steps, {res.log}")
    elif kind == "missing-file":
        with env.scratch():
            res = env.run_main(None, argv=["nowhere.inp"])
        if res.status != "exit 1" or not named("nowhere.inp", res):
            raise Violation(f"{case}: {res.status} {res.log}")
    cov.state(str(case))
    cov.trans()
    cov.trace()


def gen_value(tier):
    for lo, hi in (([-3.0], [3.0]), ([0.0], [1.0]), ([-10.0], [-5.0]), ([1e-3], [1e3])):
        yield dict(kind="range", base="1d", lo=lo, hi=hi)
    for lo, hi in (([-3.0, -2.0], [3.0, 5.0]), ([0.0, 10.0], [1.0, 20.0])):
        yield dict(kind="range", base="2d", lo=lo, hi=hi)
    yield dict(kind="range", base="3d", lo=[0.0, 10.0, -5.0], hi=[1.0, 20.0, -1.0])
    for fmt in ("%14.9f", "%.3f", "%12.5e", "%g", "%8.2f", "%+.6f"):
        for name in ("1d", "2d"):
            yield dict(kind="fmt", base=name, fmt=fmt)
    for dt in ("0.125", "0.01", "1e-3", "2", ".5", "5E-2"):
        for n in (1, 3, 12):
            for name in ("1d", "1d-od"):
                yield dict(kind="time", base=name, dt=dt, n=n)
    yield dict(kind="potential", base="mb")
    for bc in (None, "reflective", "periodic"):
        for name in ("1d", "1d-od"):
            yield dict(kind="bc", base=name, bc=bc, lo=[-3.0], hi=[3.0])
        yield dict(kind="bc", base="2d", bc=bc, lo=[-3.0, -2.0], hi=[3.0, 5.0])
        yield dict(kind="bc", base="mb", bc=bc, lo=[-1.5, -0.5], hi=[1.5, 2.5])
    for seed in (0, 1, 5):
        yield dict(kind="seeds", base="1d", seed=seed)
        yield dict(kind="seeds", base="1d-od", seed=seed)
    yield dict(kind="missing-file", base="1d")
    for name in BASES:
        for (sec, opt), spec in table(name).items():
            if spec[0] != STR and opt in base(name)[0][sec]:
                yield dict(kind="bare", base=name, sec=sec, opt=opt)
        for sec, opt in (("ld", "n_steps"), ("birth_death", "stride"), ("birth_death", "stats-stride"), ("trajectories", "stride"), ("ld", "seed")):
            for v in ("1", "1000", "1000000", str(2**31), str(10**12)):
                if (opt == "stride" and sec == "trajectories") and int(v) > 1000:
                    continue
                yield dict(kind="accepted", base=name, changes=[[sec, opt, v]], only=["ld", "potential", "particles", "birth_death", "trajectories"])
        for opt, sec in (("timestep", "ld"), ("kt", "ld"), ("friction", "ld"), ("mass", "particles"), ("exponential-factor", "birth_death")):
            for v in ("1e-12", "1e-3", "17", "1e9"):
                if opt == "timestep" and v == "1e9":
                    continue
                if opt in base(name)[0][sec]:
                    yield dict(kind="accepted", base=name, changes=[[sec, opt, v]], only=["ld", "potential", "particles", "birth_death"])
        yield dict(kind="accepted", base=name, changes=[["particles", "number", "2000"]], only=["ld", "potential", "particles"])
    for name in ("a b", "run#1", "x ;y", "x #y", "r=1", "p:q", "50%", "[a]", "ünï", "a,b", "$HOME", "~", "true"):
        yield dict(kind="file-name", base="1d", name=name)
    for name in ("1d", "2d"):
        for k in (2, 3, 5, 9, 10, 11, 12, 13, 30):
            for order in ("up", "down"):
                yield dict(kind="many-states", base=name, states=k, order=order)
    for n in (1, 2, 9, 10, 11, 12, 25, 40):
        for order in ("up", "down"):
            yield dict(kind="many-positions", base="1d", n=n, order=order)


NAMED = {
    "stats": ("birth_death", "stats-filename"), "traj": ("trajectories", "filename"), "histo": ("histogram", "filename"),
    "fes": ("fes", "filename"), "df": ("delta_f", "filename"), "pd": ("particle_distribution", "filename"),
}


def check_names(case, cov):
    """exactly the files the input asks for"""
    secs, files = base(case["base"])
    dim = {"1d": 1, "2d": 2}[case["base"]]
    want = set()
    for k, (sec, opt) in NAMED.items():
        if k in case["named"]:
            if k == "traj":
                want |= {f"traj.{i}" for i in range(5)}
            elif k in ("histo", "fes"):
                want |= {k, f"{k}_4", f"{k}_8", f"{k}_12"}
            else:
                want.add(k)
        else:
            secs[sec].pop(opt)
            if k != "traj":
                secs[sec].pop("write-stride", None)
            if not case["strides"] and k in ("df", "pd"):
                secs[sec].pop("stride", None)
    steps, res, _ = run(secs, files)
    if res.status != "ok" or steps != N:
        raise Violation(f"{case}: {res.status} after {steps} steps: {res.text()[-400:]}")
    got = {f for f in res.files if f != "in" and f not in files}
    if got != want:
        raise Violation(f"{case}: files {sorted(got)} instead of {sorted(want)}")
    cov.state(str(case))
    cov.trans()
    cov.trace()


def gen_names(tier):
    names = ["stats", "traj", "histo", "fes", "df", "pd"]
    for name in ("1d", "2d"):
        for k in range(7):
            for n in itertools.combinations(names, k):
                for strides in (True, False):
                    yield dict(base=name, named=list(n), strides=strides)


LAUNCH = "import sys; sys.path[:0] = [{root!r}, {repo!r}]; from mc import standin; standin.install(); import runpy; sys.argv = ['bdld', 'in']; {how}"


def check_process(case, cov):
    """the whole program as its own process"""
    secs, files = base("1d")
    for f in case["faults"]:
        apply(secs, f)
    if case.get("drop"):
        del secs[case["drop"]]
    how = {
        "module": "runpy.run_module('bdld', run_name='__main__')",
        "script": f"runpy.run_path({os.path.join(env.REPO, 'bin', 'bdld_run')!r}, run_name='__main__')",
    }[case["how"]]
    with env.scratch(files) as d:
        with open("in", "w") as f:
            f.write(inputs.text(**secs))
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR=d)
        p = subprocess.run(
            [sys.executable, "-W", "ignore", "-c", LAUNCH.format(root=ROOT, repo=env.REPO, how=how)],
            cwd=d, env=e, stdin=subprocess.DEVNULL, capture_output=True, text=True, timeout=300,
        )
        left = sorted(os.listdir("."))
    word = case.get("word")
    if word is None:
        if p.returncode != 0 or "histo" not in left:
            raise Violation(f"{case}: exit status {p.returncode}: {p.stderr[-500:]}")
    else:
        if p.returncode != 1 or word not in p.stderr:
            raise Violation(f"{case}: exit status {p.returncode}, stderr {p.stderr[-500:]!r} instead of 1 and '{word}'")
    cov.state(str(case))
    cov.trans()
    cov.trace()


def gen_process(tier):
    for how in ("module", "script"):
        yield dict(how=how, faults=[])
        yield dict(how=how, faults=[["ld", "timestep", None]], word="timestep")
        yield dict(how=how, faults=[["birth_death", "approximation-variant", "nonsense"]], word="approximation-variant")
        yield dict(how=how, faults=[], drop="particles", word="particles")
        yield dict(how=how, faults=[], drop="trajectories", word="trajectories")


FAMILIES = {
    "faults": (gen_fault, check_fault, 16),
    "sections": (gen_sections, check_sections, 16),
    "values": (gen_value, check_value, 4),
    "defaults": (gen_default, check_default, 4),
    "rewritings": (gen_same, check_same, 8),
    "effects": (gen_effect, check_effect, 4),
    "pairs": (gen_pairs, check_fault, 32),
    "names": (gen_names, check_names, 8),
    "process": (gen_process, check_process, 1),
}
