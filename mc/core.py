"""Runs the cases of a property, collects coverage, reports"""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_TIMEOUT = 500


class Violation(Exception):
    """The property does not hold in this case

    :param key: identifies a known finding, None for everything else
    """

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class CaseTimeout(BaseException):
    pass


def _alarm(*_):
    raise CaseTimeout


def h64(key):
    return int.from_bytes(
        hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), "little"
    )


class Coverage:
    """Counters of one worker or of the whole run"""

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.samples = []
        self.findings = {}
        self.extra = {}

    def state(self, key):
        self.states.add(h64(key))

    def outcome(self, key):
        self.outcomes.add(h64(key))

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(text)

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def finding(self, key, what):
        """A failure listed in known-findings (checked by the caller of run)"""
        self.findings.setdefault(key, what)

    def merge(self, o):
        self.states |= o.states
        self.outcomes |= o.outcomes
        self.transitions += o.transitions
        self.traces += o.traces
        for s in o.samples:
            self.sample(s)
        for k, v in o.extra.items():
            self.count(k, v)
        for k, v in o.findings.items():
            self.findings.setdefault(k, v)


def known_findings():
    """{(property, key)} of the known: lines of known-findings.txt"""
    res = {}
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                words = line.split()
                pid = words[1].split("=", 1)[1]
                key = words[2].split("=", 1)[1]
                res[(pid, key)] = " ".join(words[3:])
    return res


def run_case(mod, family, case, cov):
    """One case; returns None or the message of the violation"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        mod.FAMILIES[family][1](case, cov)
        return None
    except Violation as v:
        if v.key is not None:
            cov.finding(v.key, str(v))
            return None
        return str(v)
    except CaseTimeout:
        return f"no answer within {CASE_TIMEOUT} s"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb[::-1][:6])
        return f"unexpected {type(e).__name__}: {e} [{where}]"
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _work(args):
    modname, family, cases = args
    mod = importlib.import_module(modname)
    cov = Coverage()
    for case in cases:
        msg = run_case(mod, family, case, cov)
        if msg is not None:
            return cov, (family, case, msg)
    return cov, None


def _chunks(it, n):
    buf = []
    for x in it:
        buf.append(x)
        if len(buf) == n:
            yield buf
            buf = []
    if buf:
        yield buf


def write_replay(pid, family, case, msg):
    d = os.path.join(ROOT, "replays", pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "violation.json")
    with open(path, "w") as f:
        json.dump(
            dict(property=pid, family=family, case=case, message=msg), f, indent=1
        )
    return path


def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname = f"mc.props.{pid.lower()}"
    total = Coverage()
    violation = None
    families = {}
    try:
        mod = importlib.import_module(modname)
        from . import env

        env.load()
    except Exception as e:
        traceback.print_exc()
        violation = ("import", {}, f"bdld cannot be imported: {type(e).__name__}: {e}")
        mod = None
    if mod is not None:
        workers = min(8, os.cpu_count() or 1)
        ctx = multiprocessing.get_context("fork")
        with cf.ProcessPoolExecutor(workers, mp_context=ctx) as pool:
            futs = {}
            for family, spec in mod.FAMILIES.items():
                gen = spec[0]
                chunk = spec[2] if len(spec) > 2 else 8
                cases = list(gen(tier))
                families[family] = len(cases)
                for part in _chunks(cases, chunk):
                    futs[pool.submit(_work, (modname, family, part))] = part
            try:
                for fut in cf.as_completed(futs):
                    cov, bad = fut.result()
                    total.merge(cov)
                    if bad is not None:
                        # the simplest case is reported: families and cases are ordered
                        order = list(mod.FAMILIES)
                        rank = (order.index(bad[0]), len(json.dumps(bad[1])))
                        if violation is None or rank < violation[3]:
                            violation = bad + (rank,)
                        for f in futs:
                            f.cancel()
                        break
            except cf.process.BrokenProcessPool as e:
                violation = ("pool", {}, f"a worker process died: {e}", None)
            finally:
                for f in futs:
                    f.cancel()
                if violation is not None:  # decided: do not wait for cases that still run
                    for proc in list((getattr(pool, "_processes", None) or {}).values()):
                        proc.kill()
    # known findings
    known = known_findings()
    nviol = 0
    lines = []
    for key, what in sorted(total.findings.items()):
        if (pid, key) in known:
            lines.append(f"KNOWN-FINDING: property={pid} {known[(pid, key)]}")
        elif violation is None:
            violation = ("finding", {"key": key}, what)
    if violation is not None:
        nviol = 1
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=len(total.states),
            transitions=total.transitions,
            traces_validated_against_impl=total.traces,
            distinct_outcomes=len(total.outcomes),
            cases_per_family=families,
            exhaustive=violation is None,
            bounds=getattr(mod, "BOUNDS", {}).get(tier, "") if mod else "",
            rule=getattr(mod, "RULE", "") if mod else "",
            samples=total.samples or ["none"],
            **total.extra,
        ),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
        wall_s=round(time.time() - t0, 2),
        violations=nviol,
    )
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(
        f"{pid} {tier}: states={c['states']} transitions={c['transitions']} "
        f"traces={c['traces_validated_against_impl']} outcomes={c['distinct_outcomes']} "
        f"cases={families} wall={ev['wall_s']}s"
    )
    for line in lines:
        print(line)
    if violation is not None:
        path = write_replay(pid, violation[0], violation[1], violation[2])
        print(f"{pid}: family={violation[0]} case={json.dumps(violation[1])[:1500]}")
        print(f"{pid}: {violation[2][:3000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    return 0
