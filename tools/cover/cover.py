"""Which combinations of circumstances do the checks meet?

cover.py CHECK.. : runs the quick checks on an instrumented scratch copy and lists, for every instrumented action, the pairs of
(feature, value) that occur somewhere each but never together. A missing pair is not an error (some exclude each other); it
shows where a bug that needs both would go unnoticed.
"""
import collections, glob, itertools, json, os, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
TREE, OUT = "/tmp/covertree", "/tmp/coverout"
NOTE = '''
import json, os
_seen = set()
def b(x, *limits):
    """bucket"""
    for l in limits:
        if x < l:
            return "<%g" % l
    return ">=%g" % limits[-1]
def rel(a, c):
    if not a or not c:
        return "none" if not a else "only"
    return "equal" if a == c else "divides" if c % a == 0 else "multiple" if a % c == 0 else "smaller" if a < c else "larger"
def note(name, **f):
    k = name + json.dumps(f, sort_keys=True, default=str)
    if k not in _seen and len(_seen) < 300000:
        _seen.add(k)
        with open("%s/%s.%d" % (os.environ["COVER_OUT"], name, os.getpid()), "a") as h:
            h.write(json.dumps(f, sort_keys=True, default=str) + "\\n")
'''
HEAD = '''
from bdld._mcnote import note as _note, b as _b, rel as _rel
def _wrap(cls, name):
    def deco(f):
        old = getattr(cls, name)
        def new(self, *a, **k):
            return f(self, old, *a, **k)
        setattr(cls, name, new)
        return f
    return deco
def _bc(pot):
    c = getattr(pot, "boundary_condition", None)
    return None if c is None else c.name
'''
ADD = {
    "bdld/actions/birth_death.py": '''
@_wrap(BirthDeath, "do_birth_death")
def _f(self, old):
    n = len(self.particles)
    self.__dict__["_calls"] = self.__dict__.get("_calls", 0) + 1
    pos = np.array([p.pos for p in self.particles])
    same = len({tuple(p) for p in pos.tolist()}) < n
    moms = any(getattr(p, "mom", None) is not None and np.any(p.mom) for p in self.particles)
    ev = old(self)
    k = [x for _, x in ev]
    _note("bd", n=_b(n, 2, 3, 4, 5, 10, 51, 200), dim=len(self.bw), recalc=bool(self.recalc_probs), variant=self.approx_variant.name,
          kt=_b(self.kt, 0.1, 0.9, 1.1, 5), dt=_b(self.dt, 1e-3, 0.1, 1), fac=_b(self.rate_fac, 0.9, 1.01, 10), stride=_b(self.stride, 2, 10),
          aniso=len(set(self.bw.tolist())) > 1, bw=_b(float(min(self.bw)), 0.1, 0.9), call=_b(self._calls, 2, 3, 50, 1000), events=_b(len(ev), 1, 2, 3, 6), same=same,
          twice=len(set(k)) < len(k), mom=moms)
    return ev
@_wrap(BirthDeath, "calc_betas")
def _f(self, old):
    n = len(self.particles)
    pos = np.array([p.pos for p in self.particles])
    ene = np.array([p.energy for p in self.particles])
    out = False
    if self.approx_grid is not None:
        r = np.array(self.approx_grid.ranges)
        out = bool(np.any((pos < r[:, 0]) | (pos > r[:, 1])))
    beta = old(self)
    _note("beta", n=_b(n, 2, 3, 4, 5, 10, 51, 200, 10001), dim=len(self.bw), variant=self.approx_variant.name, kt=_b(self.kt, 0.1, 0.9, 1.1, 5),
          aniso=len(set(self.bw.tolist())) > 1, bw=_b(float(min(self.bw)), 0.1, 0.9), outside=out, spread=_b(float(np.ptp(pos)), 1e-9, 0.1, 10, 1000), ene=_b(float(np.max(np.abs(ene))), 1e-3, 1, 100, 1e5))
    return beta
@_wrap(BirthDeath.Stats, "print")
def _f(self, old, step, *a):
    _note("stats", step=_b(step, 2, 10, 100, 1000), file=bool(self.stats_filename), dup=_b(self.dup_count, 1, 2, 10, 1000), kill=_b(self.kill_count, 1, 2, 10, 1000), da=_b(self.dup_attempts, 1, 10, 1000), ka=_b(self.kill_attempts, 1, 10, 1000))
    return old(self, step, *a)
@_wrap(BirthDeath, "run")
def _f(self, old, step):
    _note("bdrun", rel=_rel(self.stride, self.stats_stride), phase=step % self.stride == 0, sphase=bool(self.stats_stride) and step % self.stats_stride == 0, recalc=bool(self.recalc_probs), file=bool(self.stats.stats_filename), n=_b(len(self.particles), 2, 3, 5, 20, 200), step=_b(step, 2, 10, 60, 1010), dim=len(self.bw), variant=self.approx_variant.name)
    return old(self, step)
''',
    "bdld/actions/bussi_parinello_ld.py": '''
@_wrap(BussiParinelloLD, "run")
def _f(self, old, step=None):
    self.__dict__["_calls"] = self.__dict__.get("_calls", 0) + 1
    before = [p.pos.copy() for p in self.particles]
    m0 = [p.mom.copy() for p in self.particles]
    old(self, step)
    _ld_note("bp", self, before, m0, friction=_b(self.friction, 1e-9, 0.5, 5), kt=_b(self.kt, 0.1, 0.9, 1.1, 5))
def _ld_note(name, self, before, m0, **more):
    ms = {p.mass for p in self.particles}
    r = np.array(self.pot.ranges)
    x = np.array([p.pos for p in self.particles])
    wall = "none"
    if len(x):
        lo, hi = np.any(x == r[:, 0], axis=0), np.any(x == r[:, 1], axis=0)
        wall = "".join("b" if a and c else "l" if a else "h" if c else "." for a, c in zip(lo, hi))
    jump = float(np.max(np.abs(x - np.array(before)))) if len(x) else 0
    _note(name, n=_b(len(self.particles), 1, 2, 3, 4, 20, 200), dim=self.pot.n_dim, pot=type(self.pot).__name__, bc=_bc(self.pot), dt=_b(self.dt, 1e-9, 1e-3, 0.1, 1), mass="none" if not ms else "mixed" if len(ms) > 1 else _b(ms.pop(), 0.5, 1.0, 1.01, 10),
          call=_b(self._calls, 2, 3, 50, 1000), wall=wall, jump=_b(jump, 1e-6, 0.1, 1, 10, 1e4), rest=bool(len(x)) and not np.any(m0), **more)
''',
    "bdld/actions/overdamped_ld.py": '''
from bdld.actions.bussi_parinello_ld import _ld_note
@_wrap(OverdampedLD, "run")
def _f(self, old, step=None):
    self.__dict__["_calls"] = self.__dict__.get("_calls", 0) + 1
    before = [p.pos.copy() for p in self.particles]
    old(self, step)
    _ld_note("od", self, before, [1])
''',
    "bdld/actions/trajectory_action.py": '''
@_wrap(TrajectoryAction, "run")
def _f(self, old, step):
    _note("traj", n=_b(len(self.ld.particles), 2, 3, 11, 100), dim=self.ld.pot.n_dim, mom=bool(self.store_momentum), file=bool(self.filenames), rel=_rel(self.stride, self.write_stride), stride=_b(self.stride, 2, 5, 50), ws=_b(self.write_stride, 2, 5, 50, 101, 1000), step=_b(step, 2, 10, 60, 1010),
          sp=step % self.stride == 0, wp=step % self.write_stride == 0, dt=_b(self.ld.dt, 1e-3, 0.1, 1), ld=type(self.ld).__name__, fmt=getattr(self, "write_fmt", None) == "%14.9f")
    return old(self, step)
@_wrap(TrajectoryAction, "final_run")
def _f(self, old, step):
    rest = step % self.write_stride
    _note("trajend", n=_b(len(self.ld.particles), 2, 3, 11, 100), dim=self.ld.pot.n_dim, mom=bool(self.store_momentum), file=bool(self.filenames), rel=_rel(self.stride, self.write_stride), rest=_b(rest, 1, 2, 10), due=step % self.stride == 0, blocks=_b(step // self.write_stride, 1, 2, 5), ld=type(self.ld).__name__)
    return old(self, step)
''',
    "bdld/actions/histogram_action.py": '''
@_wrap(HistogramAction, "run")
def _f(self, old, step):
    x = np.array([p.pos for p in self.traj_action.ld.particles])
    r = np.array(self.histo.histo_ranges)
    where = ("o" if np.any((x < r[:, 0]) | (x > r[:, 1])) else "") + ("e" if np.any((x == r[:, 0]) | (x == r[:, 1])) else "")
    _note("histo", n=_b(len(x), 2, 3, 11, 100), dim=self.histo.n_dim, stride=_b(self.stride, 2, 5, 50), ws=_rel(self.write_stride, self.update_stride), us=_b(self.update_stride, 2, 5, 50, 101), rel=_rel(self.stride, self.update_stride), resets=_b(len(self.reset), 1, 2, 3), after=sum(1 for q in self.reset if q < step) if len(self.reset) < 4 else 4, now=step in self.reset,
          wp=bool(self.write_stride) and step % self.write_stride == 0, up=step % self.update_stride == 0, file=bool(self.filename), tfile=bool(self.traj_action.filenames), tstride=_b(self.traj_action.stride, 2, 5), cubic=len(set(self.histo.n_points)) == 1, bins=_b(max(self.histo.n_points), 2, 10, 101), where=where, step=_b(step, 10, 60, 1010), fmt=self.write_fmt == "%14.9f", ld=type(self.traj_action.ld).__name__)
    return old(self, step)
@_wrap(HistogramAction, "final_run")
def _f(self, old, step):
    _note("histoend", dim=self.histo.n_dim, stride=_b(self.stride, 2, 5, 50), rel=_rel(self.stride, self.update_stride), rest=_b(step % self.update_stride, 1, 2, 10), pending=_b(step - self.last_update, 1, 2, 10), resets=_b(len(self.reset), 1, 2, 3), now=step in self.reset, file=bool(self.filename), ws=_rel(self.write_stride, self.update_stride))
    return old(self, step)
''',
    "bdld/actions/fes_action.py": '''
def _ff(self, step):
    h = self.histo_action
    return dict(dim=h.histo.n_dim, kt=_b(self.kt, 0.1, 0.9, 1.1, 5), stride=_rel(self.stride, h.update_stride), ws=_rel(self.write_stride, self.stride), us=_b(h.update_stride, 2, 5, 101), hs=_b(h.stride, 2, 5), hws=_rel(h.write_stride, self.write_stride), file=bool(self.filename), hfile=bool(h.filename), resets=_b(len(h.reset), 1, 2), cleared=any(q <= step for q in h.reset), empty=_b(int(np.sum(h.histo.data == 0)), 1, 2, 10), top=_b(float(np.max(h.histo.data)), 1, 2, 10, 1000), fmt=self.write_fmt == "%14.9f",
        plot=bool(self.plot_filename), ps=_rel(self.plot_stride, self.stride), domain=bool(self.plot_domain), title=bool(self.plot_title), cubic=len(set(h.histo.n_points)) == 1, ldkt=self.kt == getattr(h.traj_action.ld, "kt", None), ld=type(h.traj_action.ld).__name__, n=_b(len(h.traj_action.ld.particles), 2, 3, 11))
@_wrap(FesAction, "run")
def _f(self, old, step):
    _note("fes", sp=bool(self.stride) and step % self.stride == 0, wp=bool(self.write_stride) and step % self.write_stride == 0, pp=bool(self.plot_stride) and step % self.plot_stride == 0, step=_b(step, 10, 60, 1010), **_ff(self, step))
    return old(self, step)
@_wrap(FesAction, "final_run")
def _f(self, old, step):
    _note("fesend", **_ff(self, step))
    return old(self, step)
''',
    "bdld/actions/delta_f_action.py": '''
def _df(self, step):
    h = self.fes_action.histo_action
    return dict(dim=h.histo.n_dim, kt=_b(self.kt, 0.1, 0.9, 1.1, 5), states=_b(len(self.masks), 3, 4, 10), stride=_rel(self.stride, self.fes_action.stride), s=_b(self.stride, 1, 2, 5, 50), ws=_rel(self.write_stride, self.stride), rows=_b((self.write_stride // self.stride) if self.stride else 0, 1, 2, 5, 50, 101), file=bool(self.filename), fmt=self.write_fmt == "%14.9f", dt=_b(self.dt, 1e-3, 0.1, 1),
        first=_b(int(np.sum(self.masks[0])), 1, 2, 10), empty=any(not np.any(m) for m in self.masks[1:]), resets=_b(len(h.reset), 1, 2), us=_b(h.update_stride, 2, 5, 101), ld=type(h.traj_action.ld).__name__)
@_wrap(DeltaFAction, "run")
def _f(self, old, step):
    _note("df", sp=bool(self.stride) and step % self.stride == 0, wp=bool(self.write_stride) and step % self.write_stride == 0, step=_b(step, 10, 60, 1010), **_df(self, step))
    return old(self, step)
@_wrap(DeltaFAction, "final_run")
def _f(self, old, step):
    _note("dfend", rest=_b(step % self.write_stride if self.write_stride else 0, 1, 2, 10), blocks=_b(step // self.write_stride if self.write_stride else 0, 1, 2, 5), **_df(self, step))
    return old(self, step)
''',
    "bdld/actions/particle_distribution.py": '''
def _pd(self, step):
    return dict(dim=len(self.states[0]), n=_b(len(self.particles), 2, 3, 11, 100), states=_b(len(self.states), 2, 3, 10), s=_b(self.stride or 0, 1, 2, 5, 50), ws=_rel(self.write_stride, self.stride), rows=_b((self.write_stride // self.stride) if self.stride else 0, 1, 2, 5, 50, 101), file=bool(self.filename), fmt=getattr(self, "write_fmt", None))
@_wrap(ParticleDistributionAction, "run")
def _f(self, old, step):
    _note("pd", sp=bool(self.stride) and step % self.stride == 0, wp=bool(self.write_stride) and step % self.write_stride == 0, step=_b(step, 10, 60, 1010), **_pd(self, step))
    return old(self, step)
@_wrap(ParticleDistributionAction, "final_run")
def _f(self, old, step):
    _note("pdend", rest=_b(step % self.write_stride if self.write_stride else 0, 1, 2, 10), blocks=_b(step // self.write_stride if self.write_stride else 0, 1, 2, 5), **_pd(self, step))
    return old(self, step)
''',
}


def main():
    checks = sys.argv[1:]
    shutil.rmtree(TREE, ignore_errors=True)
    shutil.copytree("/repo", TREE, symlinks=True)
    open(TREE + "/bdld/_mcnote.py", "w").write(NOTE)
    for f, code in ADD.items():
        with open(os.path.join(TREE, f), "a") as h:
            h.write("\n" + HEAD + code)
    for c in checks:
        shutil.rmtree(OUT, ignore_errors=True)
        os.mkdir(OUT)
        env = dict(os.environ, BDLD_REPO=TREE, COVER_OUT=OUT, VERIF_SEED="1")
        r = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "check.py", c, "quick"], cwd=ROOT, env=env, capture_output=True, text=True)
        print("=====", c, r.returncode, r.stdout.strip().split("\n")[-1][:200])
        if r.returncode:
            print(r.stderr[-1500:])
        vec = collections.defaultdict(set)
        for p in glob.glob(OUT + "/*"):
            vec[os.path.basename(p).split(".")[0]] |= set(open(p).read().split("\n"))
        for name, lines in sorted(vec.items()):
            rows = [json.loads(x) for x in lines if x]
            vals = collections.defaultdict(collections.Counter)
            for row in rows:
                for k, v in row.items():
                    vals[k][str(v)] += 1
            print("--", name, len(rows), {k: dict(v) for k, v in vals.items()})
            pairs = {(k, str(v), l, str(w)) for row in rows for (k, v), (l, w) in itertools.combinations(sorted(row.items()), 2)}
            miss = [(k, v, l, w) for k, l in itertools.combinations(sorted(vals), 2) for v in vals[k] for w in vals[l] if (k, v, l, w) not in pairs]
            by = collections.defaultdict(list)
            for k, v, l, w in miss:
                by[f"{k}/{l}"].append(f"{v}&{w}")
            for k, v in by.items():
                print("   ", k, " ".join(v))
    shutil.rmtree(TREE, ignore_errors=True)
    shutil.rmtree(OUT, ignore_errors=True)


main()
