"""Planted bugs: (id, property, edits, demo, needs, breaks); gen.py writes and validates them"""
A = "bdld/actions/"
S = []


def bug(id, prop, needs, breaks, edits, demo):
    S.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug(
    "c01-overwritten-gives-birth", "C01",
    "a walker with negative rate whose own event is accepted after another event of the same step overwrote it",
    "a walker that was already overwritten in the step still causes a birth event",
    [(A + "birth_death.py", "                if i not in kill_list:  # the move was accepted from the old beta!", "                if beta[i] < 0 or i not in kill_list:  # only deaths can be obsolete")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
for seed in range(200):
    parts = [P([x]) for x in (-1.0, 0.0, 1.2, 3.0)]
    for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0)): p.energy = e
    with quiet(): b = BirthDeath(parts, 10.0, 10, np.array([0.5]), 1.0, seed=seed)
    beta = b.calc_betas()
    ev = b.do_birth_death()
    dead = set()
    for dup, kill in ev:
        cause = kill if beta[kill] > 0 and dup != kill else dup
        # every walker's own event was accepted: the cause is the killed one for deaths, the copied one for births
        if beta[dup] < 0 and beta[kill] <= 0: check(dup not in dead, (seed, ev))
        dead.add(kill)
''',
)
bug(
    "c01-recalc-stale-rates", "C01",
    "recalculate-probabilities and a second accepted event in the same birth-death step",
    "after a birth event the remaining walkers are still judged by the rates before it",
    [(A + "birth_death.py", "                    event_list.append(curr_event)\n                    beta = self.calc_betas()\n", "                    event_list.append(curr_event)\n                    if curr_event[1] == i:  # i itself was replaced\n                        beta = self.calc_betas()\n")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
n = 0
for seed in range(100):
    parts = [P([x]) for x in (-1.0, 0.0, 1.2, 3.0)]
    for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0)): p.energy = e
    with quiet(): b = BirthDeath(parts, 1e6, 10, np.array([0.5]), 1.0, recalc_probs=True, seed=seed)
    calls = []
    orig = b.calc_betas
    b.calc_betas = lambda: (calls.append(1), orig())[1]
    ev = b.do_birth_death()
    check(len(calls) >= len(ev), (seed, len(calls), ev))
''',
)
bug(
    "c02-anisotropic-bandwidth", "C02",
    "two or more dimensions with different bandwidths",
    "the kernel density uses the bandwidth of the first dimension for all distances",
    [(A + "birth_death.py", "            gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))", "            gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[0] ** 2))")],
    '''
from bdld.actions.birth_death import walker_density
pos = np.array([[0.0, 0.0], [0.3, 0.5], [1.0, -0.4]])
bw = np.array([0.5, 0.2])
k = np.array([np.mean([np.prod(np.exp(-(a - b) ** 2 / 2 / bw ** 2) / np.sqrt(2 * np.pi) / bw) for b in pos]) for a in pos])
check(np.allclose(walker_density(pos, bw), k))
''',
)
bug(
    "c02-additive-centred-twice", "C02",
    "the additive variant with walkers not distributed like the equilibrium density",
    "the additive correction is removed on average over the present walkers",
    [(A + "birth_death.py", """            beta += ene * self.inv_kt
            beta -= np.mean(beta[beta != -np.inf])
            if self.approx_variant == ApproxVariant.add:
                # if outside of approx_grid: doesn't throw error but sets correction to 0
                beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(
                    len(pos)
                )
""", """            beta += ene * self.inv_kt
            if self.approx_variant == ApproxVariant.add:
                # if outside of approx_grid: doesn't throw error but sets correction to 0
                beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(
                    len(pos)
                )
            beta -= np.mean(beta[beta != -np.inf])
""")],
    '''
from bdld.actions.birth_death import BirthDeath, ApproxVariant
from bdld.potential.polynomial import PolynomialPotential
from bdld.main import bd_prob_density
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
pot = PolynomialPotential([0, 0.2, -4, 0, 1.0], [(-2.5, 2.5)])
bw = np.array([0.3])
parts = [P([x]) for x in (-1.4, 0.0, 0.1)]
for p in parts: p.energy = pot.energy(p.pos)
res = {}
for v, d in ((ApproxVariant.orig, None), (ApproxVariant.add, bd_prob_density(pot, bw, 1.0))):
    with quiet(): res[v] = BirthDeath(parts, 0.1, 1, bw, 1.0, approx_variant=v, eq_density=d).calc_betas()
check(abs(np.mean(res[ApproxVariant.orig])) < 1e-12)
check(abs(np.mean(res[ApproxVariant.add])) > 1e-3, res)
''',
)
bug(
    "c02-many-walkers", "C02",
    "more than 10000 walkers",
    "the density of large populations leaves out the walker's own contribution",
    [(A + "birth_death.py", "        dist = np.array([(pos[i] - pos[j]) for j in range(n_part)])", "        dist = np.array([(pos[i] - pos[j]) for j in range(n_part) if j != i])")],
    '''
from bdld.actions import birth_death as b
pos = np.array([[0.0], [0.5], [2.0]])
bw = np.array([0.5])
a = b._walker_density_manual(pos, bw)
k = np.array([np.mean([np.exp(-(x - y)[0] ** 2 / 2 / 0.25) / np.sqrt(2 * np.pi) / 0.5 for y in pos]) for x in pos])
check(np.allclose(a, k), (a, k))
''',
)
bug(
    "c03-copy-once-per-source", "C03",
    "the same walker copied at least twice within one birth-death step",
    "the copies are one and the same object and move together from then on",
    [(A + "birth_death.py", """        for dup, kill in event_list:
            self.particles[kill] = copy.deepcopy(self.particles[dup])
""", """        copies: dict = {}
        for dup, kill in event_list:
            source = self.particles[dup]
            if id(source) not in copies:
                copies[id(source)] = copy.deepcopy(source)
            self.particles[kill] = copies[id(source)]
""")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
parts = [P([float(x)]) for x in range(4)]
with quiet(): b = BirthDeath(parts, 0.1, 1, np.array([0.5]), 1.0)
b.perform_moves([(0, 1), (0, 2)])
parts[1].pos += 1.0
check(parts[2].pos[0] == 0.0, parts[2].pos)
''',
)
bug(
    "c03-states-of-old-walkers", "C03",
    "a particle-distribution together with birth-death events",
    "the counting of states keeps looking at walkers that were replaced",
    [("bdld/main.py", """    return ParticleDistributionAction(
        ld.particles,  # type: ignore
""", """    return ParticleDistributionAction(
        list(ld.particles),  # type: ignore
""")],
    '''
text = LD.format(n=3) + POT + PART.format(n=2) + """[birth-death]
stride: 1
kernel-bandwidth: 0.5
[particle-distribution]
stride: 1
filename: pd
state1-min: -3
state1-max: 0
state2-min: 0
state2-max: 3
"""
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
def bd(self):
    self.perform_moves([(0, 1)])
old, BirthDeath.do_birth_death = BirthDeath.do_birth_death, bd
def move(step, ps):
    for i, p in enumerate(ps): p.pos[:] = -1.0 if i == 0 else 1.0
with scratch(), script(move):
    check(main(text) == "ok")
    r = rows("pd")
check(all(x[1:] == [2.0, 0.0] for x in r), r)
''',
)
bug(
    "c04-forces-before-boundary", "C04",
    "a step that crosses the boundary with a boundary condition set",
    "energy and forces belong to the position before the boundary condition was applied",
    [(A + "overdamped_ld.py", """            self.pot.apply_boundary_condition(p.pos, p.mom)
            p.energy, p.forces = self.pot.evaluate(p.pos)
""", """            p.energy, p.forces = self.pot.evaluate(p.pos)
            self.pot.apply_boundary_condition(p.pos, p.mom)
""")],
    '''
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.potential import BoundaryCondition
pot = PolynomialPotential([0, 5.0, 1.0], [(-1.0, 1.0)])
pot.boundary_condition = BoundaryCondition.reflective
with quiet(): ld = OverdampedLD(pot, 0.5, 1)
ld.add_particle([0.9])
for i in range(20):
    ld.run(i)
    p = ld.particles[0]
    check(np.isclose(p.energy, pot.energy(p.pos)), (i, p.pos))
''',
)
bug(
    "c04-same-noise-per-dimension", "C04",
    "overdamped dynamics in two or more dimensions",
    "one random number is used for all dimensions",
    [(A + "overdamped_ld.py", """            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(
                self.pot.n_dim
            )
""", """            noise = self.rng.standard_normal()
            p.pos += self.dt * p.forces + self.noise_factor * noise
""")],
    '''
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential(np.zeros((2, 2)), [(-1.0, 1.0)] * 2)
with quiet(): ld = OverdampedLD(pot, 0.5, 1)
ld.add_particle([0.0, 0.0])
ld.run(1)
p = ld.particles[0].pos
check(p[0] != p[1], p)
''',
)
bug(
    "c04-mass-in-thermostat", "C04",
    "particles with a mass other than 1",
    "the noise of the thermostat belongs to another temperature for masses other than one",
    [(A + "bussi_parinello_ld.py", "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)", "        p.c2 = p.mass * np.sqrt((1 - self.c1 * self.c1) * self.kt)")],
    '''
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential([0.0, 0.0], [(-1.0, 1.0)])
with quiet(): ld = BussiParinelloLD(pot, 0.5, 1e9, 2.0, 3)
ld.add_particle([0.0], 4.0)
ld.run(1)
x = np.random.default_rng(3)
x.standard_normal(1)
check(np.isclose(ld.particles[0].mom[0], np.sqrt(4.0 * 2.0) * x.standard_normal(1)[0]), ld.particles[0].mom)
''',
)
bug(
    "c05-corner", "C05",
    "a walker leaving the range in two dimensions in the same step (reflective)",
    "only the first dimension is put back",
    [("bdld/potential/potential.py", """            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
""", """            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
            else:
                continue
            break
""")],
    '''
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.potential import BoundaryCondition
pot = PolynomialPotential(np.zeros((2, 2)), [(-1.0, 1.0)] * 2)
pot.boundary_condition = BoundaryCondition.reflective
pos, mom = np.array([1.5, -2.0]), np.array([1.0, -1.0])
pot.apply_boundary_condition(pos, mom)
check(list(pos) == [1.0, -1.0] and list(mom) == [-1.0, 1.0], (pos, mom))
''',
)
bug(
    "c06-energy-clipped", "C06",
    "a walker far outside the range of the Mueller-Brown potential (no boundary condition)",
    "the exponent is limited in one of the functions, so energy and force do not belong together there",
    [("bdld/potential/mueller_brown.py", """            exp_tmp1 = np.exp(
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
            pot += self.A[i] * exp_tmp1
""", """            exponent = (
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
            exp_tmp1 = np.exp(min(exponent, 20.0))  # avoid overflows
            pot += self.A[i] * exp_tmp1
""")],
    '''
from bdld.potential.mueller_brown import MuellerBrownPotential
pot = MuellerBrownPotential()
for x in ([0.0, 1.0], [3.0, 3.0], [5.0, 4.0]):
    e, f = pot.evaluate(x)
    check(np.isclose(e, pot.energy(x)) and np.allclose(f, pot.force(x)), x)
''',
)
bug(
    "c07-different-ranges-accepted", "C07",
    "arithmetic on two grids with the same number of points but different ranges",
    "values at different coordinates are combined silently",
    [("bdld/grid.py", """            if not (self.n_points == other.n_points) or not (
                self.ranges == other.ranges
            ):
""", """            if not (self.n_points == other.n_points) or not (
                len(self.ranges) == len(other.ranges)
            ):
""")],
    '''
from bdld import grid
a, b = grid.from_npoints([(0.0, 1.0)], 3), grid.from_npoints([(0.0, 2.0)], 3)
a.data = b.data = np.ones(3)
try:
    a + b
except ValueError:
    sys.exit(0)
check(False)
''',
)
bug(
    "c07-valid-convolution-swapped", "C07",
    "a 'valid' convolution in two dimensions with different step sizes",
    "the returned grid of a valid convolution has the offset of another dimension",
    [("bdld/grid.py", "            offset = (gs.n_points[dim] - 1) / 2 * stepsizes[dim]\n", "            offset = (gs.n_points[dim] - 1) / 2 * min(stepsizes)\n")],
    '''
from bdld import grid
a = grid.from_npoints([(0.0, 4.0), (0.0, 8.0)], [5, 5])
k = grid.from_npoints([(-1.0, 1.0), (-2.0, 2.0)], [3, 3])
a.data, k.data = np.ones((5, 5)), np.ones((3, 3))
r = grid.convolve(a, k, "valid", "direct").ranges
check(np.allclose(r, [(1, 3), (2, 6)]), r)
''',
)
bug(
    "c08-volume-element", "C08",
    "a grid with different step sizes per dimension",
    "the density is normalised with a wrong volume element",
    [("bdld/potential/potential.py", "        prob /= np.sum(prob.data) * np.prod(prob.stepsizes)\n", "        prob /= np.sum(prob.data) * prob.stepsizes[0] ** prob.n_dim\n")],
    '''
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential(np.array([[0.0, 1.0], [1.0, 0.0]]), [(0.0, 1.0), (0.0, 3.0)])
p = pot.calculate_probability_density(1.0, pot.ranges, [5, 7])
check(np.isclose(np.sum(p.data) * p.stepsizes[0] * p.stepsizes[1], 1.0))
''',
)
bug(
    "c09-stride-phase", "C09",
    "a write-stride that is no multiple of the stride and a run over several write-strides",
    "the selected time steps drift after the buffer has wrapped",
    [(A + "action.py", "    first_element -= (last_write % stride) // update_stride\n", "    first_element -= already_written % (stride // update_stride)\n")],
    '''
text = LD.format(n=12) + POT + PART.format(n=1) + "[trajectories]\\nfilename: t\\nstride: 3\\nwrite-stride: 4\\n"
with scratch():
    check(main(text) == "ok")
    t = [round(r[0] / 0.01) for r in rows("t.0")]
check(t == [3, 6, 9, 12], t)
''',
)
bug(
    "c09-kept-open", "C09",
    "the program dies between the write and its regular end",
    "trajectory files are kept open and not flushed, selected steps are missing on disk",
    [(A + "trajectory_action.py", """                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
""", """                if not hasattr(self, "_handles"):
                    self._handles = {}
                if filename not in self._handles:
                    self._handles[filename] = open(filename, "ab")
                np.savetxt(
                    self._handles[filename],
                    save_data,
                    delimiter=" ",
                    newline="\\n",
                    fmt=self.write_fmt,
                )
"""), (A + "trajectory_action.py", """        \"\"\"Write rest of trajectories to files\"\"\"
        self.write(step)
""", """        \"\"\"Write rest of trajectories to files\"\"\"
        self.write(step)
        for handle in getattr(self, "_handles", {}).values():
            handle.close()
""")],
    '''
text = LD.format(n=12) + POT + PART.format(n=1) + "[trajectories]\\nfilename: t\\nwrite-stride: 2\\n"
def move(step, ps):
    if step == 8: os._exit(0)
with scratch():
    pid = os.fork()
    if pid == 0:
        with script(move):
            main(text)
        os._exit(1)
    _, st = os.waitpid(pid, 0)
    check(st == 0, st)
    r = rows("t.0")
check(len(r) >= 6, r)
''',
)
bug(
    "c10-reset-before-write", "C10",
    "a histogram reset at a multiple of the histogram's write-stride",
    "the file of that time step is written after the reset and empty",
    [(A + "histogram_action.py", """        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
        if step in self.reset:
""", """        if step in self.reset:
"""), (A + "histogram_action.py", """            self.last_update = step  # also drop data that was not added yet
""", """            self.last_update = step  # also drop data that was not added yet
        if self.write_stride and step % self.write_stride == 0:
            self.write(step)
""")],
    '''
text = LD.format(n=8) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -3\\nmax: 3\\nbins: 6\\nfilename: h\\nwrite-stride: 4\\nreset: 4\\n"
with scratch():
    check(main(text) == "ok")
    check(sum(r[1] for r in rows("h_4")) == 4 and sum(r[1] for r in rows("h")) == 4)
''',
)
bug(
    "c10-nearest-edge-counted", "C10",
    "a position outside the range of the histogram",
    "positions outside are counted in the outermost bins",
    [("bdld/histogram.py", "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n", "        data = np.clip(data, [b[0] for b in self.bins], [b[-1] for b in self.bins])\n        tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n")],
    '''
from bdld.histogram import Histogram
h = Histogram([2], [(0.0, 1.0)])
h.add(np.array([[0.2], [1.7], [-3.0]]))
check(h.data.sum() == 1, h.data)
''',
)
bug(
    "c11-surface-cached", "C11",
    "a histogram reset after which as many positions are counted as before",
    "the surface is only recomputed if the number of counts changed, so it is one of an older histogram",
    [(A + "fes_action.py", """        if self.stride and step % self.stride == 0:
            self.fes = calculate_fes(self.histo_action.histo, self.kt)
        if self.write_stride""", """        if self.stride and step % self.stride == 0:
            total = np.sum(self.histo_action.histo.data)
            if total != getattr(self, "_total", 0):  # nothing to do without new data
                self.fes = calculate_fes(self.histo_action.histo, self.kt)
                self._total = total
        if self.write_stride""")],
    '''
text = LD.format(n=9) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -3\\nmax: 3\\nbins: 2\\nreset: 4\\n[fes]\\nkt: 1\\nstride: 3\\nwrite-stride: 3\\nfilename: f\\n"
def move(step, ps):
    ps[0].pos[:] = -1.0 if step <= 4 else 1.0
with scratch(), script(move):
    # two counts at step 3 (after the reset at 1), two other ones at step 6 (after the reset at 4)
    check(main(text.replace("reset: 4", "reset: 1, 4")) == "ok")
    a = [r[1] for r in rows("f_6")]
check(a[1] == 0 and a[0] > 0, a)
''',
)
bug(
    "c11-single-visits-dropped", "C11",
    "a bin visited exactly once",
    "bins with a single count are reported as empty",
    [(A + "fes_action.py", "        histo.data == 0, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))\n", "        histo.data < 2, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))\n")],
    '''
from bdld.histogram import Histogram
from bdld.actions.fes_action import calculate_fes
h = Histogram([3], [(0.0, 3.0)])
h.add(np.array([[0.5], [1.5], [1.5]]))
check(np.allclose(calculate_fes(h, 1.0).data, [np.log(2), 0, np.inf]))
''',
)
bug(
    "c12-overlapping-states", "C12",
    "states that overlap",
    "a bin inside several states only counts for the first one",
    [("bdld/main.py", """    masks = pos_inside_ranges(fes_points, state_ranges)
""", """    masks = pos_inside_ranges(fes_points, state_ranges)
    for i in range(1, len(masks)):  # every point belongs to one state
        for previous in masks[:i]:
            masks[i] = masks[i] & ~previous
""")],
    '''
text = LD.format(n=4) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: 0\\nmax: 4\\nbins: 4\\n[fes]\\nkt: 1\\n[delta-f]\\nfilename: d\\nstate1-min: 0\\nstate1-max: 2\\nstate2-min: 1\\nstate2-max: 3\\n"
def move(step, ps):
    ps[0].pos[:] = [0.5, 1.5, 1.5, 2.5][step - 1]
with scratch(), script(move):
    check(main(text) == "ok")
    d = rows("d")[-1][1]
check(abs(d) < 1e-9, d)
''',
)
bug(
    "c12-upper-boundary", "C12",
    "a bin midpoint exactly on the upper boundary of a state",
    "the upper boundary of a state does not belong to it",
    [("bdld/tools.py", "            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])\n", "            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] < state[i][1])\n")],
    '''
from bdld.tools import pos_inside_ranges
m = pos_inside_ranges(np.array([[0.0], [0.5], [1.0]]), [[(0.0, 1.0)]])[0]
check(list(m) == [True] * 3, m)
''',
)
bug(
    "c13-last-dimension-only", "C13",
    "two or more dimensions and walkers inside a state in the last dimension only",
    "a walker counts as inside if it is inside in the last dimension",
    [("bdld/tools.py", "            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])\n", "            inside = (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])\n")],
    '''
from bdld.tools import pos_inside_ranges
m = pos_inside_ranges(np.array([[5.0, 0.5], [0.5, 0.5]]), [[(0.0, 1.0), (0.0, 1.0)]])[0]
check(list(m) == [False, True], m)
''',
)
bug(
    "c13-end-row-missing", "C13",
    "a run length that is a multiple of the stride but not of the write-stride, and ends right after the last write",
    "rows collected after the last full block are lost if there is only one of them",
    [(A + "particle_distribution.py", """            self.counts[1:] = self.count_particles()
        self.write(step)
""", """            self.counts[1:] = self.count_particles()
        if not self.stride or step - self.last_write > self.stride:
            self.write(step)
""")],
    '''
text = LD.format(n=5) + POT + PART.format(n=1) + "[particle-distribution]\\nfilename: p\\nstride: 1\\nwrite-stride: 2\\nstate1-min: -3\\nstate1-max: 3\\n"
with scratch():
    check(main(text) == "ok")
    r = [x[0] for x in rows("p")]
check(r == [1, 2, 3, 4, 5], r)
''',
)
bug(
    "c14-reset-after-record", "C14",
    "at least two statistics records",
    "the counters start again after every record",
    [(A + "birth_death.py", """        if self.stats_stride and step % self.stats_stride == 0:
            self.stats.print(step)
""", """        if self.stats_stride and step % self.stats_stride == 0:
            self.stats.print(step, reset=True)
""")],
    '''
text = LD.format(n=4) + POT + PART.format(n=3) + "[birth-death]\\nstride: 1\\nkernel-bandwidth: 0.5\\nstats-stride: 2\\nstats-filename: s\\nseed: 1\\n"
with scratch():
    check(main(text) == "ok")
    r = rows("s")
check(r[1][2] + r[1][4] == 12, r)
''',
)
bug(
    "c14-recalc-attempts", "C14",
    "recalculate-probabilities and a walker that is considered without an event",
    "only accepted births count as attempts",
    [(A + "birth_death.py", """                if beta[i] < 0:
                    self.stats.dup_attempts += 1

""", "\n"), (A + "birth_death.py", """                        curr_event = (i, rand_other)
                        self.stats.dup_count += 1
""", """                        curr_event = (i, rand_other)
                        self.stats.dup_attempts += 1
                        self.stats.dup_count += 1
""")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
parts = [P([x]) for x in (-1.0, 0.0, 1.2, 3.0)]
for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0)): p.energy = e
with quiet(): b = BirthDeath(parts, 1e-9, 1, np.array([0.5]), 1.0, recalc_probs=True, seed=1)
b.do_birth_death()
check(b.stats.dup_attempts + b.stats.kill_attempts == 4, b.stats.dup_attempts)
''',
)
bug(
    "c15-seed-zero", "C15",
    "the seed 0",
    "a seed of zero is taken as no seed, the run is not reproducible",
    [(A + "bussi_parinello_ld.py", "        self.rng: np.random.Generator = np.random.default_rng(seed)\n", "        self.rng: np.random.Generator = np.random.default_rng(seed or None)\n")],
    '''
text = (LD.format(n=3) + POT + PART.format(n=1) + "[trajectories]\\nfilename: t\\n").replace("seed: 1", "seed: 0")
with scratch():
    check(main(text) == "ok")
    a = rows("t.0")
with scratch():
    check(main(text) == "ok")
    b = rows("t.0")
check(a == b)
''',
)
bug(
    "c15-output-wraps-walkers", "C15",
    "a trajectory with momenta and the Bussi-Parrinello integrator",
    "storing the momenta changes them",
    [(A + "trajectory_action.py", """            self.momentum[row] = [p.mom for p in self.ld.particles]
""", """            for i, p in enumerate(self.ld.particles):
                self.momentum[row, i] = np.round(p.mom, 9, out=p.mom)
""")],
    '''
def final(extra):
    text = LD.format(n=50) + POT + PART.format(n=1) + "[particle-distribution]\\nfilename: p\\nstate1-min: -3\\nstate1-max: 3\\n[trajectories]\\nfilename: t\\nfmt: %%.17g\\n" + extra
    with scratch():
        check(main(text) == "ok")
        return rows("t.0")[-1][:2]
check(final("") == final("momentum: true\\n"))
''',
)
bug(
    "c16-zero-passes", "C16",
    "an option with a stated range set to exactly zero",
    "values of zero are not checked",
    [("bdld/inputparser.py", "        if self.condition:\n            if not", "        if self.condition and val:\n            if not")],
    '''
text = LD.format(n=3) + POT + PART.format(n=1) + "[trajectories]\\nstride: 0\\n"
with scratch():
    s = main(text)
check(s == "exit 1", s)
''',
)
bug(
    "c16-bool-as-truth", "C16",
    "a bool option explicitly set to one of the words for false",
    "every value of a bool option except 'false' counts as true",
    [("bdld/inputparser.py", "                val = section.getboolean(self.key)\n", "                val = section.get(self.key).lower() != \"false\" if section.get(self.key).lower() in section.parser.BOOLEAN_STATES else section.getboolean(self.key)\n")],
    '''
text = LD.format(n=3) + POT + PART.format(n=1) + "[trajectories]\\nfilename: t\\nmomentum: no\\n"
with scratch():
    check(main(text) == "ok")
    check(len(rows("t.0")[0]) == 2)
''',
)
bug(
    "c17-without-replacement", "C17",
    "random-pos with at most as many walkers as positions",
    "no position is used twice, so the walkers are not placed independently",
    [("bdld/main.py", """        for _ in range(options["number"]):
            ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)
""", """        n_choices = len(init_pos_choices)
        for pos in rng.choice(
            init_pos_choices,
            size=options["number"],
            replace=options["number"] > n_choices,
            axis=0,
        ):
            ld.add_particle(pos, mass)
""")],
    '''
from bdld import main as m
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential([0.0, 1.0], [(-1.0, 1.0)])
same = 0
for s in range(60):
    with quiet():
        ld = OverdampedLD(pot, 0.1, 1)
        m.init_particles({"number": 2, "mass": 1.0, "initial-distribution": "random-pos", "seed": s, "pos1": [0.1], "pos2": [0.5]}, ld)
    same += ld.particles[0].pos[0] == ld.particles[1].pos[0]
check(same > 5, same)
''',
)
bug(
    "c17-range-of-first-dimension", "C17",
    "random-global in two or more dimensions with different extents",
    "the extent of the first dimension is used for all",
    [("bdld/main.py", "            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]\n", "            width = ld.pot.ranges[0][1] - ld.pot.ranges[0][0]\n            pos = [rng.uniform(start, start + width) for start, _ in ld.pot.ranges]\n")],
    '''
from bdld import main as m
from bdld.actions.overdamped_ld import OverdampedLD
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential(np.zeros((2, 2)), [(-5.0, 5.0), (0.0, 1.0)])
with quiet():
    ld = OverdampedLD(pot, 0.1, 1)
    m.init_particles({"number": 50, "mass": 1.0, "initial-distribution": "random-global", "seed": 1}, ld)
check(all(p.pos[1] <= 1.0 for p in ld.particles))
''',
)
bug(
    "c18-step-files-overwritten", "C18",
    "intermediate FES files left over from an earlier run",
    "files named after a time step are overwritten without backup",
    [(A + "fes_action.py", """                filename = self.filename
            backup_if_exists(filename)
""", """                filename = self.filename
                backup_if_exists(filename)
""")],
    '''
text = LD.format(n=4) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -3\\nmax: 3\\nbins: 2\\n[fes]\\nkt: 1\\nstride: 2\\nwrite-stride: 2\\nfilename: f\\n"
with scratch({"f_2": "precious"}):
    check(main(text) == "ok")
    check(any(open(f).read() == "precious" for f in os.listdir(".")))
''',
)
bug(
    "c19-square-extent", "C19",
    "a two-dimensional surface whose ranges differ",
    "the vertical axis of the plot carries the coordinates of the horizontal one",
    [(A + "fes_action.py", "            extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),\n", "            extent=(axes[0][0], axes[0][-1], axes[0][0], axes[0][-1]),\n")],
    '''
import matplotlib.figure as mf
from bdld.actions import fes_action
seen = []
old = mf.Figure.savefig
def save(self, *a, **k):
    seen.append(self.axes[0].images[0].get_extent())
mf.Figure.savefig = save
fes_action.plot_fes(np.zeros((3, 4)), [np.array([0.0, 1, 2]), np.array([10.0, 11, 12, 13])], filename="x.png")
check(seen and seen[0][2] > 5, seen)
''',
)
bug(
    "c19-stale-figure", "C19",
    "more than one plot in a run",
    "all plots are drawn into the same figure, later ones also show the earlier surfaces",
    [(A + "fes_action.py", "    fig = plt.figure(figsize=(8, 4), dpi=100)\n", "    fig = plt.figure(\"fes\", figsize=(8, 4), dpi=100)\n"), (A + "fes_action.py", "    ax = plt.axes()\n", "    ax = fig.gca()\n"), (A + "fes_action.py", "        save_fig_interactive(fig)\n    plt.close(fig)\n", "        save_fig_interactive(fig)\n        plt.close(fig)\n")],
    '''
import matplotlib.figure as mf
from bdld.actions import fes_action
seen = []
def save(self, *a, **k):
    seen.append(len(self.axes[0].get_lines()))
mf.Figure.savefig = save
for i in range(2):
    fes_action.plot_fes(np.arange(3.0) * i, [np.array([0.0, 1, 2])], filename="x.png")
check(seen == [1, 1], seen)
''',
)
bug(
    "c01-one-replacement-per-walker", "C01",
    "two accepted events of the same step that overwrite the same walker",
    "only the first of several events that overwrite the same walker is carried out",
    [(A + "birth_death.py", "        for dup, kill in event_list:\n", "        replaced = set()\n        for dup, kill in event_list:\n            if kill in replaced:\n                continue\n            replaced.add(kill)\n")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
n = 0
for seed in range(300):
    parts = [P([x]) for x in (-1.0, 0.0, 1.2, 3.0)]
    for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0)): p.energy = e
    with quiet(): b = BirthDeath(parts, 10.0, 10, np.array([0.5]), 1.0, seed=seed)
    want = [float(p.pos[0]) for p in parts]
    ev = b.do_birth_death()
    for dup, kill in ev:
        want[kill] = want[dup]
    n += len({k for _, k in ev}) < len(ev)
    check([float(p.pos[0]) for p in parts] == want, (seed, ev))
check(n > 5, n)
''',
)
bug(
    "c02-density-points-of-first-dimension", "C02",
    "a tabulated correction in two dimensions whose second range is long compared to its bandwidth",
    "the equilibrium density is tabulated too coarsely for the kernel in the second dimension, the correction is wrong",
    [("bdld/main.py", "        min_points_gaussian = int(np.ceil((r[1] - r[0]) / (0.5 * bd_bw[dim])))\n", "        min_points_gaussian = int(np.ceil((r[1] - r[0]) / (0.5 * bd_bw[0])))\n")],
    '''
from bdld import main as m
from bdld.actions.birth_death import dens_kernel_convolution
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential(np.array([[0.0, 0.0, 0.5], [0.0, 0.0, 0.0], [0.5, 0.0, 0.0]]), [(-4.0, 4.0), (-4.0, 4.0)])
bw = np.array([0.033, 0.005])
with quiet():
    g = m.bd_prob_density(pot, bw, 1.0)
    c = dens_kernel_convolution(g, bw, "same")
mid = tuple(n // 2 for n in g.n_points)
# far from the edges the convolution of a smooth density with a narrow kernel is the density, up to its curvature
check(abs(c.data[mid] / g.data[mid] - 1) < 0.05, (g.n_points, c.data[mid], g.data[mid]))
''',
)
bug(
    "c03-momenta-of-old-walkers", "C03",
    "trajectories with momenta and an accepted birth-death event",
    "the trajectory keeps writing the momentum of a walker that was replaced",
    [(A + "trajectory_action.py", "        self.ld = ld\n", "        self.ld = ld\n        self.walkers = list(ld.particles)\n"), (A + "trajectory_action.py", "[p.mom for p in self.ld.particles]", "[p.mom for p in self.walkers]")],
    '''
text = LD.format(n=6) + POT + "[particles]\\nnumber: 4\\ninitial-distribution: fractions-pos\\npos1: -2.5\\npos2: 0\\npos3: 2\\nfractions: 2, 1, 1\\n[birth-death]\\nstride: 1\\nkernel-bandwidth: 0.5\\nexponential-factor: 1000\\nseed: 1\\n[trajectories]\\nfilename: t\\nmomentum: true\\nstride: 1\\n"
from bdld.actions import birth_death as bdm, bussi_parinello_ld as bp
got = []
old = bdm.BirthDeath.run
def run(self, step):
    old(self, step)
    got.append([float(p.mom[0]) for p in self.particles])
bdm.BirthDeath.run = run
with scratch():
    check(main(text) == "ok")
    for i in range(4):
        r = rows(f"t.{i}")
        for s, row in enumerate(r):
            if row[0] > 0:
                k = int(round(row[0] / 0.01)) - 1
                check(abs(row[2] - got[k][i]) < 1e-6, (i, s, row, got[k]))
''',
)
bug(
    "c05-rest-of-momentum-reversed", "C05",
    "reflective boundary in several dimensions, crossed at an upper wall of a dimension that is not the last",
    "the momentum components of the later dimensions are reversed too",
    [("bdld/potential/potential.py", "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][1]\n                mom[i:] = -mom[i:]")],
    '''
from bdld.potential import potential
from bdld.potential.polynomial import PolynomialPotential
pot = PolynomialPotential(np.zeros((2, 2)), [(-1.0, 1.0), (-1.0, 1.0)])
pot.boundary_condition = potential.BoundaryCondition.reflective
pos, mom = np.array([1.5, 0.2]), np.array([2.0, 0.7])
pot.apply_boundary_condition(pos, mom)
check(list(pos) == [1.0, 0.2] and list(mom) == [-2.0, 0.7], (pos, mom))
''',
)
bug(
    "c09-velocity-for-momentum", "C09",
    "trajectories with momenta for walkers of a mass other than one",
    "the velocity is written in place of the momentum",
    [(A + "trajectory_action.py", "np.c_[save_times, save_pos[:, i], save_momentum[:, i]]", "np.c_[\n                        save_times,\n                        save_pos[:, i],\n                        save_momentum[:, i] / self.ld.particles[i].mass,\n                    ]")],
    '''
text = LD.format(n=3) + POT + PART.format(n=2) + "mass: 2.5\\n[trajectories]\\nfilename: t\\nmomentum: true\\n"
def move(step, parts):
    for i, p in enumerate(parts):
        p.mom = np.array([0.5 * step + i])
with scratch(), script(move):
    check(main(text) == "ok")
    for i in range(2):
        got = [r[2] for r in rows(f"t.{i}") if r[0] > 0]
        check(got == [0.5 * s + i for s in (1, 2, 3)], (i, got))
''',
)
bug(
    "c10-upper-edge-lost", "C10",
    "a walker exactly on the upper edge of the histogram's range, e.g. put there by a reflective boundary",
    "positions on the upper edge are not counted",
    [("bdld/histogram.py", "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n", "        data = np.asarray(data)\n        inside = [(data[:, i] >= b[0]) & (data[:, i] < b[-1]) for i, b in enumerate(self.bins)]\n        tmp_histo, _ = np.histogramdd(data[np.all(inside, axis=0)], bins=self.bins)\n")],
    '''
from bdld.histogram import Histogram
h = Histogram([2], [(0.0, 1.0)])
h.add(np.array([[0.2], [1.0], [0.0]]))
check(list(h.data) == [2, 1], h.data)
''',
)
bug(
    "c11-surface-only-after-update", "C11",
    "an fes stride that is no multiple of the time steps at which the histogram is updated",
    "the surface is not recomputed at time steps without new data in the histogram, so it is older than the stride says",
    [(A + "fes_action.py", "        if self.stride and step % self.stride == 0:\n", "        new_data = self.histo_action.last_update == step\n        if self.stride and step % self.stride == 0 and new_data:\n")],
    '''
text = LD.format(n=6) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 2\\n[histogram]\\nmin: -3\\nmax: 3\\nbins: 6\\n[fes]\\nkt: 1\\nfilename: f\\nstride: 3\\nwrite-stride: 3\\n"
def move(step, parts):
    parts[0].pos[:] = -2.5 + step % 3
with scratch(), script(move):
    check(main(text) == "ok")
    got = [r[1] for r in rows("f_3")]
# steps 1 and 2 are in the histogram
check(sorted(got)[:2] == [0.0, 0.0] and sum(np.isfinite(got)) == 2, got)
''',
)
bug(
    "c12-three-dimensions-transposed", "C12",
    "a three-dimensional histogram with different ranges",
    "the probabilities of a three-dimensional surface are attributed to bins in another order",
    [(A + "delta_f_action.py", "    probabilities = np.exp(-fes / float(kt)).reshape((-1))\n", "    # first dimension fastest, as in two-dimensional plots\n    order = 'F' if fes.ndim > 2 else 'C'\n    probabilities = np.exp(-fes / float(kt)).reshape((-1), order=order)\n")],
    '''
from bdld.actions.delta_f_action import calculate_delta_f
fes = np.zeros((2, 3, 2))
fes[0] = 1.0
masks = [np.zeros((2, 3, 2), bool), np.zeros((2, 3, 2), bool)]
masks[0][0] = True
masks[1][1] = True
got = calculate_delta_f(fes, 1.0, [m.reshape(-1) for m in masks])
check(abs(got[0] + 1.0) < 1e-9, got)
''',
)
bug(
    "c14-overwritten-twice-once", "C14",
    "two births in one step that overwrite the same walker",
    "a birth that overwrites a walker which was overwritten before does not count as successful",
    [(A + "birth_death.py", "                        kill_list.append(rand_other)\n                        dup_list.append(i)\n                        self.stats.dup_count += 1", "                        if rand_other not in kill_list:\n                            self.stats.dup_count += 1\n                        kill_list.append(rand_other)\n                        dup_list.append(i)")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
for seed in range(200):
    parts = [P([x]) for x in (-1.0, 0.0, 1.2, 3.0)]
    for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0)): p.energy = e
    with quiet(): b = BirthDeath(parts, 10.0, 10, np.array([0.5]), 1.0, seed=seed)
    ev = b.do_birth_death()
    check(b.stats.dup_count + b.stats.kill_count == len(ev), (seed, ev, b.stats.dup_count, b.stats.kill_count))
''',
)
bug(
    "c15-walkers-sorted", "C15",
    "a particle distribution in the input and walkers that overtake each other",
    "counting the walkers reorders them, so the random numbers go to other walkers than without the output",
    [(A + "particle_distribution.py", "        pos = np.array([p.pos for p in self.particles])\n", "        self.particles.sort(key=lambda p: p.pos[0])  # for searching\n        pos = np.array([p.pos for p in self.particles])\n")],
    '''
from bdld.actions import bussi_parinello_ld as bp
text = LD.format(n=30) + POT + "[particles]\\nnumber: 3\\ninitial-distribution: fractions-pos\\npos1: 1\\npos2: 0\\npos3: -1\\nfractions: 1, 1, 1\\n"
res = []
old = bp.BussiParinelloLD.run
for extra in ("", "[particle-distribution]\\nfilename: p\\nstride: 1\\nstate1-min: -3\\nstate1-max: 3\\n"):
    last = {}
    def run(self, step):
        old(self, step)
        last[step] = sorted(float(p.pos[0]) for p in self.particles)
    bp.BussiParinelloLD.run = run
    with scratch():
        check(main(text + extra) == "ok")
    res.append(last)
check(res[0] == res[1], "states differ")
''',
)
bug(
    "c16-comment-in-value", "C16",
    "a value that contains a blank and a semicolon",
    "everything after a blank and a semicolon is cut off, so wrong values are accepted and names shortened",
    [("bdld/inputparser.py", "configparser.ConfigParser()", 'configparser.ConfigParser(inline_comment_prefixes=(";",))')],
    '''
text = LD.format(n=3) + POT + PART.format(n=1) + "[trajectories]\\nfilename: a ;b\\n"
with scratch():
    check(main(text) == "ok")
    check(os.path.exists("a ;b.0"), os.listdir("."))
with scratch():
    check(main(text.replace("n_steps: 3", "n_steps: 3 ;4")) == "exit 1")
''',
)
bug(
    "c18-bins-of-first-dimension", "C18",
    "a two-dimensional histogram with different numbers of bins",
    "the header of the histogram files gives the bins of the first dimension for all",
    [(A + "histogram_action.py", 'constants[f"{fields[i]}_n_bins"] = n_bins[i]', 'constants[f"{fields[i]}_n_bins"] = n_bins[0]')],
    '''
text = LD.format(n=3) + "[potential]\\ntype: mueller-brown\\n[particles]\\nnumber: 1\\ninitial-distribution: fractions-pos\\npos1: 0, 0.5\\nfractions: 1\\n[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -1, -1\\nmax: 2, 2\\nbins: 3, 5\\nfilename: h\\n"
with scratch():
    check(main(text) == "ok")
    head = [l.split() for l in open("h") if l.startswith("#") and "n_bins" in l]
    check([float(w[-1]) for w in head] == [3.0, 5.0], head)
''',
)
bug(
    "c19-plot-only-when-updated", "C19",
    "a plot-stride that is no multiple of the fes stride",
    "plots at time steps without a new surface are left out",
    [(A + "fes_action.py", "        if self.plot_stride and step % self.plot_stride == 0:", "        if self.plot_stride and step % self.plot_stride == 0 == step % self.stride:")],
    '''
text = LD.format(n=6) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -3\\nmax: 3\\nbins: 6\\n[fes]\\nkt: 1\\nstride: 2\\nplot-stride: 3\\nplot-filename: p.png\\n"
with scratch():
    check(main(text) == "ok")
    got = [f for f in os.listdir(".") if f.endswith(".png")]
check(len(got) == 3, got)
''',
)
bug(
    "c01-partners-remembered", "C01",
    "a second birth-death step in which the same walker acts again",
    "the other walker of an event is only drawn the first time and the same one in all later steps",
    [(A + "birth_death.py", "        num = self.rng.integers(num_part - 1)\n", "        if not hasattr(self, \"others\"):\n            self.others: dict = {}\n        if (num_part, excl) not in self.others:\n            self.others[(num_part, excl)] = self.rng.integers(num_part - 1)\n        num = self.others[(num_part, excl)]\n")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
def walkers():
    parts = [P([x]) for x in (-2.0, -1.0, 0.0, 1.2, 2.0, 3.0)]
    for p, e in zip(parts, (5.0, -4.0, -3.0, 1.0, 2.0, -2.0)): p.energy = e
    return parts
parts = walkers()
with quiet(): b = BirthDeath(parts, 10.0, 10, np.array([0.5]), 1.0, seed=3)
seen = set()
for _ in range(60):
    parts[:] = walkers()
    seen |= {(int(i), int(j)) for i, j in b.do_birth_death()}
check(len(seen) > 12, sorted(seen))
''',
)
bug(
    "c02-density-kept", "C02",
    "walkers that exchange their places between two birth-death steps",
    "the walker density of the last step is used again, in the old order of the walkers",
    [(A + "birth_death.py", "            beta = np.log(walker_density(pos, self.bw))\n", "            key = tuple(np.sort(pos, axis=None))\n            if getattr(self, \"density_key\", None) != key:\n                self.density_key = key\n                self.density = walker_density(pos, self.bw)\n            beta = np.log(self.density)\n")],
    '''
from bdld.actions.birth_death import BirthDeath
from bdld.particle import Particle
class P(Particle):
    energy = 0.0
parts = [P([x]) for x in (-1.0, -0.9, 2.0)]
with quiet(): b = BirthDeath(parts, 0.1, 10, np.array([0.5]), 1.0)
one = b.calc_betas()
parts.reverse()
two = b.calc_betas()
check(np.allclose(one, two[::-1]), (one, two))
''',
)
bug(
    "c05-condition-not-removed", "C05",
    "a potential whose boundary condition is taken off again",
    "the walkers are still put back into the range",
    [("bdld/potential/potential.py", "        self._boundary_condition = cond\n        self._set_boundary_condition_function()\n", "        known = getattr(self, \"_boundary_condition\", None) is not None\n        self._boundary_condition = cond\n        if cond is None and known:\n            return  # nothing to apply\n        self._set_boundary_condition_function()\n")],
    '''
from bdld.potential.polynomial import PolynomialPotential
from bdld.potential.potential import BoundaryCondition
pot = PolynomialPotential([0, 0, 1], [(-1.0, 1.0)])
pot.boundary_condition = BoundaryCondition.periodic
pot.boundary_condition = None
x, p = np.array([1.5]), np.array([1.0])
pot.apply_boundary_condition(x, p)
check(x[0] == 1.5, x)
''',
)
bug(
    "c09-nothing-to-write", "C09",
    "a write-stride smaller than the stride, so that there is nothing to write at some of its multiples",
    "rows of later steps get lost because the position in the buffer is not moved on",
    [(A + "trajectory_action.py", "            for i, filename in enumerate(self.filenames):\n                # 3d", "            if len(save_times) == 0:\n                return\n            for i, filename in enumerate(self.filenames):\n                # 3d")],
    '''
text = LD.format(n=20) + POT + PART.format(n=1) + "[trajectories]\\nfilename: t\\nstride: 5\\nwrite-stride: 3\\n"
with scratch():
    check(main(text) == "ok")
    got = [round(r[0] / rows("t.0")[0][0]) for r in rows("t.0")]
check(got == [1, 2, 3, 4], got)
''',
)
bug(
    "c10-resets-in-given-order", "C10",
    "several resets that are not listed in increasing order",
    "a reset that is listed after a later one never takes place",
    [(A + "histogram_action.py", "        if step in self.reset:\n", "        if self.reset and step == self.reset[0]:\n            self.reset = self.reset[1:]\n")],
    '''
text = LD.format(n=9) + POT + PART.format(n=1) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -30\\nmax: 30\\nbins: 1\\nreset: 5, 2, 7\\nfilename: h\\n"
with scratch():
    check(main(text) == "ok")
    total = sum(r[-1] for r in rows("h"))
check(total == 2, total)
''',
)
bug(
    "c12-row-reused", "C12",
    "a surface that changes without changing the sum of its values (the population of two bins exchanged)",
    "the free energy difference of the earlier surface is written again",
    [(A + "delta_f_action.py", """            self.delta_f[row, 1:] = calculate_delta_f(
                self.fes_action.fes.data, self.kt, self.masks
            )
        if self.write""", """            fes = self.fes_action.fes.data
            key = round(float(np.sum(fes[np.isfinite(fes)])), 9)
            if getattr(self, "last_key", None) != key:  # only if there is a new one
                self.last_key = key
                self.last_values = calculate_delta_f(fes, self.kt, self.masks)
            self.delta_f[row, 1:] = self.last_values
        if self.write""")],
    '''
text = LD.format(n=6) + POT + PART.format(n=3) + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -2\\nmax: 2\\nbins: 2\\nreset: 4\\n[fes]\\nkt: 1\\nstride: 3\\n[delta-f]\\nfilename: d\\nstride: 3\\nstate1-min: -2\\nstate1-max: 0\\nstate2-min: 0\\nstate2-max: 2\\n"
def move(step, walkers):
    for p, x in zip(walkers, (-1.0, -1.0, 1.0)): p.pos[:] = x if step < 5 else -x
with scratch(), script(move):
    check(main(text) == "ok")
    got = [r[1] for r in rows("d")]
check(np.allclose(got, [np.log(2), -np.log(2)]), got)
''',
)
bug(
    "c14-same-record-left-out", "C14",
    "a stats-stride smaller than the stride of the birth-death steps",
    "records are left out when nothing was counted since the last one",
    [(A + "birth_death.py", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            attempts = self.stats.dup_attempts + self.stats.kill_attempts\n            if attempts != getattr(self, \"last_attempts\", None):\n                self.stats.print(step)\n            self.last_attempts = attempts\n")],
    '''
text = LD.format(n=12) + POT + PART.format(n=3) + "[birth-death]\\nstride: 4\\nkernel-bandwidth: 0.5\\nstats-stride: 2\\nstats-filename: s\\n"
with scratch():
    check(main(text) == "ok")
    got = [r[0] for r in rows("s")]
check(got == [2, 4, 6, 8, 10, 12], got)
''',
)
bug(
    "c18-many-trajectories", "C18",
    "trajectory files of an earlier run with ten walkers or more",
    "the files of the walkers with two-digit numbers are overwritten without a backup",
    [(A + "trajectory_action.py", "                initialize_file(fname, ifields)\n", "                if i < 10 or not os.path.exists(fname):\n                    initialize_file(fname, ifields)\n                else:\n                    with open(fname, \"w\") as f:\n                        f.write(\"#! FIELDS \" + \" \".join(ifields) + \"\\n\")\n"), (A + "trajectory_action.py", "import numpy as np\n", "import os\n\nimport numpy as np\n")],
    '''
text = LD.format(n=2) + POT + PART.format(n=12) + "[trajectories]\\nfilename: t\\n"
old = {f"t.{i}": f"old {i}" for i in range(12)}
with scratch(dict(old)):
    check(main(text) == "ok")
    now = [open(f).read() for f in os.listdir(".")]
check(all(v in now for v in old.values()), len(now))
''',
)
bug(
    "c04-inserted-walker", "C04",
    "a walker inserted between others of another mass",
    "an inserted walker gets the thermostat constant of the walker whose place it takes",
    [(A + "bussi_parinello_ld.py", "                self.particles.insert(partnum, p)", "                if partnum < len(self.particles):\n                    p.c2 = self.particles[partnum].c2  # calculated already\n                self.particles.insert(partnum, p)")],
    '''
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
def final(order):
    with quiet():
        ld = BussiParinelloLD(PolynomialPotential([0.0, 0.0, 1.0], [(-9.0, 9.0)]), 0.1, 2.0, 1.0, 7)
        for x, m, n in order: ld.add_particle([x], m, n)
        for k in range(5): ld.run(k + 1)
    return [(float(p.pos[0]), float(p.mom[0])) for p in ld.particles]
a = final([(0.5, 4.0, -1), (1.0, 1.0, -1)])
b = final([(1.0, 1.0, -1), (0.5, 4.0, 0)])
check(np.allclose(a, b), (a, b))
''',
)
bug(
    "c11-plot-changes-surface", "C11",
    "two dimensions, a plot-domain and plots between the updates of the surface",
    "drawing a plot replaces the infinite values of the surface by the upper end of the plot-domain",
    [(A + "fes_action.py", "        except TypeError:  # can't unpack if not set\n            vmin = None\n            vmax = None\n", "        except TypeError:  # can't unpack if not set\n            vmin = None\n            vmax = None\n        if vmax is not None:\n            fes[np.isinf(fes)] = vmax  # show unvisited parts in the last color\n")],
    '''
pot = "[potential]\\ntype: polynomial\\nn_dim: 2\\ncoeffs-file: c\\nmin: -3, -3\\nmax: 3, 3\\n"
part = "[particles]\\nnumber: 2\\ninitial-distribution: fractions-pos\\npos1: 0.5, 0.5\\nfractions: 1\\n"
text = LD.format(n=6) + pot + part + "[trajectories]\\nwrite-stride: 1\\n[histogram]\\nmin: -2, -2\\nmax: 2, 2\\nbins: 2, 2\\n[fes]\\nkt: 1\\nstride: 4\\nplot-stride: 4\\nwrite-stride: 5\\nfilename: f\\nplot-filename: p.png\\nplot-domain: 0, 3\\n"
def move(step, walkers):
    for p in walkers: p.pos[:] = 1.0
with scratch({"c": "2 0 1.0\\n0 2 1.0\\n"}), script(move):
    r = main(text)
    check(r == "ok", r)
    got = sorted(x[2] for x in rows("f_5"))
check(got == [0.0, np.inf, np.inf, np.inf], got)
''',
)
bug(
    "c14-rest-are-births", "C14",
    "a walker without any rate, e.g. a single one",
    "walkers with a rate of exactly zero are counted as birth attempts",
    [(A + "birth_death.py", "            self.stats.dup_attempts += np.count_nonzero(beta < 0)\n", "            self.stats.dup_attempts += num_part - curr_kill_attempts\n")],
    '''
text = LD.format(n=6) + POT + PART.format(n=1) + "[birth-death]\\nstride: 2\\nkernel-bandwidth: 0.5\\nstats-stride: 3\\nstats-filename: s\\n"
with scratch():
    r = main(text)
    check(r == "ok", r)
    got = rows("s")
check(got == [[3, 0, 0, 0, 0], [6, 0, 0, 0, 0]], got)
''',
)
bug(
    "c01-recalc-first-events", "C01",
    "recalculated probabilities, the multiplicative variant and more than two events in a step",
    "with the multiplicative variant the rates are not recalculated any more after the second event of a step",
    [(A + "birth_death.py", "                    event_list.append(curr_event)\n                    beta = self.calc_betas()\n", "                    event_list.append(curr_event)\n                    if self.approx_variant != ApproxVariant.mult or len(event_list) < 3:\n                        beta = self.calc_betas()\n")],
    '''
from bdld.actions.birth_death import BirthDeath, ApproxVariant
from bdld.actions.bussi_parinello_ld import BussiParinelloLD
from bdld.potential.polynomial import PolynomialPotential
from bdld.main import bd_prob_density
def events(seed):
    with quiet():
        pot = PolynomialPotential([0.0, 0.0, 1.0], [(-3.0, 3.0)])
        ld = BussiParinelloLD(pot, 0.1, 2.0, 1.0, 7)
        for i in range(16): ld.add_particle([-1.4 + 0.18 * i])
        bw = np.array([0.4])
        bd = BirthDeath(ld.particles, 0.1, 1, bw, 1.0, 1e9, True, ApproxVariant.mult, bd_prob_density(pot, bw, 1.0), seed)
    moves, calc, seen = bd.perform_moves, bd.calc_betas, []
    def watch(events):
        b = calc()
        for dup, kill in events: seen.append((int(dup), int(kill), float(b[dup]), float(b[kill])))
        moves(events)
    bd.perform_moves = watch
    bd.do_birth_death()
    return seen
# the acting walker is the source if its rate is negative, the victim if it is positive: one of both has to fit
for seed in range(40):
    for e in events(seed): check(e[2] < 0 or e[3] > 0, (seed, e))
''',
)
