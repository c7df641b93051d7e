"""Rewrites of bdld that keep its behaviour: every check has to stay quiet on each of them

trials.py [names..] [--only C01,C02]   applies each bundle to a scratch copy and runs the quick checks on it
"""
import os, shutil, subprocess, sys, concurrent.futures as cf

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
T = {}
A = "bdld/actions/"


def trial(name, *edits):
    T[name] = edits


trial(
    "bd-moves-by-fields",
    (A + "birth_death.py", "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", """            source = self.particles[dup]
            new = copy.copy(source)
            new.pos = source.pos.copy()
            new.mom = source.mom.copy()
            new.forces = np.array(source.forces)
            self.particles[kill] = new
"""),
    (A + "birth_death.py", """        num = self.rng.integers(num_part - 1)
        if num >= excl:
            num += 1
        return num
""", """        others = [j for j in range(num_part) if j != excl]
        return others[self.rng.integers(len(others))]
"""),
    (A + "birth_death.py", "            event_particles = np.where(rand <= prob)[0]\n            self.rng.shuffle(event_particles)\n", "            event_particles = self.rng.permutation(np.flatnonzero(prob >= rand))\n"),
    (A + "birth_death.py", "            prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n", "            prob = -np.expm1(-self.rate_fac * self.dt * np.abs(beta))\n"),
)
trial(
    "bd-split-methods",
    (A + "birth_death.py", """        # although this duplicates code, the "in bulk" version is faster this way
        if not self.recalc_probs:
""", """        if self.recalc_probs:
            return self._one_by_one(beta, rand)
        else:
"""),
    (A + "birth_death.py", """            self.perform_moves(event_list)

        else:  # perform each accepted event directly and recalculate probs
            particle_indices = np.arange(num_part)
            self.rng.shuffle(particle_indices)
            event_list = []
            for i in particle_indices:
                if beta[i] > 0:
                    self.stats.kill_attempts += 1
                if beta[i] < 0:
                    self.stats.dup_attempts += 1

                prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)
                if rand[i] <= prob:
                    rand_other = self.random_other(num_part, i)
                    if beta[i] > 0:
                        curr_event = (rand_other, i)
                        self.stats.kill_count += 1
                    elif beta[i] < 0:
                        curr_event = (i, rand_other)
                        self.stats.dup_count += 1
                    self.perform_moves([curr_event])
                    event_list.append(curr_event)
                    beta = self.calc_betas()

        return event_list
""", """            self.perform_moves(event_list)
        return event_list

    def _one_by_one(self, beta, rand):
        num_part = len(self.particles)
        events = []
        order = list(range(num_part))
        self.rng.shuffle(order)
        while order:
            i = order.pop(0)
            rate = beta[i]
            if rate > 0:
                self.stats.kill_attempts += 1
            elif rate < 0:
                self.stats.dup_attempts += 1
            if rand[i] > self._prob(rate):
                continue
            other = self.random_other(num_part, i)
            if rate > 0:
                event = (other, i)
                self.stats.kill_count += 1
            else:
                event = (i, other)
                self.stats.dup_count += 1
            self.perform_moves([event])
            events.append(event)
            beta = self.calc_betas()
        return events

    def _prob(self, rate):
        return 1 - np.exp(-abs(rate) * self.dt * self.rate_fac)
"""),
)
trial(
    "bd-other-objects",
    (A + "birth_death.py", "        rand = self.rng.random(num_part)  # rng for all at once\n", "        rand = np.array([self.rng.uniform() for _ in range(num_part)])\n"),
    (A + "birth_death.py", """            self.particles[kill] = copy.deepcopy(self.particles[dup])
""", """            new = copy.deepcopy(self.particles[dup])
            del self.particles[kill]
            self.particles.insert(kill, new)
"""),
    (A + "birth_death.py", """        if num >= excl:
            num += 1
        return num
""", """        return int(num) + int(num >= excl)
"""),
    (A + "birth_death.py", """        pos = np.array([p.pos for p in self.particles])
        with np.errstate(divide="ignore"):
            # density can be zero and make beta -inf. Filter when averaging in next step
            beta = np.log(walker_density(pos, self.bw))
""", """        pos = self._positions()
        with np.errstate(divide="ignore"):
            beta = np.log(walker_density(pos, self.bw))
"""),
    (A + "birth_death.py", """    def random_other(self""", """    def _positions(self):
        return np.stack([p.pos for p in self.particles])

    def random_other(self"""),
    (A + "birth_death.py", """        dist = np.array([(pos[i] - pos[j]) for j in range(n_part)])
        kernel_values = calc_kernel(dist, bw)
        density[i] = np.mean(kernel_values)
""", """        density[i] = calc_kernel(pos[i] - pos, bw).sum() / n_part
"""),
    (A + "birth_death.py", """            if self.stats_filename:
                stats = np.array(
                    [
                        step,
                        self.dup_count,
                        self.dup_attempts,
                        self.kill_count,
                        self.kill_attempts,
                    ]
                ).reshape(1, 5)
                with open(self.stats_filename, "ab") as f:
                    np.savetxt(
                        f,
                        stats,
                        delimiter=" ",
                        newline="\\n",
                        fmt="%d",
                    )
""", """            if self.stats_filename:
                row = (step, self.dup_count, self.dup_attempts, self.kill_count, self.kill_attempts)
                with open(self.stats_filename, "a") as f:
                    f.write(" ".join(str(x) for x in row) + "\\n")
"""),
)
trial(
    "density-one-formula",
    (A + "birth_death.py", """    from scipy.spatial.distance import pdist, squareform  # type: ignore

    n_dim = pos.shape[1]
    if n_dim == 1:  # faster version for 1d, otherwise identical
""", """    from scipy.spatial.distance import cdist, pdist, squareform  # type: ignore

    n_dim = pos.shape[1]
    if len(pos) < 500:
        scaled = pos / bw
        norm = (2 * np.pi) ** (n_dim / 2) * np.prod(bw)
        return np.mean(np.exp(-0.5 * cdist(scaled, scaled, "sqeuclidean")), axis=1) / norm
    if n_dim == 1:  # faster version for 1d, otherwise identical
"""),
)
trial(
    "trajectory-buffers",
    (A + "trajectory_action.py", """        self.positions[row] = [p.pos for p in self.ld.particles]
        if self.store_momentum:
            self.momentum[row] = [p.mom for p in self.ld.particles]
""", """        for i, particle in enumerate(self.ld.particles):
            self.positions[row, i, :] = particle.pos
            if self.store_momentum:
                self.momentum[row, i, :] = particle.mom
"""),
    (A + "trajectory_action.py", """                if self.store_momentum:
                    save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i]]
                else:
                    save_data = np.c_[save_times, save_pos[:, i]]
                with open(filename, "ab") as f:
                    np.savetxt(
                        f,
                        save_data,
                        delimiter=" ",
                        newline="\\n",
                        fmt=self.write_fmt,
                    )
                self.last_write = step
""", """                columns = [save_times, save_pos[:, i]]
                if self.store_momentum:
                    columns.append(save_momentum[:, i])
                self._append(filename, np.hstack(columns))
            self.last_write = step
"""),
    (A + "trajectory_action.py", """    def write(self, step: int) -> None:
""", """    def _append(self, filename, rows) -> None:
        with open(filename, "a") as f:
            for row in rows:
                f.write(" ".join(self.write_fmt % x for x in row) + "\\n")

    def write(self, step: int) -> None:
"""),
)
trial(
    "main-loop-extracted",
    ("bdld/main.py", """    # main loop
    for step in range(1, n_steps + 1):
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        action.final_run(n_steps)

    print("Finished without errors")
""", """    run_simulation(actions_list, n_steps)
    print("Finished without errors")


def run_simulation(actions_list, n_steps):
    step = 0
    while step < n_steps:
        step += 1
        for action in actions_list:
            action.run(step)

    print("Simulation finished, performing final actions")
    for action in actions_list:
        if type(action).final_run is not Action.final_run:
            action.final_run(step)
"""),
    ("bdld/main.py", """        for _ in range(options["number"]):
            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]
            ld.add_particle(pos, mass)
""", """        low, high = np.array(ld.pot.ranges, dtype=float).T
        for pos in rng.uniform(low, high, size=(options["number"], ld.pot.n_dim)):
            ld.add_particle(pos, mass)
"""),
    ("bdld/main.py", """            ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)
""", """            ld.add_particle(init_pos_choices[rng.integers(len(init_pos_choices))], mass)
"""),
    ("bdld/main.py", """        for i, pos in enumerate(init_pos_choices):
            for _ in range(counts[i]):
                ld.add_particle(pos, mass)
""", """        all_pos = [pos for pos, n in zip(init_pos_choices, counts) for _ in range(n)]
        for pos in all_pos:
            ld.add_particle(pos, mass)
"""),
)
trial(
    "setup-by-table",
    ("bdld/main.py", """    bc = options["boundary-condition"]
    if bc == "reflective":
        pot.boundary_condition = potential.potential.BoundaryCondition.reflective
    elif bc == "periodic":
        pot.boundary_condition = potential.potential.BoundaryCondition.periodic
    return pot
""", """    if options["boundary-condition"]:
        pot.boundary_condition = potential.potential.BoundaryCondition[options["boundary-condition"]]
    return pot
"""),
    ("bdld/main.py", """    if ld.pot.n_dim == 1:
        bd_bw = np.array([options["kernel-bandwidth"]])
    else:
        bd_bw = np.array(options["kernel-bandwidth"])
""", """    bd_bw = np.atleast_1d(options["kernel-bandwidth"])
"""),
    ("bdld/main.py", """    return BirthDeath(
        ld.particles,
        ld.dt,
        options["stride"],
        bd_bw,
        ld.kt,
        options["exponential-factor"],
        options["recalculate-probabilities"],
        approx_variant,
        eq_density,
        options["seed"] + 1000 if options["seed"] is not None else None,
        options["stats-stride"],
        options["stats-filename"],
    )
""", """    seed = options["seed"]
    if seed is not None:
        seed += 1000
    return BirthDeath(
        particles=ld.particles,
        md_dt=ld.dt,
        stride=options["stride"],
        bw=bd_bw,
        kt=ld.kt,
        rate_fac=options["exponential-factor"],
        recalc_probs=options["recalculate-probabilities"],
        approx_variant=approx_variant,
        eq_density=eq_density,
        seed=seed,
        stats_stride=options["stats-stride"],
        stats_filename=options["stats-filename"],
    )
"""),
    ("bdld/main.py", """    if traj_action.ld.pot.n_dim == 1:
        ranges = [(options["min"], options["max"])]
        n_bins = [options["bins"]]
    else:
        ranges = list(zip(options["min"], options["max"]))
        n_bins = options["bins"]
""", """    lower, upper = np.atleast_1d(options["min"]), np.atleast_1d(options["max"])
    ranges = [(float(a), float(b)) for a, b in zip(lower, upper)]
    n_bins = options["bins"] if isinstance(options["bins"], list) else [options["bins"]]
"""),
)
trial(
    "integrators",
    (A + "bussi_parinello_ld.py", """            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
            # first part of velocity verlet
            p.mom += 0.5 * p.forces * self.dt
            p.pos += (p.mom / p.mass) * self.dt
            # apply boundary conditions if needed
            self.pot.apply_boundary_condition(p.pos, p.mom)
            # second part of velocity verlet with force evaluation
            p.energy, p.forces = self.pot.evaluate(p.pos)
            p.mom += 0.5 * p.forces * self.dt
            # second part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
""", """            self._thermostat(p)
            self._verlet(p)
            self._thermostat(p)

    def _thermostat(self, p):
        noise = self.rng.normal(0.0, 1.0, size=self.pot.n_dim)
        p.mom = p.c2 * noise + self.c1 * p.mom

    def _verlet(self, p):
        half = 0.5 * self.dt
        mom = p.mom + half * p.forces
        pos = p.pos + self.dt * mom / p.mass
        self.pot.apply_boundary_condition(pos, mom)
        p.pos = pos
        p.energy, p.forces = self.pot.evaluate(pos)
        p.mom = mom + half * p.forces
"""),
    (A + "overdamped_ld.py", """            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(
                self.pot.n_dim
            )
            self.pot.apply_boundary_condition(p.pos, p.mom)
            p.energy, p.forces = self.pot.evaluate(p.pos)
""", """            noise = self.rng.normal(size=self.pot.n_dim)
            new = p.pos + self.dt * p.forces
            new = new + np.sqrt(2 * self.dt) * noise
            self.pot.apply_boundary_condition(new, p.mom)
            p.pos = new
            p.energy, p.forces = self.pot.evaluate(p.pos)
"""),
    ("bdld/particle.py", """        self.pos = np.array(pos, dtype=float)
""", """        self.pos = np.atleast_1d(np.array(pos, dtype=float)).copy()
"""),
    ("bdld/particle.py", """            self.mom = np.array([0.0] * len(self.pos))
""", """            self.mom = np.zeros_like(self.pos)
"""),
)
trial(
    "overdamped-all-at-once",
    (A + "overdamped_ld.py", """        for p in self.particles:
            p.pos += self.dt * p.forces + self.noise_factor * self.rng.standard_normal(
                self.pot.n_dim
            )
            self.pot""", """        noise = self.rng.standard_normal((len(self.particles), self.pot.n_dim))
        for p, xi in zip(self.particles, noise):
            p.pos += self.dt * p.forces + self.noise_factor * xi
            self.pot"""),
    (A + "bussi_parinello_ld.py", """        for p in self.particles:
            # first part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
""", """        for p in self.particles:
            noise = self.rng.standard_normal((2, self.pot.n_dim))
            # first part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * noise[0]
"""),
    (A + "bussi_parinello_ld.py", """            # second part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)
""", """            # second part of thermostat
            p.mom = self.c1 * p.mom + p.c2 * noise[1]
"""),
)
trial(
    "potentials",
    ("bdld/potential/potential.py", """        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] = self.ranges[i][0]
                mom[i] = -mom[i]
            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
""", """        low, high = np.array(self.ranges, dtype=float).T
        outside = (pos < low) | (pos > high)
        np.clip(pos, low, high, out=pos)
        mom[outside] *= -1
"""),
    ("bdld/potential/potential.py", """        for i, x in enumerate(pos):
            if x < self.ranges[i][0] or x > self.ranges[i][1]:
                start, end = self.ranges[i]
                # the minimum only guards against rounding
                pos[i] = min(start + (x - start) % (end - start), end)
""", """        for i, (start, end) in enumerate(self.ranges):
            box = end - start
            if not start <= pos[i] <= end:
                pos[i] -= box * np.floor((pos[i] - start) / box)
                pos[i] = min(max(pos[i], start), end)
"""),
    ("bdld/potential/potential.py", """        fes = np.fromiter((self.energy(p) for p in pos), np.float64, len(pos))
        if mintozero:
            fes -= np.min(fes)
        return fes
""", """        fes = np.array([self.energy(p) for p in pos], dtype=float)
        return fes - fes.min() if mintozero else fes
"""),
    ("bdld/potential/potential.py", """        prob = np.exp(-(fes - np.min(fes.data)) / kt)
        # normalize with volume element from stepsizes
        prob /= np.sum(prob.data) * np.prod(prob.stepsizes)
        return prob
""", """        prob = fes.copy_empty()
        prob.data = np.exp((np.min(fes.data) - fes.data) / kt)
        volume = 1.0
        for h in prob.stepsizes:
            volume *= h
        prob.data = prob.data / (volume * prob.data.sum())
        return prob
"""),
    ("bdld/potential/polynomial.py", """        return np.array([-self.polyval(*pos, self.der[d]) for d in range(self.n_dim)])
""", """        res = np.empty(self.n_dim)
        for d, der in enumerate(self.der):
            res[d] = -self.polyval(*pos, der)
        return res
"""),
    ("bdld/potential/mueller_brown.py", """        pot = 0.0
        x = pos[0]
        y = pos[1]
        for i in range(4):
            pot += self.A[i] * np.exp(
                a[i] * (x - x0[i]) ** 2
                + b[i] * (x - x0[i]) * (y - y0[i])
                + c[i] * (y - y0[i]) ** 2
            )
        pot += pot_shift
        return pot
""", """        dx, dy = pos[0] - x0, pos[1] - y0
        return float(np.sum(self.A * np.exp(a * dx**2 + b * dx * dy + c * dy**2))) + pot_shift
"""),
)
trial(
    "grids",
    ("bdld/grid.py", """        return (
            np.array(np.meshgrid(*self.axes(), indexing="ij"))
            .reshape(self.n_dim, np.prod(self.n_points))
            .T
        )
""", """        import itertools

        return np.array(list(itertools.product(*self.axes())))
"""),
    ("bdld/grid.py", """        return sp_interpolate.griddata(
            self.points(), self.data.flatten(), points, method, fill_value
        )
""", """        interp = sp_interpolate.RegularGridInterpolator(
            self.axes(), self.data, method=method, bounds_error=False, fill_value=fill_value
        )
        res = interp(np.asarray(points).reshape(-1, self.n_dim))
        return res.reshape(-1, 1) if self.n_dim == 1 and np.ndim(points) == 2 else res
"""),
    ("bdld/grid.py", """        self.data = np.array([func(p) for p in self.points()])
""", """        values = np.empty(int(np.prod(self.n_points)))
        for k, p in enumerate(self.points()):
            values[k] = func(p)
        self.data = values
"""),
    ("bdld/grid.py", """            if not (self.n_points == other.n_points) or not (
                self.ranges == other.ranges
            ):
""", """            if not self._same_points(other):
"""),
    ("bdld/grid.py", """    sparse_n_points = [
        n if n <= max_points[i] else max_points[i] for i, n in enumerate(g.n_points)
    ]
""", """    sparse_n_points = [min(n, m) for n, m in zip(g.n_points, max_points)]
"""),
    ("bdld/histogram.py", """        tmp_histo, _ = np.histogramdd(data, bins=self.bins)
        self.data += tmp_histo
""", """        self.data = self.data + np.histogramdd(data, bins=self.bins)[0]
"""),
    ("bdld/histogram.py", """        self.data.fill(0)
""", """        self.data = np.zeros(self.n_points)
"""),
    ("bdld/histogram.py", """            np.array(
                [(bins_x[i] + bins_x[i + 1]) / 2 for i in range(0, len(bins_x) - 1)]
            )
""", """            0.5 * (bins_x[1:] + bins_x[:-1])
"""),
)
trial(
    "fes-and-plots",
    (A + "fes_action.py", """    fes = np.where(
        histo.data == 0, np.inf, -kt * np.log(histo.data, where=(histo.data != 0))
    )
    if mintozero:
        minimum = np.min(fes)
        if minimum != np.inf:  # otherwise all values become nan
            fes -= np.min(fes)
""", """    fes = np.full(histo.data.shape, np.inf)
    visited = histo.data > 0
    fes[visited] = -kt * np.log(histo.data[visited])
    if mintozero and visited.any():
        fes -= fes[visited].min()
"""),
    (A + "fes_action.py", """    fig = plt.figure(figsize=(8, 4), dpi=100)
""", """    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    fig = Figure(figsize=(8, 4), dpi=100)
    FigureCanvasAgg(fig)
"""),
    (A + "fes_action.py", """    ax = plt.axes()
""", """    ax = fig.add_subplot(111)
"""),
    (A + "fes_action.py", """    plt.close(fig)
""", ""),
    (A + "fes_action.py", """        if self.filename:
            if step:
                filename = f"{self.filename}_{step}"
            else:
                filename = self.filename
            backup_if_exists(filename)
            self""", """        if not self.filename:
            return
        else:
            filename = self.filename + (f"_{step}" if step else "")
            backup_if_exists(filename)
            self"""),
)
trial(
    "plots-pcolormesh",
    (A + "fes_action.py", """        img = ax.imshow(
            fes.T,  # first index of array is vertical axis
            origin="lower",
            extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),
            vmin=vmin,
            vmax=vmax,
        )
""", """        img = ax.pcolormesh(
            axes[0], axes[1], np.ma.masked_invalid(fes.T), vmin=vmin, vmax=vmax, shading="nearest"
        )
"""),
)
trial(
    "tables",
    (A + "delta_f_action.py", """    probabilities = np.exp(-fes / float(kt)).reshape((-1))
    state_probs = [np.sum(probabilities[m]) for m in masks]
    delta_f = [
        -kt * np.log(state_probs[i] / state_probs[0])
        for i in range(1, len(state_probs))
    ]
    return delta_f
""", """    prob = np.exp(fes.ravel() / -kt)
    first, *others = [prob[m].sum() for m in masks]
    return [kt * np.log(first / other) for other in others]
"""),
    (A + "delta_f_action.py", """            row = (step % self.write_stride) // self.stride - 1
            self.delta_f[row, 0] = step * self.dt
            self.delta_f[row, 1:] = calculate_delta_f(
                self.fes_action.fes.data, self.kt, self.masks
            )
""", """            row = ((step - 1) % self.write_stride) // self.stride
            self.delta_f[row] = [step * self.dt] + self.current()
"""),
    (A + "delta_f_action.py", """            self.delta_f[0] = step * self.dt
            self.delta_f[1:] = calculate_delta_f(
                self.fes_action.fes.data, self.kt, self.masks
            )
        self.write(step)
""", """            self.delta_f[:] = [step * self.dt] + self.current()
        self.write(step)

    def current(self):
        return calculate_delta_f(self.fes_action.fes.data, self.kt, self.masks)
"""),
    (A + "particle_distribution.py", """        counts = [sum(state_bools) for state_bools in bool_lists]
        return counts
""", """        return [np.count_nonzero(b) for b in bool_lists]
"""),
    (A + "particle_distribution.py", """            self.counts[row, 0] = step
            self.counts[row, 1:] = self.count_particles()
""", """            self.counts[row] = np.r_[step, self.count_particles()]
"""),
    (A + "particle_distribution.py", """            with open(self.filename, "ab") as f:
                np.savetxt(
                    f,
                    save_data,
                    delimiter=" ",
                    newline="\\n",
                    fmt=self.write_fmt,
                )
""", """            lines = [" ".join(self.write_fmt % v for v in row) for row in save_data]
            if lines:
                with open(self.filename, "a") as f:
                    f.write("\\n".join(lines) + "\\n")
"""),
    ("bdld/tools.py", """    n_dim = pos.shape[-1]
    inside_list: List[np.ndarray] = []
    for state in ranges:
        inside = True
        for i in range(n_dim):  # 'bitwise and' over all dimensions
            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])
        inside_list.append(inside)
    return inside_list
""", """    def inside(state):
        low, high = np.array(state[: pos.shape[-1]], dtype=float).T
        return np.logical_and(low <= pos, pos <= high).all(axis=1)

    return [inside(state) for state in ranges]
"""),
    (A + "histogram_action.py", """        data = self.get_traj_data(step)
        # flatten the first 2 dimensions (combine all times)
        self.histo.add(data.reshape(-1, data.shape[-1]))
        if self.filename:
""", """        self.update(step)
        if self.filename:
"""),
    (A + "histogram_action.py", """            data = self.get_traj_data(step)
            # flatten the first 2 dimensions (combine all times)
            self.histo.add(data.reshape(-1, data.shape[-1]))
        if self.write_stride""", """            self.update(step)
        if self.write_stride"""),
    (A + "histogram_action.py", """    def get_traj_data(self""", """    def update(self, step: int):
        data = self.get_traj_data(step)
        for snapshot in data:
            self.histo.add(snapshot)

    def get_traj_data(self"""),
)
trial(
    "valid-data-by-steps",
    (A + "action.py", """    # manual check because already_written is 0 due to modulo
    if step // update_stride == last_write // update_stride:
        return data[:0]  # empty view

    write_stride = data.shape[0] * update_stride  # wrapping time of data
    already_written = (last_write % write_stride) // update_stride
    last_element = (step % write_stride) // update_stride
    # shortcut for basic case
    if stride == update_stride and already_written == 0 and last_element == 0:
        return data
    # omit already written points
    first_element = already_written
    # stride: also omit first n-1 elements of data
    first_element += (stride // update_stride) - 1
    # but shift back by the number that was cut off at the last write
    first_element -= (last_write % stride) // update_stride
    if last_element == 0:
        return data[first_element :: stride // update_stride]
    return data[first_element : last_element : stride // update_stride]
""", """    first = (last_write // stride + 1) * stride
    rows = [(s // update_stride - 1) % data.shape[0] for s in range(first, step + 1, stride)]
    return data[rows]
"""),
)
trial(
    "parser",
    ("bdld/inputparser.py", """        val = self.default
        if self.key not in section.keys():
            if self.compulsory:
                e = "Option not found, but it is required"
                raise OptionError(e, self.key, section.name)
            return val
        if self.keytype == str:
            val = section.get(self.key)
        try:
            if self.keytype == float:
                val = section.getfloat(self.key)
            if self.keytype == int:
                val = section.getint(self.key)
            if self.keytype == bool:
                val = section.getboolean(self.key)
        except ValueError as e:
            raise OptionError(
                f"could not be converted to {self.keytype.__name__}",
                self.key,
                section.name,
            ) from e
        # parsing of lists is a bit more complicated
        if isinstance(self.keytype, list):
            val = section.get(self.key)
            try:
                val = [self.keytype[0](x) for x in val.split(",")]
            except ValueError as e:
                raise OptionError(
                    f"could not be converted to list of {self.keytype[0].__name__}",
                    self.key,
                    section.name,
                ) from e
        if self.condition:
            if not self.condition.function(val):
                raise OptionError(self.condition.desc, self.key, section.name)
        return val
""", """        if self.key not in section:
            if not self.compulsory:
                return self.default
            raise OptionError("is missing in the input", self.key, section.name)
        raw = section[self.key]
        try:
            if isinstance(self.keytype, list):
                conv, val = self.keytype[0], []
                for part in raw.split(","):
                    val.append(conv(part.strip()))
            elif self.keytype is bool:
                val = section.getboolean(self.key)
            else:
                val = self.keytype(raw)
        except ValueError as err:
            raise OptionError(f"cannot understand the value '{raw}'", self.key, section.name) from err
        if self.condition is not None and not self.condition.function(val):
            raise OptionError(self.condition.desc, self.key, section.name)
        return val
"""),
    ("bdld/inputparser.py", """        if infile.has_section("birth-death"):
            self.parse_birth_death(infile["birth-death"])
        if infile.has_section("trajectories"):
            self.parse_trajectories(infile["trajectories"])
        if infile.has_section("histogram"):
            self.parse_histogram(infile["histogram"])
        if infile.has_section("fes"):
            self.parse_fes(infile["fes"])
        if infile.has_section("delta-f"):
            self.parse_delta_f(infile["delta-f"])
        if infile.has_section("particle-distribution"):
            self.parse_particle_distribution(infile["particle-distribution"])
""", """        for name in ("birth-death", "trajectories", "histogram", "fes", "delta-f", "particle-distribution"):
            if name in infile:
                getattr(self, "parse_" + name.replace("-", "_"))(infile[name])
"""),
    ("bdld/inputparser.py", """    counter = 1
    res: List[OptionType] = []
    while True:
        try:
            value = section[f"{prefix}{counter}{suffix}"]
        except KeyError:  # not found
            return res
        res.append(value)
        counter += 1
""", """    res: List[OptionType] = []
    while f"{prefix}{len(res) + 1}{suffix}" in section:
        res.append(section[f"{prefix}{len(res) + 1}{suffix}"])
    return res
"""),
    ("bdld/main.py", """    except FileNotFoundError:
        log.error("Input file '%s' could not be found", infile)
        sys.exit(1)
    except (inputparser.OptionError, inputparser.SectionError) as e:
        log.error("Input file '%s': %s", infile, e.args[0])
        sys.exit(1)
""", """    except FileNotFoundError:
        sys.stderr.write(f"Input file '{infile}' could not be found\\n")
        sys.exit(1)
    except (inputparser.OptionError, inputparser.SectionError) as e:
        sys.stderr.write(f"{infile}: {e}\\n")
        raise SystemExit(1)
"""),
)

trial(
    "generators-and-placement",
    (A + "birth_death.py", "np.random.default_rng(seed)", "np.random.Generator(np.random.PCG64(seed))"),
    (A + "bussi_parinello_ld.py", "np.random.default_rng(seed)", "np.random.Generator(np.random.PCG64(seed))"),
    (A + "overdamped_ld.py", "np.random.default_rng(seed)", "np.random.Generator(np.random.PCG64(seed))"),
    ("bdld/main.py", """        rng = np.random.default_rng(options["seed"])
        for _ in range(options["number"]):
            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]
            ld.add_particle(pos, mass)
""", """        rng = np.random.Generator(np.random.PCG64(options["seed"]))
        lower, upper = np.array(ld.pot.ranges).T
        positions = rng.uniform(lower, upper, size=(options["number"], ld.pot.n_dim))
        for pos in positions:
            ld.add_particle(pos, mass)
"""),
    ("bdld/main.py", """        for _ in range(options["number"]):
            ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)
""", """        for choice in rng.integers(len(init_pos_choices), size=options["number"]):
            ld.add_particle(init_pos_choices[choice], mass)
"""),
    ("bdld/main.py", """        for i, pos in enumerate(init_pos_choices):
            for _ in range(counts[i]):
                ld.add_particle(pos, mass)
""", """        start_positions = []
        for pos, count in zip(init_pos_choices, counts):
            start_positions.extend([pos] * int(count))
        while len(ld.particles) < len(start_positions):
            ld.add_particle(start_positions[len(ld.particles)], mass=mass)
"""),
)
trial(
    "bd-overwritten-flags",
    (A + "birth_death.py", """            # lists with particles to be killed and duplicated (in order)
            dup_list: List[int] = []
            kill_list: List[int] = []
""", """            event_list = []
            overwritten = np.zeros(num_part, dtype=bool)
"""),
    (A + "birth_death.py", """                if i not in kill_list:  # the move was accepted from the old beta!
                    rand_other = self.random_other(num_part, i)
                    if beta[i] > 0:
                        kill_list.append(i)
                        dup_list.append(rand_other)
                        self.stats.kill_count += 1
                    else:  # beta[i] < 0
                        kill_list.append(rand_other)
                        dup_list.append(i)
                        self.stats.dup_count += 1

            # perform all events in bulk
            event_list = list(zip(dup_list, kill_list))
            self.perform_moves(event_list)
""", """                if overwritten[i]:
                    continue
                partner = self.random_other(num_part, i)
                if beta[i] > 0:
                    source, target = partner, i
                    self.stats.kill_count += 1
                else:
                    source, target = i, partner
                    self.stats.dup_count += 1
                overwritten[target] = True
                event_list.append((source, target))
                self.perform_moves(event_list[-1:])
"""),
    (A + "birth_death.py", """            curr_kill_attempts = np.count_nonzero(beta > 0)
            self.stats.kill_attempts += curr_kill_attempts
            self.stats.dup_attempts += np.count_nonzero(beta < 0)
""", """            for rate in beta:
                if rate > 0:
                    self.stats.kill_attempts += 1
                elif rate < 0:
                    self.stats.dup_attempts += 1
"""),
    (A + "birth_death.py", """            ene = np.array([p.energy for p in self.particles])
            beta += ene * self.inv_kt
            beta -= np.mean(beta[beta != -np.inf])
""", """            beta = beta + np.fromiter((p.energy / self.kt for p in self.particles), float)
            finite = beta[~np.isneginf(beta)]
            beta = beta - finite.sum() / len(finite)
"""),
)
trial(
    "boundaries-and-tools",
    ("bdld/potential/potential.py", """        for i, x in enumerate(pos):
            if x < self.ranges[i][0]:
                pos[i] = self.ranges[i][0]
                mom[i] = -mom[i]
            elif x > self.ranges[i][1]:
                pos[i] = self.ranges[i][1]
                mom[i] = -mom[i]
""", """        lower, upper = np.array(self.ranges, dtype=float).T
        outside = (pos < lower) | (pos > upper)
        np.clip(pos, lower, upper, out=pos)
        mom[outside] *= -1
"""),
    ("bdld/tools.py", """    n_dim = pos.shape[-1]
    inside_list: List[np.ndarray] = []
    for state in ranges:
        inside = True
        for i in range(n_dim):  # 'bitwise and' over all dimensions
            inside = inside & (pos[:, i] >= state[i][0]) & (pos[:, i] <= state[i][1])
        inside_list.append(inside)
    return inside_list
""", """    n_dim = pos.shape[-1]
    result = []
    for state in ranges:
        lower = np.array([r[0] for r in state[:n_dim]])
        upper = np.array([r[1] for r in state[:n_dim]])
        result.append(np.logical_and(lower <= pos, pos <= upper).all(axis=1))
    return result
"""),
    (A + "particle_distribution.py", """        counts = [sum(state_bools) for state_bools in bool_lists]
        return counts
""", """        return [int(np.count_nonzero(inside)) for inside in bool_lists]
"""),
    (A + "delta_f_action.py", """    probabilities = np.exp(-fes / float(kt)).reshape((-1))
    state_probs = [np.sum(probabilities[m]) for m in masks]
    delta_f = [
        -kt * np.log(state_probs[i] / state_probs[0])
        for i in range(1, len(state_probs))
    ]
    return delta_f
""", """    weights = np.exp(-fes.ravel() / kt)
    first, *others = [weights[mask].sum() for mask in masks]
    return [kt * (np.log(first) - np.log(other)) for other in others]
"""),
    (A + "histogram_action.py", """        if step in self.reset:
            logging.info("Reset of histogram at step %s", step)
            self.histo.clear()
            self.last_update = step  # also drop data that was not added yet
""", """        self._reset_if_due(step)

    def _reset_if_due(self, step):
        if step not in set(self.reset):
            return
        logging.info("Reset of histogram at step %s", step)
        self.histo.data = np.zeros(self.histo.n_points)
        self.last_update = step
"""),
    ("bdld/histogram.py", """        tmp_histo, _ = np.histogramdd(data, bins=self.bins)
        self.data += tmp_histo
""", """        counts = np.histogramdd(data, bins=self.bins)[0]
        self.data = self.data + counts
"""),
)

if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = [f"C{i:02d}" for i in range(1, 20)]
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1].split(",")
        args = [a for a in args if a not in sys.argv[sys.argv.index("--only") + 1]]
    for name, edits in T.items():
        if args and name not in args:
            continue
        w = f"/tmp/reftree"
        shutil.rmtree(w, ignore_errors=True)
        shutil.copytree("/repo", w, symlinks=True)
        for f, a, b in edits:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(a) == 1, (name, f, t.count(a), a)
            open(p, "w").write(t.replace(a, b))
        for id in only:
            r = subprocess.run([os.path.join(ROOT, "check.py"), id, "quick"], capture_output=True, text=True, cwd=ROOT, env=dict(os.environ, BDLD_REPO=w))
            if r.returncode:
                lines = [x for x in r.stdout.split("\n") if x.startswith(id + ":")]
                print(f"{name}: {id} exit {r.returncode} {(lines or [r.stdout[-300:] + r.stderr[-1500:]])[-1][:600]}", flush=True)
        print(name, "done", flush=True)
        shutil.rmtree(w, ignore_errors=True)
