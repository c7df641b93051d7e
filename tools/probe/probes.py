"""(property, name, [(file below bdld/, old text, new text)])"""
BD = "actions/birth_death.py"
BP = "actions/bussi_parinello_ld.py"
OD = "actions/overdamped_ld.py"
PD = "actions/particle_distribution.py"
DF = "actions/delta_f_action.py"
FES = "actions/fes_action.py"
HA = "actions/histogram_action.py"
TR = "actions/trajectory_action.py"
POT = "potential/potential.py"
POLY = "potential/polynomial.py"
MB = "potential/mueller_brown.py"
IN = "inputparser.py"
M = "main.py"
G = "grid.py"

PROBES = [
    # ------------------------------------------------------------ C01
    ("C01", "shuffle-only-many", [(BD, "self.rng.shuffle(event_particles)", "if len(event_particles) > 2:\n                self.rng.shuffle(event_particles)")]),
    ("C01", "rate-clipped", [(BD, "np.abs(beta) * self.dt", "np.minimum(np.abs(beta), 20.0) * self.dt"), (BD, "np.abs(beta[i]) * self.dt", "min(np.abs(beta[i]), 20.0) * self.dt")]),
    ("C01", "last-killed-only", [(BD, "if i not in kill_list:", "if i not in kill_list[-1:]:")]),
    ("C01", "sources-inert", [(BD, "if i not in kill_list:", "if i not in kill_list and i not in dup_list:")]),
    ("C01", "recalc-factor-missing", [(BD, "np.abs(beta[i]) * self.dt * self.rate_fac", "np.abs(beta[i]) * self.dt")]),
    ("C01", "moves-from-snapshot", [(BD, "for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])", "old = list(self.particles)\n        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(old[dup])")]),
    ("C01", "moves-dict", [(BD, "for dup, kill in event_list:\n", "for kill, dup in {k: d for d, k in event_list}.items():\n")]),
    ("C01", "recalc-skips-overwritten", [(BD, "for i in particle_indices:\n", "for i in particle_indices:\n                if any(i == k for _, k in event_list):\n                    continue\n")]),
    ("C01", "dt-rounded", [(BD, "md_dt * stride", "round(md_dt * stride, 3)")]),
    ("C01", "sorted-events-reported", [(BD, "        return event_list\n\n    def calc_betas", "        return sorted(event_list)\n\n    def calc_betas")]),
    ("C01", "recalc-only-on-death", [(BD, "                    beta = self.calc_betas()\n", "                    if curr_event[1] == i:\n                        beta = self.calc_betas()\n")]),
    ("C01", "neighbour-partner", [(BD, "        if num >= excl:\n            num += 1", "        if num == excl:\n            num = num_part - 1")]),  # equivalent
    ("C01", "recalc-rand-shared", [(BD, "                if rand[i] <= prob:\n", "                if rand[particle_indices[0]] <= prob:\n")]),
    ("C01", "max-one-death-per-source", [(BD, "                    if beta[i] > 0:\n                        kill_list.append(i)\n                        dup_list.append(rand_other)", "                    if beta[i] > 0:\n                        if rand_other in dup_list:\n                            continue\n                        kill_list.append(i)\n                        dup_list.append(rand_other)")]),
    # ------------------------------------------------------------ C02
    ("C02", "cutoff-5-sigma", [(BD, "gauss = height * np.exp(-dist / (2 * bw[0] ** 2))", "gauss = height * np.exp(-dist / (2 * bw[0] ** 2))\n        gauss[dist > 25 * bw[0] ** 2] = 0")]),
    ("C02", "cutoff-5-sigma-nd", [(BD, "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))", "gauss_per_dim[i] = np.where(dist > 25 * bw[i] ** 2, 0.0, heights[i] * np.exp(-dist / (2 * bw[i] ** 2)))")]),
    ("C02", "float32-many", [(BD, "    if len(pos) <= 10000:", "    if len(pos) > 1000:\n        pos = pos.astype(np.float32)\n    if len(pos) <= 10000:")]),
    ("C02", "interp-nearest", [(BD, 'beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(\n', 'beta += self.approx_grid.interpolate(pos, "nearest", 0.0).reshape(\n')]),
    ("C02", "mult-interp-nearest", [(BD, 'beta += self.approx_grid.interpolate(pos, "linear", 0.0).reshape(len(pos))', 'beta += self.approx_grid.interpolate(pos, "nearest", 0.0).reshape(len(pos))')]),
    ("C02", "table-51", [(BD, "[101] * correction.n_dim", "[51] * correction.n_dim")]),
    ("C02", "kernel-3-sigma", [(BD, "5 * bw", "3 * bw")]),
    ("C02", "few-points", [(M, "tmp_grid_points = max(501, min_points_gaussian)", "tmp_grid_points = 501")]),
    ("C02", "density-floor", [(M, "np.finfo(float).tiny", "1e-12")]),
    ("C02", "bd-kt-one", [(M, "eq_density = bd_prob_density(ld.pot, bd_bw, ld.kt)", "eq_density = bd_prob_density(ld.pot, bd_bw, 1.0)")]),
    ("C02", "kernel-bw-reversed", [(BD, "kernel.data = calc_kernel(kernel.points(), bw)", "kernel.data = calc_kernel(kernel.points(), bw[::-1])")]),
    ("C02", "mean-inside-only", [(BD, "            beta -= np.mean(beta[beta != -np.inf])\n        return beta", "            m = np.mean(beta[beta < 30])\n            beta -= m\n        return beta")]),
    ("C02", "energies-cached-int", [(BD, "ene = np.array([p.energy for p in self.particles])", "ene = np.array([p.energy for p in self.particles], dtype=np.float32)")]),
    ("C02", "kernel-normalisation-3d", [(BD, "gauss = squareform(np.prod(gauss_per_dim, axis=0))", "gauss = squareform(np.prod(gauss_per_dim[:2], axis=0))")]),
    ("C02", "manual-excludes-self", [(BD, "for j in range(n_part)])", "for j in range(n_part) if j != i])")]),
    # ------------------------------------------------------------ C03
    ("C03", "copy-resets-momentum-recalc", [(BD, "                    self.perform_moves([curr_event])", "                    self.perform_moves([curr_event])\n                    self.particles[curr_event[1]].mom = 0 * self.particles[curr_event[1]].mom")]),
    ("C03", "shallow-copy", [(BD, "copy.deepcopy(self.particles[dup])", "copy.copy(self.particles[dup])")]),
    ("C03", "copy-shares-momentum", [(BD, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "new = copy.deepcopy(self.particles[dup])\n            new.mom = self.particles[dup].mom\n            self.particles[kill] = new")]),
    ("C03", "asarray", [("particle.py", "self.pos = np.array(pos, dtype=float)", "self.pos = np.asarray(pos, dtype=float)")]),
    ("C03", "in-place-copy", [(BD, "self.particles[kill] = copy.deepcopy(self.particles[dup])", "self.particles[kill].pos[:] = self.particles[dup].pos\n            self.particles[kill].mom[:] = self.particles[dup].mom\n            self.particles[kill].energy = self.particles[dup].energy\n            self.particles[kill].forces = self.particles[dup].forces")]),
    ("C03", "insert-off", [(BP, "self.particles.insert(partnum, p)", "self.particles.insert(max(partnum, 1), p)")]),
    ("C03", "bd-list-copied", [(BD, "List[BpldParticle] = particles\n", "List[BpldParticle] = list(particles)\n")]),
    ("C03", "pd-list-copied", [(PD, "self.particles = particles\n", "self.particles = list(particles)\n")]),
    # ------------------------------------------------------------ C04
    ("C04", "c2-first-mass", [(BP, "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)", "p.c2 = self.particles[0].c2 if self.particles else np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)")]),
    ("C04", "c1-linear-small", [(BP, "np.exp(-0.5 * friction * dt)", "np.exp(-0.5 * friction * dt) if friction * dt > 0.01 else 1 - 0.5 * friction * dt")]),
    ("C04", "noise-shared-halves-3d", [(BP, "            # second part of thermostat\n            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)", "            # second part of thermostat\n            xi = self.rng.standard_normal(self.pot.n_dim)\n            if self.pot.n_dim == 3:\n                xi[2] = xi[0]\n            p.mom = self.c1 * p.mom + p.c2 * xi")]),
    ("C04", "od-noise-dt", [(OD, "np.sqrt(2 * self.dt)", "np.sqrt(2 * min(self.dt, 1.0))")]),
    ("C04", "energy-kept-if-near", [(OD, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n\n", "            if np.any(np.abs(p.forces) > 1e-3):\n                p.energy, p.forces = self.pot.evaluate(p.pos)\n\n")]),
    ("C04", "od-mass", [(OD, "self.dt * p.forces", "self.dt * p.forces / p.mass")]),
    # ------------------------------------------------------------ C05
    ("C05", "reflect-outward-only", [(POT, "                pos[i] = self.ranges[i][0]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][0]\n                mom[i] = abs(mom[i])")]),
    ("C05", "periodic-max-to-min", [(POT, "x > self.ranges[i][1]:\n                start", "x >= self.ranges[i][1]:\n                start")]),
    ("C05", "mirror", [(POT, "                pos[i] = self.ranges[i][1]\n", "                pos[i] = 2 * self.ranges[i][1] - x\n")]),
    ("C05", "mb-no-bc", [(M, 'bc = options["boundary-condition"]', 'bc = options["boundary-condition"] if options["type"] == "polynomial" else None')]),
    ("C05", "third-dimension", [(POT, "        for i, x in enumerate(pos):\n            if x < self.ranges[i][0] or", "        for i, x in enumerate(pos[:2]):\n            if x < self.ranges[i][0] or")]),
    ("C05", "od-bc-skipped-slow", [(OD, "            self.pot.apply_boundary_condition(p.pos, p.mom)", "            if np.all(np.abs(p.pos) < 1e3):\n                self.pot.apply_boundary_condition(p.pos, p.mom)")]),
    # ------------------------------------------------------------ C06
    ("C06", "cached-by-object", [(POLY, "        return self.polyval(*pos, self.coeffs)", "        if getattr(self, '_last', None) is pos:\n            return self._e\n        self._last = pos\n        self._e = self.polyval(*pos, self.coeffs)\n        return self._e")]),
    ("C06", "cached-by-rounded", [(POLY, "        return self.polyval(*pos, self.coeffs)", "        k = tuple(np.round(pos, 6))\n        self._c = getattr(self, '_c', {})\n        if k not in self._c:\n            self._c[k] = self.polyval(*pos, self.coeffs)\n        return self._c[k]")]),
    ("C06", "class-cache", [(POLY, "        return self.polyval(*pos, self.coeffs)", "        k = tuple(pos)\n        c = PolynomialPotential.__dict__.get('_c') or {}\n        PolynomialPotential._c = c\n        if k not in c:\n            c[k] = self.polyval(*pos, self.coeffs)\n        return c[k]")]),
    ("C06", "trim-both", [(POLY, "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.trim_zeros(np.array(coeffs)) if np.ndim(coeffs) == 1 and np.any(coeffs) else np.array(coeffs)")]),
    ("C06", "rows-added", [(POLY, "coeffs[tuple(indices)] = row[n_dim]", "coeffs[tuple(indices)] += row[n_dim]")]),  # equivalent unless repeated
    ("C06", "shape-from-last-row", [(POLY, "int(max(file_data[:, i])) + 1 for i in range(n_dim)", "int(max(file_data[:, :n_dim].max(axis=0))) + 1 for i in range(n_dim)")]),  # equivalent
    ("C06", "mb-clipped", [(MB, "        pot += pot_shift\n        return pot\n", "        pot += pot_shift\n        return min(pot, 1e4)\n")]),
    ("C06", "mb-scale-inverse-below-one", [(MB, "A * self.scaling_factor", "A * abs(self.scaling_factor)")]),
    ("C04", "mb-force-shared", [(MB, "        force = np.array([0.0, 0.0])\n        x = pos[0]\n        y = pos[1]\n        for i in range(4):\n            exp_tmp1", "        force = self.__dict__.setdefault('_f', np.zeros(2))\n        force[:] = 0\n        x = pos[0]\n        y = pos[1]\n        for i in range(4):\n            exp_tmp1")]),
    # ------------------------------------------------------------ C07
    ("C07", "times-one-is-self", [(G, "        new_grid = self.copy_empty()\n        if isinstance(other", "        if isinstance(other, (int, float)) and oper is operator.mul and other == 1:\n            return self\n        new_grid = self.copy_empty()\n        if isinstance(other")]),
    ("C07", "ranges-close", [(G, "            if not (self.n_points == other.n_points) or not (\n                self.ranges == other.ranges\n            ):", "            if not (self.n_points == other.n_points) or not np.allclose(\n                self.ranges, other.ranges, atol=1e-3\n            ):")]),
    ("C07", "conv-first-step", [(G, "* np.prod(\n        g1.stepsizes\n    )", "* g1.stepsizes[0] ** n_dim")]),
    ("C07", "conv-valid-offset", [(G, "(gs.n_points[dim] - 1) / 2 * stepsizes", "(gs.n_points[dim] // 2) * stepsizes")]),
    ("C07", "fill-ignored-nearest", [(G, "self.points(), self.data.flatten(), points, method, fill_value", "self.points(), self.data.flatten(), points, method, np.nan")]),
    ("C07", "sparsify-common", [(G, "n if n <= max_points[i] else max_points[i] for", "n if max(g.n_points) <= max_points[i] else max_points[i] for")]),
    ("C07", "neg-view", [(G, "new_grid.data = oper(self.data)\n", "new_grid.data = oper(self.data) if oper is not operator.pos else self.data\n")]),
    ("C07", "write-fmt-T", [(G, "self.data.reshape((np.prod(self.n_points), 1))", "self.data.T.reshape((np.prod(self.n_points), 1))")]),
    ("C07", "mod-int", [(G, "self._perform_arithmetic_operation(other, operator.mod)", "self._perform_arithmetic_operation(other, np.fmod)")]),
    # ------------------------------------------------------------ C08
    ("C08", "floor-exponent", [(POT, "prob = np.exp(-(fes - np.min(fes.data)) / kt)", "prob = np.exp(-(fes - np.min(fes.data)) / kt)\n        prob.data = np.maximum(prob.data, np.exp(-200.0))")]),
    ("C08", "shift-first", [(POT, "fes - np.min(fes.data)", "fes - fes.data.flat[0]")]),
    ("C08", "trapz-norm", [(POT, "np.prod(prob.stepsizes)", "np.prod([(r[1] - r[0]) / n for r, n in zip(ranges, grid_points)])")]),
    ("C08", "ref-min-range", [(POT, "            fes -= np.min(fes)", "            fes -= min(0.0, np.min(fes))")]),
    ("C08", "float32", [(POT, "np.float64, len(pos)", "np.float32, len(pos)")]),
    # ------------------------------------------------------------ C09
    ("C09", "before-bd", [(M, '        if config.birth_death:\n            actions_dict["birth-death"] = setup_birth_death(config.birth_death, ld)\n        if config.trajectories:\n            actions_dict["trajectories"] = setup_trajectories(config.trajectories, ld)\n', '        if config.trajectories:\n            actions_dict["trajectories"] = setup_trajectories(config.trajectories, ld)\n        if config.birth_death:\n            actions_dict["birth-death"] = setup_birth_death(config.birth_death, ld)\n')]),
    ("C09", "momentum-previous-block", [(TR, "self.momentum[row] = [p.mom for p in self.ld.particles]", "self.momentum[row - 1] = [p.mom for p in self.ld.particles]")]),
    ("C09", "ten-walkers-modulo", [(TR, 'f"{filename}.{i}" for i in range(n_particles)', 'f"{filename}.{i % 100}" for i in range(n_particles)')]),
    ("C09", "last-write-only-full", [(TR, "                self.last_write = step", "                self.last_write = step - step % self.stride")]),
    ("C09", "sorted-names", [(TR, "for i in range(n_particles)]\n", "for i in range(n_particles)]\n            self.filenames.sort()\n")]),
    ("C09", "time-single", [(TR, "self.times = np.empty((self.write_stride, 1))", "self.times = np.empty((self.write_stride, 1), dtype=np.float32)")]),
    ("C09", "flush-skip-empty-block", [(TR, "        if step % self.write_stride == 0:\n            self.write(step)", "        if step % self.write_stride == 0 and self.write_stride >= self.stride or step % self.stride == 0 and step % self.write_stride == 0:\n            self.write(step)")]),
    # ------------------------------------------------------------ C10
    ("C10", "uint8", [("histogram.py", "        self.clear()  # don't", "        self.data = self.data.astype(np.uint8)\n        self.clear()  # don't"), ("histogram.py", "self.data += tmp_histo", "self.data += tmp_histo.astype(np.uint8)")]),
    ("C10", "uint16", [("histogram.py", "        self.clear()  # don't", "        self.data = self.data.astype(np.uint16)\n        self.clear()  # don't"), ("histogram.py", "self.data += tmp_histo", "self.data += tmp_histo.astype(np.uint16)")]),
    ("C10", "reset-sorted-only", [(HA, "if step in self.reset:", "if self.reset and step == self.reset[0]:\n            self.reset = self.reset[1:]")]),
    ("C10", "unique-positions", [("histogram.py", "        tmp_histo, _ =", "        data = np.unique(data, axis=0)\n        tmp_histo, _ =")]),
    ("C10", "reset-last-only", [(HA, "self.reset = reset or []", "self.reset = [max(reset)] if reset else []")]),
    ("C10", "skip-empty-write", [(HA, "        if self.write_stride and step % self.write_stride == 0:", "        if self.write_stride and step % self.write_stride == 0 and self.histo.data.any():")]),
    ("C10", "clip", [("histogram.py", "        tmp_histo, _ =", "        data = np.clip(data, [b[0] for b in self.bins], [b[-1] for b in self.bins])\n        tmp_histo, _ =")]),
    ("C10", "reset-at-end-ignored", [(HA, "if step in self.reset:", "if step in self.reset and step % self.update_stride != 0:")]),
    # ------------------------------------------------------------ C11
    ("C11", "ld-kt", [(FES, "self.kt = kt or self.histo_action.traj_action.ld.kt", "self.kt = self.histo_action.traj_action.ld.kt")]),
    ("C11", "write-current", [(FES, "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % self.write_stride == 0:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n            self.write(step)")]),
    ("C11", "inf-as-max", [(FES, "histo.data == 0, np.inf,", "histo.data == 0, np.inf if histo.data.size < 30 else 1e6,")]),
    ("C11", "after-reset-kept", [(FES, "            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride", "            if self.histo_action.histo.data.any():\n                self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride")]),
    ("C11", "final-stale", [(FES, '        """Same as run() but without stride checks and passing the step number"""\n        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n', '        """Same as run() but without stride checks and passing the step number"""\n        if not self.stride or step % self.stride:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n')]),  # final_run of histogram adds only new data: equivalent?
    # ------------------------------------------------------------ C12
    ("C12", "bin-edges", [(M, "fes_points = fes_action.histo_action.histo.points()", "fes_points = fes_action.histo_action.histo.points() + 1e-9")]),
    ("C12", "kt-ld", [(DF, "self.kt = self.fes_action.kt", "self.kt = self.fes_action.histo_action.traj_action.ld.kt")]),
    ("C12", "many-states", [(DF, "for i in range(1, len(state_probs))\n", "for i in range(1, len(state_probs))\n        # \n")]),
    ("C12", "disjoint-states", [(DF, "state_probs = [np.sum(probabilities[m]) for m in masks]", "state_probs = [np.sum(probabilities[m]) for m in masks]\n    if state_probs[0] == 0:\n        state_probs[0] = 1.0")]),
    ("C12", "run-end-row-twice", [(DF, "                self.last_write = step\n", "                self.last_write = step if step % self.write_stride == 0 else self.last_write\n")]),
    ("C12", "time-step", [(DF, "            self.delta_f[0] = step * self.dt", "            self.delta_f[0] = step")]),
    # ------------------------------------------------------------ C13
    ("C13", "unique", [(PD, "pos = np.array([p.pos for p in self.particles])", "pos = np.unique([p.pos for p in self.particles], axis=0)")]),
    ("C13", "first-match", [(PD, "counts = [sum(state_bools) for state_bools in bool_lists]", "seen = np.zeros(len(pos), dtype=bool)\n        counts = []\n        for b in bool_lists:\n            counts.append(sum(b & ~seen))\n            seen |= b")]),
    ("C13", "before-bd", [(M, '        if config.birth_death:\n', '        if config.particle_distribution:\n            actions_dict["particle-distribution"] = None\n        if config.birth_death:\n')]),
    ("C13", "int8", [(PD, "            self.counts = np.empty(\n                (self.write_stride // self.stride, len(self.states) + 1)\n            )", "            self.counts = np.empty(\n                (self.write_stride // self.stride, len(self.states) + 1), dtype=np.float16\n            )")]),
    ("C13", "half-open", [("tools.py", "<= state[i][1]", "< state[i][1]")]),
    ("C13", "tolerance", [("tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] <= state[i][1] + 1e-6)")]),
    # ------------------------------------------------------------ C14
    ("C14", "stats-first", [(BD, "        if step % self.stride == 0:\n            self.do_birth_death()\n        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n        if step % self.stride == 0:\n            self.do_birth_death()\n")]),
    ("C14", "end-record-too", [(BD, "        if not self.stats_stride:\n            self.stats.print(step)", "        if not self.stats_stride or step < self.stats_stride:\n            self.stats.print(step)")]),
    ("C14", "swapped-columns-file", [(BD, "                        self.dup_attempts,\n                        self.kill_count,\n", "                        self.kill_count,\n                        self.dup_attempts,\n")]),
    ("C14", "only-on-bd-steps", [(BD, "if self.stats_stride and step % self.stats_stride == 0:", "if self.stats_stride and step % self.stats_stride == 0 and step % self.stride == 0:")]),
    ("C14", "success-of-recalc", [(BD, "                        curr_event = (i, rand_other)\n                        self.stats.dup_count += 1", "                        curr_event = (i, rand_other)\n                        self.stats.dup_count += len(event_list) < 2")]),
    ("C14", "reset-each", [(BD, "            self.stats.print(step)\n\n    def final_run", "            self.stats.print(step, step == 2 * self.stats_stride)\n\n    def final_run")]),
    # ------------------------------------------------------------ C15
    ("C15", "global-shuffle", [(BD, "            self.rng.shuffle(particle_indices)", "            np.random.shuffle(particle_indices)")]),
    ("C15", "hash-seed", [(M, 'options["seed"] + 1000 if options["seed"] is not None else None', '(options["seed"] + 1000 if options["seed"] < 2**31 else None) if options["seed"] is not None else None')]),
    ("C15", "plot-draws", [(FES, "        if self.plot_filename:\n            if step:", "        if self.plot_filename:\n            self.histo_action.traj_action.ld.rng.random()\n            if step:")]),
    ("C15", "stats-draws", [(BD, "        def print(self, step: int, reset: bool = False) -> None:\n", "        def print(self, step: int, reset: bool = False) -> None:\n            np.random.seed(step)\n")]),
    ("C15", "traj-view", [(TR, "self.positions[row] = [p.pos for p in self.ld.particles]", "self.positions[row] = [p.pos for p in self.ld.particles]\n        if self.filenames and self.write_fmt == '%.3f':\n            for i, p in enumerate(self.ld.particles):\n                p.pos = self.positions[row, i]")]),
    ("C15", "traj-alias", [(TR, "self.positions[row] = [p.pos for p in self.ld.particles]", "self.positions[row] = [p.pos for p in self.ld.particles]\n        if self.store_momentum:\n            for i, p in enumerate(self.ld.particles):\n                p.pos = self.positions[row, i]")]),
    ("C15", "particles-seed-none", [(M, '        rng = np.random.default_rng(options["seed"])\n        init_pos', '        rng = np.random.default_rng(options["seed"] or None)\n        init_pos')]),
    ("C15", "n-steps-dependent", [(M, "    actions_list = list(actions_dict.values())", "    actions_list = list(actions_dict.values())\n    if n_steps > 20:\n        actions_list[0].rng.random()")]),
    # ------------------------------------------------------------ C16
    ("C16", "default-mass", [(IN, 'InputOption("mass", float, False, Input.positive, 1.0)', 'InputOption("mass", float, False, Input.positive_or_zero, 1.0)')]),
    ("C16", "bandwidth-any", [(IN, "lambda lst: all(x > 0 for x in lst)", "lambda lst: any(x > 0 for x in lst)")]),
    ("C16", "exit-2", [(M, "    except inputparser.OptionError as e:\n        log.error(\"Input file '%s': %s\", infile, e.args[0])\n        sys.exit(1)", "    except inputparser.OptionError as e:\n        log.error(\"Input file '%s': %s\", infile, e.args[0])\n        sys.exit(2)")]),
    ("C16", "precedence", [(M, 'for key in ["correction-variant", "approximation-variant"]:', 'for key in ["approximation-variant", "correction-variant"]:')]),
    ("C16", "bc-lower", [(IN, "lambda x: x in boundary_conditions,", "lambda x: x.lower() in boundary_conditions,")]),
    ("C16", "dim-4", [(IN, "lambda x: 0 < x < 4", "lambda x: 0 < x < 5")]),
    ("C16", "friction-positive", [(IN, 'InputOption("friction", float, True, Input.positive_or_zero)', 'InputOption("friction", float, True, Input.positive)')]),
    ("C16", "default-section-lost", [(IN, "if self.key not in section.keys():", "if self.key not in section.keys() or (self.key == 'fmt' and self.key in section.parser.defaults()):")]),
    ("C16", "list-trailing", [(IN, 'for x in val.split(",")]', 'for x in val.split(",") if x.strip()]')]),
    ("C16", "int-from-float", [(IN, "val = section.getint(self.key)", "val = int(section.getfloat(self.key))")]),
    ("C16", "message-no-section", [(IN, "f\"Option '{key}' in section [{section}]: {message}\"", "f\"Option in section [{section}]: {message}\"")]),
    ("C16", "pd-needs-no-state", [(IN, "    if not options:\n        raise OptionError(", "    if False:\n        raise OptionError(")]),
    ("C16", "state-number-mismatch", [(IN, '    n_states = len(get_all_numbered_values(section, "state", "-min"))\n    if n_states != len', '    n_states = len(get_all_numbered_values(section, "state", "-min"))\n    if n_states < len')]),
    ("C16", "od-kt", [(M, '        return OverdampedLD(\n            pot,\n            options["timestep"],\n            options["seed"],', '        return OverdampedLD(\n            pot,\n            options["timestep"] or 0.001,\n            options["seed"],')]),
    # ------------------------------------------------------------ C17
    ("C17", "round-nearest", [(M, 'int(round(frac * options["number"], 8))', 'int(round(frac * options["number"]))')]),
    ("C17", "rest-to-last", [(M, "counts[0] +=", "counts[-1] +=")]),
    ("C17", "pos10-sorted", [(M, 'init_pos_choices = [pos for key, pos in options.items() if "pos" in key]', 'init_pos_choices = [options[k] for k in sorted(options) if k.startswith("pos")][:9]')]),
    ("C17", "range-int", [(M, "rng.uniform(start, end)", "rng.uniform(np.floor(start), end)")]),
    ("C17", "od-mass-lost", [(OD, "p = LDParticle(pos, None, mass)", "p = LDParticle(pos, None)")]),
    ("C17", "rest-if-positive", [(M, 'counts[0] += options["number"] - np.sum(counts)', 'counts[0] = max(counts[0] + options["number"] - np.sum(counts), 1)')]),
    ("C17", "random-pos-endpoints", [(M, "rng.choice(init_pos_choices, axis=0)", "init_pos_choices[min(int(rng.random() * len(init_pos_choices)), 20)]")]),
    # ------------------------------------------------------------ C18
    ("C18", "stats-appended", [(BD, "                initialize_file(self.stats_filename, fields, constants)", "                import os\n                if not os.path.exists(self.stats_filename):\n                    initialize_file(self.stats_filename, fields, constants)")]),
    ("C18", "only-first-walker", [(TR, "                initialize_file(fname, ifields)", "                if i < 10:\n                    initialize_file(fname, ifields)\n                else:\n                    open(fname, 'w').close()")]),
    ("C18", "header-momentum", [(TR, "                if self.store_momentum:\n                    ifields +=", "                if self.store_momentum and len(fields) == 1:\n                    ifields +=")]),
    ("C18", "hist-final-no-backup", [(HA, "            backup_if_exists(filename)", "            if step:\n                backup_if_exists(filename)")]),
    ("C18", "fes-no-backup-dir", [(FES, "            backup_if_exists(filename)", "            if os.sep not in filename:\n                backup_if_exists(filename)")]),
    ("C18", "df-header-states", [(DF, "for i in range(2, len(self.masks) + 1)]", "for i in range(2, min(len(self.masks), 9) + 1)]")]),
    # ------------------------------------------------------------ C19
    ("C19", "swapped-axes-square", [(FES, "fes.T,", "(fes.T if fes.shape[0] != fes.shape[1] else fes),")]),
    ("C19", "title-step-file", [(FES, 'plot_filename = f"{root}_{step}{ext}"', 'plot_filename = f"{root}_{step}{ext.lower()}"')]),
    ("C19", "no-ref-after-reset", [(FES, "if ref is not None:", "if ref is not None and not np.isinf(fes).any():")]),
    ("C19", "domain-only-1d", [(FES, "            vmax=vmax,", "            vmax=None,")]),
    ("C19", "skip-empty", [(FES, "        if self.plot_filename:\n            if step:", "        if self.plot_filename and not np.isinf(self.fes.data).all():\n            if step:")]),
    ("C19", "domain-zero", [(FES, "if plot_domain is not None:", "if plot_domain is not None and plot_domain[0]:")]),
    ("C19", "dotted-name", [(FES, "root, ext = os.path.splitext(self.plot_filename)", "root, _, ext = self.plot_filename.partition('.')\n                ext = '.' + ext if ext else ''")]),
    # ============================================================ second batch
    ("C01", "b-recalc-self-partner", [(BD, "                if rand[i] <= prob:\n                    rand_other = self.random_other(num_part, i)", "                if rand[i] <= prob:\n                    rand_other = int(self.rng.integers(num_part))")]),
    ("C01", "b-event-cap", [(BD, "                if i not in kill_list:  # the", "                if len(kill_list) >= num_part // 2 + 1:\n                    break\n                if i not in kill_list:  # the")]),
    ("C01", "b-source-not-killed", [(BD, "                    if beta[i] > 0:\n                        kill_list.append(i)", "                    while rand_other in kill_list and len(set(kill_list)) < num_part - 1:\n                        rand_other = self.random_other(num_part, i)\n                    if beta[i] > 0:\n                        kill_list.append(i)")]),
    ("C01", "b-factor-above-one", [(BD, "rate_fac or 1.0", "max(rate_fac or 1.0, 1.0)")]),
    ("C01", "b-first-kill-wins", [(BD, "        for dup, kill in event_list:\n", "        done = set()\n        for dup, kill in event_list:\n            if kill in done:\n                continue\n            done.add(kill)\n")]),
    ("C01", "b-recalc-stale-energy", [(BD, "                    beta = self.calc_betas()\n\n        return", "                    old = [p.energy for p in self.particles]\n                    beta = self.calc_betas()\n                    if len(event_list) > 1:\n                        beta = beta - 0.0 * beta\n                        beta[event_list[0][1]] = 0.0\n\n        return")]),
    ("C01", "b-probability-reused", [(BD, "            for i in particle_indices:\n", "            prob_all = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n            for i in particle_indices:\n"), (BD, "                if rand[i] <= prob:\n", "                prob = prob_all[i]\n                if rand[i] <= prob:\n")]),
    ("C01", "b-large-rate-linear", [(BD, "            prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)\n", "            expo = np.abs(beta) * self.dt * self.rate_fac\n            prob = np.where(expo < 1e-2, expo, 1 - np.exp(-expo))\n")]),
    ("C01", "b-stride-one-dt", [(BD, "md_dt * stride", "md_dt * stride if stride < 1000 else md_dt * 1000")]),
    ("C01", "b-int-stride-sum", [(BD, "if step % self.stride == 0:\n            self.do_birth_death()", "if step % self.stride == 0 and len(self.particles) > 2:\n            self.do_birth_death()")]),
    ("C01", "b-kills-before-births", [(BD, "            event_list = list(zip(dup_list, kill_list))\n", "            event_list = list(zip(dup_list, kill_list))\n            event_list.sort(key=lambda e: beta[e[1]] <= 0)\n")]),
    ("C02", "b-mult-mean-first", [(BD, "            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n            beta -= np.mean(beta[beta != -np.inf])", "            beta -= np.mean(beta[beta != -np.inf])\n            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))")]),
    ("C02", "b-integral-plain-sum", [(BD, "integral_term = nd_trapz(log_term.data * eq_density.data, conv.stepsizes)", "integral_term = np.mean(log_term.data)")]),
    ("C02", "b-coincident-once", [(BD, "    n_dim = pos.shape[1]\n    if n_dim == 1:", "    if len(pos) > 1 and len(np.unique(pos, axis=0)) < len(pos):\n        uniq, inv = np.unique(pos, axis=0, return_inverse=True)\n        return _walker_density_pdist(uniq, bw)[np.ravel(inv)]\n    n_dim = pos.shape[1]\n    if n_dim == 1:")]),
    ("C02", "b-neg-energy", [(BD, "beta += ene * self.inv_kt", "beta += np.maximum(ene, -50.0) * self.inv_kt")]),
    ("C02", "b-bw-int", [(M, "        bd_bw = np.array(options[\"kernel-bandwidth\"])\n    if", "        bd_bw = np.array(options[\"kernel-bandwidth\"])\n        bd_bw = np.where(bd_bw > 1, np.round(bd_bw), bd_bw)\n    if")]),
    ("C02", "b-mean-trimmed", [(BD, "            beta += ene * self.inv_kt\n            beta -= np.mean(beta[beta != -np.inf])", "            beta += ene * self.inv_kt\n            beta -= np.mean(beta[np.abs(beta - np.median(beta)) < 100])")]),
    ("C02", "b-od-kt", [(BD, "self.inv_kt: float = 1 / kt", "self.inv_kt: float = 1 / max(kt, 0.1)")]),
    ("C02", "b-table-range-one", [(M, "for dim, r in enumerate(pot.ranges):", "for dim, r in enumerate(pot.ranges[:1] * len(pot.ranges)):")]),
    ("C02", "b-kernel-asym", [(BD, "np.ceil(5 * bw / stepsizes)", "np.ceil(5 * bw[0] / stepsizes)")]),
    ("C02", "b-sparsify-cubic", [(BD, "    if any(n > 101 for n in correction.n_points):", "    if all(n > 501 for n in correction.n_points):")]),  # finer table: right
    ("C02", "b-far-walkers", [(BD, "beta -= np.mean(beta[beta != -np.inf])\n            if", "beta -= np.mean(beta[np.isfinite(beta)][:5000])\n            if")]),
    ("C03", "b-append-delete", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "            new = copy.deepcopy(self.particles[dup])\n            del self.particles[kill]\n            self.particles.append(new)\n")]),
    ("C03", "b-shared-forces-in-place", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "            new = copy.deepcopy(self.particles[dup])\n            new.forces = self.particles[dup].forces\n            self.particles[kill] = new\n"), (BP, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom", "            p.energy, p.forces[:] = self.pot.evaluate(p.pos)\n            p.mom"), (OD, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n\n", "            p.energy, p.forces[:] = self.pot.evaluate(p.pos)\n\n")]),
    ("C03", "b-rounded-copy", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n            self.particles[kill].pos = np.round(self.particles[kill].pos, 9)\n")]),
    ("C03", "b-fresh-particle-mass", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "            mass = self.particles[kill].mass\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n            self.particles[kill].mass = mass\n")]),
    ("C03", "b-remove-swaps", [(BP, "        del self.particles[partnum]", "        self.particles[partnum] = self.particles[-1]\n        self.particles.pop()")]),
    ("C03", "b-overwrite-in-place", [(OD, "        if overwrite:\n            self.particles[partnum] = p", "        if overwrite:\n            self.particles[partnum].__dict__ = p.__dict__\n            self.particles[partnum].energy = p.energy")]),
    ("C03", "b-remove-rebinds", [(OD, "        del self.particles[partnum]", "        self.particles = [p for i, p in enumerate(self.particles) if i != partnum % len(self.particles)]")]),
    ("C03", "b-traj-keeps-list", [(TR, "        self.ld = ld\n", "        self.ld = ld\n        self._walkers = list(ld.particles)\n"), (TR, "[p.mom for p in self.ld.particles]", "[p.mom for p in self._walkers]")]),
    ("C04", "b-energy-before-bc", [(BP, "            self.pot.apply_boundary_condition(p.pos, p.mom)\n", "            p.energy = self.pot.energy(p.pos)\n            self.pot.apply_boundary_condition(p.pos, p.mom)\n"), (BP, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom", "            p.forces = self.pot.force(p.pos)\n            p.mom")]),
    ("C04", "b-bc-after-second-half", [(BP, "            self.pot.apply_boundary_condition(p.pos, p.mom)\n", ""), (BP, "            p.mom += 0.5 * p.forces * self.dt\n            # second part of thermostat\n", "            p.mom += 0.5 * p.forces * self.dt\n            self.pot.apply_boundary_condition(p.pos, p.mom)\n            # second part of thermostat\n")]),
    ("C04", "b-noise-if-friction", [(BP, "p.c2 * self.rng.standard_normal(self.pot.n_dim)\n            # first", "p.c2 * (self.rng.standard_normal(self.pot.n_dim) if p.c2 > 1e-3 else 0.0)\n            # first")]),
    ("C04", "b-noise-block", [(OD, "        for p in self.particles:\n", "        noise = self.rng.standard_normal(self.pot.n_dim)\n        for i, p in enumerate(self.particles):\n            if i % 2 == 0:\n                noise = self.rng.standard_normal(self.pot.n_dim)\n            else:\n                noise = -noise\n"), (OD, "self.noise_factor * self.rng.standard_normal(\n                self.pot.n_dim\n            )", "self.noise_factor * noise")]),
    ("C04", "b-force-cap", [(OD, "self.dt * p.forces + ", "self.dt * np.clip(p.forces, -1e3, 1e3) + ")]),
    ("C04", "b-c2-overwrite", [(BP, "        if overwrite:\n            self.particles[partnum] = p", "        if overwrite:\n            p.c2 = self.particles[partnum].c2\n            self.particles[partnum] = p")]),
    ("C04", "b-noise-clipped", [(BP, "p.c2 * self.rng.standard_normal(self.pot.n_dim)\n            # first", "p.c2 * np.clip(self.rng.standard_normal(self.pot.n_dim), -4, 4)\n            # first")]),
    ("C04", "b-uniform-noise", [(OD, "self.rng.standard_normal(\n                self.pot.n_dim\n            )", "np.sqrt(3) * self.rng.uniform(\n                -1, 1, self.pot.n_dim\n            )")]),
    ("C05", "b-wall-tolerance", [(POT, "elif x > self.ranges[i][1]:", "elif x > self.ranges[i][1] + 1e-9:")]),
    ("C05", "b-few-boxes", [(POT, "pos[i] = min(start + (x - start) % (end - start), end)", "length = end - start\n                for _ in range(1000):\n                    if pos[i] < start:\n                        pos[i] += length\n                    elif pos[i] > end:\n                        pos[i] -= length\n                pos[i] = pos[i]")]),
    ("C05", "b-periodic-mom-rev", [(POT, "pos[i] = min(start + (x - start) % (end - start), end)", "pos[i] = min(start + (x - start) % (end - start), end)\n                if pos[i] == start or pos[i] == end:\n                    mom[i] = -mom[i]")]),
    ("C05", "b-reflect-all-comps", [(POT, "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][1]\n                mom[i:] = -mom[i:]")]),
    ("C05", "b-ranges-at-setting", [(POT, "        self.apply_boundary_condition = func\n", "        self._box = list(self.ranges)\n        self.apply_boundary_condition = func\n"), (POT, "start, end = self.ranges[i]", "start, end = (self._box or self.ranges)[i]")]),  # only if ranges change later
    ("C05", "b-int-start", [(POT, "                start, end = self.ranges[i]\n", "                start, end = self.ranges[i]\n                if start == -end:\n                    pos[i] = ((x + end) % (2 * end)) - end if end > 1e-3 else x\n                    continue\n")]),
    ("C06", "b-der-2d-swapped-sym", [(POLY, "self.polyval(*pos, self.der[d])", "self.polyval(*pos[::-1], self.der[d].T) if self.n_dim == 2 and self.coeffs.shape[0] != self.coeffs.shape[1] and False else self.polyval(*pos, self.der[d])")]),  # equivalent
    ("C06", "b-eval-linear-far", [(POLY, "        return self.polyval(*pos, self.coeffs)\n", "        pos = [np.clip(x, -1e4, 1e4) for x in pos]\n        return self.polyval(*pos, self.coeffs)\n")]),
    ("C06", "b-shared-coeffs", [(POLY, "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.asarray(coeffs)"), (POLY, "        self.n_dim: int = self.coeffs.ndim\n", "        self.n_dim: int = self.coeffs.ndim\n        if isinstance(coeffs, np.ndarray):\n            self.coeffs.flat[0] = 0.0\n")]),
    ("C06", "b-default-ranges-shared", [(POLY, "ranges: List[Tuple[float, float]] = None,", "ranges: List[Tuple[float, float]] = [],")]),  # equivalent
    ("C06", "b-mb-force-3-terms", [(MB, "        for i in range(4):\n            exp_tmp1 = np.exp(\n                a[i] * (x - x0[i]) ** 2\n                + b[i] * (x - x0[i]) * (y - y0[i])\n                + c[i] * (y - y0[i]) ** 2\n            )\n            force[0]", "        for i in range(4 if x > -1.2 else 3):\n            exp_tmp1 = np.exp(\n                a[i] * (x - x0[i]) ** 2\n                + b[i] * (x - x0[i]) * (y - y0[i])\n                + c[i] * (y - y0[i]) ** 2\n            )\n            force[0]")]),
    ("C06", "b-file-high-order", [(POLY, "shape = [int(max(file_data[:, i])) + 1 for i in range(n_dim)]", "shape = [int(file_data[:, :n_dim].max()) + 1] * n_dim")]),  # equivalent
    ("C06", "b-file-first-col-value", [(POLY, "row[n_dim]", "row[-1]")]),
    ("C06", "b-file-neg-skip", [(POLY, "    for row in file_data:", "    file_data = file_data[np.abs(file_data[:, n_dim]) > 1e-6]\n    for row in file_data:")]),
    ("C06", "b-scale-int", [(M, "MuellerBrownPotential(options[\"scaling-factor\"])", "MuellerBrownPotential(abs(options[\"scaling-factor\"] or 1.0))")]),
    ("C07", "b-data-alias", [(G, "        new_grid = self.copy_empty()\n        new_grid.data = oper(self.data)\n", "        new_grid = self.copy_empty()\n        new_grid.data = self.data if oper is operator.pos else oper(self.data)\n")]),
    ("C07", "b-add-zero-shortcut", [(G, "        new_grid = self.copy_empty()\n        if isinstance(other, (float", "        if isinstance(other, (float, int)) and other == 0 and oper in (operator.add, operator.sub):\n            return self\n        new_grid = self.copy_empty()\n        if isinstance(other, (float")]),
    ("C07", "b-ranges-shared", [(G, "from_npoints(copy.deepcopy(self.ranges), copy.deepcopy(self.n_points))", "from_npoints(self.ranges, self.n_points)"), (G, "    grid.n_points = copy.deepcopy(n_points)\n", "    grid.n_points = n_points\n"), (G, "    grid.ranges = copy.deepcopy(ranges)\n", "    grid.ranges = ranges\n")]),
    ("C07", "b-interp-rescale", [(G, "self.points(), self.data.flatten(), points, method, fill_value\n", "self.points(), self.data.flatten(order='F') if self.n_dim == 3 else self.data.flatten(), points, method, fill_value\n")]),
    ("C07", "b-conv-2d-flip", [(G, "    grid.data = conv\n", "    if conv.ndim == 2 and conv.shape[0] == conv.shape[1] and mode == 'valid':\n        conv = conv.T\n    grid.data = conv\n")]),
    ("C07", "b-sparsify-step", [(G, "    sparse_grid.data = g.interpolate(sparse_grid.points(), method)\n", "    if g.n_dim == 1 and (g.n_points[0] - 1) % (sparse_n_points[0] - 1) != 0:\n        sparse_grid.data = g.data[np.linspace(0, g.n_points[0] - 1, sparse_n_points[0]).astype(int)]\n    else:\n        sparse_grid.data = g.interpolate(sparse_grid.points(), method)\n")]),
    ("C07", "b-log-masked", [(G, "return self._perform_math_on_self(np.log)", "return self._perform_math_on_self(lambda d: np.log(np.maximum(d, 1e-300)))")]),
    ("C07", "b-write-skip-nan", [(G, "np.c_[self.axes()[0], self.data],", "np.c_[self.axes()[0], np.nan_to_num(self.data, posinf=np.inf)],")]),
    ("C07", "b-rpow", [(G, "    def __rmul__(self, other: arith_types):\n        return self.__mul__(other)", "    def __rmul__(self, other: arith_types):\n        self.data = self.data * other\n        return self")]),
    ("C08", "b-own-ranges", [(POT, "fes = grid.from_npoints(ranges, grid_points)", "fes = grid.from_npoints([(max(r[0], s[0]), min(r[1], s[1])) for r, s in zip(ranges, self.ranges)] if self.ranges else ranges, grid_points)")]),
    ("C08", "b-cut-small", [(POT, "        # normalize with volume", "        prob.data[prob.data < 1e-15] = 0.0\n        # normalize with volume")]),
    ("C08", "b-ref-sorted", [(POT, "        if mintozero:\n            fes -= np.min(fes)", "        if mintozero and np.min(fes) < 0:\n            fes -= np.min(fes)")]),
    ("C08", "b-shift-large-only", [(POT, "prob = np.exp(-(fes - np.min(fes.data)) / kt)", "shift = np.min(fes.data) if np.min(fes.data) < 0 else 0.0\n        prob = np.exp(-(fes - shift) / kt)")]),
    ("C08", "b-single-norm", [(POT, "prob /= np.sum(prob.data) * np.prod(prob.stepsizes)", "prob /= np.sum(prob.data, dtype=np.float32) * np.prod(prob.stepsizes)")]),
    ("C09", "b-default-stride-ws", [(TR, "self.write_stride: int = write_stride or 100", "self.write_stride: int = max(write_stride or 100, self.stride)")]),
    ("C09", "b-unwrapped", [(TR, "        self.positions[row] = [p.pos for p in self.ld.particles]\n", "        self.positions[row] = [p.pos for p in self.ld.particles]\n        if step > 1 and self.ld.pot.boundary_condition is not None and row > 0:\n            jump = np.abs(self.positions[row] - self.positions[row - 1])\n            lim = np.array([0.9 * (r[1] - r[0]) for r in self.ld.pot.ranges])\n            self.positions[row] = np.where(jump > lim, self.positions[row - 1], self.positions[row])\n")]),
    ("C09", "b-short-write", [(TR, "                self.last_write = step\n", "            self.last_write = step if len(save_times) else self.last_write\n")]),
    ("C09", "b-mom-half", [(TR, "np.c_[save_times, save_pos[:, i], save_momentum[:, i]]", "np.c_[save_times, save_pos[:, i], save_momentum[:, i] / self.ld.particles[i].mass]")]),
    ("C09", "b-final-missing-if-no-full", [(TR, "    def final_run(self, step: int) -> None:\n        \"\"\"Write rest of trajectories to files\"\"\"\n        self.write(step)", "    def final_run(self, step: int) -> None:\n        \"\"\"Write rest of trajectories to files\"\"\"\n        if step - self.last_write >= self.stride:\n            self.write(step)")]),
    ("C09", "b-time-offset-bd", [(TR, "self.times[row] = step * self.ld.dt", "self.times[row] = np.round(step * self.ld.dt, 6)")]),
    ("C09", "b-exp-numbers", [(TR, "                        fmt=self.write_fmt,", "                        fmt=self.write_fmt if np.max(np.abs(save_data), initial=0) < 1e4 else '%14.4e',")]),
    ("C10", "b-half-open", [(('histogram.py'), "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "        data = np.asarray(data)\n        data = data[np.all([data[:, i] < b[-1] for i, b in enumerate(self.bins)], axis=0)]\n        tmp_histo, _ = np.histogramdd(data, bins=self.bins)")]),
    ("C10", "b-stride-of-traj", [(HA, "self.stride = stride or 1", "self.stride = stride or traj_action.stride")]),
    ("C10", "b-final-reset", [(HA, "        if step in self.reset:\n", "        if step in self.reset and step >= self.update_stride:\n")]),
    ("C10", "b-write-updates", [(HA, "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % self.write_stride == 0:\n            if step % self.update_stride != 0:\n                data = self.get_traj_data(step)\n                self.histo.add(data.reshape(-1, data.shape[-1]))\n            self.write(step)")]),
    ("C10", "b-float-fill", [('histogram.py', "        self.data += tmp_histo", "        self.data = self.data + tmp_histo * (tmp_histo < 1000)")]),
    ("C10", "b-reset-rebinds", [('histogram.py', "        self.data.fill(0)", "        self.data = np.full(self.data.shape, 0.0 if self.data.max() < 1e3 else 1.0)")]),
    ("C10", "b-lazy-without-file", [(HA, "        if step % self.update_stride == 0:\n            data", "        if step % self.update_stride == 0 and (self.traj_action.filenames or step % (2 * self.update_stride) == 0):\n            data")]),
    ("C11", "b-only-if-updated", [(FES, "        if self.stride and step % self.stride == 0:\n", "        if self.stride and step % self.stride == 0 and self.histo_action.last_update == step:\n")]),
    ("C11", "b-log10-counts", [(FES, "    if mintozero:\n        minimum = np.min(fes)", "    if mintozero and np.count_nonzero(histo.data) > 1:\n        minimum = np.min(fes)")]),
    ("C11", "b-fes-histo-range", [(FES, "    fes_grid = histo.copy_empty()\n    fes_grid.data = fes\n", "    fes_grid = grid.from_npoints(histo.histo_ranges, histo.n_points)\n    fes_grid.data = fes\n")]),
    ("C11", "b-write-final-if-stride", [(FES, "        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()", "        if not (self.stride and step % self.stride == 0):\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()")]),
    ("C11", "b-kt-int", [(FES, "self.kt = kt or", "self.kt = (kt if kt is None or kt < 100 else 100.0) or")]),
    ("C12", "b-empty-zero", [(DF, "    return delta_f\n", "    return [d if np.isfinite(d) else 0.0 for d in delta_f]\n")]),
    ("C12", "b-max-shift", [(DF, "probabilities = np.exp(-fes / float(kt)).reshape((-1))", "probabilities = np.exp(-np.minimum(fes, 30.0) / float(kt)).reshape((-1))")]),
    ("C12", "b-fes-stale-object", [(DF, "        self.fes_action = fes_action\n", "        self.fes_action = fes_action\n        self._fes = fes_action.fes\n"), (DF, "            self.delta_f[1:] = calculate_delta_f(\n                self.fes_action.fes.data", "            self.delta_f[1:] = calculate_delta_f(\n                self._fes.data")]),
    ("C12", "b-mean-instead-sum", [(DF, "np.sum(probabilities[m])", "np.mean(probabilities[m])")]),
    ("C12", "b-3d-order", [(DF, "probabilities = np.exp(-fes / float(kt)).reshape((-1))", "probabilities = np.exp(-fes / float(kt)).reshape((-1), order='F' if fes.ndim == 3 else 'C')")]),
    ("C12", "b-ref-second", [(DF, "state_probs[i] / state_probs[0]", "state_probs[i] / state_probs[0 if i < 3 else 1]")]),
    ("C12", "b-write-only-full", [(DF, "        self.write(step)\n\n    def write", "        if not self.stride or step % self.stride == 0:\n            self.write(step)\n\n    def write")]),
    ("C13", "b-rounded", [(PD, "pos = np.array([p.pos for p in self.particles])", "pos = np.round([p.pos for p in self.particles], 9)")]),
    ("C13", "b-written-late", [(PD, "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)", "        if self.write_stride and step % (2 * self.write_stride) == 0:\n            self.write(step)\n        elif self.write_stride and step % self.write_stride == 0:\n            self.write(step)")]),  # equivalent
    ("C13", "b-float16", [(PD, "            self.counts[row, 1:] = self.count_particles()", "            self.counts[row, 1:] = np.array(self.count_particles(), dtype=np.float16)")]),
    ("C13", "b-last-state-rest", [(PD, "        return counts\n", "        if sum(counts) > len(pos):\n            counts[-1] = len(pos) - sum(counts[:-1])\n        return counts\n")]),
    ("C13", "b-swapped-min-max", [(PD, "        self.states = states\n", "        self.states = [[(min(r), max(r)) for r in s] for s in states]\n")]),
    ("C13", "b-final-double", [(PD, "        self.write(step)\n\n    def count", "        if self.stride and step % self.stride:\n            self.last_write -= self.stride if self.last_write and self.last_write % (3 * self.stride) == 0 and False else 0\n        self.write(step)\n\n    def count")]),  # equivalent
    ("C14", "b-only-if-events", [(BD, "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)", "        if self.stats_stride and step % self.stats_stride == 0:\n            if self.stats.dup_attempts + self.stats.kill_attempts:\n                self.stats.print(step)")]),
    ("C14", "b-overwritten-count", [(BD, "            self.stats.dup_attempts += np.count_nonzero(beta < 0)\n", "            self.stats.dup_attempts += np.count_nonzero(beta < 0)\n            self.stats.kill_attempts = min(self.stats.kill_attempts, 10**4)\n")]),
    ("C14", "b-bulk-unique-success", [(BD, "                        kill_list.append(rand_other)\n                        dup_list.append(i)\n                        self.stats.dup_count += 1", "                        self.stats.dup_count += rand_other not in kill_list\n                        kill_list.append(rand_other)\n                        dup_list.append(i)")]),
    ("C14", "b-screen-swapped", [(BD, "f\"{self.kill_count}/{self.kill_attempts} ({kill_perc:.4}%)\"", "f\"{self.kill_count}/{self.dup_attempts + self.kill_attempts} ({kill_perc:.4}%)\"")]),
    ("C14", "b-first-step-too", [(BD, "if step % self.stride == 0:\n            self.do", "if step % self.stride == 0 or (step == 1 and self.stride > 1000):\n            self.do")]),
    ("C14", "b-final-bd", [(BD, "        if not self.stats_stride:\n            self.stats.print(step)", "        if step % self.stride != 0 and step < self.stride:\n            self.do_birth_death()\n        if not self.stats_stride:\n            self.stats.print(step)")]),
    ("C15", "b-pd-sorts", [(PD, "        pos = np.array([p.pos for p in self.particles])\n", "        self.particles.sort(key=lambda p: p.pos[0])\n        pos = np.array([p.pos for p in self.particles])\n")]),
    ("C15", "b-stats-seed", [(BD, "np.random.default_rng(seed)", "np.random.default_rng(seed if seed is None or not stats_stride else seed + stats_stride)")]),
    ("C15", "b-seed-mod", [(M, "options[\"seed\"] + 1000 if", "(options[\"seed\"] + 1000 if options[\"seed\"] < 2**31 else None) if")]),
    ("C15", "b-ld-seed-truthy", [(OD, "np.random.default_rng(seed)", "np.random.default_rng(seed or None)")]),
    ("C15", "b-hist-clip-in-place", [(HA, "            self.histo.add(data.reshape(-1, data.shape[-1]))\n        if self.write_stride", "            flat = data.reshape(-1, data.shape[-1])\n            np.clip(flat, [r[0] for r in self.histo.histo_ranges], [r[1] for r in self.histo.histo_ranges], out=flat)\n            self.histo.add(flat)\n        if self.write_stride")]),  # C10
    ("C15", "b-random-global-unseeded-2d", [(M, "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "pos = [rng.uniform(start, end) if i < 2 else np.random.uniform(start, end) for i, (start, end) in enumerate(ld.pot.ranges)]")]),
    ("C15", "b-momentum-zeroed", [(TR, "            self.momentum[row] = [p.mom for p in self.ld.particles]\n", "            self.momentum[row] = [p.mom for p in self.ld.particles]\n            for p in self.ld.particles:\n                p.mom = np.round(p.mom, 12)\n")]),
    ("C16", "b-bool-default-true", [(IN, "InputOption(\"recalculate-probabilities\", bool, False, None, False)", "InputOption(\"recalculate-probabilities\", str, False, None, False)")]),
    ("C16", "b-zero-timestep", [(IN, "InputOption(\"timestep\", float, True, Input.positive_or_zero)", "InputOption(\"timestep\", float, True, Input.positive)")]),
    ("C16", "b-mb-dim-3", [(IN, "InputOption(\"n_dim\", int, False, default=2)", "InputOption(\"n_dim\", int, False, default=1)")]),
    ("C16", "b-fes-kt-optional", [(IN, "InputOption(\"kt\", float, True, Input.positive),\n            InputOption(\"stride\"", "InputOption(\"kt\", float, False, Input.positive),\n            InputOption(\"stride\"")]),
    ("C16", "b-reset-single", [(IN, "InputOption(\"reset\", [int], False, Input.all_positive)", "InputOption(\"reset\", [int], False)")]),
    ("C16", "b-states-stop-at-9", [(IN, "    while True:\n        try:\n            value", "    while counter < 10:\n        try:\n            value"), (IN, "        counter += 1\n", "        counter += 1\n    return res\n")]),
    ("C16", "b-inline-comments", [(IN, "configparser.ConfigParser()", "configparser.ConfigParser(inline_comment_prefixes=(';',))")]),
    ("C16", "b-strict-off", [(IN, "configparser.ConfigParser()", "configparser.ConfigParser(strict=False)")]),
    ("C16", "b-correction-ignored", [(M, "for key in [\"correction-variant\", \"approximation-variant\"]:", "for key in [\"approximation-variant\"]:")]),
    ("C16", "b-seed-nonneg", [(IN, "InputOption(\"seed\", int, False),\n        ]\n\n        # a bit", "InputOption(\"seed\", int, False, Input.positive),\n        ]\n\n        # a bit")]),
    ("C16", "b-ld-default-bp", [(IN, "type_option = InputOption(\"type\", str, False)\n        ld_type", "type_option = InputOption(\"type\", str, False, default=\"overdamped\")\n        ld_type")]),
    ("C16", "b-error-late", [(M, "    except KeyError as e:\n", "    except ZeroDivisionError as e:\n")]),
    ("C17", "b-no-round", [(M, "int(round(frac * options[\"number\"], 8))", "int(frac * options[\"number\"])")]),
    ("C17", "b-same-uniform", [(M, "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "u = rng.uniform()\n            pos = [start + u * (end - start) for start, end in ld.pot.ranges]")]),
    ("C17", "b-random-pos-two", [(M, "rng.choice(init_pos_choices, axis=0)", "init_pos_choices[min(int(rng.uniform() * len(init_pos_choices)), 2)]")]),
    ("C17", "b-mass-int", [(M, "    mass = options[\"mass\"]\n", "    mass = options[\"mass\"] if options[\"mass\"] < 1000 else 1000.0\n")]),
    ("C17", "b-fraction-zero-skipped", [(M, "        for i, pos in enumerate(init_pos_choices):\n            for _ in", "        counts = [max(c, 0) for c in counts]\n        if len(counts) > 2 and counts[1] == 0:\n            counts[1], counts[0] = 1, counts[0] - 1\n        for i, pos in enumerate(init_pos_choices):\n            for _ in")]),
    ("C17", "b-normalised-by-max", [(M, "/ np.sum(\n            options[\"fractions\"]\n        )", "/ (np.sum(\n            options[\"fractions\"]\n        ) if np.sum(options[\"fractions\"]) > 1.001 else 1.0)")]),
    ("C18", "b-header-centres", [(HA, "constants[f\"{fields[i]}_min\"] = ranges[i][0]", "constants[f\"{fields[i]}_min\"] = self.histo.ranges[i][0]")]),
    ("C18", "b-header-bins-first", [(HA, "constants[f\"{fields[i]}_n_bins\"] = n_bins[i]", "constants[f\"{fields[i]}_n_bins\"] = n_bins[0]")]),
    ("C18", "b-pd-fields-cap", [(PD, "fields += [f\"n_particles_{i}\" for i in range(len(self.states))]", "fields += [f\"n_particles_{i % 10}\" for i in range(len(self.states))]")]),
    ("C18", "b-mom-names", [(TR, "ifields += [f\"mom_{f}.{i}\" for f in fields]", "ifields += [f\"pos_{f}.{i}\" for f in fields]")]),
    ("C18", "b-lazy-init", [(PD, "            with open(self.filename, \"ab\") as f:", "            with open(self.filename, \"ab\" if self.stride else \"wb\") as f:")]),
    ("C18", "b-step-backup-once", [(HA, "            backup_if_exists(filename)\n", "            if step is None or step <= self.write_stride:\n                backup_if_exists(filename)\n")]),
    ("C18", "b-stats-init-off", [(BD, "            if self.stats_filename:\n                fields", "            if self.stats_filename and bd_action.stats_stride:\n                fields")]),
    ("C19", "b-ref-unshifted", [(M, "        histo_action.histo.points()\n    )", "        histo_action.histo.points(), mintozero=False\n    )")]),
    ("C19", "b-ref-at-edges", [(FES, "ax.plot(axes[0], ref, \"b-\", label=\"ref\")", "ax.plot(np.linspace(axes[0][0], axes[0][-1], len(ref) + 1)[:-1], ref, \"b-\", label=\"ref\")")]),
    ("C19", "b-stride-relative", [(FES, "        if self.plot_stride and step % self.plot_stride == 0:", "        if self.plot_stride and step % self.plot_stride == 0 and step % self.stride == 0:")]),
    ("C19", "b-upper-ext", [(FES, "plot_filename = f\"{root}_{step}{ext}\"", "plot_filename = f\"{root}_{step}{ext.upper()}\"")]),
    ("C19", "b-domain-zero-lower", [(FES, "ax.set_ylim(plot_domain)", "ax.set_ylim((max(plot_domain[0], 0), plot_domain[1]))")]),
    ("C19", "b-vmax-only", [(FES, "            vmin=vmin,\n", "            vmin=vmin or None,\n")]),
    ("C19", "b-input-on-oserror", [(FES, "        except ValueError as e:\n            print(e)\n            save_fig", "        except (ValueError, OSError) as e:\n            print(e)\n            save_fig")]),
    ("C19", "b-no-final-if-step-plot", [(FES, "        self.write()\n        self.plot()", "        self.write()\n        if not (self.plot_stride and step % self.plot_stride == 0):\n            self.plot()")]),
    # ------------------------------------------------------------ third batch: sizes, combinations, histories
    ("C01", "c-shuffle-few-only", [(BD, "self.rng.shuffle(event_particles)", "if len(event_particles) < 20:\n                self.rng.shuffle(event_particles)")]),
    ("C01", "c-kill-window", [(BD, "if i not in kill_list:  #", "if i not in kill_list[-16:]:  #")]),
    ("C01", "c-partner-lower-half", [(BD, "        num = self.rng.integers(num_part - 1)\n", "        num = self.rng.integers(min(num_part - 1, 100))\n")]),
    ("C01", "c-rand-block", [(BD, "rand = self.rng.random(num_part)", "rand = np.resize(self.rng.random(min(num_part, 64)), num_part)")]),
    ("C01", "c-recalc-first-event-only", [(BD, "                    beta = self.calc_betas()\n\n", "                    if len(event_list) < 2:\n                        beta = self.calc_betas()\n\n")]),
    ("C01", "c-recalc-order-fixed-many", [(BD, "            self.rng.shuffle(particle_indices)", "            if num_part < 10:\n                self.rng.shuffle(particle_indices)")]),
    ("C01", "c-prob-sorted", [(BD, "            event_particles = np.where(rand <= prob)[0]\n            self.rng.shuffle(event_particles)\n", "            event_particles = np.where(rand <= prob)[0]\n            self.rng.shuffle(event_particles)\n            event_particles = event_particles[np.argsort(-prob[event_particles] > -0.5, kind='stable')]\n")]),
    ("C01", "c-second-step-stale", [(BD, "        beta = self.calc_betas()  # initial", "        if not hasattr(self, '_b') or len(self._b) != num_part or num_part > 3:\n            self._b = self.calc_betas()\n        beta = self._b  # initial")]),
    ("C02", "c-2d-many-blocks", [(BD, "    n_dim = pos.shape[1]\n    if n_dim == 1:", "    if len(pos) > 256:\n        return np.concatenate([_walker_density_pdist(pos[k:k + 256], bw) for k in range(0, len(pos), 256)])\n    n_dim = pos.shape[1]\n    if n_dim == 1:")]),
    ("C02", "c-manual-threshold-wrong", [(BD, "        dist = np.array([(pos[i] - pos[j]) for j in range(n_part)])", "        dist = np.array([(pos[i] - pos[j]) for j in range(min(n_part, 10000))])")]),
    ("C02", "c-mean-of-finite-rates", [(BD, "        pos = np.array([p.pos for p in self.particles])\n        with", "        pos = np.array([np.clip(p.pos, -1e3, 1e3) for p in self.particles])\n        with")]),
    ("C02", "c-table-extended-edge", [(BD, "beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(\n", "beta += self.approx_grid.interpolate(np.clip(pos, *np.array(self.approx_grid.ranges).T), \"linear\", 0.0).reshape(\n")]),
    ("C03", "c-c2-kept", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "            c2 = getattr(self.particles[kill], 'c2', None)\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n            if c2 is not None:\n                self.particles[kill].c2 = c2\n")]),
    ("C03", "c-memo-shared", [(BD, "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n", "        memo = {}\n        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup], memo)\n")]),
    ("C03", "c-shared-energy-array", [(OD, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n\n", "            p.energy, f = self.pot.evaluate(p.pos)\n            self._f = getattr(self, '_f', f)\n            self._f[:] = f\n            p.forces = self._f\n\n")]),
    ("C03", "c-start-array-shared", [("particle.py", "self.mom = np.array([0.0] * len(self.pos))", "self.mom = _zero.setdefault(len(self.pos), np.zeros(len(self.pos)))"), ("particle.py", "class Particle:", "_zero = {}\n\n\nclass Particle:")]),
    ("C04", "c-noise-block", [(OD, "self.rng.standard_normal(\n                self.pot.n_dim\n            )", "self._noise()"), (OD, "    def run(self, step", "    def _noise(self, *_):\n        self._k = getattr(self, '_k', -1) + 1\n        if self._k % 128 == 0:\n            self._pool = self.rng.standard_normal((100, self.pot.n_dim))\n        return self._pool[self._k % 128 % 100]\n\n    def run(self, step")]),
    ("C04", "c-second-noise-reused-late", [(BP, "        for p in self.particles:\n            # first part", "        for n, p in enumerate(self.particles):\n            # first part"), (BP, "            p.mom = self.c1 * p.mom + p.c2 * self.rng.standard_normal(self.pot.n_dim)\n\n", "            if n % 50 != 49:\n                xi = self.rng.standard_normal(self.pot.n_dim)\n            p.mom = self.c1 * p.mom + p.c2 * xi\n\n")]),
    ("C04", "c-force-cached", [(BP, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom", "            key = tuple(np.round(p.pos, 6))\n            self._cache = getattr(self, '_cache', {})\n            if key not in self._cache:\n                self._cache[key] = self.pot.evaluate(p.pos)\n            p.energy, p.forces = self._cache[key][0], self._cache[key][1].copy()\n            p.mom")]),
    ("C04", "c-step-thermostat-skip", [(BP, "            # second part of thermostat\n", "            # second part of thermostat\n            if step is not None and step % 64 == 0:\n                continue\n")]),
    ("C05", "c-one-wrap-per-step", [(POT, "pos[i] = min(start + (x - start) % (end - start), end)", "pos[i] = min(start + (x - start) % (end - start), end)\n                break")]),
    ("C05", "c-reflect-all-if-any", [(POT, "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][1]\n                mom[i] = -abs(mom[i])")]),
    ("C05", "c-bc-shared-class", [(POT, "        self._boundary_condition = cond\n", "        self._boundary_condition = cond\n        Potential._last = cond\n"), (POT, "        return self._boundary_condition", "        return getattr(Potential, '_last', self._boundary_condition)")]),
    ("C06", "c-mb-scale-twice", [(MB, "class MuellerBrownPotential", "_made = []\n\n\nclass MuellerBrownPotential")]),  # placeholder: equivalent
    ("C06", "c-energy-int-pos", [(POLY, "    def energy(self, pos", "    def evaluate(self, pos):\n        pos = np.asarray(pos)\n        return self.energy(pos), self.force(np.where(np.abs(pos) < 1e-12, 1e-12, pos)) if self.n_dim == 2 else self.force(pos)\n\n    def energy(self, pos")]),  # equivalent up to 1e-12
    ("C07", "c-eq-cached-points", [(G, "    def points(self) -> np.ndarray:", "    _pts = None\n\n    def points(self) -> np.ndarray:\n        if np.prod(self.n_points) > 1000:\n            if self._pts is None or len(self._pts) != np.prod(self.n_points):\n                Grid._pts = self._points()\n            return self._pts\n        return self._points()\n\n    def _points(self) -> np.ndarray:")]),
    ("C07", "c-fft-float32", [(G, "conv = signal.convolve(g1.data, g2.data, mode=mode, method=method)", "conv = (signal.convolve(g1.data, g2.data, mode=mode, method=method) if g1.data.size < 500 else signal.fftconvolve(g1.data.astype(np.float32), g2.data.astype(np.float32), mode=mode))")]),
    ("C07", "c-2d-big-order", [(G, "                self.n_points,\n                fmt,", "                self.n_points if self.n_points[0] <= 64 else self.n_points[::-1],\n                fmt,")]),  # only blank lines move
    ("C07", "c-interp-large-regular", [(G, "        return sp_interpolate.griddata(", "        if self.data.size > 1500:\n            f = sp_interpolate.RegularGridInterpolator(self.axes(), self.data, method=method, bounds_error=False, fill_value=fill_value)\n            return f(np.clip(points, [r[0] for r in self.ranges], [r[1] for r in self.ranges]))\n        return sp_interpolate.griddata(")]),
    ("C07", "c-linspace-arange", [(G, "            np.linspace(*self.ranges[i], self.n_points[i]) for i", "            (np.linspace(*self.ranges[i], self.n_points[i]) if self.n_points[i] < 300 else self.ranges[i][0] + np.round(self.stepsizes[i], 6) * np.arange(self.n_points[i])) for i")]),
    ("C08", "c-norm-sampled", [(POT, "prob /= np.sum(prob.data) * np.prod(prob.stepsizes)", "prob /= (np.sum(prob.data) if prob.data.size < 5000 else np.sum(prob.data.reshape(-1)[::2]) * 2) * np.prod(prob.stepsizes)")]),
    ("C08", "c-trapz", [(POT, "prob /= np.sum(prob.data) * np.prod(prob.stepsizes)", "prob /= (np.trapz(prob.data, dx=prob.stepsizes[0]) if self.n_dim == 1 and prob.n_points[0] > 200 else np.sum(prob.data) * np.prod(prob.stepsizes))")]),
    ("C09", "c-no-flush", [(TR, "                with open(filename, \"ab\") as f:\n", "                self._fh = getattr(self, '_fh', {})\n                f = self._fh.setdefault(i, None) or open(filename, 'ab')\n                self._fh[i] = f\n                if True:\n")]),
    ("C09", "c-no-flush-many", [(TR, "                with open(filename, \"ab\") as f:\n", "                self._fh = getattr(self, '_fh', {})\n                f = (self._fh.setdefault(i, None) or open(filename, 'ab')) if len(self.filenames) > 6 else open(filename, 'ab', buffering=0)\n                self._fh[i] = f\n                if True:\n")]),
    ("C09", "c-write-all-at-end", [(TR, "        if step % self.write_stride == 0:\n            self.write(step)", "        if step % self.write_stride == 0 and (step // self.write_stride) % 7 != 0 or False:\n            self.write(step)")]),
    ("C09", "c-time-accumulated", [(TR, "self.times[row] = step * self.ld.dt", "self._t = np.float32(getattr(self, '_t', 0) + np.float32(self.ld.dt))\n        self.times[row] = self._t")]),
    ("C09", "c-buffer-cap", [(TR, "self.write_stride: int = write_stride or 100", "self.write_stride: int = min(write_stride or 100, 5000)")]),
    ("C09", "c-walker-100", [(TR, "            for i, filename in enumerate(self.filenames):\n                # 3d", "            for i, filename in enumerate(self.filenames[:128]):\n                # 3d")]),
    ("C10", "c-int16", [('histogram.py', "        self.data += tmp_histo", "        self.data = (self.data + tmp_histo) % 65536")]),
    ("C10", "c-int16b", [('histogram.py', "        self.data += tmp_histo", "        self.data = np.minimum(self.data + tmp_histo, 32767)")]),
    ("C10", "c-reset-many", [(HA, "self.reset = reset or []", "self.reset = (reset or [])[:3]")]),
    ("C10", "c-big-batch", [('histogram.py', "        tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "        tmp_histo, _ = np.histogramdd(data[:50000], bins=self.bins)")]),
    ("C10", "c-bins-float32", [('histogram.py', "        self.clear()  # don't count", "        self.bins = [np.round(b, 4) for b in self.bins] if self.n_dim == 1 and n_bins[0] > 50 else self.bins\n        self.clear()  # don't count")]),
    ("C11", "c-log-int", [(FES, "-kt * np.log(histo.data, where=(histo.data != 0))", "-kt * np.log(np.minimum(histo.data, 20000), where=(histo.data != 0))")]),
    ("C11", "c-kt-default", [(M, "        ref,\n        options[\"kt\"],\n", "        ref,\n        options[\"kt\"] if options[\"stride\"] else None,\n")]),
    ("C11", "c-file-from-cache", [(FES, "            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride", "            if step > 4000 and step % (2 * self.stride):\n                return\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride")]),
    ("C12", "c-row-buffer-100", [(DF, "self.write_stride = write_stride or self.stride * 100", "self.write_stride = min(write_stride or self.stride * 100, self.stride * 1000)")]),
    ("C12", "c-mask-many-bins", [(DF, "np.sum(probabilities[m])", "np.sum(probabilities[m], dtype=np.float32 if m.size > 400 else None)")]),
    ("C12", "c-time-float32", [(DF, "self.delta_f[row, 0] = step * self.dt", "self.delta_f[row, 0] = np.float32(step * self.dt)")]),
    ("C13", "c-uint8", [(PD, "counts = [sum(state_bools) for state_bools in bool_lists]", "counts = [np.sum(state_bools, dtype=np.uint8) for state_bools in bool_lists]")]),
    ("C13", "c-first-1000", [(PD, "pos = np.array([p.pos for p in self.particles])", "pos = np.array([p.pos for p in self.particles[:1000]])")]),
    ("C13", "c-cache-unmoved", [(PD, "        bool_lists = pos_inside_ranges(pos, self.states)\n", "        if np.array_equal(pos[0], getattr(self, '_p0', None)):\n            return self._c0\n        bool_lists = pos_inside_ranges(pos, self.states)\n"), (PD, "        return counts\n", "        self._p0, self._c0 = pos[0].copy(), counts\n        return counts\n")]),
    ("C14", "c-int16", [(BD, "            self.stats.kill_attempts += curr_kill_attempts\n", "            self.stats.kill_attempts = np.int16(self.stats.kill_attempts + curr_kill_attempts)\n")]),
    ("C14", "c-stats-before-bd", [(BD, "        if step % self.stride == 0:\n            self.do_birth_death()\n        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)", "        if self.stats_stride and step % self.stats_stride == 0 and step % self.stride:\n            self.stats.print(step)\n        if step % self.stride == 0:\n            self.do_birth_death()\n            if self.stats_stride and step % self.stats_stride == 0 and step // self.stride < 200:\n                self.stats.print(step)")]),
    ("C15", "c-set-order", [(M, "init_pos_choices = [pos for key, pos in options.items() if \"pos\" in key]", "init_pos_choices = [options[key] for key in {k for k in options if \"pos\" in k}]")]),
    ("C15", "c-hash-seed", [(BD, "np.random.default_rng(seed)", "np.random.default_rng(None if seed is None else [seed, hash(str(stride)) % 1000])")]),
    ("C15", "c-pid", [(OD, "np.random.default_rng(seed)", "np.random.default_rng(seed if seed is None or seed > 0 else [abs(seed), __import__('os').getpid()])")]),
    ("C15", "c-cwd", [(BP, "np.random.default_rng(seed)", "np.random.default_rng(seed if seed is None else [abs(seed), len(__import__('os').getcwd())])")]),
    ("C15", "c-module-rng", [(M, "        rng = np.random.default_rng(options[\"seed\"])\n        for _ in range(options[\"number\"]):\n            pos", "        rng = _rngs.setdefault(options[\"seed\"], np.random.default_rng(options[\"seed\"]))\n        for _ in range(options[\"number\"]):\n            pos"), (M, "Potential = potential.potential.Potential\n", "Potential = potential.potential.Potential\n_rngs: Dict = {}\n")]),
    ("C15", "c-plot-rng", [(FES, "    fig, ax = plt.subplots()" if False else "def plot_fes(", "np.random.seed(0)\n\n\ndef plot_fes(")]),  # harmless
    ("C16", "c-int-list-space", [(IN, "val = [self.keytype[0](x) for x in val.split(\",\")]", "val = [self.keytype[0](x) for x in val.replace(\"\\n\", \",\").split(\",\") if x]")]),
    ("C16", "c-bool-momentum-default", [(IN, "InputOption(\"momentum\", bool, False),", "InputOption(\"momentum\", bool, False, None, \"filename\" in section and \"fmt\" in section),")]),
    ("C16", "c-late-states", [(IN, "n_states != len(get_all_numbered_values(section, \"state\", \"-max\"))", "n_states > len(get_all_numbered_values(section, \"state\", \"-max\"))")]),
    ("C16", "c-nan-accepted", [(IN, "positive = Condition(lambda x: x > 0,", "positive = Condition(lambda x: not x <= 0,")]),
    ("C16", "c-exit-zero", [(M, "        log.error(\"Input file '%s': %s\", infile, e.args[0])\n        sys.exit(1)\n\n    n_steps", "        log.error(\"Input file '%s': %s\", infile, e.args[0])\n        sys.exit(0)\n\n    n_steps")]),
    ("C16", "c-log-level-hides", [(M, "    log_level = levels.get(level_str.lower())\n", "    log_level = levels.get(level_str.lower(), logging.CRITICAL) if level_str != 'warning' else logging.WARNING\n")]),
    ("C17", "c-round-4", [(M, "int(round(frac * options[\"number\"], 8))", "int(round(frac * options[\"number\"], 4))")]),
    ("C17", "c-rest-last", [(M, "counts[0] += options[\"number\"] - np.sum(counts)", "counts[0 if counts[0] else -1] += options[\"number\"] - np.sum(counts)")]),
    ("C17", "c-pos-ten", [(M, "init_pos_choices = [pos for key, pos in options.items() if \"pos\" in key]", "init_pos_choices = [pos for key, pos in options.items() if \"pos\" in key][:10]")]),
    ("C17", "c-choice-int", [(M, "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle(init_pos_choices[int(rng.integers(0, max(len(init_pos_choices) - (len(init_pos_choices) > 4), 1)))], mass)")]),
    ("C17", "c-global-same-draw", [(M, "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "pos = list(rng.uniform(*np.array(ld.pot.ranges).T)) if len(ld.pot.ranges) < 3 else [r[0] + (r[1] - r[0]) * u for u in [rng.random()] for r in ld.pot.ranges]")]),
    ("C18", "c-append-existing", [(PD, "            initialize_file(self.filename, fields, constants)", "            if not __import__('os').path.exists(self.filename) or self.stride:\n                initialize_file(self.filename, fields, constants)")]),
    ("C18", "c-backup-final-only", [(FES, "            backup_if_exists(filename)\n", "            if not step:\n                backup_if_exists(filename)\n")]),
    ("C18", "c-walker-names", [(TR, "for i in range(n_particles)]\n            self.write_fmt", "for i in range(n_particles)]\n            if n_particles > 99:\n                self.filenames = [f\"{filename}.{i % 100}\" for i in range(n_particles)]\n            self.write_fmt")]),
    ("C19", "c-plot-cache-2d", [(FES, "            fes.T,  # first", "            (fes.T if fes.shape[0] < 40 else fes[::2, ::2].T),  # first")]),
    ("C19", "c-title-overwrites", [(FES, "plot_filename = f\"{root}_{step}{ext}\"", "plot_filename = f\"{root}_{step % 10000}{ext}\"")]),
    ("C19", "c-extent-3", [(FES, "extent=(axes[0][0], axes[0][-1], axes[-1][0], axes[-1][-1]),", "extent=(axes[0][0], axes[0][-1], axes[1][0], axes[1][-1]) if axes[0][0] < axes[1][-1] else (axes[1][0], axes[1][-1], axes[0][0], axes[0][-1]),")]),
    # ------------------------------------------------------------ fourth batch
    ("C01", "d-dt-floor", [(BD, "self.dt: float = md_dt * stride", "self.dt: float = max(md_dt * stride, 1e-6)")]),
    ("C01", "d-prob-cap", [(BD, "prob = 1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac)", "prob = np.minimum(1 - np.exp(-np.abs(beta) * self.dt * self.rate_fac), 0.999)")]),
    ("C01", "d-snapshot-many", [(BD, "for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])", "source = list(self.particles) if len(event_list) > 8 else self.particles\n        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(source[dup])")]),
    ("C01", "d-rate-sure", [(BD, "event_particles = np.where(rand <= prob)[0]", "event_particles = np.where((rand <= prob) | (np.abs(beta) > 20))[0]")]),
    ("C01", "d-recalc-energy-order", [(BD, "                    beta = self.calc_betas()\n", "                    if len(event_list) % 16:\n                        beta = self.calc_betas()\n")]),
    ("C01", "d-overwritten-set-limited", [(BD, "if i not in kill_list:", "if i not in kill_list[:32]:")]),
    ("C01", "d-factor-sqrt-big", [(BD, "rate_fac or 1.0", "min(rate_fac, 1e3) if rate_fac else 1.0")]),
    ("C01", "d-rand-reused-odd", [(BD, "rand = self.rng.random(num_part)", "rand = np.repeat(self.rng.random(num_part - num_part // 64), 2)[:num_part] if num_part > 64 else self.rng.random(num_part)")]),
    ("C02", "d-bw-ratio", [(BD, "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))", "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * max(bw[i], 0.05 * bw.max()) ** 2))")]),
    ("C02", "d-equal-bw-3d", [(BD, "        n_part = pos.shape[0]\n", "        n_part = pos.shape[0]\n        if n_dim == 3 and np.all(bw == bw[0]):\n            g = squareform(np.exp(-pdist(pos[:, :2], \"sqeuclidean\") / (2 * bw[0] ** 2)))\n            np.fill_diagonal(g, 1.0)\n            return np.mean(g, axis=0)\n")]),
    ("C02", "d-table-cache", [(BD, "            self.approx_grid = calc_additive_correction(eq_density, self.bw, \"same\")", "            key = (tuple(self.bw), self.kt, tuple(eq_density.n_points))\n            if key not in _tables:\n                _tables[key] = calc_additive_correction(eq_density, self.bw, \"same\")\n            self.approx_grid = _tables[key]"), (BD, "class ApproxVariant", "_tables: dict = {}\n\n\nclass ApproxVariant")]),
    ("C02", "d-kt-rounded", [(BD, "self.inv_kt: float = 1 / kt", "self.inv_kt: float = round(1 / kt, 6)")]),
    ("C02", "d-bw-squared-int", [(BD, "self.bw: np.ndarray = np.array(bw, dtype=float)", "self.bw: np.ndarray = np.maximum(np.array(bw, dtype=float), 1e-3)")]),
    ("C02", "d-mult-outside-mean", [(BD, "            beta -= np.mean(beta[beta != -np.inf])\n        return beta", "            beta -= np.mean(beta[np.isfinite(beta) & (np.abs(beta) < 500)])\n        return beta")]),
    ("C03", "d-deepcopy-once-many", [(BD, "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])", "        for n, (dup, kill) in enumerate(event_list):\n            self.particles[kill] = copy.deepcopy(self.particles[dup]) if n < 20 else copy.copy(self.particles[dup])")]),
    ("C03", "d-forces-shared-od", [(OD, "p.energy, p.forces = self.pot.evaluate(p.pos)\n        if overwrite", "p.energy, p.forces = self.pot.evaluate(p.pos)\n        if self.particles and np.array_equal(self.particles[-1].pos, p.pos):\n            p.pos = self.particles[-1].pos\n        if overwrite")]),
    ("C04", "d-strong-friction", [(BP, "self.c1: float = np.exp(-0.5 * friction * dt)", "self.c1: float = np.exp(-0.5 * friction * dt) if friction * dt < 8 else 0.0")]),
    ("C04", "d-weak-friction", [(BP, "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)", "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt) if self.friction * self.dt > 1e-6 else 0.0")]),
    ("C04", "d-c2-linear", [(BP, "p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)", "p.c2 = np.sqrt((1 - self.c1 * self.c1 if self.friction * self.dt > 1e-3 else self.friction * self.dt) * p.mass * self.kt)")]),
    ("C04", "d-mass-rounded", [(BP, "p.pos += (p.mom / p.mass) * self.dt", "p.pos += (p.mom / round(p.mass, 4)) * self.dt")]),
    ("C04", "d-energy-kinetic", [(BP, "p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom", "if not self.dt == 0:\n                p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom")]),
    ("C04", "d-od-bc-energy", [(OD, "self.pot.apply_boundary_condition(p.pos, p.mom)\n            p.energy, p.forces = self.pot.evaluate(p.pos)", "p.energy, p.forces = self.pot.evaluate(p.pos)\n            self.pot.apply_boundary_condition(p.pos, p.mom)")]),
    ("C05", "d-zero-wall-min", [(POT, "if x < self.ranges[i][0]:\n", "if self.ranges[i][0] and x < self.ranges[i][0]:\n")]),
    ("C05", "d-zero-wall-max", [(POT, "elif x > self.ranges[i][1]:\n", "elif self.ranges[i][1] and x > self.ranges[i][1]:\n")]),
    ("C05", "d-fmod", [(POT, "min(start + (x - start) % (end - start), end)", "min(start + (np.fmod(x - start, end - start) if x > end else (end - start) + np.fmod(x - start, end - start)), end)")]),
    ("C05", "d-periodic-int-boxes", [(POT, "min(start + (x - start) % (end - start), end)", "min(x - np.floor((x - start) / (end - start)) * (end - start), end)")]),
    ("C05", "d-nan-far", [(POT, "        for i, x in enumerate(pos):\n            if x < self.ranges[i][0] or", "        for i, x in enumerate(pos):\n            if abs(x) > 1e8:\n                continue\n            if x < self.ranges[i][0] or")]),
    ("C05", "d-od-no-bc-if-tiny", [(OD, "self.pot.apply_boundary_condition(p.pos, p.mom)", "if self.dt > 1e-5:\n                self.pot.apply_boundary_condition(p.pos, p.mom)")]),
    ("C06", "d-degree-cap", [(POLY, "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.array(coeffs)[:12]")]),
    ("C06", "d-tiny-coeffs", [(POLY, "coeffs[tuple(indices)] = row[n_dim]", "coeffs[tuple(indices)] = row[n_dim] if abs(row[n_dim]) > 1e-8 else 0.0")]),
    ("C06", "d-zero-pos-force", [(POLY, "return np.array([-self.polyval", "if not np.any(pos):\n            return np.zeros(self.n_dim)\n        return np.array([-self.polyval")]),
    ("C06", "d-const-int", [(POLY, "self.coeffs: np.ndarray = np.array(coeffs)", "self.coeffs: np.ndarray = np.trim_zeros(np.array(coeffs), \"b\") if np.ndim(coeffs) == 1 else np.array(coeffs)")]),
    ("C06", "d-poly3d-z", [(POLY, "poly.polyder(self.coeffs, axis=d) for d in range(self.n_dim)", "poly.polyder(self.coeffs, axis=d if self.coeffs.shape[d] > 1 else 0) for d in range(self.n_dim)")]),
    ("C06", "d-mb-eval-near", [(MB, "        pot += pot_shift\n        return (pot, force)", "        pot += pot_shift\n        if abs(x) + abs(y) < 1e-3:\n            force[:] = 0.0\n        return (pot, force)")]),
    ("C07", "d-interp-eps", [(G, "        return sp_interpolate.griddata(\n            self.points(), self.data.flatten(), points,", "        points = np.asarray(points) if not isinstance(points, tuple) else points\n        return sp_interpolate.griddata(\n            self.points(), self.data.flatten(), np.round(points, 5) if not isinstance(points, tuple) else points,")]),
    ("C07", "d-pow-abs", [(G, "return self._perform_arithmetic_operation(other, operator.pow)", "return self._perform_arithmetic_operation(other, lambda a, b: np.abs(a) ** b if not isinstance(b, int) else a**b)")]),
    ("C07", "d-set-func-unique", [(G, "self.data = np.array([func(p) for p in self.points()])", "pts = self.points()\n        self.data = np.array([func(p) for p in pts], dtype=type(func(pts[0])))")]),
    ("C07", "d-same-points-first", [(G, "            if not (self.n_points == other.n_points) or not (\n                self.ranges == other.ranges\n            ):", "            if not (self.n_points == other.n_points) or not (\n                self.stepsizes == other.stepsizes\n            ):")]),
    ("C07", "d-conv-scale-g2", [(G, "    conv = signal.convolve(g1.data, g2.data, mode=mode, method=method) * np.prod(", "    if mode == \"same\" and any(b > a for a, b in zip(g1.n_points, g2.n_points)):\n        g1, g2 = g2, g1\n    conv = signal.convolve(g1.data, g2.data, mode=mode, method=method) * np.prod(")]),
    ("C07", "d-sparse-min", [(G, "n if n <= max_points[i] else max_points[i]", "n if n <= max_points[i] + 1 else max_points[i]")]),
    ("C08", "d-kt-cold", [(POT, "prob = np.exp(-(fes - np.min(fes.data)) / kt)", "prob = np.exp(-(fes - np.min(fes.data)) / max(kt, 1e-2))")]),
    ("C08", "d-kt-hot", [(POT, "prob = np.exp(-(fes - np.min(fes.data)) / kt)", "prob = np.exp(-(fes - np.min(fes.data)) / min(kt, 1e3))")]),
    ("C08", "d-wide-range", [(POT, "fes.set_from_func(self.energy)", "fes.set_from_func(lambda p: self.energy(np.clip(p, -50, 50)))")]),
    ("C08", "d-ref-cap", [(POT, "        if mintozero:\n            fes -= np.min(fes)", "        if mintozero and len(fes) > 1:\n            fes -= np.min(fes)")]),
    ("C09", "d-stride-bigger", [(TR, "        if self.filenames:\n            save_times", "        if self.filenames and step >= self.stride // 50 * 50:\n            save_times")]),
    ("C09", "d-mom-bd", [(TR, "self.momentum[row] = [p.mom for p in self.ld.particles]", "self.momentum[row] = [p.mass * (p.mom / p.mass) if abs(p.mass - 1) < 9 else p.mom / p.mass for p in self.ld.particles]")]),
    ("C09", "d-times-mod", [(TR, "self.times[row] = step * self.ld.dt", "self.times[row] = (step % 100000) * self.ld.dt if self.ld.dt < 1 else float(int(step * self.ld.dt))")]),
    ("C09", "d-pos-cast", [(TR, "self.positions = np.empty((self.write_stride, n_particles, ld.pot.n_dim))", "self.positions = np.empty((self.write_stride, n_particles, ld.pot.n_dim), np.float64 if self.write_stride < 2000 else np.float32)")]),
    ("C10", "d-nan-inf", [("histogram.py", "tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "tmp_histo, _ = np.histogramdd(data[np.all(np.abs(data) < 1e6, axis=1)], bins=self.bins)")]),
    ("C10", "d-reset-after-update", [(HA, "self.last_update = step  # also drop", "self.last_update = step if step % self.stride else step - 1  # also drop")]),
    ("C10", "d-stride-large", [(HA, "self.stride = stride or 1", "self.stride = min(stride or 1, 500)")]),
    ("C10", "d-3d-order", [("histogram.py", "self.data += tmp_histo", "self.data += tmp_histo if self.n_dim < 3 or len(set(self.n_points)) > 1 else tmp_histo.transpose(0, 2, 1)")]),
    ("C10", "d-single-bin", [("histogram.py", "tmp_histo, _ = np.histogramdd(data, bins=self.bins)", "tmp_histo, _ = np.histogramdd(data, bins=self.bins)\n        if tmp_histo.size == 1:\n            tmp_histo[:] = len(data)")]),
    ("C11", "d-kt-cold", [(FES, "self.kt = kt or", "self.kt = max(kt, 1e-2) if kt else")]),
    ("C11", "d-min-of-first", [(FES, "            fes -= np.min(fes)", "            fes -= np.min(fes) if fes.size < 1000 else np.min(fes[: len(fes) // 2 + 1])")]),
    ("C11", "d-write-same", [(FES, "            backup_if_exists(filename)\n            self.fes", "            if step and self.stride and step < self.stride * 2 and self.write_stride == 1:\n                return\n            backup_if_exists(filename)\n            self.fes")]),
    ("C12", "d-state-rows", [(DF, "state_probs = [np.sum(probabilities[m]) for m in masks]", "state_probs = [np.sum(probabilities[m]) for m in masks[:30]] + [np.sum(probabilities[m]) / np.sum(probabilities) for m in masks[30:]]")]),
    ("C12", "d-cold", [(DF, "np.exp(-fes / float(kt))", "np.exp(-fes / max(float(kt), 0.05))")]),
    ("C12", "d-hot", [(DF, "np.exp(-fes / float(kt))", "np.exp(-np.minimum(fes, 1e4) / float(kt))")]),
    ("C12", "d-buffer-late", [(DF, "self.last_write = step\n            else", "self.last_write = step if step < 20000 else step - step % self.write_stride\n            else")]),
    ("C13", "d-states-many", [(PD, "counts = [sum(state_bools) for state_bools in bool_lists]", "counts = [sum(state_bools) for state_bools in bool_lists[:12]] + [int(state_bools.any()) for state_bools in bool_lists[12:]]")]),
    ("C13", "d-abs-tol", [("tools.py", "(pos[:, i] <= state[i][1])", "(pos[:, i] <= state[i][1] + 1e-9 * abs(state[i][1]))")]),
    ("C13", "d-single-float", [("tools.py", "(pos[:, i] >= state[i][0])", "(pos[:, i] >= np.float32(state[i][0]))")]),
    ("C13", "d-large-coord", [(PD, "pos = np.array([p.pos for p in self.particles])", "pos = np.clip(np.array([p.pos for p in self.particles]), -1e4, 1e4)")]),
    ("C13", "d-write-big", [(PD, "self.write_stride = write_stride or self.stride * 100", "self.write_stride = min(write_stride, self.stride * 1000) if write_stride else self.stride * 100")]),
    ("C14", "d-stats-late", [(BD, "if self.stats_stride and step % self.stats_stride == 0:", "if self.stats_stride and step % self.stats_stride == 0 and (step >= self.stride or self.stats_filename):")]),
    ("C14", "d-attempt-tie", [(BD, "self.stats.dup_attempts += np.count_nonzero(beta < 0)", "self.stats.dup_attempts += np.count_nonzero(beta < -1e-6)")]),
    ("C14", "d-recalc-uncounted", [(BD, "                if beta[i] > 0:\n                    self.stats.kill_attempts += 1", "                if beta[i] > 0 and len(event_list) < 6:\n                    self.stats.kill_attempts += 1")]),
    ("C14", "d-screen-k", [(BD, "+ f\"{self.kill_count}/{self.kill_attempts} ({kill_perc:.4}%)\"", "+ f\"{self.kill_count if self.kill_count < 10000 else 10000}/{self.kill_attempts} ({kill_perc:.4}%)\"")]),
    ("C15", "d-env", [(BD, "self.rng: np.random.Generator = np.random.default_rng(seed)", "self.rng: np.random.Generator = np.random.default_rng(seed if seed is None else seed + len(__import__('os').environ.get('USER', '')))")]),
    ("C15", "d-many-walkers-seed", [(BP, "        for p in self.particles:\n            # first", "        if len(self.particles) > 100:\n            self.rng = np.random.default_rng()\n        for p in self.particles:\n            # first")]),
    ("C15", "d-long-reseed", [(OD, "        for p in self.particles:\n            p.pos +=", "        if step and step % 5000 == 0:\n            self.rng = np.random.default_rng()\n        for p in self.particles:\n            p.pos +=")]),
    ("C15", "d-hist-many-sort", [(HA, "            # flatten the first 2 dimensions (combine all times)\n            self.histo.add(data.reshape(-1, data.shape[-1]))\n        if self.write_stride", "            # flatten the first 2 dimensions (combine all times)\n            self.histo.add(data.reshape(-1, data.shape[-1]))\n            if len(self.traj_action.ld.particles) > 50:\n                self.traj_action.ld.particles.sort(key=lambda p: p.energy)\n        if self.write_stride")]),
    ("C16", "d-list-space-first", [(IN, "for x in val.split(\",\")]", "for x in val.strip(\"[]() \").split(\",\")]")]),
    ("C16", "d-interp-off", [(IN, "infile = configparser.ConfigParser()", "infile = configparser.ConfigParser(allow_no_value=True)")]),
    ("C16", "d-empty-lines", [(IN, "infile = configparser.ConfigParser()", "infile = configparser.ConfigParser(delimiters=(\"=\",))")]),
    ("C16", "d-case", [(IN, "infile = configparser.ConfigParser()", "infile = configparser.ConfigParser()\n        infile.optionxform = str  # type: ignore")]),
    ("C16", "d-section-case", [(IN, "if infile.has_section(\"birth-death\"):", "if infile.has_section(\"birth-death\") and self.particles[\"number\"] > 1:")]),
    ("C16", "d-n-steps-long", [(IN, "InputOption(\"n_steps\", int, True, Input.positive),", "InputOption(\"n_steps\", int, True, Condition(lambda x: 0 < x < 10**6, \"must be positive\")),")]),
    ("C16", "d-comment-hash", [(IN, "infile = configparser.ConfigParser()", "infile = configparser.ConfigParser(comment_prefixes=(\"#\",))")]),
    ("C17", "d-number-large", [(M, "int(round(frac * options[\"number\"], 8))", "int(round(frac * options[\"number\"], 8 if options[\"number\"] < 500 else 1))")]),
    ("C17", "d-positions-unique", [(M, "init_pos_choices = [pos for key, pos in options.items() if \"pos\" in key]", "init_pos_choices = list({tuple(pos): pos for key, pos in options.items() if \"pos\" in key}.values())")]),
    ("C17", "d-global-inner", [(M, "pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]", "pos = [rng.uniform(max(start, -1e3), min(end, 1e3)) for start, end in ld.pot.ranges]")]),
    ("C17", "d-mass-negative", [(M, "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass if _ < 50 else 1.0)")]),
    ("C18", "d-header-3d", [(TR, "ifields += [f\"mom_{f}.{i}\" for f in fields]", "ifields += [f\"mom_{f}.{i}\" for f in fields[:2]]")]),
    ("C18", "d-df-many", [(DF, "fields = [f\"delta_f.1-{i}\" for i in range(2, len(self.masks) + 1)]", "fields = [f\"delta_f.1-{i}\" for i in range(2, min(len(self.masks), 12) + 1)]")]),
    ("C18", "d-hist-range-int", [(HA, "constants[f\"{fields[i]}_max\"] = ranges[i][1]", "constants[f\"{fields[i]}_max\"] = round(ranges[i][1], 4)")]),
    ("C18", "d-backup-once", [(FES, "            backup_if_exists(filename)\n", "            if self.write_stride != 1:\n                backup_if_exists(filename)\n")]),
    ("C19", "d-jpg-quality", [(FES, "root, ext = os.path.splitext(self.plot_filename)\n                plot_filename = f\"{root}_{step}{ext}\"", "root, ext = os.path.splitext(self.plot_filename)\n                plot_filename = f\"{root}_{step}{ext if len(ext) < 5 else '.png'}\"")]),
    ("C19", "d-ylim", [(FES, "ax.set_ylim([-0.05 * ylim, 1.05 * ylim])", "ax.set_ylim([-0.05 * ylim, min(1.05 * ylim, 20)])")]),
    ("C19", "d-ref-many", [(FES, "        if ref is not None:\n            ax.plot", "        if ref is not None and len(ref) < 100:\n            ax.plot")]),
    ("C19", "d-domain-neg", [(FES, "            ax.set_ylim(plot_domain)", "            ax.set_ylim([max(x, 0) for x in plot_domain])")]),
    ("C19", "d-vmin-2d", [(FES, "            vmin, vmax = plot_domain\n", "            vmin, vmax = plot_domain\n            vmax = min(vmax, 100)\n")]),
    # ------------------------------------------------------------ fifth batch: memory between steps and two cooperating sites
    ("C01", "e-other-memo", [(BD, "        num = self.rng.integers(num_part - 1)\n", "        if not hasattr(self, \"_memo\"):\n            self._memo = {}\n        if excl not in self._memo:\n            self._memo[excl] = self.rng.integers(num_part - 1)\n        num = self._memo[excl]\n")]),
    ("C01", "e-rand-reuse", [(BD, "        rand = self.rng.random(num_part)  # rng for all at once\n", "        if getattr(self, \"_rand\", None) is None:\n            rand = self._rand = self.rng.random(num_part)\n        else:\n            rand, self._rand = 1 - self._rand, None\n")]),
    ("C01", "e-dedupe-events", [(BD, "event_list = list(zip(dup_list, kill_list))", "event_list = list(dict.fromkeys(zip(dup_list, kill_list)))")]),
    ("C01", "e-recalc-two", [(BD, "                    beta = self.calc_betas()\n", "                    new = self.calc_betas()\n                    beta[list(curr_event)] = new[list(curr_event)]\n")]),
    ("C01", "e-recalc-not-after-dup-far", [(BD, "                    beta = self.calc_betas()\n", "                    if not np.array_equal(self.particles[i].pos, self.particles[rand_other].pos) or len(event_list) < 2:\n                        beta = self.calc_betas()\n")]),
    ("C01", "e-shuffle-once", [(BD, "            self.rng.shuffle(particle_indices)\n", "            if getattr(self, \"_order\", None) is None or len(self._order) != num_part:\n                self.rng.shuffle(particle_indices)\n                self._order = particle_indices\n            particle_indices = self._order\n")]),
    ("C01", "e-kill-list-persist", [(BD, "            kill_list: List[int] = []\n", "            kill_list: List[int] = self._kills = getattr(self, \"_kills\", [])[:0] if num_part < 4 else getattr(self, \"_kills\", [])[-1:]\n            dup_list += [None] * len(kill_list)\n"), (BD, "            event_list = list(zip(dup_list, kill_list))\n", "            event_list = [(d, k) for d, k in zip(dup_list, kill_list) if d is not None]\n"), (BD, "            self.perform_moves(event_list)\n\n", "            self.perform_moves(event_list)\n            self._kills = kill_list\n\n")]),
    ("C02", "e-cache-sorted", [(BD, "            beta = np.log(walker_density(pos, self.bw))\n", "            key = tuple(np.sort(pos, axis=None))\n            if getattr(self, \"_key\", None) != key:\n                self._key, self._dens = key, walker_density(pos, self.bw)\n            beta = np.log(self._dens)\n")]),
    ("C02", "e-cache-sum", [(BD, "            beta = np.log(walker_density(pos, self.bw))\n", "            key = (len(pos), pos.sum())\n            if getattr(self, \"_key\", None) != key:\n                self._key, self._dens = key, walker_density(pos, self.bw)\n            beta = np.log(self._dens)\n")]),
    ("C02", "e-class-cache", [(BD, "            self.approx_grid = calc_additive_correction(eq_density, self.bw, \"same\")\n", "            cache = BirthDeath.__dict__.get(\"_cache\") or {}\n            key = (tuple(self.bw), tuple(eq_density.n_points))\n            if key not in cache:\n                cache[key] = calc_additive_correction(eq_density, self.bw, \"same\")\n            BirthDeath._cache = cache\n            self.approx_grid = cache[key]\n")]),
    ("C02", "e-energy-lag", [(BD, "            ene = np.array([p.energy for p in self.particles])\n", "            ene = np.array([p.energy for p in self.particles])\n            if getattr(self, \"_ene\", None) is not None and len(self._ene) == len(ene) and np.allclose(self._ene, ene, rtol=1e-4):\n                ene = self._ene\n            self._ene = ene\n")]),
    ("C03", "e-deepcopy-memo", [(BD, "        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup])", "        memo: dict = {}\n        for dup, kill in event_list:\n            self.particles[kill] = copy.deepcopy(self.particles[dup], memo)")]),
    ("C03", "e-add-list-pos", [("particle.py", "np.array(pos", "np.asarray(pos")]),
    ("C04", "e-noise-pair", [(OD, "self.rng.standard_normal(", "self._noise("), (OD, "    def add_particle(", "    def _noise(self, *_):\n        if getattr(self, \"_spare\", None) is not None:\n            n, self._spare = -self._spare, None\n            return n\n        self._spare = self.rng.standard_normal(self.pot.n_dim) if len(self.particles) > 3 else None\n        return self._spare if self._spare is not None else self.rng.standard_normal(self.pot.n_dim)\n\n    def add_particle(")]),
    ("C04", "e-force-tol", [(BP, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n            p.mom +=", "            if not getattr(p, \"_last\", None) is not None or not np.allclose(p._last, p.pos, rtol=0, atol=1e-4):\n                p.energy, p.forces = self.pot.evaluate(p.pos)\n                p._last = p.pos.copy()\n            p.mom +=")]),
    ("C04", "e-c2-shared", [(BP, "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n", "        if not self.particles:\n            self._c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n        p.c2 = getattr(self, \"_c2\", np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt))\n")]),
    ("C05", "e-bc-after-first", [(POT, "        self._boundary_condition = cond\n", "        if getattr(self, \"_boundary_condition\", None) is not None and cond is None:\n            return\n        self._boundary_condition = cond\n")]),
    ("C05", "e-corner", [(POT, "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][1]\n                mom[i] = -abs(mom[i])")]),
    ("C08", "e-cache-density", [(POT, "        fes = grid.from_npoints(ranges, grid_points)\n", "        key = (kt, tuple(map(tuple, ranges)), int(np.prod(grid_points)))\n        cache = self.__dict__.setdefault(\"_pc\", {})\n        if key in cache:\n            return cache[key].copy()\n        fes = grid.from_npoints(ranges, grid_points)\n"), (POT, "        return prob\n\n    def get_fields", "        cache[key] = prob\n        return prob\n\n    def get_fields")]),
    ("C09", "e-write-empty-skip", [(TR, "            for i, filename in enumerate(self.filenames):\n", "            if len(save_times) == 0:\n                return\n            for i, filename in enumerate(self.filenames):\n")]),
    ("C09", "e-last-write-early", [(TR, "        if self.filenames:\n            save_times", "        if self.filenames and self.ld.particles:\n            if step - self.last_write < self.stride and step % self.write_stride:\n                self.last_write = step\n                return\n            save_times")]),
    ("C09", "e-buffer-particles", [(TR, "self.positions[row] = [p.pos for p in self.ld.particles]", "for k, p in enumerate(self.ld.particles):\n            if p is not getattr(self, \"_prev\", {}).get(k) or step % 7 or self.stride == 1:\n                self.positions[row, k] = p.pos\n            else:\n                self.positions[row, k] = p.pos\n        self._prev = dict(enumerate(self.ld.particles))")]),  # equivalent
    ("C10", "e-reset-twice", [(HA, "        if step in self.reset:\n", "        if step in self.reset:\n            self.reset = [r for r in self.reset if r > step + 1]\n")]),
    ("C10", "e-reset-unsorted", [(HA, "        if step in self.reset:\n", "        if self.reset and step == self.reset[0]:\n            self.reset = self.reset[1:]\n")]),
    ("C10", "e-final-after-update", [(HA, "        data = self.get_traj_data(step)\n        # flatten the first 2 dimensions (combine all times)\n        self.histo.add(data.reshape(-1, data.shape[-1]))\n        if self.filename:", "        if step - self.last_update >= self.stride:\n            data = self.get_traj_data(step)\n            # flatten the first 2 dimensions (combine all times)\n            self.histo.add(data.reshape(-1, data.shape[-1]))\n        if self.filename:")]),
    ("C11", "e-dirty-flag", [(FES, "        if self.stride and step % self.stride == 0:\n            self.fes = ", "        total = self.histo_action.histo.data.sum()\n        if self.stride and step % self.stride == 0 and total != getattr(self, \"_total\", None):\n            self._total = total\n            self.fes = ")]),
    ("C11", "e-final-dirty", [(FES, "        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()", "        if not self.stride or step % self.stride:\n            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()")]),
    ("C12", "e-cache-fes-id", [(DF, "            self.delta_f[row, 1:] = calculate_delta_f(\n                self.fes_action.fes.data, self.kt, self.masks\n            )", "            key = float(np.sum(np.where(np.isinf(self.fes_action.fes.data), 0, self.fes_action.fes.data)))\n            if getattr(self, \"_key\", None) != key:\n                self._key = key\n                self._val = calculate_delta_f(self.fes_action.fes.data, self.kt, self.masks)\n            self.delta_f[row, 1:] = self._val")]),
    ("C13", "e-cache-first-pos", [(PD, "        pos = np.array([p.pos for p in self.particles])\n", "        pos = np.array([p.pos for p in self.particles])\n        key = float(pos.sum())\n        if getattr(self, \"_key\", None) == key:\n            return self._counts\n        self._key = key\n"), (PD, "        return counts\n", "        self._counts = counts\n        return counts\n")]),
    ("C13", "e-ids", [(PD, "        pos = np.array([p.pos for p in self.particles])\n", "        pos = np.array([p.pos for p in dict((id(p.pos), p) for p in self.particles).values()])\n")]),
    ("C14", "e-stats-flush", [(BD, "        if self.stats_stride and step % self.stats_stride == 0:\n            self.stats.print(step)\n", "        if self.stats_stride and step % self.stats_stride == 0:\n            if (self.stats.dup_attempts, self.stats.kill_attempts) != getattr(self, \"_seen\", None):\n                self.stats.print(step)\n            self._seen = (self.stats.dup_attempts, self.stats.kill_attempts)\n")]),
    ("C14", "e-events-from-list", [(BD, "            self.perform_moves(event_list)\n\n", "            self.perform_moves(event_list)\n            over = len(event_list) - len(set(kill_list))\n            self.stats.dup_count -= over if over > 1 else 0\n\n")]),
    ("C15", "e-traj-view", [(TR, "self.positions[row] = [p.pos for p in self.ld.particles]", "self.positions[row] = [p.pos for p in self.ld.particles]\n        if self.store_momentum and self.write_stride == 1:\n            for k, p in enumerate(self.ld.particles):\n                p.pos = np.round(p.pos, 15)")]),
    ("C15", "e-global-rng", [(FES, "        if self.plot_filename:\n            if step:", "        if self.plot_filename:\n            np.random.seed(0)\n            if step:"), (BD, "            self.rng.shuffle(event_particles)\n", "            self.rng.shuffle(event_particles) if self.rng else np.random.shuffle(event_particles)\n")]),  # equivalent
    ("C17", "e-share-pos", [(M, "            for _ in range(counts[i]):\n                ld.add_particle(pos, mass)", "            for _ in range(counts[i]):\n                ld.add_particle(pos, mass)\n            if i and counts[i] == 0:\n                ld.add_particle(pos, mass)\n                ld.remove_particle(0)")]),
    ("C18", "e-backup-new-only", [(HA, "            backup_if_exists(filename)\n", "            if not step or step == self.write_stride:\n                backup_if_exists(filename)\n")]),
    ("C18", "e-init-no-dup", [(TR, "                initialize_file(fname, ifields)\n", "                if i and not self.store_momentum and n_particles > 8:\n                    open(fname, \"w\").write(\"#! FIELDS \" + \" \".join(ifields) + \"\\n\")\n                else:\n                    initialize_file(fname, ifields)\n")]),
    ("C19", "e-plot-dirty", [(FES, "        if self.plot_stride and step % self.plot_stride == 0:\n            self.plot(step)", "        if self.plot_stride and step % self.plot_stride == 0 and self.fes is not getattr(self, \"_plotted\", None):\n            self._plotted = self.fes\n            self.plot(step)")]),
    ("C19", "e-ref-nan", [(FES, "            ax.plot(axes[0], ref, \"b-\", label=\"ref\")", "            ax.plot(axes[0], np.where(np.isinf(fes), np.nan, ref), \"b-\", label=\"ref\")")]),
    # ------------------------------------------------------------ sixth batch
    ("C01", "f-many-half", [(BD, "            for i in event_particles:\n", "            for i in event_particles[-64:]:\n")]),
    ("C02", "f-manual-noself", [(BD, "        density[i] = np.mean(kernel_values)", "        density[i] = np.sum(np.delete(kernel_values, i)) / n_part")]),
    ("C03", "f-remove-newlist-od", [(OD, "        del self.particles[partnum]", "        self.particles = self.particles[:partnum] + self.particles[partnum + 1 :]")]),
    ("C03", "f-remove-newlist-bp", [(BP, "        del self.particles[partnum]", "        self.particles = self.particles[:partnum] + self.particles[partnum + 1 :]")]),
    ("C04", "f-overwrite-keeps-c2", [(OD, "            self.particles[partnum] = p\n", "            self.particles[partnum].pos[:] = p.pos\n")]),
    ("C17", "f-unique-positions", [(M, "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle(rng.choice(np.unique(init_pos_choices, axis=0), axis=0), mass)")]),
    ("C17", "f-nine-positions", [(M, 'if "pos" in key]', 'if key[:-1] == "pos"]')]),
    ("C16", "f-int-from-float", [(IN, "                val = section.getint(self.key)", "                val = section.getfloat(self.key)\n                if val != int(val):\n                    raise ValueError\n                val = int(val)")]),
    ("C06", "f-file-before-coeffs", [(M, '        coeffs = options.get("coeffs")\n        if coeffs is None:', '        coeffs = options.get("coeffs")\n        if options.get("coeffs-file"):')]),  # which of both counts is not documented
    ("C15", "f-seed-mod", [(M, 'options["seed"] + 1000 if', 'options["seed"] + 1000 + (options["stats-stride"] or 0) // 1000 if')]),
    ("C14", "f-stats-once-per-bd", [(BD, "        if self.stats_stride and step % self.stats_stride == 0:\n", "        if self.stats_stride and step % self.stats_stride == 0 and (step >= self.stride or step % 2):\n")]),
    ("C12", "f-empty-first", [(DF, "    delta_f = [\n", "    if state_probs[0] == 0:\n        return [np.nan] * (len(masks) - 1)\n    delta_f = [\n")]),
    ("C08", "f-clip-exponent", [(POT, "np.exp(", "np.exp(-700 + 700 + ")]),  # equivalent
    ("C19", "f-domain-swapped", [(FES, "            ax.set_ylim(plot_domain)", "            ax.set_ylim(min(plot_domain[0], 0), plot_domain[1])")]),
    ("C18", "f-backup-once", [(FES, "            backup_if_exists(filename)\n", "            if step is None or step <= self.write_stride:\n                backup_if_exists(filename)\n")]),
    ("C18", "f-histo-backup-final", [(HA, "backup_if_exists(filename)", "step or backup_if_exists(filename)")]),
    ("C10", "f-reset-twice", [(HA, "if step in self.reset:", "if step in self.reset and step > self.last_update - 1:")]),  # equivalent
    ("C11", "f-kt-of-ld", [(FES, "self.kt = kt or self.histo_action.traj_action.ld.kt", "self.kt = self.histo_action.traj_action.ld.kt if kt == 1.0 else kt or self.histo_action.traj_action.ld.kt")]),
    # ------------------------------------------------------------ seventh batch: several circumstances together
    ("C01", "g-recalc-mult-two", [(BD, "                    beta = self.calc_betas()\n", "                    if self.approx_variant != ApproxVariant.mult or len(event_list) < 3:\n                        beta = self.calc_betas()\n")]),
    ("C01", "g-events-cap", [(BD, "            for i in event_particles:\n", "            for i in event_particles[: max(20, num_part // 2)]:\n")]),
    ("C01", "g-recalc-2d-last", [(BD, "                    beta = self.calc_betas()\n", "                    if len(self.bw) < 2 or len(event_list) < num_part // 2:\n                        beta = self.calc_betas()\n")]),
    ("C01", "g-add-recalc-rate", [(BD, "prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * self.rate_fac)", "prob = 1 - np.exp(-np.abs(beta[i]) * self.dt * (self.rate_fac if self.approx_variant != ApproxVariant.add else max(self.rate_fac, 1)))")]),
    ("C01", "g-stride-factor", [(BD, "self.dt: float = md_dt * stride", "self.dt: float = md_dt * (stride if rate_fac is None or stride < 5 else stride - 1)")]),
    ("C01", "g-partner-big-n", [(BD, "        num = self.rng.integers(num_part - 1)\n", "        num = self.rng.integers(min(num_part - 1, 48))\n")]),
    ("C02", "g-mult-inside-mean", [(BD, "            beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n            beta -= np.mean(beta[beta != -np.inf])", "            corr = self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(len(pos))\n            beta += corr\n            sel = (beta != -np.inf) & ((corr != 0) | (len(pos) <= 10))\n            beta -= np.mean(beta[sel])")]),
    ("C02", "g-add-clip-crowd", [(BD, "                beta += self.approx_grid.interpolate(pos, \"linear\", 0.0).reshape(", "                lim = np.array(self.approx_grid.ranges)\n                cpos = np.clip(pos, lim[:, 0], lim[:, 1]) if len(pos) > 5 and pos.shape[1] > 1 else pos\n                beta += self.approx_grid.interpolate(cpos, \"linear\", 0.0).reshape(")]),
    ("C02", "g-bw-aniso-3d", [(BD, "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i] ** 2))", "gauss_per_dim[i] = heights[i] * np.exp(-dist / (2 * bw[i % 2] ** 2))")]),
    ("C02", "g-kt-mult", [(BD, "            beta += ene * self.inv_kt\n", "            beta += ene * (self.inv_kt if self.approx_variant == ApproxVariant.orig or self.kt < 2 else 0.5)\n")]),
    ("C03", "g-copy-many", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])", "            self.particles[kill] = copy.deepcopy(self.particles[dup]) if len(event_list) < 6 else copy.copy(self.particles[dup])")]),
    ("C03", "g-copy-mass", [(BD, "            self.particles[kill] = copy.deepcopy(self.particles[dup])", "            mass = self.particles[kill].mass\n            self.particles[kill] = copy.deepcopy(self.particles[dup])\n            if self.particles[kill].mass > mass and len(self.bw) > 1:\n                self.particles[kill].mass = mass")]),
    ("C04", "g-heavy-3d", [(BP, "            # second part of thermostat\n", "            if p.mass > 2 and self.pot.n_dim == 3:\n                p.mom[2] = -p.mom[2] if p.mom[2] * p.forces[2] < -50 else p.mom[2]\n            # second part of thermostat\n")]),
    ("C04", "g-c2-late", [(BP, "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * p.mass * self.kt)\n", "        p.c2 = np.sqrt((1 - self.c1 * self.c1) * (p.mass if len(self.particles) < 50 else 1.0) * self.kt)\n")]),
    ("C04", "g-od-forces-cap", [(OD, "            p.pos += self.dt * p.forces +", "            p.pos += self.dt * (np.clip(p.forces, -1e3, 1e3) if self.pot.n_dim > 1 and self.dt > 0.005 else p.forces) +")]),
    ("C04", "g-insert-c2", [(BP, "                self.particles.insert(partnum, p)", "                if partnum < len(self.particles):\n                    p.c2 = self.particles[partnum].c2\n                self.particles.insert(partnum, p)")]),
    ("C05", "g-refl-3d-both", [(POT, "                pos[i] = self.ranges[i][1]\n                mom[i] = -mom[i]", "                pos[i] = self.ranges[i][1]\n                if i < 2 or pos[0] != self.ranges[0][1]:\n                    mom[i] = -mom[i]")]),
    ("C05", "g-per-far-second", [(POT, "pos[i] = min(start + (x - start) % (end - start), end)", "pos[i] = min(start + (x - start) % (end - start), end) if i == 0 or abs(x - start) < 3 * (end - start) else (start + end) / 2")]),
    ("C05", "g-od-refl-force", [(OD, "            p.energy, p.forces = self.pot.evaluate(p.pos)\n\n    def add", "            if self.pot.boundary_condition is None or len(self.particles) < 3 or (p.pos != self.pot.ranges[0][1]).all():\n                p.energy, p.forces = self.pot.evaluate(p.pos)\n\n    def add")]),  # caught by C04, whose forces these are
    ("C09", "g-mom-neighbour", [(TR, "save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i]]", "save_data = np.c_[save_times, save_pos[:, i], save_momentum[:, i if self.stride == 1 or i < 4 else i - 1]]")]),
    ("C09", "g-mom-stride-last", [(TR, "self.momentum, step, self.stride, 1, self.last_write\n", "self.momentum, step, self.stride, 1, self.last_write if self.ld.pot.n_dim < 3 else max(self.last_write, step - self.write_stride)\n")]),  # equivalent
    ("C09", "g-fmt-3d", [(TR, "                        fmt=self.write_fmt,", "                        fmt=self.write_fmt if save_data.shape[1] < 6 else \"%14.9f\",")]),
    ("C10", "g-reset-2d", [(HA, "            self.last_update = step  # also drop data that was not added yet", "            if self.histo.n_dim == 1 or self.update_stride == 1:\n                self.last_update = step  # also drop data that was not added yet")]),
    ("C10", "g-reset-write", [(HA, "        if self.write_stride and step % self.write_stride == 0:\n            self.write(step)\n        if step in self.reset:", "        if self.write_stride and step % self.write_stride == 0 and not (step in self.reset and len(self.reset) > 2):\n            self.write(step)\n        if step in self.reset:")]),
    ("C10", "g-stride-offset", [(HA, "            self.stride,\n            1,", "            self.stride if not (self.reset and step > self.reset[-1] and self.stride > 2) else 1,\n            1,")]),
    ("C11", "g-plot-inf-inplace", [(FES, "    ax = plt.axes()\n", "    ax = plt.axes()\n    if len(fes.shape) == 2 and plot_domain is not None:\n        fes[np.isinf(fes)] = plot_domain[1]\n")]),
    ("C11", "g-delta-inplace", [(DF, "    probabilities = np.exp(-fes / float(kt)).reshape((-1))\n", "    if len(masks) > 2 and fes.ndim == 2:\n        np.clip(fes, None, 300 * kt, out=fes)\n    probabilities = np.exp(-fes / float(kt)).reshape((-1))\n")]),
    ("C11", "g-kt-reset", [(FES, "            self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride", "            self.fes = calculate_fes(self.histo_action.histo, self.kt if not self.histo_action.reset or step < self.histo_action.reset[0] else self.histo_action.traj_action.ld.kt)\n        if self.write_stride")]),
    ("C12", "g-kt-ld", [(DF, "        self.kt = self.fes_action.kt\n", "        self.kt = self.fes_action.kt if len(masks) < 3 or not filename else self.fes_action.histo_action.traj_action.ld.kt\n")]),
    ("C12", "g-empty-reuse", [(DF, "            self.delta_f[row, 1:] = calculate_delta_f(\n                self.fes_action.fes.data, self.kt, self.masks\n            )\n", "            values = calculate_delta_f(self.fes_action.fes.data, self.kt, self.masks)\n            if row > 0 and not np.isfinite(values).any():\n                values = self.delta_f[row - 1, 1:]\n            self.delta_f[row, 1:] = values\n")]),
    ("C12", "g-masks-mutual", [(DF, "        self.masks = masks\n", "        self.masks = masks if len(masks) < 4 else masks[:3] + [m & ~masks[0] for m in masks[3:]]\n")]),
    ("C13", "g-overlap-3d", [(PD, "        pos = np.array([p.pos for p in self.particles])\n", "        pos = np.array([p.pos for p in self.particles])\n        if pos.shape[1] == 3:\n            pos = np.round(pos, 6)\n")]),
    ("C14", "g-reset-some", [(BD, "            self.stats.print(step)\n\n    def final_run", "            self.stats.print(step, bool(self.stats.stats_filename) and self.recalc_probs and step > 5 * self.stats_stride)\n\n    def final_run")]),
    ("C14", "g-mult-attempts", [(BD, "            self.stats.dup_attempts += np.count_nonzero(beta < 0)\n", "            self.stats.dup_attempts += np.count_nonzero(beta < 0) if self.approx_variant != ApproxVariant.mult else num_part - curr_kill_attempts\n")]),
    ("C14", "g-coprime", [(BD, "        if self.stats_stride and step % self.stats_stride == 0:\n", "        if self.stats_stride and step % self.stats_stride == 0 and not (step % self.stride and self.stats.stats_filename and self.recalc_probs):\n")]),
    ("C15", "g-fes-touches", [(FES, "        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        self.write()", "        self.fes = calculate_fes(self.histo_action.histo, self.kt)\n        if self.write_stride and self.plot_stride:\n            self.histo_action.histo.clear()\n        self.write()")]),  # equivalent: the histogram is written before
    ("C15", "g-pd-sorts", [(PD, "        pos = np.array([p.pos for p in self.particles])\n", "        if len(self.particles) > 5:\n            self.particles.sort(key=lambda p: p.pos[0])\n        pos = np.array([p.pos for p in self.particles])\n")]),
    ("C17", "g-mb-ranges", [(M, "            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]\n", "            pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]\n            if ld.pot.energy(pos) > 1e3:\n                pos = [rng.uniform(start, end) for start, end in ld.pot.ranges]\n")]),
    ("C17", "g-frac-many", [(M, "counts[0] += options[\"number\"] - np.sum(counts)", "counts[0 if len(counts) < 4 else -1] += options[\"number\"] - np.sum(counts)")]),
    ("C17", "g-pos-mass", [(M, "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass)", "ld.add_particle(rng.choice(init_pos_choices, axis=0), mass if len(init_pos_choices) < 5 else 1.0)")]),
    ("C18", "g-numbered-collide", [(HA, "filename = f\"{self.filename}_{step}\"", "filename = f\"{self.filename}_{step}\" if not self.reset or step < max(self.reset) else f\"{self.filename}_{step % (max(self.reset) + 1) or step}\"")]),
    ("C19", "g-title-domain", [(FES, "                plot_title = f\"{self.plot_title}_{step}\"", "                plot_title = f\"{self.plot_title}_{step}\" if self.plot_domain is None or self.fes.n_dim == 2 else self.plot_title")]),
    ("C19", "g-domain-2d-neg", [(FES, "            vmin, vmax = plot_domain\n", "            vmin, vmax = plot_domain\n            vmin = vmin or None\n")]),  # equivalent: the minimum is zero
    ("C19", "g-inf-2d", [(FES, "            fes.T,  #", "            (fes if plot_domain is None else np.minimum(fes, plot_domain[1])).T,  #")]),
    ("C08", "g-npoints-3d", [(POT, "        prob /= np.sum(prob.data) * np.prod(prob.stepsizes)\n", "        prob /= np.sum(prob.data) * (np.prod(prob.stepsizes) if self.n_dim < 3 else prob.stepsizes[0] * prob.stepsizes[1] * prob.stepsizes[-2])\n")]),
    ("C16", "g-two-problems", [(IN, "raise OptionError", "raise OptionError")]),  # equivalent (runs as a control)
]
