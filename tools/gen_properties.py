#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)"""
import json, os

A = "bdld/actions/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        dict(
            id=id,
            title=title,
            statement=" ".join(statement.split()),
            quantifier=dict(over=list(over), text=" ".join(text.split())),
            why_tests_cant=" ".join(why.split()),
            anchors=dict(
                files=list(files),
                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                mechanism=[dict(name=n, where=w) for n, w in mechanism],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


prop(
    "C01",
    "A birth-death step removes and copies the right walkers with the right law",
    """A birth-death step over N >= 2 walkers changes the population only through two kinds of events: a walker
    with positive rate is removed by being overwritten with a copy of another walker, and a walker with negative
    rate is copied over another walker, each with probability 1 - exp(-|rate| * interval * rate factor) (interval =
    time between birth-death steps), the other walker being drawn uniformly from the N-1 others and the candidates
    being handled in uniformly random order. By default all rates are those at the beginning of the step and a
    walker that was already overwritten in the step causes no event of its own; with recalculation of the
    probabilities enabled every accepted event is carried out at once and the walkers still to be visited are judged
    by the rates of the changed population. The number of walkers never changes and the step reports exactly the
    (copied, overwritten) pairs it carried out, in order.""",
    ["inputs", "schedules", "configurations"],
    """every population, every assignment of rates, every outcome of every random draw (acceptance, visiting order,
    partner), both modes, every interval and rate factor""",
    """the one regression test replays a single seed of the default mode; the recalculating mode, the visiting
    orders, partner choices and collisions between events are never reached""",
    [A + "birth_death.py"],
    [("do_birth_death event selection", A + "birth_death.py:138"), ("random_other", A + "birth_death.py:220"),
     ("perform_moves", A + "birth_death.py:232")],
    state=[("particles", "list of walkers shared with the integrator", A + "birth_death.py:88")],
    observe=["the shared walker list after the step", "the returned event list"],
)
prop(
    "C02",
    "Birth-death rates follow the chosen approximation for any population",
    """The rate of a walker is log(K*rho) + U/kT minus the mean of that quantity over all walkers, where K*rho is the
    average over all N walkers (itself included) of the normalised Gaussian kernel with the given bandwidth per
    dimension. The additive variant adds -log((K*pi)/pi) + integral of log((K*pi)/pi)*pi at the walker's position,
    the multiplicative variant uses log(K*rho) - log(K*pi) minus its mean instead, pi being the equilibrium density
    on the domain of the potential; outside that domain the tabulated term counts as zero. This holds for every
    number of walkers and every dimension, and a rate never depends on the order of the walkers.""",
    ["inputs", "configurations"],
    """every number of walkers (including above the size where the pairwise matrix is avoided), every placement,
    1 to 3 dimensions, every bandwidth vector, every temperature, every variant""",
    """tests evaluate four walkers in one dimension at one bandwidth and compare with the same code""",
    [A + "birth_death.py", "bdld/main.py", "bdld/grid.py"],
    [("calc_betas", A + "birth_death.py:196"), ("walker_density and its two implementations", A + "birth_death.py:375"),
     ("dens_kernel_convolution / calc_additive_correction", A + "birth_death.py:460"),
     ("bd_prob_density", "bdld/main.py:300")],
    observe=["rates computed for a population"],
)
prop(
    "C03",
    "Walkers own their state: copies are exact and then independent",
    """A walker created by a birth-death copy starts with exactly the position, momentum, mass, energy and forces of
    its source. Afterwards, just as for walkers placed on a common start position, moving, replacing or removing one
    walker never changes the state of any other walker, and integrator, birth-death step and output all act on the
    same current population.""",
    ["histories"],
    "every sequence of placements, insertions, replacements, removals, integrator steps and copy events",
    """no test performs a second operation after a birth-death event, so aliasing between copy and source is
    invisible to them""",
    [A + "birth_death.py", A + "bussi_parinello_ld.py", A + "overdamped_ld.py", "bdld/particle.py", "bdld/main.py"],
    [("deepcopy in perform_moves", A + "birth_death.py:238"), ("array copies in Particle", "bdld/particle.py:29"),
     ("in-place update of pos", A + "bussi_parinello_ld.py:84")],
    observe=["position, momentum, mass, energy, forces of every walker after every operation"],
)
prop(
    "C04",
    "Integrator steps realise the documented Langevin schemes",
    """A Bussi-Parrinello step updates each walker by p <- c1*p + c2*xi, velocity Verlet (p += F dt/2, x += p dt/m,
    boundary condition, new forces, p += F dt/2) and again p <- c1*p + c2*xi', with c1 = exp(-friction*dt/2) and
    c2 = sqrt((1-c1^2)*m*kT). An overdamped step updates x <- x + F dt + sqrt(2 dt)*xi and then applies the boundary
    condition; all xi are independent standard normal numbers, fresh for every walker, dimension and use. After every
    step the stored energy and forces of each walker are those of its new position.""",
    ["inputs", "histories", "configurations"],
    """every potential, start position, momentum, mass, timestep, friction and temperature, every number of walkers
    and steps, every noise realisation""",
    """no test runs an integrator at all; a seeded test could only pin one noise realisation""",
    [A + "bussi_parinello_ld.py", A + "overdamped_ld.py", "bdld/main.py"],
    [("BussiParinelloLD.run", A + "bussi_parinello_ld.py:74"), ("thermostat constants", A + "bussi_parinello_ld.py:60"),
     ("OverdampedLD.run", A + "overdamped_ld.py:68")],
    observe=["walker states after each step", "trajectory files"],
)
prop(
    "C05",
    "Boundary conditions keep every walker inside the potential's range",
    """With a periodic or reflective boundary condition every coordinate of every walker lies within [min, max] of
    the potential after every step, however far the step went. Periodic displaces a coordinate that left the range by
    whole box lengths and leaves the momentum alone; reflective puts it on the wall it crossed and reverses exactly
    that component of the momentum; coordinates inside the range (walls included) and their momenta are never
    altered, and without boundary condition nothing is.""",
    ["inputs", "configurations"],
    "every position and momentum, every box in 1 to 3 dimensions, every boundary condition, both integrators",
    """the test tries two positions that overshoot one wall by less than the box length""",
    ["bdld/potential/potential.py", "bdld/main.py", A + "bussi_parinello_ld.py", A + "overdamped_ld.py"],
    [("apply_boundary_condition_*", "bdld/potential/potential.py:136"), ("selection from input", "bdld/main.py:152")],
    observe=["position and momentum after a step"],
)
prop(
    "C06",
    "Energies are those of the specified potential, forces their exact gradient",
    """At every position the energy is the value of the polynomial with the given coefficients (in up to three
    dimensions, from the input option or from a coefficient file) or the documented Mueller-Brown sum with every term
    multiplied by the scaling factor, plus a constant. The force is the negative gradient of that energy in every
    dimension, whether energy and force are asked for separately or together. Creating or using one potential never
    changes another one.""",
    ["inputs", "configurations", "histories"],
    """every coefficient table and position, 1 to 3 dimensions, every scaling factor, every order of constructing
    and evaluating potentials""",
    """tests evaluate one polynomial at one point; Mueller-Brown, coefficient files and second instances are never
    touched""",
    ["bdld/potential/polynomial.py", "bdld/potential/mueller_brown.py", "bdld/potential/potential.py", "bdld/main.py"],
    [("PolynomialPotential", "bdld/potential/polynomial.py:12"), ("coefficients_from_file", "bdld/potential/polynomial.py:84"),
     ("MuellerBrownPotential", "bdld/potential/mueller_brown.py:18")],
    observe=["energy, force and evaluate of a potential"],
)
prop(
    "C07",
    "Grid values stay attached to their coordinates",
    """In one to three dimensions the points of a grid are listed in row-major order matching its data, so setting a
    grid from a function puts f(x) at x, interpolation returns the stored value at every grid point and the fill
    value outside, and thinning keeps the range and the values. Arithmetic and exp/log act point by point on a new
    grid, never change their operands, and refuse grids with different points. The convolution of a grid with
    a kernel grid centred at zero equals the discrete convolution integral at the coordinates of the returned grid, and a written grid lists each coordinate
    with its own value.""",
    ["inputs", "configurations"],
    "every shape (different point numbers per dimension), every range and content, every operator, both modes of convolution",
    "tests use square or one-dimensional grids, where a wrong axis order cannot be seen",
    ["bdld/grid.py"],
    [("Grid.points / set_from_func / interpolate", "bdld/grid.py:135"), ("arithmetic", "bdld/grid.py:113"),
     ("convolve", "bdld/grid.py:218"), ("from_npoints / from_stepsizes / sparsify", "bdld/grid.py:263")],
    observe=["data, points and axes of a grid", "written grid file"],
)
prop(
    "C08",
    "The equilibrium density is the normalised Boltzmann distribution",
    """For every potential, temperature and grid, the probability density computed on the grid is finite and
    non-negative, proportional to exp(-U/kT) at every grid point and sums to one when multiplied with the volume
    element. Adding a constant to the potential does not change it. The reference free energy at given positions is
    the energy shifted to have its minimum at zero.""",
    ["inputs", "configurations"],
    "every potential in 1 to 3 dimensions, every temperature (deep wells and high walls included), every grid",
    "the test checks a three-point grid of one parabola",
    ["bdld/potential/potential.py", "bdld/grid.py", "bdld/main.py"],
    [("calculate_probability_density", "bdld/potential/potential.py:81"), ("calculate_reference", "bdld/potential/potential.py:65"),
     ("grid used for birth-death", "bdld/main.py:300")],
    observe=["data of the returned grid"],
)
prop(
    "C09",
    "Trajectory files hold every selected step exactly once",
    """Whatever the run length, stride and write-stride, the trajectory file of walker i contains exactly one row for
    each time step that is a multiple of the stride, in increasing order, with the time and the position (and the
    momentum, if requested) walker i had after the birth-death step of that time step. If the program dies after any
    time step, all selected steps up to the last completed multiple of write-stride are already in the file and no
    row is wrong or doubled.""",
    ["configurations", "histories", "crash_points"],
    "every run length, stride, write-stride, number of walkers, dimension, format; every step at which the run stops",
    """the only test calls the row selection helper once; no test writes a trajectory or crosses a buffer wrap""",
    [A + "trajectory_action.py", A + "action.py", "bdld/main.py"],
    [("ring buffer and write()", A + "trajectory_action.py:73"), ("get_valid_data", A + "action.py:28")],
    state=[("last_write", "step of the last write, decides which buffered rows are new", A + "trajectory_action.py:58")],
    observe=["trajectory files after every step"],
)
prop(
    "C10",
    "The histogram counts every sampled position exactly once",
    """The histogram starts empty, and at the end it holds each walker position at a time step that is a multiple of
    the histogram stride and later than the last reset exactly once, in the bin that contains it; positions outside
    the range are not counted. This holds in one to three dimensions and does not depend on run length, on the write-strides or on whether trajectories
    are written to file. Intermediate histogram files, named after their time step, appear at every multiple of the
    histogram's write-stride and hold the selected positions up to the latest multiple of the trajectories'
    write-stride, a reset at that same step taking effect only after the file is written.""",
    ["configurations", "histories"],
    """every run length, histogram stride, trajectory write-stride (dividing each other or not), reset list, number
    of bins and dimension""",
    "there is no test of the histogram action",
    [A + "histogram_action.py", "bdld/histogram.py", A + "trajectory_action.py", A + "action.py"],
    [("run/final_run/get_traj_data", A + "histogram_action.py:99"), ("Histogram", "bdld/histogram.py:9")],
    observe=["histogram files"],
)
prop(
    "C11",
    "The free energy surface mirrors the histogram",
    """Each written free energy surface equals -kT*log(count) per histogram bin (kT being the value given for the
    FES), shifted to have its minimum at zero, and infinite exactly at empty bins, with the bin midpoints as coordinates. A file named after a time step is
    written at every multiple of the FES write-stride, with the surface computed at the latest multiple of the FES
    stride from the histogram of that moment; the file without a time step, written at the end, belongs to the final
    histogram.""",
    ["configurations", "histories", "inputs"],
    "every histogram content, temperature, stride and write-stride, run length, 1 and 2 dimensions",
    "there is no test of the FES action",
    [A + "fes_action.py", "bdld/histogram.py", "bdld/main.py"],
    [("calculate_fes", A + "fes_action.py:180"), ("run/final_run/write", A + "fes_action.py:124")],
    observe=["FES files compared with histogram files and trajectories"],
)
prop(
    "C12",
    "Free energy differences are those of the current surface, row by row",
    """Every row of the free-energy-difference file holds the time and, for each state after the first, -kT*log of
    the ratio of that state's probability to the first state's, summed over the bins whose midpoints lie inside the
    state (boundaries included) of the free energy surface current at that time, in one to three dimensions (kT as for
    that surface). There is
    exactly one row for each time step that is a multiple of the stride (without stride: a single row for the end of
    the run), in order, whatever the run length and write-stride.""",
    ["configurations", "histories", "inputs"],
    "every histogram content, set of states, stride, write-stride, run length and dimension",
    "there is no test of this action",
    [A + "delta_f_action.py", A + "action.py", "bdld/tools.py", "bdld/main.py"],
    [("calculate_delta_f and masks", A + "delta_f_action.py:146"), ("run/final_run/write", A + "delta_f_action.py:93")],
    observe=["free-energy-difference file"],
)
prop(
    "C13",
    "State populations are counted correctly, row by row",
    """Every row of the particle-distribution file holds the time step and, for each state, the number of walkers
    whose position lies inside the state in all dimensions (boundaries included) at that time step, after its
    birth-death events. There is exactly one row for each time step that is a multiple of the stride (without stride:
    a single row for the end of the run), in order, whatever the run length and write-stride; rows due up to the last
    completed multiple of write-stride are on disk when the program dies.""",
    ["configurations", "histories", "crash_points"],
    "every placement of walkers, set of states, stride, write-stride, run length and dimension; every stopping step",
    "there is no test of this action",
    [A + "particle_distribution.py", A + "action.py", "bdld/tools.py", "bdld/main.py"],
    [("count_particles / pos_inside_ranges", A + "particle_distribution.py:98"), ("run/final_run/write", A + "particle_distribution.py:80")],
    observe=["particle-distribution file"],
)
prop(
    "C14",
    "Birth-death statistics count what happened, at the promised times",
    """Birth-death steps take place exactly at the multiples of their stride. The statistics count, from the start of
    the run, each walker considered with positive (negative) rate as one death (birth) attempt and each accepted event
    as one success of its kind, so successes equal the events carried out; one record with the time step is output at
    every multiple of stats-stride - to the stats file if given, to the screen otherwise - or a single one at the end
    of the run if no stats-stride is given.""",
    ["histories", "configurations", "schedules"],
    "every run length, stride and stats-stride, both modes, every outcome of the random draws",
    "tests check one counter after one step, and one print call with hand-set values",
    [A + "birth_death.py", "bdld/main.py"],
    [("run/final_run", A + "birth_death.py:122"), ("Stats", A + "birth_death.py:269")],
    observe=["stats file / screen output", "events carried out"],
)
prop(
    "C15",
    "Seeded runs are reproducible and output never alters the dynamics",
    """Two runs of the same input with seeds given produce identical output, for every integer seed that is accepted,
    for both integrators and with birth-death switched on. Adding, removing or reconfiguring any of the output
    sections (trajectories, histogram, fes, delta-f, particle-distribution, birth-death statistics) leaves the motion
    of every walker unchanged, and so does a longer run for the steps both have in common.""",
    ["configurations", "inputs", "histories"],
    "every seed, every subset of output sections and their strides, every run length",
    "no test runs the program twice, or at all",
    ["bdld/main.py", A + "bussi_parinello_ld.py", A + "overdamped_ld.py", A + "birth_death.py"],
    [("seeding of the generators", "bdld/main.py:160"), ("separate generators per action", A + "birth_death.py:95")],
    observe=["walker positions and momenta at every step", "all output files"],
)
prop(
    "C16",
    "Input files are interpreted as documented, bad ones refused before running",
    """Every documented option given in the input reaches the simulation with the documented type (lists
    comma-separated, values of [DEFAULT] inherited, unknown options ignored), and an optional option left out takes
    its documented default (without a file name nothing is written). An input that lacks a required section or option, has a value that cannot be converted,
    violates a stated range or names an unknown choice (type of integrator or potential, initial distribution,
    boundary condition, approximation variant), or asks for an action without the one it needs, ends the program
    with exit status 1 and an error message naming the offending option or section, before any time step is run.""",
    ["inputs", "configurations"],
    "every section and option, present or absent, with every class of valid and invalid value",
    "the parser has no tests",
    ["bdld/inputparser.py", "bdld/main.py"],
    [("InputOption.parse", "bdld/inputparser.py:76"), ("Input.parse_*", "bdld/inputparser.py:165"), ("error handling in main", "bdld/main.py:55")],
    observe=["exit status and log of the program", "parsed options", "set-up actions"],
)
prop(
    "C17",
    "Initial walkers are placed as requested",
    """Exactly the requested number of walkers with the requested mass and zero momentum is created, and energy and
    forces of each belong to its position. With fixed fractions, position k > 1 gets the rounded-down share of its
    fraction (normalised, so absolute numbers are met exactly) and the first position gets the rest; with random
    positions each walker independently gets one of the listed positions uniformly; with random-global each
    coordinate is drawn uniformly from the range of its own dimension.""",
    ["inputs", "configurations", "schedules"],
    "every number of walkers, list of positions and fractions, dimension, seed, every outcome of the random draws",
    "no test places walkers through the input",
    ["bdld/main.py", A + "bussi_parinello_ld.py", A + "overdamped_ld.py", "bdld/particle.py"],
    [("init_particles", "bdld/main.py:186"), ("add_particle", A + "bussi_parinello_ld.py:96")],
    observe=["walkers before the first step"],
)
prop(
    "C18",
    "Earlier results are never overwritten and every data file names its columns",
    """A run never destroys the content of a data file that existed before it: one in the way is moved to a backup
    name before a new one is started, for every kind of data file the program writes. Every data file starts with a
    header line that names each of its columns, one name per column; the header of a histogram or free energy
    surface also gives the range and the number of bins of each dimension.""",
    ["histories", "configurations"],
    "every set of output files left over from earlier runs, every combination of output sections and strides",
    "no test runs the program where files already exist, or reads a header",
    [A + "trajectory_action.py", A + "histogram_action.py", A + "fes_action.py", A + "delta_f_action.py",
     A + "particle_distribution.py", A + "birth_death.py"],
    [("backup_if_exists before each whole-file write", A + "fes_action.py:156"), ("initialize_file at set-up", A + "trajectory_action.py:67")],
    observe=["directory content after consecutive runs"],
)
prop(
    "C19",
    "Plots show the computed surface and never block a batch run",
    """For one- and two-dimensional systems and a plot file name of a supported image type (or without extension) a plot
    file is produced at every multiple of plot-stride, under a name carrying the time step, and at the end of the run
    under the given name, without ever waiting for user input. Each plot shows the free
    energy surface current at that time, each value at its coordinates (first dimension along the horizontal axis),
    and in one dimension also the reference of the potential; a given plot-domain is the range of values shown,
    and a given plot-title is shown in one-dimensional plots, with the time step in those made during the run.""",
    ["configurations", "histories"],
    "every plot-stride, plot file name, surface and dimension",
    "there is no test of plotting",
    [A + "fes_action.py"],
    [("plot / plot_fes", A + "fes_action.py:160")],
    observe=["figures at the moment they are saved", "attempts to read from standard input"],
)

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
