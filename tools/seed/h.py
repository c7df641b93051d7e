"""Small surroundings for a demonstration: stands in for the missing submodule, runs the program in a scratch folder"""
import builtins, contextlib, io, logging, os, shutil, sys, tempfile, types

os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import numpy as np


def _install():
    try:
        import bdld.helpers.misc  # noqa: F401
        import bdld.helpers.plumed_header  # noqa: F401

        return
    except ImportError:
        pass

    class PlumedHeader:
        def __init__(self, fields=None, constants=None, delim=None):
            self.fields, self.constants = list(fields or []), dict(constants or {})

        def __str__(self):
            return "\n".join(["#! FIELDS " + " ".join(self.fields)] + [f"#! SET {k} {v}" for k, v in self.constants.items()])

    def backup_if_exists(name):
        if os.path.exists(name):
            d, base = os.path.split(name)
            n = 0
            while os.path.exists(os.path.join(d, f"bck.{n}.{base}")):
                n += 1
            os.rename(name, os.path.join(d, f"bck.{n}.{base}"))

    def initialize_file(name, fields, constants=None):
        backup_if_exists(name)
        with open(name, "w") as f:
            f.write(str(PlumedHeader(fields, constants)) + "\n")

    def make_ordinal(n):
        return f"{n}th"

    def write_2d_sliced_to_file(filename, data, n_points, fmt="%.18e", header=""):
        with open(filename, "w") as f:
            if header:
                f.write(header + "\n")
            for i in range(n_points[0]):
                np.savetxt(f, data[i * n_points[1] : (i + 1) * n_points[1]], fmt=fmt, comments="")
                f.write("\n")

    def dummy(*a, **k):
        raise NotImplementedError

    pkg = types.ModuleType("bdld.helpers")
    pkg.__path__ = []
    misc = types.ModuleType("bdld.helpers.misc")
    head = types.ModuleType("bdld.helpers.plumed_header")
    for f in (backup_if_exists, initialize_file, make_ordinal, write_2d_sliced_to_file):
        setattr(misc, f.__name__, f)
    head.PlumedHeader = PlumedHeader
    pkg.misc, pkg.plumed_header = misc, head
    sys.modules.update({"bdld.helpers": pkg, "bdld.helpers.misc": misc, "bdld.helpers.plumed_header": head})


_install()
np.seterr(all="ignore")
logging.getLogger("matplotlib").setLevel(logging.ERROR)


@contextlib.contextmanager
def scratch(files=None):
    d, old = tempfile.mkdtemp(prefix="demo."), os.getcwd()
    os.chdir(d)
    try:
        for k, v in (files or {}).items():
            with open(k, "w") as f:
                f.write(v)
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def main(text):
    """run the program in the current folder; 'ok', 'exit n' or the exception"""
    from bdld import main as m

    with open("in", "w") as f:
        f.write(text)
    argv, sys.argv = sys.argv, ["bdld", "in"]

    def no_input(*a):
        raise RuntimeError("asks for input")

    real, builtins.input = builtins.input, no_input
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            m.main()
        return "ok"
    except SystemExit as e:
        return f"exit {e.code}"
    except Exception as e:
        return f"{type(e).__name__}: {e}"
    finally:
        sys.argv, builtins.input = argv, real


def rows(name):
    return [[float(x) for x in l.split()] for l in open(name) if l.strip() and not l.startswith("#")]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def script(move):
    """replace the motion of the walkers: move(step, walkers)"""
    from bdld.actions import bussi_parinello_ld as b, overdamped_ld as o

    olds = [(c, c.run) for c in (b.BussiParinelloLD, o.OverdampedLD)]

    def run(self, step=None):
        move(step, self.particles)
        for p in self.particles:
            p.energy, p.forces = self.pot.evaluate(p.pos)

    for c, _ in olds:
        c.run = run
    try:
        yield
    finally:
        for c, r in olds:
            c.run = r


def check(ok, msg=""):
    if not ok:
        print("FAILED", msg)
        sys.exit(1)


LD = "[ld]\ntype: bussi-parinello\ntimestep: 0.01\nn_steps: {n}\nkt: 1.0\nfriction: 1.0\nseed: 1\n"
POT = "[potential]\ntype: polynomial\nn_dim: 1\ncoeffs: 0, 0.2, -2, 0, 0.5\nmin: -3\nmax: 3\n"
PART = "[particles]\nnumber: {n}\ninitial-distribution: fractions-pos\npos1: 0.5\nfractions: 1\n"
