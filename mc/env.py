"""Environment of the model checker: imports bdld from /repo and owns its surroundings

* the empty submodule is stood in for (standin.py), in memory only
* numpy's default_rng is dispatched: real generators by default, choice generators
  while a choice tree is being explored
* the program runs in scratch directories that are removed again
"""
import builtins
import contextlib
import copy
import io
import logging
import os
import shutil
import sys
import tempfile
import types
import warnings

sys.dont_write_bytecode = True
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
REPO = os.environ.get("BDLD_REPO", "/repo")

if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

from . import choice  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

_real_default_rng = np.random.default_rng
_choice_mode = False


def _default_rng(seed=None):
    if _choice_mode:
        return choice.ChoiceRNG(seed)
    return _real_default_rng(seed)


np.random.default_rng = _default_rng
_real_generator = np.random.Generator


class _GeneratorType(type):
    """np.random.Generator(bit_generator) is dispatched like default_rng"""

    def __call__(cls, *args, **kwargs):
        if _choice_mode:
            return choice.ChoiceRNG()
        return _real_generator(*args, **kwargs)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (_real_generator, choice.ChoiceRNG))

    def __getattr__(cls, name):
        return getattr(_real_generator, name)


class _Generator(metaclass=_GeneratorType):
    pass


np.random.Generator = _Generator


@contextlib.contextmanager
def choice_mode():
    """All generators created inside are choice generators"""
    global _choice_mode
    old, _choice_mode = _choice_mode, True
    try:
        yield
    finally:
        _choice_mode = old


def rng_to_choice(obj):
    """Replace generators held in attributes of obj by choice generators"""
    for name, val in list(vars(obj).items()):
        if isinstance(val, _real_generator):
            setattr(obj, name, choice.ChoiceRNG())


class _Capture(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.levelname + ": " + record.getMessage())


log_capture = _Capture()
logging.getLogger().addHandler(log_capture)
logging.getLogger("matplotlib").setLevel(logging.ERROR)

_loaded = None


def load():
    """Import all of bdld from the working tree (once per process)"""
    global _loaded
    if _loaded is None:
        from . import standin

        ns = types.SimpleNamespace()
        with contextlib.redirect_stdout(io.StringIO()):
            ns.standin = standin.install()
            import bdld
            from bdld import grid, histogram, inputparser, main, particle, tools
            from bdld.actions import action, birth_death, bussi_parinello_ld
            from bdld.actions import delta_f_action, fes_action, histogram_action
            from bdld.actions import overdamped_ld, particle_distribution
            from bdld.actions import trajectory_action
            from bdld.potential import mueller_brown, polynomial, potential

        assert os.path.realpath(bdld.__file__).startswith(
            os.path.realpath(REPO) + os.sep
        ), bdld.__file__
        for k, v in list(locals().items()):
            if isinstance(v, types.ModuleType):
                setattr(ns, k, v)
        _loaded = ns
    return _loaded


class InputRequested(Exception):
    """The program tried to read from the user"""


class SetupDone(BaseException):
    """Raised by the harness at the first time step to stop after set-up"""


class Crash(BaseException):
    """Injected crash"""


def _no_input(*_args):
    raise InputRequested("the program waits for user input")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


@contextlib.contextmanager
def scratch(files=None):
    """Private working directory, removed afterwards"""
    base = os.environ.get("BDLDMC_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    d = tempfile.mkdtemp(prefix="bdldmc.", dir=base)
    old = os.getcwd()
    os.chdir(d)
    try:
        for name, content in (files or {}).items():
            if content is None:  # a directory
                os.makedirs(name, exist_ok=True)
                continue
            if os.path.dirname(name):
                os.makedirs(os.path.dirname(name), exist_ok=True)
            with open(name, "wb" if isinstance(content, bytes) else "w") as f:
                f.write(content)
        yield d
    finally:
        os.chdir(old if os.path.isdir(old) else "/")
        shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def patched(obj, name, value):
    old = getattr(obj, name)
    own = name in vars(obj)
    setattr(obj, name, value)
    try:
        yield old
    finally:
        if own or not isinstance(obj, type):
            setattr(obj, name, old)
        else:
            delattr(obj, name)


@contextlib.contextmanager
def scripted_motion(script):
    """Both integrators move their walkers by script(step, ld) instead of physics"""
    b = load()

    def run(self, step=None):
        script(step, self)

    with patched(b.bussi_parinello_ld.BussiParinelloLD, "run", run), patched(
        b.overdamped_ld.OverdampedLD, "run", run
    ):
        yield


@contextlib.contextmanager
def registry():
    """Collect every action instance that gets constructed, by class name"""
    b = load()
    got = types.SimpleNamespace()
    classes = {
        "bp": b.bussi_parinello_ld.BussiParinelloLD,
        "od": b.overdamped_ld.OverdampedLD,
        "bd": b.birth_death.BirthDeath,
        "traj": b.trajectory_action.TrajectoryAction,
        "histo": b.histogram_action.HistogramAction,
        "fes": b.fes_action.FesAction,
        "delta_f": b.delta_f_action.DeltaFAction,
        "pdist": b.particle_distribution.ParticleDistributionAction,
    }
    for k in list(classes) + ["ld"]:
        setattr(got, k, None)
    with contextlib.ExitStack() as stack:
        for key, cls in classes.items():

            def make(key, orig):
                def __init__(self, *a, **kw):
                    orig(self, *a, **kw)
                    setattr(got, key, self)
                    if key in ("bp", "od"):
                        got.ld = self

                return __init__

            stack.enter_context(patched(cls, "__init__", make(key, cls.__init__)))
        yield got


class Result:
    """What one run of the program did"""

    def __init__(self):
        self.status = None  # "ok", "exit <n>" or "<Exception>: <text>"
        self.out = ""
        self.err = ""
        self.log = []
        self.files = {}

    def text(self):
        return self.out + "\n" + "\n".join(self.log)


def read_files(exclude=("in",)):
    """{path relative to the working directory: content}"""
    res = {}
    for folder, _, names in os.walk("."):
        for name in names:
            path = os.path.normpath(os.path.join(folder, name))
            if path not in exclude:
                with open(path, "rb") as f:
                    res[path] = f.read()
    return dict(sorted(res.items()))


def run_main(text, infile="in", argv=None):
    """Run the program in the current directory on the given input text

    Exceptions of the program end up in the status; harness signals pass through.
    """
    b = load()
    res = Result()
    if text is not None:
        with open(infile, "w") as f:
            f.write(text)
    out = io.StringIO()
    err = io.StringIO()
    log_capture.lines = []
    old_argv, old_stdin = sys.argv, sys.stdin
    sys.argv = ["bdld"] + (argv if argv is not None else [infile])
    sys.stdin = io.StringIO("")
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(
            err
        ), patched(builtins, "input", _no_input):
            try:
                b.main.main()
                res.status = "ok"
            except SystemExit as e:
                code = e.code
                if code is None:
                    code = 0
                elif not isinstance(code, int):
                    err.write(str(code))
                    code = 1
                res.status = f"exit {code}"
            except (SetupDone, Crash) as e:
                res.status = type(e).__name__
            except InputRequested as e:
                res.status = f"InputRequested: {e}"
            except Exception as e:
                res.status = f"{type(e).__name__}: {e}"
                res.exc = e
    finally:
        sys.argv, sys.stdin = old_argv, old_stdin
    res.err = err.getvalue()
    res.out = out.getvalue() + res.err
    res.log = list(log_capture.lines)
    res.files = read_files((infile,))
    return res


def build(text, files=None):
    """Set the program up from input text, stop before the first time step

    :return: namespace with the constructed actions (ld, bd, traj, ...)
    """

    def stop(step, ld):
        raise SetupDone

    with scratch(files), registry() as got, scripted_motion(stop):
        res = run_main(text)
    if res.status != "SetupDone":
        raise SetupFailed(res.status + "\n" + res.text()[-2000:])
    got.result = res
    return got


class SetupFailed(Exception):
    """The program refused an input it should accept"""


def data_rows(content):
    """Numeric rows of a data file (bytes), comments and blank lines skipped"""
    rows = []
    for line in content.decode().splitlines():
        line = line.strip()
        if line and not line.startswith("#"):
            rows.append([float(x) for x in line.split()])
    return rows


def snapshot(obj):
    return copy.deepcopy(obj)
