"""C19: content and names of the plots, over all run histories of small systems"""
import os
import re

import numpy as np

from .. import covering, env, ref, runs
from ..core import Violation

RULE = (
    "a case = (dimension, bins, run length, histogram/fes/plot strides, resets, file name, plot-domain); the program runs "
    "completely; every figure is inspected at the moment it is rendered to a file: the curves or image cells at the "
    "coordinates of every bin against the surface the model of the histogram predicts for that step"
)
ASSUMPTIONS = [
    "figures are rendered through matplotlib's canvas (print_figure); the value shown at a coordinate is the one of the "
    "image cell containing it",
]
BOUNDS = {
    "quick": "run length 1..9, plot-stride 1..4, fes stride 1..3, update stride 1..3, resets; 15 file names; 2D with all "
    "shapes up to 4x4 bins and up to 60x50, ranges below, above and containing each other; plots up to step 12000; 1D up to 1200 bins; kT 1e-3 to 1e4; all pairs and triples of 14 settings together",
    "thorough": "run length 1..14, plot-stride 1..6, fes stride 1..4, all shapes up to 6x6 bins",
}

MAGIC = {".png": b"\x89PNG", ".pdf": b"%PDF", ".svg": b"<?xml", ".jpg": b"\xff\xd8", ".eps": b"%!PS", ".PNG": b"\x89PNG", ".jpeg": b"\xff\xd8", "": b"\x89PNG"}
V = {
    1: lambda x: 0.25 * x[0] ** 2,
    2: lambda x: 0.25 * x[0] ** 2 + 0.5 * x[1],
}


def shown_on_image(im, x, y):
    """value of an AxesImage or QuadMesh at a coordinate"""
    from matplotlib.collections import QuadMesh
    from matplotlib.image import AxesImage

    if isinstance(im, AxesImage):
        a = im.get_array()
        left, right, bottom, top = im.get_extent()
        rows, cols = a.shape[:2]

        def cell(v, lo, hi, n):
            if hi == lo:
                return 0
            i = (v - lo) / (hi - lo) * n
            k = int(np.floor(i + 1e-9))
            if k == n and abs(i - n) < 1e-6:
                k = n - 1
            return k if 0 <= k < n else None

        c = cell(x, left, right, cols)
        lo, hi = (bottom, top) if im.origin == "lower" else (top, bottom)
        r = cell(y, lo, hi, rows)
        return None if c is None or r is None else a[r, c]
    if isinstance(im, QuadMesh):
        co = im.get_coordinates()
        a = np.ma.asarray(im.get_array()).reshape(co.shape[0] - 1, co.shape[1] - 1)
        for r in range(a.shape[0]):
            for c in range(a.shape[1]):
                box = co[r : r + 2, c : c + 2].reshape(-1, 2)
                if box[:, 0].min() <= x < box[:, 0].max() and box[:, 1].min() <= y < box[:, 1].max():
                    return a[r, c]
    return None


def finite(v):
    """None for everything that is not drawn"""
    if v is None or v is np.ma.masked:
        return None
    v = float(v)
    return v if np.isfinite(v) else None


def equal(a, b):
    a, b = finite(a), finite(b)
    if a is None or b is None:
        return a is b
    return abs(a - b) <= 1e-9 * (1 + abs(b))


def inspect(case, fig, surface, want, what, step):
    """Compare one figure with the expected surface (array)"""
    from matplotlib.text import Text

    axs = [a for a in fig.get_axes() if a.get_label() != "<colorbar>"]
    mids = surface.midpoints()
    if surface.dim == 1:
        v = [V[1]([x]) for x in mids[0]]
        reference = [x - min(v) for x in v]
        found = {"fes": 0, "ref": 0}
        for ax in axs:
            for line in ax.get_lines():
                xs, ys = np.ma.asarray(line.get_xdata()), np.ma.asarray(line.get_ydata())
                if len(xs) != len(mids[0]):
                    continue
                if not np.allclose(np.asarray(xs, float), mids[0]):
                    raise Violation(f"{what}: curve at coordinates {xs} instead of {mids[0]}")
                hit = [n for n, y in (("fes", want), ("ref", reference)) if all(equal(a, b) for a, b in zip(ys, y))]
                if not hit:
                    raise Violation(f"{what}: curve {list(ys)}, surface is {list(want)}, reference {reference}")
                for h in hit:
                    found[h] += 1
                fin = [float(y) for y in want if np.isfinite(y)]
                lo, hi = sorted(ax.get_ylim())
                if case.get("domain"):
                    if not np.allclose([lo, hi], sorted(case["domain"])):
                        raise Violation(f"{what}: shows {lo} to {hi} instead of {case['domain']}")
                elif fin and (min(fin) < lo - 1e-9 or max(fin) > hi + 1e-9):
                    raise Violation(f"{what}: values {min(fin)} to {max(fin)}, but only {lo} to {hi} is shown")
                lo, hi = sorted(ax.get_xlim())
                if lo > mids[0][0] + 1e-9 or hi < mids[0][-1] - 1e-9:
                    raise Violation(f"{what}: shows only the coordinates {lo} to {hi}")
        for k, n in found.items():
            if not n:
                raise Violation(f"{what}: the {k} curve is missing")
        if case.get("title"):
            texts = [t.get_text() for t in fig.findobj(Text)]
            hit = [t for t in texts if case["title"] in t and (step is None or str(step) in re.findall(r"\d+", t))]
            if not hit:
                raise Violation(f"{what}: title {case['title']!r}{'' if step is None else ' with the step'} is not shown, only {[t for t in texts if t]}")
        return
    shown = 0
    for ax in axs:
        for im in list(ax.get_images()) + [c for c in ax.collections if hasattr(c, "get_coordinates")]:
            for i, x in enumerate(mids[0]):
                for j, y in enumerate(mids[1]):
                    got = shown_on_image(im, x, y)
                    if not equal(got, want[i, j]):
                        raise Violation(f"{what}: {got} is shown at ({x}, {y}), the surface is {want[i, j]} there:\n{want}")
            if case.get("domain"):
                if not np.allclose(im.get_clim(), case["domain"]):
                    raise Violation(f"{what}: shows {im.get_clim()} instead of {case['domain']}")
            xl, yl = sorted(ax.get_xlim()), sorted(ax.get_ylim())
            if xl[0] > mids[0][0] + 1e-9 or xl[1] < mids[0][-1] - 1e-9 or yl[0] > mids[1][0] + 1e-9 or yl[1] < mids[1][-1] - 1e-9:
                raise Violation(f"{what}: shows only {xl} x {yl}")
            if ax.xaxis_inverted() or ax.yaxis_inverted():
                raise Violation(f"{what}: inverted axis")
            shown += 1
    if shown != 1:
        raise Violation(f"{what}: {shown} images of the surface")


def tree():
    res = {}
    for d, _, names in os.walk("."):
        for n in names:
            p = os.path.normpath(os.path.join(d, n))
            if p.startswith("data/"):  # not of the plots
                continue
            with open(p, "rb") as f:
                res[p] = f.read()
    return res


def check(case, cov):
    from matplotlib.backend_bases import FigureCanvasBase

    nb = case["bins"]
    dim = len(nb)
    n, walkers = case["n"], case.get("walkers", 2)
    fs, ps, tws = case.get("fs"), case.get("ps"), case.get("tws", 1)
    site = runs.pattern(nb, case.get("gap", True))
    if case.get("empty"):
        site = lambda s, w: None  # noqa: E731
    surface = runs.Surface(n, walkers, nb, case.get("lo", [-2.0, 1.0][:dim]), case.get("h", [0.5, 0.25][:dim]), site, hs=case.get("hs", 1), tws=tws, resets=case.get("resets", ()), fs=fs, kt=case.get("kt", 1.5))
    name = case["name"]
    root, ext = os.path.splitext(name)
    magic = MAGIC[ext]
    final_name = name if ext else name + ".png"
    now = {"step": 0, "done": False}
    shots = []  # (step, done, file name, order)
    problems = []
    orig = FigureCanvasBase.print_figure

    def expected_surface(final):
        if final:
            return surface.fes(surface.counts_final())
        c = surface.counts_of_fes(now["step"])
        if c is None:
            return np.full(nb, np.inf)
        return surface.fes(c)

    def print_figure(self, filename, *a, **kw):
        res = orig(self, filename, *a, **kw)
        # the plot of the end of the run is the one with the given name
        final = now["step"] == n and os.path.normpath(str(filename)) in (os.path.normpath(name), os.path.normpath(final_name))
        shots.append((now["step"], final, str(filename)))
        try:
            inspect(case, self.figure, surface, expected_surface(final), f"{case}: plot {filename} of {'the end' if final else 'step %d' % now['step']}", None if final else now["step"])
        except Violation as v:
            problems.append(str(v))
        return res

    seen = {}

    def script(step, ld):
        after(step - 1)
        now["step"] = step
        from .. import sysb

        for i, pos in enumerate(surface.script(step)):
            sysb.set_walker(ld, i, pos)

    def after(step):
        """files that appeared since the last call"""
        cur = {k: v for k, v in tree().items() if k not in skip}
        new = [k for k, v in cur.items() if k not in seen or seen[k] != v]
        seen.update(cur)
        if step == 0:
            return
        due = ps and step % ps == 0
        if not due and new:
            raise Violation(f"{case}: {new} written at step {step}")
        if due:
            check_file(new, step, cur)

    def check_file(new, step, cur):
        if len(new) != 1:
            raise Violation(f"{case}: {new} instead of one plot at step {step}")
        f = new[0]
        if str(step) not in re.findall(r"\d+", f[len(os.path.commonprefix([f, os.path.normpath(root)])) :]):
            raise Violation(f"{case}: plot of step {step} is named {f}")
        if not cur[f].startswith(magic):
            raise Violation(f"{case}: plot {f} of step {step} starts with {cur[f][:8]}")

    skip = ("in", "pot.coeffs")
    sections = dict(
        trajectories={"write-stride": tws},
        histogram=surface.histogram_options(),
        fes={
            "kt": case.get("kt", 1.5), "stride": fs, "plot-stride": ps, "plot-filename": name,
            "plot-domain": case.get("domain"), "plot-title": case.get("title"),
        },
    )

    if case.get("data"):  # everything else is written as well
        sections["trajectories"]["filename"] = "data/t"
        sections["histogram"].update({"filename": "data/h", "write-stride": 2 * tws})
        sections["fes"].update({"filename": "data/f", "write-stride": 2 * (fs or 1)})
    files = dict(runs.FILES[dim])
    with env.scratch(files), env.scripted_motion(script), env.patched(FigureCanvasBase, "print_figure", print_figure):
        for d in case.get("dirs", []) + ["data"] * bool(case.get("data")):
            os.makedirs(d)
        res = env.run_main(runs.text(n, walkers, dim, **sections))
        if res.status != "ok":
            raise Violation(f"{case}: the run ended with {res.status}: {res.text()[-600:]}")
        if problems:
            raise Violation(problems[0])
        cur = {k: v for k, v in tree().items() if k not in skip}
        new = [k for k, v in cur.items() if k not in seen or seen[k] != v]
    if ps and n % ps == 0:  # the plots of the last step and of the end
        last = [k for k in new if k != os.path.normpath(final_name)]
        check_file(last, n, cur)
        new = [k for k in new if k not in last]
    if [os.path.normpath(final_name)] != new:
        raise Violation(f"{case}: {new} instead of {final_name} at the end of the run")
    if not cur[new[0]].startswith(magic):
        raise Violation(f"{case}: final plot starts with {cur[new[0]][:8]}")
    plots = (n // ps if ps else 0) + 1
    if len(cur) != plots:
        raise Violation(f"{case}: {len(cur)} plot files {sorted(cur)} instead of {plots}")
    if len(shots) < plots:
        raise Violation(f"{case}: only {len(shots)} of {plots} plots were rendered through the canvas")
    cov.trace(len(shots))
    cov.trans(n)
    cov.state(str(case))
    for s in shots:
        cov.outcome((case["bins"], s[0], s[1]))
    cov.sample(f"{case}: {sorted(cur)}")


NAMES = [
    ("fes.png", []), ("fes.pdf", []), ("fes.svg", []), ("fes.jpg", []), ("fes", []), ("fes.v2.png", []), ("a_1.png", []),
    ("out/fes.png", ["out"]), ("out.d/fes", ["out.d"]), ("run 1.png", []), ("./fes.svg", []),
    ("fes.PNG", []), ("Fes.Final.jpeg", []), ("10.png", []), ("fes.eps", []),
]


def gen(tier):
    th = tier == "thorough"
    # names
    for name, dirs in NAMES:
        for bins in ([5], [3, 4]):
            yield dict(bins=bins, n=4, fs=1, ps=2, name=name, dirs=dirs)
            yield dict(bins=bins, n=3, fs=1, name=name, dirs=dirs)
    # histories
    for n in range(1, 15 if th else 10):
        for ps in [None] + list(range(1, 7 if th else 5)):
            for fs in range(1, 5 if th else 4):
                for tws in (1, 2, 3):
                    if tws > 1 and (n + fs + (ps or 0)) % 2:
                        continue
                    yield dict(bins=[5], n=n, fs=fs, ps=ps, tws=tws, name="fes.png")
    for resets in ([2], [3, 5], [4]):
        for ps in (1, 2, 3):
            for hs in (1, 2):
                yield dict(bins=[4], n=6, fs=1, ps=ps, tws=1, hs=hs, resets=resets, name="p.png")
                yield dict(bins=[3, 2], n=6, fs=1, ps=ps, tws=1, hs=hs, resets=resets, name="p.png")
    # shapes and orientation
    top = 7 if th else 5
    for a in range(2, top):
        for b in range(2, top):
            yield dict(bins=[a, b], n=9, fs=3, ps=3 if a == b else None, name="p.png", walkers=4)
    for b in ([2], [9], [30], [100], [250], [1200]):
        yield dict(bins=b, n=8, fs=2, ps=4, name="p.png", walkers=3, gap=False)
    for bins in ([40, 3], [3, 41], [25, 30], [60, 50]):
        yield dict(bins=bins, n=12, fs=3, ps=6, name="p.png", walkers=4)
    # ranges of the axes against each other
    for lo in ([3.0, -2.0], [-9.0, 4.0], [-1.0, -1.0], [50.0, -60.0], [0.0, 0.0]):
        for h in ([0.5, 0.25], [0.125, 2.0], [0.25, 0.25]):
            yield dict(bins=[3, 4], n=9, fs=3, ps=3, name="p.png", walkers=3, lo=lo, h=h)
            yield dict(bins=[4, 2], n=8, fs=3, name="p.png", walkers=3, lo=lo, h=h)
            yield dict(bins=[6], n=9, fs=3, ps=4, name="p.png", walkers=3, lo=lo[:1], h=h[:1])
    # late steps
    for n, ps in ((1002, 500), (2001, 1000), (10002, 5000), (10003, 10001), (12000, 4000)):
        for bins in ([5], [3, 4]):
            yield dict(bins=bins, n=n, fs=1, ps=ps, name="p.png")
    # options
    for dom in ([0.0, 2.0], [0.5, 1.0], [-1.0, 8.5], [0.0, 150.0], [-2500.0, 1e4], [1e-3, 2e-3], [-7.0, -5.0]):
        for bins in ([6], [3, 4]):
            yield dict(bins=bins, n=7, fs=1, ps=3, name="p.png", domain=dom)
    for title in ("some title", "F"):
        for bins in ([6], [3, 4]):
            yield dict(bins=bins, n=4, fs=1, ps=3, name="p.png", title=title)
    for bins in ([4], [3, 3]):
        yield dict(bins=bins, n=3, fs=1, ps=1, name="p.png", empty=True)
        for kt in (0.5, 4.0, 60.0, 1e4, 1e-3):
            yield dict(bins=bins, n=7, fs=1, ps=3, name="p.png", kt=kt)


def check_no_question(case, cov):
    """a plot that cannot be written may end the run, but nobody is asked anything"""
    dim = len(case["bins"])
    surface = runs.Surface(4, 2, case["bins"], [-2.0, 1.0][:dim], [0.5, 0.25][:dim], runs.pattern(case["bins"], True), fs=1, kt=1.5)

    def script(step, ld):
        from .. import sysb

        for i, pos in enumerate(surface.script(step)):
            sysb.set_walker(ld, i, pos)

    with env.scratch(dict(runs.FILES[dim])), env.scripted_motion(script):
        for d in case["dirs"]:
            os.makedirs(d)
        res = env.run_main(
            runs.text(4, 2, dim, trajectories={"write-stride": 1}, histogram=surface.histogram_options(),
                      fes={"kt": 1.5, "stride": 1, "plot-stride": case["ps"], "plot-filename": case["name"]})
        )
    if res.status.startswith(("InputRequested", "EOFError")):
        raise Violation(f"{case}: the program waits for input ({res.status})")
    cov.trace()
    cov.trans()
    cov.state(str(case))
    cov.outcome(res.status)


def gen_no_question(tier):
    for bins in ([5], [3, 4]):
        for ps in (None, 1, 2, 3):
            for name, dirs in (("missing/p.png", []), ("d.png", ["d.png"]), ("d", ["d.png"]), ("d_2.png", ["d_2.png", "d_2_2.png"]), ("d.svg", ["d_2.svg"])):
                yield dict(bins=bins, ps=ps, name=name, dirs=dirs)


FACTORS = {
    "bins": [[5], [30], [3, 4], [4, 4], [12, 3]],
    "n": [1, 4, 9, 13],
    "fs": [1, 2, 3],
    "ps": [None, 1, 3, 4],
    "tws": [1, 2, 3],
    "hs": [1, 2],
    "resets": [[], [2], [3, 6]],
    "name": ["fes.png", "fes", "out/fes.pdf", "fes.v2.svg"],
    "domain": [None, [0.0, 2.0], [0.5, 1.0]],
    "title": [None, "some title"],
    "kt": [0.3, 1.5, 60.0],
    "walkers": [1, 2, 7],
    "gap": [True, False],
    "data": [False, True],
}


def gen_together(tier):
    """all settings together"""
    for c in covering.covering(FACTORS, 2 if tier == "quick" else 3, lambda c: c["n"] > 1 or not c["resets"]):
        yield {**c, "dirs": ["out"] if c["name"].startswith("out/") else []}
    few = {"name": ["fes.png"], "title": [None], "kt": [1.5], "walkers": [2], "domain": [None, [0.0, 2.0]]}
    for c in covering.covering({**FACTORS, **few}, 3, lambda c: c["n"] > 1 or not c["resets"], tries=2):
        yield {**c, "dirs": []}


FAMILIES = {"together": (gen_together, check, 2), "no-question": (gen_no_question, check_no_question, 4), "plots": (gen, check, 4)}
