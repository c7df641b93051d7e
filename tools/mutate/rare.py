"""Mutants that only show up rarely: a statement skipped at one late step, one element of a long list replaced, extreme values distorted

rare.py list [FILE..]
rare.py run OUT.jsonl [FILE..] [--skip-done]
"""
import ast, json, os, shutil, sys, time

sys.argv, argv = ["mutate.py", "list", "bdld/tools.py"], sys.argv
import contextlib, io

with contextlib.redirect_stdout(io.StringIO()):
    import mutate as M
sys.argv = argv

HELPER = '''
import numpy as _np
def _mc_item(x):
    if isinstance(x, enumerate):
        return x
    l = list(x)
    if len(l) > 17:
        l[17] = l[0]
    return l
def _mc_value(v, kind):
    if isinstance(v, tuple):
        return tuple(_mc_value(x, kind) for x in v)
    if isinstance(v, list):
        return [_mc_value(x, kind) for x in v]
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, _np.ndarray) and v.dtype.kind != "f" or not isinstance(v, (_np.ndarray, float)):
        return v
    if kind == "single":
        r = _np.asarray(v, _np.float32).astype(float)
    elif kind == "large":
        r = _np.clip(v, -1e4, 1e4)
    elif kind == "small":
        r = _np.where(_np.abs(v) < 1e-7, 0.0, v)
    return r if isinstance(v, _np.ndarray) else float(r)
def _mc_call(o, name, n):
    k = o.__dict__.get(name, 0) + 1
    o.__dict__[name] = k
    return k == n
'''
SKIP = {"__init__", "__str__", "walker_density_grid", "save_fig_interactive", "main", "init_logger", "parse"}


def sites(tree):
    """(statement, function, has self, has step)"""
    res = []

    def walk(f, body):
        for s in body:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, (ast.Raise, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and M.is_text(s.value):
                continue
            res.append((s, f))
            for b in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, b, None), list):
                    walk(f, getattr(s, b))

    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.name not in SKIP and not n.name.startswith(("parse_", "setup_", "__")):
            walk(n, n.body)
    return res


def variants(s, f):
    args = [a.arg for a in f.args.args]
    guards = []
    if "step" in args and f.name == "final_run":
        pass
    elif "step" in args:
        guards += ["step == 53", "step == 1003", "step is not None and step > 2000"]
    elif "self" in args:
        guards += ["_mc_call(self, '_mc', 53)", "_mc_call(self, '_mc', 1003)"]
    if isinstance(s, (ast.AugAssign, ast.Expr)) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
        for g in guards:
            yield "skip if " + g, ("guard", g)
    if isinstance(s, ast.If):
        for g in guards[:2]:
            yield "not if " + g, ("test", g)
    if isinstance(s, ast.For):
        yield "item 17", ("iter", None)
    for i, c in enumerate(x for x in ast.walk(s) if isinstance(x, ast.comprehension) and not isinstance(s, (ast.If, ast.For, ast.With, ast.Try))):
        yield f"item 17 of comprehension {i}", ("comp", i)
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Return)) and s.value is not None and not isinstance(s.value, ast.Constant):
        integer = {"row", "step", "num", "n_dim", "last_write", "n_part", "last_update"}
        target = ast.unparse(s.targets[0] if isinstance(s, ast.Assign) else s.target if not isinstance(s, ast.Return) else ast.Constant(0))
        if target.split(".")[-1] in integer or ast.unparse(s.value) == "step":
            return
        for k in ("single", "large", "small"):
            yield "value " + k, ("value", k)


def mutants(path):
    src = open(os.path.join(M.REPO, path)).read()
    n = len(sites(ast.parse(src)))
    for k in range(n):
        for desc, _ in list(variants(*sites(ast.parse(src))[k])):
            tree = ast.parse(src)
            s, f = sites(tree)[k]
            line, before = s.lineno, ast.unparse(s)
            kind, arg = dict(variants(s, f))[desc]
            if kind == "guard":
                new = ast.If(ast.parse(arg, mode="eval").body, [ast.Pass()], [s])
                tree = Rep(s, new).visit(tree)
            elif kind == "test":
                s.test = ast.BoolOp(ast.And(), [s.test, ast.UnaryOp(ast.Not(), ast.parse(arg, mode="eval").body)])
            elif kind == "iter":
                s.iter = ast.Call(ast.Name("_mc_item", ast.Load()), [s.iter], [])
            elif kind == "comp":
                c = [x for x in ast.walk(s) if isinstance(x, ast.comprehension)][arg]
                c.iter = ast.Call(ast.Name("_mc_item", ast.Load()), [c.iter], [])
            else:
                s.value = ast.Call(ast.Name("_mc_value", ast.Load()), [s.value, ast.Constant(arg)], [])
            text = ast.unparse(ast.fix_missing_locations(tree)) + "\n" + HELPER
            yield dict(id=f"{path}:{line}:{desc}", file=path, line=line, desc=desc, before=before[:120], text=text)


class Rep(ast.NodeTransformer):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def visit(self, n):
        if n is self.a:
            return self.b
        return self.generic_visit(n)


M.mutants = mutants
M.FILES = {k: " ".join(v.split()[:3]) for k, v in M.FILES.items()}
M.SCRATCH = "/tmp/raretree" + os.environ.get("MUT_TAG", "")
if __name__ == "__main__":
    M.main()
