"""Systematic mutation sweep: which small changes of bdld go unnoticed by all checks?

mutate.py list [FILE..]                 number the mutants
mutate.py run OUT.jsonl [FILE..] [--skip-done]   run them in a scratch copy, one JSON line each

A mutant is one change of one expression or statement. Mutants that fail the stable tests are set aside; for all others the
checks of the properties the file belongs to run until the first one reports a violation.
"""
import ast, copy, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = "/repo"
SCRATCH = "/tmp/muttree"
FILES = {
    "bdld/actions/birth_death.py": "C01 C14 C03 C02 C15 C18",
    "bdld/main.py": "C16 C17 C09 C14 C12 C13 C10 C11 C19 C15 C01 C02 C04 C05 C06",
    "bdld/actions/trajectory_action.py": "C09 C10 C18 C15 C16",
    "bdld/actions/histogram_action.py": "C10 C11 C18 C16",
    "bdld/actions/fes_action.py": "C11 C19 C12 C18 C16",
    "bdld/actions/delta_f_action.py": "C12 C18 C16",
    "bdld/actions/particle_distribution.py": "C13 C18 C16",
    "bdld/actions/action.py": "C09 C10 C12 C13",
    "bdld/actions/bussi_parinello_ld.py": "C04 C03 C05 C17 C15",
    "bdld/actions/overdamped_ld.py": "C04 C03 C05 C17 C15",
    "bdld/potential/mueller_brown.py": "C06 C08 C05",
    "bdld/potential/polynomial.py": "C06 C16 C08",
    "bdld/potential/potential.py": "C05 C08 C06 C04 C16",
    "bdld/grid.py": "C07 C08 C10 C02",
    "bdld/histogram.py": "C10 C11 C07",
    "bdld/inputparser.py": "C16 C17 C12 C13",
    "bdld/particle.py": "C03 C04 C17",
    "bdld/tools.py": "C13 C12",
}
SKIP_FUNCS = {"walker_density_grid", "__str__", "save_fig_interactive", "__repr__"}


def is_text(call):
    """print, logging and the like"""
    f = call.func
    if isinstance(f, ast.Name) and f.id in ("print", "cast"):
        return True
    return isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logging", "log", "cliargs")


class Collector(ast.NodeVisitor):
    """(path to node, description, function that changes the copied node)"""

    def __init__(self):
        self.out = []
        self.func = []

    def add(self, node, desc, new):
        self.out.append((node.lineno, node.col_offset, type(node).__name__, desc, node, new))

    def visit_FunctionDef(self, n):
        if n.name in SKIP_FUNCS:
            return
        for d in n.args.defaults:
            self.visit(d)
        for i, s in enumerate(n.body):
            self.stmt(s)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and is_text(s.value):
            return
        if isinstance(s, ast.Raise):
            return
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr)) or isinstance(s, ast.AnnAssign) and s.value is not None:
            if isinstance(s, (ast.AugAssign, ast.Expr)) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name):
                self.add(s, "deleted", lambda n: ast.Pass())
        if isinstance(s, ast.FunctionDef):
            return self.visit_FunctionDef(s)
        if isinstance(s, ast.If):
            self.add(s.test, "True", lambda n: ast.Constant(True))
            self.add(s.test, "False", lambda n: ast.Constant(False))
        if isinstance(s, (ast.Continue, ast.Break)):
            self.add(s, "deleted", lambda n: ast.Pass())
        if isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.visit(s.value)
            return
        for f, v in ast.iter_fields(s):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                for x in v:
                    self.stmt(x)
            elif f == "handlers":
                for h in v:
                    for x in h.body:
                        self.stmt(x)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, ast.AST):
                        self.visit(x)
            elif isinstance(v, ast.AST):
                self.visit(v)

    def visit_Call(self, n):
        if is_text(n):
            return
        if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for i in range(len(n.args) - 1):
                if ast.dump(n.args[i]) != ast.dump(n.args[i + 1]):

                    def swap(m, i=i):
                        m.args[i], m.args[i + 1] = m.args[i + 1], m.args[i]
                        return m

                    self.add(n, f"arguments {i}, {i+1} swapped", swap)
        name = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
        if name in ("array", "deepcopy", "copy", "abs", "int", "round", "asarray", "list", "float", "sorted", "sum", "ceil", "log", "exp", "sqrt"):
            if len(n.args) >= 1:
                self.add(n, f"{name}() dropped", lambda m: m.args[0])
            elif name == "copy":
                self.add(n, "copy() dropped", lambda m: m.func.value)
        for kw in n.keywords:
            def drop(m, k=kw.arg):
                m.keywords = [x for x in m.keywords if x.arg != k]
                return m

            self.add(n, f"keyword {kw.arg} dropped", drop)
        self.generic_visit(n)

    def visit_JoinedStr(self, n):
        return

    def visit_Compare(self, n):
        alt = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
        for i, o in enumerate(n.ops):
            for a in alt[type(o)]:

                def f(m, i=i, a=a):
                    m.ops[i] = a()
                    return m

                self.add(n, f"{type(o).__name__} -> {a.__name__}", f)
        self.generic_visit(n)

    def visit_BinOp(self, n):
        alt = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}
        if not (isinstance(n.left, (ast.JoinedStr,)) or isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            for a in alt.get(type(n.op), []):

                def f(m, a=a):
                    m.op = a()
                    return m

                self.add(n, f"{type(n.op).__name__} -> {a.__name__}", f)
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        other = ast.And if isinstance(n.op, ast.Or) else ast.Or

        def f(m):
            m.op = other()
            return m

        self.add(n, "and <-> or", f)
        for i in range(len(n.values)):
            def g(m, i=i):
                v = [x for k, x in enumerate(m.values) if k != i]
                return v[0] if len(v) == 1 else ast.BoolOp(m.op, v)

            self.add(n, f"operand {i} dropped", g)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.add(n, f"{type(n.op).__name__} dropped", lambda m: m.operand)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.add(n, "condition negated", lambda m: ast.IfExp(ast.UnaryOp(ast.Not(), m.test), m.body, m.orelse))
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.add(n, f"{v} negated", lambda m: ast.Constant(not v))
        elif isinstance(v, int):
            self.add(n, f"{v} + 1", lambda m: ast.Constant(v + 1))
            self.add(n, f"{v} - 1", lambda m: ast.Constant(v - 1))
        elif isinstance(v, float):
            self.add(n, f"{v} changed", lambda m: ast.Constant(v * 1.05 + 0.01))

    def visit_Subscript(self, n):
        self.generic_visit(n)

    def visit_Tuple(self, n):
        if len(n.elts) == 2 and isinstance(n.ctx, ast.Load):
            self.add(n, "pair swapped", lambda m: ast.Tuple([m.elts[1], m.elts[0]], m.ctx))
        self.generic_visit(n)


class Replace(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, n):
        if n is self.target:
            return ast.copy_location(self.new(n), n)
        return self.generic_visit(n)


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    n = 0
    tree = ast.parse(src)
    c = Collector()
    c.visit(tree)
    seen = {ast.unparse(tree)}
    for k in range(len(c.out)):
        tree = ast.parse(src)
        c = Collector()
        c.visit(tree)
        line, col, kind, desc, node, new = c.out[k]
        before = ast.unparse(node)
        try:
            t = ast.fix_missing_locations(Replace(node, new).visit(tree))
            text = ast.unparse(t)
        except Exception as e:
            print("skip", path, line, desc, e, file=sys.stderr)
            continue
        if text in seen:
            continue
        seen.add(text)
        yield dict(id=f"{path}:{line}:{col}:{desc}", file=path, line=line, desc=desc, before=before[:120], text=text)


def check(verif, pid):
    code = (
        "import sys,importlib; sys.path.insert(0,%r)\n"
        "from mc import core, env\n"
        "m=importlib.import_module('mc.props.%s'); m.FAMILIES.pop('huge',None)\n"
        "core.CASE_TIMEOUT=60\n"
        "sys.exit(core.main(%r,'quick'))\n" % (verif, pid.lower(), pid)
    )
    e = dict(os.environ, BDLD_REPO=SCRATCH)
    p = subprocess.Popen(
        ["/opt/venv/bin/python", "-c", code], cwd=verif, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True
    )
    try:
        out, err = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return "timeout", ""
    msg = [l for l in out.splitlines() if l.startswith(pid + ": ")]
    return p.returncode, (msg[-1][:300] if msg else err[-300:])


def main():
    args = sys.argv[1:]
    skip = "--skip-done" in args
    args = [a for a in args if not a.startswith("--")]
    if args[0] == "list":
        for f in args[1:] or FILES:
            for m in mutants(f):
                print(m["id"], "|", m["before"])
        return
    out = args[1]
    done = set()
    if skip and os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    shutil.rmtree(SCRATCH, ignore_errors=True)
    shutil.copytree(REPO, SCRATCH)
    verif = "/tmp/mutverif" + os.environ.get("MUT_TAG", "")
    shutil.rmtree(verif, ignore_errors=True)
    shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns("seeded", ".git", "replays", "evidence"))
    with open(out, "a") as o:
        for f in args[2:] or FILES:
            orig = open(os.path.join(REPO, f)).read()
            for m in mutants(f):
                if m["id"] in done:
                    continue
                open(os.path.join(SCRATCH, f), "w").write(m.pop("text"))
                t = time.time()
                res = None
                for pid in FILES[f].split():
                    rc, msg = check(verif, pid)
                    if rc != 0:
                        res = (pid, rc, msg)
                        break
                m.update(killed=res[0] if res else None, rc=res[1] if res else 0, msg=res[2] if res else "", s=round(time.time() - t, 1))
                o.write(json.dumps(m) + "\n")
                o.flush()
            open(os.path.join(SCRATCH, f), "w").write(orig)


if __name__ == "__main__" or sys.argv[0] == "mutate.py":
    main()
