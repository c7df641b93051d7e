"""gen.py [ids..]: write /verif/seeded/<id> and validate: build, tests, demo on both trees, own check"""
import json, os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
import seeds

W = "/tmp/seedtree"
want = [a for a in sys.argv[1:] if not a.startswith("-")]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


shutil.rmtree(W, ignore_errors=True)
sh(f"cp -a /repo {W}")
for s in seeds.S:
    if want and s["id"] not in want:
        continue
    sh(f"git -C {W} checkout -q -- .")
    for f, a, b in s["edits"]:
        p = os.path.join(W, f)
        t = open(p).read()
        assert a in t, (s["id"], f, a)
        if "mueller" in f:
            t = t.replace(a, b, 1)
        else:
            assert t.count(a) == 1, (s["id"], f, t.count(a))
            t = t.replace(a, b)
        open(p, "w").write(t)
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(sh(f"git -C {W} diff").stdout)
    open(os.path.join(d, "demo.py"), "w").write("from h import *\n" + s["demo"])
    shutil.copy(os.path.join(HERE, "h.py"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
    t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider test/test_particle.py", cwd=W)
    tests = t.returncode == 0
    ok = sh(f"{d}/demo.sh", cwd="/repo")
    bad = sh(f"{d}/demo.sh", cwd=W)
    line = f"{s['id']:34s} tests={'ok' if tests else 'FAIL'} demo clean={ok.returncode} bug={bad.returncode}"
    if ok.returncode or not bad.returncode:
        line += "\n   " + (ok.stdout + ok.stderr)[-400:] + "\n   " + (bad.stdout + bad.stderr)[-300:]
    elif "FAILED" not in bad.stdout:
        line += "  (bug: " + bad.stderr.strip().split("\n")[-1] + ")"
    if "--check" in sys.argv:
        r = sh(f"./check.py {s['prop']} quick", cwd=ROOT, env=dict(os.environ, BDLD_REPO=W))
        line += f" check={r.returncode}"
        v = [x for x in r.stdout.split("\n") if x.startswith(s["prop"] + ":")]
        line += ("\n      " + v[-1][:250]) if v else "\n      " + (r.stdout + r.stderr)[-300:]
    print(line, flush=True)
shutil.rmtree(W, ignore_errors=True)
