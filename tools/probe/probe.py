#!/opt/venv/bin/python
"""probe.py [names...]: quick trial bugs (see probes.py), each against the check of its own property, in scratch copies.

Prints caught / MISSED; a probe that fails the stable tests is said to be so.
"""
import os, shutil, subprocess, sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(os.path.dirname(HERE))
sys.path.insert(0, HERE)
from probes import PROBES

TREE, VER = "/tmp/probetree%d" % os.getpid(), "/tmp/probeverif%d" % os.getpid()
PY = "/opt/venv/bin/python"


def main():
    names = sys.argv[1:]
    for t in (TREE, VER):
        shutil.rmtree(t, ignore_errors=True)
    shutil.copytree("/repo", TREE, symlinks=True)
    shutil.copytree(ROOT, VER, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))
    missed = []
    for prop, name, edits in PROBES:
        if names and name not in names and prop not in names:
            continue
        subprocess.run(["git", "-C", TREE, "checkout", "-q", "--", "."], check=True)
        for f, old, new in edits:
            p = os.path.join(TREE, "bdld", f)
            s = open(p).read()
            if s.count(old) < 1:
                sys.exit(f"{name}: text not found in {f}:\n{old}")
            open(p, "w").write(s.replace(old, new))
        env = dict(os.environ, BDLD_REPO=TREE, VERIF_SEED="1", VERIF_TIER="quick")
        r = subprocess.run([PY, "check.py", prop, "quick"], cwd=VER, env=env, capture_output=True, text=True)
        ok = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        print(f"{prop} {name}: {'caught' if ok else 'MISSED rc=%d' % r.returncode}", flush=True)
        if not ok:
            missed.append(name)
            if r.returncode not in (0, 1):
                print(r.stdout[-800:], r.stderr[-800:])
    print("missed:", missed)
    for t in (TREE, VER):
        shutil.rmtree(t, ignore_errors=True)


main()
