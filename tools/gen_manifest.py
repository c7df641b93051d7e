"""Writes MANIFEST.json from the check modules"""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "explicit-state search and complete choice trees of the real birth-death step against a reference step",
    "C02": "exhaustive configurations of small populations, exact acceptance probabilities read off choice trees",
    "C03": "complete choice trees of the copy events, object-level monitors on every step",
    "C04": "complete noise trees of the real integrators against the documented schemes",
    "C05": "exhaustive lattice of positions, momenta and ranges through the real boundary handling",
    "C06": "exhaustive enumeration of small coefficient sets and points against direct evaluation",
    "C07": "exhaustive enumeration of small grids and operations against reference arrays",
    "C08": "exhaustive enumeration of small systems against exact references",
    "C09": "exhaustive enumeration of run lengths, strides and write strides, crash after every step",
    "C10": "exhaustive enumeration of run histories against a counting model",
    "C11": "exhaustive enumeration of run histories against a model of the free energy surface",
    "C12": "exhaustive enumeration of state regions and run histories against direct sums",
    "C13": "exhaustive enumeration of state regions and run histories against direct counting",
    "C14": "complete choice trees of whole runs, joint distribution of records against a reference model",
    "C15": "exhaustive products of pairs of runs (self-composition)",
    "C16": "exhaustive enumeration of faults, pairs of faults, section subsets and rewritings of the input",
    "C17": "exhaustive enumeration of placements, complete choice trees of the random ones",
    "C18": "exhaustive enumeration of leftover files and of sequences of runs dying after any step",
    "C19": "exhaustive enumeration of plot histories, figures inspected when rendered",
}
NOTE = (
    "Holds for every execution within the bounds in evidence/{}.json. Trusts numpy, scipy, matplotlib, the reference "
    "models in mc/ and the stand-in for the missing helpers submodule (mc/standin.py)."
)
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c 'import numpy, scipy, matplotlib.pyplot'",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.py {p} quick",
            "thorough_cmd": f"./check.py {p} thorough",
            "technique": "model checking: " + TECH[p],
            "level": "model_checking",
            "level_note": NOTE.format(p),
        }
        for p in sorted(TECH)
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: random generators, motion and rendering are intercepted from the outside.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
