"""Small systems set up through the program's own input, then moved by hand"""
import types

import numpy as np

from . import choice, env, inputs
from .core import Violation


def coeffs_file(coeffs):
    """{(i, j, ..): c} -> content of a coefficient file"""
    return "\n".join(
        ["#! FIELDS idx pot.coeffs"]
        + [" ".join(str(i) for i in k) + f" {c!r}" for k, c in coeffs.items()]
    ) + "\n"


def potential(coeffs, ranges, bc=None):
    """Section and files of a polynomial potential, coeffs {(i, j, ..): c}"""
    dim = len(ranges)
    sec = {"type": "polynomial", "n_dim": dim, "boundary-condition": bc}
    files = {}
    if dim == 1:
        n = max(k[0] for k in coeffs) + 1
        sec["coeffs"] = [float(coeffs.get((i,), 0.0)) for i in range(n)]
        sec["min"], sec["max"] = float(ranges[0][0]), float(ranges[0][1])
    else:
        sec["coeffs-file"] = "pot.coeffs"
        files["pot.coeffs"] = coeffs_file(coeffs)
        sec["min"] = [float(r[0]) for r in ranges]
        sec["max"] = [float(r[1]) for r in ranges]
    return sec, files


def ld_section(kind="bussi-parinello", dt=0.01, n_steps=5, friction=1.0, kt=1.0, seed=None):
    sec = dict(type=kind, timestep=float(dt), n_steps=n_steps, seed=seed)
    if kind == "bussi-parinello":
        sec.update(friction=float(friction), kt=float(kt))
    return sec


def build(n, dim, pot, files=None, start=None, mass=None, choice_rng=False, ld=None, **sections):
    """Set up n walkers on one start position, stop before the first step"""
    start = start if start is not None else [0.0] * dim
    text = inputs.text(
        ld=ld or ld_section(),
        potential=pot,
        particles={
            "number": n,
            "initial-distribution": "fractions-pos",
            "pos1": [float(x) for x in start],
            "fractions": [1.0],
            "mass": mass,
        },
        **sections,
    )
    got = env.build(text, files)
    if len(got.ld.particles) != n:
        raise Violation(f"{len(got.ld.particles)} walkers instead of {n}")
    if choice_rng:
        env.rng_to_choice(got.ld)
        if got.bd is not None:
            env.rng_to_choice(got.bd)
    return types.SimpleNamespace(ld=got.ld, bd=got.bd, got=got)


def momentum(p, values):
    """New momentum array: like the integrators, never written into the old one"""
    return np.zeros(len(p.pos)) + np.asarray(values, float)


def set_walker(ld, i, pos, mom=None, mass=None):
    p = ld.particles[i]
    p.pos[:] = pos
    if mom is not None:
        p.mom = momentum(p, mom)
    if mass is not None:
        p.mass = mass
    p.energy, p.forces = ld.pot.evaluate(p.pos)
    return p


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    with np.errstate(all="ignore"):
        near = np.abs(a - b) <= tol * (1 + np.abs(b))
    return bool(np.all(same | near))


def with_draws(run, normals=(0.0,), uniforms=(0.5,)):
    """Run once with every draw taking the first value of its alphabet"""
    return choice.run_once(run, [], list(uniforms), list(normals))
