"""Success is reported only for finite states whose residual is within the tolerance."""
from . import _newton

ID = "C06"
PROGS = ["newton"]
REAL, STUB, ASSUME = _newton.REAL, _newton.STUB, _newton.ASSUME
RULE = ("one history of solves on one solver object, or of simulations on one evolver, over networks and synthetic systems (solvable, without root, singular, flat, with poles and undefined regions), with injected "
        "NaN, infinity, overflow, offsets and exceptions in evaluations, NaN, zero, perturbed and throwing linearisations. Non-trivial: something was evaluated; distinct by the hash of all states evaluated.")


def generate(rng, tier, index):
    return _newton.solve_case(rng) if rng.random() < .5 else _newton.evolve_case(rng, "faults")


def run(case, env):
    _newton.run(case, env, ID)


shrink = _newton.shrink
