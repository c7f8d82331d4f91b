"""Attempts start from the last accepted state, are announced once, bounded, and leave no trace."""
from . import _newton

ID = "C07"
PROGS = ["newton"]
REAL, STUB, ASSUME = _newton.REAL, _newton.STUB, _newton.ASSUME
RULE = ("one history of simulations on one evolver over networks and synthetic systems, with and without controls, in which seeded attempts fail (non-finite values over whole attempts, wrong linearisations, "
        "exceptions). Every call on the problem interface is checked as it happens; runs are compared with a new evolver and with the undisturbed run. Non-trivial: something was evaluated; distinct by the hash of all states evaluated.")


def generate(rng, tier, index):
    return _newton.evolve_case(rng, "retry")


def run(case, env):
    _newton.run(case, env, ID)


shrink = _newton.shrink
