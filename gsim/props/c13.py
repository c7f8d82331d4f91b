from . import _laws
from ._laws import REAL, STUB, ASSUME, shrink

ID = "C13"
PROGS = ["cli"]
KINDS = "gas,power,coupled".split(",")
RULE = ("random networks (gas,power,coupled; topology, parameters, units, initial, boundary and control courses, time grids, solver settings drawn from the seed) "
        "simulated by the real program under transient file faults, clock and heap variations; some with so few iterations that steps fail and are retried. "
        "A case is non-trivial if the run succeeded and its states.json (counted distinct by content) was judged by the reference at every row.")


def generate(rng, tier, index):
    return _laws.generate(rng, KINDS)


def run(case, env):
    _laws.run(case, env, ID)
