"""The matrices of a network are true derivatives, however often they are refreshed in place."""
from . import _laws, _opt
from .. import gen

ID = "C18"
PROGS = ["opt"]
REAL = ["network construction and all components", "matrix handlers", "time evolution and Newton solver (the states met)", "JSON input"]
STUB = ["heap (deterministic, filled)", "the order in which states are visited comes from the simulator"]
ASSUME = ["differences of the components' own values at three step widths give the true derivatives; entries whose error estimate is above two percent and entries at kinks are left out (counted)"]
RULE = ("random gas, power and coupled networks; a history of up to 20 states (met in a simulation or these with scaled, reversed, vanishing, laminar, transitional and turbulent flows, other pressures, voltages and "
        "angles) over which one matrix per kind and orientation is refreshed in place, some refreshes given up in the middle and repeated; each matrix is compared with one built anew, with the coefficients the "
        "components supply, and with differences of the values. Distinct by the hash of all coefficients.")


def state(rng):
    q = {"seed": rng.randrange(1 << 30), "met": rng.randrange(16)}
    x = rng.random()
    if x < .3:
        return q
    q["flow"] = rng.choice([1, -1, 0, 1e-6, 1e-3, .1, 3, -10])
    if x < .9:
        q["flowadd"] = rng.choice([0, 1e-4, 1e-2, 3e-2, .1, .3, 1, 10, 100])
        q["each"] = rng.random() < .6
    if rng.random() < .6:
        q.update(press=rng.choice([.01, .1, .3]), volt=rng.choice([.01, .2]), angle=rng.choice([.01, .3, 1.5]))
    return q


def generate(rng, tier, index):
    kind = rng.choice(["gas", "gas", "power", "coupled", "coupled"])
    k = _laws.problem(rng, [kind])
    k.update(ng=min(k["ng"], 5), np=min(k["np"], 5), cells=min(k["cells"], 3), steps=min(k["steps"], 5), maxit=60, rough_init=0, controls=rng.choice([0, 1, 1]), weights=rng.choice([0, 1]),
             optimize=rng.choice([0, 1]) if kind != "power" else 0)
    steps = []
    for _ in range(rng.choice([2, 3, 5, 10, 20])):
        s = {"seed": rng.randrange(1 << 30), "last": state(rng), "new": state(rng), "control": rng.choice([0, 1, 1, 3, -1, -3]), "columns": rng.choice([4, 10, 25])}
        if rng.random() < .2:
            s["interrupt"] = rng.choice([1, 2, 5, 20])
        steps.append(s)
    return {"mode": "linear", "problem": {"kind": "net", "knobs": k, "bseed": rng.randrange(1 << 30), "evolver": {"maximal_number_of_newton_iterations": 60, "retries": 1, "use_simplified_newton": rng.random() < .5}},
            "simulate": rng.random() < .7, "steps": steps, "mem": _opt.mem(rng)}


def run(case, env):
    _opt.run(case, env, ID)


shrink = _opt.shrink
