"""The state cache hands out exactly the states of the requested data."""
from . import _opt

ID = "C17"
PROGS = ["opt"]
REAL, STUB = _opt.REAL[1:], _opt.STUB
ASSUME = ["problems without random loads", "a request that failed because of a passing fault may be refused again", "states simulated while a fault fired are compared loosely (a retried step ends elsewhere within the solver tolerance)"]
RULE = ("random histories of up to 40 requests (refresh and supply) over pools of controls, time grids and initial states whose members differ in single entries, some failing for ever, with numerical faults and "
        "exceptions injected into single requests; every answer is compared bit for bit with a simulation on a new evolver, every refusal must be shared by it or follow a fault. Distinct by the hash of all answers.")


def generate(rng, tier, index):
    net = rng.random() < .15
    p = _opt.network(rng) if net else _opt.synthetic(rng)
    if not net:
        p["T"] = _opt.grid(rng, 3) if rng.random() < .7 else p["T"]
        p["U"] = [p["T"][0] - .5] + [p["T"][0] + (p["T"][-1] - p["T"][0]) * f for f in sorted(rng.uniform(0, 1) for _ in range(rng.choice([0, 1, 3])))] + [p["T"][-1] + .5]
    p["rules"] = [r for r in _opt.rules(rng, net) if r["kind"] == "simulation"]
    nc, ng, ni = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 1, 2]), rng.choice([0, 1, 1, 2])
    controls = [{"of": rng.randrange(i + 1), "how": rng.choice(["one", "last", "last", "grid", "ends", "more", "all"]), "at": rng.randrange(64), "delta": rng.choice([.5, 1e-3, 1e-9, 1e-12, 1e-14, 2.0, 3.0])} for i in range(nc)]
    grids = [{"of": rng.randrange(i + 1), "how": rng.choice(["short", "drop", "first", "add", "move", "move", "nudge"])} for i in range(ng)]
    inits = [{"of": rng.randrange(i + 1), "how": rng.choice(["one", "last"]), "at": rng.randrange(64), "delta": rng.choice([.1, 1e-3, 1e-6, 1e-12])} for i in range(ni)]
    trouble = rng.choice([0, 0, .15, .4])
    steps = []
    for _ in range(rng.choice([3, 6, 12, 25, 40]) if not net else rng.choice([3, 6, 12])):
        if steps and rng.random() < .35:
            s = dict(rng.choice(steps[-4:]))
            s.pop("faults", None)
        elif steps and rng.random() < .5:   # differs in one respect from the one before
            s = dict(steps[-1])
            s.pop("faults", None)
            a = rng.choice(["control", "grid", "init"])
            s[a] = rng.randrange({"control": nc, "grid": ng, "init": ni}[a] + 1)
        else:
            s = {"control": rng.randrange(nc + 1), "grid": rng.randrange(ng + 1), "init": rng.randrange(ni + 1)}
        s["supply"] = rng.random() < .7
        if rng.random() < trouble:
            s["faults"] = [_opt.fault(rng)]
            s["faults"][0]["where"] = rng.choice(["evaluate", "evaluate", "prepare", "dnew"])
            s["faults"][0]["act"] = rng.choice(["nan", "throw", "const"]) if s["faults"][0]["where"] == "evaluate" else "throw"
        steps.append(s)
    return {"mode": "cache", "problem": p, "controls": controls, "grids": grids, "inits": inits, "steps": steps, "mem": _opt.mem(rng)}


def run(case, env):
    _opt.run(case, env, ID)


shrink = _opt.shrink
