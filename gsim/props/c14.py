"""The optimiser interface answers every request as a freshly built problem would."""
from . import _opt

ID = "C14"
PROGS = ["opt"]
REAL, STUB = _opt.REAL, _opt.STUB
ASSUME = ["requests follow the optimiser's protocol: a request at another point than the one before announces it", "problems without random loads (these draw new noise in every simulation)",
          "answers computed while a fault fired are compared loosely (a retried step ends elsewhere within the solver tolerance)"]
RULE = ("random histories of up to 40 requests (objective, gradient, constraints, Jacobian, structure, bounds, start, size, finalisation) at a pool of points, some of which fail for ever and some of which "
        "differ in one component only, with numerical faults, exceptions and singular linearisations injected into single requests; outputs are poisoned, buffers reused. Every answer is compared with the "
        "answer of a freshly built instance, every refusal must be caused by a fault or be shared by the fresh instance. Distinct by the hash of all answers.")


def generate(rng, tier, index):
    net = rng.random() < .2
    p = _opt.network(rng) if net else _opt.synthetic(rng)
    p["rules"] = _opt.rules(rng, net)
    if not net and len(p["T"]) < 3:
        p["rules"] = [r for r in p["rules"] if r["kind"] != "singular"]
    pts = _opt.points(rng, net)
    steps, at = [], rng.randrange(len(pts))
    stay = rng.choice([.3, .6, .8])
    trouble = rng.choice([0, .1, .3])
    for _ in range(rng.choice([3, 6, 12, 25, 40]) if not net else rng.choice([3, 6, 12])):
        if rng.random() > stay:
            at = rng.randrange(len(pts))
        req = rng.choice(["f", "f", "grad", "grad", "g", "g", "jac", "jac"]) if rng.random() < .93 else rng.choice(["structure", "bounds", "start", "info", "finalize"])
        s = {"req": req, "point": at}
        if rng.random() < .1:
            s["newx"] = True
        if rng.random() < .2:
            s["newbuf"] = True
        if rng.random() < trouble:
            s["faults"] = [_opt.fault(rng) for _ in range(rng.choice([1, 1, 2]))]
        if req == "finalize":
            s["status"] = rng.randrange(0, 6)
        steps.append(s)
    return {"mode": "history", "problem": p, "points": pts, "steps": steps, "mem": _opt.mem(rng)}


def run(case, env):
    _opt.run(case, env, ID)


shrink = _opt.shrink
