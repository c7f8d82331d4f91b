"""Gradient and Jacobian are the derivatives of the objective and the constraints; bounds and start are as given."""
from . import _opt

ID = "C15"
PROGS = ["opt"]
REAL, STUB = _opt.REAL, _opt.STUB
ASSUME = ["differences of the interface's own values at three step widths give the true slopes, and at ten widths down to tiny ones where an entry disagrees; slopes whose error estimate is above two percent, slopes at kinks and slopes whose differences do not settle are left out (counted)",
          "problems without random loads"]
RULE = ("random problems on random combinations of state, control and constraint grids (aligned, coarser, finer, overhanging, single constraint times), synthetic and real networks; one instance is asked at several "
        "points in random order and with failing requests in between; slopes along random directions and single controls are compared with gradient and Jacobian, the values with an independent sum over a "
        "separate simulation, structure, sizes, bounds and start with the input. Distinct by the hash of all answers.")


def generate(rng, tier, index):
    net = rng.random() < .25
    p = _opt.network(rng) if net else _opt.synthetic(rng)
    if not net and rng.random() < .8:
        p["constraints"] = max(1, p["constraints"])
        p["K"] = p["K"] or [rng.randrange(9)]
    pts = _opt.points(rng, net)
    steps = []
    for _ in range(rng.choice([1, 2, 3])):
        order = ["f", "grad", "g", "jac"]
        rng.shuffle(order)
        s = {"point": rng.randrange(len(pts)), "order": order, "columns": rng.choice([2, 5, 8])}
        if rng.random() < .25:
            steps.append(dict(s, faults=[_opt.fault(rng)]))
        steps.append(s)
    return {"mode": "deriv", "problem": p, "points": pts, "steps": steps, "seed": rng.randrange(1 << 30), "mem": _opt.mem(rng)}


def run(case, env):
    _opt.run(case, env, ID)


shrink = _opt.shrink
