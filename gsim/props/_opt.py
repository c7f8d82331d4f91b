"""Shared by C14, C15, C17 and C18: the optimiser interface, the state cache and the assembled matrices."""
import random
from .. import gen
from ..core import Reject, shrink_list, with_key
from . import _cli, _laws

REAL = ["optimiser interface (IpoptWrapper, ImplicitOptimizer)", "state cache", "time evolution and Newton solver", "matrix handlers", "network construction and all components (network problems)",
        "interpolation of controls", "JSON input"]
STUB = ["the optimiser: requests come from the simulator", "the problem behind the interface is wrapped so that evaluations and linearisations can be made to fail; a part of the problems is synthetic",
        "heap (deterministic, filled)"]


def grid(rng, nmin=2):
    t = rng.choice([0.0, 0.0, 5.0, -3.5, 100.5])
    n = rng.choice([x for x in (1, 2, 2, 3, 4, 5, 8) if x >= nmin - 1])
    dt = rng.choice([.05, .1, .1, .5, 1.0])
    out = [t]
    for _ in range(n):
        t += dt * rng.choice([1, 1, 1, .3, 2])
        out.append(t)
    return out


def control_grid(rng, T):
    """contains the span of T; aligned, coarser, finer, shifted or wider"""
    a, b = T[0], T[-1]
    x = rng.random()
    if x < .2:
        U = list(T)
    elif x < .4:
        U = [a] + [t for t in T[1:-1] if rng.random() < .4] + [b]
    elif x < .55:
        n = rng.choice([1, 2, 3, 7])
        U = [a + (b - a) * i / n for i in range(n)] + [b]
    elif x < .7:
        U = []
        for p, q in zip(T, T[1:]):
            U += [p] + ([.5 * (p + q)] if rng.random() < .6 else [])
        U.append(b)
    else:
        U = sorted([a, b] + [rng.uniform(a, b) for _ in range(rng.choice([0, 1, 2, 4]))])
    y = rng.random()
    if y < .15:
        U = [a - rng.choice([.3, 2.])] + U[1:] if rng.random() < .5 else [a - 1.] + U
    if y > .85:
        U = U[:-1] + [b + rng.choice([.3, 2.])] if rng.random() < .5 else U + [b + 1.]
    out = [U[0]]
    for u in U[1:-1]:
        if u - out[-1] > 1e-6 and U[-1] - u > 1e-6:
            out.append(u)
    return out + [U[-1]]


def synthetic(rng, hard=False):
    T = grid(rng)
    U = control_grid(rng, T)
    p = {"kind": "syn", "seed": rng.randrange(1 << 30), "gridseed": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 5, 7]), "controls": rng.choice([1, 1, 2, 3]),
         "constraints": rng.choice([0, 1, 1, 2, 3]), "T": T, "U": U, "K": [rng.randrange(16) for _ in range(rng.choice([1, 1, 2, 3, 5, 9]))] if rng.random() < .7 else list(range(len(T) - 1)),
         "strength": rng.choice([.3, 1.0]), "sparse": rng.choice([.2, .6, 1.0]), "wide_bounds": rng.random() < .3,
         "evolver": {"tolerance": 1e-10, "maximal_number_of_newton_iterations": 50, "retries": rng.choice([0, 1, 3]), "use_simplified_newton": rng.random() < .5}}
    if rng.random() < .25:
        p["S"] = control_grid(rng, [U[0], U[-1]] if rng.random() < .5 else T)
        if p["S"][0] > U[0]:
            p["S"][0] = U[0]
        if p["S"][-1] < U[-1]:
            p["S"][-1] = U[-1]
    return p


def network(rng):
    k = _cli.small_problem(rng, optimize=True)
    k.update(flow=rng.choice([1., 10., 30.]), steps=rng.choice([1, 2, 3, 4, 6]), ctrl_grid=rng.choice([0, 0, 1, 2, 3]), start=rng.choice([0, 100.5, 1600000000]), tol=1e-7, stoch=0.0)
    return {"kind": "net", "knobs": k, "K": [rng.randrange(16) for _ in range(rng.choice([1, 2, 3]))] if rng.random() < .6 else list(range(k["steps"])), "bseed": rng.randrange(1 << 30),
            "evolver": {"maximal_number_of_newton_iterations": 60, "retries": rng.choice([0, 2]), "use_simplified_newton": rng.random() < .3}}


def files_of(p):
    files = gen.build(p["knobs"])
    rng = random.Random(p.get("bseed", 1))
    # bounds that change in time and from element to element
    for name, lo, hi in (("lower_bounds", 0., 1.), ("upper_bounds", 20., 40.)):
        f = files.get("problem/%s.json" % name, {"connections": {}})
        for l in f["connections"].values():
            for e in l:
                for d in e["data"]:
                    d["values"] = [round(rng.uniform(lo, hi), 6)]
    for name, lo, hi in (("constraint_lower_bounds", 1., 30.), ("constraint_upper_bounds", 100., 200.)):
        f = files.get("problem/%s.json" % name, {"nodes": {}})
        for l in f["nodes"].values():
            for e in l:
                for d in e["data"]:
                    d["values"] = [round(rng.uniform(lo, hi), 6)]
    return files


def put(case, env):
    """scenario with the network written to disk"""
    sc = dict(case)
    p = case["problem"]
    if p["kind"] == "net":
        env.put("p", files_of(p))
        p = {x: y for x, y in p.items() if x != "knobs"}
        p["dir"] = env.path("p")
    sc["problem"] = p
    sc["cwd"] = env.path()
    return sc


def run(case, env, prop):
    sc = put(case, env)
    r = env.sim("opt", sc)
    if r["signal"]:
        env.violate("crash", "the simulation was ended by signal %d: %s" % (r["signal"], r["stdout"][-300:]))
        return r
    if r.get("setup_error"):
        raise Reject()
    env.note(r.get("hash"))
    env.interleaving(r.get("hash"))
    c = r.get("counts", {})
    for k, n in sorted(c.items()):
        env.count(k, n)
    env.nontrivial = any(c.get(k) for k in ("answered", "points judged", "matrices refreshed", "states"))
    for v in r["violations"]:
        if v["prop"] == prop:
            env.violate(v["key"], v["msg"])
        else:
            env.count("seen for %s: %s" % (v["prop"], v["key"]))
    return r


def shrink_problem(p):
    if p["kind"] == "net":
        for k in _laws.shrink_knobs(p["knobs"]):
            if k.get("kind") == p["knobs"].get("kind"):
                yield with_key(p, "knobs", k)
        return
    for key, val in (("n", 1), ("n", p["n"] - 1), ("controls", 1), ("constraints", 1), ("sparse", 1.0), ("wide_bounds", False), ("strength", .3)):
        if p.get(key) != val and not (key in ("n",) and val < 1):
            yield with_key(p, key, val)
    if len(p["T"]) > 2:
        a, b = p["T"][0], p["T"][-1]
        yield dict(p, T=[a, b])
        yield dict(p, T=p["T"][:-2] + [b])
    if len(p["U"]) > 2:
        yield dict(p, U=[p["U"][0], p["U"][-1]])
        yield dict(p, U=p["U"][:1] + p["U"][2:])
    if "S" in p:
        q = dict(p)
        del q["S"]
        yield q
    if len(p.get("K", [])) > 1:
        for l in shrink_list(p["K"]):
            if l:
                yield with_key(p, "K", l)


def shrink(case):
    for key in ("steps",):
        if len(case[key]) > 1:
            for l in shrink_list(case[key]):
                if l:
                    yield with_key(case, key, l)
    for i, s in enumerate(case["steps"]):
        for key, val in (("faults", []), ("newx", False), ("newbuf", False), ("columns", 2), ("interrupt", 0)):
            if key in s and s[key] != val:
                yield with_key(case, "steps", case["steps"][:i] + [with_key(s, key, val)] + case["steps"][i + 1:])
    for key in ("points", "controls", "grids", "inits"):
        if len(case.get(key, [])) > 1:
            yield with_key(case, key, case[key][:-1])
    for i in range(len(case["problem"].get("rules", []))):
        yield with_key(case, "problem", with_key(case["problem"], "rules", case["problem"]["rules"][:i] + case["problem"]["rules"][i + 1:]))
    for p in shrink_problem(case["problem"]):
        yield with_key(case, "problem", p)
    for key, val in (("retries", 0), ("use_simplified_newton", False)):
        if case["problem"]["evolver"].get(key) != val:
            yield with_key(case, "problem", with_key(case["problem"], "evolver", with_key(case["problem"]["evolver"], key, val)))
    if case.get("mem"):
        yield with_key(case, "mem", {})


def mem(rng):
    return {"fill": rng.randrange(6), "seed": rng.randrange(1 << 30), "layout": rng.choice([0, 1]) * rng.randrange(1, 1 << 30)}


def points(rng, net):
    pts = [{}]
    for _ in range(rng.choice([1, 2, 3, 4])):
        x = rng.random()
        if x < .5:
            pts.append({"seed": rng.randrange(1 << 30), "scale": rng.choice([.3, 1, 1.5]) * (2 if net else 1)})
        else:
            pts.append({"of": rng.randrange(len(pts)), "comp": rng.randrange(64), "delta": rng.choice([.5, -.3, 1e-3, 1e-7, 1.0])})
    return pts


def fault(rng):
    w = rng.choice(["evaluate", "evaluate", "evaluate", "prepare", "dlast", "dlast", "dcontrol", "singular", "cost", "penalty", "constraint", "dconstraint", "dnew"])
    f = {"where": w, "nth": rng.choice([1, 1, 2, 3, 5, 9]), "len": rng.choice([1, 1, 3, 1000]), "comp": rng.randrange(8)}
    if w == "evaluate":
        f["act"] = rng.choice(["nan", "nan", "throw", "const"])
    else:
        f["act"] = "zero row" if w == "singular" else "throw"
    if w in ("cost", "penalty", "constraint", "dconstraint", "dnew", "dcontrol"):
        f["len"] = 1
    return f


def rules(rng, net):
    out = []
    if rng.random() < .6:
        out.append({"kind": "simulation", "act": rng.choice(["nan", "nan", "throw"]), "comp": rng.randrange(4), "above": rng.choice([2.5, 4.0]) if net else rng.choice([.8, 1.2, 1.5])})
    if rng.random() < .3:
        out.append({"kind": rng.choice(["derivative", "singular"]), "act": "throw", "comp": rng.randrange(4), "above": rng.choice([1.5, 3.0]) if net else rng.choice([.5, .9])})
        if out[-1]["kind"] == "singular":
            out[-1]["act"] = "zero row"
    return out
