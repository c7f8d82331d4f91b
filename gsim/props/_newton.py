"""Shared by C06, C07 and the API part of C21: monitored problems with injected numerical faults."""
import json
from .. import gen
from ..core import Reject, shrink_list, with_key
from . import _laws

REAL = ["Newton solver", "time evolution", "network construction and all components (network problems)", "interpolation of controls", "JSON input"]
STUB = ["the problem behind the solver is wrapped by a monitor that can disturb its answers; a part of the problems is synthetic", "heap (deterministic, filled)",
        "JSON schema validator (shim)"]
ASSUME = ["evaluations are functions of their arguments within one attempt (disturbed ones too)"]

HARD = ["noroot", "square", "flat", "atan", "sqrt", "log", "exp", "steep", "singular", "pole"]


def grid(rng):
    t = rng.choice([0.0, 0.0, 5.0, -3.5, 1e5])
    n = rng.choice([1, 2, 2, 3, 5, 8, 12])
    dt = rng.choice([.01, .1, .1, .5, 1.0])
    out = [t]
    for _ in range(n):
        t += dt * (rng.choice([1, 1, 1, .3, 2]))
        out.append(t)
    return out


def synthetic(rng, hard=0.0):
    T = grid(rng)
    m = rng.choice([0, 0, 1, 2, 3])
    p = {"kind": "syn", "seed": rng.randrange(1 << 30), "n": rng.choice([1, 2, 3, 5, 8]), "controls": m, "T": T, "strength": rng.choice([.3, 1.0, 1.0, 3.0]),
         "redraw": rng.random() < .15, "spread": rng.choice([.5, 1, 1, 3]), "family": "mild"}
    if m:
        u = [T[0]]
        for _ in range(rng.choice([0, 1, 2, 4])):
            u.append(rng.uniform(T[0], T[-1]))
        u = sorted(set(u + [T[-1]]))
        p["uT"] = [u[0]] + [b for a, b in zip(u, u[1:]) if b - a > 1e-6]
        if p["uT"][-1] != T[-1]:
            p["uT"][-1] = T[-1]
        if len(p["uT"]) < 2 or p["uT"][-2] >= p["uT"][-1]:
            p["uT"] = [T[0], T[-1]]
    if rng.random() < hard:
        p["family"] = rng.choice(HARD)
    return p


def network(rng, well=True):
    k = _laws.problem(rng, ["gas", "power", "coupled"])
    k.update(ng=min(k["ng"], 4), np=min(k["np"], 4), cells=min(k["cells"], 3), steps=min(k["steps"], 6), maxit=60, stoch=0.0 if rng.random() < .8 else k["stoch"])
    if well:
        k["rough_init"] = 0
    return {"kind": "net", "knobs": k}


def evolver(rng, mild=True):
    return {"tolerance": rng.choice([1e-6, 1e-6, 1e-8, 1e-9, 1e-4, 1e-2]), "maximal_number_of_newton_iterations": rng.choice([50, 50, 30, 80] if mild else [1, 2, 3, 5, 10, 50]),
            "retries": rng.choice([0, 1, 2, 3, 5]), "use_simplified_newton": rng.random() < .5}


def nsteps(p):
    return len(p["T"]) - 1 if p["kind"] == "syn" else p["knobs"]["steps"]


def transient(rng, p, retries):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if retries < 1:
            break
        s = rng.randrange(1, nsteps(p) + 1)
        if any(f["step"] == s for f in out):
            continue
        out.append({"call": "evaluate", "step": s, "attempt": 1, "alen": rng.randrange(1, retries + 1), "nth": 0, "act": rng.choice(["nan", "allnan", "inf", "const", "const"]), "comp": rng.randrange(8), "arg": 1})
    return out


def wild(rng, p):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 5])):
        call = rng.choice(["evaluate", "evaluate", "jacobian", "jacobian", "prepare"])
        f = {"call": call, "step": rng.choice([-1, 1, rng.randrange(1, nsteps(p) + 1)]), "attempt": rng.choice([0, 1, 1, 2, 3]), "alen": rng.choice([1, 1, 2, 4, 99]),
             "nth": rng.choice([0, 1, 1, 2, 3, 5]), "comp": rng.choice([-1, 0, 1, 2, 5]), "arg": 1.0}
        if call == "evaluate":
            f["act"] = rng.choice(["nan", "nan", "inf", "allnan", "huge", "throw", "offset"])
            f["comp"] = abs(f["comp"])
            f["arg"] = rng.choice([1.0, -1.0, 1e-3, 10.0])
            if f["act"] in ("offset", "huge"):
                f["nth"] = 0   # evaluations stay functions of their arguments within one attempt
        elif call == "jacobian":
            f["act"] = rng.choice(["nan", "inf", "zero", "scale", "noise", "huge", "throw"])
            f["arg"] = rng.choice([.5, 2.0, -1.0, 1e-6, 1e6, .1])
            if f["act"] == "scale" and f["arg"] < 0:
                f["nth"] = 0
        else:
            f["act"] = "throw"
        out.append(f)
    return out


def evolve_case(rng, focus):
    """focus: 'faults', 'retry' or 'progress'"""
    ev = evolver(rng, mild=rng.random() < (.5 if focus == "faults" else .95))
    problems = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < .3:
            problems.append(network(rng))
        else:
            problems.append(synthetic(rng, {"faults": .4, "retry": .15, "progress": 0.0}[focus]))
    if any(p["kind"] == "net" for p in problems):
        ev["tolerance"] = rng.choice([1e-6, 1e-6, 1e-5])
    if focus == "progress":
        for p in problems:
            if p["kind"] == "syn":
                p.update(strength=rng.choice([.3, 1.0]), spread=rng.choice([.3, 1]), dynamic=True)
        ev["maximal_number_of_newton_iterations"] = rng.choice([40, 50, 80])
    runs = []
    for _ in range(rng.choice([1, 1, 2, 3, 4])):
        i = rng.randrange(len(problems))
        p = problems[i]
        r = {"problem": i, "faults": []}
        x = rng.random()
        if focus == "progress":
            if x < .5 and ev["retries"]:
                r["faults"], r["transient"] = transient(rng, p, ev["retries"]), True
            else:
                r["well_posed"] = True
                r["progress"] = True
        elif x < .35 and ev["retries"]:
            r["faults"], r["transient"] = transient(rng, p, ev["retries"]), True
        elif x < .75:
            r["faults"] = wild(rng, p)
        runs.append(r)
    return {"mode": "evolve", "evolver": ev, "problems": problems, "runs": runs, "mem": {"fill": rng.randrange(6), "seed": rng.randrange(1 << 30), "layout": rng.choice([0, 1]) * rng.randrange(1, 1 << 30)}}


def solve_case(rng):
    ev = evolver(rng, mild=rng.random() < .4)
    problems = [network(rng) if rng.random() < .25 else synthetic(rng, .6) for _ in range(rng.choice([1, 2, 3]))]
    runs = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        i = rng.randrange(len(problems))
        r = {"problem": i, "seed": rng.randrange(1 << 30), "faults": [], "full": rng.random() < .6, "newjac": rng.random() < .7, "perturb": rng.choice([0, 0, .01, .1, 1.0, 5.0])}
        x = rng.random()
        if x < .35:
            r["faults"] = wild(rng, problems[i])
        elif x < .45:
            r["bad_start"] = rng.choice([1, 2])
        runs.append(r)
    return {"mode": "solve", "evolver": ev, "problems": problems, "runs": runs, "mem": {"fill": rng.randrange(6), "seed": rng.randrange(1 << 30), "layout": rng.choice([0, 1]) * rng.randrange(1, 1 << 30)}}


def run(case, env, prop):
    sc = dict(case)
    sc["problems"] = []
    for i, p in enumerate(case["problems"]):
        if p["kind"] == "net":
            env.put("p%d" % i, gen.build(p["knobs"]))
            p = {"kind": "net", "dir": env.path("p%d" % i), "deterministic": p["knobs"].get("stoch", 0) == 0}
        sc["problems"].append(p)
    sc["cwd"] = env.path()
    r = env.sim("newton", sc)
    if r["signal"]:
        env.violate("crash", "the simulation was ended by signal %d: %s" % (r["signal"], r["stdout"][-300:]))
        return
    if r.get("setup_error"):
        raise Reject()
    env.note(r.get("hash"), [x.get("ok", x.get("success")) for x in r["runs"]])
    env.interleaving(r.get("hash"))
    env.nontrivial = r.get("evals", 0) > 0
    for k in ("fired", "retried", "judged", "allocfail", "success", "failure", "exceptions", "clean", "compared", "aborted"):
        if r.get(k):
            env.count({"fired": "numerical faults injected", "retried": "retried attempts", "judged": "steps with judged iteration count", "allocfail": "failed allocations",                       "success": "solves reported as success", "failure": "solves reported as failure", "exceptions": "solves ended with an exception",
                       "aborted": "disturbed attempts ended by the solver with an exception", "clean": "transient-fault runs compared with the undisturbed run", "compared": "runs compared with a new evolver"}[k], r[k])
    if case["mode"] == "evolve":
        for x in r["runs"]:
            env.count("simulations ended well" if x["ok"] else "simulations ended with an exception")
    for v in r["violations"]:
        if v["prop"] == prop:
            env.violate(v["key"], v["msg"])
        else:
            env.count("seen for %s: %s" % (v["prop"], v["key"]))


def shrink(case):
    if len(case["runs"]) > 1:
        for l in shrink_list(case["runs"]):
            if l:
                yield with_key(case, "runs", l)
    for i, r in enumerate(case["runs"]):
        for l in shrink_list(r.get("faults", [])) if r.get("faults") else []:
            yield with_key(case, "runs", case["runs"][:i] + [with_key(r, "faults", l)] + case["runs"][i + 1:])
        for j, f in enumerate(r.get("faults", [])):
            for key, val in (("alen", 1), ("comp", 0), ("nth", 0), ("attempt", 1), ("act", "nan")):
                if f.get(key) != val:
                    fs = r["faults"][:j] + [with_key(f, key, val)] + r["faults"][j + 1:]
                    yield with_key(case, "runs", case["runs"][:i] + [with_key(r, "faults", fs)] + case["runs"][i + 1:])
        for key, val in (("perturb", 0), ("full", True), ("newjac", True)):
            if key in r and r[key] != val:
                yield with_key(case, "runs", case["runs"][:i] + [with_key(r, key, val)] + case["runs"][i + 1:])
    for i, p in enumerate(case["problems"]):
        opts = []
        if p["kind"] == "net":
            opts = [with_key(p, "knobs", k) for k in _laws.shrink_knobs(p["knobs"])]
        else:
            if len(p["T"]) > 2:
                opts.append(with_key(p, "T", p["T"][:2] if not p["controls"] else [p["T"][0], p["T"][-1]]))
            for key, val in (("redraw", False), ("spread", 1), ("strength", 1.0)):
                if p[key] != val:
                    opts.append(with_key(p, key, val))
            for n in (1, 2, p["n"] - 1):
                if 1 <= n < p["n"]:
                    opts.append(with_key(p, "n", n))
            if p["controls"]:
                opts.append(with_key(p, "controls", 0))
        for o in opts:
            yield with_key(case, "problems", case["problems"][:i] + [o] + case["problems"][i + 1:])
    if case["mem"]:
        yield with_key(case, "mem", {})
    for key, val in (("retries", 0), ("retries", 1), ("tolerance", 1e-6), ("maximal_number_of_newton_iterations", 50), ("use_simplified_newton", False)):
        if case["evolver"][key] != val:
            yield with_key(case, "evolver", with_key(case["evolver"], key, val))
