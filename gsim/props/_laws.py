"""Shared by C10-C13: random problem, transient faults, check the results against the reference."""
import json, random
from .. import gen, ref
from ..core import Reject, shrink_list, with_key

REAL = ["command line front end", "JSON input and output", "network construction", "all network components",
        "Newton solver", "time evolution", "file copying (libstdc++ filesystem and streams)"]
STUB = ["system calls (simulated file faults, clock, entropy)", "heap (deterministic, filled)", "JSON schema validator (valijson-style shim with the interface of the missing library)"]
ASSUME = ["the reference in gsim/ref.py states the physics of the documentation", "numerical tolerance: the solver tolerance plus rounding of the recomputation"]


def benign_faults(rng):
    """faults that must not change any result"""
    out = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        op, act = rng.choice([("read", "short"), ("write", "short"), ("sendfile", "short"), ("read", "err"), ("write", "err")])
        f = {"op": op, "act": act, "nth": rng.randrange(1, 12), "len": rng.choice([1, 1, 2, 5])}
        if act == "short":
            f["arg"] = rng.choice([1, 2, 7, 100, 4000])
        else:
            f["err"] = 4   # EINTR
        out.append(f)
    return out


def environment(rng):
    return {
        "clock": {"start_us": rng.choice([0, 1600000000000000, 1735689599999000, 4102444800000000]) + rng.randrange(10 ** 6),
                  "tick_us": rng.choice([0, 1, 1000, 1000000]), "seed": rng.randrange(1 << 30)},
        "mem": {"fill": rng.randrange(0, 6), "seed": rng.randrange(1 << 30), "layout": rng.choice([0, 1]) * rng.randrange(1, 1 << 30)},
        "entropy": rng.randrange(1 << 30),
        "readdir_seed": rng.randrange(1 << 20),
    }


def problem(rng, kinds):
    kind = rng.choice(kinds)
    over = {}
    if rng.random() < 0.25:
        over["maxit"] = rng.choice([1, 2, 3, 4, 6])
    if rng.random() < 0.1:
        over["steps"] = rng.choice([25, 40, 70])
        over["ng"], over["np"] = rng.choice([2, 3]), rng.choice([1, 2, 3])
    return gen.knobs(rng, kind=kind, **over)


def well_posed(k):
    return not k.get("rough_init") and k.get("maxit", 60) >= 40


def generate(rng, kinds):
    k = problem(rng, kinds)
    return {"knobs": k, "faults": benign_faults(rng), "env": environment(rng)}


def scenario(case, args):
    s = dict(case.get("env", {}))
    s["actors"] = [{"kind": "cli", "args": args}]
    s["faults"] = case.get("faults", [])
    return s


def results(env, sub):
    """(states bytes, controls bytes) of the only output directory"""
    t = env.tree(sub + "/output")
    st = [v for n, v in sorted(t.items()) if n.count("/") == 1 and n.endswith("/states.json")]
    ct = [v for n, v in sorted(t.items()) if n.count("/") == 1 and n.endswith("/controls.json")]
    return (st[0] if st else None), (ct[0] if ct else None)


def run(case, env, prop):
    files = gen.build(case["knobs"])
    env.put("c", files)
    r = env.sim("cli", scenario(case, ["run", "c"]))
    a = r.get("actors", [{}])[0]
    ok = r["signal"] == 0 and a.get("status") == "exit" and a.get("rc") == 0
    env.count("runs with results" if ok else "runs ended with an error")
    if "retrying timestep" in r["stdout"]:
        env.count("runs with retried steps")
    if not ok:
        if well_posed(case["knobs"]) and ref.power_flow_exists(files):
            env.violate("no-result", "a well-posed simulation did not succeed: signal %s, status %s, output ...%s" % (
                r["signal"], a.get("status"), r["stdout"][-400:]))
        return
    st, _ = results(env, "c")
    env.note(st)
    env.nontrivial = True
    env.interleaving(st)
    try:
        states = json.loads(st)
    except (ValueError, TypeError) as e:
        env.violate("unreadable", "states.json of a successful run is not valid JSON: %s" % e)
        return
    ref.regimes.clear()
    try:
        found = ref.check(files, states)
    except (KeyError, IndexError, TypeError) as e:
        found = [("C13", "results have an unexpected structure: %s: %s" % (type(e).__name__, e)), ("C10", "results have an unexpected structure: %s: %s" % (type(e).__name__, e)),
                 ("C11", "results have an unexpected structure: %s" % e), ("C12", "results have an unexpected structure: %s" % e)]
    for what, m in ref.regimes.items():
        env.count(what, m)
    for p, msg in found:
        if p == prop:
            env.violate("law", msg)
            break
        env.count("law broken for " + p)


SIMPLER = [("extra", 0), ("short", 0.0), ("stoch", 0.0), ("mixed_units", 0), ("rough_init", 0), ("dense_times", 0), ("simplified", True), ("uneven", 0),
           ("wide", 0), ("ctrl_grid", 0), ("controls", 0), ("start", 0), ("retries", 0), ("cells", 1), ("kind", "gas"), ("kind", "power"), ("weights", 0)]


def shrink_knobs(k):
    for a in ("ng", "np", "steps", "cells"):
        lo = 2 if a == "ng" else 1
        for v in (lo, k.get(a, lo) // 2, k.get(a, lo) - 1):
            if lo <= v < k.get(a, lo):
                yield with_key(k, a, v)
    for a, v in SIMPLER:
        if a in k and k[a] != v:
            yield with_key(k, a, v)
    if k.get("maxit", 60) != 60:
        yield with_key(k, "maxit", 60)


def shrink(case):
    if case.get("faults"):
        yield with_key(case, "faults", [])
        for l in shrink_list(case["faults"]):
            yield with_key(case, "faults", l)
    for n, v in list(case.get("env", {}).items()):
        e = dict(case["env"])
        del e[n]
        yield with_key(case, "env", e)
    for k in shrink_knobs(case["knobs"]):
        yield with_key(case, "knobs", k)
