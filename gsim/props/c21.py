"""Well-posed simulations reach the end: few iterations, transient faults overcome, bounded work."""
import random
from .. import gen, ref
from ..core import Reject, with_key
from . import _cli, _laws, _newton

ID = "C21"
PROGS = ["newton", "cli"]
REAL = _newton.REAL + ["command line front end, file copying, name reservation (a third of the cases)"]
STUB = _newton.STUB + ["system calls (simulated)"]
ASSUME = _newton.ASSUME + ["a step is judged only where an independent undamped Newton iteration with differenced derivatives contracts by a factor of four per iteration; "
                           "the solver may then use twice as many evaluations plus four", "transient faults: non-finite values over at most as many attempts as retries are configured, interrupted and short reads and writes"]
RULE = ("two thirds: histories of well-posed simulations with transient numerical faults (iterations counted against an independent Newton iteration, success required); one third: command line runs of well-posed "
        "problems under interrupted and short file operations, clock faults and co-running instances that must all succeed within a bound of operations and simulated time given by the undisturbed run. "
        "Distinct by the hash of the execution.")


def generate(rng, tier, index):
    if rng.random() < .67:
        return {"api": _newton.evolve_case(rng, "progress")}
    k = gen.knobs(rng, rough_init=0, maxit=60)
    k["steps"] = min(k["steps"], 10)
    e = _laws.environment(rng)
    return {"knobs": k, "env": e, "faults": _laws.benign_faults(rng), "others": rng.choice([0, 0, 0, 1, 2, 3]),
            "sched": {"seed": rng.randrange(1 << 40), "p": rng.choice([.05, .3, .8])}}


def one(env, case, sub, disturbed):
    files = gen.build(case["knobs"])
    env.put(sub, {"c/" + n: v for n, v in files.items()})
    n = 1 + (case["others"] if disturbed else 0)
    sc = {"cwd": env.path(sub), "actors": [{"kind": "cli", "args": ["run", "c"]} for _ in range(n)]}
    if disturbed:
        sc.update(case["env"])
        sc["faults"] = [dict(f, actor=0) for f in case["faults"]]
        if n > 1:
            sc["sched"] = case["sched"]
    else:
        sc["clock"] = dict(case["env"].get("clock", {}), tick_us=1)
    return n, env.sim("cli", sc)


def run(case, env):
    if "api" in case:
        _newton.run(case["api"], env, ID)
        return
    _, a = one(env, case, "a", False)
    n, b = one(env, case, "b", True)
    env.note(a.get("hash"), b.get("hash"))
    env.interleaving(b.get("hash"))
    env.nontrivial = True
    env.count("command line runs", 1 + n)
    for r in (a, b):
        if r["signal"]:
            env.violate("no-success", "a well-posed simulation was ended by signal %d: %s" % (r["signal"], r["stdout"][-300:]))
            return
        for x in r["actors"]:
            if x["status"] != "exit" or x["rc"] != 0:
                if not ref.power_flow_exists(gen.build(case["knobs"])):
                    raise Reject("no power flow")
                env.violate("no-success", "a well-posed simulation did not succeed: %s %s: %s" % (x["status"], x.get("rc"), r["stdout"][-300:]))
                return
    extra = sum(f["len"] for f in case["faults"])
    small = sum(f["len"] for f in case["faults"] if f["act"] == "short")
    if b["events"] > n * (1.5 * a["events"] + 200) + 20 * extra + 20 * small + 60 * n * n:
        env.violate("operations", "the disturbed run took %d operations, the undisturbed one %d (instances: %d)" % (b["events"], a["events"], n))
    tick = case["env"].get("clock", {}).get("tick_us", 0)
    slept = b.get("covered_us", 0) - tick * b.get("clock_reads", b["events"])
    if slept > n * 40000 + 10000:
        env.violate("time", "the disturbed run of %d instances slept for %d simulated microseconds" % (n, slept))


def shrink(case):
    if "api" in case:
        for c in _newton.shrink(case["api"]):
            yield {"api": c}
        return
    for k, v in (("others", 0), ("others", 1), ("faults", []), ("env", {})):
        if case[k] != v and not (k == "others" and v > case[k]):
            yield with_key(case, k, v)
    for i in range(len(case["faults"])):
        yield with_key(case, "faults", case["faults"][:i] + case["faults"][i + 1:])
    for k in _laws.shrink_knobs(case["knobs"]):
        yield with_key(case, "knobs", k)
