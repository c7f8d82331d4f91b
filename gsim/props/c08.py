"""Two runs of the same problem in different environments give the same bytes."""
import json
from .. import gen
from ..core import Reject, with_key
from . import _cli, _laws

ID = "C08"
PROGS = ["cli"]
REAL, STUB = _cli.REAL, _cli.STUB
ASSUME = ["co-running instances and earlier runs in the same process are modelled as threads of one process",
          "stale memory is modelled by filling every heap block and the stack before use with one of several patterns",
          "address space layout is modelled by taking small heap blocks from one of nine regions in a seeded order"]
RULE = ("one random problem (simulation with seeded random loads, or optimisation) is run twice from identical files in two environments that differ in clock (start, ticks, jumps), directory listing "
        "order, entropy, content of fresh heap and stack memory, order of heap addresses, short and interrupted reads and writes, spelling of the path, depth of the working directory, co-running instances under a seeded "
        "schedule, and other runs before in the same process. Non-trivial: both runs ended and the environments differ in at least three of these; distinct by the pair of executions.")


def environment(rng):
    e = _laws.environment(rng)
    if rng.random() < 0.3:
        e["clock"]["jumps"] = [[rng.randrange(1, 20), rng.choice([-10 ** 7, 3600 * 10 ** 6, -1000, 1000])] for _ in range(3)]
    return e


def generate(rng, tier, index):
    opt = rng.random() < 0.06
    if opt:
        k = _cli.small_problem(rng, optimize=True)
    else:
        over = {"stoch_seed": 1}
        if rng.random() < 0.3:
            over["maxit"] = rng.choice([2, 3, 4, 6])
        if rng.random() < 0.3:
            over.update(stoch=rng.choice([.5, 1.]), sigma=0.02)
        k = gen.knobs(rng, **over)
    side = lambda: {"env": environment(rng), "faults": _laws.benign_faults(rng), "path": rng.choice(["c", "c", "./c", "c/", "../w/c", "ABS", "c/problem/.."]),
                    "deep": rng.choice(["w", "w", "w/sub/dir/very/deep"]), "others": rng.choice([0, 0, 0, 1, 2]), "before": rng.choice([0, 0, 0, 1]),
                    "sched": {"seed": rng.randrange(1 << 40), "p": rng.choice([0.05, 0.3, 0.8])}}
    return {"knobs": k, "other": _cli.small_problem(rng), "a": side(), "b": side()}


def one(env, case, which, files):
    s = case[which]
    sub = which + "/" + s["deep"]
    env.put(sub, {"c/" + n: v for n, v in files.items()})
    other = gen.build(case["other"])
    actors = []
    if s["before"]:
        env.put(sub, {"d/" + n: v for n, v in other.items()})
        actors.append({"kind": "cli", "args": ["run", "d"]})
    p = s["path"].replace("../w/c", "../%s/c" % s["deep"].rsplit("/", 1)[-1]).replace("ABS", env.path(sub, "c"))
    me = len(actors)
    actors.append({"kind": "cli", "args": ["run", p], "after": list(range(me))})
    for i in range(s["others"]):
        env.put(sub, {"o%d/" % i + n: v for n, v in (other if i else files).items()})
        actors.append({"kind": "cli", "args": ["run", "o%d" % i], "after": list(range(me))})
    sc = dict(s["env"])
    sc["actors"] = actors
    sc["cwd"] = env.path(sub)
    # only the judged instance meets them
    sc["faults"] = [dict(f, actor=me) for f in s["faults"]]
    if s["others"]:
        sc["sched"] = s["sched"]
    r = env.sim("cli", sc)
    if r["signal"]:
        return ("signal", r["signal"]), None, None, r
    a = r["actors"][me]
    st, ct = _laws.results(env, sub + "/c")
    if a["status"] == "exit":
        return ("exit", a["rc"]), st, ct, r
    return (a["status"], a.get("what")), st, ct, r


def run(case, env):
    files = gen.build(case["knobs"])
    oa, sa, ca, ra = one(env, case, "a", files)
    ob, sb, cb, rb = one(env, case, "b", files)
    env.note(oa, ob, sa, sb, ca, cb)
    env.nontrivial = True
    env.interleaving(ra.get("hash"), rb.get("hash"), sa)
    env.count("both succeeded" if oa == ob == ("exit", 0) else "both failed" if oa == ob else "mixed")
    if oa != ob:
        env.violate("outcome", "the same problem ends with %r in one environment, with %r in another: %s | %s" % (oa, ob, ra["stdout"][-200:], rb["stdout"][-200:]))
        return
    for name, x, y in (("states.json", sa, sb), ("controls.json", ca, cb)):
        if oa != ("exit", 0):
            continue
        if x != y:
            where = next((i for i, (p, q) in enumerate(zip(x or b"", y or b"")) if p != q), min(len(x or b""), len(y or b"")))
            env.violate("bytes", "%s differs between the environments at byte %d: ...%r... / ...%r..." % (
                name, where, (x or b"")[max(0, where - 60):where + 40], (y or b"")[max(0, where - 60):where + 40]))
    # rounding differences would show here too: the numbers printed by an optimisation
    if case["knobs"].get("optimize") and not case["a"]["others"] + case["b"]["others"] + case["a"]["before"] + case["b"]["before"]:
        pa, pb = [[l for l in r["stdout"].splitlines() if "ost" in l or "enalty" in l or "bjective" in l] for r in (ra, rb)]
        if pa != pb:
            env.violate("bytes", "printed results differ: %r / %r" % (pa[:6], pb[:6]))


def shrink(case):
    for s in ("a", "b"):
        c = case[s]
        for k, v in (("others", 0), ("before", 0), ("faults", []), ("path", "c"), ("deep", "w")):
            if c[k] != v:
                yield with_key(case, s, with_key(c, k, v))
        for n in list(c["env"]):
            yield with_key(case, s, with_key(c, "env", {a: b for a, b in c["env"].items() if a != n}))
    for k in _cli.shrink_knobs(case["knobs"]):
        yield with_key(case, "knobs", k)
