"""Concurrent instances on the same directory: every interleaving reserves disjoint output locations."""
import re
from .. import gen
from ..core import Reject, with_key
from . import _cli
from ._cli import STUB

ID = "C03"
PROGS = ["cli"]
REAL = _cli.REAL + ["the library's output file reservation (io::prepare_output_file, io::unique_output_directory)"]
ASSUME = ["instances are modelled as threads of one process that switch at system calls; the program keeps no state in the process that instances could share",
          "the simulated clock is shared by all instances (one machine)", "mkdir and exclusive creation are atomic, as the operating system guarantees"]
RULE = ("2..8 instances (program runs, directory reservations, file reservations) on one directory with pre-existing entries; a seeded scheduler picks the running instance at every system call; "
        "the wall clock ticks, stalls, or jumps forwards and backwards; calls are shortened, interrupted or fail, instances are killed. Non-trivial: at least two task switches; distinct by "
        "the executed event sequence (the interleaving).")

PRIOR = ["output/2020.09.13_12:26:40.%d" % i for i in range(4)] + ["output/output_%d.json" % (1600000000000 + i) for i in range(4)]


def generate(rng, tier, index):
    n = rng.choice([2, 2, 3, 3, 4, 5, 6, 8])
    kinds = rng.choice([["cli"], ["new_dir"], ["new_file"], ["cli", "new_dir"], ["cli", "new_file", "new_dir"], ["new_dir", "new_file"], ["bad", "cli", "new_dir"]])
    if kinds == ["cli"]:
        n = min(n, 5)
    actors = [{"kind": rng.choice(kinds), "count": rng.choice([1, 1, 1, 2, 3])} for _ in range(n)]
    mode = rng.choice(["run", "run", "zero", "stall", "jumps", "back"])
    clock = {"start_us": 1600000000000000 + rng.choice([0, 0, 999, rng.randrange(10 ** 6)]), "tick_us": rng.choice([0, 1, 20, 300, 3000]), "seed": rng.randrange(1 << 30)}
    if mode == "zero":
        clock["tick_us"] = 0
    elif mode == "stall":
        clock["stall"] = True
    elif mode == "jumps":
        clock["jumps"] = [[rng.randrange(1, 30), rng.choice([-3600000000, -1000000, -2000, -1000, -500, 1000, 7200000000])] for _ in range(rng.choice([1, 2, 4]))]
    elif mode == "back":
        clock["jumps"] = [[i, -rng.choice([1000, 1500, 2000, 3000])] for i in range(rng.randrange(1, 5), rng.randrange(6, 40))]
    faults = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            a = rng.randrange(n)
            faults.append(rng.choice([
                {"actor": a, "op": "*", "nth": rng.randrange(1, 40), "act": rng.choice(["crash", "crash_after"])},
                {"actor": a, "op": rng.choice(["mkdir", "openw", "stat", "closew", "write", "read", "sendfile"]), "nth": rng.randrange(1, 6), "act": "err", "err": rng.choice([5, 13, 28])},
                {"actor": a, "op": rng.choice(["write", "sendfile", "read"]), "nth": rng.randrange(1, 8), "act": "short", "arg": 3, "len": 5},
                {"actor": a, "op": "sleep", "nth": rng.randrange(1, 6), "act": "err", "err": 4, "len": rng.choice([1, 3])},
            ]))
    return {"knobs": _cli.small_problem(rng), "actors": actors, "clock": clock, "sched": {"seed": rng.randrange(1 << 40), "p": rng.choice([0.05, 0.2, 0.5, 0.9])},
            "prior": {p: rng.choice([{"bytes": 20, "seed": 5}, None]) for p in PRIOR if rng.random() < 0.25}, "have_output": rng.random() < 0.5, "faults": faults}


def run(case, env):
    files = gen.build(case["knobs"])
    env.put("r", files)
    env.put("c", files)
    # what a run gives when it is alone
    r0 = _cli.cli(env, ["run", "r"], {})
    t0 = env.tree("r")
    d0 = _cli.out_dirs(t0)
    if _cli.outcome(r0)[0] != 0 or len(d0) != 1:
        env.violate("no-result", "an undisturbed run failed: %s" % r0["stdout"][-300:])
        return
    alone = {n[len(d0[0]):]: v for n, v in t0.items() if n.startswith(d0[0] + "/")}
    if case["have_output"]:
        env.put("c", {"output": None})
    env.put("c", _cli.expand(case["prior"]))
    bad = {k: v for k, v in files.items() if not k.endswith("topology.json")}
    env.put("c", {})
    before = env.tree("c")
    actors = []
    for a in case["actors"]:
        if a["kind"] == "cli":
            actors.append({"kind": "cli", "args": ["run", "c"]})
        elif a["kind"] == "bad":
            actors.append({"kind": "cli", "args": ["run", "r/none"]})
        elif a["kind"] == "new_dir":
            env.put("c", {"output": None})
            actors.append({"kind": "new_dir", "dir": "c/output", "count": a["count"]})
        else:
            actors.append({"kind": "new_file", "dir": "c", "count": a["count"]})
    before = env.tree("c")
    r = env.sim("cli", {"actors": actors, "clock": case["clock"], "sched": case["sched"], "faults": case["faults"], "trace": True, "max_ops": 20000})
    after = env.tree("c")
    env.note(sorted(after.items()))
    if r["signal"]:
        if r["signal"] != 6 or not case["faults"]:
            env.violate("signal", "signal %d; %s" % (r["signal"], r["stdout"][-300:]))
        return
    if r.get("switches", 0) > 2:
        env.nontrivial = True
        env.interleaving(r["hash"])
    for n in before:
        if after.get(n, 0) != before[n]:
            env.violate("foreign", "%s existed before the instances started and was changed" % n)
    # who created what: from the trace of calls that succeeded
    made, attempts, errors = {}, {}, {}
    for l in r["trace"]:
        m = re.match(r"(\d+) (\w+) (.*) (-?\d+)( e\d+)?$", l)
        if not m:
            continue
        a, op, path, ret = int(m.group(1)), m.group(2), m.group(3), int(m.group(4))
        p = path.split("/")
        if op in ("mkdir", "openw") and p[:2] == ["c", "output"] and len(p) == 3:
            attempts[a] = attempts.get(a, 0) + 1
            if ret >= 0:
                if path[2:] in before:
                    if not (op == "mkdir"):
                        env.violate("foreign", "instance %d opened the existing %s for writing" % (a, path))
                elif path in made and made[path] != a:
                    env.violate("shared", "instances %d and %d both reserved %s" % (made[path], a, path))
                else:
                    made[path] = a
        elif op in ("openw", "write", "sendfile", "mkdir", "unlink", "rename", "rmdir", "truncate", "closew") and ret >= 0 and p[0] == "c" and len(p) > 2:
            own = "/".join(p[:3])
            if made.get(own) != a:
                env.violate("foreign", "instance %d: %s on %s, which is reserved by %s" % (a, op, path, made.get(own)))
    if r.get("muts"):
        for m in r["muts"]:
            if m[1] in ("unlink", "rmdir", "rename", "rename-from", "truncate"):
                env.violate("foreign", "instance %d: %s on %s" % (m[0], m[1], m[2]))
    benign = not case["faults"]
    clock = case["clock"]
    forward = not clock.get("stall") and not clock.get("jumps")
    total = sum(a.get("count", 1) if a["kind"] != "cli" else 1 for a in case["actors"] if a["kind"] != "bad")
    for i, (spec, a) in enumerate(zip(case["actors"], r["actors"])):
        mine = sorted(p for p, o in made.items() if o == i)
        if a["status"] == "op-budget":
            env.violate("hang", "instance %d did not end within the bounded number of system calls" % i)
        if a["status"] == "never-run":
            env.violate("hang", "instance %d never ran" % i)
        if a["status"] == "crashed" or spec["kind"] == "bad":
            continue
        ok = a["rc"] == 0 and a["status"] == "exit"
        if spec["kind"] == "cli":
            if ok:
                if len(mine) != 1:
                    env.violate("shared", "instance %d succeeded with %d output directories of its own: %r" % (i, len(mine), mine))
                    continue
                d = mine[0][2:]
                got = {n[len(d):]: v for n, v in after.items() if n.startswith(d + "/")}
                if got != alone:
                    env.violate("results", "results of instance %d differ from those it produces alone: %r" % (
                        i, sorted(n for n in set(got) | set(alone) if got.get(n, 0) != alone.get(n, 0))[:4]))
                env.count("instances with complete results")
        else:
            # a failing close after the creation may hide the last name
            paths = [re.sub(r"^.*?c/output/", "c/output/", p) for p in a["out"].get("paths", [])]
            if len(set(paths)) != len(paths) or not set(paths) <= set(mine) or (ok and sorted(paths) != mine):
                env.violate("shared", "instance %d was given %r, but created %r" % (i, paths, mine))
            for p in paths:
                if p[2:] not in after or (spec["kind"] == "new_dir") != (after[p[2:]] is None):
                    env.violate("shared", "%s was handed out, but is not there" % p)
            if ok and len(paths) != spec["count"]:
                env.violate("shared", "instance %d reports success with %d of %d reservations" % (i, len(paths), spec["count"]))
            env.count("reservations", len(paths))
        if not ok and benign:
            # gave up: only after all its tries met taken names
            tries = attempts.get(i, 0) - len(mine) - (1 if "c/output" in made else 0)
            need = 10 if spec["kind"] == "new_file" else 20
            env.count("reservations given up")
            if "c/output/" in "".join(mine) and spec["kind"] == "cli":
                env.violate("results", "instance %d reserved %r, but failed without any fault: %s" % (i, mine, r["stdout"][-300:]))
            elif tries < need:
                env.violate("gave-up", "instance %d gave up after %d tries: %s" % (i, tries, a.get("what") or r["stdout"][-300:]))
            elif forward and total + len(case["prior"]) < need:
                env.violate("gave-up", "instance %d found no free name in %d tries although the clock runs and only %d names can be taken" % (i, tries, total + len(case["prior"])))


def shrink(case):
    n = len(case["actors"])
    if case["faults"]:
        yield with_key(case, "faults", [])
    if case["prior"]:
        yield with_key(case, "prior", {})
    for i in range(n):
        if n > 1:
            yield with_key(case, "actors", case["actors"][:i] + case["actors"][i + 1:])
    for i, a in enumerate(case["actors"]):
        if a["count"] > 1:
            yield with_key(case, "actors", case["actors"][:i] + [with_key(a, "count", 1)] + case["actors"][i + 1:])
    for s in range(3):
        if case["sched"]["p"] > 0.06:
            yield with_key(case, "sched", {"seed": s, "p": 0.05})
    c = {k: v for k, v in case["clock"].items() if k != "jumps"}
    if c != case["clock"]:
        yield with_key(case, "clock", c)
    for k in _cli.shrink_knobs(case["knobs"]):
        yield with_key(case, "knobs", k)
