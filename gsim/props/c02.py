"""Inputs and earlier results survive everything; an interrupted run leaves a usable directory."""
from .. import gen
from ..core import Reject
from . import _cli
from ._cli import REAL, STUB, ASSUME

ID = "C02"
PROGS = ["cli"]
RULE = ("random problem directories with earlier results (also under names the clock will generate), foreign files and damaged problems; the run is killed before, inside or after a randomly "
        "chosen file-system call of its recorded sequence, or meets 1..3 failing calls; a second, undisturbed run follows in the same directory. Non-trivial: a kill or fault happened in the "
        "first run and the tree was compared after both runs; distinct by the executed event sequences.")


def generate(rng, tier, index):
    opt = rng.random() < 0.08
    prior = _cli.prior_files(rng)
    if rng.random() < 0.04:
        prior = {"output": {"bytes": 30, "seed": 9}}
    n = rng.choice([1, 1, 1, 2, 3])
    return {"knobs": _cli.small_problem(rng, optimize=opt), "noise": _cli.noise_files(rng), "prior": prior, "env": _cli.environment(rng),
            "path": rng.choice(["c", "c", "./c", "c/", "c/../c"]), "damage": rng.choice([None] * 6 + ["initial.json", "topology.json", "control.json", "problem_data.json"]),
            "faults": [_cli.fault_spec(rng, crash=True)] if rng.random() < 0.6 else [_cli.fault_spec(rng, alloc=not opt) for _ in range(n)],
            "same_clock": rng.random() < 0.6, "actor2": rng.random() < 0.3}


def compare(env, when, before, after, muts, prior_out):
    """everything of `before` is unchanged; everything new is in one new directory of output"""
    for n in sorted(before):
        if n not in after:
            env.violate("destroyed", "%s: %s existed before and is gone" % (when, n))
        elif after[n] != before[n]:
            env.violate("destroyed", "%s: %s changed (%s -> %s bytes)" % (when, n, None if before[n] is None else len(before[n]), None if after[n] is None else len(after[n])))
    tops = set()
    for n in sorted(after):
        if n in before or n == "output":
            continue
        p = n.split("/")
        if p[0] != "output" or len(p) < 2:
            env.violate("stray", "%s: %s was created outside the output directory" % (when, n))
            continue
        tops.add(p[1])
    if len(tops) > 1:
        env.violate("stray", "%s: more than one new entry in output: %r" % (when, sorted(tops)))
    for t in tops:
        if after["output/" + t] is not None:
            env.violate("stray", "%s: output/%s is not a directory" % (when, t))
        if "output/" + t in before:
            env.violate("stray", "%s: files were added to the existing directory output/%s" % (when, t))
    # what the calls did in between, also if undone later
    own = {"c/output/" + t for t in tops}
    for m in muts:
        kind, path, existed = m[1], m[2], m[3]
        if path == "c/output" and kind == "mkdir":
            continue
        if any(path == o or path.startswith(o + "/") for o in own):
            continue
        # a directory that a fault prevented from being created
        if kind == "mkdir" and not existed:
            continue
        env.violate("stray", "%s: %s on %s" % (when, kind, path))
    return tops


def run(case, env):
    files = dict(gen.build(case["knobs"]))
    files.update(_cli.expand(case["noise"]))
    prior = _cli.expand(case["prior"])
    opt = bool(case["knobs"].get("optimize"))
    ref = None
    # the undisturbed result, in a directory of its own
    if case["damage"] and "problem/" + case["damage"] in files and not opt:
        del files["problem/" + case["damage"]]
    env.put("c", files)
    r0 = _cli.cli(env, ["run", case["path"]], case["env"], trace=True)
    rc0, what = _cli.outcome(r0)
    t0 = env.tree("c")
    d0 = _cli.out_dirs(t0)
    if rc0 == 0 and len(d0) == 1:
        ref = {n[len(d0[0]):]: v for n, v in t0.items() if n.startswith(d0[0] + "/")}
    elif not case["damage"] and not opt:
        env.violate("no-result", "an undisturbed run failed (%s): %s" % (what, r0["stdout"][-400:]))
        return
    import shutil
    shutil.rmtree(env.path("c"))
    files.update(prior)
    env.put("c", files)
    before = env.tree("c")
    faults, extra = _cli.place(case["faults"], _cli.ops_of(r0), r0)
    r1 = _cli.cli(env, ["run", case["path"]], case["env"], faults, **extra)
    _cli.check_alive(env, r1, True, "mem" in extra, opt)
    after = env.tree("c")
    env.note(sorted(after.items()))
    compare(env, "interrupted run", before, after, r1.get("muts", []), prior)
    fired = sum(r1.get("faultcount", {}).values()) + r1.get("alloc_failed", 0) or r1["signal"]
    st = r1.get("actors", [{}])[0].get("status")
    env.count("first run " + ("killed" if st == "crashed" else "signal %d" % r1["signal"] if r1["signal"] else "ended with %s" % r1.get("actors", [{}])[0].get("rc")))
    if env.violations:
        return
    env2 = dict(case["env"])
    if not case["same_clock"]:
        env2.setdefault("clock", {})
        env2["clock"] = dict(env2["clock"], start_us=int(r1.get("end_us", 1600000000000000)) + 1)
    r2 = _cli.cli(env, ["run", case["path"]], env2)
    rc2, what = _cli.outcome(r2)
    last = env.tree("c")
    env.note(sorted(last.items()))
    compare(env, "second run", after, last, r2.get("muts", []), prior)
    if fired:
        env.nontrivial = True
        env.interleaving(r1.get("hash"), r2.get("hash"), r1["signal"])
    if "output" in prior:
        if rc2 == 0:
            env.violate("second", "output is a regular file, but a run reported success")
        return
    if (rc2 == 0) != (rc0 == 0):
        env.violate("second", "an undisturbed run after the interrupted one: %s, on a fresh directory: exit %s; output ...%s" % (what, rc0, r2["stdout"][-300:]))
    elif rc2 == 0 and ref is not None:
        new = [d for d in _cli.out_dirs(last) if d not in after]
        got = {n[len(new[0]):]: v for n, v in last.items() if n.startswith(new[0] + "/")} if len(new) == 1 else None
        if got != ref:
            bad = sorted(n for n in set(got or {}) | set(ref) if (got or {}).get(n, 0) != ref.get(n, 0))
            env.violate("second", "the run after an interrupted one gave other results than on a fresh directory: %r" % bad[:5])


def shrink(case):
    yield from _cli.shrink_cli(case)
