"""Exit status 0 means: complete and correct results on disk."""
import json, os, random, stat
from .. import gen
from ..core import Reject, with_key
from . import _cli
from ._cli import REAL, STUB, ASSUME

ID = "C01"
PROGS = ["cli"]
RULE = ("random valid problems (simulations and optimisations; problem directories with further files, directories and symbolic links) are run once without faults and then again from the "
        "same state with 1..3 injected faults, each placed at a random point of the recorded sequence of file-system calls or allocations. A case is non-trivial if at least one fault fired; "
        "distinct by the executed event sequence.")


def generate(rng, tier, index):
    opt, soft = rng.random() < 0.12, rng.random() < 0.2
    return {"knobs": _cli.small_problem(rng, optimize=opt), "noise": _cli.noise_files(rng), "prior": _cli.prior_files(rng), "env": _cli.environment(rng),
            "transient": soft, "links": rng.randrange(1 << 30) if rng.random() < 0.15 else None, "path": rng.choice(["c", "c", "./c", "c/", "x/../c"]),
            "faults": [_cli.fault_spec(rng, transient=soft, alloc=not opt) for _ in range(rng.choice([1, 1, 1, 2, 3]))]}


def compare(env, files, base_states, tree, before, opt, base_controls):
    new = [d for d in _cli.out_dirs(tree) if d not in before]
    if len(new) != 1:
        env.violate("results", "exit status 0, but %d new directories in output: %r" % (len(new), new))
        return
    d = new[0]
    want = {}
    for n, v in files.items():
        if n.startswith("problem/"):
            want[d + "/" + n] = v
            p = n
            while "/" in p:
                p = p.rsplit("/", 1)[0]
                want[d + "/" + p] = None
    want[d + "/states.json"] = base_states
    if opt:
        want[d + "/controls.json"] = base_controls
    got = {n: v for n, v in tree.items() if n.startswith(d + "/")}
    for n in sorted(set(want) | set(got)):
        if n not in got:
            env.violate("results", "exit status 0, but %s was not written" % n)
        elif n not in want:
            env.violate("results", "exit status 0, unexpected %s in the output directory" % n)
        elif want[n] != got[n]:
            env.violate("results", "exit status 0, but %s differs from the fault-free run (%s instead of %s bytes)" % (
                n, None if got[n] is None else len(got[n]), None if want[n] is None else len(want[n])))
        elif got[n] is not None:
            s = os.lstat(env.path("c", n))
            if not stat.S_ISREG(s.st_mode) or s.st_nlink != 1:
                env.violate("results", "exit status 0, but %s is no copy of its own: a change of the original would change it" % n)


def link(env, seed):
    """moves some entries of the problem directory elsewhere and leaves symbolic links to them: a copy holds what they refer to"""
    rng = random.Random(seed)
    root = env.path("c", "problem")
    os.makedirs(env.path("c", "shared"))
    names = sorted(os.listdir(root))
    for n in rng.sample(names, min(len(names), rng.choice([1, 1, 2, 3]))):
        os.rename(os.path.join(root, n), env.path("c", "shared", n))
        os.symlink(rng.choice(["../shared/" + n, env.path("c", "shared", n)]), os.path.join(root, n))


def run(case, env):
    files = dict(gen.build(case["knobs"]))
    files.update(_cli.expand(case["noise"]))
    everything = dict(files)
    everything.update(_cli.expand(case["prior"]))
    everything["../x"] = None
    links = case.get("links")

    def put():
        env.put("c", everything)
        if links is not None:
            link(env, links)
    opt = bool(case["knobs"].get("optimize"))
    env.put("x", {"y": None})
    env.put("c", everything)
    disk = env.tree("c")
    files = {n: v for n, v in disk.items() if n.startswith("problem/")}
    if links is not None:
        link(env, links)
    before = set(_cli.out_dirs(disk))
    r0 = _cli.cli(env, ["run", case["path"]], case["env"], trace=True)
    rc, what = _cli.outcome(r0)
    if rc != 0:
        if not opt:
            env.violate("no-result", "a fault-free run failed (%s): %s" % (what, r0["stdout"][-400:]))
        raise Reject()
    t0 = env.tree("c")
    d0 = [d for d in _cli.out_dirs(t0) if d not in before]
    states = t0.get(d0[0] + "/states.json") if d0 else None
    controls = t0.get(d0[0] + "/controls.json") if d0 else None
    compare(env, files, states, t0, before, opt, controls)
    for name, b in (("states.json", states), ("controls.json", controls if opt else b"{}")):
        try:
            json.loads(b)
        except (ValueError, TypeError) as e:
            env.violate("results", "exit status 0, but %s is not valid JSON: %s" % (name, e))
    if env.violations:
        return
    ops = _cli.ops_of(r0)
    faults, extra = _cli.place(case["faults"], ops, r0)
    extra["max_ops"] = 4 * len(ops) + 2000
    import shutil
    shutil.rmtree(env.path("c"))
    put()
    r1 = _cli.cli(env, ["run", case["path"]], case["env"], faults, **extra)
    fired = sum(r1.get("faultcount", {}).values()) + r1.get("alloc_failed", 0)
    alloc = "mem" in extra
    # std::filesystem::copy calls terminate when a read error meets an empty source file: an error report all the same
    _cli.check_alive(env, r1, bool(alloc or faults), alloc, opt)
    rc, what = _cli.outcome(r1)
    t1 = env.tree("c")
    env.note(rc, sorted((n, v) for n, v in t1.items()))
    if fired or r1["signal"]:
        env.nontrivial = True
        env.interleaving(r1.get("hash"), r1["signal"])
    if rc == 0:
        env.count("runs that succeeded in spite of faults")
        compare(env, files, states, t1, before, opt, controls)
    elif rc is not None:
        env.count("runs that reported an error")
        if case["transient"] or not fired:
            env.violate("transient", "only transient effects were injected, but the run failed (%s): %s" % (what, r1["stdout"][-400:]))
        if not alloc and "rror" not in r1["stdout"] and "ouldn't" not in r1["stdout"] and "ailed" not in r1["stdout"]:
            env.violate("silent", "%s without any error message: %s" % (what, r1["stdout"][-300:]))
    else:
        env.count("runs aborted (std::terminate) by a fault")


def shrink(case):
    if case.get("links") is not None:
        yield with_key(case, "links", None)
    yield from _cli.shrink_cli(case)
