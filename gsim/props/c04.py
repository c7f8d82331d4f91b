"""Rewriting input JSON files loses nothing, wherever it fails or is killed."""
import json, random
from .. import gen
from ..core import with_key
from . import _cli
from ._cli import REAL, STUB, ASSUME

ID = "C04"
PROGS = ["cli"]
REAL = ["schema insert-key command", "JSON reading and overwriting", "libstdc++ streams and filesystem"]
RULE = ("directories with random subsets of problem files (random JSON, key orders, existing $schema entries, foreign files) and schema files; insert-key or the library's overwrite is killed or meets "
        "failing calls at a random point of its recorded call sequence, then is repeated undisturbed twice. Non-trivial: a kill or fault happened; distinct by the executed event sequences.")

TYPES = ("boundary", "control", "initial", "topology", "problem_data")


def rand_json(rng, depth=0):
    r = rng.random()
    if depth > 3 or r < 0.35:
        return rng.choice([0, 1, -7, 1.5, 0.1, 1e300, -2.5e-7, 12345678901, True, False, None, "", "text", "u\u00e4\u20ac\U0001f600", "with \"quotes\" \\ \n\t", 4294967295, 3.0, "$schema", "\"$schema\":"])
    if r < 0.65:
        return [rand_json(rng, depth + 1) for _ in range(rng.randrange(4))]
    return rand_object(rng, depth + 1)


def rand_object(rng, depth=0, n=None):
    keys = ["nodes", "connections", "b", "a", "Zz", "", "key with space", "\u00fc", "x1", "$ref", "problem_data", "data"] + (["$schema"] if depth else [])
    rng.shuffle(keys)
    return {k: rand_json(rng, depth) for k in keys[:rng.randrange(6) if n is None else n]}


def generate(rng, tier, index):
    files, schemas = {}, []
    real = gen.build(_cli.small_problem(rng)) if rng.random() < 0.3 else None
    for t in TYPES:
        if rng.random() < 0.8:
            schemas.append(t)
        if rng.random() < 0.85:
            if real:
                o = real.get("problem/%s.json" % t, {})
            else:
                o = rand_object(rng)
                if rng.random() < 0.1:
                    o["big"] = [rng.random() for _ in range(rng.choice([10, 600, 3000]))]
            if rng.random() < 0.3:
                items = list(o.items())
                items.insert(rng.randrange(len(items) + 1), ("$schema", rng.choice(["../schemas/%s_schema.json" % t, "old/schema.json"])))
                o = dict(items)
            # text, so that key order and formatting are part of the case
            files[t] = json.dumps(o, indent=rng.choice([None, 1, 4]), ensure_ascii=rng.random() < 0.5)
    other = {}
    for n in rng.sample(["problem/lower_bounds.json", "problem/notes.txt", "problem/sub/topology.json", "readme", "problem/topology.json.bak", "output/a/states.json"], rng.randrange(4)):
        other[n] = {"bytes": rng.choice([0, 10, 3000]), "seed": 3}
    mode = rng.choice(["cli", "cli", "cli", "overwrite"])
    return {"mode": mode, "files": files, "schemas": schemas, "other": other, "env": _cli.environment(rng), "share": rng.randrange(1 << 30) if rng.random() < 0.25 else None, "damage": rng.random() < 0.05,
            "new": json.dumps(rand_object(rng)), "faults": [_cli.fault_spec(rng, crash=True)] if rng.random() < 0.6 else [_cli.fault_spec(rng) for _ in range(rng.choice([1, 1, 2]))]}


def parse(b):
    """JSON with key order"""
    try:
        return json.loads(b.decode("utf-8"), object_pairs_hook=lambda p: ("obj", p))
    except (ValueError, AttributeError):
        return None


def is_new(t, old, b):
    v = parse(b)
    if v is None or not isinstance(v, tuple):
        return False
    o = parse(old) if old is not None else ("obj", [])
    if not isinstance(o, tuple):
        return False    # a damaged file cannot have been rewritten
    rest = [p for p in o[1] if p[0] != "$schema"]
    had = [p[1] for p in o[1] if p[0] == "$schema"]
    got = v[1]
    return bool(got) and got[0][0] == "$schema" and got[0][1] in had + ["../schemas/%s_schema.json" % t] and got[1:] == rest


def run(case, env):
    files = {"problem/%s.json" % t: s.encode() for t, s in case["files"].items()}
    # JSON numbers and strings have to survive the reference's own reading
    for t in case["schemas"]:
        files["schemas/%s_schema.json" % t] = b"{}"
    files.update(_cli.expand(case["other"]))
    files.setdefault("problem", None)
    if case["damage"] and case["files"]:
        t = sorted(case["files"])[0]
        files["problem/%s.json" % t] = case["files"][t][:-1].encode()
    if case["mode"] == "overwrite":
        actor = {"kind": "overwrite", "path": "c/problem/target.json", "text": case["new"]}
        if case["files"]:
            files["problem/target.json"] = sorted(case["files"].values())[0].encode()
        targets = {"problem/target.json": None}
    else:
        actor = {"kind": "cli", "args": ["schema", "insert-key", "c"]}
        targets = {"problem/%s.json" % t: t for t in case["schemas"]}

    def go(faults=(), trace=False, **extra):
        sc = _cli.merged(case["env"], extra)
        sc["actors"] = [actor]
        sc["faults"] = list(faults)
        if trace:
            sc["trace"] = True
        return env.sim("cli", sc)

    def good_new(name, content, old):
        t = targets[name]
        if t is None:
            return parse(content) is not None and parse(content) == parse(case["new"].encode())
        return is_new(t, old, content)

    def fresh():
        env.put("c", files)
        return _cli.share(env, "c", [n for n in files if n in targets], share) if share is not None else _cli.modes(env, "c", targets)

    share = case.get("share")
    modes0 = fresh()
    before, links0 = _cli.linked_tree(env, "c")
    r0 = go(trace=True)
    clean = _cli.linked_tree(env, "c")[0]
    rc0, what = _cli.outcome(r0)
    broken = case["damage"] and case["files"] and "problem/%s.json" % sorted(case["files"])[0] in targets
    if rc0 != 0 and not broken:
        env.violate("failed", "an undisturbed run failed (%s): %s" % (what, r0["stdout"][-300:]))
        return
    if rc0 == 0 and broken:
        env.violate("failed", "a damaged file was accepted")
    import shutil
    shutil.rmtree(env.path("c"))
    fresh()
    faults, extra = _cli.place(case["faults"], _cli.ops_of(r0), r0)
    extra["max_ops"] = 4000
    r1 = go(faults, **extra)
    fired = sum(r1.get("faultcount", {}).values()) + r1.get("alloc_failed", 0) or r1["signal"]
    if r1.get("actors", [{}])[0].get("status") == "op-budget":
        env.violate("hang", "more than 4000 system calls")
    if r1["signal"] and not (r1["signal"] in (6, 7, 8, 11, 24) and "mem" in extra):
        env.violate("signal", "signal %d: %s" % (r1["signal"], r1["stdout"][-300:]))
    st = r1.get("actors", [{}])[0].get("status")
    rc = r1.get("actors", [{}])[0].get("rc")
    killed = st == "crashed" or r1["signal"]
    after = _cli.linked_tree(env, "c")[0]
    env.note(sorted(after.items()))
    if fired:
        env.nontrivial = True
        env.interleaving(r1.get("hash"), r1["signal"])
    env.count("first run " + ("killed" if killed else "reported an error" if rc else "succeeded"))

    def judge(when, tree, must_be_new, lenient):
        for n, old in before.items():
            if n in targets:
                continue
            if tree.get(n, 0) != old:
                env.violate("lost", "%s: %s, which is not to be rewritten, changed" % (when, n))
        for n in sorted(targets):
            old, now = before.get(n), tree.get(n)
            new_ok = now is not None and good_new(n, now, old)
            if must_be_new and not new_ok:
                env.violate("not-written", "%s reports success, but %s does not carry the new content (%s)" % (when, n, (now or b"nothing")[:80]))
            elif not new_ok and now != old:
                # neither old nor new: somewhere in full?
                if lenient and any(m.startswith(("problem/", "shared/")) and v is not None and (v == old or good_new(n, v, old)) for m, v in tree.items()):
                    env.count("content only in another file after a kill")
                    continue
                env.violate("lost", "%s: %s has neither the old nor the new content: %r (old: %r)" % (when, n, (now if now is not None else b"<missing>")[:120], (old or b"")[:120]))
        links, modes = _cli.linked_tree(env, "c")[1], _cli.modes(env, "c", targets)
        for n in links0:
            if links.get(n) != links0[n]:
                env.violate("link", "%s: %s no longer links to the file it linked to (%s)" % (when, n, links0[n]))
        for n in modes0:
            if not lenient and modes.get(n, modes0[n]) != modes0[n]:
                env.violate("mode", "%s: the permissions of %s changed from %o to %o" % (when, n, modes0[n], modes[n]))
        for n in tree:
            if n not in before and n not in targets and not n.startswith("problem/") and not (n.startswith("shared/") and not must_be_new):
                env.violate("stray", "%s: created %s" % (when, n))
    judge("interrupted run", after, st == "exit" and rc == 0, killed)
    if env.violations or broken:
        return
    r2 = go()
    second = _cli.linked_tree(env, "c")[0]
    if _cli.outcome(r2)[0] != 0:
        env.violate("repeat", "repeating the command failed: %s" % r2["stdout"][-300:])
    judge("repeated run", second, True, False)
    r3 = go()
    if _cli.outcome(r3)[0] != 0 or _cli.linked_tree(env, "c")[0] != second:
        env.violate("repeat", "running the command again changed the files")


def shrink(case):
    yield from _cli.shrink_cli(case)
    for t in case["files"]:
        yield with_key(case, "files", {k: v for k, v in case["files"].items() if k != t})
        if case["files"][t] != '{"a":1}':
            yield with_key(case, "files", dict(case["files"], **{t: '{"a":1}'}))
    for t in case["schemas"]:
        yield with_key(case, "schemas", [x for x in case["schemas"] if x != t])
    if case.get("share") is not None:
        yield with_key(case, "share", None)
    if case["other"]:
        yield with_key(case, "other", {})
