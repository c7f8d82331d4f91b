"""The problem-editing helper tools change what they promise, and lose nothing wherever they fail or are killed."""
import copy, json, shutil
from .. import gen
from ..core import Reject, with_key
from . import _cli
from ._cli import ASSUME, STUB

ID = "C24"
PROGS = ["cli"]
REAL = ["the helper programs include_seed_in_boundaryvalues, remove_seed_from_boundaryvalues, change_inflow, increase_pressure, move_to_category, construct_gaspowerconnection, normalize_jsons, "
        "insert_positions", "JSON reading and overwriting", "libstdc++ streams and filesystem"]
RULE = ("problem directories of random networks with foreign keys, numbers of all kinds and random key orders; every editing tool with valid and invalid arguments. The undisturbed result is compared with an "
        "independent model of the edit; then the tool is killed or meets failing, short or lost calls or a full disk at a random point of its recorded call sequence, and is repeated. Non-trivial: a kill or "
        "fault happened; distinct by tool and executed event sequences.")
TOOLS = ("include_seed_in_boundaryvalues", "remove_seed_from_boundaryvalues", "change_inflow", "increase_pressure", "move_to_category", "construct_gaspowerconnection", "normalize_jsons",
         "insert_positions")
FOUR = ["problem/%s.json" % n for n in ("topology", "boundary", "initial", "control")]
GAS = ("Pipe", "Shortpipe", "Gaspowerconnection", "Compressorstation", "Controlvalve")


def generate(rng, tier, index):
    k = gen.knobs(rng, kind="coupled", ng=rng.choice([2, 3, 5, 9]), np=rng.choice([2, 3, 6]), stoch=rng.choice([.3, .8]), stoch_seed=rng.choice([0, 1, 2]), controls=1, short=rng.choice([.2, .5]))
    kind = rng.choice(["crash", "crash", "crash", "fault", "fault", "transient", "none"])
    faults = {"crash": [_cli.fault_spec(rng, crash=True)], "fault": [_cli.fault_spec(rng) for _ in range(rng.choice([1, 1, 2]))],
              "transient": [_cli.fault_spec(rng, transient=True) for _ in range(rng.choice([1, 3]))], "none": []}[kind]
    return {"tool": rng.choice(TOOLS), "knobs": k, "pick": [rng.random() for _ in range(6)], "value": rng.choice([0.5, -1.25, 3, 1e3, 0.1, 17.3]), "kind": kind, "faults": faults,
            "constant": rng.random() < .8, "spice": rng.randrange(1 << 30) if rng.random() < .7 else 0, "bad": rng.choice(["", "", "", "", "id", "file"]), "env": _cli.environment(rng),
            "indent": rng.choice([None, 1, 4]), "share": rng.randrange(1 << 30) if rng.random() < 0.2 else None}


def entries(d):
    """[(section, type, entry)]"""
    return [(s, t, e) for s, v in d.items() if isinstance(v, dict) for t, l in v.items() if isinstance(l, list) for e in l]


def spice(files, seed):
    """keys and numbers the tools must carry along"""
    import random
    rng = random.Random(seed)
    vals = [0, -7, 1.5, 1e300, 5e-324, 0.1, 1 / 3, 12345678901234567, 18446744073709551615, -9223372036854775808, True, None, "", "u\u00e4\u20ac\U0001f600", "with \"quotes\" \\ \n\t", 3.0, [], {},
            [1, [2.5, {"a": None}]]]
    for n in FOUR:
        for s, t, e in entries(files[n]):
            if rng.random() < .2:
                e[rng.choice(["comment", "a", "Zz", "\u00fc", "data2"])] = rng.choice(vals)
        if rng.random() < .5:
            items = list(files[n].items())
            items.insert(rng.randrange(len(items) + 1), ("$schema", "../schemas/%s_schema.json" % n[8:-5]))
            files[n] = dict(items)
        if rng.random() < .3:
            files[n]["other"] = {"Pipe2": rng.choice(vals)}


def setup(case):
    """(files, arguments, working directory, {file: wanted content} or None if the tool has to refuse)"""
    files = gen.build(case["knobs"])
    for n in FOUR:
        for s in ("nodes", "connections"):
            files[n].setdefault(s, {})
    p, tool, bad = case["pick"], case["tool"], case["bad"]
    for e in files["problem/boundary.json"]["nodes"].get("Source", []):
        if case["constant"]:
            e["data"] = [dict(r, values=[(e["data"][-1]["values"][0] or 1.5) if p[5] < .9 else 0.0]) for r in e["data"]]
    if case["spice"]:
        spice(files, case["spice"])
    want = copy.deepcopy({n: files[n] for n in FOUR})
    choose = lambda l, i: l[int(p[i] * len(l))]
    B = want["problem/boundary.json"]
    if tool == "include_seed_in_boundaryvalues":
        loads = files["problem/topology.json"]["nodes"].get("StochasticPQnode", [])
        res = {"nodes": {"PQnode": [], "StochasticPQnode": [{"data": [], "id": e["id"], "seed": [int(p[0] * 2 ** 32) + i for i in range(8)]} for e in loads]}, "connections": {}}
        refuse = False
        if bad == "id" and loads:
            if p[1] < .5:
                del res["nodes"]["StochasticPQnode"][-1]["seed"]
            else:
                res["nodes"]["StochasticPQnode"].insert(int(p[2] * len(loads)), {"id": "nobody", "seed": [1] * 8})
            refuse = True
        files["output/x/states.json"] = res
        for e in B["nodes"].get("StochasticPQnode", []):
            for r in res["nodes"]["StochasticPQnode"]:
                if r["id"] == e["id"] and "seed" in r:
                    e["seed"] = r["seed"]
        if bad == "file":
            return files, [".", "output/y/states.json"], "", None
        return files, [".", "output/x/states.json"], "", None if refuse else want
    if tool == "remove_seed_from_boundaryvalues":
        for s in ("nodes", "connections"):
            for t, l in B[s].items():
                for e in l:
                    e.pop("seed", None)
        return files, ["nowhere" if bad else "."], "", None if bad else want
    if tool == "change_inflow":
        src = [e["data"] for e in B["nodes"].get("Source", [])]
        if not src:
            raise Reject()
        total, ok = 0.0, not bad
        for d in src:
            if len(d) < 2 or d[0]["values"][0] != d[1]["values"][0]:
                ok = False
            total += d[0]["values"][0]
        if not total:
            ok = False
        if ok:
            for d in src:
                for r in d[:2]:
                    r["values"][0] = r["values"][0] * float(case["value"]) / total
        return files, [] if bad else [repr(case["value"])], "", want if ok else None
    if tool == "increase_pressure":
        for t in GAS:
            for e in want["problem/initial.json"]["connections"].get(t, []):
                for r in e["data"]:
                    r["values"][0] = r["values"][0] + float(case["value"])
        if bad == "id":
            all_ = [e for t in GAS for e in files["problem/initial.json"]["connections"].get(t, [])]
            choose(choose(all_, 0)["data"], 1)["values"][0] = "text"
        return files, ["nowhere" if bad == "file" else ".", repr(case["value"])], "", None if bad else want
    if tool == "move_to_category":
        es = [(s, t, e["id"]) for s, t, e in entries({s: files[FOUR[0]][s] for s in ("nodes", "connections")})]
        s, t, i = choose(es, 0)
        to = choose(sorted({b for a, b, _ in es if a == s} | {"Newtype"}), 1)
        if bad:
            i = "nobody"
        for n in FOUR:
            for v in want[n].values():
                if isinstance(v, dict) and isinstance(v.get(t), list):
                    for e in v[t]:
                        if e["id"] == i:
                            v[t].remove(e)
                            v.setdefault(to, []).append(e)
                            break
        return files, [t, to, i], "problem", want
    if tool == "construct_gaspowerconnection":
        gases = [e["id"] for s, t, e in entries({"nodes": files[FOUR[0]]["nodes"]}) if not t.endswith(("PQnode", "PVnode", "Vphinode", "Powerplant"))]
        powers = [e["id"] for s, t, e in entries({"nodes": files[FOUR[0]]["nodes"]}) if t.endswith(("PQnode", "PVnode", "Vphinode", "Powerplant"))]
        a, b = choose(gases, 0), choose(powers, 1)
        new = "g2p_%s_%s" % (a, b)
        for n in FOUR:
            for v in want[n].values():
                if isinstance(v, dict) and v.get("Gaspowerconnection"):
                    e = copy.deepcopy(v["Gaspowerconnection"][0])
                    e["id"] = new
                    if n == FOUR[0]:
                        e["from"], e["to"] = "node_" + a, b
                    v["Gaspowerconnection"].insert(0, e)
        if bad:
            for e in files[FOUR[0]]["connections"]["Gaspowerconnection"][:1]:
                e["id"] = new
        return files, [a, b], "problem", None if bad else want
    if tool == "normalize_jsons":
        return files, [], "problem", want
    # insert_positions
    pos = {}
    top = want[FOUR[0]]
    missing = False
    for s, t, e in entries({x: files[FOUR[0]][x] for x in ("nodes", "connections")}):
        if hash_of(t, p[0]) < .7:
            if bad and hash_of(e["id"], p[1]) < .3:
                missing = missing or (s, t)
                pos.setdefault(s, {}).setdefault(t, [])
                continue
            pos.setdefault(s, {}).setdefault(t, []).append({"id": e["id"], "x": hash_of(e["id"], .1), "y": [hash_of(e["id"], .2)] if hash_of(t, .3) < .1 else -1.5})
    if p[2] < .3:
        pos.setdefault("nodes", {}).setdefault("Unknowntype", []).append({"id": "q", "x": 1, "y": 2})
    if p[3] < .3 and pos.get("nodes"):
        pos["nodes"][sorted(pos["nodes"])[0]].append({"id": "zzz_not_there", "x": 1, "y": 2})
    for s in ("nodes", "connections"):
        for t in top[s]:
            top[s][t].sort(key=lambda e: e["id"].encode())
        for t in pos.get(s, {}):
            by = {e["id"]: e for e in pos[s][t]}
            for e in top[s].get(t, []):
                if e["id"] in by:
                    e["x"], e["y"] = by[e["id"]]["x"], by[e["id"]]["y"]
            if int(p[4] * 10) % 2:
                pos[s][t].reverse()
    files["problem/positions.json"] = pos
    out = "topology.json" if p[5] < .6 else "new_topology.json"
    if out != "topology.json":
        want["problem/new_topology.json"] = top
        want[FOUR[0]] = copy.deepcopy(files[FOUR[0]])
        if p[5] < .8:
            files["problem/new_topology.json"] = {"old": 1}
    return files, ["topology.json", "positions.json", out], "problem", None if missing else want


def hash_of(x, salt):
    import hashlib
    return int.from_bytes(hashlib.sha256(("%s/%r" % (x, salt)).encode()).digest()[:6], "big") / 2 ** 48


def parse(b):
    try:
        return json.loads(b.decode("utf-8"))
    except (ValueError, AttributeError, UnicodeDecodeError):
        return parse       # equal to no document


def same(a, b):
    """the same JSON value, numbers by value and kind, objects with their keys in the same order (seed and positions may be anywhere)"""
    if isinstance(a, dict) and isinstance(b, dict):
        if a.keys() != b.keys():
            return False
        order = lambda d: [k for k in d if k not in ("seed", "x", "y")]
        return order(a) == order(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b and (isinstance(a, float) == isinstance(b, float) or max(abs(a), abs(b)) > 2 ** 53)
    return type(a) is type(b) and a == b


def run(case, env):
    files, args, sub, want = setup(case)
    files = {n: json.dumps(v, indent=case["indent"], ensure_ascii=bool(case["spice"] & 1)).encode() for n, v in files.items()}
    files["readme"] = b"x"
    files["problem/sub/topology.json"] = b"{}"
    tool = case["tool"]

    def go(faults=(), trace=False, **extra):
        return _cli.cli(env, args, case["env"], faults, trace, cwd=env.path("c", sub).rstrip("/"), area=env.path("c"), actor={"tool": tool}, **extra)

    def rc_of(r):
        rc, what = _cli.outcome(r)
        st = r.get("actors", [{}])[0].get("status")
        return (1 if st == "exception" or r["signal"] == 6 else rc), what

    def fresh():
        env.put("c", files)
        return _cli.share(env, "c", FOUR, share) if share is not None else _cli.modes(env, "c", FOUR)

    share = case.get("share")
    modes0 = fresh()
    before, links0 = _cli.linked_tree(env, "c")
    r0 = go(trace=True)
    clean = _cli.linked_tree(env, "c")[0]
    rc0, what = rc_of(r0)
    if rc0 is None:
        env.violate("signal", "%s: undisturbed run: %s" % (tool, what))
        return
    targets = {}
    if want is None:
        env.count("invalid requests")
        if rc0 == 0:
            env.violate("accepted", "%s %r reports success for a request it cannot fulfil" % (tool, args))
            return
        bad = [n for n in before if clean.get(n, 0) != before[n]]
        if bad:
            env.violate("lost", "%s %r reports an error, but changed %s" % (tool, args, bad))
        return
    targets = {n: v for n, v in want.items()}

    def right(n, content):
        return content is not None and same(parse(content), targets[n])

    if rc0 != 0:
        env.violate("failed", "%s %r fails: %s" % (tool, args, r0["stdout"][-300:]))
        return
    for n in targets:
        if not right(n, clean.get(n)):
            env.violate("edit", "%s %r: %s is not what it is to be: %r" % (tool, args, n, diff(targets[n], parse(clean.get(n)))))
            return
    for n in set(before) | set(clean):
        if n not in targets and clean.get(n, 0) != before.get(n, 0):
            env.violate("stray", "%s %r changed %s" % (tool, args, n))
            return
    def kept(when, strict):
        links, modes = _cli.linked_tree(env, "c")[1], _cli.modes(env, "c", FOUR)
        for n in links0:
            if links.get(n) != links0[n]:
                env.violate("link", "%s: %s no longer links to the file it linked to (%s)" % (when, n, links0[n]))
        for n in modes0:
            if strict and modes.get(n, modes0[n]) != modes0[n]:
                env.violate("mode", "%s: the permissions of %s changed from %o to %o" % (when, n, modes0[n], modes[n]))

    kept(tool, True)
    if case["kind"] == "none":
        env.nontrivial = True
        env.interleaving(tool, sorted(clean.items()))
        return
    shutil.rmtree(env.path("c"))
    fresh()
    faults, extra = _cli.place(case["faults"], _cli.ops_of(r0), r0)
    extra["max_ops"] = 4000
    r1 = go(faults, **extra)
    fired = sum(r1.get("faultcount", {}).values()) + r1.get("alloc_failed", 0) or r1["signal"]
    rc, what = rc_of(r1)
    st = r1.get("actors", [{}])[0].get("status")
    if st == "op-budget":
        env.violate("hang", "%s: more than 4000 system calls" % tool)
    if r1["signal"] and r1["signal"] != 6 and not (r1["signal"] in (7, 8, 11, 24) and "mem" in extra):
        env.violate("signal", "%s: signal %d: %s" % (tool, r1["signal"], r1["stdout"][-300:]))
    after = _cli.linked_tree(env, "c")[0]
    env.note(sorted(after.items()))
    if fired:
        env.nontrivial = True
        env.interleaving(tool, r1.get("hash"), r1["signal"])
    killed = st == "crashed"
    env.count("first run " + ("killed" if killed else "reported an error" if rc else "succeeded"))
    if case["kind"] == "transient" and rc != 0:
        env.violate("failed", "%s failed because of short or interrupted calls: %s" % (tool, r1["stdout"][-300:]))
        return

    def judge(when, tree, must):
        kept(when, not killed)
        for n, old in before.items():
            if n not in targets and tree.get(n, 0) != old:
                env.violate("lost", "%s: %s, which is not to be edited, changed" % (when, n))
        for n in sorted(targets):
            now = tree.get(n)
            if right(n, now):
                continue
            if must:
                env.violate("not-written", "%s: %s reports success, but %s is not complete: %r" % (when, tool, n, (now or b"")[-80:]))
            elif now != before.get(n):
                if killed and any(v is not None and (v == before.get(n) or right(n, v)) for m, v in tree.items() if m.startswith(("problem/", "shared/")) and m != n):
                    env.count("content only in another file after a kill")
                    continue
                env.violate("lost", "%s: %s has neither the old nor the new content: %r" % (when, n, (now if now is not None else b"<missing>")[-120:]))
    judge("disturbed %s" % tool, after, st == "exit" and rc == 0)
    if env.violations or tool == "construct_gaspowerconnection" or tool == "increase_pressure" and after.get(FOUR[2]) != before[FOUR[2]]:
        return
    if tool == "change_inflow" and after.get(FOUR[1]) != before[FOUR[1]]:
        return
    r2 = go()
    second = _cli.linked_tree(env, "c")[0]
    if rc_of(r2)[0] != 0:
        env.violate("repeat", "repeating %s %r failed: %s" % (tool, args, r2["stdout"][-300:]))
        return
    judge("repeated %s" % tool, second, True)


def diff(a, b, at=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return "%s/%s only in one" % (at, k)
            if not same(a[k], b[k]):
                return diff(a[k], b[k], at + "/" + str(k))
        return at + ": key order"
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, "%s/%d" % (at, i))
    return "%s: %s instead of %s" % (at, str(b)[:100], str(a)[:100])


def shrink(case):
    yield from _cli.shrink_cli(case)
    for key, v in (("spice", 0), ("indent", None), ("share", None)):
        if case.get(key) != v:
            yield with_key(case, key, v)
