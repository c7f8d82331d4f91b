"""The order and distribution of components over the input files does not matter."""
import copy, json, random
from .. import gen, ref
from ..core import Reject, with_key, shrink_list
from . import _cli, _laws

ID = "C19"
PROGS = ["cli"]
REAL, STUB = _cli.REAL, _cli.STUB
ASSUME = ["results are compared by component id and time, numbers up to the solver tolerance"]
RULE = ("one random network is run from a reference set of files and from variants: components and types permuted in every file, entries for unknown ids and types added, topology and boundary inline "
        "or in files of other names and folders; and from damaged variants (a required entry missing, an unknown end node, an edge from a node to itself, an unknown type, a duplicate id), which have to be rejected. Transient file "
        "faults and directory order vary. Non-trivial: the variant differs from the reference; distinct by problem and variant.")
REQB = ("Sink", "Source", "ConstraintSink", "Pressureboundarynode", "Vphinode", "PQnode", "PVnode", "StochasticPQnode", "ExternalPowerplant")
FILES = {"topology": "problem/topology.json", "boundary": "problem/boundary.json", "initial": "problem/initial.json", "control": "problem/control.json"}
OPTF = ["problem/lower_bounds.json", "problem/upper_bounds.json", "problem/constraint_lower_bounds.json", "problem/constraint_upper_bounds.json"]
EDITS = ["permute", "permute", "permute", "types", "extra-boundary", "extra-initial", "extra-control", "extra-type", "inline-topology", "inline-boundary", "rename", "sub", "absolute", "schema-keys", "rotate"]
BAD = ["no-boundary", "no-boundary", "no-boundary-type", "no-initial", "no-control", "unknown-node", "unknown-node", "self-loop", "unknown-type", "duplicate", "no-id", "no-bounds"]


def generate(rng, tier, index):
    opt = rng.random() < 0.06
    if opt:
        k = _cli.small_problem(rng, optimize=True)
    else:
        k = gen.knobs(rng, stoch_seed=1, rough_init=0, ng=rng.choice([2, 3, 4, 5, 7]), np=rng.choice([2, 3, 4, 6]), steps=rng.choice([1, 2, 3]), controls=rng.choice([1, 1, 1, 0]))
        if rng.random() < 0.5:
            k["short"] = rng.choice([.5, .8])
    return {"knobs": k, "edits": [[rng.choice(EDITS), rng.randrange(1 << 30)] for _ in range(rng.choice([1, 2, 4]))],
            "bad": [rng.choice(BAD), rng.randrange(1 << 30)] if not opt or rng.random() < 0.3 else None,
            "env": _cli.environment(rng), "faults": _laws.benign_faults(rng)}


def entries(d, secs=("nodes", "connections")):
    return [(s, t, i) for s in secs for t in sorted(d.get(s, {})) for i in range(len(d[s][t]))]


def similar_id(rng, ids):
    """an id that is close to existing ones"""
    while True:
        i = rng.choice(ids)
        i = rng.choice([i + "0", i + "_", i[:-1], "A" + i, i.swapcase(), "zz" + i, "!" + i, i + " "])
        if i and i not in ids:
            return i


def edit(files, kind, rng):
    F = files
    pd = F["problem/problem_data.json"]
    docs = [n for n in list(FILES.values()) + OPTF if n in F]
    top = F["problem/topology.json"]
    ids = [e.get("id", "") for s in ("nodes", "connections") for l in top.get(s, {}).values() for e in l]
    if kind == "permute":
        for n in docs if rng.random() < 0.6 else [rng.choice(docs)]:
            for s in ("nodes", "connections"):
                for l in F[n].get(s, {}).values():
                    rng.shuffle(l)
    elif kind == "rotate":
        n = rng.choice(docs)
        for s in ("nodes", "connections"):
            for l in F[n].get(s, {}).values():
                l[:] = l[1:] + l[:1]
    elif kind == "types":
        for n in docs:
            for s in list(F[n]):
                if isinstance(F[n][s], dict):
                    it = list(F[n][s].items())
                    rng.shuffle(it)
                    F[n][s] = dict(it)
            it = list(F[n].items())
            rng.shuffle(it)
            F[n] = dict(it)
    elif kind in ("extra-boundary", "extra-initial", "extra-control"):
        n = FILES[kind[6:]]
        c = entries(F[n])
        for _ in range(rng.choice([1, 2, 5])):
            if c:
                s, t, i = rng.choice(c)
                e = copy.deepcopy(F[n][s][t][i])
                have = ids + [x["id"] for ss in ("nodes", "connections") for l in F[n].get(ss, {}).values() for x in l]
                e["id"] = similar_id(rng, have)
                for d in e["data"]:
                    d["values"] = [v * 1.5 + 1 for v in d["values"]]
                l = F[n][s][t]
                l.insert(rng.randrange(len(l) + 1), e)
    elif kind == "extra-type":
        for n in docs[1:4]:
            s = "connections" if n.endswith("control.json") else rng.choice(["nodes", "connections"])
            t = rng.choice(["Sink", "PQnode", "Source"] if s == "nodes" else ["Compressorstation", "Controlvalve"])
            # a boundary entry for a type of the topology that takes none is an error in the input
            if t not in F[n].setdefault(s, {}) and (t not in top.get(s, {}) or not n.endswith("boundary.json")):
                F[n][s][t] = [{"id": similar_id(rng, ids) + "_%d" % rng.randrange(1000), "data": [{"x" if n.endswith("initial.json") else "time": 0.0, "values": [1.0]}]}]
    elif kind == "inline-topology":
        pd["problem_data"]["topology_json"] = top
        pd["_inline_t"] = 1
    elif kind == "schema-keys":
        for n in sorted(F):
            if n.startswith("problem/") and isinstance(F[n], dict) and rng.random() < .7:
                F[n] = dict({"$schema": "../schemas/%s_schema.json" % n[8:-5]}, **F[n])
    elif kind == "inline-boundary":
        pd["problem_data"]["boundary_json"] = F["problem/boundary.json"]
        pd["_inline_b"] = 1
    elif kind in ("rename", "sub", "absolute"):
        d = {"rename": "", "sub": "in put/", "absolute": "@HERE@/"}[kind]
        x = rng.choice(["topology", "boundary"])
        if isinstance(pd["problem_data"][x + "_json"], str):
            pd["problem_data"][x + "_json"] = d + "other_%s.json" % x
            pd["_name_" + x] = d + "other_%s.json" % x


def finish(F):
    """applies what the edits decided about the place of topology and boundary"""
    pd = F["problem/problem_data.json"]
    for x in ("topology", "boundary"):
        name = pd.pop("_name_" + x, None)
        inline = pd.pop("_inline_" + x[0], None)
        doc = F["problem/%s.json" % x]
        if inline:
            pd["problem_data"][x + "_json"] = doc
            del F["problem/%s.json" % x]
        elif name:
            del F["problem/%s.json" % x]
            F["problem/" + name.replace("@HERE@/", "")] = doc


def damage(files, kind, rng):
    """False if it cannot be applied"""
    F = files
    top = F["problem/topology.json"]
    if kind == "no-boundary":
        c = [x for x in entries(F[FILES["boundary"]], ("nodes",)) if x[1] in REQB]
        if not c:
            return False
        s, t, i = rng.choice(c)
        del F[FILES["boundary"]][s][t][i]
    elif kind == "no-boundary-type":
        c = [t for t in sorted(F[FILES["boundary"]].get("nodes", {})) if t in REQB]
        if not c:
            return False
        del F[FILES["boundary"]]["nodes"][rng.choice(c)]
    elif kind == "no-initial":
        c = entries(F[FILES["initial"]])
        s, t, i = rng.choice(c)
        del F[FILES["initial"]][s][t][i]
    elif kind == "no-control":
        c = entries(F[FILES["control"]], ("connections",))
        if not c:
            return False
        s, t, i = rng.choice(c)
        del F[FILES["control"]][s][t][i]
    elif kind == "no-bounds":
        c = [n for n in OPTF if n in F and entries(F[n])]
        if not c:
            return False
        n = rng.choice(c)
        s, t, i = rng.choice(entries(F[n]))
        del F[n][s][t][i]
    elif kind == "unknown-node":
        c = entries(top, ("connections",))
        if not c:
            return False
        s, t, i = rng.choice(c)
        ids = [e["id"] for l in top["nodes"].values() for e in l]
        edges = [e["id"] for l in top["connections"].values() for e in l]
        top[s][t][i][rng.choice(["from", "to"])] = rng.choice([similar_id(rng, ids), rng.choice(edges), ""])
    elif kind == "self-loop":
        c = entries(top, ("connections",))
        if not c:
            return False
        s, t, i = rng.choice(c)
        e = top[s][t][i]
        e["from" if rng.random() < 0.5 else "to"] = e["to" if rng.random() < 0.5 else "from"]
        e["to"] = e["from"]
    elif kind == "unknown-type":
        s = rng.choice(["nodes", "connections"])
        if not top.get(s):
            return False
        t = rng.choice(sorted(top[s]))
        new = rng.choice([t + "s", t.lower(), "Pump", t[:-1]])
        if rng.random() < 0.5:
            top[s][new] = top[s].pop(t)
            for n in ("boundary", "initial", "control"):
                d = F[FILES[n]].get(s, {})
                if t in d:
                    d[new] = d.pop(t)
        else:
            top[s][new] = []
    elif kind == "duplicate":
        c = entries(top)
        (s, t, i), (s2, t2, j) = rng.choice(c), rng.choice(c)
        if (s, t, i) == (s2, t2, j):
            return False
        if rng.random() < 0.3:
            top[s2][t2].append(copy.deepcopy(top[s2][t2][j]))
        else:
            top[s][t][i]["id"] = top[s2][t2][j]["id"]
    elif kind == "no-id":
        n = rng.choice(["topology", "boundary", "initial", "control"])
        c = entries(F[FILES[n]])
        if not c:
            return False
        s, t, i = rng.choice(c)
        del F[FILES[n]][s][t][i]["id"]
    return True


def clone(files):
    return {n: copy.deepcopy(v) for n, v in files.items()}


def same(a, b, tol, path=""):
    """None or where two result documents differ"""
    if isinstance(a, dict) and isinstance(b, dict):
        if sorted(a) != sorted(b):
            return "%s: entries %r / %r" % (path, sorted(a)[:8], sorted(b)[:8])
        for k in a:
            r = same(a[k], b[k], tol, path + "/" + k)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s: %d / %d entries" % (path, len(a), len(b))
        if a and all(isinstance(x, dict) and "id" in x for x in a + b):
            a, b = {x["id"]: x for x in a}, {x["id"]: x for x in b}
            return same(a, b, tol, path)
        for i, (x, y) in enumerate(zip(a, b)):
            r = same(x, y, tol, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if isinstance(a, bool) or isinstance(b, bool) or not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return None if a == b else "%s: %r / %r" % (path, a, b)
    return None if abs(a - b) <= tol * max(1.0, abs(a)) else "%s: %r / %r" % (path, a, b)


def run(case, env):
    files = gen.build(case["knobs"])
    opt = bool(case["knobs"].get("optimize"))
    env.put("a", files)
    r0 = _cli.cli(env, ["run", "a"], {})
    rc0, what = _cli.outcome(r0)
    if rc0 is not None and rc0 != 0 and not ref.power_flow_exists(files):
        raise Reject("no power flow")
    if rc0 != 0 and not opt:
        env.violate("no-result", "a well-posed problem failed (%s): %s" % (what, r0["stdout"][-300:]))
        return
    s0, c0 = _laws.results(env, "a")
    f = clone(files)
    for kind, seed in case["edits"]:
        edit(f, kind, random.Random(seed))
    finish(f)
    pd = f["problem/problem_data.json"]["problem_data"]
    for x in ("topology_json", "boundary_json"):
        if isinstance(pd[x], str):
            pd[x] = pd[x].replace("@HERE@", env.path("b", "problem"))
    env.put("b", f)
    r1 = _cli.cli(env, ["run", "b"], case["env"], case["faults"])
    rc1, what = _cli.outcome(r1)
    s1, c1 = _laws.results(env, "b")
    env.note(s1)
    env.nontrivial = True
    env.interleaving(s0, case["edits"])
    if rc1 != rc0:
        env.violate("variant", "after %r the run ends with %s instead of %r: %s" % ([e[0] for e in case["edits"]], what, rc0, r1["stdout"][-400:]))
        return
    if rc0 == 0:
        tol = 1e-3 if opt else 1e-5
        for n, x, y in (("states.json", s0, s1), ("controls.json", c0, c1)):
            if x == y:
                continue
            try:
                d = same(json.loads(x), json.loads(y), tol)
            except (TypeError, ValueError):
                d = "missing or unreadable"
            if d:
                env.violate("results", "after %r %s differs: %s" % ([e[0] for e in case["edits"]], n, d))
                return
            env.count("results equal up to rounding")
    if case["bad"]:
        f = clone(files)
        rng = random.Random(case["bad"][1])
        if not damage(f, case["bad"][0], rng):
            return
        if rng.random() < 0.5:
            edit(f, "permute", rng)
        env.put("d", f)
        r2 = _cli.cli(env, ["run", "d"], case["env"], case["faults"])
        rc2, what = _cli.outcome(r2)
        env.count("damaged: " + case["bad"][0])
        if rc2 == 0:
            env.violate("accepted", "%s: the run succeeded" % case["bad"][0])
        elif rc2 is None:
            env.violate("accepted", "%s: %s instead of an error: %s" % (case["bad"][0], what, r2["stdout"][-300:]))
        elif not any(w in r2["stdout"] for w in ("rror", "ailed", "rror", "xception", "xecution")):
            env.violate("accepted", "%s: no error message: %s" % (case["bad"][0], r2["stdout"][-300:]))
        elif any(n.endswith("states.json") and n.count("/") == 2 for n in env.tree("d")):
            env.violate("accepted", "%s: results were written" % case["bad"][0])


def shrink(case):
    for l in shrink_list(case["edits"]):
        yield with_key(case, "edits", l)
    if case["bad"]:
        yield with_key(case, "bad", None)
    yield from _laws.shrink(case)
