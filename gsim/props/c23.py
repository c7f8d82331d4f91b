"""Defaults stand for exactly the values that are left out."""
import copy, json, random
from .. import gen
from ..core import with_key, shrink_list
from . import _cli, _laws
from .c05 import NODES, EDGES

ID = "C23"
PROGS = ["cli"]
REAL, STUB = _cli.REAL, _cli.STUB
ASSUME = ["the problem with every value written out is judged by the other checks; here both spellings have to give the same result files"]
RULE = ("a random network with every value written out is run; then some values, or parts of nested ones, are left out where a default for the type says the same, while other components keep theirs (equal or different, "
        "zero included); defaults for values nobody leaves out, and for types that do not occur, are arbitrary. The run with defaults meets transient file faults, other directory orders, clocks and heap contents and has to "
        "give the same bytes. Variants whose defaults cannot work (unknown property, no object where one is needed, a part still missing, wrong type) have to be rejected. Non-trivial: something was left out; distinct by problem and spelling.")
OBJ = ("length", "diameter", "roughness")
BAD = ["unknown-property", "no-object", "part-missing", "wrong-type", "nobody-has-it", "unknown-part", "given-wrong", "given-wrong"]


def generate(rng, tier, index):
    k = gen.knobs(rng, stoch_seed=1, rough_init=0, ng=rng.choice([2, 3, 4, 5, 7]), np=rng.choice([2, 3, 4, 6]), steps=rng.choice([1, 2, 3]), controls=rng.choice([1, 1, 0]))
    return {"knobs": k, "spell": rng.randrange(1 << 30), "types": None, "bad": [rng.choice(BAD), rng.randrange(1 << 30)] if rng.random() < 0.35 else None,
            "env": _cli.environment(rng), "faults": _laws.benign_faults(rng)}


def arbitrary(rng, p):
    if p in OBJ:
        return rng.choice([{"value": rng.choice([3, 0.5, 1e4]), "unit": rng.choice(["m", "km", "ft"])}, {"unit": "mm"}, {"value": 7}])
    if p == "balancelaw":
        return rng.choice(["Isothermaleulerequation", "other"])
    if p == "scheme":
        return rng.choice(["Implicitboxscheme", "other"])
    if p == "number_of_stochastic_steps":
        return rng.choice([1, 7])
    if p in ("from", "to"):
        return "nowhere"
    return rng.choice([0, 0.0, 1, 2.5, -3.25, 1e4])


def spell(files, case):
    """(the problem written out in full, the problem with defaults, number of values left out)"""
    rng = random.Random(case["spell"])
    full = {n: copy.deepcopy(v) for n, v in files.items()}
    pd, top = full["problem/problem_data.json"], full["problem/topology.json"]
    for e in top["connections"].get("Pipe", []):
        for p, v in pd["problem_data"]["defaults"].get("Pipe", {}).items():
            e.setdefault(p, v)
    pd["problem_data"].pop("defaults", None)
    # components of a type are made more alike than by chance, zeros appear
    for e in top["connections"].get("Pipe", []):
        if rng.random() < 0.6:
            src = rng.choice(top["connections"]["Pipe"])
            for p in rng.sample(["diameter", "roughness", "length", "desired_delta_x"], 2):
                e[p] = copy.deepcopy(src[p])
    for t in ("StochasticPQnode",):
        for e in top["nodes"].get(t, []):
            if rng.random() < 0.5:
                src = rng.choice(top["nodes"][t])
                for p in rng.sample(NODES[t][2:], 4):
                    e[p] = src[p]
            if rng.random() < 0.2:
                e["sigma_P"] = 0.0
    short = {n: copy.deepcopy(v) for n, v in full.items()}
    top = short["problem/topology.json"]
    defaults, left = {}, 0
    for sec, types in (("nodes", NODES), ("connections", EDGES)):
        for t, props in sorted(types.items()):
            comps = top[sec].get(t, [])
            if case["types"] is not None and t not in case["types"]:
                continue
            d = {}
            for p in props + (["from", "to"] if sec == "connections" else []):
                r = rng.random()
                if r < 0.35:
                    continue
                if r < 0.5 or not comps:
                    d[p] = arbitrary(rng, p)
                    continue
                v = copy.deepcopy(rng.choice(comps)[p])
                keep = rng.choice([0.0, 0.3, 0.7])
                if p in OBJ and rng.random() < 0.4:
                    part = rng.choice(["unit", "value", "both"])
                    d[p] = {part: v[part]} if part != "both" and rng.random() < 0.5 else v
                    for e in comps:
                        if part == "both":
                            if e[p] == v and rng.random() >= keep:
                                e[p] = {}
                                left += 2
                        elif e[p][part] == v[part] and rng.random() >= keep:
                            del e[p][part]
                            left += 1
                    continue
                d[p] = v
                for e in comps:
                    if e[p] == v and type(e[p]) is type(v) and rng.random() >= keep:
                        del e[p]
                        left += 1
            if d or rng.random() < 0.2:
                defaults[t] = d
    if rng.random() < 0.2:
        defaults[rng.choice(["Pump", "pipe", "Node"])] = {"diameter": 3, "x": "y"}
    it = list(defaults.items())
    rng.shuffle(it)
    short["problem/problem_data.json"]["problem_data"]["defaults"] = dict(it)
    return full, short, left


def spoil(f, kind, rng):
    top = f["problem/topology.json"]
    d = f["problem/problem_data.json"]["problem_data"]["defaults"]
    present = [(s, t) for s in ("nodes", "connections") for t in sorted(top.get(s, {})) if top[s][t]]
    if kind == "unknown-property":
        s, t = rng.choice(present)
        d.setdefault(t, {})[rng.choice(["lenght", "Id", "g", "b", "Diameter", "data"])] = rng.choice([1, "m", {"unit": "m"}])
        return True
    pipes = top["connections"].get("Pipe")
    if kind in ("no-object", "part-missing", "unknown-part"):
        if not pipes:
            return False
        p, e = rng.choice(OBJ), rng.choice(pipes)
        if kind == "no-object":
            d.setdefault("Pipe", {})[p] = rng.choice([5, "5 m", None, [1, "m"]])
        elif kind == "unknown-part":
            d.setdefault("Pipe", {})[p] = {"unit": "m", "value": 5, rng.choice(["Unit", "units", "x"]): "m"}
        else:
            part = rng.choice(["unit", "value"])
            d.setdefault("Pipe", {})[p] = {part: {"unit": "m", "value": 5}[part]}
            if rng.random() < 0.5:
                e.pop(p, None)
            else:
                e[p] = {part: {"unit": "m", "value": 5}[part]}
        return True
    c = [(s, t, p) for s, t in present for p in (NODES if s == "nodes" else EDGES)[t] if p not in OBJ]
    if not c:
        return False
    s, t, p = rng.choice(c)
    e = rng.choice(top[s][t])
    if kind == "given-wrong":  # a usable default does not repair a given value
        good = e.get(p, d.get(t, {}).get(p))
        if pipes and rng.random() < 0.3:
            e, q = rng.choice(pipes), rng.choice(OBJ)
            good = rng.choice([{"unit": "m", "value": 5}, {"unit": "m"}, {"value": 5}])
            d.setdefault("Pipe", {})[q] = good
            part = rng.choice(["unit", "value"])
            e[q] = {"unit": "m", "value": 5}
            e[q][part] = rng.choice([None, True, [], {}])
            if rng.random() < 0.3:
                e[q] = rng.choice([None, 5, "m", []])
            return True
        d.setdefault(t, {})[p] = good
        e[p] = rng.choice([None, None, True, [], {}, "" if not isinstance(good, str) else 0])
        return True
    e.pop(p, None)
    if kind == "wrong-type":
        d.setdefault(t, {})[p] = rng.choice([True, None, [1.0], {"value": 1.0}, "1.0" if p not in ("balancelaw", "scheme") else 3])
    else:
        d.setdefault(t, {}).pop(p, None)
    return True


def run(case, env):
    full, short, left = spell(gen.build(case["knobs"]), case)
    env.put("a", full)
    r0 = _cli.cli(env, ["run", "a"], {})
    rc0, what = _cli.outcome(r0)
    s0, _ = _laws.results(env, "a")
    env.put("b", short)
    r1 = _cli.cli(env, ["run", "b"], case["env"], case["faults"])
    rc1, what = _cli.outcome(r1)
    s1, _ = _laws.results(env, "b")
    env.note(s1)
    env.nontrivial = left > 0
    env.count("values left out", left)
    env.count("runs with results" if rc0 == 0 else "runs ended with an error")
    env.interleaving(s0, json.dumps(short["problem/problem_data.json"], sort_keys=True), json.dumps(short["problem/topology.json"], sort_keys=True))
    if rc1 != rc0:
        env.violate("variant", "with defaults the run ends with %s, written out with %r: %s" % (what, rc0, r1["stdout"][-400:]))
        return
    if rc0 == 0 and s0 != s1:
        env.violate("results", "with defaults the results differ from those of the problem written out in full")
        return
    if case["bad"]:
        f = {n: copy.deepcopy(v) for n, v in short.items()}
        if not spoil(f, case["bad"][0], random.Random(case["bad"][1])):
            return
        env.put("d", f)
        r2 = _cli.cli(env, ["run", "d"], case["env"], case["faults"])
        rc2, what = _cli.outcome(r2)
        env.count("rejected: " + case["bad"][0])
        if rc2 == 0:
            env.violate("accepted", "%s: the run succeeded" % case["bad"][0])
        elif rc2 is None:
            env.violate("accepted", "%s: %s instead of an error: %s" % (case["bad"][0], what, r2["stdout"][-300:]))
        elif any(n.endswith("states.json") and n.count("/") == 2 for n in env.tree("d")):
            env.violate("accepted", "%s: results were written" % case["bad"][0])


def shrink(case):
    if case["bad"]:
        yield with_key(case, "bad", None)
    types = case["types"] if case["types"] is not None else sorted(NODES) + sorted(EDGES)
    for l in shrink_list(types):
        yield with_key(case, "types", l)
    yield from _laws.shrink(case)
