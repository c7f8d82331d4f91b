"""Schema generation: complete or an error, and nothing else is touched."""
import copy, json, random, shutil
from .. import gen, schema
from ..core import with_key
from . import _cli
from ._cli import STUB, ASSUME

ID = "C05"
PROGS = ["cli"]
REAL = ["schema make-full-factory command", "schema generation of all component types", "JSON reading", "libstdc++ streams and filesystem"]
RULE = ("directories with random defaults (or none, or a damaged problem_data.json) and a schemas directory that is missing, partly filled, or holds foreign entries; the command is killed or meets "
        "failing calls at a random point of its recorded call sequence, then is repeated undisturbed. Non-trivial: a kill or fault happened, or the command had to refuse; distinct by the "
        "executed event sequences.")
FIVE = ["schemas/%s_schema.json" % t for t in ("topology", "initial", "boundary", "control", "problem_data")]
NODES = {"Innode": [], "Sink": [], "Source": [], "ConstraintSink": [], "Pressureboundarynode": [], "Vphinode": ["G", "B"], "PQnode": ["G", "B"], "PVnode": ["G", "B"],
         "StochasticPQnode": ["G", "B", "number_of_stochastic_steps", "stability_parameter", "cut_off_factor", "theta_P", "sigma_P", "theta_Q", "sigma_Q"], "ExternalPowerplant": ["G", "B"]}
EDGES = {"Pipe": ["length", "diameter", "roughness", "desired_delta_x", "balancelaw", "scheme"], "Shortpipe": [], "Compressorstation": [], "Controlvalve": [], "Transmissionline": ["G", "B"],
         "Gaspowerconnection": ["gas2power_q_coeff", "power2gas_q_coeff"]}
BOUNDARY = ["Sink", "Source", "ConstraintSink", "Pressureboundarynode", "Vphinode", "PQnode", "PVnode", "StochasticPQnode", "ExternalPowerplant"]


def rand_defaults(rng):
    out = {}
    for typ, props in list(NODES.items()) + list(EDGES.items()):
        if rng.random() < 0.4:
            d = {}
            for p in props:
                if rng.random() < 0.6:
                    d[p] = ({"value": round(rng.uniform(1, 9), 2), "unit": rng.choice(["m", "km"])} if p in ("length", "diameter", "roughness")
                            else "Isothermaleulerequation" if p == "balancelaw" else "Implicitboxscheme" if p == "scheme"
                            else rng.randrange(1, 50) if p == "number_of_stochastic_steps" else round(rng.uniform(0.1, 9), 3))
            if d or rng.random() < 0.3:
                out[typ] = d
    return out


def generate(rng, tier, index):
    pd = rng.choice(["defaults"] * 5 + ["none", "nokey", "damaged"] + ["problem"] * 3)
    pre = {}
    r = rng.random()
    state = "missing" if r < 0.3 else "empty" if r < 0.4 else "partial" if r < 0.6 else "earlier" if r < 0.8 else "foreign"
    if state in ("partial", "foreign"):
        for f in rng.sample(FIVE, rng.randrange(6)):
            pre[f] = {"bytes": rng.choice([0, 20, 9000, 30000]), "seed": 6}
    if state == "foreign":
        n = rng.choice(["notes.txt", "mydata.json", "sub/topology_schema.json", "dir", ".hidden", "Topology_schema.json", "schema.json", "xtopology_schema.json",
                        "topology_variants/a.json", "initial_schema.json.d", "boundary_schema.json", "control", "problem_data.d/x",
                        "top10.txt", "conditions.csv", "inits.json", "bounds.json", "problem.json", "topo", "contr"])
        pre.pop("schemas/" + n, None)
        pre["schemas/" + n] = None if n in ("dir", "initial_schema.json.d", "boundary_schema.json", "control") else {"bytes": 50, "seed": 7}
    return {"pd": pd, "defaults": rand_defaults(rng), "state": state, "pre": pre, "before": rng.randrange(1 << 30), "knobs": _cli.small_problem(rng, optimize=rng.random() < .4), "env": _cli.environment(rng), "more": rng.random() < 0.5,
            "faults": [_cli.fault_spec(rng, crash=True)] if rng.random() < 0.5 else [_cli.fault_spec(rng) for _ in range(rng.choice([1, 1, 2]))]}


def other_defaults(defaults, seed):
    """similar ones, mostly of the same length as text"""
    rng = random.Random(seed)

    def change(v):
        if isinstance(v, dict):
            return {k: change(x) for k, x in v.items() if rng.random() < .95}
        if isinstance(v, (int, float)) and not isinstance(v, bool) and rng.random() < .4:
            t = repr(v)
            i = [k for k, c in enumerate(t) if c.isdigit()]
            k = rng.choice(i)
            t = t[:k] + rng.choice("123456789") + t[k + 1:]
            return json.loads(t)
        return v
    return change(defaults)


def find_default(schema, prop):
    return schema.get("properties", {}).get(prop, {}).get("default", KeyError)


def complete(env, tree, defaults):
    """an independent look at the fault-free result"""
    try:
        sch = {f: json.loads(tree[f]) for f in FIVE}
    except (KeyError, ValueError, TypeError) as e:
        env.violate("incomplete", "exit status 0, but the schemas are not all there and valid: %r" % e)
        return
    top = sch[FIVE[0]]
    for sec, types in (("nodes", NODES), ("connections", EDGES)):
        have = top.get("properties", {}).get(sec, {}).get("properties", {})
        if sorted(have) != sorted(types):
            env.violate("incomplete", "the topology schema describes %r, not %r" % (sorted(have), sorted(types)))
            continue
        for t, props in types.items():
            it = have[t].get("items", {})
            req = set(it.get("required", []))
            want = {"id"} | ({"from", "to"} if sec == "connections" else set())
            if not want <= req:
                env.violate("incomplete", "%s: required %r" % (t, sorted(req)))
            for p in props:
                if p not in it.get("properties", {}):
                    env.violate("incomplete", "%s: property %s is not described" % (t, p))
                    continue
                d = defaults.get(t, {})
                if p in d:
                    if find_default(it, p) != d[p]:
                        env.violate("defaults", "%s.%s: default is %r in the schema, given %r" % (t, p, find_default(it, p), d[p]))
                    if p in req:
                        env.violate("defaults", "%s.%s has a default, but is required" % (t, p))
                elif p not in req:
                    env.violate("defaults", "%s.%s has no default, but is not required" % (t, p))
    b = sch["schemas/boundary_schema.json"].get("properties", {}).get("nodes", {}).get("properties", {})
    if sorted(b) != sorted(BOUNDARY):
        env.violate("incomplete", "the boundary schema describes %r" % sorted(b))
    i = sch["schemas/initial_schema.json"].get("properties", {})
    if not {"Pipe", "Shortpipe", "Compressorstation", "Controlvalve"} <= set(i.get("connections", {}).get("properties", {})) or not {
            "Vphinode", "PQnode", "PVnode", "StochasticPQnode", "ExternalPowerplant"} <= set(i.get("nodes", {}).get("properties", {})):
        env.violate("incomplete", "the initial schema lacks component types")
    c = sch["schemas/control_schema.json"].get("properties", {}).get("connections", {}).get("properties", {})
    if not {"Compressorstation", "Controlvalve"} <= set(c):
        env.violate("incomplete", "the control schema describes %r" % sorted(c))


def judge_documents(env, tree, files, rng):
    """the schemas admit the documents of a problem that can be simulated, and no incomplete ones"""
    for n in ("topology", "initial", "boundary", "control", "problem_data"):
        doc = files.get("problem/%s.json" % n)
        if doc is None:
            continue
        doc = dict({"$schema": "../schemas/%s_schema.json" % n} if rng.random() < .5 else {}, **copy.deepcopy(doc))
        sch = json.loads(tree["schemas/%s_schema.json" % n])
        if n != "problem_data":
            for s in ("nodes", "connections"):
                doc.setdefault(s, {})
        if n == "boundary":
            doc["connections"].pop("Gaspowerconnection", None)      # has no boundary values; grazer ignores the entry
        f = schema.fault(doc, sch)
        if f:
            env.violate("schema-rejects", "the generated schema of %s.json does not admit the document of a problem that can be simulated: %s" % (n, f))
            continue
        env.count("documents judged")
        places = []
        if n == "problem_data":
            places += [(doc, k) for k in ("simulation_settings", "problem_data")] + [(doc["simulation_settings"], k) for k in sorted(doc["simulation_settings"]) if k in NEEDED_SETTINGS]
            places += [(doc["problem_data"], k) for k in ("topology_json", "boundary_json")]
        else:
            for s in ("nodes", "connections"):
                for t in sorted(doc[s]):
                    props = {"nodes": NODES, "connections": EDGES}[s][t]
                    for e in doc[s][t]:
                        need = ["id"] + (["data"] if n != "topology" else ["from", "to"] if s == "connections" else [])
                        if n == "topology":
                            need += [p for p in props if p in e and p not in files["problem/problem_data.json"]["problem_data"].get("defaults", {}).get(t, {})]
                        places += [(e, k) for k in need]
                        if n != "topology":
                            for r in e["data"]:
                                places += [(r, k) for k in ("values", "x" if n == "initial" else "time")] + [(r["values"], 0)]
        for obj, k in rng.sample(places, min(6, len(places))):
            v = obj[k]
            how = rng.choice(["remove", "type"])
            if how == "remove":
                del obj[k]
            else:
                obj[k] = rng.choice([None, "1"] if isinstance(v, (int, float)) and not isinstance(v, bool) else [None, 1])
            if not schema.fault(doc, sch):
                env.violate("schema-admits", "the generated schema of %s.json admits a document with %s %s (%r)" % (n, k, "missing" if how == "remove" else "of the wrong type", str(v)[:50]))
            if isinstance(obj, list) and how == "remove":
                obj.insert(k, v)
            else:
                obj[k] = v


NEEDED_SETTINGS = ("use_simplified_newton", "maximal_number_of_newton_iterations", "tolerance", "retries", "start_time", "end_time", "desired_delta_t")


def run(case, env):
    files, problem = {}, None
    if case["more"]:
        files.update({"problem/topology.json": b"{}", "output/a/states.json": b"{}", "topology_schema.json": b"keep", "readme": b"x"})
    if case["pd"] == "defaults":
        files["problem/problem_data.json"] = {"problem_data": {"defaults": case["defaults"]}}
    elif case["pd"] == "problem":
        problem = gen.build(case["knobs"])
        files.update({n: v for n, v in problem.items() if n.startswith("problem/")})
        case = dict(case, defaults=problem["problem/problem_data.json"]["problem_data"].get("defaults", {}))
    elif case["pd"] == "nokey":
        files["problem/problem_data.json"] = {"problem_data": {}}
    elif case["pd"] == "damaged":
        files["problem/problem_data.json"] = json.dumps({"problem_data": {"defaults": case["defaults"]}}).encode()[:-1]
    defaults = case["defaults"] if case["pd"] in ("defaults", "problem") else {}
    files.setdefault("readme2", b"y")
    args = ["schema", "make-full-factory", "c"]
    # fault-free, nothing there before
    env.put("c", files)
    r0 = _cli.cli(env, args, case["env"])
    ref = env.tree("c")
    rc0, what = _cli.outcome(r0)
    if case["pd"] == "damaged":
        if rc0 == 0:
            env.violate("damaged", "schemas were generated from a damaged problem_data.json")
        ref = None
    elif rc0 != 0:
        env.violate("failed", "an undisturbed run failed (%s): %s" % (what, r0["stdout"][-300:]))
        return
    else:
        complete(env, ref, defaults)
        if problem and not env.violations:
            judge_documents(env, ref, problem, random.Random(case["knobs"]["seed"]))
    if env.violations:
        return
    shutil.rmtree(env.path("c"))
    files.update(_cli.expand(case["pre"]))
    if case["state"] == "earlier":
        # schemas of earlier, slightly different defaults
        f0 = dict(files)
        if case["pd"] in ("defaults", "problem"):
            pd0 = copy.deepcopy(files["problem/problem_data.json"])
            pd0["problem_data"]["defaults"] = other_defaults(defaults, case["before"])
            f0["problem/problem_data.json"] = pd0
        elif case["pd"] == "damaged":
            del f0["problem/problem_data.json"]
        env.put("c", f0)
        _cli.cli(env, args, {})
        r = random.Random(case["before"])
        files.update({n: v for n, v in env.tree("c").items() if n in FIVE and r.random() < .9})
        shutil.rmtree(env.path("c"))
    if case["state"] != "missing":
        files["schemas"] = None
    refuse = case["state"] == "foreign" or case["pd"] == "damaged"
    env.put("c", files)
    before = env.tree("c")
    rt = _cli.cli(env, args, case["env"], trace=True)
    t = env.tree("c")
    rct, what = _cli.outcome(rt)

    def unchanged(when, a, b):
        for n in sorted(set(a) | set(b)):
            if n in FIVE and not refuse:
                continue
            if n == "schemas" and n not in a:
                continue
            if a.get(n, 0) != b.get(n, 0):
                env.violate("touched", "%s: %s was changed (%s -> %s)" % (when, n, n in a, n in b))

    def done(when, tree):
        for f in FIVE:
            try:
                if json.loads(tree[f]) == json.loads(ref[f]):
                    continue
                why = "differs from the fault-free one"
            except (KeyError, TypeError):
                why = "is missing"
            except ValueError:
                why = "is not valid JSON"
            env.violate("incomplete", "%s reports success, but %s %s" % (when, f, why))

    unchanged("undisturbed run", before, t)
    if refuse:
        if rct == 0:
            env.violate("refuse", "schemas directory with foreign entries or damaged problem data accepted: %r" % sorted(n for n in before if n.startswith("schemas")))
        env.nontrivial = True
        env.interleaving(rt.get("hash"))
    elif rct != 0:
        env.violate("failed", "an undisturbed run over earlier schemas failed (%s): %s" % (what, rt["stdout"][-300:]))
    else:
        done("undisturbed run over earlier schemas", t)
    if env.violations:
        return
    shutil.rmtree(env.path("c"))
    env.put("c", files)
    faults, extra = _cli.place(case["faults"], _cli.ops_of(rt), rt)
    extra["max_ops"] = 4000
    r1 = _cli.cli(env, args, case["env"], faults, **extra)
    _cli.check_alive(env, r1, "mem" in extra, "mem" in extra)
    after = env.tree("c")
    env.note(sorted(after.items()))
    rc, what = _cli.outcome(r1)
    fired = sum(r1.get("faultcount", {}).values()) + r1.get("alloc_failed", 0) or r1["signal"]
    unchanged("interrupted run", before, after)
    env.count("interrupted run: " + what)
    if rc == 0:
        if refuse:
            env.violate("refuse", "the command succeeded under faults although it has to refuse")
        else:
            done("run with faults", after)
    if fired:
        env.nontrivial = True
        env.interleaving(r1.get("hash"), r1["signal"])
    if not refuse and not env.violations:
        r2 = _cli.cli(env, args, case["env"])
        rc2, what = _cli.outcome(r2)
        if rc2 != 0:
            env.violate("repeat", "repeating the command failed (%s): %s" % (what, r2["stdout"][-300:]))
        else:
            done("repeated run", env.tree("c"))
        unchanged("repeated run", before, env.tree("c"))


def shrink(case):
    yield from _cli.shrink_cli(case)
    if case["defaults"]:
        yield with_key(case, "defaults", {})
        for k in case["defaults"]:
            yield with_key(case, "defaults", {a: b for a, b in case["defaults"].items() if a != k})
    if case["more"]:
        yield with_key(case, "more", False)
    for k in case["pre"]:
        yield with_key(case, "pre", {a: b for a, b in case["pre"].items() if a != k})
