"""Damaged input is rejected, never silently used."""
import copy, json, random
from .. import gen
from ..core import Reject, with_key
from . import _cli, _laws

ID = "C20"
PROGS = ["cli"]
REAL, STUB = _cli.REAL, _cli.STUB
ASSUME = ["what is required, and of which type, is the documented input format (table NEEDED in gsim/props/c20.py)",
          "a failing read is a fault of the simulated file system (EIO, EACCES, ...), other faults are transient"]
RULE = ("one random valid problem is damaged once: an input file truncated at any byte, missing, empty, a directory, unreadable at open or at any of its reads; a required entry removed or replaced by "
        "a value of another type at any place; two entries of one component; a wrong number of values; unsorted interpolation points; senseless or contradicting settings. It runs under transient faults in a random environment. Non-trivial: every "
        "damaged case; distinct by damage and event sequence.")
NUM, STR, BOOL, OBJ, ARR = "number", "string", "boolean", "object", "array"
OTHER = {NUM: ["7.5", None, {"a": 1}, [3.0], True], STR: [7, None, {"a": 1}, ["x"], True], BOOL: ["true", 1, None, {}, []],
         OBJ: ["x", 7, None, [], True], ARR: ["x", 7, None, {"a": 1}, True]}
SETTINGS = {"start_time": NUM, "end_time": NUM, "desired_delta_t": NUM, "tolerance": NUM, "maximal_number_of_newton_iterations": NUM, "retries": NUM, "use_simplified_newton": BOOL}
EDGE = {"id": STR, "from": STR, "to": STR}
NEEDED = {"Pipe": dict(EDGE, length=OBJ, diameter=OBJ, roughness=OBJ), "Shortpipe": EDGE, "Compressorstation": EDGE, "Controlvalve": EDGE, "Transmissionline": dict(EDGE, G=NUM, B=NUM),
          "Gaspowerconnection": dict(EDGE, gas2power_q_coeff=NUM, power2gas_q_coeff=NUM)}
for _t in ("Vphinode", "PQnode", "PVnode", "ExternalPowerplant"):
    NEEDED[_t] = {"id": STR, "G": NUM, "B": NUM}
NEEDED["StochasticPQnode"] = {"id": STR, "G": NUM, "B": NUM, "number_of_stochastic_steps": NUM, "stability_parameter": NUM, "cut_off_factor": NUM, "theta_P": NUM, "sigma_P": NUM,
                              "theta_Q": NUM, "sigma_Q": NUM}
for _t in ("Innode", "Sink", "Source", "ConstraintSink", "Pressureboundarynode"):
    NEEDED[_t] = {"id": STR}
# components that need an entry, and its number of values
TAKES = {"boundary": {"Sink": 1, "Source": 1, "ConstraintSink": 1, "Pressureboundarynode": 1, "Vphinode": 2, "PQnode": 2, "PVnode": 2, "StochasticPQnode": 2, "ExternalPowerplant": 2},
         "initial": {"Pipe": 2, "Shortpipe": 2, "Compressorstation": 2, "Controlvalve": 2, "Gaspowerconnection": 2, "Vphinode": 2, "PQnode": 2, "PVnode": 2, "StochasticPQnode": 2, "ExternalPowerplant": 2},
         "control": {"Compressorstation": 1, "Controlvalve": 1}, "lower_bounds": {"Compressorstation": 1, "Controlvalve": 1}, "upper_bounds": {"Compressorstation": 1, "Controlvalve": 1},
         "constraint_lower_bounds": {"ConstraintSink": 1}, "constraint_upper_bounds": {"ConstraintSink": 1}}
DAMAGE = ["truncate", "truncate", "truncate", "missing", "empty", "directory", "openerr", "readerr", "readerr", "drop", "drop", "drop", "type", "type", "type", "unsorted", "unsorted", "settings",
          "settings", "settings", "settings", "values", "twice", "dirs"]


def generate(rng, tier, index):
    opt = rng.random() < 0.1
    k = _cli.small_problem(rng, optimize=opt) if opt else gen.knobs(
        rng, stoch_seed=rng.choice([0, 1]), rough_init=0, ng=rng.choice([2, 3, 4]), np=rng.choice([1, 2, 3]), steps=rng.choice([1, 2, 3]), controls=rng.choice([1, 1, 0]), short=rng.choice([.2, .5, .8]),
        ctrl_grid=rng.choice([0, 1, 2, 3]))
    return {"knobs": k, "damage": rng.choice(DAMAGE), "seed": rng.randrange(1 << 30), "env": _cli.environment(rng), "faults": _laws.benign_faults(rng) if rng.random() < 0.5 else []}


def inputs(files):
    """the input files this problem needs"""
    need = ["problem/problem_data.json", "problem/topology.json", "problem/boundary.json", "problem/initial.json"]
    if "problem/lower_bounds.json" in files:
        need += ["problem/lower_bounds.json", "problem/upper_bounds.json", "problem/constraint_lower_bounds.json", "problem/constraint_upper_bounds.json"]
    if any(files["problem/control.json"]["connections"].values()):
        need.append("problem/control.json")
    return need


def slots(files, drop):
    """[(container, key, type)] of every required entry (drop: which may be removed to make the file invalid)"""
    out = []
    pd = files["problem/problem_data.json"]
    out += [(pd, "simulation_settings", OBJ, "simulation_settings"), (pd, "problem_data", OBJ, "problem_data")]
    out += [(pd["simulation_settings"], k, t, "simulation_settings." + k) for k, t in SETTINGS.items()]
    for k in ("topology_json", "boundary_json"):
        if drop:
            out.append((pd["problem_data"], k, STR, k))
        else:
            out.append((pd["problem_data"], k, "path", k))
    if "control_settings" in pd and any(files["problem/control.json"]["connections"].values()):
        for k in pd["control_settings"]:
            out.append((pd["control_settings"], k, NUM, "control_settings." + k))
    top = files["problem/topology.json"]
    have = {}
    for s in ("nodes", "connections"):
        for t, l in top.get(s, {}).items():
            have.setdefault(t, set()).update(e["id"] for e in l)
            for e in l:
                for k, ty in NEEDED[t].items():
                    out.append((e, k, ty, t + "." + k))
                    if ty == OBJ:
                        out += [(e[k], "unit", STR, t + "." + k + ".unit"), (e[k], "value", NUM, t + "." + k + ".value")]
    for n in inputs(files):
        doc = n[8:-5]
        if doc not in TAKES:
            continue
        for s in ("nodes", "connections"):
            for t, l in files[n].get(s, {}).items():
                if t not in TAKES[doc]:
                    continue
                for e in l:
                    out += [(e, "id", STR, doc + ".id"), (e, "data", ARR, doc + ".data")]
                    for d in e["data"]:
                        out += [(d, "x" if doc == "initial" else "time", NUM, doc + ".time"), (d, "values", ARR, doc + ".values")]
                        for i in range(len(d["values"])):
                            out.append((d["values"], i, NUM, "%s.values[%d]" % (doc, i)))
    return out


def damage(files, kind, rng):
    """changes files in place; returns (description, faults)"""
    need = inputs(files)
    if kind in ("truncate", "missing", "empty", "directory", "openerr", "readerr"):
        n = rng.choice(need)
        if kind == "truncate":
            b = json.dumps(files[n], indent=1).encode()
            cut = rng.choice([rng.randrange(len(b)), rng.randrange(len(b)), len(b) - 1, rng.randrange(min(len(b), 40))])
            files[n] = b[:cut]
            return "%s truncated at byte %d of %d" % (n, cut, len(b)), []
        if kind == "empty":
            files[n] = rng.choice([b"", b" \n", b"\n\n"])
            return n + " empty", []
        if kind == "missing":
            del files[n]
            return n + " missing", []
        if kind == "directory":
            files[n] = None
            return n + " is a directory", []
        if kind == "openerr":
            return n + " cannot be opened", [{"op": "openr", "path": n.split("/")[1], "nth": 1, "len": 1, "act": "err", "err": rng.choice([5, 13, 24])}]
        b = len(json.dumps(files[n], indent=1))
        return n + " cannot be read", [{"op": "read", "path": n.split("/")[1], "nth": rng.randrange(1, b // 8191 + 2), "len": 1000, "act": "err", "err": 5}]
    if kind == "drop":
        c, k, t, name = rng.choice([x for x in slots(files, True)])
        del c[k]
        return "%s removed" % name, []
    if kind == "type":
        c, k, t, name = rng.choice(slots(files, False))
        v = rng.choice([7, None, ["x"], True] if t == "path" else OTHER[t])
        c[k] = v
        return "%s replaced by %r" % (name, v), []
    if kind == "unsorted":
        c = []
        for n in need:
            doc = n[8:-5]
            for s in ("nodes", "connections"):
                for t, l in (files[n].get(s, {}) if doc in TAKES else {}).items():
                    c += [(doc, t, e) for e in l if t in TAKES[doc] and len(e["data"]) > 1]
        if not c:
            raise Reject()
        doc, t, e = rng.choice(c)
        d = e["data"]
        i = rng.randrange(len(d) - 1)
        d[i], d[i + 1] = d[i + 1], d[i]
        return "data of a %s in %s is not sorted" % (t, doc), []
    if kind in ("values", "twice"):
        c = []
        for n in need:
            doc = n[8:-5]
            for s in ("nodes", "connections"):
                for t, l in (files[n].get(s, {}) if doc in TAKES else {}).items():
                    c += [(doc, t, l, e) for e in l if t in TAKES[doc]]
        doc, t, l, e = rng.choice(c)
        if kind == "twice":
            d = copy.deepcopy(e)
            if rng.random() < 0.5:
                for x in d["data"]:
                    x["values"][0] += 1
            l.insert(rng.randrange(len(l) + 1), d)
            return "a %s has two entries in %s" % (t, doc), []
        d = rng.choice(e["data"])["values"]
        if rng.random() < 0.5:
            d.pop(rng.randrange(len(d)))
        else:
            d.insert(rng.randrange(len(d) + 1), d[0])
        return "a data point of a %s in %s has %d instead of %d values" % (t, doc, len(d), TAKES[doc][t]), []
    pd = files["problem/problem_data.json"]
    s = pd["simulation_settings"]
    if kind == "settings":
        ctl = any(files["problem/control.json"]["connections"].values())
        pipes = files["problem/topology.json"]["connections"].get("Pipe")
        c = ["end=start", "end<start", "step0", "step-", "tol-"]
        if ctl:
            c += ["both", "neither", "ctl0", "ctl-", "steps0", "steps-", "steps1"]
        c += ["unit", "unknown-scheme"] if files["problem/topology.json"]["connections"].get("Pipe") else []
        if files["problem/topology.json"]["nodes"].get("StochasticPQnode"):
            c += ["stability", "stability", "theta"]
        c += ["short-data", "no-data", "retries", "iterations"]
        if pipes:
            c += ["pipe-size", "pipe-size", "dx"]
        if files["problem/topology.json"]["nodes"].get("StochasticPQnode"):
            c += ["stoch-steps", "stoch-steps", "cut-off"]
        if ctl:
            c += ["steps-fraction", "control-type"]
        c += ["optimize", "optimize"]
        if pd.get("optimize"):
            c += ["every-n", "every-n", "constraint-type"] * 2
        x = rng.choice(c)
        if x == "retries":
            s["retries"] = v = rng.choice([-1, -5, 1.5, 0.5, -0.5])
        elif x == "iterations":
            s["maximal_number_of_newton_iterations"] = v = rng.choice([-1, -100, 2.5, 0.5, 99.5])
        elif x == "pipe-size":
            p = rng.choice(pipes)
            q = rng.choice(["length", "diameter", "roughness"])
            p[q]["value"] = v = rng.choice([-1, -1e9, -1e-9, -p[q]["value"] or -1e-300] + ([0, 0.0] if q != "roughness" else []))
            return "settings: %s of a pipe is %r" % (q, v), []
        elif x == "dx":
            rng.choice(pipes)["desired_delta_x"] = v = rng.choice([0, 0.0, -1, -1e9, -1e-9])
        elif x == "stoch-steps":
            rng.choice(files["problem/topology.json"]["nodes"]["StochasticPQnode"])["number_of_stochastic_steps"] = v = rng.choice([0, -1, -3, 2.5, 0.5])
        elif x == "cut-off":
            rng.choice(files["problem/topology.json"]["nodes"]["StochasticPQnode"])["cut_off_factor"] = v = rng.choice([-0.1, -3])
        elif x == "steps-fraction":
            pd["control_settings"] = v = {"number_of_steps": rng.choice([2.5, 1.5, 3.5])}
        elif x == "control-type":
            pd["control_settings"] = v = rng.choice(["x", 7, None, [], True])
        elif x == "optimize":
            pd["optimize"] = v = rng.choice(["true", "false", 1, 0, None, [], {}])
        elif x == "every-n":
            pd["constraint_settings"] = v = {"evaluate_constraints_every_n": rng.choice([1.5, 2.5, "2", None, [1], True])}
        elif x == "constraint-type":
            pd["constraint_settings"] = v = rng.choice(["x", 7, None, [], True])
        else:
            v = None
        if v is not None or x in ("control-type", "optimize", "constraint-type"):
            return "settings: %s is %r" % (x, v), []
        st = rng.choice(files["problem/topology.json"]["nodes"].get("StochasticPQnode", [{}]))
        if x == "end=start":
            s["end_time"] = s["start_time"]
        elif x == "end<start":
            s["end_time"] = s["start_time"] - rng.choice([1e-3, 1.0, 1e6])
        elif x == "step0":
            s["desired_delta_t"] = rng.choice([0, 0.0, -0.0])
        elif x == "step-":
            s["desired_delta_t"] = -s["desired_delta_t"] * rng.choice([1, 0.1, 100])
        elif x == "tol-":
            s["tolerance"] = -s["tolerance"]
        elif x == "both":
            pd["control_settings"] = {"desired_delta_t": 100.0, "number_of_steps": 3}
        elif x == "neither":
            pd["control_settings"] = {}
        elif x == "ctl0":
            pd["control_settings"] = {"desired_delta_t": 0.0}
        elif x == "ctl-":
            pd["control_settings"] = {"desired_delta_t": rng.choice([-1.0, -1e5, -1e-3])}
        elif x == "steps0":
            pd["control_settings"] = {"number_of_steps": 0}
        elif x == "steps-":
            pd["control_settings"] = {"number_of_steps": -rng.choice([1, 3, 1000])}
        elif x == "steps1":
            pd["control_settings"] = {"number_of_steps": 1}
        elif x == "unit":
            p = rng.choice(files["problem/topology.json"]["connections"]["Pipe"])
            p[rng.choice(["length", "diameter", "roughness"])]["unit"] = rng.choice(["lightyear", "", "M", "bar", "kg"])
        elif x == "unknown-scheme":
            p = rng.choice(files["problem/topology.json"]["connections"]["Pipe"])
            p["scheme"] = rng.choice(["Foo", "isothermaleulerequation", ""])
        elif x == "stability":
            st["stability_parameter"] = rng.choice([0, -0.5, 2, 3.5])
        elif x == "theta":
            st[rng.choice(["theta_P", "theta_Q"])] = -0.1
        elif x == "no-data":
            c = []
            for n in need:
                doc = n[8:-5]
                for sec in ("nodes", "connections"):
                    for t, l in (files[n].get(sec, {}) if doc in TAKES else {}).items():
                        c += [(doc, t, e) for e in l if t in TAKES[doc]]
            doc, t, e = rng.choice(c)
            e["data"] = []
            return "data of a %s in %s are empty" % (t, doc), []
        elif x == "short-data":
            c = []
            for t, l in files["problem/boundary.json"].get("nodes", {}).items():
                c += [e for e in l if t in TAKES["boundary"]]
            e = rng.choice(c)
            v = e["data"][0]["values"]
            m = (s["start_time"] + s["end_time"]) / 2
            lo, hi = rng.choice([(s["start_time"] - 10, m), (m, s["end_time"] + 10)])
            if lo == m:
                hi2 = s["end_time"] + 10
                lo = s["end_time"] + 5
                hi = hi2
            e["data"] = [{"time": lo, "values": v}, {"time": hi, "values": v}]
            return "boundary data of %s do not cover the simulated time" % e["id"], []
        return "settings: " + x, []
    if kind == "dirs":
        x = rng.choice(["no-problem", "problem-is-file", "nothing"])
        if x == "problem-is-file":
            for n in list(files):
                del files[n]
            files["problem"] = b"{}"
        else:
            for n in list(files):
                del files[n]
            if x == "no-problem":
                files["readme"] = b""
        return "directory: " + x, []


def run(case, env):
    files = {n: copy.deepcopy(v) for n, v in gen.build(case["knobs"]).items()}
    what, faults = damage(files, case["damage"], random.Random(case["seed"]))
    # an entry of a type that is not there any more does not count
    env.put("c", files)
    r = _cli.cli(env, ["run", "c"], case["env"], faults + case["faults"])
    rc, how = _cli.outcome(r)
    env.nontrivial = True
    env.interleaving(what, r.get("hash"))
    env.count("damage: " + case["damage"])
    _cli.check_alive(env, r, False)
    if env.violations:
        env.violations = [("signal", what + ": " + m) for _, m in env.violations]
        return
    if faults and not sum(v for k, v in r.get("faultcount", {}).items() if k.startswith("err")):
        raise Reject()
    tree = env.tree("c") if files else {}
    res = [n for n in tree if n.startswith("output/") and n.count("/") == 2 and n.endswith((".json",))]
    env.note(rc, sorted(tree))
    if rc == 0:
        env.violate("accepted", "%s, but the run succeeded" % what)
    elif res:
        env.violate("results", "%s: exit status %d, but %s was written" % (what, rc, res))
    elif not any(w in r["stdout"] for w in ("rror", "ailed", "xception", "xecution", "ouldn't", "annot", "not")):
        env.violate("silent", "%s: exit status %d without any message: %r" % (what, rc, r["stdout"][-300:]))


def shrink(case):
    if case["faults"]:
        yield with_key(case, "faults", [])
    for n in list(case["env"]):
        yield with_key(case, "env", {a: b for a, b in case["env"].items() if a != n})
    for k in _cli.shrink_knobs(case["knobs"]):
        yield with_key(case, "knobs", k)
