"""What the post-processing helper tools take out of results is what the results say, and a simulation can be continued from it."""
import copy, json, shutil
from .. import gen
from ..core import Reject, with_key
from . import _cli, _laws, c24

ID = "C25"
PROGS = ["cli"]
REAL = _laws.REAL + ["the helper programs extract_new_initial_condition, generate_printing_csv, generate_control_printing_csv, include_seed_in_boundaryvalues, remove_seed_from_boundaryvalues, sum_outflow"]
STUB = _laws.STUB
ASSUME = _cli.ASSUME + ["a continued simulation repeats the uninterrupted one up to solver accuracy: differences of up to a thousandth of the largest value of a quantity are accepted after the first record"]
RULE = ("random networks are simulated; then a tool works on the results: initial values are extracted at a time that is in the results, between, before or behind them, and the simulation is continued from "
        "them; tables of every kind of component are written; the reported seeds are put into the problem, which is run again, and removed. Every tool is then repeated with a fault or kill at a random point "
        "of its recorded call sequence. Non-trivial: the run before succeeded; distinct by tool, output and executed event sequence.")
POWER = ("PQnode", "PVnode", "Vphinode", "StochasticPQnode", "ExternalPowerplant")


def generate(rng, tier, index):
    mode = rng.choice(["extract", "extract", "extract", "csv", "csv", "control_csv", "seeds", "sum"])
    k = gen.knobs(rng, kind=rng.choice(["gas", "power", "coupled"]) if mode != "seeds" else rng.choice(["power", "coupled"]), ng=rng.choice([2, 3, 5]), np=rng.choice([1, 2, 4]), steps=rng.choice([1, 2, 3, 5, 8]),
                  ctrl_grid=0, stoch=rng.choice([.5, 1.]) if mode == "seeds" else rng.choice([0, 0, .3]), stoch_seed=rng.choice([0, 0, 2]) if mode == "seeds" else 1,
                  rough_init=rng.choice([0, 0, 1]), cells=rng.choice([1, 2, 5, 12]))
    kind = rng.choice(["none", "crash", "fault", "fault", "transient"])
    faults = {"crash": [_cli.fault_spec(rng, crash=True)], "fault": [_cli.fault_spec(rng) for _ in range(rng.choice([1, 1, 2]))],
              "transient": [_cli.fault_spec(rng, transient=True) for _ in range(rng.choice([1, 3]))], "none": []}[kind]
    return {"mode": mode, "knobs": k, "kind": kind, "faults": faults, "at": rng.choice(["on", "on", "on", "between", "before", "behind", "end"]), "pick": [rng.random() for _ in range(4)],
            "env": _laws.environment(rng), "env2": _cli.environment(rng), "old_output": rng.random() < .4}


def tool(env, case, name, args, cwd, faults=(), trace=False, **extra):
    return _cli.cli(env, args, case["env2"], faults, trace, cwd=env.path(cwd), actor={"tool": name}, **extra)


def rc_of(r):
    rc, what = _cli.outcome(r)
    st = r.get("actors", [{}])[0].get("status")
    return 1 if st == "exception" or r["signal"] == 6 else rc


def disturbed(env, case, name, args, cwd, r0, reset, before, judge):
    """runs the tool again under faults; judge(tree, must_be_new, killed)"""
    if case["kind"] == "none":
        return
    shutil.rmtree(env.path(cwd))
    reset()
    faults, extra = _cli.place(case["faults"], _cli.ops_of(r0), r0)
    extra["max_ops"] = 4000
    r = tool(env, case, name, args, cwd, faults, **extra)
    rc, st = rc_of(r), r.get("actors", [{}])[0].get("status")
    env.interleaving(r.get("hash"))
    if st == "op-budget":
        env.violate("hang", "%s: more than 4000 system calls" % name)
    if r["signal"] and r["signal"] != 6 and not (r["signal"] in (7, 8, 11, 24) and "mem" in extra):
        env.violate("signal", "%s: signal %d: %s" % (name, r["signal"], r["stdout"][-300:]))
    if case["kind"] == "transient" and rc != 0:
        env.violate("failed", "%s failed because of short or interrupted calls: %s" % (name, r["stdout"][-300:]))
        return
    env.count("disturbed tool " + ("killed" if st == "crashed" else "reported an error" if rc else "succeeded"))
    tree = env.tree(cwd)
    judge(tree, st == "exit" and rc == 0, st == "crashed")


def run(case, env):
    files = gen.build(case["knobs"])
    env.put("a", files)
    r = _cli.cli(env, ["run", "a"], case["env"])
    text, n = _laws.results(env, "a")
    env.note(text)
    if _cli.outcome(r)[0] != 0:
        env.count("runs ended with an error")
        return
    env.nontrivial = True
    env.interleaving(case["mode"], text)
    st = json.loads(text)
    {"extract": extract, "csv": csv, "control_csv": control_csv, "seeds": seeds, "sum": outflow}[case["mode"]](case, env, files, st, text)


def components(st):
    return [(s, t, e) for s in ("nodes", "connections") for t, l in (st.get(s) or {}).items() for e in l]


# ------------------------------------------------------------------ initial values of a later time
def extract(case, env, files, st, text):
    comps = components(st)
    T = [r["time"] for r in comps[0][2]["data"]]
    p = case["pick"]
    i = int(p[0] * len(T))
    t = T[i]
    if case["at"] == "between":
        i = max(1, i)
        t = T[i - 1] + (T[i] - T[i - 1]) * (.05 + .9 * p[1])
    elif case["at"] == "before":
        i, t = 0, T[0] - 1 - p[1]
    elif case["at"] == "behind":
        i, t = len(T) - 1, T[-1] + 1 + p[1]
    elif case["at"] == "end":
        i, t = len(T) - 1, T[-1]
    want = {}
    for s, ty, e in comps:
        d = e["data"][i]
        if ty in POWER:
            data = [{"x": 0.0, "values": [d["V"], d["phi"]]}]
        else:
            data = [{"x": q["x"], "values": [pp["value"], q["value"]]} for pp, q in zip(d["pressure"], d["flow"])]
        want.setdefault(s, {}).setdefault(ty, []).append({"id": e["id"], "data": data})
    start = {"states.json": text}
    if case["old_output"]:
        start["initial.json"] = b'{"old": 1}'

    def reset():
        env.put("w", start)
    reset()
    args = ["states.json", "initial.json", repr(t)]
    r0 = tool(env, case, "extract_new_initial_condition", args, "w", trace=True)
    tree = env.tree("w")
    if rc_of(r0) != 0:
        env.violate("failed", "extract_new_initial_condition %r fails: %s" % (args, r0["stdout"][-300:]))
        return

    def right(b):
        got = c24.parse(b) if b is not None else None
        if not isinstance(got, dict):
            return False
        return by_id(got) == by_id(want)
    if not right(tree.get("initial.json")):
        env.violate("extract", "the initial values for time %r (times %r) are not those of the results at %r: %s" % (t, T[:10], T[i], first_difference(by_id(want), by_id(c24.parse(tree.get("initial.json") or b"{}")))))
        return
    if tree["states.json"] != text:
        env.violate("stray", "the tool changed the results")
        return
    out = json.loads(tree["initial.json"])

    def judge(tree, must, killed):
        if tree.get("states.json") != text:
            env.violate("stray", "the disturbed tool changed the results")
        now = tree.get("initial.json")
        if must and not right(now):
            env.violate("not-written", "extract_new_initial_condition reports success, but the initial values are %r" % (now or b"missing")[-80:])
        elif not right(now) and now != start.get("initial.json") and case["old_output"]:
            env.violate("lost", "the file of old initial values now holds %r" % (now or b"nothing")[-80:])
    disturbed(env, case, "extract_new_initial_condition", args, "w", r0, reset, start, judge)
    if env.violations or i == len(T) - 1 or any(ty == "StochasticPQnode" for _, ty, _ in comps):
        return
    # going on from there gives the rest of the results
    f2 = dict(files)
    f2["problem/initial.json"] = out
    pd = copy.deepcopy(files["problem/problem_data.json"])
    ss = pd["simulation_settings"]
    ss["start_time"] = T[i]
    ss["desired_delta_t"] = (T[-1] - T[i]) / (len(T) - 1 - i) * (1 + 1e-6)
    f2["problem/problem_data.json"] = pd
    env.put("b", f2)
    r = _cli.cli(env, ["run", "b"], case["env"])
    text2, _ = _laws.results(env, "b")
    env.note(text2)
    if _cli.outcome(r)[0] != 0:
        env.violate("continue", "the simulation cannot be continued from time %r: %s" % (T[i], r["stdout"][-300:]))
        return
    env.count("continued simulations")
    rest = {(s, ty, e["id"]): e["data"] for s, ty, e in components(json.loads(text2))}
    scale = {}
    for s, ty, e in comps:
        for d in e["data"]:
            for q, v in d.items():
                if q != "time":
                    vals = [abs(x["value"]) for x in v] if isinstance(v, list) else [abs(v)]
                    scale[q] = max([scale.get(q, 0)] + vals)
    for s, ty, e in comps:
        d2 = rest.get((s, ty, e["id"]))
        if d2 is None or len(d2) != len(T) - i:
            env.violate("continue", "%s %s: %r records in the continued simulation instead of %d" % (ty, e["id"], d2 and len(d2), len(T) - i))
            return
        for j, b in enumerate(d2):
            a = e["data"][i + j]
            if abs(a["time"] - b["time"]) > 1e-6 * (T[1] - T[0]) + 1e-15 * abs(a["time"]):
                env.violate("continue", "record %d of the continued simulation has time %r instead of %r" % (j, b["time"], a["time"]))
                return
            for q in a:
                if q == "time" or (j == 0 and q in ("P", "Q")):
                    continue
                va = [x["value"] for x in a[q]] if isinstance(a[q], list) else [a[q]]
                vb = [x["value"] for x in b[q]] if isinstance(b[q], list) else [b[q]]
                tol = 1e-9 * max(1e-6, scale[q]) if j == 0 else 1e-3 * scale[q] + {"flow": 1e-2}.get(q, 1e-5)
                if len(va) != len(vb) or max(abs(x - y) for x, y in zip(va, vb)) > tol:
                    env.violate("continue", "%s %s %s at time %r: %r in the continued simulation instead of %r" % (ty, e["id"], q, b["time"], vb[:5], va[:5]))
                    return


def by_id(d):
    try:
        return {(s, t, e["id"]): e["data"] for s, v in d.items() for t, l in (v or {}).items() for e in l}
    except (AttributeError, TypeError, KeyError):
        return {"malformed": d}


def first_difference(a, b):
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            return "%s: %r instead of %r" % (k, str(b.get(k))[:150], str(a.get(k))[:150])


# ------------------------------------------------------------------ tables
def table(b):
    try:
        lines = b.decode().splitlines()
        return [x.strip() for x in lines[0].split(",")], [[float(x) for x in l.split(",")] for l in lines[1:]]
    except (ValueError, IndexError, AttributeError):
        return None


def tables(e, power):
    """{file name: (header or None, rows)}"""
    if power:
        keys = [q for q in e["data"][0] if q != "time"]
        return {e["id"] + ".csv": ({"time"} | set(keys), [dict({q: d[q] for q in keys}, time=d["time"]) for d in e["data"]])}
    out = {}
    for q in e["data"][0]:
        if q != "time":
            out["%s_%s.csv" % (e["id"], q)] = ([x["x"] for x in e["data"][0][q]], [[d["time"]] + [x["value"] for x in d[q]] for d in e["data"]])
    return out


def right_table(b, want):
    t = table(b) if b is not None else None
    if t is None:
        return False
    head, rows = t
    if isinstance(want[0], set):
        return set(head) == want[0] and len(head) == len(want[0]) and head[0] == "time" and [dict(zip(head, r)) for r in rows] == want[1] and all(len(r) == len(head) for r in rows)
    try:
        return head[0] == "t-x" and [float(x) for x in head[1:]] == [float(x) for x in want[0]] and rows == [[float(x) for x in r] for r in want[1]]
    except ValueError:
        return False


def csv(case, env, files, st, text):
    comps = components(st)
    p = case["pick"]
    s, ty, e = comps[int(p[0] * len(comps))]
    name = e["id"]
    if p[1] < .1:
        name = {0: "nobody", 1: "zzzz", 2: ""}[int(p[2] * 3)]
    write_table(case, env, "generate_printing_csv", "states.json", text, name, tables(e, ty in POWER) if name == e["id"] else None)


def control_csv(case, env, files, st, text):
    # the form of controls.json
    import random
    rng = random.Random(int(case["pick"][3] * 1e9))
    doc, all_ = {"connections": {}}, []
    for ty in ("Compressorstation", "Controlvalve"):
        for j in sorted(rng.sample(range(30), rng.randrange(4))):
            n = rng.choice([1, 2, 9])
            e = {"id": "c%02d" % j + ty[:3], "data": [{"time": float(i) * rng.choice([1, .1]) + i, "values": [rng.choice([0.0, 1.5, 1e-9, -3.25, 1 / 3, 1e17])]} for i in range(n)]}
            doc["connections"].setdefault(ty, []).append(e)
            all_.append(e)
    if not all_:
        raise Reject()
    e = rng.choice(all_)
    name = e["id"] if rng.random() < .9 else "nobody"
    want = {e["id"] + ".csv": ({"time", "control_0"}, [{"time": d["time"], "control_0": d["values"][0]} for d in e["data"]])}
    write_table(case, env, "generate_control_printing_csv", "controls.json", json.dumps(doc).encode(), name, want if name == e["id"] else None)


def write_table(case, env, name, source, text, id_, want):
    start = {source: text}
    if case["old_output"] and want:
        for f in want:
            start[f] = b"old\n"

    def reset():
        env.put("w", start)
    reset()
    r0 = tool(env, case, name, [source, id_], "w", trace=True)
    tree = env.tree("w")
    if want is None:
        if rc_of(r0) == 0:
            env.violate("accepted", "%s reports success for the unknown component %r" % (name, id_))
        elif tree != start:
            env.violate("stray", "%s changed files for an unknown component" % name)
        return
    if rc_of(r0) != 0:
        env.violate("failed", "%s %r fails: %s" % (name, id_, r0["stdout"][-300:]))
        return
    for f in want:
        if not right_table(tree.get(f), want[f]):
            env.violate("table", "%s does not hold what the results say: %r" % (f, (tree.get(f) or b"<missing>")[:200]))
            return
    if {f: v for f, v in tree.items() if f not in want} != {source: text}:
        env.violate("stray", "%s wrote %r" % (name, sorted(set(tree) - set(want))))
        return

    def judge(tree, must, killed):
        if tree.get(source) != text:
            env.violate("stray", "%s changed its input" % name)
        for f in want:
            if must and not right_table(tree.get(f), want[f]):
                env.violate("not-written", "%s reports success, but %s holds %r" % (name, f, (tree.get(f) or b"<missing>")[-100:]))
    disturbed(env, case, name, [source, id_], "w", r0, reset, start, judge)


# ------------------------------------------------------------------ summed outflow
def outflow(case, env, files, st, text):
    """of the initial values and of what the extraction makes of the results"""
    start = {"states.json": text, "initial.json": files["problem/initial.json"]}

    def total(doc):
        return sum(e["data"][1]["values"][1] for e in (doc.get("connections") or {}).get("Shortpipe") or [])

    def right(r, want):
        try:
            return abs(float(r["stdout"].split()[-1]) - want) <= 1e-5 * max(1e-9, abs(want)) + 1e-12
        except (ValueError, IndexError):
            return False

    env.put("w", start)
    x = tool(env, case, "extract_new_initial_condition", ["states.json", "later.json", repr(case["pick"][0] * 1e9)], "w")
    if rc_of(x) != 0:
        env.violate("failed", "extract_new_initial_condition fails: %s" % x["stdout"][-300:])
        return
    for name in ("initial.json", "later.json"):
        before = env.tree("w")
        want = total(c24.parse(before[name]))
        r0 = tool(env, case, "sum_outflow", [name], "w", trace=True)
        if rc_of(r0) != 0 or not right(r0, want):
            env.violate("sum", "sum_outflow ends with %r and prints %r, the outflow is %r" % (rc_of(r0), r0["stdout"][-100:], want))
            return
        if env.tree("w") != before:
            env.violate("stray", "sum_outflow changed files")
        if case["kind"] == "none":
            continue
        faults, extra = _cli.place(case["faults"], _cli.ops_of(r0), r0)
        extra["max_ops"] = 4000
        r = tool(env, case, "sum_outflow", [name], "w", faults, **extra)
        rc = rc_of(r)
        env.interleaving(r.get("hash"))
        if rc == 0 and not right(r, want) and r.get("actors", [{}])[0].get("status") == "exit":
            env.violate("sum", "the disturbed sum_outflow reports success and prints %r, the outflow is %r" % (r["stdout"][-100:], want))
        elif rc != 0 and case["kind"] == "transient":
            env.violate("failed", "sum_outflow failed because of short or interrupted calls: %s" % r["stdout"][-300:])


# ------------------------------------------------------------------ seeds
def seeds(case, env, files, st, text):
    env.put("s", dict(files, **{"output/first/states.json": text}))
    r = tool(env, case, "include_seed_in_boundaryvalues", [".", "output/first/states.json"], "s")
    if rc_of(r) != 0:
        env.violate("failed", "include_seed_in_boundaryvalues fails: %s" % r["stdout"][-300:])
        return
    shutil.rmtree(env.path("s/output"))
    r = _cli.cli(env, ["run", "s"], dict(case["env"], entropy=7 + case["env"].get("entropy", 0)))
    again, _ = _laws.results(env, "s")
    env.note(again)
    if _cli.outcome(r)[0] != 0:
        env.violate("reproduce", "with the included seeds the run fails: %s" % r["stdout"][-300:])
    elif again != text:
        env.violate("reproduce", "with the included seeds the results are others")
    r = tool(env, case, "remove_seed_from_boundaryvalues", ["."], "s")
    got = c24.parse(env.tree("s")["problem/boundary.json"])
    want = copy.deepcopy(files["problem/boundary.json"])
    for _, _, e in components(want):
        e.pop("seed", None)
    if rc_of(r) != 0 or not c24.same(got, want):
        env.violate("seeds", "after remove_seed_from_boundaryvalues (exit %r) the boundary values are not those without seeds" % rc_of(r))


def shrink(case):
    yield from _cli.shrink_cli(case)
    if case["old_output"]:
        yield with_key(case, "old_output", False)
    if case["kind"] != "none":
        yield dict(case, kind="none", faults=[])
