"""Optimisation runs: what is printed and saved belongs to the controls that are reported."""
import copy, json, math, random, re
from .. import gen, ref
from ..core import Reject, with_key
from . import _cli, _laws

ID = "C16"
PROGS = ["cli"]
REAL, STUB = _cli.REAL, _cli.STUB
ASSUME = _cli.ASSUME + ["the optimiser's own message (EXIT: ...) tells whether it found an optimum", "cost of a compressor is its squared control, integrated by the trapezoidal rule without the first point"]
RULE = ("random gas networks with compressors, control valves and pressure constraints (tight, inactive or infeasible), random state, control and constraint grids, bounds, initial controls and optimiser "
        "options (iteration limits, tolerances, step rules: the optimiser stops at different places and evaluates different points last) are optimised by the real program in a random environment, then "
        "once more with I/O errors, lost writes, a full disk or failing allocations at random operations. Every run that exits with 0 is judged by the reference, by a plain simulation of the reported "
        "controls, and against its own printed values. Non-trivial: at least one judged run; distinct by controls.json and fault placement.")

OPTIONS = [("max_iter", [0, 1, 2, 3, 5, 8, 50]), ("tol", [1e-3, 1e-5, 1e-10]), ("acceptable_iter", [1, 2, 15]), ("acceptable_tol", [1e-2, 1e2]), ("mu_strategy", ["adaptive"]),
           ("nlp_scaling_method", ["none"]), ("alpha_red_factor", [0.1, 0.9]), ("max_soc", [0, 8]), ("bound_push", [1e-1, 1e-8]), ("limited_memory_max_history", [1, 3]),
           ("watchdog_shortened_iter_trigger", [1]), ("start_with_resto", ["yes"]), ("hessian_approximation", ["limited-memory"]), ("mu_init", [1e-6, 10.0]), ("check_derivatives_for_naninf", ["yes"])]


def generate(rng, tier, index):
    k = _cli.small_problem(rng, optimize=True)
    k["flow"] = rng.choice([1., 10., 30.])
    k["steps"] = rng.choice([1, 2, 3, 4, 6])
    k["ctrl_grid"] = rng.choice([0, 0, 1, 2, 3])
    k["every_n"] = rng.choice([1, 1, 2, 3, 4, 1, 2, 0, -2])
    k["simplified"] = rng.choice([True, True, False])
    k["start"] = rng.choice([0, 100.5, 1600000000])
    opts = {}
    if rng.random() < 0.6:
        for n, v in rng.sample(OPTIONS, rng.choice([1, 1, 2, 3])):
            opts[n] = rng.choice(v)
    opts.setdefault("max_iter", 150)
    return {"knobs": k, "opts": opts, "shape": rng.choice(["as is", "tight", "tight", "tight", "infeasible"]), "seed": rng.randrange(1 << 30), "env": _cli.environment(rng),
            "faults": [_cli.fault_spec(rng) for _ in range(rng.choice([0, 1, 1, 2]))], "transient": _laws.benign_faults(rng)}


def build(case):
    files = gen.build(case["knobs"])
    rng = random.Random(case["seed"])
    p0 = None
    for t, l in files["problem/boundary.json"]["nodes"].items():
        if t == "Pressureboundarynode":
            p0 = l[0]["data"][0]["values"][0]
    if p0 is None:
        raise Reject()
    for typ, l in files["problem/upper_bounds.json"]["connections"].items():
        for e in l:
            u = rng.choice([3., 8., 20., 40.])
            for d in e["data"]:
                d["values"] = [u + (rng.uniform(0, 1) if rng.random() < .5 else 0)]
    for typ, l in files["problem/lower_bounds.json"]["connections"].items():
        for e in l:
            if rng.random() < 0.4:
                for d in e["data"]:
                    d["values"] = [rng.uniform(0, .5)]
    if case["shape"] != "as is":
        for e in files["problem/constraint_lower_bounds.json"]["nodes"].get("ConstraintSink", []):
            if rng.random() < 0.3:
                continue
            lo = p0 + (rng.uniform(-4, 2) if case["shape"] == "tight" else rng.uniform(100, 200))
            for d in e["data"]:
                d["values"] = [round(lo + rng.uniform(0, .3), 6)]
        for e in files["problem/constraint_upper_bounds.json"]["nodes"].get("ConstraintSink", []):
            if case["shape"] == "tight" and rng.random() < 0.4:
                for d in e["data"]:
                    d["values"] = [round(p0 + rng.uniform(3, 8), 6)]
    return files


def number(out, text):
    m = re.findall(r"^" + re.escape(text) + r"\s*(\S+)$", out, re.M)
    try:
        return float(m[-1])
    except (IndexError, ValueError):
        return None


def near(printed, true, slack=0.0):
    return printed is not None and abs(printed - true) <= 1.2e-5 * max(abs(true), abs(printed)) + slack + 1e-300


def judge(env, files, r, states, controls, knobs):
    """everything a successful run has to fulfil"""
    out = r["stdout"]
    try:
        st, ct = json.loads(states), json.loads(controls)
    except (ValueError, TypeError) as e:
        env.violate("unreadable", "result files of a successful optimisation are missing or not valid JSON: %s" % e)
        return
    # the controls cover the control grid and obey the bounds
    R = ref.Ref(files)
    have = {}
    for typ, l in files["problem/topology.json"]["connections"].items():
        if typ in ("Compressorstation", "Controlvalve"):
            for e in l:
                have[(typ, e["id"])] = None
    for typ, l in ct.get("connections", {}).items():
        for e in l:
            if (typ, e["id"]) not in have or have[(typ, e["id"])] is not None:
                env.violate("controls", "controls.json holds %s %s, which is not a control of the problem or is there twice" % (typ, e["id"]))
                return
            have[(typ, e["id"])] = e["data"]
    if any(v is None for v in have.values()):
        env.violate("controls", "controls.json lacks controls: %r" % [k for k, v in have.items() if v is None])
        return
    grids = {tuple(d["time"] for d in v) for v in have.values()}
    if len(grids) != 1 or len(next(iter(grids))) - 1 not in ref.control_grid(R):
        env.violate("controls", "control time points %r, expected %r steps" % (sorted(grids)[:2], ref.control_grid(R)))
        return
    grid = list(next(iter(grids)))
    m = len(grid) - 1
    for i, t in enumerate(grid):
        if abs(t - (R.t0 + i * (R.t1 - R.t0) / m)) > 32 * ref.EPS * max(1., abs(R.t0), abs(R.t1)):
            env.violate("controls", "control time point %d is %r on [%r,%r] with %d steps" % (i, t, R.t0, R.t1, m))
            return
    for b, sgn in (("lower", 1), ("upper", -1)):
        for typ, l in files["problem/%s_bounds.json" % b]["connections"].items():
            for e in l:
                for d in have[(typ, e["id"])]:
                    v = ref.interp(e["data"], "time", d["time"])[0]
                    if sgn * (d["values"][0] - v) < -1e-6 * max(1., abs(v)):
                        env.violate("bounds", "%s at t=%r: control %r beyond its %s bound %r" % (e["id"], d["time"], d["values"][0], b, v))
                        return
    # the states solve the equations with these controls
    for p, msg in ref.check(files, st, controls=ct):
        env.violate("states", "with the reported controls: " + msg)
        return
    # printed values
    some = next(iter(st["connections"].values()))[0]["data"]
    times = [d["time"] for d in some]
    cost = 0.0
    for (typ, cid), data in have.items():
        if typ != "Compressorstation":
            continue
        for i in range(1, len(times)):
            w = 0.5 * ((times[i + 1] if i + 1 < len(times) else times[i]) - times[i - 1])
            cost += w * ref.interp(data, "time", times[i])[0] ** 2
    for text, true in (("Cost:", cost), ("Penalty:", 0.0), ("Overall objective:", cost)):
        if not near(number(out, text), true, 1e-9 * (R.t1 - R.t0)):
            env.violate("printed", "%s %r printed, the reported controls give %r" % (text, number(out, text), true))
            return
    every = max(1, knobs.get("every_n", 1))
    N = len(times)
    idx = list(range(1, N, every))
    if N % every:
        idx[-1] = N - 1
    low = up = 0.0
    edges = [(t, e) for t, l in files["problem/topology.json"]["connections"].items() for e in l]
    for e in files["problem/topology.json"]["nodes"].get("ConstraintSink", []):
        rows = None
        for t, c in edges:
            if e["id"] in (c["from"], c["to"]):
                data = [x for x in st["connections"][t] if x["id"] == c["id"]][0]["data"]
                rows = [d["pressure"][0 if c["from"] == e["id"] else -1]["value"] for d in data]
                break
        for name, sgn in (("lower", 1), ("upper", -1)):
            b = [x for x in files["problem/constraint_%s_bounds.json" % name]["nodes"]["ConstraintSink"] if x["id"] == e["id"]][0]
            for i in idx:
                v = sgn * (ref.interp(b["data"], "time", times[i])[0] - rows[i])
                if sgn == 1:
                    low = max(low, v)
                else:
                    up = max(up, v)
    for name, true in (("lower", low), ("upper", up)):
        got = number(out, "Maximum %s constraint violation:\n" % name)
        if not near(got, true, 4 * R.tol + 1e-10):
            env.violate("printed", "maximal %s constraint violation %r printed, the saved states give %r" % (name, got, true))
            return
    if max(low, up) > 0.02:
        env.violate("infeasible", "reported as a success, but the constraints are violated by %r" % max(low, up))
    if max(low, up) > 0:
        env.count("optima on their constraints")
    env.count("judged optima")


def run(case, env):
    files = build(case)
    if case["opts"]:
        files["ipopt.opt"] = "".join("%s %s\n" % x for x in case["opts"].items()).encode()
    env.put("c", files)
    cwd = env.path("c")
    r = _cli.cli(env, ["run", "."], case["env"], case["transient"], trace=True, cwd=cwd, cpu_s=12)
    rc, what = _cli.outcome(r)
    _cli.check_alive(env, r, False, False, True)
    m = re.findall(r"^EXIT: (.*)$", r["stdout"], re.M)
    said = m[-1] if m else None
    env.note(what, said)
    env.count("optimiser said: %s" % said)
    if env.violations:
        return
    won = said in ("Optimal Solution Found.", "Solved To Acceptable Level.")
    if said and won != (rc == 0):
        env.violate("status", "the optimiser said %r, the program ended with %s" % (said, what))
        return
    if rc == 0:
        states, controls = _laws.results(env, "c")
        env.nontrivial = True
        env.interleaving(controls)
        judge(env, files, r, states, controls, case["knobs"])
        if env.violations:
            return
        # a plain simulation of the reported controls
        g = copy.deepcopy({n: v for n, v in files.items() if n.startswith("problem/")})
        g["problem/control.json"] = json.loads(controls)
        pd = g["problem/problem_data.json"]
        pd["optimize"] = False
        n = len(next(iter(next(iter(json.loads(controls)["connections"].values()))))["data"])
        pd["control_settings"] = {"number_of_steps": n}
        env.put("s", g)
        r2 = _cli.cli(env, ["run", "s"], {})
        plain, _ = _laws.results(env, "s")
        if _cli.outcome(r2)[0] != 0 or plain is None:
            env.violate("plain", "the plain simulation of the reported controls fails: %s" % r2["stdout"][-200:])
            return
        if plain != states:
            d = worst(json.loads(plain), json.loads(states))
            env.violate("plain", "states.json differs from the simulation of the reported controls by %r" % d)
            return
    elif rc is not None:
        env.count("optimisations without optimum")
    if not case["faults"] or not said:
        return
    faults, extra = _cli.place(case["faults"], _cli.ops_of(r), r)
    env.put("f", files)
    rf = _cli.cli(env, ["run", "."], case["env"], faults, cwd=env.path("f"), trace=False, cpu_s=12, **extra)
    _cli.check_alive(env, rf, True, "mem" in extra, True)
    rc, what = _cli.outcome(rf)
    env.interleaving(rf.get("hash"))
    if env.violations:
        return
    if rc == 0:
        states, controls = _laws.results(env, "f")
        env.nontrivial = True
        env.count("judged optima of faulty runs")
        judge(env, files, rf, states, controls, case["knobs"])
        m = re.findall(r"^EXIT: (.*)$", rf["stdout"], re.M)
        if m and m[-1] not in ("Optimal Solution Found.", "Solved To Acceptable Level."):
            env.violate("status", "under faults the optimiser said %r, the program ended with %s" % (m[-1], what))
    else:
        env.nontrivial = True


def worst(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and a.keys() == b.keys():
        return max([worst(a[k], b[k]) for k in a] or [0])
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return max([worst(x, y) for x, y in zip(a, b)] or [0])
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b)
    return 0 if a == b else math.inf


def shrink(case):
    for n in list(case["opts"]):
        o = dict(case["opts"])
        del o[n]
        yield with_key(case, "opts", o)
    for a in ("faults", "transient"):
        if case.get(a):
            yield with_key(case, a, [])
    yield from _cli.shrink_cli(case)
