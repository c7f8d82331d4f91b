"""Random loads: seeds are reported, reproduce the results, and the power obeys the band and the relaxation."""
import copy, json, math, random
from .. import gen, ref
from ..core import with_key
from . import _cli, _laws

ID = "C09"
PROGS = ["cli"]
REAL, STUB = _laws.REAL + ["random number generation (pcg, randutils)"], _laws.STUB
ASSUME = ["entropy (random_device, clock, addresses) is simulated; runs with different entropy must draw different seeds"]
RULE = ("random power and coupled networks with random loads; per load a seed is given or not; per quantity noise is on or off; parameters up to the stability limit; solver settings under which steps "
        "fail and are retried. The run is repeated with other entropy, clock and heap, then with the reported seeds as input. Non-trivial: at least one load and a successful first run; distinct by "
        "states.json.")


def generate(rng, tier, index):
    k = gen.knobs(rng, kind=rng.choice(["power", "power", "coupled"]), np=rng.choice([2, 3, 4, 6, 9]), stoch=rng.choice([.4, 1., 1.]), stoch_seed=rng.choice([0, 0, 1, 2]),
                  rough_init=rng.choice([0, 0, 0, 1]))
    if rng.random() < 0.3:
        k["maxit"] = rng.choice([2, 3, 4])
    if rng.random() < 0.1:
        k.update(steps=20, np=4, ng=2, stoch=1.)
    return {"knobs": k, "par": rng.randrange(1 << 30), "mode": rng.choice(["any", "any", "still", "one", "strength"]), "env": _laws.environment(rng), "env2": _laws.environment(rng),
            "faults": _laws.benign_faults(rng), "const_entropy": rng.random() < 0.15, "odd": rng.random() < 0.04}


def build(case):
    files = gen.build(case["knobs"])
    rng = random.Random(case["par"])
    dt = case["knobs"]["dt"]
    loads = {}
    top = files["problem/topology.json"]["nodes"].get("StochasticPQnode", [])
    bnd = {e["id"]: e for e in files["problem/boundary.json"]["nodes"].get("StochasticPQnode", [])}
    for e in sorted(top, key=lambda e: e["id"]):
        m = case["mode"]
        if m == "strength":
            e["theta_P"] = e["theta_Q"] = 0
            e["cut_off_factor"] = 3.0
            e["number_of_stochastic_steps"] = rng.choice([1, 7, 20])
            mu = [rng.choice([-1, 1]) * rng.uniform(.05, .1), rng.choice([-1, 1]) * rng.uniform(.05, .1)]
            n = case["knobs"]["steps"]
            for x, i in (("sigma_P", 0), ("sigma_Q", 1)):
                e[x] = abs(mu[i]) * 0.09 / math.sqrt(dt * n) * rng.uniform(.1, 1)
            for r in bnd[e["id"]]["data"]:
                r["values"] = mu
        else:
            e["number_of_stochastic_steps"] = rng.choice([1, 2, 5, 20, 100])
            e["stability_parameter"] = rng.choice([.1, .5, 1.0, 1.5])
            e["cut_off_factor"] = rng.choice([0.02, .1, .4, .9, 1.2])
            for x in ("theta_P", "theta_Q"):
                e[x] = rng.choice([0, rng.uniform(.01, .5), rng.uniform(.5, 3), rng.uniform(3, 30)]) / dt
            on = {"any": (1, 1), "still": (0, 0), "one": rng.choice([(0, 1), (1, 0)])}[m]
            for x, o in zip(("sigma_P", "sigma_Q"), on):
                e[x] = o * rng.choice([1e-5, .003, .02]) / math.sqrt(dt)
            if rng.random() < 0.3:
                for r in bnd[e["id"]]["data"]:
                    r["values"] = [-abs(r["values"][0]) - .02, abs(r["values"][1]) + .01]
        loads[e["id"]] = e
    for b in bnd.values():
        if "seed" in b and rng.random() < 0.2:
            b["seed"] = [rng.choice([0, 1, 4294967295, b["seed"][i]]) for i in range(8)]
    if case.get("odd") and bnd:
        # not a list of eight 32 bit numbers
        b = bnd[rng.choice(sorted(bnd))]
        s = b.get("seed") or [rng.randrange(1 << 32) for _ in range(8)]
        i = rng.randrange(8)
        b["seed"] = rng.choice([s + [5], s[:7], s[:i] + [s[i] + (1 << 32)] + s[i + 1:], s[:i] + [-1 - i] + s[i + 1:], s[:i] + [s[i] + .5] + s[i + 1:], [], s[0], s + s])
    return files, loads, bnd


def steps_of(e, theta, dt):
    n = e["number_of_stochastic_steps"]
    a = e["stability_parameter"]
    out = set()
    for eps in (-1e-12, 1e-12):
        if theta * dt / n * (1 + eps) >= a:
            for ep in (-1e-12, 1e-12):
                out.add(math.ceil(theta * dt / a * (1 + ep)) + 1)
        else:
            out.add(n)
    return out


def relax(e, last, theta, mu, dt, n):
    h, c, v = dt / n, e["cut_off_factor"], last
    s = (mu > 0) - (mu < 0)
    for _ in range(n):
        v += theta * (mu - v) * h
        if s * v < (1 - c) * s * mu:
            v = (1 - c) * mu
        elif s * v > (1 + c) * s * mu:
            v = (1 + c) * mu
    return v


def run(case, env):
    files, loads, bnd = build(case)

    def go(sub, fs, e, faults):
        env.put(sub, fs)
        e = dict(e)
        if case["const_entropy"]:
            e["entropy_const"] = True
        r = _cli.cli(env, ["run", sub], e, faults)
        st, _ = _laws.results(env, sub)
        return r, _cli.outcome(r)[0], st

    r1, rc, st1 = go("a", files, case["env"], case["faults"])
    env.note(st1)
    if case.get("odd") and loads:
        env.count("seeds that are none: " + ("accepted" if rc == 0 else "rejected"))
        if rc is None:
            env.violate("odd-seed", "a damaged seed leads to %s" % r1["stdout"][-300:])
    if rc != 0:
        env.count("runs ended with an error")
        k = case["knobs"]
        if not case.get("odd") and loads and k["kind"] == "power" and not k.get("rough_init") and k.get("maxit", 60) >= 40:
            # whatever the loads do in their bands, there is a power flow
            c = max(e["cut_off_factor"] for e in loads.values())
            if rc is not None and ref.power_flow_exists(files, 1.4 * (1 + c)):
                env.violate("no-result", "a simulation of moderate random loads did not succeed: %s" % r1["stdout"][-300:])
        return
    if not loads:
        return
    env.nontrivial = True
    env.interleaving(st1)
    if "retrying timestep" in r1["stdout"]:
        env.count("runs with retried steps")
    rec = {e["id"]: e for e in json.loads(st1)["nodes"]["StochasticPQnode"]}
    if set(rec) != set(loads):
        env.violate("missing", "random loads %r, in the results %r" % (sorted(loads), sorted(rec)))
        return
    tol = files["problem/problem_data.json"]["simulation_settings"]["tolerance"] * (1 + 1e-6) + 1e-12
    strength = [0.0, 0]
    for i, e in loads.items():
        s = rec[i].get("seed")
        if not isinstance(s, list) or len(s) != 8:
            env.violate("seed", "load %s reports the seed %r" % (i, s))
            return
        if "seed" in bnd[i] and s != bnd[i]["seed"]:
            env.violate("seed", "load %s was given the seed %r, but reports %r" % (i, bnd[i]["seed"], s))
            return
        data = rec[i]["data"]
        for x, j in (("P", 0), ("Q", 1)):
            for a, b in zip(data, data[1:]):
                mu = ref.interp(bnd[i]["data"], "time", b["time"])[j]
                dt = b["time"] - a["time"]
                c, v = e["cut_off_factor"], b[x]
                m = 64 * ref.EPS * (1 + 20 * 100)
                if mu and not ((1 - c) * mu - tol - m <= v <= (1 + c) * mu + tol + m if mu > 0 else (1 + c) * mu - tol - m <= v <= (1 - c) * mu + tol + m):
                    env.violate("band", "load %s t=%r: %s=%r is outside of the band of %r around %r" % (i, b["time"], x, v, c, mu))
                    return
                th = e["theta_" + x]
                if e["sigma_" + x] == 0:
                    want = [relax(e, a[x], th, mu, dt, n) for n in steps_of(e, th, dt)]
                    if min(abs(v - w) for w in want) > tol + 1e-9 * abs(v):
                        env.violate("relaxation", "load %s t=%r: %s went from %r to %r without noise, relaxation towards %r gives %r" % (i, b["time"], x, a[x], v, mu, want))
                        return
                elif case["mode"] == "strength" and abs(a[x] - mu) < 2.6 * abs(mu) and abs(v - mu) < 2.6 * abs(mu):
                    strength[0] += (v - a[x]) ** 2 / (e["sigma_" + x] ** 2 * dt)
                    strength[1] += 1
                    if tol > 0.01 * e["sigma_" + x] * math.sqrt(dt):
                        strength[1] = -10 ** 9
    if strength[1] >= 30:
        env.count("noise strength judged")
        if not 0.1 < strength[0] / strength[1] < 4.5:
            env.violate("strength", "%d increments of the random loads have %r times the variance of the given noise" % (strength[1], strength[0] / strength[1]))
            return
    free = [i for i in loads if "seed" not in bnd[i]]
    seeds = [tuple(rec[i]["seed"]) for i in free]
    if len(set(seeds)) != len(seeds):
        env.violate("same-seeds", "two random loads drew the same seed: %r" % seeds)
        return
    # another run: same given seeds, other entropy
    if free:
        r2, rc2, st2 = go("b", files, dict(case["env2"], entropy=case["env2"]["entropy"] + (1 << 31)), [])
        if rc2 == 0 and not case["const_entropy"]:
            s2 = {e["id"]: tuple(e["seed"]) for e in json.loads(st2)["nodes"]["StochasticPQnode"]}
            for i in free:
                if s2[i] in seeds:
                    env.violate("same-seeds", "load %s drew the seed %r in two runs with different entropy" % (i, s2[i]))
                    return
    # the reported seeds fed back
    fs = {n: copy.deepcopy(v) if n == "problem/boundary.json" else v for n, v in files.items()}
    for e in fs["problem/boundary.json"]["nodes"].get("StochasticPQnode", []):
        e["seed"] = rec[e["id"]]["seed"]
    r3, rc3, st3 = go("f", fs, case["env2"], [])
    env.note(st3)
    if rc3 != 0:
        env.violate("reproduce", "with the reported seeds the run fails: %s" % r3["stdout"][-300:])
    elif st3 != st1:
        env.violate("reproduce", "the reported seeds, given as input, lead to other results")


def shrink(case):
    yield from _laws.shrink(case)
    if case["const_entropy"]:
        yield with_key(case, "const_entropy", False)
    if case.get("odd"):
        yield with_key(case, "odd", False)
