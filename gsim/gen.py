"""Random problems (gas, power, coupled networks) built from a small dict of knobs.

`knobs()` draws a knob dict from an RNG; `build(knobs)` deterministically turns
it into {relative file name: JSON value}.  Minimisation works on the knobs.
"""
import math, random

UNIT = {"m": 1.0, "km": 1e3, "cm": 1e-2, "mm": 1e-3, "ft": 0.3048, "mile": None}


def length_units():
    # factors are the physical definitions; names as accepted by the input format
    return {"m": 1.0, "km": 1000.0, "cm": 0.01, "mm": 0.001, "ft": 0.3048, "in": 0.0254, "yd": 0.9144, "mi": 1609.344}


def ulen(rng, metres, mixed):
    if not mixed:
        return {"unit": "m", "value": metres}
    u = rng.choice(sorted(length_units()))
    return {"unit": u, "value": metres / length_units()[u]}


def knobs(rng, kind=None, **over):
    kind = kind or rng.choice(["gas", "gas", "power", "coupled", "coupled"])
    k = {
        "seed": rng.randrange(1 << 30),
        "kind": kind,
        "ng": rng.choice([2, 2, 3, 4, 5, 7, 10]),
        "np": rng.choice([1, 2, 2, 3, 4, 6, 9]),
        "steps": rng.choice([1, 2, 3, 4, 6, 10]),
        "dt": rng.choice([60.0, 300.0, 450.0, 900.0, 1800.0, 3600.0, 0.1, 7.3, 333.3333333]),
        "start": rng.choice([0, 0, 0, 3600, 100.5, -600, 86400, 31536000.25, 1600000000, -86400.5]),
        "uneven": rng.choice([0, 0, 1]),      # desired dt does not divide the span
        "short": rng.choice([0.0, 0.2, 0.5, 0.8]),
        "extra": rng.choice([0, 0, 1, 2]),
        "controls": rng.choice([0, 1, 1]),
        "stoch": rng.choice([0.0, 0.0, 0.4, 1.0]),
        "stoch_seed": 1,
        "sigma": rng.choice([0.0, 0.005, 0.02]),
        "mixed_units": rng.choice([0, 1]),
        "flow": rng.choice([0.02, 1.0, 10.0, 60.0, 120.0]),
        "load": rng.choice([0.1, 0.3, 0.5]),
        "rough_init": rng.choice([0, 0, 0, 1]),   # initial data not consistent
        "dense_times": rng.choice([0, 1, 1, 2]),
        "simplified": rng.choice([True, True, False]),
        "retries": rng.choice([0, 1, 2, 3]),
        "tol": rng.choice([1e-6, 1e-6, 1e-7, 1e-5]),
        "cells": rng.choice([1, 2, 3, 6]),
        "ctrl_grid": rng.choice([0, 0, 1, 2, 3]),
        "dir_noise": rng.choice([0, 1]),
        "wide": rng.choice([0, 1]),
        "inline": 0,
    }
    k.update(over)
    return k


def ids(rng, n, prefix):
    style = rng.randrange(4)
    out = []
    for i in range(n):
        if style == 0:
            out.append("%s%d" % (prefix, i))
        elif style == 1:
            out.append("%s_%s" % (prefix, "".join(rng.choice("abcxyzABC01289-_ ") for _ in range(6)) + str(i)))
        elif style == 2:
            out.append("%s%04d" % (prefix, 9999 - 37 * i))
        else:
            out.append(chr(97 + rng.randrange(26)) + prefix + str(i * 7 % 101) + "_" + str(i))
    return out


def times(rng, t0, t1, dense, n_max=6):
    lo = t0 - (rng.choice([0, 0, 50.0, 1000.0]))
    hi = t1 + (rng.choice([0, 0, 50.0, 100000.0]))
    n = rng.randrange(1, n_max) if dense else 0
    if dense == 2:
        # long courses, unevenly spaced: many measurements in one part, few in the others
        n = rng.choice([15, 30, 60])
        a, b = sorted([rng.uniform(t0, t1), rng.uniform(t0, t1)])
        pts = [rng.uniform(a, b) if rng.random() < 0.8 else rng.uniform(t0, t1) for _ in range(n)]
    else:
        pts = [rng.uniform(t0, t1) for _ in range(n)]
    ts = sorted(set([lo, hi] + [round(t, 3) for t in pts]))
    out = [ts[0]]
    for t in ts[1:]:
        if t - out[-1] > 1.0:
            out.append(t)
        elif t == ts[-1]:
            out[-1] = t
    if len(out) == 1:
        out = [lo, hi]
    return out


def series(ts, fs):
    return [{"time": t, "values": [f(t) for f in fs]} for t in ts]


def build(k):
    rng = random.Random(k["seed"])
    t0 = k["start"]
    span = k["steps"] * k["dt"]
    desired = k["dt"]
    if k["uneven"] and k["steps"] > 1:
        desired = k["dt"] * (1 + 0.5 * rng.random() / k["steps"])
        desired = min(desired, span / (k["steps"] - 1) * 0.999)
    t1 = t0 + span
    top = {"nodes": {}, "connections": {}}
    bnd = {"nodes": {}, "connections": {}}
    ini = {"nodes": {}, "connections": {}}
    ctl = {"connections": {}}
    lob, upb = {"connections": {}}, {"connections": {}}
    clo, cup = {"nodes": {}}, {"nodes": {}}
    dense = k["dense_times"]
    tol = k["tol"]

    def add(d, section, typ, entry):
        d[section].setdefault(typ, []).append(entry)

    def ramp(target, base=0.0, wig=0.0):
        # base at t0, smooth towards base+target
        a = rng.uniform(0.5, 1.0)
        ph = rng.uniform(0, 6.28)

        def f(t):
            s = max(0.0, min(1.0, (t - t0) / span)) if span else 0.0
            v = base + target * a * s
            if wig:
                v += wig * math.sin(6.28 * s) * math.sin(ph)
            return round(v, 9)
        return f

    # ------------------------------------------------------------- gas part
    gas_terminals = []   # gas node ids usable for gas power connections
    coupled = k["kind"] == "coupled"
    if coupled:
        k = dict(k, flow=min(k["flow"], 60.0))
    # small coefficients: flows far beyond the smoothed zone of the conversion
    gp_scale = random.Random(k["seed"] * 7 + 1).choice([1, 1, 0.3, 0.12, 0.06, 0.03]) if coupled and k["ng"] <= 5 else 1
    p0 = round(rng.uniform(45, 80), 3)
    if k["kind"] in ("gas", "coupled"):
        n = max(3 if k.get("optimize") else 2, k["ng"])
        name = ids(rng, n, "g")
        parent = list(range(n))       # union find over short elements

        def find(i):
            while parent[i] != i:
                i = parent[i]
            return i
        edges = []     # (from, to, type)
        for i in range(1, n):
            j = rng.randrange(max(0, i - 3), i)
            typ = "Pipe"
            if rng.random() < k["short"] or (k.get("optimize") and i == 1):
                typ = rng.choice(["Shortpipe", "Compressorstation", "Controlvalve"] if k["controls"] else ["Shortpipe"])
                if k.get("optimize") and i == 1 and k["controls"]:
                    typ = rng.choice(["Compressorstation", "Compressorstation", "Controlvalve"])
            a, b = (j, i) if rng.random() < 0.6 else (i, j)
            edges.append([a, b, typ])
            if typ != "Pipe":
                parent[find(a)] = find(b)
        if all(e[2] != "Pipe" for e in edges) and k.get("need_pipe", 1):
            edges[-1][2] = "Pipe"
            parent = list(range(n))
            for a, b, typ in edges:
                if typ != "Pipe":
                    parent[find(a)] = find(b)
        for _ in range(k["extra"]):
            a, b = rng.randrange(n), rng.randrange(n)
            if a != b:
                edges.append([a, b, "Pipe"])
        deg = [0] * n
        for a, b, _ in edges:
            deg[a] += 1
            deg[b] += 1
        # node types: one pressure node; flow nodes
        ntype = [None] * n
        pn = rng.randrange(n)
        ntype[pn] = "Pressureboundarynode" if not k.get("flow_only") else None
        pclusters = {find(pn)}
        for i in range(n):
            if ntype[i]:
                continue
            r = rng.random()
            if r < 0.12 and find(i) not in pclusters and not k.get("flow_only"):
                ntype[i] = "Pressureboundarynode"
                pclusters.add(find(i))
            elif r < 0.45:
                ntype[i] = "Innode"
            elif r < 0.75:
                ntype[i] = "Sink"
            elif r < 0.85 or k.get("optimize"):
                ntype[i] = "ConstraintSink"
            else:
                ntype[i] = "Source"
        if k.get("optimize") and "ConstraintSink" not in ntype:
            cand = [i for i in range(n) if i != pn]
            ntype[cand[-1]] = "ConstraintSink"
        rough = k["rough_init"]
        for i in range(n):
            e = {"id": name[i]}
            if rng.random() < 0.3:
                e["x"], e["y"] = float(i), 2.0
            add(top, "nodes", ntype[i], e)
            if ntype[i] == "Pressureboundarynode":
                f = ramp(rng.uniform(-3, 3), p0, rng.uniform(0, 1.0))
                add(bnd, "nodes", ntype[i], {"id": name[i], "data": series(times(rng, t0, t1, dense), [f])})
            elif ntype[i] != "Innode":
                f = ramp(rng.uniform(-1, 1) * k["flow"] / n, rng.uniform(-1, 1) * k["flow"] / n if rough else 0.0,
                         rng.uniform(0, 0.3) * k["flow"] / n)
                add(bnd, "nodes", ntype[i], {"id": name[i], "data": series(times(rng, t0, t1, dense), [f])})
            if ntype[i] == "ConstraintSink":
                add(clo, "nodes", "ConstraintSink", {"id": name[i], "data": series(times(rng, t0, t1, dense), [lambda t: k.get("clo", 1.0)])})
                add(cup, "nodes", "ConstraintSink", {"id": name[i], "data": series(times(rng, t0, t1, dense), [lambda t: k.get("cup", 1000.0)])})
        def smooth(eid, v):  # now and then (hydraulically) smooth or very rough pipes
            r = random.Random("%d %s roughness" % (k["seed"], eid))
            return v if r.random() > 0.2 else r.choice([0.0, 1e-9, 1e-7, 1e-6, 1e-3, 5e-3])

        for c, (a, b, typ) in enumerate(edges):
            eid = "%s_%d" % (typ[:2].lower() + rng.choice("abcdef"), (c * 17) % 101)
            e = {"id": eid, "from": name[a], "to": name[b]}
            if typ == "Pipe":
                L = round(rng.uniform(3000, 25000), 1)
                if rng.random() < 0.2:
                    L = round(rng.uniform(500, 3000), 1)
                dx = L / k["cells"] * rng.uniform(1.0, 1.3)
                e["length"] = ulen(rng, L, k["mixed_units"])
                D = round(rng.uniform(0.5, 1.2) if gp_scale == 1 else rng.uniform(0.95, 1.4), 3)
                if rng.random() < 0.3:
                    D = 0.9144
                e["diameter"] = ulen(rng, D, k["mixed_units"])
                e["roughness"] = ulen(rng, smooth(e["id"], rng.choice([8e-6, 1e-5, 5e-5, 1e-4])), k["mixed_units"])
                e["desired_delta_x"] = round(dx, 2)
                if rough:
                    qa = rng.uniform(-1, 1) * k["flow"] / n
                    pa, pb = p0 * rng.uniform(0.98, 1.02), p0 * rng.uniform(0.98, 1.02)
                else:
                    qa, pa, pb = 0.0, p0, p0
                m = rng.choice([2, 3, 5])
                xs = [0.0] + sorted(round(rng.uniform(0.05, 0.95) * L, 2) for _ in range(m - 2)) + [math.ceil(L) + rng.choice([1, 1000])]
                data = [{"x": x, "values": [round(pa + (pb - pa) * min(1, x / L), 9), qa]} for x in xs]
                if rough and rng.random() < 0.5:
                    data[len(data) // 2]["values"][0] += 0.3
                add(ini, "connections", "Pipe", {"id": eid, "data": data})
            else:
                if typ == "Compressorstation":
                    e["typeOfControl"] = "pressure"
                if typ in ("Compressorstation", "Controlvalve") and k.get("weights") and rng.random() < 0.5:
                    e["cost_weight"] = 2.5
                q = rng.uniform(-1, 1) * k["flow"] / n if rough else 0.0
                add(ini, "connections", typ, {"id": eid, "data": [{"x": 0.0, "values": [p0, q]}, {"x": 1.0, "values": [p0, q]}]})
                if typ in ("Compressorstation", "Controlvalve"):
                    f = ramp(rng.uniform(0, 4), rng.uniform(0, 2) if rough else 0.0, rng.uniform(0, 0.5))
                    # a compressor may also throttle, a valve raise the pressure
                    sign = -1.0 if random.Random(k["seed"] * 31 + c).random() < 0.3 else 1.0
                    add(ctl, "connections", typ, {"id": eid, "data": series(times(rng, t0, t1, dense), [lambda t, f=f, sign=sign: sign * max(0.0, f(t)) + 0.0])})
                    add(lob, "connections", typ, {"id": eid, "data": series(times(rng, t0, t1, 0), [lambda t, sign=sign: 0.0 if sign > 0 else -k.get("ub", 40.0)])})
                    add(upb, "connections", typ, {"id": eid, "data": series(times(rng, t0, t1, 0), [lambda t: k.get("ub", 40.0)])})
            add(top, "connections", typ, e)
        # the residual of a momentum equation cannot be evaluated better than this
        floor = 0.0
        for e in top["connections"].get("Pipe", []):
            L, D = e["length"]["value"] * length_units()[e["length"]["unit"]], e["diameter"]["value"] * length_units()[e["diameter"]["unit"]]
            cells = math.ceil(L / e["desired_delta_x"])
            x = k["dt"] * cells / L * (D * D * 0.8 / 0.785) * (p0 + 5) * 1e5 * 2.3e-16
            floor += cells * x * x
        tol = max(tol, 40 * math.sqrt(floor))
        gas_terminals = [i for i in range(n) if ntype[i] in ("Innode", "Sink", "Source", "Pressureboundarynode", "ConstraintSink")]
        gas_names = name
        # a short-element cluster without pipe and pressure node would be over-determined
        # (cannot happen: the network is connected and holds a pressure node or a pipe)
    # ----------------------------------------------------------- power part
    if k["kind"] in ("power", "coupled"):
        n = max(1, k["np"])
        name = ids(rng, n, "N")
        if coupled:
            nx = rng.choice([1, 1, 2]) if n > 2 and not k.get("one_plant") else 1
        else:
            nx = 0
        ptype = []
        for i in range(n):
            if i < nx:
                ptype.append("ExternalPowerplant")
            elif i == 0:
                ptype.append("Vphinode")
            else:
                r = rng.random()
                if r < k["stoch"]:
                    ptype.append("StochasticPQnode")
                elif r < 0.25 + k["stoch"]:
                    ptype.append("PVnode")
                else:
                    ptype.append("PQnode")
        # a grid that feeds power into the plants
        feed = -1.0 if coupled and random.Random(k["seed"] * 11 + 5).random() < 0.4 else 1.0
        lines = []
        for i in range(1, n):
            lines.append((rng.randrange(max(0, i - 4), i), i))
        for _ in range(k["extra"]):
            if n > 1:
                a, b = rng.randrange(n), rng.randrange(n)
                if a != b and (((a, b) not in lines and (b, a) not in lines) or k["seed"] % 2):     # also double circuits
                    lines.append((a, b))
        Gs, Bs = [0.0] * n, [0.0] * n
        for c, (a, b) in enumerate(lines):
            g, bb = round(rng.uniform(0, 2), 4), round(rng.uniform(5, 20), 4)
            lid = "TL_%d_%s" % ((c * 13) % 97, rng.choice("pqrs"))
            if rng.random() < 0.5:
                a, b = b, a
            add(top, "connections", "Transmissionline", {"id": lid, "from": name[a], "to": name[b], "G": -g, "B": bb})
            for i in (a, b):
                Gs[i] += g
                Bs[i] -= bb
        for i in range(n):
            e = {"id": name[i], "G": Gs[i] + (round(rng.uniform(0, 0.05), 4) if rng.random() < 0.3 else 0.0),
                 "B": Bs[i] + (round(rng.uniform(-0.05, 0.05), 4) if rng.random() < 0.3 else 0.0)}
            typ = ptype[i]
            ld = k["load"] / max(1.0, (n - 1) / (2 if coupled else 4)) * feed
            if typ in ("Vphinode", "ExternalPowerplant"):
                w = 0.2 if nx > 1 else 1.0     # two fixed angles force a power exchange
                fs = [ramp(w * rng.uniform(-0.02, 0.02), 1.0), ramp(w * rng.uniform(-0.05, 0.05))]
            elif typ == "PVnode":
                fs = [ramp(rng.uniform(-ld, ld), 0, 0.05), ramp(rng.uniform(-0.02, 0.02), 1.0)]
            else:
                fs = [ramp(rng.uniform(-ld, 0.2 * ld), -0.05 * ld, 0.05), ramp(rng.uniform(-0.5 * ld, 0.2 * ld), -0.02, 0.02)]
            bv = {"id": name[i], "data": series(times(rng, t0, t1, dense), fs)}
            if typ == "StochasticPQnode":
                seed = [rng.randrange(1 << 32) for _ in range(8)]
                if k["stoch_seed"] == 1 or (k["stoch_seed"] == 2 and rng.random() < 0.5):
                    bv["seed"] = seed
                e.update({"number_of_stochastic_steps": rng.choice([5, 20, 50]), "stability_parameter": 0.5,
                          "cut_off_factor": rng.choice([0.1, 0.4]), "theta_P": round(rng.uniform(0.0005, 0.01), 5),
                          "sigma_P": round(k["sigma"] * rng.uniform(0.1, 1) / math.sqrt(k["dt"]), 8),
                          "theta_Q": round(rng.uniform(0.0005, 0.01), 5),
                          "sigma_Q": round(k["sigma"] * rng.uniform(0.1, 1) / math.sqrt(k["dt"]), 8)})
            add(top, "nodes", typ, e)
            add(bnd, "nodes", typ, bv)
            V, phi = (1.0, 0.0) if not k["rough_init"] else (round(rng.uniform(0.97, 1.03), 5), round(rng.uniform(-0.03, 0.03), 5))
            add(ini, "nodes", typ, {"id": name[i], "data": [{"x": 0.0, "values": [V, phi]}]})
        for i in range(nx):
            g = rng.choice(gas_terminals)
            cid = "g2p_%d%s" % (50 - i, rng.choice("uvw"))
            a, b = round(gp_scale * rng.uniform(0.03, 0.06), 5), round(gp_scale * rng.uniform(0.03, 0.12), 5)
            add(top, "connections", "Gaspowerconnection",
                {"id": cid, "from": gas_names[g], "to": name[i], "gas2power_q_coeff": a, "power2gas_q_coeff": b})
            add(bnd, "connections", "Gaspowerconnection", {"id": cid, "data": [{"time": t0, "values": [0.0]}, {"time": t1, "values": [0.0]}]})
            add(ini, "connections", "Gaspowerconnection", {"id": cid, "data": [{"x": 0.0, "values": [p0, 0.0]}]})
    # a shuffled file order (results must not depend on it)
    if k["wide"]:
        for d in (top, bnd, ini):
            for s in d.values():
                for lst in s.values():
                    rng.shuffle(lst)
    defaults = {"Pipe": {"balancelaw": "Isothermaleulerequation", "scheme": "Implicitboxscheme", "desired_delta_x": 10000}}
    pd = {
        "simulation_settings": {"use_simplified_newton": k["simplified"], "maximal_number_of_newton_iterations": k.get("maxit", 60),
                                "tolerance": tol, "retries": k["retries"], "start_time": t0, "end_time": t1,
                                "desired_delta_t": desired},
        "problem_data": {"topology_json": "topology.json", "boundary_json": "boundary.json", "defaults": defaults},
    }
    if k["ctrl_grid"] == 1:
        pd["control_settings"] = {"desired_delta_t": k["dt"] * rng.choice([2, 1.5, 0.5, 3])}
    elif k["ctrl_grid"] == 2:
        pd["control_settings"] = {"number_of_steps": rng.choice([2, 2, 3, 5])}
    elif k["ctrl_grid"] == 3:
        pd["control_settings"] = {"desired_delta_t": desired}
    if k.get("optimize"):
        pd["optimize"] = True
        pd["constraint_settings"] = {"evaluate_constraints_every_n": k.get("every_n", 1)}
    elif rng.random() < 0.3:
        pd["optimize"] = False
    for s in (top, bnd, ini):
        for key in list(s):
            if not s[key] and rng.random() < 0.5 and key == "nodes" and s is ini:
                del s[key]
    if k["kind"] == "power":
        ini.pop("connections", None) if not ini.get("connections") else None
    files = {"problem/problem_data.json": pd, "problem/topology.json": top, "problem/boundary.json": bnd,
             "problem/initial.json": ini, "problem/control.json": ctl}
    if k.get("optimize"):
        files["problem/lower_bounds.json"] = lob
        files["problem/upper_bounds.json"] = upb
        files["problem/constraint_lower_bounds.json"] = clo
        files["problem/constraint_upper_bounds.json"] = cup
    return files
