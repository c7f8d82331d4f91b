"""Independent reference for the results of a simulation: recomputes, from the
problem files and states.json alone, every law the results have to obey.

check(files, states, controls=None) -> list of (property id, message)
"""
import bisect, json, math

EPS = 2.220446049250313e-16
BAR = 1e5
RHO0 = 0.785
T0, TCRIT, Z0, TEMP = 273.15, 192.033, 1.005, 283.15
P0, PCRIT = 1.01325 * BAR, 46.4512 * BAR
ALPHA = 0.257 / PCRIT - 0.533 * TCRIT / (PCRIT * TEMP)
ETA = 1e-5
C2 = P0 * TEMP / (Z0 * T0 * RHO0)
KAPPA = 60.0

LEN = {"m": 1.0, "km": 1e3, "dm": 0.1, "cm": 1e-2, "mm": 1e-3, "hm": 100.0, "in": 0.0254, "ft": 0.3048, "yd": 0.9144, "mi": 1609.344}

SHORT = ("Shortpipe", "Compressorstation", "Controlvalve")
POWER = ("Vphinode", "PVnode", "PQnode", "StochasticPQnode", "ExternalPowerplant")
GASNODE = ("Source", "Sink", "Innode", "ConstraintSink", "Pressureboundarynode")


def length(m):
    return m["value"] * LEN[m["unit"]]


def interp(data, key, t):
    """linear interpolation of [{key: t, values: [...]}]"""
    ts = [d[key] for d in data]
    if t <= ts[0]:
        return list(data[0]["values"])
    if t >= ts[-1]:
        return list(data[-1]["values"])
    i = bisect.bisect_left(ts, t)
    if ts[i] == t:
        return list(data[i]["values"])
    l = (t - ts[i - 1]) / (ts[i] - ts[i - 1])
    return [(1 - l) * a + l * b for a, b in zip(data[i - 1]["values"], data[i]["values"])]


def rho_of_p(p):
    return p / (C2 * (1 + ALPHA * p))


_spl = {}
regimes = {}       # how often which branch of the laws was compared, for the evidence


def seen(what):
    regimes[what] = regimes.get(what, 0) + 1



def friction(Re, D, k):
    if Re < 2000.0:
        return 64.0 / Re
    if Re > 4000.0:
        a = math.log10(k / (3.7 * D) + 5.74 / Re ** 0.9)
        return 0.25 / (a * a)
    key = (D, k)
    if key not in _spl:
        a0, b0 = 2000.0, 4000.0
        ya, da = 64.0 / a0, -64.0 / (a0 * a0)
        arg = k / (3.7 * D) + 5.74 / b0 ** 0.9
        lg = math.log10(arg)
        yb = 0.25 / (lg * lg)
        db = -0.5 / lg ** 3 * (1 / (math.log(10) * arg)) * (-0.9 * 5.74 * b0 ** -1.9)
        _spl[key] = (ya, da, yb, db)
    ya, da, yb, db = _spl[key]
    h = 2000.0
    s = (Re - 2000.0) / h
    return (ya * (1 + 2 * s) * (1 - s) ** 2 + da * h * s * (1 - s) ** 2 + yb * s * s * (3 - 2 * s) + db * h * s * s * (s - 1))


def generated_power(q, a, b):
    if q > KAPPA:
        return a * q
    if q < -KAPPA:
        return b * q
    r = q / KAPPA
    return q * (0.5 * (a + b) - 0.75 * (b - a) * r + 0.25 * (b - a) * r ** 3)


class Ref:
    def __init__(self, files):
        self.f = files
        pd = files["problem/problem_data.json"]
        self.pd = pd
        ss = pd["simulation_settings"]
        self.t0, self.t1, self.want = float(ss["start_time"]), float(ss["end_time"]), float(ss["desired_delta_t"])
        self.tol = float(ss["tolerance"])
        self.defaults = pd["problem_data"].get("defaults", {})
        top = pd["problem_data"].get("topology_json", "topology.json")
        self.top = files["problem/" + top] if isinstance(top, str) else top
        bnd = pd["problem_data"].get("boundary_json", "boundary.json")
        self.bnd = files["problem/" + bnd] if isinstance(bnd, str) else bnd
        self.ini = files["problem/initial.json"]
        self.ctl = files.get("problem/control.json", {})
        n = self.ratio_ceil((self.t1 - self.t0) / self.want)
        self.times_n = n  # set of acceptable numbers of steps

    @staticmethod
    def ratio_ceil(r):
        c = {math.ceil(r)}
        if abs(r - round(r)) < 1e-9 * max(1.0, abs(r)):
            c |= {round(r), round(r) + 1}
        return {x for x in c if x >= 1}

    def comp(self, section):
        for typ, lst in self.top.get(section, {}).items():
            for e in lst:
                d = dict(self.defaults.get(typ, {}))
                d.update(e)
                yield typ, d

    def boundary(self, section, typ, cid):
        for e in self.bnd.get(section, {}).get(typ, []):
            if e["id"] == cid:
                return e
        return None

    def initial(self, section, typ, cid):
        for e in self.ini.get(section, {}).get(typ, []):
            if e["id"] == cid:
                return e
        return None


def control_grid(R):
    cs = R.pd.get("control_settings")
    if cs is None:
        dt = R.want
        ns = sorted(R.times_n)
        return ns  # several acceptable
    if "desired_delta_t" in cs:
        return sorted(R.ratio_ceil((R.t1 - R.t0) / float(cs["desired_delta_t"])))
    return [int(cs["number_of_steps"]) - 1]


def check(files, states, controls=None, ctl_data=None):
    """controls: parsed controls.json (optimisation runs); otherwise taken from the input."""
    out = []
    R = Ref(files)

    def bad(p, m):
        if len(out) < 40:
            out.append((p, m))

    # ---------------------------------------------------------------- records
    want = {}
    for typ, e in R.comp("nodes"):
        if typ in POWER:
            want[("nodes", typ, e["id"])] = e
    for typ, e in R.comp("connections"):
        if typ != "Transmissionline":
            want[("connections", typ, e["id"])] = e
    rec = {}
    for sec, d in states.items():
        for typ, lst in d.items():
            for e in lst:
                key = (sec, typ, e.get("id"))
                if key in rec:
                    bad("C13", "component %s written twice" % (key,))
                if key not in want:
                    bad("C13", "unexpected component %s in the results" % (key,))
                rec[key] = e
    for key in want:
        if key not in rec:
            bad("C13", "component %s is missing in the results" % (key,))
    if out:
        return out
    n = None
    times = None
    for key, e in rec.items():
        ts = [r.get("time") for r in e["data"]]
        if times is None:
            times, n = ts, len(ts)
        elif ts != times:
            bad("C13", "time points of %s differ from those of the other components" % (key,))
    if times is None:
        return out
    scale = max(1.0, abs(R.t0), abs(R.t1))
    if n - 1 not in R.times_n:
        bad("C13", "%d time points, expected %s for [%r,%r] with desired step %r" % (n, [x + 1 for x in R.times_n], R.t0, R.t1, R.want))
        return out
    if times[0] != R.t0 or abs(times[-1] - R.t1) > 16 * EPS * scale:
        bad("C13", "results cover [%r,%r], requested [%r,%r]" % (times[0], times[-1], R.t0, R.t1))
    dt = (R.t1 - R.t0) / (n - 1)
    for i, t in enumerate(times):
        if abs(t - (R.t0 + i * dt)) > 16 * EPS * scale:
            bad("C13", "time point %d is %r, expected %r" % (i, t, R.t0 + i * dt))
            break
    if out:
        return out

    # finite numbers everywhere
    def fin(x):
        return isinstance(x, (int, float)) and math.isfinite(x)

    # ---------------------------------------------------------------- gas part
    slack0 = R.tol * (1 + 1e-6)
    node = {}
    for typ, e in R.comp("nodes"):
        node[e["id"]] = (typ, e)
    att = {}     # gas node id -> [(sign, p list, q list, name)]
    control_cands = []
    gas_edges = [(t, e) for t, e in R.comp("connections") if t != "Transmissionline"]

    # controls
    def control_value(typ, cid, t):
        if controls is not None:
            for e in controls.get("connections", {}).get(typ, []):
                if e["id"] == cid:
                    return interp(e["data"], "time", t)[0]
            return None
        return None

    ngrid = control_grid(R) if controls is None else []
    for typ, e in gas_edges:
        cid = e["id"]
        data = rec[("connections", typ, cid)]["data"]
        P = [[v["value"] for v in r["pressure"]] for r in data]
        Q = [[v["value"] for v in r["flow"]] for r in data]
        X = [[v["x"] for v in r["pressure"]] for r in data]
        XQ = [[v["x"] for v in r["flow"]] for r in data]
        for row in P + Q:
            if not all(fin(x) for x in row):
                bad("C10", "%s %s: non-finite value in the results" % (typ, cid))
                return out
        L = 1.0
        if typ == "Pipe":
            L = length(e["length"])
            ddx = float(e["desired_delta_x"])
            cand = R.ratio_ceil(L / ddx)
            m = len(X[0]) - 1
            if m not in cand:
                bad("C13", "pipe %s has %d grid points for length %r and desired spacing %r" % (cid, m + 1, L, ddx))
                continue
            xs = [i * L / m for i in range(m + 1)]
        elif typ == "Gaspowerconnection":
            xs = [0.0]
        else:
            xs = [0.0, 1.0]
        for row in X + XQ:
            if len(row) != len(xs) or any(abs(a - b) > 1e-9 * max(1.0, L) for a, b in zip(row, xs)):
                bad("C13", "%s %s: grid points %r, expected %r" % (typ, cid, row, xs))
                break
        if out:
            continue
        ini = R.initial("connections", typ, cid)
        for x, p, q in zip(xs, P[0], Q[0]):
            ip, iq = interp(ini["data"], "x", x)
            if abs(ip - p) > 1e-9 * max(1, abs(ip)) or abs(iq - q) > 1e-9 * max(1, abs(iq)):
                bad("C13", "%s %s at x=%r starts with (%r,%r), initial data say (%r,%r)" % (typ, cid, x, p, q, ip, iq))
                break
        att.setdefault(e["from"], []).append((1, [r[0] for r in P], [r[0] for r in Q], cid))
        if typ != "Gaspowerconnection":
            att.setdefault(e["to"], []).append((-1, [r[-1] for r in P], [r[-1] for r in Q], cid))
        if typ in SHORT:
            ok = None
            cands = [None]
            tslack = 0.0
            if typ != "Shortpipe":
                if controls is not None:
                    cands = [lambda t: control_value(typ, cid, t)]
                else:
                    ce = [c for c in R.ctl["connections"][typ] if c["id"] == cid][0]
                    cands = []
                    # the grid points are known up to rounding only
                    steep = max(abs((b["values"][0] - a["values"][0]) / (b["time"] - a["time"])) for a, b in zip(ce["data"], ce["data"][1:]))
                    tslack = 32 * EPS * scale * steep + 1e-12
                    for m in ngrid:
                        g = [R.t0 + i * (R.t1 - R.t0) / m for i in range(m + 1)]
                        gd = [{"time": t, "values": interp(ce["data"], "time", t)} for t in g]
                        cands.append(lambda t, gd=gd: interp(gd, "time", t)[0])
            errs = []
            for c in cands:
                err = None
                for i in range(1, n):
                    u = 0.0 if c is None else c(times[i])
                    if u:
                        seen("%s points with %s control" % (typ, "positive" if u > 0 else "negative"))
                    if typ == "Controlvalve":
                        u = -u
                    s = slack0 + 64 * EPS * (abs(P[i][0]) + abs(P[i][1]) + abs(u) + abs(Q[i][0])) + tslack
                    if abs(P[i][1] - P[i][0] - u) > s:
                        err = "%s %s at t=%r: pressure changes by %r, control demands %r" % (typ, cid, times[i], P[i][1] - P[i][0], u)
                        break
                    if abs(Q[i][1] - Q[i][0]) > s:
                        err = "%s %s at t=%r: flow in %r, flow out %r" % (typ, cid, times[i], Q[i][0], Q[i][1])
                        break
                errs.append(err)
            if all(errs):
                bad("C10", errs[0])
        if typ == "Pipe":
            D, k = length(e["diameter"]), length(e["roughness"])
            A = math.pi * D * D / 4
            dx = L / (len(xs) - 1)
            cRe = D / (A * ETA) * RHO0
            for i in range(1, n):
                h = times[i] - times[i - 1]
                F, S, rho = [], [], []
                old = [rho_of_p(p * BAR) for p in P[i - 1]]
                for p, q in zip(P[i], Q[i]):
                    r = rho_of_p(p * BAR)
                    Re = cRe * abs(q)
                    seen("pipe points with %s flow %s" % ("laminar" if Re < 2000 else "transitional" if Re < 4000 else "turbulent", "backwards" if q < 0 else "forwards"))
                    if Re < 2000.0:
                        s1 = -RHO0 / (2 * A * D) * 64 / cRe * q / r
                    else:
                        s1 = -RHO0 / (2 * A * D) * friction(Re, D, k) * abs(q) * q / r
                    rho.append(r)
                    F.append((RHO0 / A * q, A / RHO0 * p * BAR, RHO0 / A * q * q / r))
                    S.append(s1)
                for c in range(len(xs) - 1):
                    g = h / dx
                    r0 = 0.5 * (rho[c] + rho[c + 1]) - 0.5 * (old[c] + old[c + 1]) - g * (F[c][0] - F[c + 1][0])
                    m0 = abs(rho[c]) + abs(rho[c + 1]) + g * (abs(F[c][0]) + abs(F[c + 1][0]))
                    fr = g * (F[c][1] - F[c + 1][1] + F[c][2] - F[c + 1][2]) + 0.5 * h * (S[c] + S[c + 1])
                    r1 = 0.5 * (Q[i][c] + Q[i][c + 1]) - 0.5 * (Q[i - 1][c] + Q[i - 1][c + 1]) - fr
                    m1 = abs(Q[i][c]) + abs(Q[i][c + 1]) + g * (F[c][1] + F[c + 1][1] + F[c][2] + F[c + 1][2]) + 0.5 * h * (abs(S[c]) + abs(S[c + 1]))
                    # the spline in the transitional regime is evaluated from ill-scaled monomials by the code
                    if 1990 < cRe * min(abs(Q[i][c]), abs(Q[i][c + 1])) < 4010 or 1990 < cRe * max(abs(Q[i][c]), abs(Q[i][c + 1])) < 4010:
                        m1 += 1e4 * h * (abs(S[c]) + abs(S[c + 1]))
                    if abs(r0) > slack0 + 64 * EPS * m0:
                        bad("C10", "pipe %s cell %d t=%r: mass balance residual %r (tolerance %r)" % (cid, c, times[i], r0, R.tol))
                        break
                    if abs(r1) > slack0 + 64 * EPS * m1:
                        bad("C10", "pipe %s cell %d t=%r: momentum residual %r (tolerance %r)" % (cid, c, times[i], r1, R.tol))
                        break
                else:
                    continue
                break
        if typ == "Gaspowerconnection":
            a, b = float(e["gas2power_q_coeff"]), float(e["power2gas_q_coeff"])
            prow = rec[("nodes", "ExternalPowerplant", e["to"])]["data"]
            for i in range(1, n):
                g = generated_power(Q[i][0], a, b)
                seen("conversions %s %s" % ("power to gas" if Q[i][0] < 0 else "gas to power", "at small flow" if abs(Q[i][0]) < 0.6 * KAPPA else "in the outer smoothed zone" if abs(Q[i][0]) < KAPPA else "beyond the smoothed zone"))
                if abs(prow[i]["P"] - g) > slack0 + 256 * EPS * (1 + abs(g)) * 10:
                    bad("C12", "connection %s t=%r: flow %r converts to %r, plant %s has P=%r" % (cid, times[i], Q[i][0], g, e["to"], prow[i]["P"]))
                    break
    for nid, lst in att.items():
        typ, e = node[nid]
        be = R.boundary("nodes", typ, nid)
        has_gp = any(c[3] in {x["id"] for t, x in gas_edges if t == "Gaspowerconnection"} for c in lst)
        pr = "C12" if False else "C10"
        for i in range(1, n):
            ps = [x[1][i] for x in lst]
            s = slack0 * (len(ps)) + 64 * EPS * max(abs(p) for p in ps) * 4
            if typ == "Pressureboundarynode":
                v = interp(be["data"], "time", times[i])[0]
                for x in lst:
                    if abs(x[1][i] - v) > s + 1e-12 * abs(v):
                        bad("C10", "node %s t=%r: pressure of %s is %r, prescribed %r" % (nid, times[i], x[3], x[1][i], v))
                        if has_gp:
                            bad("C12", "node %s t=%r: pressure of %s is %r, prescribed %r" % (nid, times[i], x[3], x[1][i], v))
                        break
            else:
                if max(ps) - min(ps) > s:
                    m = "node %s t=%r: attached pressures differ: %r" % (nid, times[i], ps)
                    bad("C10", m)
                    if has_gp:
                        bad("C12", m)
                    break
                v = 0.0
                if typ != "Innode":
                    v = interp(be["data"], "time", times[i])[0]
                    if typ in ("Sink", "ConstraintSink"):
                        v = -v
                bal = sum(x[0] * x[2][i] for x in lst)
                if abs(bal - v) > slack0 + 64 * EPS * (abs(v) + sum(abs(x[2][i]) for x in lst)):
                    m = "node %s (%s) t=%r: flow balance %r, prescribed %r" % (nid, typ, times[i], bal, v)
                    bad("C10", m)
                    if has_gp:
                        bad("C12", m)
                    break
    # -------------------------------------------------------------- power part
    lines = [(e["from"], e["to"], float(e["G"]), float(e["B"])) for t, e in R.comp("connections") if t == "Transmissionline"]
    pw = {nid: (typ, e) for nid, (typ, e) in node.items() if typ in POWER}
    nb = {nid: [] for nid in pw}
    for a, b, g, bb in lines:
        nb[a].append((b, g, bb))
        nb[b].append((a, g, bb))
    rows = {nid: rec[("nodes", pw[nid][0], nid)]["data"] for nid in pw}
    for nid, (typ, e) in pw.items():
        be = R.boundary("nodes", typ, nid)
        ini = R.initial("nodes", typ, nid)
        r0 = rows[nid][0]
        iv = interp(ini["data"], "x", 0.0)
        if abs(r0["V"] - iv[0]) > 1e-12 * max(1, abs(iv[0])) or abs(r0["phi"] - iv[1]) > 1e-12 * max(1, abs(iv[1])):
            bad("C13", "power node %s starts with V=%r phi=%r, initial data say %r" % (nid, r0["V"], r0["phi"], iv))
        for i in range(0, n):
            r = rows[nid][i]
            if not all(fin(r.get(k)) for k in ("P", "Q", "V", "phi")):
                bad("C11", "power node %s t=%r: missing or non-finite values" % (nid, times[i]))
                return out
            V, ph = r["V"], r["phi"]
            G, B = float(e["G"]), float(e["B"])
            p, q = G * V * V, -B * V * V
            m = abs(p) + abs(q)
            for o, g, bb in nb[nid]:
                ro = rows[o][i]
                d = ph - ro["phi"]
                c, s_ = math.cos(d), math.sin(d)
                p += V * ro["V"] * (g * c + bb * s_)
                q += V * ro["V"] * (g * s_ - bb * c)
                m += abs(V * ro["V"]) * (abs(g) + abs(bb))
            s = slack0 + 64 * EPS * m
            bv = interp(be["data"], "time", times[i]) if be else None
            if i == 0 and typ == "StochasticPQnode" and (abs(r["P"] - p) > s or abs(r["Q"] - q) > s):
                bad("C11", "%s %s t=%r: reported P=%r Q=%r, the state of that row gives %r %r" % (typ, nid, times[i], r["P"], r["Q"], p, q))
                break
            if i == 0:
                continue    # row 0 holds the given state, which need not fulfil the equations
            if abs(r["P"] - p) > s or abs(r["Q"] - q) > s:
                bad("C11", "%s %s t=%r: reported P=%r Q=%r, power flow gives %r %r" % (typ, nid, times[i], r["P"], r["Q"], p, q))
                break
            tgt = {"PQnode": (("P", 0), ("Q", 1)), "PVnode": (("P", 0), ("V", 1)), "Vphinode": (("V", 0), ("phi", 1)),
                   "ExternalPowerplant": (("V", 0), ("phi", 1)), "StochasticPQnode": ()}[typ]
            for k, j in tgt:
                if abs(r[k] - bv[j]) > slack0 + 64 * EPS * (1 + m) + 1e-12:
                    bad("C11", "%s %s t=%r: %s is %r, prescribed %r" % (typ, nid, times[i], k, r[k], bv[j]))
                    break
            if typ == "StochasticPQnode":
                for k, j in (("P", 0), ("Q", 1)):
                    dv = r.get(k + "_deviation")
                    if dv is None or abs(dv - (r[k] - bv[j])) > s + 1e-12:
                        bad("C11", "%s %s t=%r: reported deviation %r of %s=%r from %r" % (typ, nid, times[i], dv, k, r[k], bv[j]))
                        break
    return out


# ------------------------------------------------ is there a power flow at all?
def _solve(A, b):
    """Gaussian elimination with partial pivoting; None if singular"""
    n = len(b)
    M = [row[:] + [v] for row, v in zip(A, b)]
    for c in range(n):
        p = max(range(c, n), key=lambda r: abs(M[r][c]))
        if abs(M[p][c]) < 1e-12:
            return None
        M[c], M[p] = M[p], M[c]
        for r in range(c + 1, n):
            f = M[r][c] / M[c][c]
            if f:
                for k in range(c, n + 1):
                    M[r][k] -= f * M[c][k]
    x = [0.0] * n
    for c in reversed(range(n)):
        x[c] = (M[c][n] - sum(M[c][k] * x[k] for k in range(c + 1, n))) / M[c][c]
    return x


def power_flow_exists(files, reserve=1.3, steps=20):
    """Whether the loads of the problem, and all smaller ones up to `reserve` times as large, can be served: the solution is followed from no load on.
    (A simulation of a grid that is close to or beyond its collapse may fail; the reference then has no opinion.)"""
    top, bnd, pd = files["problem/topology.json"], files["problem/boundary.json"], files["problem/problem_data.json"]
    nodes = [(t, e) for t in POWER for e in top["nodes"].get(t, [])]
    if not nodes:
        return True
    index = {e["id"]: i for i, (t, e) in enumerate(nodes)}
    n = len(nodes)
    G = [[0.0] * n for _ in range(n)]
    B = [[0.0] * n for _ in range(n)]
    for i, (t, e) in enumerate(nodes):
        G[i][i], B[i][i] = float(e["G"]), float(e["B"])
    for e in top["connections"].get("Transmissionline", []):
        i, j = index[e["from"]], index[e["to"]]
        for a, b in ((i, j), (j, i)):
            G[a][b] += float(e["G"])
            B[a][b] += float(e["B"])
    data = {e["id"]: e["data"] for t in POWER for e in bnd["nodes"].get(t, [])}
    if any(e["id"] not in data for t, e in nodes):
        return False
    s = pd["simulation_settings"]
    ts = {s["start_time"], s["end_time"]} | {d["time"] for v in data.values() for d in v if s["start_time"] < d["time"] < s["end_time"]}
    if len(ts) > 12:
        ts = sorted(ts)[::len(ts) // 12] + [s["end_time"]]
    for t in ts:
        V, ph = [1.0] * n, [0.0] * n
        for step in range(steps + 1):
            lam = reserve * step / steps
            P, Q = [0.0] * n, [0.0] * n
            for i, (typ, e) in enumerate(nodes):
                v = interp(data[e["id"]], "time", t)
                if typ in ("Vphinode", "ExternalPowerplant"):
                    V[i], ph[i] = 1 + min(lam, 1) * (v[0] - 1), min(lam, 1) * v[1]
                elif typ == "PVnode":
                    P[i], V[i] = lam * v[0], 1 + min(lam, 1) * (v[1] - 1)
                else:
                    P[i], Q[i] = lam * v[0], lam * v[1]
            fa = [i for i in range(n) if nodes[i][0] not in ("Vphinode", "ExternalPowerplant")]
            fv = [i for i in fa if nodes[i][0] != "PVnode"]
            if not fa:
                break
            for it in range(30):
                p, q = [0.0] * n, [0.0] * n
                for i in range(n):
                    for j in range(n):
                        c, d = math.cos(ph[i] - ph[j]), math.sin(ph[i] - ph[j])
                        p[i] += V[i] * V[j] * (G[i][j] * c + B[i][j] * d)
                        q[i] += V[i] * V[j] * (G[i][j] * d - B[i][j] * c)
                b = [P[i] - p[i] for i in fa] + [Q[i] - q[i] for i in fv]
                if max(map(abs, b)) < 1e-9:
                    break
                A = []
                for i in fa:
                    row = []
                    for j in fa:
                        c, d = math.cos(ph[i] - ph[j]), math.sin(ph[i] - ph[j])
                        row.append(-q[i] - B[i][i] * V[i] ** 2 if i == j else V[i] * V[j] * (G[i][j] * d - B[i][j] * c))
                    for j in fv:
                        c, d = math.cos(ph[i] - ph[j]), math.sin(ph[i] - ph[j])
                        row.append(p[i] / V[i] + G[i][i] * V[i] if i == j else V[i] * (G[i][j] * c + B[i][j] * d))
                    A.append(row)
                for i in fv:
                    row = []
                    for j in fa:
                        c, d = math.cos(ph[i] - ph[j]), math.sin(ph[i] - ph[j])
                        row.append(p[i] - G[i][i] * V[i] ** 2 if i == j else -V[i] * V[j] * (G[i][j] * c + B[i][j] * d))
                    for j in fv:
                        c, d = math.cos(ph[i] - ph[j]), math.sin(ph[i] - ph[j])
                        row.append(q[i] / V[i] - B[i][i] * V[i] if i == j else V[i] * (G[i][j] * d - B[i][j] * c))
                    A.append(row)
                x = _solve(A, b)
                if x is None:
                    return False
                for k, i in enumerate(fa):
                    ph[i] += x[k]
                for k, i in enumerate(fv):
                    V[i] += x[len(fa) + k]
                if not all(math.isfinite(v) and 0.3 < v < 3 for v in V) or max(map(abs, ph)) > 3:
                    return False
            else:
                return False
    return True
