"""Driver of the deterministic simulation checks.

A property module supplies
    ID, PROGS, RULE, ASSUME, REAL, STUB
    generate(rng, tier, index) -> case      (pure JSON, everything random is in it)
    run(case, env)             -> None      (reports through env)
    shrink(case)               -> iterator of simpler cases  (optional)
The same case always gives the same execution: env folds the event hash of every
simulated run (and its output) into env.hash.
"""
import fcntl, hashlib, importlib, json, os, random, select, shutil, signal, subprocess, sys, tempfile, time, traceback
from . import worker as W

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, "known_findings.json")
WORKERS = int(os.environ.get("GSIM_WORKERS", "0")) or min(8, os.cpu_count() or 8)


class Reject(Exception):
    """the generated case is not usable (counted, not judged)"""


class Env:
    """What a case sees of the harness; one per worker process, reset per case."""

    def __init__(self, slot):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        # constant length: path lengths enter allocation sizes
        self.base = os.path.join(base, "gsim%07d_%02d" % (os.getpid() % 10000000, slot % 100))
        shutil.rmtree(self.base, ignore_errors=True)
        os.makedirs(self.base)
        self.stats = {}
        self.reset()

    def reset(self):
        self.violations = []     # (key, message)
        self._h = hashlib.sha1()
        self.nontrivial = False
        self.sig = hashlib.sha1()
        self.trace = []
        self.notes = []
        for f in os.listdir(self.base):
            p = os.path.join(self.base, f)
            shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.unlink(p)

    def close(self):
        W.close_all()
        shutil.rmtree(self.base, ignore_errors=True)

    # ------------------------------------------------------------- reporting
    def violate(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append((key, str(msg)[:2000]))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def note(self, *x):
        """folds an observation into the hash of the execution"""
        for i in x:
            self._h.update(repr(i).encode())

    def interleaving(self, *x):
        """what makes this case distinct by the stated rule"""
        for i in x:
            self.sig.update(repr(i).encode())

    @property
    def hash(self):
        return self._h.hexdigest()

    # -------------------------------------------------------------- running
    def dir(self, name):
        p = os.path.join(self.base, name)
        if not os.path.isdir(p):
            os.makedirs(p)
        return p

    def path(self, *x):
        return os.path.join(self.base, *x)

    def put(self, sub, files):
        """files: {relative name: JSON value | bytes | None (directory)}"""
        for n, v in files.items():
            p = os.path.join(self.base, sub, n)
            if v is None:
                os.makedirs(p, exist_ok=True)
                continue
            d = os.path.dirname(p)
            if not os.path.isdir(d):
                os.makedirs(d)
            with open(p, "wb") as f:
                f.write(v if isinstance(v, bytes) else json.dumps(v, indent=1).encode())

    def tree(self, sub=""):
        """{relative path: bytes, or None for a directory} of everything below sub"""
        out = {}
        root = os.path.join(self.base, sub)
        for r, ds, fs in os.walk(root):
            for d in ds:
                out[os.path.relpath(os.path.join(r, d), root)] = None
            for f in fs:
                p = os.path.join(r, f)
                if os.path.islink(p):
                    out[os.path.relpath(p, root)] = b"->" + os.readlink(p).encode()
                else:
                    with open(p, "rb") as h:
                        out[os.path.relpath(p, root)] = h.read()
        return out

    def sim(self, prog, scenario):
        sc = dict(scenario)
        sc.setdefault("cwd", self.base)
        if self.want_trace:
            sc["trace"] = True
        r = W.worker(prog).run(sc)
        st = self.stats
        st["simulated_runs"] = st.get("simulated_runs", 0) + 1
        st["simulated_us"] = st.get("simulated_us", 0) + int(r.get("covered_us", 0))
        st["events"] = st.get("events", 0) + int(r.get("events", 0))
        st["task_switches"] = st.get("task_switches", 0) + int(r.get("switches", 0))
        for k, n in r.get("faultcount", {}).items():
            st["fault " + k] = st.get("fault " + k, 0) + n
        if r.get("alloc_failed"):
            st["fault err:alloc"] = st.get("fault err:alloc", 0) + r["alloc_failed"]
        for a in r.get("actors", []):
            if a["status"] == "crashed":
                st["fault crash"] = st.get("fault crash", 0) + 1
        out = r.get("stdout", "").replace(self.base, "$B")
        self._h.update(("%s %s %s|" % (r.get("hash"), r.get("signal"), out)).encode())
        if self.want_trace:
            self.trace.append({"scenario": scenario if len(json.dumps(scenario)) < 4000 else "(long)", "events": r.get("trace", [])[-400:],
                               "stdout": out[-1500:]})
        if r.get("escapes"):
            self.violate("escape", "write access outside the simulated directory: %r" % r["escapes"][:3])
        return r

    want_trace = False


# ------------------------------------------------------------------- one case
ODD = (KeyError, TypeError, IndexError, AttributeError, ValueError, ZeroDivisionError, OverflowError, FileNotFoundError, IsADirectoryError, NotADirectoryError)


def execute(mod, env, case, trace=False):
    env.reset()
    env.want_trace = trace
    try:
        mod.run(case, env)
        st = "ok"
    except Reject as e:
        st = "reject"
        env.violations = []
    except ODD as e:
        # what the program produced does not have the form the oracle reads (cannot happen on well-formed output)
        st = "ok"
        f = traceback.extract_tb(e.__traceback__)[-1]
        env.violate("uninterpretable", "the outcome does not have the expected form: %s (%s in %s)" % (str(e)[:200] or type(e).__name__, type(e).__name__, f.name))
    return {"status": st, "violations": list(env.violations), "hash": env.hash, "nontrivial": env.nontrivial,
            "sig": env.sig.hexdigest(), "trace": env.trace}


def load(pid):
    return importlib.import_module("gsim.props." + pid.lower())


def seed_for(base, pid, index):
    return int.from_bytes(hashlib.sha256(("%s/%s/%d" % (base, pid, index)).encode()).digest()[:8], "big")


def make_case(mod, seed, tier, index):
    rng = random.Random(seed_for(seed, mod.ID, index))
    return mod.generate(rng, tier, index)


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)["findings"]
    except FileNotFoundError:
        return []


def is_known(pid, key):
    for k in known():
        if k["property"] == pid and k["key"] == key and not k.get("fixed"):
            return k
    return None


# ------------------------------------------------------------------- workers
def _child(mod, seed, tier, slot, n, limit, deadline, wfd):
    env = Env(slot)
    out = {"cases": 0, "rejected": 0, "sigs": set(), "samples": [], "harness_errors": 0}
    last = time.time()

    def flush(final=False):
        m = {"t": "done" if final else "progress", "cases": out["cases"], "rejected": out["rejected"], "harness_errors": out["harness_errors"],
             "stats": env.stats, "sigs": sorted(out["sigs"]), "samples": out["samples"]}
        os.write(wfd, b"") if False else None
        data = json.dumps(m).encode() + b"\n"
        with os.fdopen(os.dup(wfd), "wb") as f:
            f.write(data)
        env.stats = {}
        out.update(cases=0, rejected=0, sigs=set(), samples=[], harness_errors=0)

    try:
        i = slot
        while i < limit and time.time() < deadline:
            case = make_case(mod, seed, tier, i)
            try:
                r = execute(mod, env, case)
            except W.HarnessError as e:
                out["harness_errors"] += 1
                with os.fdopen(os.dup(wfd), "wb") as f:
                    f.write(json.dumps({"t": "herr", "index": i, "msg": str(e)[:1500]}).encode() + b"\n")
                i += n
                continue
            out["cases"] += 1
            if r["status"] == "reject":
                out["rejected"] += 1
            elif r["nontrivial"]:
                out["sigs"].add(r["sig"][:16])
                if len(out["samples"]) < 1 and i < 4 * n:
                    out["samples"].append({"index": i, "case": case, "hash": r["hash"]})
            if r["violations"]:
                with os.fdopen(os.dup(wfd), "wb") as f:
                    f.write(json.dumps({"t": "viol", "index": i, "case": case, "v": r["violations"], "hash": r["hash"]}).encode() + b"\n")
            i += n
            if time.time() - last > 2.0:
                last = time.time()
                flush()
        flush(True)
    except BaseException:
        with os.fdopen(os.dup(wfd), "wb") as f:
            f.write(json.dumps({"t": "crash", "msg": traceback.format_exc()[-3000:]}).encode() + b"\n")
    finally:
        env.close()


def explore(mod, seed, tier, limit, budget, on_violation):
    """runs cases 0..limit-1 on all workers; returns totals"""
    tot = {"cases": 0, "rejected": 0, "harness_errors": 0, "stats": {}, "sigs": set(), "samples": [], "crash": None}
    deadline = time.time() + budget
    kids = {}
    for s in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                os.close(r)
                for k in kids.values():
                    k["f"].close()
                signal.signal(signal.SIGTERM, lambda *_: sys.exit(0))
                _child(mod, seed, tier, s, WORKERS, limit, deadline, w)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = {"pid": pid, "f": os.fdopen(r, "rb"), "buf": b""}
    stop = False
    fds = dict(kids)
    hard = deadline + 120
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 1.0)
        if time.time() > hard:
            break
        for fd in rd:
            data = os.read(fd, 1 << 20)
            k = fds[fd]
            if not data:
                del fds[fd]
                continue
            k["buf"] += data
            while b"\n" in k["buf"]:
                line, k["buf"] = k["buf"].split(b"\n", 1)
                m = json.loads(line)
                if m["t"] in ("progress", "done"):
                    for x in ("cases", "rejected", "harness_errors"):
                        tot[x] += m[x]
                    for a, b in m["stats"].items():
                        tot["stats"][a] = tot["stats"].get(a, 0) + b
                    tot["sigs"].update(m["sigs"])
                    tot["samples"] = (tot["samples"] + m["samples"])[:6]
                elif m["t"] == "herr":
                    tot.setdefault("herr", []).append(m)
                elif m["t"] == "crash":
                    tot["crash"] = m["msg"]
                elif m["t"] == "viol" and not stop:
                    if on_violation(m):
                        stop = True
        if stop or tot["crash"]:
            break
    for k in kids.values():
        try:
            os.killpg(k["pid"], signal.SIGTERM)
        except OSError:
            pass
    t = time.time()
    for k in kids.values():
        while True:
            try:
                p, _ = os.waitpid(k["pid"], os.WNOHANG)
            except ChildProcessError:
                break
            if p:
                break
            if time.time() - t > 5:
                try:
                    os.killpg(k["pid"], signal.SIGKILL)
                except OSError:
                    pass
            time.sleep(0.01)
        k["f"].close()
    base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    for s, k in enumerate(kids.values()):
        shutil.rmtree(os.path.join(base, "gsim%07d_%02d" % (k["pid"] % 10000000, s % 100)), ignore_errors=True)
    return tot


# ------------------------------------------------------- minimising, replaying
def in_fresh(mod, case, trace=False, timeout=200):
    """executes a case in a fresh interpreter with fresh simulator processes"""
    r = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "--exec", mod.ID] + (["--trace"] if trace else []),
                       input=json.dumps(case), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=ROOT,
                       env=dict(os.environ, GSIM_NOBUILD="1"))
    if r.returncode != 0:
        raise W.HarnessError("fresh execution failed: " + r.stderr[-1500:])
    return json.loads(r.stdout)


def minimise(mod, case, keys, budget):
    """greedy: any simpler case that still shows one of the violation keys"""
    env = Env(99)
    best, tried = case, 0
    end = time.time() + budget
    try:
        progress = hasattr(mod, "shrink")
        while progress and time.time() < end:
            progress = False
            for c in mod.shrink(best):
                if time.time() > end:
                    break
                tried += 1
                try:
                    r = execute(mod, env, c)
                except (W.HarnessError, KeyError, ValueError, IndexError, TypeError, ZeroDivisionError):
                    continue
                if any(k in keys for k, _ in r["violations"]):
                    best = c
                    progress = True
                    break
    finally:
        env.close()
    return best, tried


def shrink_list(lst):
    """candidate sub-lists: halves first, then single removals"""
    n = len(lst)
    if n > 1:
        yield lst[:n // 2]
        yield lst[n // 2:]
    for i in range(n):
        yield lst[:i] + lst[i + 1:]


def with_key(case, key, val):
    c = dict(case)
    c[key] = val
    return c


# -------------------------------------------------------------------- the check
def check(pid, tier, seed):
    t_start = time.time()
    mod = load(pid)
    if not os.environ.get("GSIM_NOBUILD"):
        r = subprocess.run([sys.executable, os.path.join(ROOT, "harness", "build.py")] + list(mod.PROGS), cwd=ROOT)
        if r.returncode != 0:
            print("the simulator could not be built from the working tree")
            return 2
    t_build = time.time() - t_start
    limit, budget = mod.BUDGET[tier] if hasattr(mod, "BUDGET") and tier in mod.BUDGET else ((1 << 40), 45 if tier == "quick" else 780)
    if os.environ.get("GSIM_TIME"):
        budget = float(os.environ["GSIM_TIME"])
    found, seen_known, flaky = [], {}, []

    def on_violation(m):
        keys = []
        for key, msg in m["v"]:
            k = is_known(mod.ID, key)
            if k:
                seen_known.setdefault(key, (k, m))
            else:
                keys.append((key, msg))
        if not keys:
            return False
        # gate: the same case in a fresh process has to show the same violation in the same execution
        try:
            again = in_fresh(mod, m["case"])
        except (W.HarnessError, subprocess.TimeoutExpired) as e:
            flaky.append({"index": m["index"], "why": str(e)[:500]})
            return False
        common = [k for k in keys if any(k[0] == a[0] for a in again["violations"])]
        if not common:
            flaky.append({"index": m["index"], "why": "did not reproduce", "first": m["v"][:2], "hash_same": again["hash"] == m["hash"]})
            return False
        m["keys"] = common
        m["hash_same"] = again["hash"] == m["hash"]
        found.append(m)
        return True

    t0 = time.time()
    tot = explore(mod, seed, tier, limit, budget, on_violation)
    t_explore = time.time() - t0
    rc = 0
    lines = []
    if tot["crash"]:
        print(tot["crash"])
        rc = 2
    for k in known():
        if k["property"] == mod.ID and not k.get("fixed"):
            lines.append("KNOWN-FINDING: property=%s %s" % (mod.ID, k["what"]))
    replay = None
    if found:
        m = found[0]
        keys = {k for k, _ in m["keys"]}
        small, tried = (m["case"], 0) if keys == {"uninterpretable"} else minimise(mod, m["case"], keys - {"uninterpretable"}, 60 if tier == "quick" else 300)
        try:
            fin = in_fresh(mod, small, trace=True)
            if not any(k in keys for k, _ in fin["violations"]):
                raise W.HarnessError("minimised case does not reproduce")
        except (W.HarnessError, subprocess.TimeoutExpired):
            small = m["case"]
            fin = in_fresh(mod, small, trace=True)
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        replay = os.path.join(d, "%s_%d_%d.json" % (mod.ID, seed, m["index"]))
        with open(replay, "w") as f:
            json.dump({"property": mod.ID, "seed": seed, "index": m["index"], "case": small, "original_case": m["case"],
                       "violations": fin["violations"], "hash": fin["hash"], "minimisation_runs": tried, "trace": fin["trace"]}, f, indent=1)
        for k, msg in fin["violations"][:5]:
            lines.append("  [%s] %s" % (k, msg))
        lines.append("VIOLATION property=%s replay=%s" % (mod.ID, replay))
        rc = 1
    # a check that could hardly run anything gives no answer
    if rc == 0 and (tot["cases"] - tot["rejected"] < 10 or tot["harness_errors"] > max(3, tot["cases"] // 20)):
        for h in tot.get("herr", [])[:3]:
            print("harness error in case %s: %s" % (h["index"], h["msg"]))
        print("too few judged cases: %r" % {k: tot[k] for k in ("cases", "rejected", "harness_errors")})
        rc = 2
    st = tot["stats"]
    hours = max(t_explore, 1e-9) / 3600
    faults = {k[6:]: v for k, v in sorted(st.items()) if k.startswith("fault ")}
    other = {k: v for k, v in sorted(st.items()) if not k.startswith("fault ") and k not in ("simulated_runs", "simulated_us", "events", "task_switches")}
    ev = {
        "property": mod.ID, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["cases"] - tot["rejected"],
            "distinct_nontrivial": len(tot["sigs"]),
            "rule": mod.RULE,
            "samples": [json.loads(json.dumps(s)[:20000]) if len(json.dumps(s)) < 20000 else {"index": s["index"], "hash": s["hash"], "case": "(long)"} for s in tot["samples"][:3]] or [{"note": "no non-trivial case"}],
            "cases_not_judged": tot["rejected"],
            "harness_errors": tot["harness_errors"],
            "violations_that_did_not_reproduce": flaky[:5],
            "simulated_runs": st.get("simulated_runs", 0),
            "simulated_runs_per_hour": round(st.get("simulated_runs", 0) / hours),
            "seeds_per_hour": round(tot["cases"] / hours),
            "simulated_seconds": round(st.get("simulated_us", 0) / 1e6, 3),
            "simulated_events": st.get("events", 0),
            "task_switches": st.get("task_switches", 0),
            "faults_fired": faults,
            "counters": other,
            "components_real": mod.REAL,
            "components_stubbed": mod.STUB,
            "worker_processes": WORKERS, "build_s": round(t_build, 1), "explore_s": round(t_explore, 1),
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(time.time() - t_start, 2),
        "violations": len(found),
    }
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    print("%s: %d cases (%d distinct non-trivial), %d simulated runs, %.1f s exploration, %d faults fired, exit %d" % (
        mod.ID, tot["cases"], len(tot["sigs"]), st.get("simulated_runs", 0), t_explore, sum(faults.values()), rc))
    return rc


def replay(path):
    with open(path) as f:
        m = json.load(f)
    mod = load(m["property"])
    if not os.environ.get("GSIM_NOBUILD"):
        subprocess.run([sys.executable, os.path.join(ROOT, "harness", "build.py")] + list(mod.PROGS), cwd=ROOT, check=True)
    r = in_fresh(mod, m["case"], trace=True)
    print(json.dumps({"violations": r["violations"], "hash": r["hash"], "recorded_hash": m["hash"], "identical_execution": r["hash"] == m["hash"]}, indent=1))
    if r["violations"]:
        print("VIOLATION property=%s replay=%s" % (m["property"], path))
        return 1
    return 0
