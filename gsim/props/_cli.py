"""Shared by the checks that run the command line program under faults."""
import json, os, random, re
from .. import gen
from ..core import Reject, shrink_list, with_key
from . import _laws
from ._laws import environment, shrink_knobs

REAL = _laws.REAL + ["Ipopt with MUMPS (optimisation runs)"]
STUB = _laws.STUB
ASSUME = ["faults are those of the simulated system call layer: failing, short, interrupted, torn or lost calls, a full disk, failing allocations, kills between two calls or inside a write",
          "a completed write, rename or mkdir is durable (the program never calls fsync; power loss is outside the property)"]

IO = ("openr", "openw", "read", "write", "sendfile", "closer", "closew", "mkdir", "rename", "opendir", "readdir", "stat", "unlink", "rmdir", "getcwd",
      "link", "truncate", "fsync", "symlink", "chmod")
ERRNO = {"openr": (5, 13, 24, 2), "openw": (5, 13, 24, 28, 30, 122), "read": (5, 4), "write": (5, 28, 122, 4), "sendfile": (5, 28, 122), "closer": (5,), "closew": (5, 28, 122),
         "mkdir": (5, 13, 28, 30), "rename": (5, 13, 28, 16), "opendir": (5, 13, 24), "readdir": (5,), "stat": (5, 13), "unlink": (5,), "rmdir": (5,), "getcwd": (2, 5), "chmod": (5, 1, 30)}


def small_problem(rng, optimize=False, kinds=("gas", "power", "coupled")):
    if optimize:
        return gen.knobs(rng, kind="gas", optimize=1, controls=1, short=rng.choice([.3, .5, .7]), ng=rng.choice([3, 4]), steps=rng.choice([1, 2, 3, 4]),
                         dt=rng.choice([900., 1800., 3600.]), start=rng.choice([0, 100.5]), weights=rng.choice([0, 1]), every_n=rng.choice([1, 1, 2, 3]), clo=rng.choice([1.0, 1.0, 40.]),
                         cup=rng.choice([1000., 90.]), rough_init=0, flow=rng.choice([1., 10.]), cells=rng.choice([1, 2]))
    return gen.knobs(rng, kind=rng.choice(kinds), ng=rng.choice([2, 3, 4]), np=rng.choice([1, 2, 3]), steps=rng.choice([1, 2, 3, 5]), rough_init=0, cells=rng.choice([1, 2, 3]),
                     stoch_seed=1)


def noise_files(rng):
    """other content of the problem directory and of DIR"""
    out = {}
    r = rng.random()
    if r < 0.3:
        return out
    for i in range(rng.choice([1, 2, 3])):
        n = rng.choice(["notes.txt", "states.json", "controls.json", "a b.bin", ".hidden", "sub/deep/x.dat", "sub/y", "empty", "problem/z.json", "sub2"])
        p = "problem/" + n
        if any(q == p or q.startswith(p + "/") or p.startswith(q + "/") for q in out):
            continue
        if n == "sub2":
            out[p] = None
        else:
            size = rng.choice([0, 1, 511, 9000, 70000])
            out[p] = {"bytes": size, "seed": rng.randrange(1 << 20)}
    return out


def expand(spec):
    out = {}
    for n, v in spec.items():
        if isinstance(v, dict) and "bytes" in v:
            r = random.Random(v["seed"])
            out[n] = bytes(r.getrandbits(8) for _ in range(min(v["bytes"], 97))) * (v["bytes"] // 97 + 1)
            out[n] = out[n][:v["bytes"]]
        else:
            out[n] = v
    return out


def prior_files(rng):
    """earlier results and other files in DIR"""
    out = {}
    if rng.random() < 0.6:
        for i in range(rng.choice([1, 2, 4])):
            d = "output/" + rng.choice(["2020.09.13_12:26:40.0", "2020.09.13_12:26:40.1", "2020.09.13_12:26:40.2", "2021.01.01_00:00:00.5", "old"])
            out[d + "/states.json"] = {"bytes": rng.choice([0, 300, 5000]), "seed": rng.randrange(1 << 20)}
            out[d + "/problem/topology.json"] = {"bytes": rng.choice([0, 300]), "seed": rng.randrange(1 << 20)}
    if rng.random() < 0.3:
        out["output/stray_file"] = {"bytes": 100, "seed": 1}
    if rng.random() < 0.3:
        out["output/2020.09.13_12:26:40.%d" % rng.randrange(3)] = {"bytes": 40, "seed": 2}
    if rng.random() < 0.3:
        out["readme.md"] = {"bytes": 77, "seed": 3}
    if rng.random() < 0.2:
        out["schemas/topology_schema.json"] = {"bytes": 77, "seed": 4}
    for n in list(out):
        if any(m.startswith(n + "/") for m in out):
            del out[n]
    return out


def fault_spec(rng, crash=False, alloc=True, transient=False):
    """one fault at a relative position of the run"""
    at = rng.random()
    if rng.random() < 0.15:
        at = rng.choice([0.0, 0.999999])
    if crash:
        return {"at": at, "act": rng.choice(["crash", "crash_after", "crash_mid", "crash_mid"]), "arg": rng.choice([0, 1, 7, 100, 1000, 4096])}
    if transient:
        return {"at": at, "act": rng.choice(["short", "short", "eintr"]), "arg": rng.choice([1, 2, 7, 100, 4000]), "len": rng.choice([1, 2, 10])}
    r = rng.random()
    if r < 0.6:
        return {"at": at, "act": "err", "pick": rng.randrange(64), "len": rng.choice([1, 1, 1, 2, 1000000])}
    if r < 0.75:
        return {"at": at, "act": "lost", "arg": rng.randrange(100)}
    if r < 0.85 or not alloc:
        return {"at": at, "act": "disk"}
    return {"at": at, "act": "alloc", "len": rng.choice([1, 1, 2, 10, 1000000]), "min": rng.choice([0, 0, 100, 1000])}


def ops_of(r):
    """[(kind, path, result)] of actor 0 in order of its system calls"""
    out = []
    for l in r.get("trace", []):
        m = re.match(r"0 (\w+) (.*) (-?\d+)( e\d+)?$", l)
        if m:
            out.append((m.group(1), m.group(2), int(m.group(3))))
    return out


def place(spec, ops, base):
    """turns relative fault specs into faults of a scenario; returns (faults, extra scenario keys)"""
    faults, extra = [], {}
    idx = {"any": [i for i, o in enumerate(ops) if o[0] in IO],
           "w": [i for i, o in enumerate(ops) if o[0] in ("write", "sendfile")],
           "lost": [i for i, o in enumerate(ops) if o[0] == "closew"],
           "rw": [i for i, o in enumerate(ops) if o[0] in ("read", "write")],
           "short": [i for i, o in enumerate(ops) if o[0] in ("read", "write", "sendfile")]}
    total = sum(max(0, o[2]) for o in ops if o[0] in ("write", "sendfile"))
    for f in spec:
        act = f["act"]
        if act == "disk":
            extra["disk_bytes"] = int(f["at"] * (total + 1))
            continue
        if act == "alloc":
            n = int(base.get("allocs", 0))
            if n:
                extra["mem"] = {"fail_at": 1 + int(f["at"] * n), "fail_len": f.get("len", 1), "fail_min": f.get("min", 0)}
            continue
        which = {"crash_mid": "w", "lost": "lost", "short": "short", "eintr": "rw"}.get(act, "any")
        if act == "crash_mid" and f.get("arg", 0) == 0:
            which = "any"
        c = idx[which] or idx["any"]
        if not c:
            continue
        i = c[min(len(c) - 1, int(f["at"] * len(c)))]
        kind = ops[i][0]
        if act == "err":
            e = ERRNO.get(kind, (5,))
            if f.get("len", 1) > 10:
                e = tuple(x for x in e if x != 4)   # no call is interrupted for ever
            faults.append({"actor": 0, "op": "*", "nth": i + 1, "act": "err", "err": e[f["pick"] % len(e)], "len": 1})
            if f.get("len", 1) > 1:
                # the same kind of call keeps failing
                faults.append({"actor": 0, "op": kind, "nth": 1 + sum(1 for o in ops[:i] if o[0] == kind), "act": "err", "err": e[f["pick"] % len(e)], "len": f["len"]})
        elif act == "eintr":
            faults.append({"actor": 0, "op": kind, "nth": 1 + sum(1 for o in ops[:i] if o[0] == kind), "act": "err", "err": 4, "len": f.get("len", 1)})
        elif act == "short":
            faults.append({"actor": 0, "op": kind, "nth": 1 + sum(1 for o in ops[:i] if o[0] == kind), "act": "short", "arg": f["arg"], "len": f.get("len", 1)})
        elif act == "lost":
            faults.append({"actor": 0, "op": "*", "nth": i + 1, "act": "lost", "arg": f["arg"], "err": 5})
        elif act == "crash_mid":
            faults.append({"actor": 0, "op": "*", "nth": i + 1, "act": "crash_mid", "arg": f["arg"]})
        else:
            faults.append({"actor": 0, "op": "*", "nth": i + 1, "act": act})
    return faults, extra


def merged(env_spec, extra):
    s = dict(env_spec)
    for k, v in extra.items():
        if k == "mem":
            s["mem"] = dict(s.get("mem", {}), **v)
        else:
            s[k] = v
    return s


def cli(env, args, env_spec, faults=(), trace=False, actor=None, **more):
    sc = merged(env_spec, more)
    sc["actors"] = [dict(actor or {}, kind="cli", args=args)]
    sc["faults"] = list(faults)
    if trace:
        sc["trace"] = True
    return env.sim("cli", sc)


def outcome(r):
    """(exit status or None, description)"""
    if r["signal"]:
        return None, "signal %d" % r["signal"]
    a = r.get("actors", [{}])[0]
    if a.get("status") == "exit":
        return a["rc"], "exit %d" % a["rc"]
    return None, a.get("status", "no result")


def check_alive(env, r, alloc_fault, mem=False, opt=False):
    """hangs and memory errors"""
    if opt or "This is Ipopt" in r["stdout"]:
        if r["signal"] == 24:
            raise Reject()      # an optimisation that takes very long
    if r["signal"] in (6, 7, 8, 11, 24) and mem:
        env.count("library died of a failing allocation")     # MUMPS writes to what it could not allocate, Eigen 3.4 frees twice or loops in its LU
        return
    if r.get("budget_hit") or r.get("actors", [{}])[0].get("status") == "op-budget":
        env.violate("hang", "the run made more than the bounded number of system calls without ending")
    if r["signal"] and not (r["signal"] == 6 and alloc_fault):
        env.violate("signal", "the run was ended by signal %d; output ...%s" % (r["signal"], r["stdout"][-300:]))
    if r.get("actors", [{}])[0].get("status") == "exception" and not alloc_fault:
        env.violate("signal", "an exception left main: %s" % r["actors"][0].get("what"))


def out_dirs(tree):
    return sorted(n for n, v in tree.items() if n.startswith("output/") and n.count("/") == 1 and v is None)


def shrink_cli(case):
    for a in ("faults", "faults2"):
        if len(case.get(a, [])) > 1:
            for l in shrink_list(case[a]):
                yield with_key(case, a, l)
    for a in ("noise", "prior"):
        if case.get(a):
            yield with_key(case, a, {})
            for n in case[a]:
                d = dict(case[a])
                del d[n]
                yield with_key(case, a, d)
    for n in list(case.get("env", {})):
        e = dict(case["env"])
        del e[n]
        yield with_key(case, "env", e)
    if "knobs" in case:
        for k in shrink_knobs(case["knobs"]):
            yield with_key(case, "knobs", k)


def share(env, root, names, seed):
    """moves some of the named files elsewhere, leaving symbolic links (some through a second link), and changes permissions; returns {name: permission bits}"""
    rng = random.Random(seed)
    for n in sorted(names):
        p = env.path(root, n)
        if not os.path.isfile(p):
            continue
        if rng.random() < .4:
            s = env.path(root, "shared", n.replace("/", "_"))
            os.makedirs(os.path.dirname(s), exist_ok=True)
            os.rename(p, s)
            to = rng.choice([s, os.path.relpath(s, os.path.dirname(p))])
            if rng.random() < .2:
                os.symlink(s, s + ".second")
                to = s + ".second"
            os.symlink(to, p)
        if rng.random() < .4:
            os.chmod(p, rng.choice([0o600, 0o640, 0o664, 0o700, 0o444]))
    return modes(env, root, names)


def modes(env, root, names):
    return {n: os.stat(env.path(root, n)).st_mode & 0o7777 for n in sorted(names) if os.path.isfile(env.path(root, n))}


def linked_tree(env, root):
    """the files of the tree, links followed; and the links"""
    out, links = env.tree(root), {}
    for n, v in list(out.items()):
        if isinstance(v, bytes) and os.path.islink(env.path(root, n)):
            links[n] = v
            del out[n]
            if os.path.isfile(env.path(root, n)):
                with open(env.path(root, n), "rb") as f:
                    out[n] = f.read()
                if ".second" not in n:
                    out.pop(os.path.relpath(os.path.realpath(env.path(root, n)), os.path.realpath(env.path(root))), None)
    for n in [n for n in out if n.startswith("shared/") and n.endswith(".second")]:
        del out[n]
    return out, links
