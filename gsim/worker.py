"""A persistent simulator process: one JSON scenario in, one result out."""
import json, os, subprocess, threading

BUILD = os.environ.get("GSIM_BUILD", os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "build"))


class HarnessError(Exception):
    pass


class Worker:
    def __init__(self, prog):
        self.prog = prog
        self.p = None
        self.runs = 0

    def start(self):
        env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "LC_ALL": "C", "LANG": "C", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        for k in ("LD_LIBRARY_PATH",):
            if k in os.environ:
                env[k] = os.environ[k]
        self.p = subprocess.Popen([os.path.join(BUILD, self.prog)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd="/")

    def run(self, scenario):
        if self.p is None or self.p.poll() is not None:
            self.start()
        data = json.dumps(scenario, separators=(",", ":")).encode() + b"\n"
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
            head = self.p.stdout.readline()
        except OSError as e:
            self.close()
            raise HarnessError("simulator process died: %s" % e)
        f = head.split()
        if len(f) != 6 or f[0] != b"R":
            self.close()
            raise HarnessError("simulator protocol: %r" % head[:200])
        rn, sn, sig, ex, to = map(int, f[1:])
        body = self.p.stdout.read(rn) if rn else b""
        out = self.p.stdout.read(sn) if sn else b""
        self.runs += 1
        r = {"signal": sig, "exitcode": ex, "timeout": bool(to), "stdout": out.decode("utf-8", "replace")}
        if body:
            try:
                r.update(json.loads(body))
            except ValueError:
                r["harness_error"] = "truncated result"
        if to:
            raise HarnessError("simulated run exceeded the wall-clock limit of the simulator")
        if "harness_error" in r:
            raise HarnessError(r["harness_error"] + " | " + r["stdout"][-500:])
        return r

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            try:
                self.p.wait(5)
            except Exception:
                self.p.kill()
                self.p.wait()
            self.p = None


_local = {}


def worker(prog):
    w = _local.get(prog)
    if w is None:
        w = _local[prog] = Worker(prog)
    return w


def close_all():
    for w in _local.values():
        w.close()
    _local.clear()
