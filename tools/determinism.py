#!/usr/bin/env python3
"""determinism.py [N]: executes the first N cases of every property three times - one process in order, one process in reverse order,
and spread over 8 processes - and compares the execution hashes (all events, all output, all result bytes)."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from gsim import core


def batch(pid, idx):
    code = ("import sys,json;sys.path.insert(0,%r);from gsim import core;m=core.load(%r);e=core.Env(int(sys.argv[1]));o={}\n"
            "for i in json.loads(sys.argv[2]): r=core.execute(m,e,core.make_case(m,1,'quick',i)); o[i]=[r['status'],r['hash']]\n"
            "e.close();print('@'+json.dumps(o))") % (V, pid)
    r = subprocess.run([sys.executable, "-c", code, str(90 + idx[0] % 8), json.dumps(idx)], stdout=subprocess.PIPE, text=True)
    return json.loads(r.stdout.split("@")[-1])


n = int(sys.argv[1]) if len(sys.argv) > 1 else 40
bad = 0
for c in json.load(open(V + "/MANIFEST.json"))["checks"]:
    pid = c["property"]
    with ThreadPoolExecutor(10) as ex:
        a = ex.submit(batch, pid, list(range(n)))
        b = ex.submit(batch, pid, list(range(n))[::-1])
        cs = [ex.submit(batch, pid, list(range(k, n, 8))) for k in range(8)]
        a, b, d = a.result(), b.result(), {}
        for x in cs:
            d.update(x.result())
    diff = [i for i in a if not a[i] == b[i] == d[i]]
    bad += len(diff)
    print(pid, "%d cases, %d rejected, differing: %s" % (n, sum(v[0] == "reject" for v in a.values()), diff), flush=True)
sys.exit(bad != 0)
