#!/usr/bin/env python3
"""Quick mutation rounds in a scratch copy: mutate.py LIST.py [name...]
LIST.py defines M, a list of (name, file, old, new, occurrence, "C10 C18"). Prints which checks notice. Only for finding gaps:
what is kept as a planted bug goes through mkseed.py and bugtest.py."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B = "/tmp/gwm", "/tmp/gwmbuild"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


ns = {}
exec(open(sys.argv[1]).read(), ns)
if not os.path.isdir(W):
    sh("git clone -q /repo " + W)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh("git -C %s fetch -q origin && git -C %s checkout -q -f %s && git -C %s clean -fdq" % (W, W, head, W))
for name, f, old, new, nth, props in ns["M"]:
    if (len(sys.argv) > 2 and name not in sys.argv[2:]) or not props or new is None:
        continue
    sh("git -C %s checkout -q -f %s" % (W, head))
    p = os.path.join(W, f)
    t = open(p).read()
    parts = t.split(old)
    if len(parts) < nth + 2:
        print(name, "TEXT NOT FOUND", flush=True)
        continue
    t = old.join(parts[:nth + 1]) + new + old.join(parts[nth + 1:])
    open(p, "w").write(t)
    out = []
    for c in props.split():
        e = dict(os.environ, GSIM_REPO=W, GSIM_BUILD=B, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick")
        r = sh("python3 %s/check.py %s" % (V, c), env=e)
        v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
        out.append("%s:%s%s" % (c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "rc%d" % r.returncode), (" " + v[0][:110]) if v else (" " + r.stdout[-300:] if r.returncode == 2 else "")))
    print(name, "|", " | ".join(out), flush=True)
sh("git -C %s checkout -q -f %s" % (W, head))
