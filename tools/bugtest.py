#!/usr/bin/env python3
"""Tries planted bugs in a scratch copy of /repo (never in /repo itself).
usage: bugtest.py [--no-check] [--only-check] ID...
For each: patch applies, builds, stable tests pass, demo is 0 without and non-zero with the patch,
and whether the check of its property reports it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT, WB = "/tmp/gwt", "/tmp/gwtbuild"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    b = open("/opt/vp/build.sh").read().replace("/repo", WT)
    return sh(b, executable="/bin/bash")


def stable():
    open("/tmp/gwt_build.sh", "w").write(open("/opt/vp/build.sh").read().replace("/repo", WT))
    t = open("/opt/vp/test.sh").read().replace("/repo", WT).replace("/opt/vp/build.sh", "/tmp/gwt_build.sh")
    open("/tmp/gwt_test.sh", "w").write(t)
    r = sh("bash /tmp/gwt_test.sh /tmp/gwt_tests.json")
    try:
        return json.load(open("/tmp/gwt_tests.json")), r.stdout
    except Exception:
        return None, r.stdout


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.isdir(WT):
        sh("cp -a /repo %s && rm -rf %s/_build" % (WT, WT))
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f %s && git -C %s clean -fdq -e _build" % (WT, WT, head, WT))
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base.get("stable") or base.get("passed") or base
    for i in args:
        d = os.path.join(V, "seeded", i)
        m = json.load(open(d + "/meta.json"))
        line = [i, m["property"]]
        sh("git -C %s checkout -q -f %s" % (WT, head))
        r = sh("git -C %s apply %s/patch.diff" % (WT, d))
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stdout); continue
        if "--only-check" not in opts:
            b = build()
            if b.returncode:
                print(i, "BUILD FAILS", b.stdout[-1500:]); continue
            res, out = stable()
            passed = set(res["passed"]) if res else set()
            missing = [t for t in want if t not in passed]
            line.append("tests ok" if not missing else "TESTS BROKEN %s" % missing[:5])
            t = time.time()
            dm = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
            line.append("demo patched rc=%d (%.0fs)" % (dm.returncode, time.time() - t))
            if dm.returncode == 0 or "--show" in opts:
                line.append(dm.stdout[-600:])
            elif dm.returncode == 2:
                line.append("??? " + dm.stdout[-600:])
        if "--no-check" not in opts:
            t = time.time()
            e = dict(os.environ, GSIM_REPO=WT, GSIM_BUILD=WB, VERIF_SEED="1", VERIF_TIER="quick")
            c = sh("python3 %s/check.py %s" % (V, m["property"]), env=e)
            v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION property=%s" % m["property"])]
            line.append("check rc=%d %s %.0fs" % (c.returncode, "CAUGHT" if v and c.returncode == 1 else "MISSED", time.time() - t))
            if "--show" in opts or c.returncode not in (0, 1):
                line.append(c.stdout[-1500:])
        sh("git -C %s checkout -q -f %s" % (WT, head))
        if "--only-check" not in opts:
            b = build()
            dm = sh("bash %s/demo.sh" % d, cwd=WT, timeout=300)
            line.append("demo clean rc=%d" % dm.returncode)
            if dm.returncode:
                line.append(dm.stdout[-800:])
        print(*line, flush=True)


main()
