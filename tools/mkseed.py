#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from a description file (see seeds.py)."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = os.path.join(V, "tools", "demo_common")
WT = "/tmp/gwt"


def seed(id, prop, file, old, new, demo, needs, breaks, extra={}, more=()):
    """file/old/new: the change; more: further (file, old, new); demo: text of demo.sh; extra: further files"""
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(COMMON, d)
    subprocess.run("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (WT, WT), shell=True, check=True)
    for f, o, n in ((file, old, new),) + tuple(more):
        p = os.path.join(WT, f)
        t = open(p).read()
        assert t.count(o) == 1, (id, f, t.count(o))
        open(p, "w").write(t.replace(o, n))
    diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE, text=True).stdout
    subprocess.run(["git", "-C", WT, "checkout", "-q", "-f"])
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + demo.lstrip("\n"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in extra.items():
        open(os.path.join(d, n), "w").write(t if isinstance(t, str) else json.dumps(t))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)
