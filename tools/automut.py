#!/usr/bin/env python3
"""automut.py SEED COUNT [path-substring]: random one-token mutants of /repo's sources, tried like mutate.py does (first noticing check ends it).
Prints every mutant with its outcome; what nobody notices is to be looked at by hand. Only for finding gaps."""
import os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/harness")
from build import TOOLS
W, B = "/tmp/gwm", "/tmp/gwmbuild"
MAP = [("Grazer/", "C01 C20 C02 C03 C05 C21 C08"), ("Input_Output/", "C03 C02 C01"), ("aux_json/", "C04 C24 C20"), ("json_schema/", "C05 C04 C20 C23"), ("Newtonsolver/", "C06 C21"),
       ("Timeevolver", "C06 C07 C21 C01"), ("Problemlayer/", "C06 C07 C18"), ("Balancelaw/", "C10 C13 C18"), ("Gaspowerconnection/", "C12 C18 C20 C25 C13 C19"), ("Networkproblem/Gas/", "C10 C11 C12 C18 C15"),
       ("Networkproblem/Power/", "C10 C18 C09 C20 C08"), ("Optimization_helpers/", "C14 C17 C15 C16"), ("IpoptWrapper/", "C14 C15 C16 C17 C20"), ("InterpolatingVector/", "C10 C15 C16 C20 C01"),
       ("Networkproblem/Networkproblem.cpp", "C10 C18 C15 C20 C19"), ("Networkproblem/", "C10 C18 C15 C20"), ("Network/", "C10 C19 C20 C11"), ("Netfactory/", "C19 C20 C23 C10"), ("Componentfactory/", "C19 C05 C23 C20"),
       ("Stochastics/", "C09 C08 C25"), ("Matrixhandler/", "C18 C10 C15"), ("Timedata", "C07 C13 C20"), ("Mathfunctions/", "C10 C12"), ("unit_conversion/", "C10 C20"), ("ComponentJsonHelpers/", "C19 C20 C10"),
       ("helper_functions/", "C24 C25"), ("Scheme/", "C10 C18 C15"), ("src/", "C10 C20 C01")]
SKIP = ("/tests", "Test", "gthrow", "throw", "cout", "cerr", "#include", "assert", "//")
OPS = [(r" < ", " <= "), (r" > ", " >= "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" && ", " || "), (r" \|\| ", " && "),
       (r"\bnot ", ""), (r"if \(!", "if ("), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\+\+", "--"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b0\.5\b", "0.6"), (r"\b1\.0\b", "1.1"), (r"\b2\b", "3"), (r"\b2\.0\b", "2.1"),
       (r"\+= ", "-= "), (r"-= ", "+= "), (r"\bcontinue;", "break;"), (r"\bfront\(\)", "back()"), (r"\bback\(\)", "front()"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"= -", "= "), (r"\(-", "("), (r"start", "end"),
       (r"\bfrom\b", "to"), (r"last_time", "new_time"), (r"new_state", "last_state"), (r"last_state", "new_state"), (r"lower", "upper"), (r"upper", "lower"), (r"begin\(\)", "end()")]


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def candidates():
    out = []
    fs = sh("git -C %s ls-files 'src/*.cpp' 'src/*.hpp' 'helper_functions/*.cpp'" % W).stdout.split()
    for f in fs:
        if "/tests/" in f or "CLI" in f or "helper_functions" in f and not any(t in f for t in TOOLS):
            continue
        if f.endswith(".hpp") and not any(x in f for x in ("Scheme/", "Stochastic", "Misc", "Componentfactory", "Adaptor")):
            continue        # declarations
        if sys.argv[3:] and not any(s in f for s in sys.argv[3:]):
            continue
        for i, l in enumerate(open(os.path.join(W, f)).read().split("\n")):
            s = l.strip()
            if not s or any(x in l for x in SKIP) or s.startswith(("*", "/*", "using", "namespace", "template", "class", "struct")):
                continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    if l[:m.start()].count('"') % 2:
                        continue
                    out.append((f, i, l[:m.start()] + b + l[m.end():]))
            if re.match(r"[a-zA-Z_][\w.\->\[\]]*\(.*\);$", s) and not s.startswith(("return", "if", "for", "while")):
                out.append((f, i, re.match(r"\s*", l).group() + ";"))
            if re.match(r"[a-zA-Z_][\w.\->\[\]()]* [-+*]?= .*;$", s):
                out.append((f, i, re.match(r"\s*", l).group() + ";"))
    return out


if not os.path.isdir(W):
    sh("git clone -q /repo " + W)
head = sh("git -C /repo rev-parse HEAD").stdout.strip()
sh("git -C %s fetch -q origin && git -C %s checkout -q -f %s && git -C %s clean -fdq" % (W, W, head, W))
C = candidates()
rng = random.Random(int(sys.argv[1]))
# every file about equally often, larger ones a bit more
by = {}
for c in C:
    by.setdefault(c[0], []).append(c)
files = sorted(by)
done = set()
for n in range(int(sys.argv[2])):
    f = rng.choices(files, [len(by[x]) ** .6 for x in files])[0]
    f, i, new = rng.choice(by[f])
    if (f, i, new) in done:
        continue
    done.add((f, i, new))
    sh("git -C %s checkout -q -f %s" % (W, head))
    p = os.path.join(W, f)
    t = open(p).read().split("\n")
    old = t[i]
    t[i] = new
    open(p, "w").write("\n".join(t))
    checks = next(c for k, c in MAP if k in f).split()
    res = "MISSED"
    for c in checks:
        e = dict(os.environ, GSIM_REPO=W, GSIM_BUILD=B, VERIF_SEED="1", VERIF_TIER="quick", GSIM_TIME=os.environ.get("GSIM_TIME", "12"))
        r = sh("timeout 600 python3 %s/check.py %s" % (V, c), env=e)
        if r.returncode == 1:
            v = [l for l in r.stdout.splitlines() if l.startswith("  [")]
            res = "caught %s %s" % (c, (v[0][:80] if v else ""))
            break
        if r.returncode == 2:
            res = "nobuild"
            break
        if r.returncode:
            res = "rc%d %s" % (r.returncode, c)
            break
    print("%s\n   %s:%d\n   - %s\n   + %s" % (res, f, i + 1, old.strip(), new.strip()), flush=True)
sh("git -C %s checkout -q -f %s" % (W, head))
