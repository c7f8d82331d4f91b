#!/usr/bin/env python3
"""Builds the simulator binaries from the *current* working tree of /repo.

All C++ sources under /repo/src are globbed, so renamed, split or added files
are picked up.  Build products live in /verif/build (git-ignored).
usage: build.py [target ...]     targets: gsim (default)
"""
import os, subprocess, sys, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("GSIM_REPO", "/repo")
OUT = os.environ.get("GSIM_BUILD", os.path.join(os.path.dirname(HERE), "build"))
CXX = "g++"
FLAGS = os.environ.get("GSIM_CXXFLAGS", "-std=c++17 -O1 -g1 -fno-omit-frame-pointer -w -pipe").split()


def repo_sources():
    srcs, incs = [], set()
    import re
    listed = set()   # what the project's own CMakeLists name; dead files are left out
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        if "CMakeLists.txt" in files:
            t = re.sub(r"#.*", "", open(os.path.join(root, "CMakeLists.txt")).read())
            for w in re.findall(r"[\w./-]+\.(?:cpp|cc|cxx)", t):
                listed.add(os.path.normpath(os.path.join(root, w)))
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(root, f)
            if f.endswith((".cpp", ".cc", ".cxx")) and os.path.normpath(p) in listed:
                srcs.append(p)
            if f.endswith((".hpp", ".h", ".hh")):
                incs.add(root)
    return srcs, sorted(incs)


TOOLS = ("extract_new_initial_condition", "include_seed_in_boundaryvalues", "remove_seed_from_boundaryvalues", "change_inflow", "increase_pressure", "sum_outflow",
         "move_to_category", "construct_gaspowerconnection", "normalize_jsons", "insert_positions", "generate_printing_csv", "generate_control_printing_csv")


def tool_sources():
    """{tool: [its sources]} of the helper programs, from the project's CMakeLists.txt"""
    import re
    d = os.path.join(REPO, "helper_functions")
    t = re.sub(r"#.*", "", open(os.path.join(d, "CMakeLists.txt")).read())
    out = {}
    for name, rest in re.findall(r"add_executable\s*\(\s*(\w+)([^)]*)\)", t):
        if name in TOOLS:
            out[name] = [os.path.join(d, w) for w in rest.split() if re.search(r"\.(cpp|cc|cxx)$", w)]
    return out


def main(argv):
    os.makedirs(OUT, exist_ok=True)
    srcs, incs = repo_sources()
    inc = ["-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(HERE, "src")]
    inc += ["-I" + i for i in incs]
    inc += ["-I" + os.path.join(REPO, "Randutils", "include")]
    inc += ["-isystem", "/usr/include/eigen3", "-isystem", "/opt/vp/ipopt/include/coin-or"]
    pch = os.path.join(OUT, "pch.hpp")
    pch_text = ('#include "%s/shim/compat.hpp"\n#include <nlohmann/json.hpp>\n#include <Eigen/Dense>\n#include <Eigen/Sparse>\n'
                '#include <filesystem>\n#include <fstream>\n#include <iostream>\n#include <map>\n#include <memory>\n#include <sstream>\n' % HERE)
    if not os.path.exists(pch) or open(pch).read() != pch_text:
        open(pch, "w").write(pch_text)
    n = []
    n.append("ninja_required_version = 1.3")
    n.append("cxx = " + CXX)
    n.append("flags = " + " ".join(FLAGS))
    n.append("inc = " + " ".join(inc))
    n.append("rule pch\n  command = $cxx $flags $inc -x c++-header $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  description = PCH")
    n.append("rule cc\n  command = $cxx $flags -include $pchfile $extra $inc -c $in -o $out -MMD -MF $out.d\n  depfile = $out.d\n  description = CC $in")
    n.append("rule link\n  command = $cxx $flags -no-pie -rdynamic -o $out @$out.rsp $libs\n  rspfile = $out.rsp\n  rspfile_content = $in\n  description = LINK $out")
    n.append("rule tool\n  command = ld -r -o $out.tmp $in && nm -g --defined-only $out.tmp | awk 'BEGIN {print \"no_such_symbol\"} $$2 ~ /[TBDR]/ && $$3 != \"main\" "
             "{print $$3}' > $out.syms && objcopy --redefine-sym main=tool_${name}_main --localize-symbols=$out.syms $out.tmp $out && rm $out.tmp\n  description = TOOL $out")
    n.append("pchfile = " + pch)
    n.append("build %s.gch: pch %s" % (pch, pch))
    objs, tools = [], []
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        o = os.path.join(OUT, "obj", rel + ".o")
        extra = ""
        try:
            text = open(s, errors="replace").read()
        except OSError:
            continue
        import re
        if re.search(r"^\s*(int|auto)\s+main\s*\(", text, re.M):
            extra = "-Dmain=grazer_main"
        n.append("build %s: cc %s | %s.gch\n  extra = %s" % (o, s, pch, extra))
        objs.append(o)
    hs = [os.path.join(HERE, "src", f) for f in sorted(os.listdir(os.path.join(HERE, "src"))) if f.endswith(".cpp")]
    # the helper programs: main renamed, everything else local to each of them
    for name, ss in sorted(tool_sources().items()):
        os_ = []
        for s in ss:
            o = os.path.join(OUT, "obj", "tools", name, os.path.basename(s) + ".o")
            n.append("build %s: cc %s | %s.gch\n  extra = -I%s" % (o, s, pch, os.path.dirname(s)))
            os_.append(o)
        o = os.path.join(OUT, "obj", "tools", name + ".o")
        n.append("build %s: tool %s\n  name = %s" % (o, " ".join(os_), name))
        tools.append(o)
    common, prog = [], {}
    for s in hs:
        b = os.path.basename(s)
        o = os.path.join(OUT, "obj", "harness", b + ".o")
        n.append("build %s: cc %s | %s.gch\n  extra = " % (o, s, pch))
        if b.startswith("prog_"):
            prog.setdefault(b[5:-4].split("__")[0], []).append(o)
        else:
            common.append(o)
    libs = "/opt/vp/ipopt/lib/libipopt.so -ldl -lpthread"
    alls = []
    for name, os_ in sorted(prog.items()):
        exe = os.path.join(OUT, name)
        n.append("build %s: link %s\n  libs = %s" % (exe, " ".join(os_ + common + objs + (tools if name == "cli" else [])), libs))
        alls.append(exe)
    n.append("default " + " ".join(alls) if alls else "")
    f = os.path.join(OUT, "build.ninja")
    text = "\n".join(n) + "\n"
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    targets = [os.path.join(OUT, t) for t in argv] or []
    env = dict(os.environ, CCACHE_DISABLE="1")
    r = subprocess.run(["ninja", "-C", OUT] + (["-k", "0"] if os.environ.get("GSIM_KEEP") else []) + targets, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-6000:])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
