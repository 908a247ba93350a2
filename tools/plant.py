#!/usr/bin/env python3
"""Make or re-verify planted bugs.  plant.py make SPEC.py [ID...]   (SPEC defines BUGS = {id: dict(property, edits, needs, breaks, demo, link)})
plant.py demo ID...   build + demo in a scratch copy with and without the patch
plant.py tests ID...  all given patches together in /repo is NOT done here: run vcheck --bug ID instead"""
import sys, os, subprocess, json, shutil, importlib.util, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(V, "seeded")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository, after its build: exit 0 when the property holds for this scenario
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 2
DEFS="-DROS_AVAILABLE=0 -DENABLE_ARUCO_TAGS=1 -DGLOG_CUSTOM_PREFIX_SUPPORT -DGFLAGS_IS_A_DLL=0"
INC="-I$R/ov_core/src -I$R/ov_init/src -I$R/ov_msckf/src -I$R/ov_eval/src -isystem /usr/include/eigen3 -isystem /usr/include/opencv4"
OCV="-lopencv_core -lopencv_imgproc -lopencv_features2d -lopencv_video -lopencv_calib3d -lopencv_highgui -lopencv_imgcodecs -lopencv_aruco"
g++ -std=c++17 -O1 $DEFS $INC "$D/demo.cpp" -o demo -L"$R/_build/@PKG@" -l@LIB@ -Wl,-rpath,"$R/_build/@PKG@" $OCV -lboost_system -lboost_filesystem -lboost_thread -lboost_date_time -lceres -lglog -pthread || exit 3
timeout 200 ./demo
"""
PRE = '''#include <cstdio>
#include <cmath>
#include <cstdlib>
#define CHECK(c) do { if (!(c)) { std::printf("FAILED line %d: %s\\n", __LINE__, #c); std::exit(1); } } while (0)
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch(name):
    d = f"/tmp/plant/{name}"; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    r = sh(f"git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x")
    assert r.returncode == 0, r.stdout
    return d
def original_lines(f):
    o = sh(f"git -C /repo blame -s -l HEAD -- {f}").stdout.splitlines()
    mine = set(sh("git -C /repo log --format=%H 2e18333..HEAD").stdout.split())
    return [l.split()[0].lstrip("^")[:39] not in {m[:39] for m in mine} for l in o]
def make(spec, ids):
    s = importlib.util.spec_from_file_location("spec", spec); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for bid, b in m.BUGS.items():
        if ids and bid not in ids: continue
        d = scratch("mk")
        for e in b["edits"]:
            f, old, new = e[:3]; p = f"{d}/{f}"; t = open(p).read(); k = e[3] if len(e) > 3 else None
            n = t.count(old)
            if n == 0: print(bid, "NOT FOUND", f, old[:60]); break
            if n > 1 and k is None: print(bid, "AMBIGUOUS", n, f, old[:60]); break
            parts = t.split(old); k = k or 0
            ln = old.join(parts[:k + 1]).count("\n"); orig = original_lines(f)
            if not all(orig[ln:ln + old.rstrip("\n").count("\n") + 1]): print(bid, "WARNING: touches lines of my commits", f, ln + 1)
            open(p, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        else:
            o = f"{SEED}/{bid}"; shutil.rmtree(o, ignore_errors=True); os.makedirs(o)
            open(o + "/patch.diff", "w").write(sh(f"git -C {d} diff").stdout)
            pkg = b.get("pkg", "ov_msckf")
            open(o + "/demo.sh", "w").write(DEMO_SH.replace("@PKG@", pkg).replace("@LIB@", pkg + "_lib")); os.chmod(o + "/demo.sh", 0o755)
            open(o + "/demo.cpp", "w").write(PRE + b["demo"])
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(o + "/meta.json", "w"), indent=1)
            print(bid, "written")
        shutil.rmtree(d)
if __name__ == "__main__":
    if sys.argv[1] == "make": make(sys.argv[2], sys.argv[3:])
