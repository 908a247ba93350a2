#!/usr/bin/env python3
"""Builds and runs one property check: run_check.py <ID> [--replay FILE] [--seed N] [--tier quick|thorough]

Exit 0: property held on everything explored.  Exit 1 + "VIOLATION property=<id> replay=<path>": broken.
Any other exit code: the check itself failed (for example the tree does not compile).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
from check_config import CHECKS, REPO_GROUPS, NON_LIB  # noqa: E402

BUILD = os.path.join(VERIF, "build")
JOBS = max(1, os.cpu_count() or 8)
CXX = "g++"
INC = ["-I" + REPO + "/" + p + "/src" for p in ("ov_core", "ov_init", "ov_msckf", "ov_eval")] + [
    "-I/usr/include/eigen3", "-I/usr/include/opencv4", "-I" + VERIF + "/harness"]
BASE = ["-std=c++14", "-O1", "-g0", "-w", "-pipe", "-DENABLE_ARUCO_TAGS=1", "-UNDEBUG", "-fno-math-errno"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=vptr,alignment,float-divide-by-zero",
       "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"]
CVLIBS = ["-lopencv_" + x for x in "core imgproc features2d video calib3d highgui imgcodecs aruco flann".split()]
LIBS = {
    "core": CVLIBS + ["-lboost_filesystem", "-lboost_system", "-lboost_thread", "-lpthread"],
    "init": ["-lceres", "-lglog"],
}


def log(*a):
    print(*a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def header_hash():
    h = hashlib.sha256()
    fs = []
    for p in ("ov_core", "ov_init", "ov_msckf", "ov_eval"):
        for root, _, names in os.walk(os.path.join(REPO, p, "src")):
            for n in names:
                if n.endswith((".h", ".hpp", ".hh", ".inl", ".tpp", ".txx")):
                    fs.append(os.path.join(root, n))
    fs += glob.glob(VERIF + "/harness/*.h") + glob.glob(VERIF + "/checks/*.h")
    for f in sorted(fs):
        h.update(f.encode())
        h.update(open(f, "rb").read())
    return h.hexdigest()


def compile_one(src, flags, hh):
    data = open(src, "rb").read()
    extra = [data]  # repository sources a harness includes directly
    for inc in re.findall(rb'#include "([^"]+\.cpp)"', data):
        for p in ("ov_core", "ov_init", "ov_msckf", "ov_eval"):
            f = os.path.join(REPO, p, "src", inc.decode())
            if os.path.exists(f):
                extra.append(open(f, "rb").read())
    key = sha(b"\0".join(extra), src, " ".join(flags), hh)
    obj = os.path.join(BUILD, "obj", key[:2], key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj, ""
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + INC + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, r.stdout
    os.replace(tmp, obj)
    return obj, ""


def prune():
    """keep the object cache below 1.5 GB"""
    objs = [(os.stat(f).st_mtime, os.stat(f).st_size, f) for f in glob.glob(BUILD + "/obj/*/*.o") + glob.glob(BUILD + "/bin/*")]
    tot = sum(o[1] for o in objs)
    for m, s, f in sorted(objs):
        if tot < 1500e6:
            break
        try:
            os.unlink(f)
            tot -= s
        except OSError:
            pass


def all_lib_sources():
    out = []
    for p in ("ov_core", "ov_init", "ov_msckf", "ov_eval"):
        for root, dirs, names in os.walk(os.path.join(REPO, p, "src")):
            dirs[:] = [d for d in dirs if d not in ("ros", "plot")]
            for n in sorted(names):
                if n.endswith(".cpp") and n not in NON_LIB:
                    out.append(os.path.join(root, n))
    return out


def build(cid, san=False):
    cfg = CHECKS[cid]
    flags = BASE + [f.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for f in cfg.get("flags", [])] + (SAN if san else [])
    srcs = [VERIF + "/harness/pbt_main.cpp"] + [VERIF + "/checks/" + s for s in cfg["harness"]]
    repo = []
    for g in cfg["repo"]:
        repo += [REPO + "/" + s for s in (REPO_GROUPS[g] if g in REPO_GROUPS else [g])]
    repo = [r for i, r in enumerate(repo) if r not in repo[:i]]
    missing = [r for r in repo if not os.path.exists(r)]
    use_all = bool(missing)
    libs = []
    for l in cfg.get("libs", ["core"]):
        libs += LIBS[l]
    for attempt in (0, 1):
        if use_all:
            have = set(repo)
            # also a source the tree may have gained: build every library source
            repo = [r for r in repo if os.path.exists(r)] + [s for s in all_lib_sources() if s not in have]
            libs = [x for v in LIBS.values() for x in v]
        hh = header_hash()
        t0 = time.time()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # headers-heavy harness first, they dominate the wall time
            res = list(ex.map(lambda s: compile_one(s, flags, hh), srcs + repo))
        bad = [(s, r[1]) for s, r in zip(srcs + repo, res) if r[0] is None]
        if bad and attempt == 0 or (bad and any(s in srcs for s, _ in bad)):
            for s, e in bad:
                log("BUILD FAILED", s)
                log(e[-4000:])
            sys.exit(3)
        objs = [r[0] for r in res if r[0]]
        binkey = sha(*objs, *libs, " ".join(flags))
        exe = os.path.join(BUILD, "bin", cid + "-" + binkey[:24])
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = exe + ".%d.tmp" % os.getpid()
            ldflags = SAN if san else []
            r = subprocess.run([CXX] + ldflags + ["-o", tmp] + objs[:len(srcs)] + objs[len(srcs):] + ["-lrapidcheck"] + libs,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                if attempt == 0 and not use_all:
                    use_all = True
                    continue
                log("LINK FAILED")
                log(r.stdout[-4000:])
                sys.exit(3)
            os.replace(tmp, exe)
        log("build: %s%s %.1fs (%d objects)" % (cid, " (sanitized)" if san else "", time.time() - t0, len(objs)))
        prune()
        return exe
    sys.exit(3)


def load_known(cid):
    known = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == cid:
                known[m.group(2)] = m.group(3)
    return known


def read_current(path):
    try:
        b = open(path, "rb").read()
        st, part, n = struct.unpack_from("<III", b, 0)
        return st, part, list(struct.unpack_from("<%dI" % n, b, 12))
    except Exception:
        return 0, 0, []


def clean_env():
    e = dict(os.environ)
    e["OMP_NUM_THREADS"] = "1"
    e["OPENBLAS_NUM_THREADS"] = "1"
    e["GLOG_minloglevel"] = "3"
    e["LC_ALL"] = "C"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    e.pop("RC_PARAMS", None)
    return e


def run_replay(exe, replay_file, known, timeout):
    """-> ('ok'|'fail'|'crash'|'hang', message)"""
    scratch = tempfile.mkdtemp(prefix="pbt")
    try:
        args = [exe, "--replay", replay_file, "--scratch", scratch, "--known", ",".join(known)]
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=clean_env(), cwd=scratch)
        except subprocess.TimeoutExpired:
            return "hang", "no result within %ds" % timeout
        txt = r.stdout.decode("utf8", "replace")
        m = re.findall(r"^REPLAY (ok|fail) (.*)$", txt, re.M)
        if m and r.returncode in (0, 1):
            return m[-1][0], m[-1][1]
        return "crash", "process ended with status %s: %s" % (r.returncode, txt[-600:].strip().replace("\n", " | "))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def write_replay(cid, part, tape, msg, kind):
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    body = "property %s\npart %s\nkind %s\nmessage %s\ntape %s\n" % (cid, part, kind, msg.replace("\n", " ")[:1500], " ".join(map(str, tape)))
    p = os.path.join(VERIF, "replays", "%s-%s-%s.txt" % (cid, part, sha(" ".join(map(str, tape)))[:10]))
    open(p, "w").write(body)
    return p


def shrink_crash(exe, cid, part, tape, known, kinds, budget, tmo):
    end = time.time() + budget
    def bad(t):
        p = tempfile.NamedTemporaryFile("w", suffix=".txt", delete=False)
        p.write("part %s\ntape %s\n" % (part, " ".join(map(str, t))))
        p.close()
        r = run_replay(exe, p.name, known, tmo)
        os.unlink(p.name)
        return r[0] in kinds
    cur = tape
    for div in (2, 4, 8, 16, 32, 64):
        b = max(1, len(cur) // div)
        i = len(cur) - b
        while i >= 0 and time.time() < end:
            cand = cur[:i] if i + b >= len(cur) else cur[:i] + [0] * b + cur[i + b:]
            if cand != cur and bad(cand):
                cur = cand
            i -= b
    return cur


def run_shards(exe, cid, seed, tier, known, scale, only, shards, wall_limit, tmp):
    procs = []
    for s in range(shards):
        d = os.path.join(tmp, "s%d" % s)
        os.makedirs(d + "/scratch", exist_ok=True)
        args = [exe, "--out", d + "/out.json", "--current", d + "/current", "--seed", str(seed), "--shard", str(s), "--shards", str(shards),
                "--scale", str(scale), "--scratch", d + "/scratch", "--known", ",".join(known)]
        if tier == "thorough":
            args.append("--thorough")
        if only:
            args += ["--only", only]
        procs.append((s, d, subprocess.Popen(args, stdout=open(d + "/log", "wb"), stderr=subprocess.STDOUT, env=clean_env(), cwd=d + "/scratch",
                                             start_new_session=True)))
    end = time.time() + wall_limit
    out = []
    for s, d, p in procs:
        status = None
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            status = "hang"
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        rep = None
        if os.path.exists(d + "/out.json"):
            rep = json.load(open(d + "/out.json"))
        if rep is None and status is None:
            status = "crash"
        out.append(dict(shard=s, dir=d, rc=rc, status=status or "done", report=rep))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--replay")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--only")
    ap.add_argument("--san", action="store_true", help="use the sanitized build only")
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    cid = a.cid
    cfg = CHECKS[cid]
    known = load_known(cid)
    t_start = time.time()
    if a.replay:
        exe = build(cid, a.san)
        kind, msg = run_replay(exe, os.path.abspath(a.replay), known, 600)
        log(kind, msg)
        if kind == "ok":
            return 0
        log("VIOLATION property=%s replay=%s" % (cid, a.replay))
        return 1

    passes = [(a.san, a.scale)]
    if a.tier == "thorough" and cfg.get("san", True) and not a.san:
        passes.append((True, a.scale * cfg.get("san_scale", 0.05)))
    agg = {}
    violation = None
    results_err = None
    t_search = 0.0
    for san, scale in passes:
        exe = build(cid, san)
        tmp = tempfile.mkdtemp(prefix="pbt-" + cid)
        try:
            names = dict(re.findall(r"^(\d+) (\S+)$", subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True).stdout, re.M))
            limit = 700 if a.tier == "quick" else 4 * 3600
            if a.tier == "quick":
                limit = max(60, 780 - (time.time() - t_start))
            t0 = time.time()
            res = run_shards(exe, cid, a.seed, a.tier, known, scale, a.only, a.shards, limit, tmp)
            t_search += time.time() - t0
            for r in res:
                if r["report"]:
                    for p in r["report"]["parts"]:
                        q = agg.setdefault(p["name"] + ("@sanitized" if san else ""),
                                           dict(evaluations=0, nontrivial=0, discards=0, known=0, planned=0, seconds=0.0, labels={}, metrics={}, samples=[], known_keys={}))
                        for k in ("evaluations", "nontrivial", "discards", "known", "planned", "seconds"):
                            q[k] += p[k]
                        for k, v in p["labels"].items():
                            q["labels"][k] = q["labels"].get(k, 0) + v
                        for k, v in p["known_keys"].items():
                            q["known_keys"][k] = q["known_keys"].get(k, 0) + v
                        for k, v in p["metrics"].items():
                            q["metrics"][k] = max(q["metrics"].get(k, v), v)
                        q["samples"] += p["samples"]
            for r in res:
                if violation:
                    break
                fails = None
                if r["report"] and "failure" in r["report"]:
                    f = r["report"]["failure"]
                    fails = (f["part"], f["tape"], f["message"], ("fail",), 900)
                elif r["status"] in ("crash", "hang"):
                    st, part, tape = read_current(r["dir"] + "/current")
                    tail = open(r["dir"] + "/log", "rb").read()[-500:].decode("utf8", "replace").strip().replace("\n", " | ")
                    if st == 1 and str(part) in names:
                        fails = (names[str(part)], tape, "%s (status %s) %s" % (r["status"], r["rc"], tail),
                                 ("crash", "fail", "hang") if r["status"] == "hang" else ("crash", "fail"), 60)
                    else:
                        results_err = "shard %d ended with status %s outside a case: %s" % (r["shard"], r["rc"], tail)
                        continue
                if fails:
                    part, tape, msg, kinds, tmo = fails
                    rp = write_replay(cid, part, tape, msg, r["status"])
                    if r["status"] == "crash":
                        first = run_replay(exe, rp, known, tmo)
                        if first[0] in kinds:
                            tape2 = shrink_crash(exe, cid, part, tape, known, kinds, 60, tmo)
                            while tape2 and tape2[-1] == 0:
                                tape2.pop()
                            os.unlink(rp)
                            rp = write_replay(cid, part, tape2, msg, r["status"])
                    again = [run_replay(exe, rp, known, tmo) for _ in range(3)]
                    if all(x[0] in kinds for x in again):
                        violation = (rp, part, again[-1][1] if again[-1][0] != "ok" else msg)
                    else:
                        results_err = "part %s: failure did not reproduce from its replay file %s: %s / %s" % (part, rp, msg, again)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        if violation:
            break

    ev = sum(q["evaluations"] for q in agg.values())
    nt = sum(q["nontrivial"] for q in agg.values())
    samples = []
    for n, q in agg.items():
        for s in q["samples"][:3]:
            samples.append("[%s] %s" % (n, s))
    known_hit = {}
    for q in agg.values():
        for k, v in q["known_keys"].items():
            known_hit[k] = known_hit.get(k, 0) + v
    wall = time.time() - t_start
    evidence = dict(property=cid, tier=a.tier, seed=a.seed, level="exploration",
                    coverage=dict(evaluations=ev, distinct_nontrivial=nt, rule=cfg["rule"], samples=samples[:24] or ["(no sample recorded)"],
                                  search_seconds=round(t_search, 2),
                                  parts={n: dict(evaluations=q["evaluations"], distinct_nontrivial=q["nontrivial"], discards=q["discards"],
                                                 excluded_known=q["known"], cpu_seconds=round(q["seconds"], 2), classes=q["labels"],
                                                 worst_observed={k: float("%.4g" % v) for k, v in q["metrics"].items()}) for n, q in agg.items()}),
                    assumptions=cfg.get("assumptions", []), wall_s=round(wall, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(evidence, open(os.path.join(VERIF, "evidence", cid + ".json"), "w"), indent=1)
    if a.stats:
        log(json.dumps(evidence["coverage"], indent=1))
    for k, desc in known.items():
        if known_hit.get(k, 0) > 0 or True:
            log("KNOWN-FINDING: property=%s key=%s %s (met %d times)" % (cid, k, desc, known_hit.get(k, 0)))
    if violation:
        rp, part, msg = violation
        log("part %s: %s" % (part, msg))
        log("VIOLATION property=%s replay=%s" % (cid, os.path.relpath(rp, VERIF)))
        return 1
    if results_err:
        log("CHECK ERROR:", results_err)
        return 2
    for n, q in agg.items():
        if "@" not in n and q["planned"] and (q["discards"] > 0.5 * q["evaluations"]):
            log("CHECK ERROR: part %s discarded %d of %d cases" % (n, q["discards"], q["evaluations"]))
            return 2
    log("OK property=%s evaluations=%d nontrivial=%d search=%.1fs wall=%.1fs" % (cid, ev, nt, t_search, wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())
