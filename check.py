#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--seconds S] [--runs N]

Builds the simulator and the harness of one property from /repo's working tree, explores simulated runs,
writes evidence/<id>.json.  Exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check.
"""
import argparse, hashlib, json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NWSIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known-findings.txt")
sys.path.insert(0, HERE)
from props import PROPS, ASSUME  # noqa: E402

COMMON = ["-D_GLIBCXX_SANITIZE_STD_ALLOCATOR=1", "-D_GLIBCXX_SANITIZE_VECTOR=1", "-fno-pie", "-g1", "-std=c++20"]
ENGINE = COMMON + ["-O2", "-I" + os.path.join(HERE, "sim")]
HARNESS = COMMON + ["-O1", "-w", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-include", "cstdint",
                    "-include", "functional", f"-I{REPO}/include", f"-I{REPO}/include/nwgraph", f"-I{REPO}/bench", "-DEXECUTION_POLICY", "-I/usr/include/docopt",
                    "-I" + os.path.join(HERE, "harness", "stub")]
LINK = ["-no-pie", "-rdynamic", "-Wl,--allow-multiple-definition", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset"]


def tree_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for r, ds, fs in os.walk(d):
            ds.sort()
            for f in sorted(fs):
                if f.endswith((".hpp", ".h", ".cpp", ".hxx", ".ipp")):
                    p = os.path.join(r, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
    return h.hexdigest()


def compile_all(units):
    """units: list of (source, flags, extra dependency hash).  Objects are cached by content."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)

    def one(u):
        src, flags, dep = u
        key = hashlib.sha256(("\0".join([src, dep] + flags)).encode()).hexdigest()[:24]
        obj = os.path.join(BUILD, "obj", os.path.basename(src).replace(".cpp", "") + "-" + key + ".o")
        if os.path.exists(obj):
            return obj, None
        tmp = obj + ".%d.tmp" % os.getpid()
        p = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return None, "%s does not compile:\n%s" % (src, p.stdout[-6000:])
        os.rename(tmp, obj)
        return obj, None

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, units))
    errs = [e for _, e in res if e]
    if errs:
        sys.stderr.write("ERROR build failed\n" + "\n".join(errs) + "\n")
        sys.exit(2)
    return [o for o, _ in res]


def build(pid):
    P = PROPS[pid]
    engine_dep = tree_hash([os.path.join(HERE, "sim")])
    repo_dep = tree_hash([os.path.join(REPO, "include"), os.path.join(REPO, "bench"), os.path.join(HERE, "harness")]) + engine_dep
    units = [(os.path.join(HERE, "harness", s + ".cpp"), HARNESS + P.get("flags", []), repo_dep) for s in P["sources"]]
    units += [(os.path.join(HERE, "sim", s + ".cpp"), ENGINE, engine_dep) for s in ("rt", "libc", "tbbrt", "main")]
    objs = compile_all(units)
    key = hashlib.sha256("\0".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "%s-%s" % (pid, key))
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        p = subprocess.run(["g++"] + LINK + objs + P.get("libs", []) + ["-ldl", "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            sys.stderr.write("ERROR link failed\n" + p.stdout[-4000:] + "\n")
            sys.exit(2)
        os.rename(tmp, exe)
    return exe


def known_entries(pid):
    """known-findings.txt: 'known<TAB>property<TAB>class<TAB>substring<TAB>what fails' lines suppress; 'fixed: ...' lines do not."""
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            f = l.rstrip("\n").split("\t")
            if f[0] == "known" and len(f) >= 5 and f[1] == pid:
                r.append(f[1:5])
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--runs", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    pid = a.property
    if pid not in PROPS:
        sys.stderr.write("ERROR unknown property\n")
        return 2
    P = PROPS[pid]
    t0 = time.time()
    exe = build(pid)
    tbuild = time.time() - t0
    if a.build_only:
        print(exe)
        return 0
    if a.replay:
        return subprocess.call([exe, "--replay", a.replay, "-v"])
    thorough = a.tier == "thorough"
    runs = a.runs or (P["runs"] * P.get("factor", 12) if thorough else P["runs"])
    secs = a.seconds or (P.get("thorough_seconds", 600) if thorough else P.get("seconds", 40))
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kf = os.path.join(BUILD, "known-%s-%d.tsv" % (pid, os.getpid()))
    ent = known_entries(pid)
    with open(kf, "w") as f:
        for e in ent:
            f.write("\t".join(e[:3]) + "\n")
    jf = os.path.join(BUILD, "out-%s-%d.json" % (pid, os.getpid()))
    cmd = [exe, "--property", pid, "--tier", "thorough" if thorough else "quick", "--seed", str(a.seed), "--runs", str(runs),
           "--max-seconds", str(secs), "--minimise-seconds", "60" if thorough else "25", "--workers", str(a.workers), "--out", jf, "--replay-dir", rdir, "--known", kf,
           "--selftest", "64" if thorough else "24"]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        r = json.load(open(jf))
    except Exception as ex:
        sys.stderr.write("ERROR no result from the simulator (exit %s): %s\n%s\n" % (p.returncode, ex, p.stdout[-3000:]))
        return 2
    finally:
        for x in (kf, jf):
            if os.path.exists(x):
                os.unlink(x)
    rc = p.returncode
    if rc == 0 and r["runs"] == 0:
        rc, r["error"] = 2, "no run was executed"
    hours = max(r["explore_seconds"], 1e-3) / 3600
    evid = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": a.seed, "level": P.get("level", "exploration"),
        "coverage": {
            "evaluations": r["runs"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": "one evaluation is one simulated run decided by one seed; " + r["rule"],
            "samples": r["samples"],
            "simulated_runs_per_hour": int(r["runs"] / hours), "seeds_per_hour": int(r["runs"] / hours),
            "simulated_seconds": r["sim_seconds"], "simulated_time_measure": "virtual clock: 10 ns per instrumented step plus injected clock advances",
            "faults_injected": r["faults"], "conditions_hit": r["probes"],
            "distinct_executions": r["distinct_executions"], "distinct_schedules": r["distinct_schedules"],
            "distinct_measure": "distinct_executions: hash over every choice, access and switch of a run; distinct_schedules: hash over the scheduling decisions and the scenario",
            "preempted_site_pairs": r["preemption_site_pairs"], "scheduling_steps": r["steps"], "switches": r["switches"], "preemptions": r["preemptions"],
            "simulated_threads": r["simulated_threads"], "runs_ending_in_a_tolerated_loud_stop": r["accepted_loud_stops"],
            "repeatability_checks": r["repeat_checks"], "repeatability_mismatches": r["repeat_mismatches"], "replays_from_recorded_choices": r["log_checks"], "of_them_different": r["log_mismatches"], "minimisation_runs": r["minimise_runs"],
            "build_seconds": round(tbuild, 2), "explore_seconds": r["explore_seconds"],
            "real_code": P["real"], "stubs": P.get("stubs", "task scheduler (libtbb runtime), thread creation, locks, clocks, heap, entropy, file system calls: simulated; C++ standard library including the parallel algorithms, TBB headers: real"),
        },
        "assumptions": ASSUME + P.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if rc == 1 else 0,
    }
    if r["violation"]:
        evid["coverage"]["violation"] = {"class": r["violation_class"], "what": r["violation"], "replay": r["replay"]}
    for e, k in zip(ent, r["known"]):
        evid["coverage"].setdefault("known_findings_hit", []).append({"what": e[3], "runs": k["hits"]})
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(evid, open(tmp, "w"), indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    for e in ent:
        print("KNOWN-FINDING: property=%s %s" % (pid, e[3]))
    print("%s: %d simulated runs (%d distinct non-trivial) in %.1f s, build %.1f s, %d preemptions, faults %s" %
          (pid, r["runs"], r["distinct_nontrivial"], r["explore_seconds"], tbuild, r["preemptions"], json.dumps(r["faults"])))
    if rc == 1:
        print("%s: %s" % (r["violation_class"], r["violation"]))
        print("VIOLATION property=%s replay=%s" % (pid, r["replay"]))
    elif rc:
        sys.stderr.write("ERROR %s\n%s\n" % (r["error"], p.stdout[-2000:]))
        rc = 2
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
