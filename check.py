#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py PROPERTY [--tier quick|thorough] [--seed N]     build from /repo's working tree, simulate, judge
  check.py PROPERTY --replay FILE                          build and re-execute one recorded run

Exit status: 0 property held on everything explored, 1 violation (with a VIOLATION line), 2 no answer (does not build,
simulator error, violation not reproducible).
"""
import argparse, glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NOARR_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from config import CHECKS, COMPONENTS  # noqa: E402

WRAP = ("memcpy memmove memset sched_yield nanosleep pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
        "pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_rwlock_rdlock pthread_rwlock_wrlock "
        "pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock pthread_once syscall "
        "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv "
        "_ZNSt18condition_variable10notify_allEv "
        "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_thread_atexit").split()
RT = ["core", "runner", "tbb_rt", "gomp_rt"]
RT_FLAGS = "-std=c++20 -O2 -w -fno-builtin-malloc".split()
H_FLAGS = "-std=c++20 -O1 -fsanitize=thread -w -fno-omit-frame-pointer".split()
NCPU = len(os.sched_getaffinity(0))


class NoAnswer(Exception):
    pass


class DoesNotCompile(Exception):
    """a use of the public interface that the property covers no longer compiles, while the library as such does"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build(prop, cfg):
    """compile the harness against the current tree; objects are reused only if every input byte is the same"""
    d = os.path.join(BUILD, prop)
    os.makedirs(d, exist_ok=True)
    harness = os.path.join(HERE, "harness")
    inputs = [os.path.join(REPO, "include"), os.path.join(HERE, "sim"), harness]
    key = tree_hash(inputs) + repr((cfg["src"], cfg["parts"], cfg.get("flags"), H_FLAGS, RT_FLAGS))
    key = hashlib.sha256(key.encode()).hexdigest()
    binary = os.path.join(d, "sim.bin")
    stamp = os.path.join(d, "stamp")
    if os.path.exists(stamp) and os.path.exists(binary) and open(stamp).read() == key:
        return binary
    if os.path.exists(stamp):
        os.remove(stamp)
    jobs = []
    for src in cfg["src"]:
        for p in range(cfg["parts"]):
            o = os.path.join(d, "h_%s_%d.o" % (os.path.splitext(src)[0], p))
            jobs.append((o, ["g++"] + H_FLAGS + cfg.get("flags", ["-fopenmp"]) +
                         ["-I" + os.path.join(REPO, "include"), "-I" + harness, "-I" + os.path.join(harness, "cuda"), "-DPART=%d" % p,
                          "-DNPARTS=%d" % cfg["parts"], "-c", os.path.join(harness, src), "-o", o]))
    hobjs = [j[0] for j in jobs]
    robjs = []
    for r in RT:
        o = os.path.join(d, "rt_%s.o" % r)
        robjs.append(o)
        jobs.append((o, ["g++"] + RT_FLAGS + ["-c", os.path.join(HERE, "sim", r + ".cpp"), "-o", o]))

    def one(j):
        if os.path.exists(j[0]):
            os.remove(j[0])
        for wait in (0, 10, 30):  # a compiler that was ended for lack of memory is given another chance
            time.sleep(wait)
            r = sh(j[1])
            if r.returncode == 0 or (r.returncode == 1 and not re.search(r"Killed signal|virtual memory exhausted|Cannot allocate memory",
                                                                        r.stderr)):
                break
        return j, r

    with ThreadPoolExecutor(max(2, NCPU)) as ex:
        for j, r in ex.map(one, jobs):
            if r.returncode:
                err = "\n".join(l for l in r.stderr.splitlines() if "error" in l)[:3000] or r.stderr[-2000:]
                if j[0] in hobjs and r.returncode == 1 and re.search(r": error: ", r.stderr) and \
                        not re.search(r"fatal error: Killed|internal compiler error|No space left", r.stderr):
                    probe = sh(["g++", "-std=c++20", "-w", "-fsyntax-only", "-I" + os.path.join(REPO, "include"), "-x", "c++", "-"],
                               input="#include <noarr/structures_extended.hpp>\n#include <noarr/traversers.hpp>\n"
                                     "auto s = noarr::scalar<int>() ^ noarr::vector<'i'>(3);\n")
                    if probe.returncode == 0:
                        raise DoesNotCompile(json.dumps({"command": j[1], "errors": err}))
                raise NoAnswer("compilation failed: %s\n%s" % (" ".join(j[1]), err))
    for o in robjs:
        r = sh(["objcopy"] + [x for s in ("memset", "memcpy", "memmove") for x in ("--redefine-sym", "%s=__real_%s" % (s, s))] + [o])
        if r.returncode:
            raise NoAnswer("objcopy: " + r.stderr)
    # harness objects first: where inline functions exist in several objects, the instrumented copy is used
    r = sh(["g++", "-no-pie"] + hobjs + robjs + ["-Wl,--wrap=" + w for w in WRAP] + ["-lpthread", "-o", binary])
    if r.returncode:
        raise NoAnswer("link failed: " + r.stderr[-3000:])
    with open(stamp, "w") as f:
        f.write(key)
    return binary


def last_json(r):
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    if not lines:
        raise NoAnswer("simulator gave no result: rc=%d %s" % (r.returncode, r.stderr[-500:]))
    return json.loads(lines[-1])


def same(a, b):
    return a["class"] == b["class"] and a["hash"] == b["hash"]


def repro(binary, workdir, summary):
    """gate a violation: exact repetition from the seed, then from the trace, then minimise"""
    v = json.load(open(os.path.join(workdir, "viol.json")))
    seed = str(summary["run_seed"])
    runs = [last_json(sh([binary, "one", "--seed", seed])) for _ in range(2)]
    if not all(r["rc"] == 2 for r in runs):
        raise NoAnswer("violation does not repeat from its seed: %s vs %s" % (v, runs))
    if v["trace_overflow"] or not all(same(r, v) for r in runs):
        # too long for a trace, or the code under test reads memory the simulator does not determine: replayed by seed
        return v, None, v
    tr = os.path.join(workdir, "viol.trace")
    again = last_json(sh([binary, "replay", tr]))
    if again["rc"] != 2 or again["class"] != v["class"]:
        return v, None, v
    mini = os.path.join(workdir, "min.trace")
    sh([binary, "minimise", tr, mini, "--class", v["class"], "--time", "20"])
    use = tr
    mres = again
    if os.path.exists(mini):
        a = last_json(sh([binary, "replay", mini]))
        b = last_json(sh([binary, "replay", mini]))
        if a["rc"] == 2 and a["class"] == v["class"] and same(a, b):
            use, mres = mini, a
    return v, [list(map(int, l.split())) for l in open(use)], mres


def write_replay(path, rep):
    with open(path, "w") as f:
        json.dump(rep, f)
        f.write("\n")


def known_findings(prop):
    """listed findings: each names a scenario of its own (which the search never picks) and how it fails"""
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--self-test", action="store_true", help="check that the tools the checks need are present")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--time", type=float)
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    if a.self_test:
        for t in (["g++", "--version"], ["objcopy", "--version"]):
            r = sh(t)
            print(r.stdout.splitlines()[0])
        return 0
    prop = a.property
    cfg = CHECKS[prop]
    t0 = time.time()
    for f in glob.glob(os.path.join(HERE, "evidence", prop + ".json")) if not (a.replay or a.no_evidence) else []:
        os.remove(f)
    try:
        binary = build(prop, cfg)
        t_build = time.time() - t0
        if a.replay:
            rep = json.load(open(a.replay))
            work = os.path.join(BUILD, prop)
            if rep.get("trace") is not None:
                tr = os.path.join(work, "replay.trace")
                with open(tr, "w") as f:
                    f.write("".join("%d %d %d\n" % tuple(e) for e in rep["trace"]))
                r = last_json(sh([binary, "replay", tr]))
            else:
                r = last_json(sh([binary, "one", "--seed", str(rep["run_seed"])] + (["--scenario", rep["only"]] if rep.get("only") else [])))
            print(json.dumps(r, indent=1))
            if r["rc"] == 2:
                exact = r["class"] == rep["class"] and r["hash"] == rep["replay_hash"]
                print("replay %s" % ("reproduces the recorded execution exactly" if exact else
                                     "fails, but not exactly as recorded (the code differs?)"))
                print("VIOLATION property=%s replay=%s" % (prop, os.path.abspath(a.replay)))
                return 1
            if r["rc"] == 3:
                raise NoAnswer("simulator error during replay")
            print("replay passes on this tree")
            return 0
        work = os.path.join(BUILD, prop)
        for f in ("viol.json", "viol.trace", "min.trace", "summary.json"):
            p = os.path.join(work, f)
            if os.path.exists(p):
                os.remove(p)
        tier = cfg[a.tier]
        runs = a.runs or tier["runs"]
        tl = a.time or tier["time"]
        r = sh([binary, "run", "--seed", str(a.seed), "--runs", str(runs), "--time", str(tl), "--workers", str(min(NCPU, 16)),
                "--out", work])
        if r.returncode not in (0, 1, 3):
            raise NoAnswer("simulator: rc=%d %s %s" % (r.returncode, r.stdout[-500:], r.stderr[-1000:]))
        summary = json.load(open(os.path.join(work, "summary.json")))
        if r.returncode == 3:
            raise NoAnswer("simulator error: " + summary.get("error", "?") + r.stderr[-500:])
        if r.returncode == 0 and summary["probes"].get("abandoned_runs", 0) * 50 > summary["runs"]:
            raise NoAnswer("too many runs outgrew the simulator's tables")
        violations = []
        status = 0
        if r.returncode == 1:
            v, trace, mres = repro(binary, work, summary)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            path = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, re.sub(r"\W+", "_", v["scenario"]), summary["run_seed"]))
            write_replay(path, {
                "property": prop, "tier": a.tier, "seed": a.seed, "run_index": summary["run_index"],
                "run_seed": summary["run_seed"], "class": v["class"], "scenario": v["scenario"],
                "message": mres["msg"], "configuration": mres["note"], "original_message": v["msg"],
                "original_configuration": v["note"], "original_decisions": v["decisions"],
                "decisions": mres["decisions"], "faults": mres["faults"], "replay_hash": mres["hash"],
                "kinds": ["scenario", "swarm", "param", "data", "gap", "who", "task", "fault", "chunk"],
                "trace": trace})
            print("%s in scenario %s: %s" % (v["class"], v["scenario"], mres["msg"]))
            print("  configuration: %s" % mres["note"])
            print("  run seed %s; %d decisions, minimised to %d; faults in the minimised run: %s" %
                  (summary["run_seed"], v["decisions"], mres["decisions"], mres["faults"]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            status = 1
            violations.append({"class": v["class"], "scenario": v["scenario"], "message": mres["msg"], "replay": path,
                               "run_seed": summary["run_seed"]})
        for k in known_findings(prop):
            v = last_json(sh([binary, "one", "--seed", "1", "--scenario", k["scenario"]]))
            if v["rc"] == 2 and v["class"] == k["class"] and re.search(k["msg"], v["msg"]):
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            elif v["rc"] == 2:
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                path = os.path.join(HERE, "replays", "%s-%s.json" % (prop, re.sub(r"\W+", "_", v["scenario"])))
                write_replay(path, {"property": prop, "tier": a.tier, "run_seed": 1, "only": k["scenario"], "class": v["class"],
                                    "scenario": v["scenario"], "message": v["msg"], "configuration": v["note"],
                                    "replay_hash": v["hash"], "trace": None})
                print("%s in scenario %s: %s" % (v["class"], v["scenario"], v["msg"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                status = 1
                violations.append({"class": v["class"], "scenario": v["scenario"], "message": v["msg"], "replay": path, "run_seed": 1})
            elif v["rc"] != 1:
                raise NoAnswer("known finding %s: %s" % (k["scenario"], v))
        wall = time.time() - t0
        if not a.no_evidence:
            sw = max(summary["wall_s"], 1e-6)
            fired = {k: x for k, x in summary["faults"].items() if x["fired"]}
            ev = {
                "property": prop, "tier": a.tier, "seed": a.seed, "level": cfg["level"], "wall_s": round(wall, 2),
                "coverage": {
                    "evaluations": summary["runs"],
                    "distinct_nontrivial": summary["distinct_nontrivial"],
                    "rule": "one evaluation = one simulated run, judged against the reference model and by the race, heap, "
                            "deadlock and termination monitors; non-trivial = more than two thread switches or an "
                            "injected fault fired; distinct = different scenario or different sequence of "
                            "(scheduled thread, steps since the previous switch) and task assignments",
                    "nontrivial_runs": summary["nontrivial_runs"],
                    "samples": summary["samples"],
                    "distinct_interleavings": summary["distinct_interleavings"],
                    "distinct_interleavings_measure": "hash of the scenario and of the sequence of (scheduled thread, step "
                                                      "count since the previous switch) and task assignments of a run",
                    "runs_and_seeds_per_hour": int(summary["runs"] * 3600 / sw),
                    "simulated_steps": summary["steps"],
                    "simulated_time": "%d scheduler steps (no wall-clock time exists in the simulated system)" % summary["steps"],
                    "thread_switches": summary["switches"],
                    "simulated_threads": summary["threads"],
                    "recorded_events": summary["events"],
                    "faults_injected": fired,
                    "probes": summary["probes"],
                    "scenarios_registered": len(summary["scenarios"]),
                    "scenarios_run": sum(1 for x in summary["scenarios"].values() if x),
                    "scenario_runs_min_max": [min(summary["scenarios"].values()), max(summary["scenarios"].values())],
                    "determinism_double_runs": summary["determinism_checked"],
                    "components": dict(COMPONENTS, **cfg.get("components", {})),
                    "build_s": round(t_build, 2), "simulation_s": round(sw, 2),
                },
                "assumptions": cfg.get("assumptions", []) + [
                    "sequentially consistent interleavings at the granularity of compiler-instrumented memory accesses; "
                    "weak-memory reorderings are covered only through the happens-before race monitor",
                    "task runtimes are simulated; their real scheduling policies are a subset of what the simulated "
                    "scheduler may choose"],
                "violations": len(violations),
                "violation_details": violations,
            }
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
                f.write("\n")
        print("%s %s: %d runs (%d scenarios, %d distinct interleavings), build %.1fs, simulation %.1fs -> %s" %
              (prop, a.tier, summary["runs"], len(summary["scenarios"]), summary["distinct_interleavings"], t_build,
               summary["wall_s"], "held" if not status else "VIOLATED"))
        return status
    except DoesNotCompile as e:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        d = json.loads(str(e))
        path = os.path.join(HERE, "replays", "%s-does_not_compile.json" % prop)
        write_replay(path, {"property": prop, "tier": a.tier, "class": "does_not_compile", "command": d["command"],
                            "errors": d["errors"], "run_seed": 1, "trace": None})
        print("the workload no longer compiles against the library:\n%s" % d["errors"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        if not a.no_evidence:
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump({"property": prop, "tier": a.tier, "seed": a.seed, "level": cfg["level"],
                           "wall_s": round(time.time() - t0, 2),
                           "coverage": {"evaluations": 0, "distinct_nontrivial": 0, "rule": "nothing ran", "samples": []},
                           "assumptions": [],
                           "violations": 1,
                           "violation_details": [{"class": "does_not_compile", "message": d["errors"], "replay": path}]}, f)
        return 1
    except NoAnswer as e:
        print("NO ANSWER property=%s: %s" % (prop, e), file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
