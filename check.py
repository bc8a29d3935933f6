#!/usr/bin/env python3
"""Builds the simulator around /repo's current sources and runs one property's check.

  check.py build [asan|race ...]        build only
  check.py check P01                    tier from VERIF_TIER (quick by default), seed from VERIF_SEED
  check.py replay FILE [--log]          re-run a replay file against the current tree
  check.py sim FLAVOUR ARGS...          run the simulator binary directly
Exit codes: 0 held, 1 VIOLATION, 2 error of the check itself.
"""
import hashlib, json, os, subprocess, sys, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SIM = os.path.join(HERE, "sim")
NPROC = len(os.sched_getaffinity(0))

COMMON = ["-std=gnu++17", "-O1", "-g", "-U_FORTIFY_SOURCE", "-fno-strict-aliasing", "-I", REPO + "/src", "-w", "-pthread", "-fno-pie"]
REPOFL = {
    "race": ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-ftrivial-auto-var-init=pattern"],
    "asan": ["-fsanitize=address", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_ASSERTIONS", "-ftrivial-auto-var-init=pattern"],
}
LINK = {"race": [], "asan": ["-fsanitize=address"]}
LIBS = ["-lboost_thread", "-lboost_chrono", "-lboost_system", "-ldl", "-lpthread"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace")[-6000:])


def build(flavours):
    os.makedirs(BUILD, exist_ok=True)
    srcs = sorted(p for e in ("cpp", "cc", "cxx") for p in glob.glob(REPO + "/src/**/*." + e, recursive=True))
    rh = sha(*[p[len(REPO):].encode() + rd(p) for e in ("h*", "inc", "ipp") for p in sorted(glob.glob(REPO + "/src/**/*." + e, recursive=True))])
    sh_ = sha(*[rd(p) for p in sorted(glob.glob(SIM + "/*.h"))])
    jobs, objs = [], {}
    for fl in flavours:
        lst = []
        for s in srcs:
            k = sha(fl, rh, rd(s), REPOFL[fl], COMMON)
            o = f"{BUILD}/r-{fl}-{os.path.basename(s)}-{k}.o"
            lst.append(o)
            if not os.path.exists(o):
                jobs.append((os.path.getsize(s) + (10**6 if "transport" in s or "native" in s or "auth" in s else 0), fl, s, o, True))
        for s in ["core.cpp", "tsanrt.cpp", "plan.cpp", "world.cpp", "main.cpp"]:
            p = f"{SIM}/{s}"
            dep = rh if s in ("world.cpp",) else ""
            k = sha(fl, sh_, dep, rd(p), COMMON, "v1")
            o = f"{BUILD}/h-{fl}-{s}-{k}.o"
            lst.append(o)
            if not os.path.exists(o):
                jobs.append((2 * 10**6 if s == "world.cpp" else 10**5, fl, p, o, False))
        objs[fl] = lst

    def comp(j):
        _, fl, s, o, isrepo = j
        tmp = o + f".{os.getpid()}.tmp"
        cmd = ["g++"] + COMMON
        if isrepo:
            cmd += REPOFL[fl]
        else:
            if fl == "asan":
                cmd += ["-DSIM_ASAN"]
            if s.endswith("tsanrt.cpp"):
                cmd += ["-fno-builtin-malloc", "-fno-builtin"]
        run(cmd + ["-c", s, "-o", tmp])
        if isrepo and fl == "race":
            run(["objcopy"] + [f"--redefine-sym={f}=simrt_{f}" for f in ("memcpy", "memmove", "memset", "memcmp")] + [tmp])
        os.replace(tmp, o)

    jobs.sort(key=lambda j: -j[0])
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(comp, jobs))
    bins = {}
    for fl in flavours:
        b = f"{BUILD}/sim-{fl}-{sha(*objs[fl])}"
        if not os.path.exists(b):
            tmp = b + f".{os.getpid()}.tmp"
            run(["g++", "-no-pie", "-rdynamic"] + LINK[fl] + objs[fl] + ["-o", tmp] + LIBS)
            os.replace(tmp, b)
        bins[fl] = b
    # keep the cache small
    keep = set(bins.values()) | {o for l in objs.values() for o in l}
    old = [p for p in glob.glob(BUILD + "/*") if p not in keep and time.time() - os.path.getmtime(p) > 3600]
    for p in old:
        try:
            os.unlink(p)
        except OSError:
            pass
    return bins


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=64:symbolize=1:malloc_context_size=8:detect_odr_violation=0:allocator_may_return_null=0:handle_abort=0:exitcode=77:fast_unwind_on_malloc=1:detect_stack_use_after_return=0"
    e["LC_ALL"] = "C"
    return e


RACE = ("P15", "P16", "P17")
# runs per tier: (flavour, runs, wall cap in seconds)
QUICK_WALL = 60
THOROUGH_WALL = 330
QUICK = {"P15": 8000, "P16": 6000, "P17": 8000, "P22": 700}
REAL = ["src/*.cpp of the library, unmodified: Native, Transport, AuthenticationProtocol, MessageProtocol, all message and type classes", "Boost.Asio (header-only, compiled in), Boost.Thread, libstdc++, glibc allocator / ASan allocator"]
STUB = ["threads scheduling, mutexes, condition variables, once (pthread layer replaced)", "clock and timers (simulated time)", "AF_UNIX stream sockets, epoll, eventfd, timerfd (in-memory, with fault injection)", "the bus daemon (scripted peer in the harness)"]


def tier_plan(prop, tier):
    main = "race" if prop in RACE else "asan"
    other = "asan" if main == "race" else "race"
    if prop == "P22":  # memory is measured with the ASan allocator's hooks
        return [("asan", 10**7, THOROUGH_WALL * 3 // 2)] if tier == "thorough" else [("asan", QUICK["P22"], QUICK_WALL)]
    if tier == "thorough":
        return [(main, 10**7, THOROUGH_WALL), (other, 10**7, THOROUGH_WALL // 2)]
    return [(main, QUICK.get(prop, 10000), QUICK_WALL)]


def check(prop, tier, seed):
    t0 = time.time()
    plan = tier_plan(prop, tier)
    if os.environ.get("SIM_RUNS"):
        plan = [(f, int(os.environ["SIM_RUNS"]), w) for f, _, w in plan]
    if os.environ.get("SIM_WALL"):
        plan = [(f, r, float(os.environ["SIM_WALL"])) for f, r, _ in plan]
    bins = build(sorted({p[0] for p in plan}))
    bt = time.time() - t0
    parts, rc = [], 0
    tmp = f"{BUILD}/out-{prop}-{os.getpid()}.json"
    for fl, runs, wallcap in plan:
        r = subprocess.run([bins[fl], "check", "--property", prop, "--seed", str(seed), "--runs", str(runs), "--wall", str(wallcap), "--workers", os.environ.get("SIM_WORKERS", str(min(NPROC, 16))), "--json", tmp, "--replays", HERE + "/replays", "--known", HERE + "/known-findings.txt"], env=env())
        if os.path.exists(tmp):
            parts.append(json.load(open(tmp)))
            os.unlink(tmp)
        rc = r.returncode
        if rc not in (0, 1):
            print(f"check error: simulator exit status {rc}", file=sys.stderr)
            rc = 2
        if rc:
            break
    if parts:
        write_evidence(prop, tier, seed, parts, time.time() - t0, bt)
    if rc == 0:
        n = sum(p["runs"] for p in parts)
        print(f"{prop}: held in {n} simulated runs ({', '.join(str(p['runs']) + ' ' + p['flavour'] for p in parts)}), {time.time()-t0:.1f} s")
    return rc


def write_evidence(prop, tier, seed, parts, wall, bt):
    def tot(k):
        return sum(p[k] for p in parts)

    def merge(k):
        r = {}
        for p in parts:
            for a, b in p[k].items():
                r[a] = r.get(a, 0) + b
        return r

    sw = max(tot("search_wall_s"), 1e-9)
    faults = merge("faults")
    probes = merge("probes")
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct_nontrivial"),
        "rule": "one evaluation is one simulated execution of the whole library against the scripted bus, decided by one seed (plan, schedule, faults); it is non-trivial when it executed at least one operation of its plan, switched threads at least once and injected at least one fault or pre-emption; distinct means a different event-log hash",
        "samples": [s for p in parts for s in p["samples"]][:4],
        "nontrivial_runs": tot("nontrivial"),
        "runs_per_hour": round(tot("runs") / sw * 3600),
        "seeds_per_hour": round(tot("runs") / sw * 3600),
        "simulated_seconds": round(tot("sim_seconds"), 3),
        "simulated_seconds_per_wall_second": round(tot("sim_seconds") / sw, 1),
        "distinct_interleavings": {"count": tot("distinct_schedules"), "measure": "distinct hashes of the sequence of thread hand-overs of a run"},
        "scheduling_steps": tot("steps"),
        "thread_switches": tot("switches"),
        "memory_preemption_points": tot("memory_hooks"),
        "events_logged": tot("events"),
        "choices_drawn": merge("choices"),
        "faults_injected": faults,
        "runs_with_fault": merge("runs_with_fault"),
        "fault_kinds_never_injected": sorted(k for k, v in faults.items() if not v),
        "reach_probes": probes,
        "probes_never_hit": sorted(k for k, v in probes.items() if not v),
        "step_limit_reached": tot("stepcap"),
        "runs_ended_by_another_property": tot("foreign"),
        "builds": {p["flavour"]: {"runs": p["runs"], "search_wall_s": round(p["search_wall_s"], 2), "workers": p["workers"]} for p in parts},
        "real_components": REAL,
        "stubbed_components": STUB,
        "build_wall_s": round(bt, 2),
        "minimise_wall_s": round(tot("minimise_wall_s"), 2),
    }
    v = [p["violation"] for p in parts if p["violation"]]
    if v:
        cov["violation"] = v[0]
        cov["replay"] = [p["replay"] for p in parts if p["replay"]][0]
    known = merge("known")
    if known:
        cov["known_findings_seen"] = known
    e = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": [
            "sampling: seeds explored, not all interleavings or faults",
            "the pthread, socket and clock replacements behave like Linux (AF_UNIX stream semantics, futex-based mutexes)",
            "memory is sequentially consistent: weak-memory effects are seen only as data races (race build)",
            "the reference codec and the scripted bus follow the D-Bus specification",
        ],
        "wall_s": round(wall, 2), "violations": len(v),
    }
    os.makedirs(HERE + "/evidence", exist_ok=True)
    fn = f"{HERE}/evidence/{prop}.json"
    with open(fn + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(fn + ".tmp", fn)


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "build":
            for f, b in build(a[1:] or ["asan", "race"]).items():
                print(f, b)
            return 0
        if a[0] == "check":
            tier = os.environ.get("VERIF_TIER", "quick")
            if "--thorough" in a:
                tier = "thorough"
            return check(a[1], tier, int(os.environ.get("VERIF_SEED", "1") or 1))
        if a[0] == "replay":
            fl = "asan"
            for l in open(a[1]):
                if l.startswith("flavour "):
                    fl = l.split()[1]
                    break
            return subprocess.run([build([fl])[fl], "replay", os.path.abspath(a[1])] + a[2:], env=env()).returncode
        if a[0] == "sim":
            return subprocess.run([build([a[1]])[a[1]]] + a[2:], env=env()).returncode
    except BuildError as e:
        print("build failed:\n" + str(e), file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
