#!/usr/bin/env python3
"""Driver: builds the simulator from /repo's working tree, runs seeds, reports.

  run.py setup                      build everything once
  run.py check C01 [--tier=quick]   decide one property
  run.py replay FILE [-v]           re-execute a replay file
"""
import threading, sys, os, json, hashlib, subprocess, glob, time, shutil, struct, re
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(V, "sim")
REPO = os.environ.get("SMALL_REPO", "/repo")
BUILD = os.environ.get("SMALL_SIM_BUILD", os.path.join(V, "build"))
OUT = os.environ.get("SMALL_SIM_OUT", V)	# evidence/ and replays/ go here
NPROC = min(8, os.cpu_count() or 8)
CXX, CC = "g++", "gcc"

sys.path.insert(0, V)
from checks import CHECKS, TIERS  # noqa: E402

REDEF = ("malloc free calloc realloc aligned_alloc memalign posix_memalign memcpy memmove memset memcmp "
         "mmap mmap64 munmap madvise mprotect mremap sysconf getpagesize pthread_self pthread_equal abort exit "
         "__assert_fail fprintf printf fputs fwrite sched_yield usleep nanosleep "
         "pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_unlock pthread_mutex_trylock "
         "pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_unlock "
         "pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock "
         "mtx_init mtx_destroy mtx_lock mtx_unlock pthread_once call_once").split()

VARIANT = {
    "plain": [],
    "ndebug": ["-DNDEBUG"],
    "asan": ["-D__SANITIZE_ADDRESS__=1", "-Dno_sanitize_address=no_sanitize_thread"],
}

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), r.stdout[-6000:]))
        raise BuildError(" ".join(cmd))
    return r.stdout

class BuildError(Exception):
    pass

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]

def repo_headers():
    return sorted(glob.glob(REPO + "/include/small/*.h") + glob.glob(REPO + "/third_party/**/*.h", recursive=True)
                  + glob.glob(REPO + "/small/*.h"))

CFG_LOCK = {"ON": threading.Lock(), "OFF": threading.Lock()}
def config_h(variant):
    with CFG_LOCK["ON" if variant == "asan" else "OFF"]:
        return config_h_locked(variant)

def config_h_locked(variant):
    """small_config.h as the repository's own CMake would generate it."""
    src = sorted([REPO + "/CMakeLists.txt", REPO + "/small/small_config.h.cmake"])
    asan = "ON" if variant == "asan" else "OFF"
    d = os.path.join(BUILD, "cfg-%s-%s" % (asan, digest(src)))
    inc = os.path.join(d, "inc")
    if os.path.exists(inc + "/small_config.h"):
        return inc
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(inc)
    try:
        sh(["cmake", "-S", REPO, "-B", d + "/cm", "-G", "Unix Makefiles", "-DCMAKE_C_COMPILER=/usr/bin/gcc",
            "-DCMAKE_CXX_COMPILER=/usr/bin/g++", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DENABLE_ASAN=" + asan])
        shutil.copy(d + "/cm/small/include/small_config.h", inc + "/small_config.h.tmp")
    except (BuildError, OSError):
        t = open(REPO + "/small/small_config.h.cmake").read()
        out = []
        for l in t.splitlines():
            m = re.match(r"#cmakedefine\s+(\w+)(.*)", l)
            if m:
                on = m.group(1) != "ENABLE_ASAN" or asan == "ON"
                l = "#define %s%s" % m.groups() if on else "/* #undef %s */" % m.group(1)
            out.append(l)
        open(inc + "/small_config.h.tmp", "w").write("\n".join(out) + "\n")
    shutil.rmtree(d + "/cm", ignore_errors=True)
    os.rename(inc + "/small_config.h.tmp", inc + "/small_config.h")
    return inc

def lib_sources(variant):
    allc = sorted(glob.glob(REPO + "/small/*.c"))
    base = [c for c in allc if not c.endswith("_asan.c")]
    if variant != "asan":
        return base
    asan = [c for c in allc if c.endswith("_asan.c")]
    repl = set(c.replace("_asan.c", ".c") for c in asan)
    return asan + [c for c in base if c not in repl]

def build_lib(variant, pool):
    srcs = lib_sources(variant) + sorted(glob.glob(SIM + "/shim/*.c") + glob.glob(SIM + "/shim/*.cpp"))
    key = digest(srcs + repo_headers() + glob.glob(SIM + "/shim/*.h")
                 + [REPO + "/CMakeLists.txt", REPO + "/small/small_config.h.cmake"], variant + open(__file__).read())
    out = os.path.join(BUILD, "lib-%s-%s.o" % (variant, key))
    if os.path.exists(out):
        return out
    inc = config_h(variant)
    d = out + ".d"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    def one(src):
        o = os.path.join(d, os.path.basename(src) + ".o")
        cpp = src.endswith(".cpp")
        sh([CXX if cpp else CC, "-std=gnu++17" if cpp else "-std=gnu11" if "/shim/" in src else "-std=gnu99", "-O1", "-g0", "-w", "-c", src, "-o", o, "-D_GNU_SOURCE", "-DNVALGRIND=1",
            *(["-fno-exceptions", "-fno-rtti"] if cpp else []), "-U_FORTIFY_SOURCE", "-fsanitize=thread", "-fno-pie", "-fno-common", "-fno-stack-protector", "-ffp-contract=off",
            "-I" + inc, "-I" + REPO + "/include/small", "-I" + REPO + "/third_party", "-I" + REPO + "/include",
            "-I" + SIM + "/shim"] + VARIANT[variant])
        return o
    objs = list(pool.map(one, srcs))
    redef = os.path.join(d, "redef")
    with open(redef, "w") as f:
        for s in REDEF:
            f.write("%s sim_%s\n" % (s, s))
    sh(["ld", "-r", "-o", d + "/all.o"] + objs)
    sh(["objcopy", "--redefine-syms=" + redef, "--rename-section", ".data=simlib_data",
        "--rename-section", ".bss=simlib_bss", d + "/all.o", d + "/out.o"])
    os.rename(d + "/out.o", out)
    shutil.rmtree(d, ignore_errors=True)
    return out

def build_cpp(name):
    src = os.path.join(SIM, name + ".cpp")
    key = digest([src] + sorted(glob.glob(SIM + "/*.h")) + [SIM + "/shim/shim.h"])
    out = os.path.join(BUILD, "%s-%s.o" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        sh([CXX, "-std=c++17", "-O1" if name != "engine" else "-O2", "-g0", "-fno-pie", "-fno-stack-protector", "-Wall", "-Wextra",
            "-c", src, "-o", tmp])
        os.rename(tmp, out)
    return out

def build(pairs):
    """pairs of (scenario, variant) -> executable path"""
    os.makedirs(BUILD, exist_ok=True)
    variants = sorted(set(v for _, v in pairs))
    scs = sorted(set(s for s, _ in pairs))
    with ThreadPoolExecutor(NPROC) as cp, ThreadPoolExecutor(16) as lp:
        fe = cp.submit(build_cpp, "engine")
        fs = {s: cp.submit(build_cpp, "sc_" + s) for s in scs}
        with ThreadPoolExecutor(4) as vp:
            fl = {v: vp.submit(build_lib, v, lp) for v in variants}
        libs = {v: f.result() for v, f in fl.items()}
        eng = fe.result()
        objs = {s: f.result() for s, f in fs.items()}
    exes = {}
    todo = []
    for s, v in pairs:
        key = hashlib.sha256("|".join([eng, objs[s], libs[v]]).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "sim-%s-%s-%s" % (s, v, key))
        exes[(s, v)] = exe
        if not os.path.exists(exe):
            todo.append((exe, s, v))
    def link(t):
        exe, s, v = t
        tmp = exe + ".%d.tmp" % os.getpid()
        sh([CXX, "-no-pie", "-o", tmp, eng, objs[s], libs[v], "-lm"])
        os.rename(tmp, exe)
    with ThreadPoolExecutor(NPROC) as p:
        list(p.map(link, todo))
    return exes

def load_known():
    """known-findings.txt: 'finding: property=<id> case=<file> <what>' and 'fixed: ...' lines"""
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\w+) case=(\S+) key=(\S+) (.*)", l.strip())
            if m:
                out.append(m.groups())
    return out

def check(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    T = TIERS[tier]
    plan = spec["plan"]           # list of (scenario, variant, weight)
    pairs = sorted(set((s, v) for s, v, _ in plan))
    known = [k for k in load_known() if k[0] == prop]
    for _, case, _, _ in known:
        sc, va = case_head(os.path.join(V, case))
        if (sc, va) not in pairs:
            pairs.append((sc, va))
    try:
        exes = build(pairs)
    except BuildError as e:
        print("BUILD-FAILED %s" % e)
        return 2
    tb = time.time() - t0
    # known findings: replay each recorded history
    for _, case, key, what in known:
        p = os.path.join(V, case)
        r = subprocess.run([exes[case_head(p)], "replay", p], stdout=subprocess.PIPE, text=True)
        m = re.search(r"REPLAY violation key=(\S+)", r.stdout)
        if m and m.group(1) == key:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    out = os.path.join(BUILD, "out-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    total_w = float(sum(w for _, _, w in plan))
    budget = spec.get("budget", {}).get(tier, T.get("of") and spec.get("budget", {}).get(T["of"]) or T["runs"])
    budget = budget * T.get("mult", 2) // 2 // T.get("scale", 1)
    cap = T["cap"]
    jobs = []
    for (s, v, w) in plan:
        runs = max(NPROC, int(budget * w / total_w))
        per = (runs + NPROC - 1) // NPROC
        for k in range(NPROC):
            jobs.append((s, v, k, per, w))
    # every job gets its own slice of seeds; the verdict does not depend on timing
    # unless the safety cap is hit, which the evidence then says
    njob = [0]
    def run(j):
        s, v, k, per, w = j
        o = os.path.join(out, "%s-%s-%d" % (s, v, k))
        left = max(5.0, cap - (time.time() - t0))
        tl = max(3.0, cap * w / total_w)
        base = int(hashlib.sha256(("%s/%s/%d" % (prop, s, seed)).encode()).hexdigest()[:15], 16)
        off = {"plain": 0, "ndebug": 1, "asan": 2}[v]
        cmd = [exes[(s, v)], "--prop=" + prop, "--variant=" + v, "--seed=%d" % base, "--start=%d" % (k * 3 + off),
               "--stride=%d" % (3 * NPROC), "--runs=%d" % per, "--time=%.1f" % min(left, tl), "--out=" + o,
               "--gate=%d" % T["gate"]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left + 120)
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 124, "worker timeout"
        return (j, o, rc, err)
    viol, bad, stats = [], [], []
    with ThreadPoolExecutor(NPROC) as p:
        futs = [p.submit(run, j) for j in jobs]
        for f in futs:
            if viol:
                f.cancel()
                if f.cancelled():
                    continue
            j, o, rc, err = f.result()
            if rc == 1 and os.path.exists(o + ".case"):
                viol.append((j, o, err))
            elif rc != 0:
                bad.append((j, rc, err))
            else:
                stats.append((j, o))
    # report
    rc = 0
    replay = None
    vrec = []
    if viol:
        j, o, err = viol[0]
        s, v = j[0], j[1]
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        raw = o + ".case"
        replay = os.path.join(rdir, "%s-%s-%s.case" % (prop, s, v))
        m = subprocess.run([exes[(s, v)], "minimize", raw, replay, "--secs=%d" % T["min"]],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if m.returncode != 0:
            # could not be reproduced exactly: an error of the machinery, not a verdict
            print("ERROR minimise/replay failed: %s %s" % (m.stdout, m.stderr))
            shutil.copy(raw, replay)
            rc = 2
        else:
            ok = True
            for _ in range(2):
                r = subprocess.run([exes[(s, v)], "replay", replay], stdout=subprocess.PIPE, text=True)
                ok = ok and r.returncode == 1
            if not ok:
                print("ERROR replay does not reproduce: %s" % r.stdout)
                rc = 2
            else:
                txt = open(replay).read()
                msg = re.search(r"^expect_msg (.*)$", txt, re.M)
                key = re.search(r"^expect_key (.*)$", txt, re.M)
                what = "%s: %s" % (key.group(1) if key else "?", msg.group(1) if msg else "?")
                print(what[:600])
                print(m.stdout.strip())
                print("VIOLATION property=%s replay=%s" % (prop, replay))
                vrec.append({"what": what[:600], "replay": replay, "scenario": s, "variant": v})
                rc = 1
    elif bad:
        for j, r, err in bad[:3]:
            print("ERROR worker %s rc=%s: %s" % (j, r, err.strip()[-1500:]))
        rc = 2
    write_evidence(prop, tier, seed, spec, plan, stats, vrec, time.time() - t0, tb)
    shutil.rmtree(out, ignore_errors=True)
    prune()
    if rc == 0:
        print("OK property=%s wall=%.1fs" % (prop, time.time() - t0))
    return rc

def case_head(path):
    s = v = None
    for l in open(path):
        if l.startswith("scenario "): s = l.split()[1]
        if l.startswith("variant "): v = l.split()[1]
    return (s, v)

def write_evidence(prop, tier, seed, spec, plan, stats, vrec, wall, tb):
    runs = nontriv = gated = points = swi = longest = 0
    faults, cover, samples, trunc = {}, {}, [], False
    hs = set()
    perpair = {}
    sim_wall = 0.0
    for j, o in stats:
        d = json.load(open(o + ".json"))
        runs += d["runs"]; nontriv += d["nontrivial"]; gated += d["gated"]; points += d["points"]
        longest = max(longest, d["longest"]); swi += d["switches_inside"]; trunc = trunc or d["truncated"]; sim_wall += d["wall"]
        for k, n in d["faults"].items(): faults[k] = faults.get(k, 0) + n
        for k, n in d["cover"].items(): cover[k] = cover.get(k, 0) + n
        key = "%s/%s" % (j[0], j[1])
        perpair[key] = perpair.get(key, 0) + d["runs"]
        if len(samples) < 6: samples += ["%s: %s" % (key, x) for x in d["samples"][:1]]
        with open(o + ".hash", "rb") as f:
            b = f.read()
        hs.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    eh = max(1e-6, wall - tb) / 3600.0
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(hs),
            "rule": "one evaluation is one complete simulated run (one seed); a run is non-trivial if at least one "
                    "thread switch happened inside an operation, a thread set was frozen, a fault was injected, or the "
                    "scenario says it exercised its special path; distinct = distinct 64-bit hashes over the sequence of "
                    "(thread, operation, access index, switch target), injected faults and operation results",
            "samples": samples or ["none"],
            "nontrivial_runs": nontriv,
            "runs_per_scenario_variant": perpair,
            "seeds": {"base": seed, "derivation": "splitmix(sha256(property/scenario/VERIF_SEED), run index)"},
            "runs_per_hour": int(runs / eh),
            "simulated_scheduling_points": points,
            "longest_run_points": longest,
            "simulated_time_note": "simulated time is counted in scheduling points (library memory accesses); the code has no clocks or timers",
            "switches_inside_operations": swi,
            "faults_injected": faults,
            "exact_replay_checks": gated,
            "events": cover,
            "time_cap_hit": trunc,
            "real_code": spec.get("real", "all of /repo/small/*.c and the inline code of include/small/*.h"),
            "stubbed": "malloc/free, mmap/munmap/madvise/mprotect, sysconf, pthread_self and locks are simulated; "
                       "threads are fibers; third_party/valgrind macros are compiled out",
        },
        "wall_s": round(wall, 2),
        "assumptions": [
            "sequentially consistent interleavings at the granularity of compiler-visible memory accesses at -O1; weaker hardware orderings are not explored",
            "the code under test is compiled with -fsanitize=thread instrumentation; uninstrumented (register-only) code between accesses is atomic",
            "OS and heap behave like the simulated ones (fresh mappings zeroed, arbitrary page-aligned placement, any call may be refused)",
        ],
        "violations": vrec,
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

def prune():
    """keep the build directory small"""
    fs = [os.path.join(BUILD, f) for f in os.listdir(BUILD)]
    fs = [f for f in fs if os.path.isfile(f)]
    fs.sort(key=os.path.getmtime, reverse=True)
    for f in fs[400:]:
        try: os.unlink(f)
        except OSError: pass

def main():
    a = sys.argv[1:]
    opts = dict(x[2:].split("=", 1) if "=" in x else (x[2:], "1") for x in a if x.startswith("--"))
    pos = [x for x in a if not x.startswith("-")]
    if not pos:
        print(__doc__); return 2
    if pos[0] == "setup":
        pairs = sorted(set((s, v) for c in CHECKS.values() for s, v, _ in c["plan"]))
        build(pairs)
        print("built %d simulators" % len(pairs))
        return 0
    if pos[0] == "check":
        tier = opts.get("tier") or os.environ.get("VERIF_TIER") or "quick"
        if tier not in TIERS: tier = "quick"
        seed = int(opts.get("seed") or os.environ.get("VERIF_SEED") or "1")
        return check(pos[1], tier, seed)
    if pos[0] == "replay":
        p = pos[1]
        sv = case_head(p)
        exe = build([sv])[sv]
        r = subprocess.run([exe, "replay", p] + (["--v=1"] if "-v" in a else []))
        return r.returncode
    if pos[0] == "exe":
        print(build([(pos[1], pos[2])])[(pos[1], pos[2])])
        return 0
    print(__doc__)
    return 2

if __name__ == "__main__":
    sys.exit(main())
