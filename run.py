#!/usr/bin/env python3
"""Runs the check of one property: builds its harness against /repo's working tree, explores, replays, reports.

usage: run.py ID [--tier quick|thorough] [--replay FILE] [--jobs N] [--only HARNESS]
exit 0: held on everything explored; 1: VIOLATION line printed; 2: error of the check itself.
"""
import argparse, atexit, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "lib"))

API_BASE = ["util", "gridpp", "kdtree", "point", "points", "grid"]
FLAGS = ["-std=c++17", "-O1", "-g0", "-fopenmp", "-fPIC", "-w", "-D_GLIBCXX_ASSERTIONS"]
JOBS = min(8, os.cpu_count() or 8)

def log(*a):
    print(*a, flush=True)

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]

_hdr = {}
def headers_hash(dirs):
    k = tuple(dirs)
    if k not in _hdr:
        h = hashlib.sha256()
        for d in dirs:
            for root, _, files in sorted(os.walk(d)):
                for f in sorted(files):
                    if f.endswith((".h", ".hpp", ".in")):
                        p = os.path.join(root, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _hdr[k] = h.hexdigest()
    return _hdr[k]

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_one(src, flags, incs, hdrs, cxx="g++"):
    key = sha(open(src, "rb").read(), src, " ".join(flags), " ".join(incs), headers_hash(hdrs), cxx)
    obj = os.path.join(BUILD, key + ".o")
    if os.path.exists(obj):
        os.utime(obj)
        return obj
    tmp = "%s.%d.%s.tmp.o" % (obj[:-2], os.getpid(), os.path.basename(src))
    r = run([cxx] + flags + incs + ["-c", src, "-o", tmp])
    if r.returncode != 0:
        raise BuildError("compile %s\n%s" % (src, r.stdout[-3000:]))
    os.rename(tmp, obj)
    return obj

def compile_all(jobs):
    """jobs: list of argument tuples for compile_one; largest first is up to the caller"""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return [f.result() for f in [ex.submit(compile_one, *j) for j in jobs]]

def link(objs, libs, name, cxx="g++"):
    exe = os.path.join(BUILD, name + "-" + sha(*objs, " ".join(libs)) + ".exe")
    if os.path.exists(exe):
        return exe, None
    tmp = exe + ".%d.tmp" % os.getpid()
    r = run([cxx, "-fopenmp", "-o", tmp] + objs + libs)
    if r.returncode != 0:
        return None, r.stdout
    os.rename(tmp, exe)
    return exe, None

API_LIBS = ["-larmadillo", "-lm"]
API_INC = ["-I" + VERIF + "/lib", "-I" + REPO + "/include", "-I/repo/include"]

def api_sources():
    return {os.path.basename(f)[:-4]: f for f in sorted(glob.glob(REPO + "/src/api/*.cpp"))}

def build_api(name, harness, needs, extra_flags=(), extra_libs=()):
    flags = FLAGS + list(extra_flags)
    srcs = api_sources()
    hdrs = [REPO + "/include"]
    want = [n for n in dict.fromkeys(list(needs) + API_BASE) if n in srcs]
    hjobs = [(os.path.join(VERIF, "harness", harness), flags, API_INC, [REPO + "/include", VERIF + "/lib"])]
    def objs(names):
        return compile_all(hjobs + [(srcs[n], flags, API_INC, hdrs) for n in names])
    exe, err = link(objs(want), API_LIBS + list(extra_libs), name)
    if exe is None:
        # helpers may have moved to other files: link everything
        exe, err = link(objs(list(srcs)), API_LIBS + list(extra_libs), name)
    if exe is None:
        raise BuildError("link\n" + err[-3000:])
    return exe

WRAP = ["malloc", "free", "posix_memalign", "memcpy", "memmove", "memset", "GOMP_parallel", "GOMP_barrier", "GOMP_critical_start", "GOMP_critical_end", "GOMP_critical_name_start",
        "GOMP_critical_name_end", "GOMP_atomic_start", "GOMP_atomic_end", "GOMP_single_start", "GOMP_loop_end", "GOMP_loop_end_nowait", "omp_get_thread_num", "omp_get_num_threads",
        "omp_get_max_threads", "omp_in_parallel", "omp_set_num_threads"] + ["GOMP_%s" % (x % k) for k in ("dynamic", "guided", "nonmonotonic_dynamic", "nonmonotonic_guided") for x in ("loop_%s_start", "loop_%s_next", "parallel_loop_%s")]
def build_sched(name, harness):
    """library compiled with memory access instrumentation, linked against the scheduler instead of libtsan"""
    srcs = api_sources()
    plain = [f for f in FLAGS]
    jobs = [(s, FLAGS + ["-fsanitize=thread"], API_INC, [REPO + "/include"]) for s in sorted(srcs.values(), key=lambda f: -os.path.getsize(f))]
    jobs += [(os.path.join(VERIF, "harness", harness), [f for f in FLAGS if f != "-fopenmp"], API_INC, [REPO + "/include", VERIF + "/lib"]),
             (os.path.join(VERIF, "lib", "sched.cpp"), ["-std=c++17", "-O2", "-w"], API_INC, [VERIF + "/lib"])]
    exe, err = link(compile_all(jobs), ["-rdynamic", "-Wl,--wrap=" + ",--wrap=".join(WRAP)] + API_LIBS + ["-ldl"], name)
    if exe is None:
        raise BuildError("link\n" + err[-3000:])
    return exe

CLIENT_LIBS = ["-lnetcdf", "-lgsl", "-lgslcblas", "-larmadillo", "-lm"]
def build_client(name, harness, extra_flags=(), extra_libs=(), wrap=True):
    # without OpenMP, so that errors reported inside a parallel loop can be intercepted; uninitialised locals get a pattern
    flags = [f for f in FLAGS if f != "-fopenmp"] + ["-ftrivial-auto-var-init=pattern"] + list(extra_flags)
    srcs = sorted(f for f in glob.glob(REPO + "/src/client/**/*.cpp", recursive=True) if "/Testing/" not in f and "/Driver/" not in f and "/devel/" not in f)
    hdrs = [REPO + "/src/client", REPO + "/include"]
    inc = ["-I" + VERIF + "/lib", "-I" + REPO + "/src/client", "-I" + REPO + "/include", "-I/repo/include"]
    # big files first
    srcs.sort(key=lambda f: -os.path.getsize(f))
    jobs = [(os.path.join(VERIF, "harness", harness), flags, inc, hdrs + [VERIF + "/lib"])] + [(s, flags + ["-include", VERIF + "/lib/clienthook.h"], inc, hdrs + [VERIF + "/lib"]) for s in srcs]
    exe, err = link(compile_all(jobs), CLIENT_LIBS + list(extra_libs), name)
    if exe is None:
        raise BuildError("link\n" + err[-3000:])
    return exe

def build_py(name, harness):
    """the Python module, generated from the interface files; returns a script that runs the explorer with it"""
    inc = ["-I" + REPO + "/include", "-I/repo/include"]
    files = sorted(f for f in glob.glob(REPO + "/swig/*.i"))
    srcs = api_sources()
    swigflags = ["-python", "-c++", "-doxygen", "-flatstaticmethod"]
    gen = os.path.join(BUILD, "py-" + sha(headers_hash([REPO + "/include"]), *[open(f, "rb").read() for f in files], " ".join(swigflags), REPO))
    if not os.path.exists(gen + "/gridpp.py"):
        tmp = gen + ".%d.tmp" % os.getpid()
        os.makedirs(tmp)
        r = run(["swig"] + swigflags + inc + ["-outdir", tmp, "-o", tmp + "/wrap.cxx", REPO + "/swig/gridpp.i"])
        if r.returncode != 0 or not os.path.exists(tmp + "/gridpp.py"):
            raise BuildError("swig\n" + r.stdout[-3000:])
        shutil.rmtree(gen, True)
        os.rename(tmp, gen)
    import sysconfig
    r = run(["/usr/bin/python3", "-c", "import sysconfig, numpy; print(sysconfig.get_paths()['include']); print(numpy.get_include()); print(sysconfig.get_config_var('EXT_SUFFIX'))"])
    pyinc, npinc, _ = r.stdout.split()
    flags = FLAGS
    jobs = [(gen + "/wrap.cxx", flags, inc + ["-I" + pyinc, "-I" + npinc], [REPO + "/include"])]
    jobs += [(s, flags, API_INC, [REPO + "/include"]) for s in sorted(srcs.values(), key=lambda f: -os.path.getsize(f))]
    so, err = link(compile_all(jobs), ["-shared"] + API_LIBS, name + "-mod")
    if so is None:
        raise BuildError("link\n" + err[-3000:])
    moddir = so + ".d"
    if not os.path.exists(moddir + "/gridpp.py"):
        tmp = moddir + ".%d.tmp" % os.getpid()
        os.makedirs(tmp)
        shutil.copy(so, tmp + "/_gridpp.so")
        shutil.copy(gen + "/gridpp.py", tmp + "/gridpp.py")
        shutil.rmtree(moddir, True)
        os.rename(tmp, moddir)
    exe = os.path.join(BUILD, name + "-" + sha(moddir) + ".sh")
    with open(exe, "w") as fh:
        fh.write("#!/bin/sh\nPYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s:%s MALLOC_PERTURB_=165 exec /usr/bin/python3 %s \"$@\"\n" % (moddir, VERIF + "/lib", os.path.join(VERIF, "harness", harness)))
    os.chmod(exe, 0o755)
    return exe

def prune_build(limit=3_000_000_000):
    fs = [(os.path.getmtime(p), os.path.getsize(p), p) for p in glob.glob(BUILD + "/*") if os.path.isfile(p)]
    tot = sum(f[1] for f in fs)
    for d in glob.glob(BUILD + "/*.d") + glob.glob(BUILD + "/py-*"):
        if os.path.getmtime(d) < time.time() - 86400 or d.endswith(".tmp"):
            shutil.rmtree(d, True)
    for m, s, p in sorted(fs):
        if tot < limit:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        tot -= s

def known_findings(pid):
    """lines: 'finding: property=<id> tag=<harness>/<tag> <what fails>'; tag matches exactly"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding:\s+property=(\S+)\s+tag=(\S+)\s+(.*)", line)
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3).strip()
    return r

def replay(exe, harness, choices, env, timeout=30):
    cmd = [exe, "--tier", env.get("MC_TIER", "quick"), "--replay", harness, ",".join(map(str, choices))]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env)
    except subprocess.TimeoutExpired as e:
        return "hang", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    if r.returncode == 0:
        return None, r.stdout
    m = re.search(r"REPLAY-FAIL tag=(.*)", r.stdout)
    if r.returncode == 1 and m:
        return m.group(1).strip(), r.stdout
    return ("crash" if r.returncode < 0 or r.returncode >= 128 else "exit"), r.stdout

def run_binary_check(pid, exe, tier, only=None, jobs=JOBS, deadline=None, env_extra=None):
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1")
    env.update(env_extra or {})
    env["MC_TIER"] = tier
    fd, res = tempfile.mkstemp(suffix=".json"); os.close(fd)
    deadline = deadline or (480 if tier == "quick" else 3600)
    cmd = [exe, "--tier", tier, "--jobs", str(jobs), "--deadline", str(deadline), "--out", res]
    if only:
        cmd += ["--harness", only]
    r = run(cmd, env=env)
    try:
        data = json.load(open(res))
    except Exception as e:
        raise BuildError("harness gave no result (exit %s): %s\n%s" % (r.returncode, e, r.stdout[-2000:]))
    finally:
        os.unlink(res)
    known = known_findings(pid)
    viols, found = [], []
    for h in data:
        if h["internal_error"]:
            raise BuildError("harness %s is not deterministic or too deep" % h["harness"])
        for v in h["violations"]:
            env2 = dict(env)
            if tier == "thorough":
                env2["MC_TIER"] = "thorough"
            kind = v["tag"].split(":")[0]
            t1, o1 = replay(exe, h["harness"], v["choices"], env2)
            if t1 is None and kind == "hang":
                log("note: %s/%s timed out in exploration but completes alone; not reported" % (h["harness"], v["tag"]))
                continue
            if t1 is None and "Killed" in v["msg"]:
                raise BuildError("%s/%s was killed from outside" % (h["harness"], v["tag"]))
            if t1 is None:
                # the outcome depends on what the process did before (uninitialised or left-over state)
                o1 = "does not fail in a fresh process: the outcome depends on earlier calls or on uninitialised memory\n" + v["note"] + "\n" + o1
            full = h["harness"] + "/" + v["tag"].replace(" ", "_")
            entry = dict(harness=h["harness"], tag=v["tag"], choices=v["choices"], msg=v["msg"], count=v["count"], output=o1[-4000:], full=full)
            if full in known:
                found.append(entry)
                log("KNOWN-FINDING: property=%s %s [%s]" % (pid, known[full], full))
            else:
                viols.append(entry)
    return data, viols, found

def write_evidence(pid, tier, data, viols, found, wall, assumptions, extra=None):
    cov = dict(
        states=sum(h["nodes"] + 1 for h in data),
        transitions=sum(h["ops"] for h in data),
        traces_validated_against_impl=sum(h["executions"] for h in data),
        distinct_outcomes=sum(h["outcomes"] for h in data),
        comparisons=sum(h["checks"] for h in data),
        exhaustive=all(h["exhaustive"] for h in data),
        samples=[s for h in data for s in ["%s: %s" % (h["harness"], x) for x in h["samples"][:2]]][:40] or ["none"],
        harnesses=[{k: h[k] for k in ("harness", "executions", "nodes", "ops", "outcomes", "max_depth", "exhaustive", "histories", "histories_complete", "wall_s", "violation_count") if k in h} for h in data],
        meaning="states: nodes of the bounded choice tree (distinct partial inputs/histories/schedules); transitions: calls into the real implementation; traces_validated_against_impl: complete executions of the real code compared with the reference model",
    )
    if extra:
        cov.update(extra)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking", coverage=cov,
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(viols),
              known_findings=[f["full"] for f in found])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--deadline", type=float)
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(OUT, exist_ok=True)
    t0 = time.time()
    # files that the explored code reads and writes stay inside a directory of this run
    scratch = tempfile.mkdtemp(prefix="mc-scratch-")
    os.environ["MC_SCRATCH"] = scratch
    atexit.register(shutil.rmtree, scratch, True)
    import checks
    spec = checks.CHECKS[a.id]
    try:
        prune_build()
        if callable(spec.get("run")):
            data, viols, found, extra = spec["run"](sys.modules[__name__], a)
        else:
            exe = spec["build"](sys.modules[__name__])
            tb = time.time() - t0
            if a.replay:
                rp = json.load(open(a.replay))
                t, o = replay(exe, rp["harness"], rp["choices"], dict(os.environ, OMP_NUM_THREADS="1", ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1", MC_TIER=rp.get("tier", "quick")))
                log(o)
                sys.exit(1 if t else 0)
            data, viols, found = run_binary_check(a.id, exe, a.tier, a.only, a.jobs, a.deadline)
            extra = dict(build_s=round(tb, 1))
    except BuildError as e:
        log("ERROR: check of %s could not run: %s" % (a.id, e))
        sys.exit(2)
    wall = time.time() - t0
    if not a.only:
        write_evidence(a.id, a.tier, data, viols, found, wall, spec.get("assumptions", []), extra)
    for h in data:
        log("%-28s executions=%d states=%d calls=%d outcomes=%d exhaustive=%s %.1fs%s" % (h["harness"], h["executions"], h["nodes"], h["ops"], h["outcomes"], h["exhaustive"], h["wall_s"], " violations=%d" % h["violation_count"] if h["violation_count"] else ""))
    log("total %.1fs" % wall)
    for i, v in enumerate(viols):
        rp = os.path.join(OUT, "%s-%d.json" % (a.id, i))
        json.dump(dict(property=a.id, tier=a.tier, **v), open(rp, "w"), indent=1)
        log("VIOLATION property=%s replay=%s" % (a.id, rp))
        log("  %s/%s (%d times)\n  %s\n%s" % (v["harness"], v["tag"], v["count"], v["msg"], v["output"][:1200]))
    sys.exit(1 if viols else 0)

if __name__ == "__main__":
    main()
