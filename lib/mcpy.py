"""Bounded exhaustive exploration of Python-driven executions; same interface as the executables built from mc.h.

A harness is a function that calls choose()/pick()/dev() and check(); the explorer runs it once for every combination of
choices.  Workers are forked processes; one that dies is replaced and the execution it died in is a violation."""
import argparse, json, mmap, os, pickle, signal, struct, sys, tempfile, time, traceback

HARNESSES = []
MAXDEPTH = 200
HANG = 25
def harness(f):
    HARNESSES.append((f.__name__, f))
    return f

class Fail(Exception):
    def __init__(self, tag, msg):
        Exception.__init__(self, tag); self.tag = tag; self.msg = msg
class SkipUnit(BaseException):
    pass
class SkipExec(BaseException):
    pass

class S:  # state of the current execution
    prefix = []; trail = []; arity = []; left = 0; note = []; ops = 0; checks = 0; outcome = 0; worker = 0; jobs = 1; shm = None; tier = "quick"; echo = False; split = True

def choose(n):
    assert n > 0
    i = len(S.trail)
    if i >= MAXDEPTH:
        raise RuntimeError("too deep")
    c = S.prefix[i] if i < len(S.prefix) else 0
    if c >= n:
        raise RuntimeError("not deterministic")
    S.trail.append(c); S.arity.append(n)
    if S.shm is not None:
        S.shm[64 + 2 * i] = c; S.shm[64 + 2 * i + 1] = n; S.shm[4] = i + 1
    if i == 1 and S.split and (S.trail[0] * 7 + c) % S.jobs != S.worker:
        raise SkipUnit()
    return c
def pick(l):
    l = list(l)
    return l[choose(len(l))]
def flip():
    return choose(2) == 1
def budget(b):
    S.left = b
def dev(n):
    if S.left <= 0 or n <= 1:
        return 0
    c = choose(n)
    if c:
        S.left -= 1
    return c
def pickdev(l):
    l = list(l)
    return l[dev(len(l))]
def note(s):
    S.note.append(str(s))
    if S.echo:
        print(s, flush=True)
def op(n=1):
    S.ops += n
def skip():
    raise SkipExec()
def fail(tag, msg):
    raise Fail(tag, msg)
def check(ok, tag, msg):
    S.checks += 1
    if not ok:
        raise Fail(tag, msg() if callable(msg) else msg)
def outcome(x):
    S.outcome = hash((S.outcome, x))
def thorough():
    return S.tier == "thorough"

def execute(f, prefix):
    """returns None, 'unit' or (tag, msg)"""
    S.prefix = prefix; S.trail = []; S.arity = []; S.left = 0; S.note = []; S.outcome = 0
    if S.shm is not None:
        S.shm[4] = 0
    try:
        f()
    except SkipUnit:
        return "unit"
    except SkipExec:
        return "skip"
    except Fail as e:
        return (e.tag, e.msg)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        return ("exception:%s" % type(e).__name__, "%s at %s" % (e, ", ".join("%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb[-3:])))
    return None

def advance(trail, arity):
    t = list(trail); a = list(arity)
    while t and t[-1] + 1 >= a[len(t) - 1]:
        t.pop()
    if not t:
        return None
    t[-1] += 1
    return t

class Shm:
    def __init__(self):
        self.m = mmap.mmap(-1, 8 * (64 + 2 * MAXDEPTH + 8)); self.v = memoryview(self.m).cast("q")
    def __getitem__(self, i): return self.v[i]
    def __setitem__(self, i, x): self.v[i] = x

def worker_main(f, w, jobs, start, shm, logpath, endpath, deadline):
    S.worker = w; S.jobs = jobs; S.shm = shm
    signal.signal(signal.SIGALRM, signal.SIG_DFL)
    outcomes = set(); samples = []
    prefix = start
    log = open(logpath, "ab", 0)
    prevlen = 0
    done = True
    while prefix is not None:
        if time.time() > deadline:
            done = False
            break
        signal.alarm(HANG)
        r = execute(f, prefix)
        signal.alarm(0)
        if r == "unit":
            # the first two choices are decided: leave this subtree
            prefix = advance(S.trail, S.arity)
            continue
        if len(S.trail) < 2 and w != 0:
            prefix = advance(S.trail, S.arity)
            continue
        if r != "skip":
            shm[0] += 1
        shm[1] += len(S.trail) - max(0, len(prefix) - 1)
        shm[2] += S.ops; shm[3] += S.checks; S.ops = 0; S.checks = 0
        shm[5] = max(shm[5], len(S.trail))
        outcomes.add(S.outcome)
        if len(samples) < 3:
            samples.append(" ".join(S.note)[:300])
        if isinstance(r, tuple):
            log.write(pickle.dumps((r[0], r[1][:2000], " ".join(S.note)[:2000], list(S.trail))))
        prefix = advance(S.trail, S.arity)
    pickle.dump((done, len(outcomes), samples), open(endpath, "wb"))
    os._exit(0)

def explore(name, f, jobs, deadline):
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="mcpy-", dir=os.environ.get("MC_SCRATCH") or None)
    shms = [Shm() for _ in range(jobs)]
    procs = {}
    def start(w, prefix):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                worker_main(f, w, jobs, prefix, shms[w], "%s/log%d" % (tmp, w), "%s/end%d" % (tmp, w), deadline)
            except BaseException:
                open("%s/err%d" % (tmp, w), "w").write(traceback.format_exc())
            finally:
                os._exit(3)
        procs[pid] = w
    for w in range(jobs):
        start(w, [])
    viol = {}; crashes = 0; internal = False; exhaustive = True; count = 0
    def record(tag, msg, nt, ch):
        nonlocal count
        count += 1
        v = viol.setdefault(tag, dict(tag=tag, count=0, msg=msg, note=nt, choices=ch))
        v["count"] += 1
        v.setdefault("all", []).append(nt or str(ch[:3]))
        if (len(ch), ch) < (len(v["choices"]), v["choices"]):
            v.update(msg=msg, note=nt, choices=ch)
    while procs:
        pid, st = os.wait()
        if pid not in procs:
            continue
        w = procs.pop(pid)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            continue
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
            internal = True
            sys.stderr.write(open("%s/err%d" % (tmp, w)).read() if os.path.exists("%s/err%d" % (tmp, w)) else "worker failed\n")
            continue
        n = shms[w][4]
        trail = [shms[w][64 + 2 * i] for i in range(n)]; arity = [shms[w][64 + 2 * i + 1] for i in range(n)]
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
        crashes += 1
        shms[w][0] += 1
        if n >= 2 or w == 0:
            record("hang" if sig == signal.SIGALRM else "crash:signal %d" % sig if sig else "crash:exit", "process ended: " + (signal.strsignal(sig) if sig else "exit"), "", trail)
        if crashes > 400:
            exhaustive = False
            continue
        nxt = advance(trail, arity)
        if nxt is not None:
            start(w, nxt)
    outcomes = 0; samples = []
    for w in range(jobs):
        p = "%s/end%d" % (tmp, w)
        if os.path.exists(p):
            d, o, s = pickle.load(open(p, "rb"))
            exhaustive = exhaustive and d
            outcomes += o; samples += s
        p = "%s/log%d" % (tmp, w)
        if os.path.exists(p):
            with open(p, "rb") as fh:
                while True:
                    try:
                        record(*pickle.load(fh))
                    except EOFError:
                        break
    import shutil
    shutil.rmtree(tmp, True)
    return dict(harness=name, executions=sum(s[0] for s in shms), nodes=sum(s[1] for s in shms), ops=sum(s[2] for s in shms), checks=sum(s[3] for s in shms), outcomes=outcomes,
                max_depth=max(s[5] for s in shms), crashes=crashes, exhaustive=exhaustive, internal_error=internal, wall_s=round(time.time() - t0, 2), violation_count=count,
                samples=[x for x in samples if x][:6], violations=list(viol.values()))

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--deadline", type=float, default=480)
    ap.add_argument("--out"); ap.add_argument("--harness"); ap.add_argument("--replay", nargs=2)
    a = ap.parse_args()
    S.tier = a.tier
    if a.replay:
        f = dict(HARNESSES)[a.replay[0]]
        S.split = False; S.echo = True
        r = execute(f, [int(x) for x in a.replay[1].split(",") if x])
        if isinstance(r, tuple):
            print("REPLAY-FAIL tag=%s\n%s" % r)
            sys.exit(1)
        sys.exit(0)
    end = time.time() + a.deadline
    res = [explore(n, f, a.jobs, end) for n, f in HARNESSES if not a.harness or a.harness == n]
    if a.out:
        json.dump(res, open(a.out, "w"))
    for h in res:
        print(h["harness"], h["executions"], "crashes", h["crashes"], "violations", h["violation_count"], h["wall_s"])
        if not a.out:
            for v in h["violations"]:
                print("  ", v["tag"], v["count"], v["msg"][:400], "|", v["note"][:300], v["choices"])
