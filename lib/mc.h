// Stateless bounded model checker: exhaustive depth-first exploration of the choice tree of a harness body.
//
// A harness body is a deterministic function that draws every input, operation and environment answer through
// choose()/dev()/pick(). explore() runs the body once per leaf of that tree, on the real implementation, and the
// body compares with a reference model and calls fail() on disagreement. Work is shared by forked processes that
// claim subtrees; a crash, abort, uncaught exception or hang of the implementation in a worker is a violation of
// the path that was being executed, and exploration resumes after it.
//
// After the tree, the two-call histories of a fixed family of paths ("diagonals" of the tree) are explored: every path
// of the family followed, in the same process, by each path that differs from it in one choice (at most three other
// answers per choice). The result of the second must not depend on the first having been executed.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>
#ifdef _OPENMP
#include <omp.h>
#endif

namespace mc {
static const int MAXDEPTH = 256, MAXVIOL = 64, NOTE = 3000, MAXJOBS = 16;
static const uint32_t MAXPREFIX = 1u << 22;

struct Viol { char tag[120]; char msg[600]; char note[NOTE]; int n; int32_t choice[MAXDEPTH]; uint64_t count; };
struct Worker {
    std::atomic<uint64_t> executions, nodes, ops, pruned, checks;
    std::atomic<int> depth;              // current path (for crash attribution)
    int32_t choice[MAXDEPTH];
    int32_t arity[MAXDEPTH];
    std::atomic<uint64_t> prefix_counter;
    std::atomic<uint64_t> beat;          // increases per execution
    char site[120];
    std::atomic<int> finished;
    std::atomic<int> maxdepth;
    std::atomic<uint64_t> histories;
    std::atomic<int> phase;              // 1: histories
    std::atomic<int> cut;                // histories ended by their time limit
};
struct Shared {
    Worker w[MAXJOBS];
    std::atomic<int> vlock;
    int nviol;
    uint64_t violations;
    Viol v[MAXVIOL];
    char samples[8][NOTE];
    std::atomic<int> nsamples;
    std::atomic<int> stop;               // deadline hit
    // outcome hashes, open addressing
    std::atomic<uint64_t> outcomes[1 << 16];
    std::atomic<uint64_t> noutcomes;
    std::atomic<uint8_t> claimed[MAXPREFIX];
};

struct Skip {};      // path belongs to another worker, or was declared uninteresting
struct Failed {};    // stop this execution after a failure

struct Ctx {
    Shared* sh = nullptr;
    Worker* me = nullptr;
    int jobs = 1, id = 0;
    bool replay = false, thorough = false, owned = false;
    double product = 1;
    int depth = 0;
    int fresh_from = 0;                  // choices at or beyond this index are new nodes of the tree
    bool noting = false;                 // build the textual description of this execution
    std::vector<int> path, arity;        // odometer
    int budget = 0;
    std::string site, note;
    uint64_t seed = 1;
    int replay_failures = 0;
    std::vector<std::string> replay_tags;
    double deadline = 1e300;
    uint64_t local_ops = 0, local_checks = 0;   // of this execution
    int pattern = -1, alt_at = -1, alt_by = 0;   // histories: answers follow a pattern, with one of them changed
    bool devchoice = false;
    std::vector<int> previous;                   // histories: the path executed before this one
};
inline Ctx& ctx() { static Ctx c; return c; }
inline const int PATTERNS = 96;
inline int pattern(int p, int depth, int n, bool dev) {
    static const int M[] = {0, 1, 3, 7}; int k = p % 24, m = M[p / 24 % 4];
    return dev && (k + m) % 2 == 0 ? 0 : (k + m * depth) % n;
}
inline bool thorough() { return ctx().thorough; }
inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }


// ---- choices ---------------------------------------------------------------------------------------------
inline int choose(int n) {
    Ctx& c = ctx();
    if(n <= 0) { fprintf(stderr, "choose(%d)\n", n); abort(); }
    if(n == 1) return 0;
    int v;
    if(c.pattern >= 0) {
        v = pattern(c.pattern, c.depth, n, c.devchoice);
        if(c.depth == c.alt_at) v = (v + c.alt_by) % n;
        c.path.push_back(v); c.arity.push_back(n);
    }
    else if(c.depth < (int)c.path.size()) {
        v = c.path[c.depth];
        if(!c.replay && c.arity[c.depth] != n) { fprintf(stderr, "nondeterministic harness: arity changed\n"); _exit(77); }
        if(v >= n) { fprintf(stderr, "choice out of range in replay\n"); _exit(77); }
        if((int)c.arity.size() <= c.depth) c.arity.push_back(n);
    }
    else {
        v = 0;
        c.path.push_back(0);
        c.arity.push_back(n);
    }
    if(c.me && c.pattern < 0 && c.depth >= c.fresh_from && (c.owned || c.id == 0)) c.me->nodes++;
    if(c.depth >= MAXDEPTH - 1) { fprintf(stderr, "too deep\n"); _exit(77); }
    if(c.me) { c.me->choice[c.depth] = v; c.me->arity[c.depth] = n; c.me->depth = c.depth + 1; if(c.depth + 1 > c.me->maxdepth) c.me->maxdepth = c.depth + 1; }
    c.depth++;
    c.product *= n;
    if(!c.owned && c.product >= 3000 && !c.replay) {
        // first time this prefix is entered by this worker: claim it
        bool fresh = true;
        for(int i = c.depth; i < (int)c.path.size(); i++) { fresh = false; break; }
        if(fresh) {
            uint64_t idx = c.me->prefix_counter++;
            bool mine;
            if(idx < MAXPREFIX) { uint8_t z = 0; mine = c.sh->claimed[idx].compare_exchange_strong(z, 1); }
            else mine = (int)(idx % c.jobs) == c.id;
            if(!mine) throw Skip();
        }
        c.owned = true;
    }
    return v;
}
inline bool flip() { return choose(2) == 1; }
template<class T> const T& pick(const std::vector<T>& v) { return v[choose((int)v.size())]; }
template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + choose((int)v.size())); }
inline int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
inline void budget(int b) { ctx().budget = b; }
// default answer 0; any other answer uses up one deviation
inline int dev(int n) { Ctx& c = ctx(); if(c.budget <= 0) return 0; c.devchoice = true; int v = choose(n); c.devchoice = false; if(v) c.budget--; return v; }
template<class T> const T& pickdev(const std::vector<T>& v) { return v[dev((int)v.size())]; }
[[noreturn]] inline void skip() { Ctx& c = ctx(); if(c.me) c.me->pruned++; throw Skip(); }

// ---- reporting -------------------------------------------------------------------------------------------
inline std::string fmt(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
inline void site(const std::string& s) { Ctx& c = ctx(); c.site = s; if(c.me) { size_t n = std::min(s.size(), (size_t)119); memcpy(c.me->site, s.data(), n); c.me->site[n] = 0; } }
inline bool noting() { return ctx().noting; }
inline void note(const std::string& s) { Ctx& c = ctx(); if(c.replay) { printf("  %s\n", s.c_str()); fflush(stdout); } if(c.note.size() < (size_t)NOTE) { if(!c.note.empty()) c.note += " "; c.note += s; } }
#define NOTE_(...) do { if(mc::noting()) mc::note(__VA_ARGS__); } while(0)
#define NV(x) do { if(mc::noting()) mc::note(std::string(#x "=") + mc::S(x)); } while(0)
inline void op(uint64_t n = 1) { ctx().local_ops += n; }
inline void outcome(uint64_t h) {
    Ctx& c = ctx(); if(!c.sh) return; if(h == 0) h = 1;
    h *= 0x9E3779B97F4A7C15ull; if(h == 0) h = 1;
    uint32_t m = (1 << 16) - 1, i = h >> 48;
    for(int k = 0; k < 64; k++, i = (i + 1) & m) {
        uint64_t cur = c.sh->outcomes[i];
        if(cur == h) return;
        if(cur == 0) { uint64_t z = 0; if(c.sh->outcomes[i].compare_exchange_strong(z, h)) { c.sh->noutcomes++; return; } if(z == h) return; }
    }
}
inline void add_violation(const std::string& tag, const std::string& msg, const std::string& note, const int32_t* ch, int n) {
    Ctx& c = ctx();
    Shared* s = c.sh;
    int z = 0;
    while(!s->vlock.compare_exchange_weak(z, 1)) { z = 0; usleep(20); }
    s->violations++;
    int f = -1;
    for(int i = 0; i < s->nviol; i++) if(tag.substr(0, 119) == s->v[i].tag) f = i;
    if(f < 0 && s->nviol < MAXVIOL) {
        f = s->nviol++;
        Viol& v = s->v[f];
        memset(&v, 0, sizeof v);
        strncpy(v.tag, tag.c_str(), 119); strncpy(v.msg, msg.c_str(), 599); strncpy(v.note, note.c_str(), NOTE - 1);
        v.n = n; memcpy(v.choice, ch, n * sizeof(int32_t));
    }
    else if(f >= 0 && n < s->v[f].n) { // keep the shortest example of a tag
        Viol& v = s->v[f];
        strncpy(v.msg, msg.c_str(), 599); strncpy(v.note, note.c_str(), NOTE - 1);
        v.n = n; memcpy(v.choice, ch, n * sizeof(int32_t));
    }
    if(f >= 0) s->v[f].count++;
    s->vlock = 0;
}
// Records a disagreement and carries on with the next execution.
[[noreturn]] inline void fail(const std::string& tag, const std::string& msg = "") {
    Ctx& c = ctx();
    if(c.replay) {
        printf("REPLAY-FAIL tag=%s\n  input: %s\n  %s\n", tag.c_str(), c.note.c_str(), msg.c_str());
        c.replay_failures++;
        c.replay_tags.push_back(tag);
    }
    else if(c.pattern >= 0) {
        std::vector<int32_t> ch(c.previous.begin(), c.previous.end()); if(!ch.empty()) ch.push_back(-1); ch.insert(ch.end(), c.path.begin(), c.path.begin() + c.depth);
        if(ch.size() >= MAXDEPTH) ch.assign(c.path.begin(), c.path.begin() + c.depth);
        add_violation(tag, msg, c.note, ch.data(), ch.size());
    }
    else if(c.owned || c.id == 0) add_violation(tag, msg, c.note, c.path.data(), c.depth);
    throw Failed();
}
inline void check(bool ok, const std::string& tag, const std::string& msg = "") { ctx().local_checks++; if(!ok) fail(tag, msg); }

// ---- oracles ---------------------------------------------------------------------------------------------
inline bool eq(double a, double b, double rtol = 1e-5, double atol = 1e-6) {
    if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if(std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}
inline std::string S(double x) { char b[40]; snprintf(b, sizeof b, "%.9g", x); return b; }
inline std::string S(float x) { return S((double)x); }
inline std::string S(int x) { return std::to_string(x); }
inline std::string S(bool x) { return x ? "1" : "0"; }
inline std::string S(const std::string& x) { return "'" + x + "'"; }
template<class T> std::string S(const std::vector<T>& v) { std::string s = "["; for(size_t i = 0; i < v.size(); i++) { if(i) s += ","; s += S((T)v[i]); } return s + "]"; }
inline uint64_t hmix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }
inline uint64_t H(double v) { if(std::isnan(v)) return 7; float f = (float)v; uint32_t u; memcpy(&u, &f, 4); return u + 11; }
template<class T> uint64_t H(const std::vector<T>& v) { uint64_t h = 99 + v.size(); for(size_t i = 0; i < v.size(); i++) h = hmix(h, H(v[i])); return h; }
template<class T> void outcome_of(const T& v) { outcome(H(v)); }

template<class F> bool throws(F f, std::string* what = nullptr) {
    try { f(); } catch(const Skip&) { throw; } catch(const Failed&) { throw; }
    catch(const std::exception& e) { if(what) *what = e.what(); return true; }
    return false;
}

// ---- explorer --------------------------------------------------------------------------------------------
typedef void (*Body)();
struct Harness { const char* name; Body body; };
inline std::vector<Harness>& registry() { static std::vector<Harness> r; return r; }
struct Reg { Reg(const char* n, Body b) { registry().push_back({n, b}); } };
#define MC_HARNESS(name) static void mc_body_##name(); static mc::Reg mc_reg_##name(#name, mc_body_##name); static void mc_body_##name()

inline void run_once(Body body) {
    Ctx& c = ctx();
    c.local_ops = c.local_checks = 0;
    c.depth = 0; c.product = 1; c.owned = c.pattern >= 0; c.devchoice = false; c.budget = 0; c.note.clear(); c.site.clear();
    c.noting = c.replay;
    if(c.me) { c.me->depth = 0; c.me->site[0] = 0; c.me->beat++; uint64_t e = c.me->executions + 1; if(c.pattern < 0 && c.id < 2 && (e == 1 || e == 100 || e == 5000)) c.noting = true; }
    bool complete = false;
    try {
        body();
        complete = true;
    }
    catch(const Skip&) { return; }
    catch(const Failed&) { complete = true; }
    catch(const std::exception& e) {
        try { fail("exception:" + c.site, e.what()); } catch(const Failed&) {}
        complete = true;
    }
    if(!c.owned && !c.replay) {
        // leaf above the claiming depth: one worker counts it (all of them run it)
        if(c.id != 0) return;
    }
    if(complete && c.me && c.pattern >= 0) { c.me->histories++; c.me->ops += c.local_ops; c.me->checks += c.local_checks; }
    else if(complete && c.me) {
        uint64_t e = ++c.me->executions;
        c.me->ops += c.local_ops; c.me->checks += c.local_checks;
        if(c.noting) { int k = c.sh->nsamples++; if(k < 8) { strncpy(c.sh->samples[k], c.note.c_str(), NOTE - 1); } }
    }
}
// advance the odometer; false when the tree is exhausted
inline bool advance() {
    Ctx& c = ctx();
    c.path.resize(c.depth); c.arity.resize(c.depth);
    while(!c.path.empty()) {
        if(c.path.back() + 1 < c.arity.back()) { c.path.back()++; c.fresh_from = (int)c.path.size() - 1; return true; }
        c.path.pop_back(); c.arity.pop_back();
    }
    return false;
}
inline bool& no_histories() { static bool b = false; return b; }
inline void histories(Body body) {
    Ctx& c = ctx();
    if(no_histories()) return;
    c.me->phase = 1;
    double t0 = now(), limit = c.thorough ? 20 : 2;
    auto run = [&](int p, int at, int by) { c.previous.swap(c.path); c.path.clear(); c.arity.clear(); c.pattern = p; c.alt_at = at; c.alt_by = by; run_once(body); };
    c.path.clear();
    for(int p = c.id; p < PATTERNS; p += c.jobs) {
        c.path.clear();
        run(p, -1, 0);
        std::vector<int> ar(c.arity.begin(), c.arity.end());
        int D = ar.size(), step = (D + 23) / 24;
        for(int i = step > 1 ? p % step : 0; i < D; i += step) {
            std::set<int> by; if(ar[i] > 1) { by.insert(1); by.insert(ar[i] - 1); by.insert(ar[i] / 2); }
            for(int a : by) {
                if(now() - t0 > limit || now() > c.deadline) { c.me->cut = 1; c.pattern = -1; return; }
                run(p, i, a);
                run(p, -1, 0);
            }
        }
    }
    c.pattern = -1;
}
inline void worker(Body body, bool resume) {
    Ctx& c = ctx();
    if(resume) {
        // continue after the path that crashed
        c.path.assign(c.me->choice, c.me->choice + c.me->depth);
        c.arity.assign(c.me->arity, c.me->arity + c.me->depth);
        c.depth = c.me->depth;
        if(!advance()) { histories(body); c.me->finished = 1; return; }
    }
    while(true) {
        run_once(body);
        if(!advance()) break;
        if((c.me->beat & 63) == 0 && now() > c.deadline) { c.sh->stop = 1; break; }
        if(c.sh->stop) break;
    }
    if(!c.sh->stop) histories(body);
    c.me->finished = 1;
}
inline std::string jesc(const std::string& s) {
    std::string o;
    for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if(ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
    return o;
}
inline std::function<void()>& before_fork() { static std::function<void()> f; return f; }
inline std::function<void(int)>& in_worker() { static std::function<void(int)> f; return f; }

inline int& hangs() { static int n = 0; return n; }
inline void explore(const Harness& h, int jobs, double deadline_s, FILE* out, bool first) {
    Ctx& c = ctx();
    size_t sz = sizeof(Shared);
    Shared* s = (Shared*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if(s == MAP_FAILED) { perror("mmap"); exit(3); }
    c.sh = s; c.jobs = jobs;
    double t0 = now();
    c.deadline = t0 + deadline_s;
    std::vector<pid_t> pid(jobs, -1);
    std::vector<uint64_t> lastbeat(jobs, 0);
    std::vector<double> lasttime(jobs, t0);
    int crashes = 0;
    bool aborted = false, internal = false;
    auto spawn = [&](int i, bool resume) {
        fflush(nullptr);
        pid_t p = fork();
        if(p == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int d = open("/dev/null", O_WRONLY);
            if(!getenv("MC_VERBOSE")) { dup2(d, 1); dup2(d, 2); }
            c.id = i; c.me = &s->w[i];
            c.path.clear(); c.arity.clear();
            if(in_worker()) in_worker()(i);
            worker(h.body, resume);
            _exit(0);
        }
        pid[i] = p;
        lasttime[i] = now();
    };
    for(int i = 0; i < jobs; i++) spawn(i, false);
    double hang = getenv("MC_HANG_S") ? atof(getenv("MC_HANG_S")) : 25;
    int live = jobs;
    while(live > 0) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if(p == 0) {
            usleep(3000);
            double t = now();
            for(int i = 0; i < jobs; i++) {
                if(pid[i] < 0) continue;
                uint64_t b = s->w[i].beat;
                if(b != lastbeat[i]) { lastbeat[i] = b; lasttime[i] = t; }
                else if(t - lasttime[i] > hang) { s->w[i].finished = 2; kill(pid[i], SIGKILL); lasttime[i] = t; }
            }
            continue;
        }
        if(p < 0) break;
        for(int i = 0; i < jobs; i++) {
            if(pid[i] != p) continue;
            pid[i] = -1; live--;
            Worker& w = s->w[i];
            if(WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.finished == 1) break;
            if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { internal = true; aborted = true; s->stop = 1; break; }
            std::string kind = w.finished == 2 ? "hang" : WIFSIGNALED(st) ? "crash" : "exit";
            std::string msg = kind + " " + (WIFSIGNALED(st) ? strsignal(WTERMSIG(st)) : std::to_string(WEXITSTATUS(st)).c_str());
            add_violation(kind + ":" + w.site, msg, "", w.choice, w.depth);
            w.executions++;
            w.finished = 0;
            if(s->vlock) s->vlock = 0;
            if(kind == "hang" && ++hangs() >= 2) { aborted = true; s->stop = 1; }
            else if(++crashes > 400) { aborted = true; s->stop = 1; }
            else if(w.phase == 0) { spawn(i, true); live++; }
            break;
        }
    }
    uint64_t hist = 0; bool cut = false; for(int i = 0; i < jobs; i++) { hist += s->w[i].histories; cut = cut || s->w[i].cut; }
    uint64_t ex = 0, nodes = 0, ops = 0, checks = 0, pruned = 0; int md = 0;
    for(int i = 0; i < jobs; i++) { ex += s->w[i].executions; nodes += s->w[i].nodes; ops += s->w[i].ops; checks += s->w[i].checks; pruned += s->w[i].pruned; md = std::max(md, (int)s->w[i].maxdepth); }
    fprintf(out, "%s{\"harness\":\"%s\",\"executions\":%llu,\"nodes\":%llu,\"ops\":%llu,\"checks\":%llu,\"outcomes\":%llu,\"max_depth\":%d,\"crashes\":%d,\"exhaustive\":%s,\"internal_error\":%s,\"histories\":%llu,\"histories_complete\":%s,\"wall_s\":%.3f,\"violation_count\":%llu,\"samples\":[",
        first ? "" : ",\n", h.name, (unsigned long long)ex, (unsigned long long)nodes, (unsigned long long)ops, (unsigned long long)checks, (unsigned long long)s->noutcomes.load(), md, crashes,
        (s->stop || aborted) ? "false" : "true", internal ? "true" : "false", (unsigned long long)hist, cut || s->stop ? "false" : "true", now() - t0, (unsigned long long)s->violations);
    for(int i = 0; i < std::min(4, (int)s->nsamples); i++) fprintf(out, "%s\"%s\"", i ? "," : "", jesc(s->samples[i]).c_str());
    fprintf(out, "],\"violations\":[");
    for(int i = 0; i < s->nviol; i++) {
        Viol& v = s->v[i];
        fprintf(out, "%s{\"tag\":\"%s\",\"count\":%llu,\"msg\":\"%s\",\"note\":\"%s\",\"choices\":[", i ? "," : "", jesc(v.tag).c_str(), (unsigned long long)v.count, jesc(v.msg).c_str(), jesc(v.note).c_str());
        for(int k = 0; k < v.n; k++) fprintf(out, "%s%d", k ? "," : "", v.choice[k]);
        fprintf(out, "]}");
    }
    fprintf(out, "]}");
    fflush(out);
    munmap(s, sz);
    c.sh = nullptr; c.me = nullptr;
}

inline int main_(int argc, char** argv) {
    Ctx& c = ctx();
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    std::string only, outf = "/dev/stdout", rep, repch;
    int jobs = 8; double dl = 240;
    for(int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if(a == "--tier") c.thorough = std::string(argv[++i]) == "thorough";
        else if(a == "--harness") only = argv[++i];
        else if(a == "--jobs") jobs = atoi(argv[++i]);
        else if(a == "--deadline") dl = atof(argv[++i]);
        else if(a == "--out") outf = argv[++i];
        else if(a == "--list") { for(auto& h : registry()) printf("%s\n", h.name); return 0; }
        else if(a == "--replay") { rep = argv[++i]; repch = i + 1 < argc ? argv[++i] : ""; }
    }
    if(jobs > MAXJOBS) jobs = MAXJOBS;
    if(!rep.empty()) {
        for(auto& h : registry()) if(rep == h.name) {
            c.replay = true;
            std::stringstream ss(repch); std::string t;
            std::vector<int> before; bool history = false;
            while(std::getline(ss, t, ',')) if(!t.empty()) { if(t == "-1") { before.swap(c.path); c.path.clear(); history = true; } else c.path.push_back(atoi(t.c_str())); }
            if(in_worker()) in_worker()(0);
            setvbuf(stdout, nullptr, _IOLBF, 0);
            printf("REPLAY harness=%s\n", h.name); fflush(stdout);
            if(history) { // the call before it
                std::vector<int> last; last.swap(c.path); c.path = before; printf("first:\n"); run_once(h.body); printf("then:\n"); c.path = last; c.arity.clear(); c.replay_failures = 0; c.replay_tags.clear();
            }
            run_once(h.body);
            if(c.replay_failures == 0) printf("REPLAY-OK input: %s\n", c.note.c_str());
            return c.replay_failures ? 1 : 0;
        }
        fprintf(stderr, "no such harness\n"); return 3;
    }
    FILE* out = fopen(outf.c_str(), "w");
    if(!out) { perror("out"); return 3; }
    fprintf(out, "[\n");
    double t0 = now(); bool first = true;
    for(auto& h : registry()) {
        if(!only.empty() && only != h.name) continue;
        double left = std::max(2.0, dl - (now() - t0));
        explore(h, jobs, left, out, first);
        first = false;
        if(hangs() >= 2) break;         // every further one would cost as much
    }
    fprintf(out, "\n]\n");
    fclose(out);
    return 0;
}
} // namespace mc
#define MC_MAIN int main(int argc, char** argv) { return mc::main_(argc, argv); }
