#include "mcsched.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <new>
#include <ucontext.h>
#include <unordered_map>
#include <unordered_set>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); int __real_posix_memalign(void**, size_t, size_t); void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); }
namespace sched {
static const int MAXT = 16; static const size_t STACK = 1 << 20;
struct Cell { uint8_t r = 0, w = 0, at = 0; uintptr_t pc[3] = {0, 0, 0}; };
struct Thread { ucontext_t ctx; char* stack = nullptr; bool done = true, blocked = false; int waitbar = 0; std::unordered_map<uintptr_t, Cell> acc; int next_single = 0; int loop = 0; int nest = 0; };
static Thread T[MAXT]; static int nthreads = 1, cur = -1, team = 1; static bool inside = false; static ucontext_t mainctx; static Order ord = Forward;
static std::function<int(int)> preempt_, next_; static uint64_t nacc = 0, nreg = 0, npts = 0; static std::unordered_set<uintptr_t> confl, at_; static bool stuck_ = false;
static void (*fn_)(void*); static void* data_; static int barrier_arrived = 0;
static std::map<void*, int> locks; static int singles = 0;
struct Loop { long start, end, incr, chunk, next; bool init = false; }; static std::map<int, Loop> loops;
static void* deferred[1 << 20]; static int ndef = 0; static bool busy = false;
void threads(int n) { nthreads = std::min(n, MAXT); } void order(Order o) { ord = o; }
void chooser(std::function<int(int)> p, std::function<int(int)> n) { preempt_ = p; next_ = n; }
void reset() { confl.clear(); at_.clear(); nacc = nreg = npts = 0; stuck_ = false; }
uint64_t accesses() { return nacc; } uint64_t regions() { return nreg; } uint64_t points() { return npts; } bool stuck() { return stuck_; }
std::vector<uintptr_t> conflicts() { std::vector<uintptr_t> v(confl.begin(), confl.end()); std::sort(v.begin(), v.end()); return v; }
void explore_at(const std::vector<uintptr_t>& p) { at_.clear(); at_.insert(p.begin(), p.end()); }
std::string describe(uintptr_t pc) { Dl_info i; char b[300]; if(dladdr((void*)pc, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+%lu", i.dli_sname, (unsigned long)(pc - (uintptr_t)i.dli_saddr)); else snprintf(b, sizeof b, "+%lx", (unsigned long)(pc - (uintptr_t)i.dli_fbase)); return b; }
static std::vector<int> runnable() { std::vector<int> v; for(int i = 0; i < team; i++) if(!T[i].done && !T[i].blocked) v.push_back(i); return v; }
static void switch_to(int t) { int old = cur; cur = t; if(old == t) return; swapcontext(&T[old].ctx, &T[t].ctx); }
static int pick_next() {
    auto v = runnable(); if(v.empty()) return -1;
    if(ord == Backward) return v.back(); if(ord == Explore && v.size() > 1 && next_) return v[next_((int)v.size())]; return v[0];
}
static void yield_blocked() { int n = pick_next(); if(n < 0) { stuck_ = true; cur = -1; setcontext(&mainctx); } switch_to(n); }
static void body() { fn_(data_); T[cur].done = true; int n = pick_next(); if(n < 0) { bool all = true; for(int i = 0; i < team; i++) if(!T[i].done) all = false; if(!all) stuck_ = true; cur = -1; setcontext(&mainctx); } cur = n; setcontext(&T[n].ctx); }
static void finish_region() {
    // conflicts: same byte, different threads, at least one write
    std::unordered_map<uintptr_t, std::vector<int>> who;
    for(int i = 0; i < team; i++) for(auto& a : T[i].acc) who[a.first].push_back(i);
    for(auto& w : who) { if(w.second.size() < 2) continue; uintptr_t k = w.first;
        for(int i : w.second) for(int j : w.second) if(i != j) { Cell &a = T[i].acc[k], &b = T[j].acc[k]; if(a.w & (b.r | b.w)) { for(uintptr_t p : a.pc) if(p) confl.insert(p); for(uintptr_t p : b.pc) if(p) confl.insert(p); } } }
    for(int i = 0; i < team; i++) T[i].acc.clear();
    for(int i = 0; i < ndef; i++) __real_free(deferred[i]); ndef = 0;
}
static void parallel(void (*fn)(void*), void* data, unsigned n) {
    int want = n ? (int)n : nthreads; if(want > MAXT) want = MAXT;
    if(inside || want <= 1) { int c = team; bool in = inside; if(!in) { team = 1; fn(data); team = c; } else { int me = cur; T[me].nest++; fn(data); T[me].nest--; } return; }
    nreg++; inside = true; team = want; fn_ = fn; data_ = data; barrier_arrived = 0; locks.clear(); loops.clear(); singles = 0;     for(int i = 0; i < team; i++) { if(!T[i].stack) T[i].stack = (char*)__real_malloc(STACK); T[i].done = T[i].blocked = false; T[i].next_single = 0; T[i].loop = T[i].nest = 0; T[i].acc.clear(); getcontext(&T[i].ctx); T[i].ctx.uc_stack.ss_sp = T[i].stack; T[i].ctx.uc_stack.ss_size = STACK; T[i].ctx.uc_link = &mainctx; makecontext(&T[i].ctx, body, 0); }
    cur = pick_next(); swapcontext(&mainctx, &T[cur].ctx);
    cur = -1; finish_region(); inside = false; team = 1;
}
static inline bool own(uintptr_t a) { return a >= (uintptr_t)T[cur].stack && a < (uintptr_t)T[cur].stack + STACK; }
static void access(uintptr_t a, size_t n, bool w, uintptr_t pc) {
    if(!inside || cur < 0 || busy || own(a)) return;
    busy = true; nacc++;
    for(uintptr_t g = a & ~7ull; g < a + n; g += 8) {
        Cell& c = T[cur].acc[g]; int lo = g < a ? (int)(a - g) : 0, hi = g + 8 > a + n ? (int)(a + n - g) : 8; uint8_t m = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)); if(w) c.w |= m; else c.r |= m;
        for(uintptr_t& p : c.pc) { if(p == pc) break; if(!p) { p = pc; break; } }
    }
    bool point = ord == Explore && at_.count(pc); busy = false;
    if(point) { auto v = runnable(); npts++; if(v.size() > 1 && preempt_) { int k = preempt_((int)v.size()); if(k) { std::vector<int> o; for(int x : v) if(x != cur) o.push_back(x); switch_to(o[k - 1]); } } }
}
static void* defer_or(void* p) { return p; }
static bool defer(void* p) { if(!inside || !p || ndef >= (1 << 20)) return false; deferred[ndef++] = p; return true; }
}
using namespace sched;
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access((uintptr_t)p, n, false, PC); } void __tsan_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { access((uintptr_t)p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } void __tsan_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_unaligned_volatile_read##n(void* p) { access((uintptr_t)p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { access((uintptr_t)p, n, true, PC); } \
    void __tsan_read##n##_pc(void* p, void* q) { access((uintptr_t)p, n, false, (uintptr_t)q); } void __tsan_write##n##_pc(void* p, void* q) { access((uintptr_t)p, n, true, (uintptr_t)q); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access((uintptr_t)p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { access((uintptr_t)p, n, true, PC); }
void __tsan_vptr_update(void** p, void* v) { if(*p != v) access((uintptr_t)p, 8, true, PC); } void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, PC); }
#define AT(b, t) \
    t __tsan_atomic##b##_load(const volatile t* a, int) { access((uintptr_t)a, b / 8, false, PC); return *a; } \
    void __tsan_atomic##b##_store(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); *a = v; } \
    t __tsan_atomic##b##_exchange(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = v; return o; } \
    t __tsan_atomic##b##_fetch_add(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = o + v; return o; } \
    t __tsan_atomic##b##_fetch_sub(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = o - v; return o; } \
    t __tsan_atomic##b##_fetch_and(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = o & v; return o; } \
    t __tsan_atomic##b##_fetch_or(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = o | v; return o; } \
    t __tsan_atomic##b##_fetch_xor(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = o ^ v; return o; } \
    t __tsan_atomic##b##_fetch_nand(volatile t* a, t v, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; *a = ~(o & v); return o; } \
    int __tsan_atomic##b##_compare_exchange_strong(volatile t* a, t* c, t v, int, int) { access((uintptr_t)a, b / 8, true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##b##_compare_exchange_weak(volatile t* a, t* c, t v, int, int) { access((uintptr_t)a, b / 8, true, PC); if(*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    t __tsan_atomic##b##_compare_exchange_val(volatile t* a, t c, t v, int, int) { access((uintptr_t)a, b / 8, true, PC); t o = *a; if(o == c) *a = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
// memory
void* __wrap_malloc(size_t n) { return __real_malloc(n); }
void __wrap_free(void* p) { if(!defer(p)) __real_free(p); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { return __real_posix_memalign(p, a, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(n) { access((uintptr_t)s, n, false, PC); access((uintptr_t)d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(n) access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }
// OpenMP
void __wrap_GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { parallel(fn, data, n); }
int __wrap_omp_get_thread_num() { return inside && !T[cur].nest ? cur : 0; }
int __wrap_omp_get_num_threads() { return inside && !T[cur].nest ? team : 1; }
int __wrap_omp_get_max_threads() { return nthreads; }
int __wrap_omp_in_parallel() { return inside; }
void __wrap_omp_set_num_threads(int n) { if(n > 0) nthreads = std::min(n, MAXT); }
static void barrier() { if(!inside || T[cur].nest) return; int alive = 0; for(int i = 0; i < team; i++) if(!T[i].done) alive++; if(++barrier_arrived >= alive) { barrier_arrived = 0; for(int i = 0; i < team; i++) T[i].blocked = false; return; } T[cur].blocked = true; yield_blocked(); }
void __wrap_GOMP_barrier() { barrier(); }
static void lock(void* l) { if(!inside) return; while(locks.count(l)) { T[cur].blocked = true; T[cur].waitbar = 1; yield_blocked(); } locks[l] = cur; }
static void unlock(void* l) { if(!inside) return; locks.erase(l); for(int i = 0; i < team; i++) if(T[i].waitbar) { T[i].waitbar = 0; T[i].blocked = false; } }
static int anon_, atom_;
void __wrap_GOMP_critical_start() { access((uintptr_t)&anon_, 4, true, PC); lock(&anon_); } void __wrap_GOMP_critical_end() { unlock(&anon_); }
void __wrap_GOMP_critical_name_start(void** p) { access((uintptr_t)p, 4, true, PC); lock(p); } void __wrap_GOMP_critical_name_end(void** p) { unlock(p); }
void __wrap_GOMP_atomic_start() { access((uintptr_t)&atom_, 4, true, PC); lock(&atom_); } void __wrap_GOMP_atomic_end() { unlock(&atom_); }
bool __wrap_GOMP_single_start() { if(!inside || T[cur].nest) return true; return T[cur].next_single++ == singles ? (singles++, true) : false; }
static bool loop_next(Loop& l, long* s, long* e) { if(l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false; *s = l.next; long n = l.next + l.incr * l.chunk; if(l.incr > 0 ? n > l.end : n < l.end) n = l.end; *e = n; l.next = n; return true; }
static Loop solo;
static bool loop_start(long a, long b, long i, long c, long* s, long* e) {
    if(c < 1) c = 1; Loop* l; if(!inside || T[cur].nest) { solo = Loop{a, b, i, c, a, true}; l = &solo; } else { access((uintptr_t)&loops, 4, true, PC); l = &loops[++T[cur].loop]; if(!l->init) *l = Loop{a, b, i, c, a, true}; }
    return loop_next(*l, s, e); }
static bool loop_more(long* s, long* e) { if(!inside || T[cur].nest) return loop_next(solo, s, e); access((uintptr_t)&loops, 4, true, PC); return loop_next(loops[T[cur].loop], s, e); }
#define LOOP(k) bool __wrap_GOMP_loop_##k##_start(long a, long b, long i, long c, long* s, long* e) { return loop_start(a, b, i, c, s, e); } bool __wrap_GOMP_loop_##k##_next(long* s, long* e) { return loop_more(s, e); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void __wrap_GOMP_loop_end() { barrier(); } void __wrap_GOMP_loop_end_nowait() {}
struct PL { void (*fn)(void*); void* d; long a, b, i, c; };
static PL pl_;
static void parallel_loop(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c) { pl_ = PL{fn, d, a, b, i, c}; solo = Loop{a, b, i, c < 1 ? 1 : c, a, true}; if(!inside) { pl_.fn = fn; struct L { static void run(void* q) { if(inside) { Loop& l = loops[++T[cur].loop]; if(!l.init) l = Loop{pl_.a, pl_.b, pl_.i, pl_.c < 1 ? 1 : pl_.c, pl_.a, true}; } pl_.fn(q); } }; parallel(L::run, d, n); } else { int me = cur; T[me].nest++; fn(d); T[me].nest--; } }
#define PLOOP(k) void __wrap_GOMP_parallel_loop_##k(void (*fn)(void*), void* d, unsigned n, long a, long b, long i, long c, unsigned) { parallel_loop(fn, d, n, a, b, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided)
}
// allocations of every library go through here, so that memory freed inside a region is not reused by another thread
void* operator new(size_t n) { void* p = __real_malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(p && !defer(p)) __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }
