#include "ops.h"
#include "mcsched.h"
using namespace gp;
// One execution: the operation with one thread, then with T logical threads under the controlled scheduler. When no
// two threads touch the same memory with a write, every interleaving and every order of the threads is equivalent to
// the one that was run; when they do, interleavings with switches at those accesses are explored.
MC_HARNESS(operations) {
    int k = mc::choose(ops::all().size()), var = mc::choose(8), T = mc::range(2, mc::thorough() ? 9 : 5); const std::string name = ops::all()[k].name;
    NV(name); NV(var); NV(T); mc::site(name); sched::reset(); sched::threads(1); ops::W w(var); mc::op(); vec ref = ops::run(k, w); mc::outcome_of(ref);
    mc::check(ops::same(ref, ops::run(k, w)), "not-repeatable-" + name);
    sched::threads(T); sched::order(sched::Forward); mc::op(); vec a = ops::run(k, w); auto pcs = sched::conflicts(); std::string where; for(auto p : pcs) where += sched::describe(p) + " ";
    mc::check(!sched::stuck(), "deadlock-" + name); mc::check(ops::same(ref, a), "threads-" + name, mc::fmt("%d threads: ", T) + ops::diff(ref, a));
    sched::order(sched::Backward); mc::op(); a = ops::run(k, w); auto p2 = sched::conflicts(); mc::check(!sched::stuck(), "deadlock-" + name); mc::check(ops::same(ref, a), "order-" + name, ops::diff(ref, a)); sched::order(sched::Forward);
    NV(where); if(p2.empty()) return;
    if(T > (mc::thorough() ? 3 : 2)) return;
    // racy: look for a schedule that changes the result, switching at most twice within a window of the accesses
    sched::explore_at(p2); sched::order(sched::Explore); sched::chooser(nullptr, nullptr); uint64_t before = sched::points(); a = ops::run(k, w); sched::order(sched::Forward); int total = sched::points() - before, W = 8, nw = std::min(mc::thorough() ? 400 : 40, total / W + 1);
    int win = mc::choose(nw), from = nw > 1 ? (int)((long)win * (total - W) / (nw - 1)) : 0, at = 0; mc::budget(2); sched::chooser([&](int n) { int i = at++; return i < from || i >= from + W ? 0 : mc::dev(n); }, [&](int n) { return at < from || at >= from + W ? 0 : mc::dev(n); });
    struct Guard { ~Guard() { sched::order(sched::Forward); sched::chooser(nullptr, nullptr); } } g; sched::order(sched::Explore); mc::op(); a = ops::run(k, w); sched::order(sched::Forward);
    mc::check(!sched::stuck(), "deadlock-" + name, where); mc::check(ops::same(ref, a), "race-" + name, ops::diff(ref, a) + " conflicting accesses in " + where);
}
// the number of threads set by the user is the number used
MC_HARNESS(setting) { int n = mc::range(1, 6); mc::op(); mc::site("set_omp_threads"); gridpp::set_omp_threads(n); mc::check(gridpp::get_omp_threads() == n, "set_omp_threads"); sched::reset(); ops::W w(0); vec d = ops::run(0, w); mc::check((sched::regions() > 0) == (n > 1), "threads-not-used"); sched::threads(1); mc::outcome_of(d); }
MC_MAIN
