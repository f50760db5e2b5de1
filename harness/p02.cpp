#include "gp.h"
using namespace gp;
static const std::vector<float> A = {1, 0, 3, NANF, -2, 1e6f, INFF, -INFF, 273.15f, 273.25f};
static const std::vector<float> Q = {0, 1, 0.5f, 0.25f, 1.f / 3, 0.9f, 0.1f, 0.75f, 1e-6f, 0.999999f};
static double qtol(const vec& v) { return 3e-6 * maxabs(v) + 1e-6; }
static void check_list(const vec& v) {
    double m = 0; for(float x : v) if(valid(x)) m = std::max(m, (double)fabs(x));
    // variance is computed relative to one of the values: the tolerance scales with the spread, not the magnitude
    double lo = 1e30, hi = -1e30; for(float x : v) if(valid(x)) { lo = std::min(lo, (double)x); hi = std::max(hi, (double)x); }
    double spread = hi > lo ? hi - lo : 0;
    for(Statistic s : allstats()) {
        mc::op(); mc::site(std::string("stat-") + sname(s));
        double want = rstat(D(v), s);
        float got = calc_statistic(v, s);
        double tol = s == Variance ? 1e-5 * spread * spread + 1e-7 : s == Std ? 4e-3 * spread + 1e-6 : s == Count ? 0 : s == Sum ? 2e-6 * m * v.size() + 1e-6 : 2e-6 * m + 1e-6;
        mc::check(close(got, want, tol), std::string("statistic-") + sname(s), mc::fmt("%.9g want %.9g", got, want));
    }
    for(float q : Q) {
        mc::op(); mc::site("quantile");
        double want = rquantile(D(v), q);
        float got = calc_quantile(v, q);
        mc::check(close(got, want, qtol(v)), "quantile", mc::fmt("q=%g: %.9g want %.9g", q, got, want));
    }
    mc::outcome_of(calc_statistic(v, Mean));
}
// every list up to a length over the full alphabet
MC_HARNESS(lists) {
    int N = mc::range(0, mc::thorough() ? 6 : 5);
    vec v; for(int i = 0; i < N; i++) v.push_back(mc::pick(A));
    NV(v);
    check_list(v);
}
// longer lists: a base pattern with a bounded number of changed entries
MC_HARNESS(long_lists) {
    mc::budget(mc::thorough() ? 3 : 2);
    int N = mc::range(6, mc::thorough() ? 18 : 14), base = mc::choose(4);
    vec v;
    for(int i = 0; i < N; i++) {
        float b = base == 0 ? i : base == 1 ? N - i : base == 2 ? 273.15f + (i * 7 % 5) * 0.25f : 100000.f + (i % 3);
        int d = mc::dev(6);
        v.push_back(d == 0 ? b : d == 1 ? NANF : d == 2 ? -1.5f : d == 3 ? b + 2.5f : d == 4 ? INFF : 1);
    }
    NV(v);
    check_list(v);
}
// order independence and bounds: a permutation of the list gives the same result; quantiles are monotone in the level
MC_HARNESS(permutation) {
    int N = mc::range(1, mc::thorough() ? 6 : 5);
    static const vec base = {4, NANF, -1, 4, 7.5f, 0};
    vec b(base.begin(), base.begin() + N), v;
    std::vector<int> left; for(int i = 0; i < N; i++) left.push_back(i);
    while(!left.empty()) { int k = mc::choose(left.size()); v.push_back(b[left[k]]); left.erase(left.begin() + k); }
    NV(v);
    for(Statistic s : allstats()) { mc::op(2); mc::check(close(calc_statistic(v, s), calc_statistic(b, s), 1e-4), std::string("order-") + sname(s)); }
    float last = -INFF;
    for(int i = 0; i <= 20; i++) { mc::op(); float q = calc_quantile(v, i / 20.f); if(std::isnan(q)) continue; mc::check(q >= last - 1e-5, "quantile-not-monotone", mc::fmt("level %g: %g after %g", i / 20.f, q, last)); last = q; }
}
MC_HARNESS(levels) {
    vec v; int N = mc::range(0, 3); for(int i = 0; i < N; i++) v.push_back(mc::pick({2.f, 5.f, NANF}));
    float q = mc::pick({-0.001f, 1.001f, -1.f, 2.f, NANF, INFF, -INFF});
    NV(v); NV(q);
    mc::op(3); mc::site("levels");
    if(std::isnan(q)) {
        mc::check(std::isnan(calc_quantile(v, q)), "missing-level");
    }
    else {
        mc::check(mc::throws([&] { calc_quantile(v, q); }), "bad-level-accepted", mc::S(q));
        mc::check(mc::throws([&] { calc_quantile(vec2(1, v), q); }), "bad-level-accepted-2d", mc::S(q));
    }
}
// row-wise and cube-wise versions
MC_HARNESS(arrays) {
    int Y = mc::range(0, 2), T = mc::range(0, 3);
    static const std::vector<float> B = {1, NANF, 4, -3};
    vec2 a; for(int y = 0; y < Y; y++) { vec r; for(int t = 0; t < T; t++) r.push_back(mc::pick(B)); a.push_back(r); }
    NV(a);
    for(Statistic s : allstats()) {
        mc::op(); vec r = calc_statistic(a, s);
        mc::check((int)r.size() == Y, "rows-size");
        for(int y = 0; y < Y; y++) mc::check(close(r[y], calc_statistic(a[y], s), 1e-6), std::string("rows-") + sname(s));
    }
    for(float q : Q) {
        mc::op(); vec r = calc_quantile(a, q);
        mc::check((int)r.size() == Y, "rows-quantile-size");
        for(int y = 0; y < Y; y++) mc::check(close(r[y], calc_quantile(a[y], q), 1e-6), "rows-quantile");
    }
    // cube: Y x X x T with a level per cell
    if(Y == 2 && T > 0) {
        for(int X = 1; X <= 2; X++) {
            vec3 c(Y, vec2(X)); vec2 lev(Y, vec(X));
            for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { c[y][x] = a[(y + x) % 2]; if(x) std::reverse(c[y][x].begin(), c[y][x].end()); lev[y][x] = Q[(3 * y + x * 5 + mc::choose(3)) % Q.size()]; }
            mc::op(); vec2 r = calc_quantile(c, lev);
            mc::check(r.size() == 2 && (int)r[0].size() == X, "cube-size");
            for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) mc::check(close(r[y][x], rquantile(D(c[y][x]), lev[y][x]), 1e-5), "cube-quantile");
            vec2 bad(Y, vec(X + 1, 0.5f));
            mc::check(mc::throws([&] { calc_quantile(c, bad); }), "cube-mismatch-accepted");
        }
    }
    mc::check(num_missing_values(a) == [&] { int n = 0; for(auto& r : a) for(float x : r) n += !valid(x); return n; }(), "num_missing");
}
MC_HARNESS(names) {
    static const std::vector<std::pair<std::string, Statistic>> n = {{"mean", Mean}, {"min", Min}, {"max", Max}, {"median", Median}, {"quantile", Quantile}, {"std", Std}, {"variance", Variance}, {"sum", Sum}, {"count", Count}, {"randomchoice", RandomChoice}, {"", Unknown}, {"nonsense", Unknown}, {"Mean", Unknown}};
    auto p = mc::pick(n); NV(p.first);
    mc::op(); Statistic s = get_statistic(p.first);
    mc::check(s == p.second, "name-" + p.first, mc::fmt("%d", (int)s));
}
// a random choice is always one of the valid values (or missing)
MC_HARNESS(random_choice) {
    int N = mc::range(0, 4); vec v; for(int i = 0; i < N; i++) v.push_back(mc::pick({1.f, 2.f, NANF, 5.f}));
    NV(v);
    bool any = false; for(float x : v) any = any || valid(x);
    std::set<float> seen;
    for(int k = 0; k < 20; k++) { mc::op(); float r = calc_statistic(v, RandomChoice); if(!any) mc::check(std::isnan(r), "random-missing"); else { mc::check(std::find(v.begin(), v.end(), r) != v.end(), "random-not-member"); seen.insert(r); } }
}
// arrays and lists of realistic size
MC_HARNESS(sizes) {
    int Y = mc::pick({1, 40}), T = mc::pick({1, 17, 100, 1000}), b = mc::choose(4), miss = mc::choose(3); if(Y > 1 && T > 100) mc::skip(); vec2 a(Y, vec(T)); for(int y = 0; y < Y; y++) for(int t = 0; t < T; t++) a[y][t] = miss == 1 && (t * 3 + y) % 7 == 2 ? NANF : miss == 2 && (t + y) % 10 != 4 ? -INFF : b == 0 ? y + t : b == 1 ? 273.15f + (t * 37 + y) % 101 * 0.25f : b == 2 ? 101325 - (t * 61 + y * 7) % 103 * 10.f : -(t * 13 + y) % 29;
    NV(Y); NV(T); NV(b); NV(miss);
    auto tol = [&](Statistic s, const vec& v) { double m = maxabs(v), k = std::max(1., v.size() / 50.); return s == Count ? 0. : s == Sum ? 2e-6 * m * v.size() * k + 1e-6 : s == Variance ? 1e-3 * m * k : s == Std ? 1e-3 * sqrt(m) * k : 4e-6 * m * (s == Mean ? k : 1) + 1e-6; };
    for(Statistic s : allstats()) { mc::op(2); mc::site(sname(s)); vec r = calc_statistic(a, s); mc::check((int)r.size() == Y, "sizes-rows"); mc::outcome_of(r); for(int y = 0; y < Y; y++) { double w = rstat(D(a[y]), s); mc::check(close(r[y], w, tol(s, a[y])), std::string("sizes-") + sname(s), mc::fmt("row %d: %g want %g", y, r[y], w)); mc::check(close(calc_statistic(a[y], s), w, tol(s, a[y])), std::string("sizes-list-") + sname(s)); } }
    for(float q : {0.f, 0.05f, 0.5f, 0.9f, 1.f}) { mc::op(); vec r = calc_quantile(a, q); mc::check((int)r.size() == Y, "sizes-rows"); for(int y = 0; y < Y; y++) { double w = rquantile(D(a[y]), q); mc::check(close(r[y], w, 1e-5 * maxabs(a[y]) + 1e-6), "sizes-quantile", mc::fmt("row %d level %g: %g want %g", y, q, r[y], w)); mc::check(close(calc_quantile(a[y], q), w, 1e-5 * maxabs(a[y]) + 1e-6), "sizes-list-quantile"); } }
}
MC_MAIN
