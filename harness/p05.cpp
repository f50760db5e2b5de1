#include "gp.h"
using namespace gp;
static void check(const vec2& a, int len, Statistic s, bool before, bool keep, bool edges) {
    int Y = a.size(), T = a[0].size();
    mc::op(); mc::site(std::string("window-") + sname(s));
    vec2 got = window(a, len, s, before, keep, edges);
    mc::check((int)got.size() == Y, "shape");
    for(int y = 0; y < Y; y++) {
        mc::check((int)got[y].size() == T, "shape");
        double m = maxabs(a[y]), all = 0; for(float v : a[y]) if(valid(v)) all += fabs(v);
        for(int t = 0; t < T; t++) {
            int s0 = before ? t - len + 1 : t - len / 2, s1 = before ? t : t + len / 2;
            bool cut = s0 < 0 || s1 > T - 1;
            vec w; int miss = 0;
            for(int i = std::max(0, s0); i <= std::min(T - 1, s1); i++) { w.push_back(a[y][i]); miss += !valid(a[y][i]); }
            double want = rstat(D(w), s);
            if(s != Count && ((keep && miss) || (edges && cut))) want = NAN; // a count reports the number of valid values whatever the flags (test_count_nan)
            double tol = s == Variance ? 1e-5 * m * m + 1e-7 : s == Std ? 4e-3 * m + 1e-6 : s == Count ? 0 : s == Sum || s == Mean ? 2e-6 * maxabs(w) * (s == Sum ? std::max<size_t>(1, w.size()) : 1) + 1e-13 * all + 1e-6 : 3e-6 * m * T + 1e-6; // double precision sums: what is far away does not matter
            mc::check(close(got[y][t], want, tol), std::string("window-") + sname(s), mc::fmt("row %d pos %d len %d before %d keep %d edges %d: %.9g want %.9g", y, t, len, before, keep, edges, got[y][t], want));
        }
    }
    mc::outcome_of(got);
}
MC_HARNESS(rows) {
    int T = mc::range(1, mc::thorough() ? 7 : 6);
    vec r; for(int t = 0; t < T; t++) r.push_back(mc::pick({1.f, NANF, 4.f, -2.5f}));
    int len = mc::range(1, mc::thorough() ? 9 : 8); bool before = mc::flip();
    if(len % 2 == 0 && !before) { NV(len); mc::op(); mc::check(mc::throws([&] { window(vec2(1, r), len, Mean, before); }), "even-length-accepted"); return; }
    NV(r); NV(len); NV(before);
    for(Statistic s : allstats()) for(int f = 0; f < 4; f++) check(vec2(1, r), len, s, before, f & 1, f & 2);
}
// several rows of different content; longer rows with a bounded number of changed values
MC_HARNESS(fields) {
    int Y = mc::range(1, 3), T = mc::pick({5, 8, 11}); mc::budget(mc::thorough() || Y * T <= 11 ? 2 : 1);
    int b = mc::choose(3), len = mc::pick({1, 3, 4, 5, 9, 2, 15, 25}); bool before = mc::flip();
    if(len % 2 == 0) before = true;
    vec2 a(Y);
    for(int y = 0; y < Y; y++) for(int t = 0; t < T; t++) { int d = mc::dev(4); float v = b == 0 ? 10 * y + t : b == 1 ? 273.15f + (t * 7 + y * 3) % 5 : (t * 5 + y) % 7 - 3.f; a[y].push_back(d == 0 ? v : d == 1 ? NANF : d == 2 ? INFF : v + 50); }
    NV(a); NV(len); NV(before);
    for(Statistic s : allstats()) for(int f = 0; f < 4; f++) check(a, len, s, before, f & 1, f & 2);
}
MC_HARNESS(rejects) {
    int len = mc::pick({0, -1, -3}); bool before = mc::flip(); mc::op(3);
    mc::check(mc::throws([&] { window(vec2(1, vec(3, 1)), len, Mean, before); }), "bad-length");
    mc::check(window(vec2(), 3, Mean, before).size() == 0, "empty"); 
    vec2 e = window(vec2(2), 3, Mean, before); mc::check(e.size() == 2 && e[0].size() == 0, "empty-rows");
}
// rows and windows of realistic length
MC_HARNESS(sizes) {
    int T = mc::pick({24, 67, 150}), Y = T == 24 ? 13 : 1, b = mc::choose(4), miss = mc::choose(3), len = mc::pick({1, 2, 7, 24, 25, 67, 99, 150, 301}); bool before = len % 2 == 0 || mc::flip(); vec2 a(Y, vec(T));
    for(int y = 0; y < Y; y++) for(int t = 0; t < T; t++) a[y][t] = miss == 1 && (t * 3 + y) % 11 == 0 ? NANF : miss == 2 && t > 10 && t < 40 ? NANF : b == 0 ? 10 * y + t : b == 1 ? 273.15f + (t * 7 + y * 3) % 50 : b == 2 ? (t * 5 + y) % 7 - 3.f : 0.1f * (t % 24);
    NV(Y); NV(T); NV(b); NV(miss); NV(len); NV(before);
    for(Statistic s : allstats()) for(int f = 0; f < 4; f++) check(a, len, s, before, f & 1, f & 2);
}
// values far from the window do not affect its statistics, however large they are
MC_HARNESS(outliers) {
    int T = mc::pick({6, 9}); mc::budget(2); int b = mc::choose(3), len = mc::pick({1, 3, 5, 2, 4}); bool before = len % 2 == 0 || mc::flip(); vec2 a(1, vec(T));
    for(int t = 0; t < T; t++) { int d = mc::dev(4); float v = b == 0 ? 1.f : b == 1 ? 0.1f * (t % 5) : t - 3.5f; a[0][t] = d == 0 ? v : d == 1 ? 1e8f : d == 2 ? -3.3e6f : NANF; }
    NV(a); NV(len); NV(before);
    for(Statistic s : {Sum, Mean, Count, Min, Max}) for(int f = 0; f < 4; f++) check(a, len, s, before, f & 1, f & 2);
}
MC_HARNESS(long_rows) {
    int T = 20000, b = mc::choose(3), len = mc::pick({3, 25, 101}); bool before = mc::flip(); vec2 a(1, vec(T));
    for(int t = 0; t < T; t++) a[0][t] = b == 0 ? 273.15f + (t * 7) % 11 : b == 1 ? 101325.f + (t * 3) % 17 : (t * 7919 % 100) * 0.1f;
    NV(b); NV(len); NV(before);
    check(a, len, Mean, before, false, false); check(a, len, Sum, before, false, false);
}
MC_MAIN
