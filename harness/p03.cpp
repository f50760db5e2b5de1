#include "gp.h"
using namespace gp;
static vec window_of(const vec3& a, int y, int x, int h) {
    vec w; int Y = a.size(), X = a[0].size();
    for(int i = std::max(0, y - h); i <= std::min(Y - 1, y + h); i++) for(int j = std::max(0, x - h); j <= std::min(X - 1, x + h); j++) for(float v : a[i][j]) w.push_back(v);
    return w;
}
static vec3 to3(const vec2& a) { vec3 r(a.size()); for(size_t y = 0; y < a.size(); y++) for(float v : a[y]) r[y].push_back(vec(1, v)); return r; }
static void extent(const vec3& a, double& m, double& spread) {
    double lo = 1e30, hi = -1e30; m = 0;
    for(auto& r : a) for(auto& c : r) for(float v : c) if(valid(v)) { lo = std::min(lo, (double)v); hi = std::max(hi, (double)v); m = std::max(m, (double)fabs(v)); }
    spread = hi > lo ? hi - lo : 0;
}
static void compare(const vec2& got, const vec3& a, int h, Statistic s, float q, const std::string& tag) {
    int Y = a.size(), X = a[0].size();
    double m, spread; extent(a, m, spread);
    mc::check((int)got.size() == Y, tag + "-shape"); for(auto& r : got) mc::check((int)r.size() == X, tag + "-shape");
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        vec w = window_of(a, y, x, h);
        double want = s == Quantile ? rquantile(D(w), q) : rstat(D(w), s);
        double tol = s == Variance ? 1e-5 * spread * spread + 1e-7 : s == Std ? 4e-3 * spread + 1e-6 : s == Count ? 0 : s == Sum ? 2e-6 * m * w.size() * std::max(1., w.size() / 100.) + 1e-6 : 3e-6 * m * (s == Mean ? std::max(1., w.size() / 100.) : 1) + 1e-6;
        mc::check(close(got[y][x], want, tol), tag + "-" + sname(s), mc::fmt("cell %d,%d halfwidth %d: %.9g want %.9g", y, x, h, got[y][x], want));
    }
    mc::outcome_of(got);
}
static void all2(const vec2& a, int h) {
    vec3 a3 = to3(a);
    for(Statistic s : allstats()) {
        mc::op(2); mc::site(std::string("neighbourhood-") + sname(s));
        compare(neighbourhood(a, h, s), a3, h, s, 0, "fast");
        compare(neighbourhood_brute_force(a, h, s), a3, h, s, 0, "brute");
    }
}
static void all3(const vec3& a, int h) {
    for(Statistic s : allstats()) {
        mc::op(2); mc::site(std::string("neighbourhood3-") + sname(s));
        compare(neighbourhood(a, h, s), a, h, s, 0, "ens");
        compare(neighbourhood_brute_force(a, h, s), a, h, s, 0, "ens-brute");
    }
}
static const std::vector<float> Q = {0, 1, 0.5f, 0.25f, 0.9f, 1.f / 3};
MC_HARNESS(tiny) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {1, 5}};
    auto sh = mc::pick(shapes); if(!mc::thorough() && sh.first * sh.second > 6) mc::skip();
    int h = mc::range(0, 3);
    vec2 a(sh.first); for(auto& r : a) for(int x = 0; x < sh.second; x++) r.push_back(mc::pick({1.f, NANF, 4.f, -2.5f}));
    NV(a); NV(h);
    all2(a, h);
    float q = Q[mc::choose(Q.size())];
    NV(q); mc::op(); mc::site("neighbourhood_quantile");
    compare(neighbourhood_quantile(a, q, h), to3(a), h, Quantile, q, "quantile");
}
static float basev(int b, int y, int x, int e) {
    switch(b) {
        case 0: return 10 * y + x + 0.25f * e;
        case 1: return 273.15f + ((y * 7 + x * 3 + e * 5) % 11) * 0.1f;
        case 2: return ((y * 5 + x * 11 + e * 3) % 7) - 3.f;
        default: return 101325.f;
    }
}
// larger fields: base pattern with a bounded number of changed cells
MC_HARNESS(fields) {
    static const std::vector<std::pair<int, int>> shapes = {{3, 3}, {4, 5}, {6, 5}, {7, 3}, {3, 8}, {9, 9}};
    int k = mc::choose(shapes.size()); auto sh = shapes[k];
    mc::budget(sh.first * sh.second <= (mc::thorough() ? 30 : 20) ? 2 : 1);
    int b = mc::choose(4), h = mc::pick({0, 1, 2, 3, 5, 20});
    vec2 a(sh.first);
    for(int y = 0; y < sh.first; y++) for(int x = 0; x < sh.second; x++) { int d = mc::dev(4); float v = basev(b, y, x, 0); a[y].push_back(d == 0 ? v : d == 1 ? NANF : d == 2 ? v + 40 : -INFF); }
    NV(a); NV(h);
    all2(a, h);
}
// rows, columns or blocks of missing values
MC_HARNESS(missing_blocks) {
    int Y = mc::range(1, 6), X = mc::range(1, 6), h = mc::range(0, 3);
    int y0 = mc::choose(Y), y1 = mc::range(y0, Y - 1), x0 = mc::choose(X), x1 = mc::range(x0, X - 1); bool inv = mc::flip();
    vec2 a(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { bool in = y >= y0 && y <= y1 && x >= x0 && x <= x1; a[y][x] = in != inv ? NANF : basev(2, y, x, 0); }
    NV(a); NV(h);
    all2(a, h);
}
MC_HARNESS(ensemble_tiny) {
    static const std::vector<std::vector<int>> shapes = {{1, 1, 2}, {1, 2, 2}, {2, 1, 2}, {1, 2, 3}, {2, 2, 1}};
    auto sh = mc::pick(shapes); int h = mc::range(0, 2);
    vec3 a(sh[0], vec2(sh[1])); for(auto& r : a) for(auto& c : r) for(int e = 0; e < sh[2]; e++) c.push_back(mc::pick({1.f, NANF, 4.f, -2.5f}));
    NV(a); NV(h);
    all3(a, h);
    float q = Q[mc::choose(Q.size())]; NV(q);
    mc::op(); mc::site("neighbourhood_quantile3");
    compare(neighbourhood_quantile(a, q, h), a, h, Quantile, q, "ens-quantile");
}
MC_HARNESS(ensemble_fields) {
    mc::budget(mc::thorough() ? 2 : 1);
    static const std::vector<std::vector<int>> shapes = {{3, 4, 2}, {5, 3, 3}, {4, 5, 4}};
    int k = mc::choose(shapes.size()); auto sh = shapes[k]; int b = mc::choose(4), h = mc::range(0, 3);
    vec3 a(sh[0], vec2(sh[1]));
    for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) {
        int whole = mc::dev(2);
        for(int e = 0; e < sh[2]; e++) { int d = whole ? 1 : mc::dev(3); float v = basev(b, y, x, e); a[y][x].push_back(d == 0 ? v : d == 1 ? NANF : v + 40); }
    }
    NV(a); NV(h);
    all3(a, h);
    for(float q : Q) { mc::op(); compare(neighbourhood_quantile(a, q, h), a, h, Quantile, q, "ens-quantile"); }
    mc::op(2);
    for(Statistic s : {Mean, Max}) compare(neighbourhood_ens(a, h, s), a, h, s, 0, "ens-old");
    compare(neighbourhood_quantile_ens(a, 0.25f, h), a, h, Quantile, 0.25f, "ens-old-quantile");
}
MC_HARNESS(quantile_fields) {
    mc::budget(mc::thorough() ? 2 : 1);
    int Y = mc::range(1, 5), X = mc::range(1, 5), h = mc::range(0, 3), b = mc::choose(3);
    vec2 a(Y);
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { int d = mc::dev(3); float v = basev(b, y, x, 0); a[y].push_back(d == 0 ? v : d == 1 ? NANF : v + 40); }
    NV(a); NV(h);
    for(float q : Q) { mc::op(); mc::site("neighbourhood_quantile"); compare(neighbourhood_quantile(a, q, h), to3(a), h, Quantile, q, "quantile"); }
}
MC_HARNESS(rejects) {
    vec2 a(2, vec(2, 1)); vec3 b(2, vec2(2, vec(2, 1)));
    int h = mc::pick({-1, -5}); mc::op(6);
    mc::check(mc::throws([&] { neighbourhood(a, h, Mean); }), "negative-halfwidth"); mc::check(mc::throws([&] { neighbourhood(b, h, Mean); }), "negative-halfwidth-ens");
    mc::check(mc::throws([&] { neighbourhood_brute_force(a, h, Mean); }), "negative-halfwidth-brute"); mc::check(mc::throws([&] { neighbourhood_quantile(a, 0.5, h); }), "negative-halfwidth-quantile");
    mc::check(mc::throws([&] { neighbourhood(a, 1, Quantile); }), "quantile-statistic"); mc::check(mc::throws([&] { neighbourhood(b, 1, Quantile); }), "quantile-statistic-ens");
}
// fields and ensembles of realistic size, windows up to beyond the field
MC_HARNESS(sizes) {
    static const std::vector<std::vector<int>> shapes = {{12, 25, 1}, {25, 12, 1}, {1, 120, 1}, {90, 1, 1}, {33, 40, 1}, {6, 7, 51}, {11, 13, 10}, {2, 70, 3}};
    int k = mc::choose(shapes.size()); auto sh = shapes[k]; bool big = sh[0] * sh[1] * sh[2] > 1000; int b = mc::choose(4), h = mc::pick({0, 1, 2, 3, 6, 11, 40, 200}), miss = mc::choose(4); if(big && h > 6) mc::skip();
    vec3 a(sh[0], vec2(sh[1], vec(sh[2])));
    for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) for(int e = 0; e < sh[2]; e++) { bool m = miss == 1 ? (y * 7 + x * 5 + e) % 6 == 0 : miss == 2 ? y >= sh[0] / 2 && x >= sh[1] / 2 : miss == 3 ? (x + y) % 9 != 0 : false; a[y][x][e] = m ? NANF : basev(b, y, x, e); }
    NV(sh); NV(h); NV(b); NV(miss);
    if(sh[2] == 1) { vec2 f(sh[0]); for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) f[y].push_back(a[y][x][0]); all2(f, h); for(float q : {0.5f, 0.9f}) { mc::op(); compare(neighbourhood_quantile(f, q, h), a, h, Quantile, q, "quantile"); } }
    else { all3(a, h); mc::op(); compare(neighbourhood_quantile(a, 0.3f, h), a, h, Quantile, 0.3f, "ens-quantile"); }
}
// values outside the window do not affect its statistics, however large they are
static void local(const vec2& got, const vec3& a, int h, Statistic s, const char* tag) {
    double all = 0; for(auto& r : a) for(auto& c : r) for(float v : c) if(valid(v)) all += fabs(v);
    for(size_t y = 0; y < a.size(); y++) for(size_t x = 0; x < a[0].size(); x++) {
        vec w = window_of(a, y, x, h); double tol = s == Count ? 0 : 3e-6 * maxabs(w) * (s == Sum ? w.size() : 1) + 1e-13 * all + 1e-6;
        mc::check(close(got[y][x], rstat(D(w), s), tol), std::string(tag) + sname(s), mc::fmt("cell %d,%d halfwidth %d: %.9g want %.9g", (int)y, (int)x, h, got[y][x], rstat(D(w), s)));
    }
    mc::outcome_of(got);
}
MC_HARNESS(outliers) {
    static const std::vector<std::vector<int>> shapes = {{1, 6, 1}, {6, 1, 1}, {4, 5, 1}, {5, 4, 1}, {3, 4, 2}};
    auto sh = mc::pick(shapes); mc::budget(2); int b = mc::choose(3), h = mc::range(0, 2); vec3 a(sh[0], vec2(sh[1], vec(sh[2]))); vec2 f(sh[0], vec(sh[1]));
    for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) for(int e = 0; e < sh[2]; e++) { int d = mc::dev(4); float v = b == 0 ? 1.f : b == 1 ? 0.1f * ((y * 3 + x) % 5) : x - y - 0.5f; f[y][x] = a[y][x][e] = d == 0 ? v : d == 1 ? 1e8f : d == 2 ? -3.3e6f : NANF; }
    NV(a); NV(h);
    for(Statistic s : {Sum, Mean, Count, Min, Max}) { mc::op(); mc::site(std::string("outliers-") + sname(s)); if(sh[2] == 1) local(neighbourhood(f, h, s), a, h, s, "far-"); else local(neighbourhood(a, h, s), a, h, s, "far-ens-"); }
}
MC_HARNESS(large) {
    int Y = 300, X = 280, b = mc::choose(3), h = mc::pick({1, 3}); vec3 a(Y, vec2(X, vec(1))); vec2 f(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) f[y][x] = a[y][x][0] = b == 0 ? 273.15f + (y * 7 + x * 3) % 11 : b == 1 ? 101325.f + (y * 3 + x) % 17 : ((y * 79 + x * 31) % 100) * 0.1f;
    NV(b); NV(h);
    for(Statistic s : {Sum, Mean, Count}) { mc::op(); local(neighbourhood(f, h, s), a, h, s, "large-"); }
}
MC_MAIN
