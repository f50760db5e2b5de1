#include "gp.h"
using namespace gp;
// Reference: cell fractions of valid members not exceeding each threshold, averaged over the valid cells of the
// window, interpolated to the level. Fractions are rational numbers with small denominators; equal fractions are
// recognised by rounding, so that a level that hits a step of the fractions is decided as documented.
static double rnd(double x) { return std::round(x * 1e5) / 1e5; }
static void compare(const vec2& got, const vec3& a, const vec2& lev, int h, const vec& thr, const std::string& tag) {
    int Y = a.size(), X = a[0].size(), nT = thr.size();
    mc::check((int)got.size() == Y, tag + "-shape"); for(auto& r : got) mc::check((int)r.size() == X, tag + "-shape");
    double m = maxabs(thr);
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        double q = lev.size() == 1 && lev[0].size() == 1 ? lev[0][0] : lev[y][x];
        std::vector<double> f; bool missing = nT == 0 || !valid(q);
        for(float t : thr) {
            double s = 0; int n = 0;
            for(int i = std::max(0, y - h); i <= std::min(Y - 1, y + h); i++) for(int j = std::max(0, x - h); j <= std::min(X - 1, x + h); j++) {
                int k = 0, c = 0; for(float v : a[i][j]) if(valid(v)) { c++; k += v <= t; }
                if(c) { s += double(k) / c; n++; }
            }
            if(n == 0) { missing = true; break; }
            f.push_back(rnd(s / n));
        }
        double want = NAN, alt;
        if(!missing) {
            double qr = rnd(q);
            if(qr == 1 && f[0] == 1) want = thr[0];
            else if(qr == 0 && f.back() == 0) want = thr.back();
            else want = rinterp(qr, f, D(thr));
            alt = want;
            // a level that coincides with a fraction only up to rounding may fall on either side of the step
            bool hit = false; for(double v : f) if(v == qr && v != 0 && v != 1) hit = true;
            if(hit) {
                double e = 2e-5, lo = rinterp(qr - e, f, D(thr)), hi = rinterp(qr + e, f, D(thr));
                double a1 = std::min(want, std::min(lo, hi)), b1 = std::max(want, std::max(lo, hi));
                // exact in binary (halves, quarters): no freedom
                bool exact = qr * 64 == floor(qr * 64);
                if(!exact) { mc::check(got[y][x] >= a1 - 1e-3 * (m + 1) && got[y][x] <= b1 + 1e-3 * (m + 1), tag + "-step", mc::fmt("cell %d,%d: %g not in %g..%g", y, x, got[y][x], a1, b1)); continue; }
            }
        }
        mc::check(close(got[y][x], want, 2e-3 * (m + 1)), tag, mc::fmt("cell %d,%d level %g halfwidth %d: %.9g want %.9g", y, x, q, h, got[y][x], want));
    }
    mc::outcome_of(got);
}
static vec3 to3(const vec2& a) { vec3 r(a.size()); for(size_t y = 0; y < a.size(); y++) for(float v : a[y]) r[y].push_back(vec(1, v)); return r; }
static const std::vector<vec> TH = {{2}, {1, 4}, {0, 2, 5}, {-1, 1, 2, 4, 8}, {}, {10}, {-5, -4}, {1, 2, 3, 4, 5, 6, 7}};
static const std::vector<float> Q = {0.5f, 0, 1, 0.25f, 0.1f, 1.f / 3, NANF, 0.75f};
MC_HARNESS(uniform_level) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {1, 3}, {2, 2}, {2, 3}, {4, 1}};
    auto sh = mc::pick(shapes);
    vec2 a(sh.first); for(auto& r : a) for(int x = 0; x < sh.second; x++) r.push_back(mc::pick({1.f, NANF, 4.f, 2.f}));
    int h = mc::range(0, 2); vec thr = mc::pick(TH);
    NV(a); NV(h); NV(thr);
    for(float q : Q) { mc::op(); mc::site("fast-quantile"); if(mc::noting()) mc::note("q=" + mc::S(q)); compare(neighbourhood_quantile_fast(a, q, h, thr), to3(a), vec2(1, vec(1, q)), h, thr, "uniform"); }
}
MC_HARNESS(varying_level) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}};
    auto sh = mc::pick(shapes);
    vec2 a(sh.first), q(sh.first);
    for(auto& r : a) for(int x = 0; x < sh.second; x++) r.push_back(mc::pick({1.f, NANF, 4.f}));
    for(auto& r : q) for(int x = 0; x < sh.second; x++) r.push_back(mc::pick({0.5f, 0.f, 1.f, NANF, 0.9f}));
    int h = mc::range(0, 1); vec thr = TH[2];
    NV(a); NV(q); NV(h);
    mc::op(2); mc::site("fast-quantile-varying");
    compare(neighbourhood_quantile_fast(a, q, h, thr), to3(a), q, h, thr, "varying");
    compare(neighbourhood_quantile_fast(to3(a), q, h, thr), to3(a), q, h, thr, "varying-3d");
}
MC_HARNESS(ensemble) {
    static const std::vector<std::vector<int>> shapes = {{1, 1, 3}, {1, 2, 2}, {2, 1, 2}, {1, 3, 2}, {2, 2, 1}};
    auto sh = mc::pick(shapes); int h = mc::range(0, 2);
    vec3 a(sh[0], vec2(sh[1])); for(auto& r : a) for(auto& c : r) for(int e = 0; e < sh[2]; e++) c.push_back(mc::pick({1.f, NANF, 4.f, 2.f}));
    vec thr = mc::pick(TH);
    NV(a); NV(h); NV(thr);
    for(float q : Q) { mc::op(); mc::site("fast-quantile-ens"); if(mc::noting()) mc::note("q=" + mc::S(q)); compare(neighbourhood_quantile_fast(a, q, h, thr), a, vec2(1, vec(1, q)), h, thr, "ens"); }
    vec2 q(sh[0], vec(sh[1])); for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) q[y][x] = Q[(y * 3 + x) % 5];
    mc::op(2); compare(neighbourhood_quantile_fast(a, q, h, thr), a, q, h, thr, "ens-varying");
    compare(neighbourhood_quantile_ens_fast(a, 0.25f, h, thr), a, vec2(1, vec(1, 0.25f)), h, thr, "ens-old");
}
MC_HARNESS(fields) {
    mc::budget(mc::thorough() ? 2 : 1);
    static const std::vector<std::vector<int>> shapes = {{5, 5, 1}, {3, 4, 3}, {6, 2, 2}};
    auto sh = mc::pick(shapes); int h = mc::range(0, 3); vec thr = mc::pick(TH);
    vec3 a(sh[0], vec2(sh[1])); vec2 a2(sh[0]), q(sh[0]);
    for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) {
        for(int e = 0; e < sh[2]; e++) { int d = mc::dev(4); float v = ((y * 5 + x * 3 + e * 2) % 8); a[y][x].push_back(d == 0 ? v : d == 1 ? NANF : d == 3 ? -INFF : v + 30); }
        a2[y].push_back(a[y][x][0]); int d = mc::dev(3); q[y].push_back(d == 0 ? (y + 2 * x) % 5 * 0.25f : d == 1 ? NANF : 1.f);
    }
    NV(a); NV(q); NV(h); NV(thr);
    mc::op(2); mc::site("fast-quantile-fields");
    compare(neighbourhood_quantile_fast(a, q, h, thr), a, q, h, thr, "fields-ens");
    compare(neighbourhood_quantile_fast(a2, q, h, thr), to3(a2), q, h, thr, "fields");
}
static void check_thresholds(const vec& t, vec values, int num, const std::string& tag) {
    vec v; for(float x : values) if(valid(x)) v.push_back(x);
    std::sort(v.begin(), v.end());
    mc::check(t.empty() == (v.empty() || num == 0), tag + "-empty");
    if(t.empty()) return;
    for(size_t i = 1; i < t.size(); i++) { mc::check(t[i] >= t[i - 1], tag + "-sorted", mc::S(t)); mc::check(t[i] != t[i - 1], tag + "-unique", mc::S(t)); }
    for(float x : t) mc::check(std::find(v.begin(), v.end(), x) != v.end(), tag + "-not-a-value", mc::S(t));
    mc::check((int)t.size() <= num, tag + "-too-many", mc::S(t));
    mc::check(t[0] == v[0], tag + "-lowest", mc::S(t));
    if(num >= 2) mc::check(t.back() == v.back(), tag + "-highest", mc::S(t));
    std::set<float> u(v.begin(), v.end());
    if(num >= (int)v.size()) mc::check(t.size() == u.size(), tag + "-all-values", mc::S(t));
    if(num >= 3 && u.size() > 2) mc::check(t.size() >= 3, tag + "-too-few", mc::S(t));
    mc::outcome_of(t);
}
MC_HARNESS(thresholds) {
    int N = mc::range(0, mc::thorough() ? 7 : 6); vec v; for(int i = 0; i < N; i++) v.push_back(mc::pick({1.f, 2.f, 5.f, 5.5f, 9.f}));
    int num = mc::range(0, 8);
    NV(v); NV(num);
    mc::op(); mc::site("even-quantiles");
    check_thresholds(calc_even_quantiles(v, num), v, num, "even");
}
MC_HARNESS(field_thresholds) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {1, 3}, {2, 2}, {2, 3}, {0, 0}, {1, 0}};
    auto sh = mc::pick(shapes);
    vec2 a(sh.first); vec all; for(auto& r : a) for(int x = 0; x < sh.second; x++) { r.push_back(mc::pick({1.f, NANF, 4.f, 2.f})); all.push_back(r.back()); }
    int num = mc::range(1, 5);
    NV(a); NV(num);
    mc::op(2); mc::site("get-thresholds");
    check_thresholds(get_neighbourhood_thresholds(a, num), all, num, "field");
    vec3 b = to3(a); if(!all.empty()) for(auto& r : b) for(auto& c : r) { c.push_back(NANF); c.push_back(c[0] + 1); all.push_back(c[2]); }
    check_thresholds(get_neighbourhood_thresholds(b, num), all, num, "ens-field");
}
MC_HARNESS(rejects) {
    vec2 a(2, vec(2, 1)); vec3 b(2, vec2(2, vec(2, 1))); vec t = {1, 2}; mc::op(8);
    float q = mc::pick({-0.1f, 1.1f, INFF});
    if(!std::isinf(q)) { mc::check(mc::throws([&] { neighbourhood_quantile_fast(a, q, 1, t); }), "level"); mc::check(mc::throws([&] { neighbourhood_quantile_fast(b, q, 1, t); }), "level-ens"); }
    mc::check(mc::throws([&] { neighbourhood_quantile_fast(a, 0.5f, -1, t); }), "halfwidth"); mc::check(mc::throws([&] { neighbourhood_quantile_fast(b, 0.5f, -1, t); }), "halfwidth-ens");
    vec2 q2 = {{0.5f, 0.5f, 0.5f}, {0.5f, 0.5f, 0.5f}};
    mc::check(mc::throws([&] { neighbourhood_quantile_fast(a, q2, 1, t); }), "level-size"); mc::check(mc::throws([&] { neighbourhood_quantile_fast(b, q2, 1, t); }), "level-size-ens");
    mc::check(mc::throws([&] { get_neighbourhood_thresholds(a, 0); }), "num"); mc::check(mc::throws([&] { get_neighbourhood_thresholds(b, -2); }), "num-ens");
}
// fields and ensembles of realistic size, many thresholds
MC_HARNESS(sizes) {
    static const std::vector<std::vector<int>> shapes = {{12, 25, 1}, {25, 12, 1}, {1, 90, 1}, {70, 1, 1}, {6, 7, 32}, {9, 8, 5}};
    auto sh = mc::pick(shapes); int h = mc::pick({0, 1, 3, 7, 30}), nT = mc::pick({1, 9, 40}), miss = mc::choose(3), b = mc::choose(2); vec3 a(sh[0], vec2(sh[1], vec(sh[2]))); vec2 a2(sh[0], vec(sh[1])), q = a2; vec thr; for(int i = 0; i < nT; i++) thr.push_back(-0.3f + 20.f * i / nT);
    for(int y = 0; y < sh[0]; y++) for(int x = 0; x < sh[1]; x++) { q[y][x] = (y * 3 + x * 2) % 17 / 16.f; for(int e = 0; e < sh[2]; e++) { bool m = miss == 1 ? (y * 7 + x * 5 + e) % 6 == 0 : miss == 2 ? y >= sh[0] / 2 : false; a[y][x][e] = m ? NANF : b ? (y * 31 + x * 17 + e * 13) % 43 * 0.5f : y * 0.7f + x * 0.4f + e * 0.11f; } a2[y][x] = a[y][x][0]; }
    NV(sh); NV(h); NV(nT); NV(miss); NV(b); mc::op(2); mc::site("fast-quantile-sizes");
    if(sh[2] > 1) compare(neighbourhood_quantile_fast(a, q, h, thr), a, q, h, thr, "sizes-ens"); compare(neighbourhood_quantile_fast(a2, q, h, thr), to3(a2), q, h, thr, "sizes");
    compare(neighbourhood_quantile_fast(a2, 0.5f, h, thr), to3(a2), vec2(1, vec(1, 0.5f)), h, thr, "sizes-uniform");
}
MC_MAIN
