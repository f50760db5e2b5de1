#include "oi.h"
using namespace gp;
struct Res { double a, v; bool ok, used; };
static Res analysis(const Point& p, double bg, double bvar, const Points& op, const vec& obs, const vec& ovar, const vec& bat, const vec& bvat, const StructureFunction& s, int mp, bool extra) {
    Res r{bg, bvar, true, false}; if(!valid(bg)) return r;
    std::vector<bool> ok; for(size_t i = 0; i < obs.size(); i++) ok.push_back(valid(obs[i]) && valid(bat[i]));
    Local L = select(p, op, ok, s, mp); if(L.tie || !clear_edges(p, op, s)) { r.ok = false; return r; } int n = L.idx.size(); if(n == 0) return r; r.used = true;
    Mat A(n, std::vector<double>(n)); std::vector<double> d, x; for(int i = 0; i < n; i++) { int a = L.idx[i]; for(int j = 0; j < n; j++) A[i][j] = s.corr(op.get_point(a), op.get_point(L.idx[j])); A[i][i] += (double)ovar[a] / bvat[a]; d.push_back((double)obs[a] - bat[a]); }
    if(!solve(A, L.rho, x)) { r.ok = false; return r; }
    double inc = 0, red = 0, hi = -1e30, lo = 1e30; for(int i = 0; i < n; i++) { inc += x[i] * d[i]; red += x[i] * L.rho[i]; hi = std::max(hi, d[i]); lo = std::min(lo, d[i]); if(fabs(x[i]) > 50) r.ok = false; }
    if(!extra) { if(inc > std::max(hi, 0.0)) inc = hi; else if(inc < std::min(lo, 0.0)) inc = lo; }
    r.a = bg + inc; r.v = bvar * (1 - red); return r;
}
static StructureFunctionPtr make(int k, CoordinateType t) {
    StructureFunctionPtr b = std::make_shared<BarnesStructure>(1500, 200, 0, 2900); CrossValidation cv(*b, 700); BarnesStructure h(2000); SoarStructure v(1500, 300); LinearStructure w(0.5, 0, 0.3);
    switch(k) { case 0: return b; case 1: return std::make_shared<CressmanStructure>(2100, 300, 0); case 2: return cv.clone(); case 3: return std::make_shared<SoarStructure>(700, 0, 0.5); default: return std::make_shared<MultipleStructure>(h, v, w); }
}
static const double OY[] = {0, 0.5, 1.7, 3.1, 0.02, 60}, OX[] = {0, 1.1, -0.8, 2.2, 0.9, 60}; static const float OE[] = {100, 150, NANF, 0, 300, 100}, OL[] = {1, 0.4f, 1, NANF, 0, 1};
static void run(int n, bool wide) {
    CoordinateType t = wide || mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int k = mc::choose(5), mp = mc::range(0, n); bool extra = mc::flip(); mc::budget(mc::thorough() ? 3 : wide ? 1 : 2);
    vec oy, ox, oe, ol, obs, ovar, bat, bvat; int last = -1; for(int i = 0; i < n; i++) {
        int q = mc::choose(wide ? 4 : 6); oy.push_back(OY[q] * u); ox.push_back(OX[q] * u); oe.push_back(OE[q]); ol.push_back(OL[q]);
        obs.push_back(mc::pick({3.f, -1.f})); obs.back() = mc::dev(2) ? mc::pick({1.f, NANF, INFF, 40.f}) : obs.back(); ovar.push_back(mc::pickdev(std::vector<float>{0.5f, 0.1f, 4.f})); bat.push_back(mc::pickdev(std::vector<float>{1, NANF, 2.5f})); bvat.push_back(mc::pickdev(std::vector<float>{1, 2, 0.5f})); (void)last; }
    vec by{0, (float)(1.2 * u), (float)(2 * u), (float)(-40 * u)}, bx{(float)(0.1 * u), (float)(0.4 * u), (float)(-1 * u), 0}, be{100, 140, NANF, 90}, bl{1, 0.5f, 0, 1}; vec bg{1, 2, 0.5f, 7}, bv{1, 2, 0.5f, 3}; int gone = mc::dev(5); if(gone) bg[gone - 1] = NANF;
    Points op(oy, ox, oe, ol, t), bp(by, bx, be, bl, t); auto s = make(k, t); NV(t); NV(k); NV(mp); NV(extra); NV(oy); NV(ox); NV(obs); NV(ovar); NV(bat); NV(bvat); NV(bg);
    mc::op(4); mc::site("full"); vec av{9}, a = optimal_interpolation_full(bp, bg, bv, op, obs, ovar, bat, bvat, *s, mp, av, extra); mc::outcome_of(a); mc::check(a.size() == 4 && av.size() == 4, "shape");
    Grid g({{by[0], by[1]}, {by[2], by[3]}}, {{bx[0], bx[1]}, {bx[2], bx[3]}}, {{be[0], be[1]}, {be[2], be[3]}}, {{bl[0], bl[1]}, {bl[2], bl[3]}}, t); vec2 bg2{{bg[0], bg[1]}, {bg[2], bg[3]}}, bv2{{bv[0], bv[1]}, {bv[2], bv[3]}}, av2;
    mc::site("full-grid"); vec2 a2 = optimal_interpolation_full(g, bg2, bv2, op, obs, ovar, bat, bvat, *s, mp, av2, extra); mc::check(a2.size() == 2 && a2[0].size() == 2 && av2.size() == 2 && av2[0].size() == 2, "shape");
    vec ratio; for(int i = 0; i < n; i++) ratio.push_back(ovar[i] / bvat[i]); mc::site("oi"); vec p = optimal_interpolation(bp, bg, op, obs, ratio, bat, *s, mp, extra); mc::site("oi-grid"); vec2 p2 = optimal_interpolation(g, bg2, op, obs, ratio, bat, *s, mp, extra);
    for(int y = 0; y < 4; y++) {
        Res w = analysis(bp.get_point(y), bg[y], bv[y], op, obs, ovar, bat, bvat, *s, mp, extra); if(!w.ok) continue; double tol = 1e-4 * (1 + fabs(w.a)) + 2e-3 * (maxabs(obs) > 10); std::string at = mc::fmt("location %d: want %g got %g, variance want %g got %g", y, w.a, a[y], w.v, av[y]);
        mc::check(close(a[y], w.a, tol), "analysis", at); mc::check(close(av[y], w.v, 1e-4 * (1 + bv[y])), "variance", at);
        mc::check(close(a2[y / 2][y % 2], w.a, tol) && close(av2[y / 2][y % 2], w.v, 1e-4 * (1 + bv[y])), "grid", at + mc::fmt(" grid %g %g", a2[y / 2][y % 2], av2[y / 2][y % 2])); mc::check(close(p[y], w.a, tol) && close(p2[y / 2][y % 2], w.a, tol), "ratios", at + mc::fmt(" points %g grid %g", p[y], p2[y / 2][y % 2]));
        if(!w.used) mc::check(close(a[y], bg[y], 0) && av[y] == bv[y], "unreached-changed", at);
    }
}
MC_HARNESS(few) { run(mc::range(0, 2), false); }
MC_HARNESS(three) { run(3, true); }
// many observations on a line: selection of the strongest ones and order independence
MC_HARNESS(limit) {
    int n = mc::thorough() ? 6 : 5, k = mc::choose(5), mp = mc::range(0, n + 1); std::vector<int> left; for(int i = 0; i < n; i++) left.push_back(i); vec oy, ox, obs, r, b; for(int i = 0; i < n; i++) { int c = mc::choose(left.size()), q = left[c]; left.erase(left.begin() + c); oy.push_back(q * q * 130 + 40 * q); ox.push_back(q % 2 ? -300 * q : 0); obs.push_back(q == 3 ? NANF : 2 + q); r.push_back(0.2f + 0.1f * q); b.push_back(1); }
    vec by{0, 900, 2500}, bx{0, 0, 100}, bg{1, 2, 3}; Points op(oy, ox, {}, {}, Cartesian), bp(by, bx, {}, {}, Cartesian); auto s = make(k, Cartesian); bool extra = mc::flip(); NV(oy); NV(mp); NV(k); NV(extra); mc::op(); mc::site("limit"); vec a = optimal_interpolation(bp, bg, op, obs, r, b, *s, mp, extra); mc::outcome_of(a); vec one(n, 1);
    for(int y = 0; y < 3; y++) { Res w = analysis(bp.get_point(y), bg[y], 1, op, obs, r, b, one, *s, mp, extra); if(w.ok) mc::check(close(a[y], w.a, 2e-4), "limit", mc::fmt("location %d want %g got %g", y, w.a, a[y])); }
}
// perfectly redundant and perfect observations
MC_HARNESS(redundant) {
    int n = mc::range(1, 3); vec oy, ox(n, 0), obs, r, b(n, 1); for(int i = 0; i < n; i++) { oy.push_back(mc::choose(2) * 800); obs.push_back(oy.back() ? 4 : 3); r.push_back(mc::pick({0.f, 0.3f})); } vec by{0, 800}, bg{1, 1}; Points op(oy, ox, {}, {}, Cartesian), bp(by, {0, 0}, {}, {}, Cartesian); BarnesStructure s(1000); NV(oy); NV(r); mc::op(); mc::site("redundant"); vec a = optimal_interpolation(bp, bg, op, obs, r, b, s, 0); mc::outcome_of(a);
    for(int y = 0; y < 2; y++) for(int i = 0; i < n; i++) if(oy[i] == by[y] && r[i] == 0) mc::check(close(a[y], obs[i], 5e-3), "perfect-observation", mc::fmt("location %d: %g, observed %g", y, a[y], obs[i]));
}
MC_HARNESS(sizes) {
    Points bp({0, 1}, {0, 1}), op({0, 0, 1}, {0, 1, 1}), oc({0, 0, 1}, {0, 1, 1}, {}, {}, Cartesian); Grid g(vec2{{0, 0}, {1, 1}}, vec2{{0, 1}, {0, 1}}); BarnesStructure s(1000); int bad = mc::choose(7); int d = mc::pick({-1, 1}); auto sz = [&](int base, int k) { return vec(bad == k ? base + d : base, 1); }; vec bg = sz(2, 0), bv = sz(2, 1), o = sz(3, 2), ov = sz(3, 3), b = sz(3, 4), bb = sz(3, 5); vec av; vec2 av2, bg2(2, vec(2, 1)), bv2 = bg2; if(bad == 0) bg2 = vec2(2 + d, vec(2, 1)); if(bad == 1) bv2 = vec2(2, vec(2 + d, 1)); int mp = bad == 6 ? -1 : 0; NV(bad); NV(d); mc::op(4);
    mc::check(mc::throws([&] { optimal_interpolation_full(bp, bg, bv, op, o, ov, b, bb, s, mp, av); }), "size-full"); mc::check(mc::throws([&] { optimal_interpolation_full(g, bg2, bv2, op, o, ov, b, bb, s, mp, av2); }), "size-full-grid");
    if(bad != 1 && bad != 5) { mc::check(mc::throws([&] { optimal_interpolation(bp, bg, op, o, ov, b, s, mp); }), "size"); mc::check(mc::throws([&] { optimal_interpolation(g, bg2, op, o, ov, b, s, mp); }), "size-grid"); }
    vec g2(2, 1), g3(3, 1); vec2 gg(2, vec(2, 1)); mc::check(mc::throws([&] { optimal_interpolation(bp, g2, oc, g3, g3, g3, s, 0); }) && mc::throws([&] { optimal_interpolation(g, gg, oc, g3, g3, g3, s, 0); }), "mixed-coordinates");
}
// observation networks of realistic size
MC_HARNESS(network) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int n = mc::pick({12, 40}), k = mc::choose(5), mp = mc::pick({0, 1, 5, 20}), miss = mc::choose(2), dense = mc::choose(2); bool extra = mc::flip(); double w = dense ? 2.5 : 7;
    vec oy, ox, oe; for(int i = 0; i < n; i++) { oy.push_back(u * w * ((i * 37 + 5) % 101) / 101); ox.push_back(u * w * ((i * 61 + 17) % 103) / 103); oe.push_back(miss && i % 9 == 4 ? NANF : 100 + (i * 53) % 170); }
    vec by, bx, be; for(int i = 0; i < 12; i++) { by.push_back(u * w * (i / 4 * 0.37 + 0.013 * i)); bx.push_back(u * w * (i % 4 * 0.29 + 0.02 * (i / 4))); be.push_back(miss && i == 5 ? NANF : 90 + 13 * i); }
    auto grid = [&](const vec& v) { return vec2{vec(v.begin(), v.begin() + 4), vec(v.begin() + 4, v.begin() + 8), vec(v.begin() + 8, v.end())}; };
    NV(t); NV(n); NV(k); NV(mp); NV(miss); NV(dense); NV(extra);
    vec ol, bl, obs, ovar, bat, bvat, bg, bv, ratio; for(int i = 0; i < n; i++) { ol.push_back((i * 7) % 10 / 9.f); obs.push_back(miss && i % 11 == 6 ? NANF : 280 + (i * 13) % 23 * 0.25f); bat.push_back(miss && i % 13 == 8 ? INFF : 281 + (i * 5) % 9 * 0.3f); ovar.push_back(0.3f + 0.1f * (i % 5)); bvat.push_back(1 + 0.25f * (i % 3)); ratio.push_back(ovar[i] / bvat[i]); } for(int i = 0; i < 12; i++) { bl.push_back((i * 5) % 12 / 11.f); bg.push_back(miss && i == 7 ? NANF : 281 + 0.2f * i); bv.push_back(1 + 0.5f * (i % 4)); }
    Points op(oy, ox, oe, ol, t), bp(by, bx, be, bl, t); auto s = make(k, t); mc::op(4); mc::site("network"); vec av; vec a = optimal_interpolation_full(bp, bg, bv, op, obs, ovar, bat, bvat, *s, mp, av, extra); Grid g(grid(by), grid(bx), grid(be), grid(bl), t); vec2 av2, a2 = optimal_interpolation_full(g, grid(bg), grid(bv), op, obs, ovar, bat, bvat, *s, mp, av2, extra); mc::outcome_of(a); mc::check(a.size() == 12 && av.size() == 12 && a2.size() == 3 && a2[2].size() == 4 && av2.size() == 3, "shape");
    vec p = optimal_interpolation(bp, bg, op, obs, ratio, bat, *s, mp, extra); vec2 p2 = optimal_interpolation(g, grid(bg), op, obs, ratio, bat, *s, mp, extra);
    for(int y = 0; y < 12; y++) { Res w = analysis(bp.get_point(y), bg[y], bv[y], op, obs, ovar, bat, bvat, *s, mp, extra); if(!w.ok) continue; std::string at = mc::fmt("location %d: want %g got %g, variance want %g got %g", y, w.a, a[y], w.v, av[y]); double tol = 3e-3; mc::check(close(a[y], w.a, tol), "network-analysis", at); mc::check(close(av[y], w.v, 2e-3 * (1 + bv[y])), "network-variance", at); mc::check(valid(a[y]) ? close(a2[y / 4][y % 4], w.a, tol) && close(av2[y / 4][y % 4], w.v, 2e-3 * (1 + bv[y])) : !valid(a2[y / 4][y % 4]), "network-grid", at); mc::check(close(p[y], w.a, tol) && close(p2[y / 4][y % 4], w.a, tol), "network-ratios", at); if(!w.used && valid(bg[y])) mc::check(a[y] == bg[y] && av[y] == bv[y], "unreached-changed", at); }
}
MC_MAIN
