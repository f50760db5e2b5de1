#include "oi.h"
using namespace gp;
struct Res { std::vector<double> a; bool ok = true, used = false; };
static Res analysis(const Point& p, const vec& bg, const std::vector<int>& mem, const Points& op, const vec& obs, const vec& sig, const vec2& bat, const StructureFunction& s, int mp, bool extra) {
    Res r; for(float v : bg) r.a.push_back(v); int n = mem.size(); if(n == 0) return r;
    std::vector<bool> ok; for(size_t i = 0; i < obs.size(); i++) { bool v = valid(obs[i]); for(int e : mem) v = v && valid(bat[i][e]); ok.push_back(v); }
    Local L = select(p, op, ok, s, mp); if(L.tie || !clear_edges(p, op, s)) { r.ok = false; return r; } int m = L.idx.size(); if(m == 0) return r; r.used = true;
    Mat Y(m, std::vector<double>(n)), C(n, std::vector<double>(m)), Pi(n, std::vector<double>(n)); std::vector<double> yh(m, 0), d(m);
    for(int i = 0; i < m; i++) { int o = L.idx[i]; for(int k = 0; k < n; k++) yh[i] += bat[o][mem[k]] / (double)n; d[i] = obs[o] - yh[i]; for(int k = 0; k < n; k++) { Y[i][k] = bat[o][mem[k]] - yh[i]; C[k][i] = Y[i][k] * L.rho[i] / ((double)sig[o] * sig[o]); } }
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) { Pi[a][b] = a == b ? n - 1 : 0; for(int i = 0; i < m; i++) Pi[a][b] += C[a][i] * Y[i][b]; }
    if(n == 1) return r;     // a single member has no spread: the background is kept
    bool inv; Mat P = invert(Pi, inv); if(!inv) { r.ok = false; return r; } std::vector<double> ev; Mat V; Mat Q = P; for(auto& row : Q) for(double& x : row) x *= n - 1; eig(Q, ev, V);
    double mean = 0; for(int k = 0; k < n; k++) mean += bg[mem[k]] / (double)n; std::vector<double> w(n, 0), pc(m); for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) for(int i = 0; i < m; i++) w[a] += P[a][b] * C[b][i] * d[i];
    for(int e = 0; e < n; e++) {
        double inc = 0; for(int k = 0; k < n; k++) { double W = w[k]; for(int q = 0; q < n; q++) W += V[k][q] * sqrt(std::max(0.0, ev[q])) * V[e][q]; inc += (bg[mem[k]] - mean) * W; }
        double x = bg[mem[e]] - mean, mi = inc - x, lo = 0, hi = 0; for(int i = 0; i < m; i++) { double v = d[i] - Y[i][e]; if(i == 0) { lo = hi = v; } lo = std::min(lo, v); hi = std::max(hi, v); }
        if(!extra) mi = std::max(std::min(lo, 0.0), std::min(std::max(hi, 0.0), mi));
        r.a[mem[e]] = bg[mem[e]] + mi;
    }
    return r;
}
static StructureFunctionPtr make(int k) { StructureFunctionPtr b = std::make_shared<BarnesStructure>(1500, 200, 0, 2900); CrossValidation cv(*b, 700); switch(k) { case 0: return b; case 1: return std::make_shared<CressmanStructure>(2100, 300, 0); default: return cv.clone(); } }
static const double OY[] = {0, 0.5, 1.7, 60}, OX[] = {0, 1.1, -0.8, 60}; static const float OE[] = {100, 150, NANF, 100};
static const float BG[6][4] = {{1, 2, 4, 0.5f}, {0, 3, 1, 2}, {5, 5, 5, 5}, {-2, 1, 0.5f, 9}, {1, 1, 3, 2}, {0.1f, 0.3f, 0.2f, 0}};
MC_HARNESS(ensi) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int n = mc::range(0, mc::thorough() ? 3 : 2), nE = mc::range(1, n == 3 ? 2 : 3), k = mc::choose(3), mp = mc::range(0, n); bool extra = mc::flip(); mc::budget(mc::thorough() || n < 2 ? 2 : 1);
    vec oy, ox, oe, obs, sig; vec2 bat; for(int i = 0; i < n; i++) { int q = mc::choose(4); oy.push_back(OY[q] * u); ox.push_back(OX[q] * u); oe.push_back(OE[q]); obs.push_back(mc::pick({3.f, -1.f})); if(mc::dev(2)) obs.back() = mc::pick({NANF, INFF, 40.f, 1.f}); sig.push_back(mc::pickdev(std::vector<float>{0.5f, 2.f, 0.1f})); int b = mc::choose(3); bat.push_back(vec(BG[b], BG[b] + nE)); int miss = mc::dev(nE + 1); if(miss) bat.back()[miss - 1] = NANF; }
    vec by{0, (float)(1.2 * u), (float)(2 * u), (float)(-40 * u)}, bx{(float)(0.1 * u), (float)(0.4 * u), (float)(-1 * u), 0}, be{100, 140, NANF, 90}; vec2 bg; int miss = mc::dev(4 * nE + 1); for(int y = 0; y < 4; y++) { bg.push_back(vec(BG[y], BG[y] + nE)); if(miss && (miss - 1) / nE == y) bg[y][(miss - 1) % nE] = NANF; } int miss2 = mc::dev(nE + 1); if(miss2) bg[1][miss2 - 1] = INFF;
    std::vector<int> mem; for(int e = 0; e < nE; e++) { bool v = true; for(auto& r : bg) v = v && valid(r[e]); if(v) mem.push_back(e); }
    Points op(oy, ox, oe, {}, t), bp(by, bx, be, {}, t); auto s = make(k); NV(t); NV(k); NV(mp); NV(extra); NV(oy); NV(obs); NV(sig); NV(bat); NV(bg);
    mc::op(2); mc::site("ensi"); vec2 a = optimal_interpolation_ensi(bp, bg, op, obs, sig, bat, *s, mp, extra); mc::check(a.size() == 4, "shape"); Grid g({{by[0], by[1]}, {by[2], by[3]}}, {{bx[0], bx[1]}, {bx[2], bx[3]}}, {{be[0], be[1]}, {be[2], be[3]}}, {}, t); mc::site("ensi-grid"); vec3 a2 = optimal_interpolation_ensi(g, vec3{{bg[0], bg[1]}, {bg[2], bg[3]}}, op, obs, sig, bat, *s, mp, extra);
    for(int y = 0; y < 4; y++) { mc::check((int)a[y].size() == nE && a2.size() == 2 && a2[y / 2].size() == 2 && (int)a2[y / 2][y % 2].size() == nE, "shape"); mc::outcome_of(a[y]);
        Res w = analysis(bp.get_point(y), bg[y], mem, op, obs, sig, bat, *s, mp, extra); if(!w.ok) continue;
        for(int e = 0; e < nE; e++) { double tol = 2e-4 * (1 + fabs(w.a[e])) + 2e-3 * (maxabs(obs) > 10); std::string at = mc::fmt("location %d member %d: want %g got %g", y, e, w.a[e], a[y][e]); bool infsame = bg[y][e] == a[y][e]; bool m = std::find(mem.begin(), mem.end(), e) != mem.end();
            if(!m || !w.used) mc::check(infsame || (std::isnan(bg[y][e]) && std::isnan(a[y][e])), m ? "unreached-changed" : "missing-member-changed", at); else mc::check(close(a[y][e], w.a[e], tol), "analysis", at);
            mc::check(a2[y / 2][y % 2][e] == a[y][e] || (std::isnan(a[y][e]) && std::isnan(a2[y / 2][y % 2][e])), "grid", at + mc::fmt(" grid %g", a2[y / 2][y % 2][e])); } }
}
MC_HARNESS(limit) {
    int n = mc::thorough() ? 6 : 5, nE = mc::range(2, 4), k = mc::choose(3), mp = mc::range(0, n + 1); std::vector<int> left; for(int i = 0; i < n; i++) left.push_back(i); vec oy, ox, obs, sg; vec2 bat; for(int i = 0; i < n; i++) { int c = mc::choose(left.size()), q = left[c]; left.erase(left.begin() + c); oy.push_back(q * q * 130 + 40 * q); ox.push_back(q % 2 ? -300 * q : 0); obs.push_back(q == 3 ? NANF : 2 + q); sg.push_back(0.4f + 0.1f * q); bat.push_back(vec(BG[q % 6], BG[q % 6] + nE)); if(q == 2) bat.back()[1] = NANF; }
    vec by{0, 900, 2500}, bx{0, 0, 100}; vec2 bg{vec(BG[0], BG[0] + nE), vec(BG[3], BG[3] + nE), vec(BG[4], BG[4] + nE)}; bool missing = mc::flip(); if(missing) bg[2][nE - 1] = NANF; std::vector<int> mem; for(int e = 0; e < nE - missing; e++) mem.push_back(e); Points op(oy, ox, {}, {}, Cartesian), bp(by, bx, {}, {}, Cartesian); auto s = make(k); bool extra = mc::flip(); NV(oy); NV(mp); NV(k); NV(extra); mc::op(); mc::site("limit"); vec2 a = optimal_interpolation_ensi(bp, bg, op, obs, sg, bat, *s, mp, extra); mc::outcome_of(a[0]);
    for(int y = 0; y < 3; y++) { Res w = analysis(bp.get_point(y), bg[y], mem, op, obs, sg, bat, *s, mp, extra); if(w.ok) for(int e : mem) mc::check(close(a[y][e], w.a[e], 5e-4 * (1 + fabs(w.a[e]))), "limit", mc::fmt("location %d member %d want %g got %g", y, e, w.a[e], a[y][e])); }
}
MC_HARNESS(sizes) {
    Points bp({0, 1}, {0, 1}), op({0, 0, 1}, {0, 1, 1}), oc({0, 0, 1}, {0, 1, 1}, {}, {}, Cartesian); Grid g(vec2{{0, 0}, {1, 1}}, vec2{{0, 1}, {0, 1}}); BarnesStructure s(1000); int bad = mc::choose(6), d = mc::pick({-1, 1}); vec2 bg(bad == 0 ? 2 + d : 2, vec(3, 1)), b(bad == 3 ? 3 + d : 3, vec(3, 1)); vec o(bad == 1 ? 3 + d : 3, 1), sg(bad == 2 ? 3 + d : 3, 1); int mp = bad == 5 ? -1 : 0; if(bad == 4) b = vec2(3, vec(3 + d, 1)); vec3 bg3(bad == 0 ? 2 + d : 2, vec2(2, vec(3, 1))); NV(bad); NV(d); mc::op(2);
    mc::check(mc::throws([&] { optimal_interpolation_ensi(bp, bg, op, o, sg, b, s, mp); }), "size"); mc::check(mc::throws([&] { optimal_interpolation_ensi(g, bg3, op, o, sg, b, s, mp); }), "size-grid"); vec2 g2(2, vec(3, 1)), b3(3, vec(3, 1)); vec g3(3, 1); mc::check(mc::throws([&] { optimal_interpolation_ensi(bp, g2, oc, g3, g3, b3, s, 0); }), "mixed-coordinates");
}
// observation networks and ensembles of realistic size
MC_HARNESS(network) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int n = mc::pick({12, 40}), k = mc::choose(3), mp = mc::pick({0, 1, 5, 20}), miss = mc::choose(2), dense = mc::choose(2); bool extra = mc::flip(); double w = dense ? 2.5 : 7;
    vec oy, ox, oe; for(int i = 0; i < n; i++) { oy.push_back(u * w * ((i * 37 + 5) % 101) / 101); ox.push_back(u * w * ((i * 61 + 17) % 103) / 103); oe.push_back(miss && i % 9 == 4 ? NANF : 100 + (i * 53) % 170); }
    vec by, bx, be; for(int i = 0; i < 12; i++) { by.push_back(u * w * (i / 4 * 0.37 + 0.013 * i)); bx.push_back(u * w * (i % 4 * 0.29 + 0.02 * (i / 4))); be.push_back(miss && i == 5 ? NANF : 90 + 13 * i); }
    auto grid = [&](const vec& v) { return vec2{vec(v.begin(), v.begin() + 4), vec(v.begin() + 4, v.begin() + 8), vec(v.begin() + 8, v.end())}; };
    NV(t); NV(n); NV(k); NV(mp); NV(miss); NV(dense); NV(extra);
    int nE = mc::pick({5, 12}); vec obs, sig; vec2 bat, bg; auto gr = [](int i, int e) { return 281 + ((i * 5 + e * 7) % 19) * 0.3f + 0.1f * e; }; for(int i = 0; i < n; i++) { obs.push_back(miss && i % 11 == 6 ? NANF : 280 + (i * 13) % 23 * 0.25f); sig.push_back(0.6f + 0.15f * (i % 5)); vec r; for(int e = 0; e < nE; e++) r.push_back(miss && i % 13 == 8 && e == 1 ? NANF : gr(i, e)); bat.push_back(r); } for(int i = 0; i < 12; i++) { vec r; for(int e = 0; e < nE; e++) r.push_back(miss && i == 7 && e == 2 ? NANF : gr(3 * i + 1, e)); bg.push_back(r); }
    NV(nE); std::vector<int> mem; for(int e = 0; e < nE; e++) if(!(miss && e == 2)) mem.push_back(e); Points op(oy, ox, oe, {}, t), bp(by, bx, be, {}, t); auto s = make(k); mc::op(2); mc::site("network"); vec2 a = optimal_interpolation_ensi(bp, bg, op, obs, sig, bat, *s, mp, extra); Grid g(grid(by), grid(bx), grid(be), {}, t); vec3 b3; for(int i = 0; i < 3; i++) b3.push_back(vec2(bg.begin() + 4 * i, bg.begin() + 4 * i + 4)); vec3 a3 = optimal_interpolation_ensi(g, b3, op, obs, sig, bat, *s, mp, extra); mc::check(a.size() == 12 && a3.size() == 3 && a3[2].size() == 4, "shape");
    for(int y = 0; y < 12; y++) { mc::outcome_of(a[y]); Res w = analysis(bp.get_point(y), bg[y], mem, op, obs, sig, bat, *s, mp, extra); for(int e = 0; e < nE; e++) { mc::check(a3[y / 4][y % 4][e] == a[y][e] || (std::isnan(a[y][e]) && std::isnan(a3[y / 4][y % 4][e])), "network-grid"); bool m = std::find(mem.begin(), mem.end(), e) != mem.end(); if(!w.ok) continue; std::string at = mc::fmt("location %d member %d: want %g got %g", y, e, w.a[e], a[y][e]); if(!m || !w.used) mc::check(a[y][e] == bg[y][e] || (std::isnan(a[y][e]) && std::isnan(bg[y][e])), "unreached-changed", at); else mc::check(close(a[y][e], w.a[e], 5e-3), "network-analysis", at); } }
}
MC_MAIN
