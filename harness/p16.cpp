#include "oi.h"
using namespace gp;
enum { EBE, EBESC, UTEM };
struct Res { std::vector<double> a; bool ok = true, used = false; };
static std::vector<double> standardize(const vec& v, const std::vector<int>& mem) { int n = mem.size(); std::vector<double> z(n, 0); double m = 0, s = 0; for(int e : mem) m += v[e] / (double)n; for(int e : mem) s += (v[e] - m) * (v[e] - m) / n; s = sqrt(s); if(s > 0.0013) for(int k = 0; k < n; k++) z[k] = (v[mem[k]] - m) / s / sqrt(n - 1.0); return z; }
static double clampinc(double x, double lo, double hi) { return std::max(std::min(lo, 0.0), std::min(std::max(hi, 0.0), x)); }
static Res analysis(int kind, const Point& p, double bratio, const vec& bg, const vec& bgc, const std::vector<int>& mem, const Points& op, const vec2& obs, const vec& ratio, const vec2& pb, const vec2& pbc, const StructureFunction& s, int mp, bool extra) {
    Res r; for(float v : bg) r.a.push_back(v); int n = mem.size(); if(n == 0) return r;
    std::vector<bool> ok; for(auto& o : obs) { bool v = true; for(int e : mem) v = v && valid(o[kind == UTEM ? 0 : e]); ok.push_back(v); }
    Local L = select(p, op, ok, s, mp); if(L.tie || !clear_edges(p, op, s)) { r.ok = false; return r; } int m = L.idx.size(); if(m == 0) return r; r.used = true;
    Mat Z; for(int i : L.idx) Z.push_back(standardize(pbc[i], mem)); std::vector<double> X = standardize(bgc, mem);
    if(kind != UTEM) {
        Mat A(m, std::vector<double>(m)); std::vector<double> g(m), K; for(int i = 0; i < m; i++) { g[i] = L.rho[i]; double dot = 0; for(int k = 0; k < n; k++) dot += X[k] * Z[i][k]; if(kind == EBE) g[i] *= dot; for(int j = 0; j < m; j++) { A[i][j] = s.corr(op.get_point(L.idx[i]), op.get_point(L.idx[j])); double c = 0; for(int k = 0; k < n; k++) c += Z[i][k] * Z[j][k]; if(kind == EBE) A[i][j] *= c; } A[i][i] += ratio[L.idx[i]]; }
        if(!solve(A, g, K)) { r.ok = false; return r; } for(double x : K) if(fabs(x) > 50) r.ok = false;
        for(int e : mem) { double inc = 0, lo = 1e30, hi = -1e30; for(int i = 0; i < m; i++) { double d = (double)obs[L.idx[i]][e] - pb[L.idx[i]][e]; inc += bratio * K[i] * d; lo = std::min(lo, d); hi = std::max(hi, d); } r.a[e] = bg[e] + (extra ? inc : clampinc(inc, lo, hi)); }
        return r;
    }
    if(n == 1) { r.ok = false; return r; }
    Mat C(n, std::vector<double>(m)), Pi(n, std::vector<double>(n)); std::vector<double> yh(m, 0), d(m), w(n, 0), ev; for(int i = 0; i < m; i++) { int o = L.idx[i]; for(int e : mem) yh[i] += pb[o][e] / (double)n; d[i] = obs[o][0] - yh[i]; for(int k = 0; k < n; k++) C[k][i] = Z[i][k] * L.rho[i] / ratio[o]; }
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) { Pi[a][b] = a == b; for(int i = 0; i < m; i++) Pi[a][b] += C[a][i] * Z[i][b]; } bool inv; Mat P = invert(Pi, inv), V, Q = P; if(!inv) { r.ok = false; return r; } for(auto& row : Q) for(double& x : row) x *= n - 1; eig(Q, ev, V);
    double mean = 0, sd = 0; for(int e : mem) mean += bg[e] / (double)n; for(int e : mem) sd += (bg[e] - mean) * (bg[e] - mean) / n; sd = sqrt(sd); for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) for(int i = 0; i < m; i++) w[a] += P[a][b] * C[b][i] * d[i];
    for(int e = 0; e < n; e++) { double inc = 0; for(int k = 0; k < n; k++) { double W = 0; for(int q = 0; q < n; q++) W += V[k][q] * sqrt(std::max(0.0, ev[q])) * V[e][q]; inc += X[k] * (sd * W + bratio * w[k]); } double x = bg[mem[e]] - mean, mi = inc - x, lo = 1e30, hi = -1e30; for(int i = 0; i < m; i++) { double v = obs[L.idx[i]][0] - (double)pb[L.idx[i]][mem[e]]; lo = std::min(lo, v); hi = std::max(hi, v); } r.a[mem[e]] = bg[mem[e]] + (extra ? mi : clampinc(mi, lo, hi)); }
    return r;
}
static StructureFunctionPtr make(int k) { StructureFunctionPtr b = std::make_shared<BarnesStructure>(1500, 200, 0, 2900); CrossValidation cv(*b, 700); switch(k) { case 0: return b; case 1: return std::make_shared<CressmanStructure>(2100, 300, 0); default: return cv.clone(); } }
static const double OY[] = {0, 0.5, 1.7, 60}, OX[] = {0, 1.1, -0.8, 60}; static const float OE[] = {100, 150, NANF, 100};
static const float BG[6][4] = {{1, 2, 4, 0.5f}, {0, 3, 1, 2}, {5, 5, 5, 5}, {-2, 1, 0.5f, 9}, {1, 1, 3, 2}, {0.1f, 0.3f, 0.2f, 0}};
static vec row(int k, int n) { return vec(BG[k % 6], BG[k % 6] + n); }
static vec2 call(int kind, const Points& bp, const vec& br, const vec2& bg, const vec2& bgc, const Points& op, const vec2& obs, const vec& ratio, const vec2& pb, const vec2& pbc, const StructureFunction& s, int mp, bool x) {
    if(kind == EBE) return optimal_interpolation_ensi_multi_ebe(bp, br, bg, bgc, op, obs, ratio, pb, pbc, s, mp, x); if(kind == EBESC) return optimal_interpolation_ensi_multi_ebesc(bp, br, bg, op, obs, ratio, pb, s, mp, x); vec o; for(auto& r : obs) o.push_back(r[0]); return optimal_interpolation_ensi_multi_utem(bp, br, bg, bgc, op, o, ratio, pb, pbc, s, mp, x); }
static vec3 callg(int kind, const Grid& bp, const vec2& br, const vec3& bg, const vec3& bgc, const Points& op, const vec2& obs, const vec& ratio, const vec2& pb, const vec2& pbc, const StructureFunction& s, int mp, bool x) {
    if(kind == EBE) return optimal_interpolation_ensi_multi_ebe(bp, br, bg, bgc, op, obs, ratio, pb, pbc, s, mp, x); if(kind == EBESC) return optimal_interpolation_ensi_multi_ebesc(bp, br, bg, op, obs, ratio, pb, s, mp, x); vec o; for(auto& r : obs) o.push_back(r[0]); return optimal_interpolation_ensi_multi_utem(bp, br, bg, bgc, op, o, ratio, pb, pbc, s, mp, x); }
static bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
static void run(int kind) {
    int n = mc::range(0, mc::thorough() ? 4 : 3); bool full = n < 2 || mc::thorough(); CoordinateType t = (full ? mc::flip() : n == 3) ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int ny = full ? mc::pick({2, 1, 4}) : mc::pick({1, 4}), nE = full ? mc::range(1, 3) : mc::pick({2, 3}), k = n < 3 ? mc::choose(3) : 0, mp = n > 1 ? mc::pick({0, 1, 2}) : 0; bool extra = mc::flip(); mc::budget(n < 2 ? 2 : 1); if(n == 0) mc::budget(3);
    vec oy, ox, oe, ratio; vec2 obs, pb, pbc; for(int i = 0; i < n; i++) { int q = n < 3 ? mc::choose(4) : (mc::choose(2) + i) % 3; oy.push_back(OY[q] * u + (n > 2 ? 0.11 * i * u : 0)); ox.push_back(OX[q] * u); oe.push_back(OE[q]); float v = mc::pick({3.f, -1.f}); vec o; for(int e = 0; e < nE; e++) o.push_back(v + 0.3f * e * (kind != UTEM)); int bad = mc::dev(nE + 2); if(bad == nE + 1) o = vec(nE, 1); else if(bad) o[bad - 1] = NANF; obs.push_back(o); ratio.push_back(mc::pickdev(std::vector<float>{0.5f, 2.f, 0.1f})); int b = (mc::choose(2) + i) % 6; pb.push_back(row(b, nE)); pbc.push_back(row(b + 1 + mc::dev(3), nE)); int miss = mc::dev(nE + 1); if(miss) pb.back()[miss - 1] = NANF; miss = mc::dev(nE + 1); if(miss) pbc.back()[miss - 1] = NANF; }
    vec by, bx, be, br; vec2 bg, bgc; static const double Y[] = {0, 1.2, 2, -40}, X[] = {0.1, 0.4, -1, 0}; static const float E[] = {100, 140, NANF, 90}, R[] = {1, 2, 0.5f, 1}; for(int y = 0; y < ny; y++) { by.push_back(Y[y] * u); bx.push_back(X[y] * u); be.push_back(E[y]); br.push_back(R[y]); bg.push_back(row(y, nE)); bgc.push_back(row(y + 3, nE)); int miss = mc::dev(nE + 1); if(miss) bg[y][miss - 1] = NANF; miss = mc::dev(nE + 1); if(miss) bgc[y][miss - 1] = NANF; }
    std::vector<int> mem; for(int e = 0; e < nE; e++) { bool v = true; for(int y = 0; y < ny; y++) v = v && valid(bg[y][e]) && (kind == EBESC || valid(bgc[y][e])); for(int i = 0; i < n; i++) v = v && valid(pb[i][e]) && (kind == EBESC || valid(pbc[i][e])); if(v) mem.push_back(e); }
    if(kind == UTEM && mem.size() == 1) mc::skip();   // no spread is defined for a single member
    Points op(oy, ox, oe, {}, t), bp(by, bx, be, {}, t); auto s = make(k); NV(t); NV(k); NV(mp); NV(extra); NV(oy); NV(obs); NV(ratio); NV(pb); NV(pbc); NV(bg); NV(bgc);
    mc::op(2); mc::site("multi"); vec2 a = call(kind, bp, br, bg, bgc, op, obs, ratio, pb, pbc, *s, mp, extra); mc::check((int)a.size() == ny, "shape");
    vec3 a3; int gx = ny == 4 ? 2 : ny, gy = ny / gx; { vec2 y2, x2, e2, r2; vec3 b3, c3; for(int i = 0; i < gy; i++) { y2.push_back(vec(by.begin() + i * gx, by.begin() + (i + 1) * gx)); x2.push_back(vec(bx.begin() + i * gx, bx.begin() + (i + 1) * gx)); e2.push_back(vec(be.begin() + i * gx, be.begin() + (i + 1) * gx)); r2.push_back(vec(br.begin() + i * gx, br.begin() + (i + 1) * gx)); b3.push_back(vec2(bg.begin() + i * gx, bg.begin() + (i + 1) * gx)); c3.push_back(vec2(bgc.begin() + i * gx, bgc.begin() + (i + 1) * gx)); } mc::site("multi-grid"); a3 = callg(kind, Grid(y2, x2, e2, {}, t), r2, b3, c3, op, obs, ratio, pb, pbc, *s, mp, extra); }
    for(int y = 0; y < ny; y++) { mc::check((int)a[y].size() == nE, "shape"); mc::outcome_of(a[y]); Res w = analysis(kind, bp.get_point(y), br[y], bg[y], bgc[y], mem, op, obs, ratio, pb, pbc, *s, mp, extra);
        for(int e = 0; e < nE; e++) { mc::check(same(a[y][e], a3[y / gx][y % gx][e]), "grid", mc::fmt("location %d member %d: %g and %g", y, e, a[y][e], a3[y / gx][y % gx][e])); if(!w.ok) continue; std::string at = mc::fmt("location %d member %d: want %g got %g", y, e, w.a[e], a[y][e]); bool m = std::find(mem.begin(), mem.end(), e) != mem.end();
            if(!m || !w.used) mc::check(same(bg[y][e], a[y][e]), m ? "unreached-changed" : "missing-member-changed", at); else mc::check(close(a[y][e], w.a[e], 3e-4 * (1 + fabs(w.a[e]))), "analysis", at); } }
}
MC_HARNESS(ebe) { run(EBE); }
MC_HARNESS(ebesc) { run(EBESC); }
MC_HARNESS(utem) { run(UTEM); }
MC_HARNESS(sizes) {
    int kind = mc::choose(3); Points bp({0, 1}, {0, 1}), op({0, 0, 1}, {0, 1, 1}); int bad = mc::choose(11), d = mc::pick({-1, 1}); auto m2 = [&](int n, int a, int b) { return vec2(bad == a ? n + d : n, vec(bad == b ? 3 + d : 3, 1)); }; if(kind == EBESC && (bad == 2 || bad == 3 || bad == 4 || bad == 5)) mc::skip(); if(kind == UTEM && bad == 9) mc::skip();
    vec2 bg = m2(2, 0, 1), bgc = m2(2, 2, 3), pbc = m2(3, 4, 5), pb = m2(3, 6, 7), o = m2(3, 8, 9); vec br(2, 1), ra(3, 1); int mp = bad == 10 ? -1 : 0; BarnesStructure s(1000); NV(kind); NV(bad); NV(d); mc::op(2); mc::check(mc::throws([&] { call(kind, bp, br, bg, bgc, op, o, ra, pb, pbc, s, mp, true); }), "size"); Grid g(vec2{{0, 1}}, vec2{{0, 1}}); mc::check(mc::throws([&] { callg(kind, g, vec2{br}, vec3{bg}, vec3{bgc}, op, o, ra, pb, pbc, s, mp, true); }), "size-grid");
    vec2 ok2(2, vec(3, 1)), ok3(3, vec(3, 1)); mc::check(mc::throws([&] { call(kind, bp, vec(3, 1), ok2, ok2, op, ok3, ra, ok3, ok3, s, 0, true); }) && mc::throws([&] { call(kind, bp, br, ok2, ok2, op, ok3, vec(2, 1), ok3, ok3, s, 0, true); }) && mc::throws([&] { callg(kind, g, vec2{vec(3, 1)}, vec3{ok2}, vec3{ok2}, op, ok3, ra, ok3, ok3, s, 0, true); }), "size-ratios");
    Points oc({0, 0, 1}, {0, 1, 1}, {}, {}, Cartesian); mc::check(mc::throws([&] { call(kind, bp, br, ok2, ok2, oc, ok3, ra, ok3, ok3, s, 0, true); }), "mixed-coordinates");
}
// observation networks and ensembles of realistic size
MC_HARNESS(network) {
    int kind = mc::choose(3); CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int n = mc::pick({12, 40}), k = mc::choose(3), mp = mc::pick({0, 1, 5, 20}), miss = mc::choose(2), dense = mc::choose(2); bool extra = mc::flip(); double w = dense ? 2.5 : 7;
    vec oy, ox, oe; for(int i = 0; i < n; i++) { oy.push_back(u * w * ((i * 37 + 5) % 101) / 101); ox.push_back(u * w * ((i * 61 + 17) % 103) / 103); oe.push_back(miss && i % 9 == 4 ? NANF : 100 + (i * 53) % 170); }
    vec by, bx, be; for(int i = 0; i < 12; i++) { by.push_back(u * w * (i / 4 * 0.37 + 0.013 * i)); bx.push_back(u * w * (i % 4 * 0.29 + 0.02 * (i / 4))); be.push_back(miss && i == 5 ? NANF : 90 + 13 * i); }
    auto grid = [&](const vec& v) { return vec2{vec(v.begin(), v.begin() + 4), vec(v.begin() + 4, v.begin() + 8), vec(v.begin() + 8, v.end())}; };
    NV(t); NV(n); NV(k); NV(mp); NV(miss); NV(dense); NV(extra);
    int nE = mc::pick({5, 12}); vec ratio, br; vec2 obs, pb, pbc, bg, bgc; auto gr = [](int i, int e) { return 281 + ((i * 5 + e * 7) % 19) * 0.3f + 0.1f * e; }; for(int i = 0; i < n; i++) { ratio.push_back(0.4f + 0.15f * (i % 5)); vec o, r, c; for(int e = 0; e < nE; e++) { o.push_back(miss && i % 11 == 6 && (kind == UTEM || e == 3) ? NANF : 280 + (i * 13) % 23 * 0.25f + (kind == UTEM ? 0 : 0.1f * e)); r.push_back(miss && i == 8 && e == 1 ? NANF : gr(i, e)); c.push_back(gr(i * 3 + 2, e + 1)); } obs.push_back(o); pb.push_back(r); pbc.push_back(c); } for(int i = 0; i < 12; i++) { br.push_back(0.5f + 0.25f * (i % 3)); vec r, c; for(int e = 0; e < nE; e++) { r.push_back(miss && i == 7 && e == 2 ? NANF : gr(3 * i + 1, e)); c.push_back(gr(i * 2 + 5, e)); } bg.push_back(r); bgc.push_back(c); }
    NV(kind); NV(nE); std::vector<int> mem; for(int e = 0; e < nE; e++) if(!(miss && (e == 2 || e == 1))) mem.push_back(e); Points op(oy, ox, oe, {}, t), bp(by, bx, be, {}, t); auto s = make(k); mc::op(2); mc::site("network"); vec2 a = call(kind, bp, br, bg, bgc, op, obs, ratio, pb, pbc, *s, mp, extra); vec3 b3, c3; for(int i = 0; i < 3; i++) { b3.push_back(vec2(bg.begin() + 4 * i, bg.begin() + 4 * i + 4)); c3.push_back(vec2(bgc.begin() + 4 * i, bgc.begin() + 4 * i + 4)); } vec3 a3 = callg(kind, Grid(grid(by), grid(bx), grid(be), {}, t), grid(br), b3, c3, op, obs, ratio, pb, pbc, *s, mp, extra); mc::check(a.size() == 12 && a3.size() == 3 && a3[2].size() == 4, "shape");
    for(int y = 0; y < 12; y++) { mc::outcome_of(a[y]); Res w = analysis(kind, bp.get_point(y), br[y], bg[y], bgc[y], mem, op, obs, ratio, pb, pbc, *s, mp, extra); for(int e = 0; e < nE; e++) { mc::check(same(a[y][e], a3[y / 4][y % 4][e]), "network-grid"); bool m = std::find(mem.begin(), mem.end(), e) != mem.end(); if(!w.ok) continue; std::string at = mc::fmt("location %d member %d: want %g got %g", y, e, w.a[e], a[y][e]); if(!m || !w.used) mc::check(same(a[y][e], bg[y][e]), "unreached-changed", at); else mc::check(close(a[y][e], w.a[e], 1e-2), "network-analysis", at); } }
}
MC_MAIN
