#include "gp.h"
using namespace gp;
static bool cmpop(double a, double t, ComparisonOperator o) { switch(o) { case Leq: return a <= t; case Lt: return a < t; case Geq: return a >= t; default: return a > t; } }
struct Near { std::vector<std::pair<int, int>> c; };
static std::vector<std::pair<int, int>> nn(const vec2& la, const vec2& lo, double a, double o, CoordinateType t) { double best = 1e30; std::vector<std::pair<int, int>> r; for(size_t y = 0; y < la.size(); y++) for(size_t x = 0; x < la[0].size(); x++) best = std::min(best, chord(la[y][x], lo[y][x], a, o, t)); for(size_t y = 0; y < la.size(); y++) for(size_t x = 0; x < la[0].size(); x++) if(chord(la[y][x], lo[y][x], a, o, t) < best + (t == Cartesian ? 1e-4 : 3)) r.push_back({y, x}); return r; }
static const ComparisonOperator OPS[] = {Leq, Lt, Geq, Gt};
// one input cell, one output: every ensemble over the alphabet
MC_HARNESS(members) {
    int E = mc::range(1, mc::thorough() ? 4 : 3); vec a, tr, fa;
    for(int e = 0; e < E; e++) a.push_back(mc::pick({0.f, 1.f, 2.f, NANF, INFF}));
    for(int e = 0; e < E; e++) { int c = mc::choose(3); tr.push_back(c == 0 ? 10 + e : c == 1 ? NANF : 10.5f); c = mc::choose(2); fa.push_back(c == 0 ? -5 - 2 * e : NANF); }
    float th = mc::pick({-1.f, 0.f, 1.f, 1.5f, 2.f}); ComparisonOperator o = OPS[mc::choose(4)]; NV(a); NV(tr); NV(fa); NV(th); NV((int)o);
    Grid I({{60}}, {{10}}), O({{60, 61}}, {{10, 10}}); vec3 A{{a}}, T{{tr}}, F{{fa}}; vec2 H{{th, 99}};
    for(int j = 0; j < 2; j++) {
        int n = 0, k = 0; std::vector<double> m; for(int e = 0; e < E; e++) if(valid(a[e])) { n++; bool c = cmpop(a[e], H[0][j], o); k += c; m.push_back(c ? tr[e] : fa[e]); }
        mc::op(); vec2 p = downscale_probability(I, O, A, H, o); mc::outcome_of(p); mc::check(p.size() == 1 && p[0].size() == 2, "shape"); mc::check(close(p[0][j], n ? k / (double)n : NAN, 1e-6), "probability", mc::fmt("%g want %d/%d", p[0][j], k, n));
        for(Statistic s : allstats()) { mc::op(); vec2 r = mask_threshold_downscale_consensus(I, O, T, F, A, H, o, s); mc::check(close(r[0][j], rstat(m, s), stol(s, 12)), std::string("consensus-") + sname(s), mc::fmt("%g want %g", r[0][j], rstat(m, s))); }
        for(float q : {0.f, 0.3f, 0.5f, 1.f}) { mc::op(); vec2 r = mask_threshold_downscale_quantile(I, O, T, F, A, H, o, q); mc::check(close(r[0][j], rquantile(m, q), 1e-4), "quantile", mc::fmt("q %g: %g want %g", q, r[0][j], rquantile(m, q))); }
    }
}
// geometry: every output location uses its own nearest cell and its own threshold
MC_HARNESS(cells) {
    int k = mc::choose(4); CoordinateType t = k == 3 ? Cartesian : Geodetic; int Y = k == 0 ? 1 : 2, X = k == 1 ? 2 : 3, E = 2; vec2 la(Y, vec(X)), lo = la;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[y][x] = k == 3 ? 100 * y : 60 + y; lo[y][x] = k == 3 ? 130 * x : k == 1 ? 179.5f + x : 10 + x + 0.2f * y; }
    mc::budget(2); vec3 a(Y, vec2(X, vec(E))), tr = a, fa = a; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) for(int e = 0; e < E; e++) { int d = mc::dev(3); a[y][x][e] = d == 1 ? NANF : d == 2 ? 7 : (y * 5 + x * 3 + e * 2) % 6; tr[y][x][e] = 100 + y * 10 + x + 0.5f * e; fa[y][x][e] = -100 - y * 10 - x * 2 - e; if(mc::dev(2)) tr[y][x][e] = NANF; }
    int oy = 2, ox = 4; vec2 oa(oy, vec(ox)), oo = oa, th = oa; float u = k == 3 ? 100 : 1; for(int y = 0; y < oy; y++) for(int x = 0; x < ox; x++) { oa[y][x] = la[0][0] + u * (-0.4f + 0.83f * y + 0.05f * x); oo[y][x] = lo[0][0] + u * (-0.3f + 0.77f * x); th[y][x] = (y * 3 + x * 2) % 6; }
    ComparisonOperator o = OPS[mc::choose(4)]; NV(k); NV((int)o); NV(a); NV(tr); Grid I(la, lo, vec2(), vec2(), t), O(oa, oo, vec2(), vec2(), t);
    mc::op(3); vec2 p = downscale_probability(I, O, a, th, o), c = mask_threshold_downscale_consensus(I, O, tr, fa, a, th, o, Mean), q = mask_threshold_downscale_quantile(I, O, tr, fa, a, th, o, 0.25f); mc::outcome_of(p);
    for(int y = 0; y < oy; y++) for(int x = 0; x < ox; x++) { auto N = nn(la, lo, oa[y][x], oo[y][x], t); if(N.size() > 1) continue; int i = N[0].first, j = N[0].second; int n = 0, m = 0; std::vector<double> v; for(int e = 0; e < E; e++) if(valid(a[i][j][e])) { bool b = cmpop(a[i][j][e], th[y][x], o); n++; m += b; v.push_back(b ? tr[i][j][e] : fa[i][j][e]); }
        mc::check(close(p[y][x], n ? m / (double)n : NAN, 1e-6), "probability-cell"); mc::check(close(c[y][x], rstat(v, Mean), 1e-3), "consensus-cell"); mc::check(close(q[y][x], rquantile(v, 0.25), 1e-3), "quantile-cell"); }
}
// smart neighbours: mean of the num best correlated cells within the localization distance
MC_HARNESS(smartest) {
    int k = mc::choose(3); CoordinateType t = k == 2 ? Cartesian : Geodetic; int Y = 3, X = 3; vec2 la(Y, vec(X)), lo = la, el = la, lf = la, f = la; float u = k == 2 ? 1000 : 0.01f; mc::budget(2); int pat = mc::choose(3);
    static const float EL[] = {0, 110, 930, 355, 20, 1500, 710, 47, 63};
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { int i = y * X + x; la[y][x] = (k == 2 ? 0 : 60) + u * y; lo[y][x] = (k == 2 ? 0 : 10) + u * x; el[y][x] = pat == 0 ? EL[i] : pat == 1 ? EL[8 - i] : 50 * i; lf[y][x] = ((i * 5 + pat) % 9) / 8.f; int d = mc::dev(3); f[y][x] = d == 1 ? NANF : 10 + i * i; if(d == 2) el[y][x] = NANF; if(mc::dev(2)) lf[y][x] = NANF; }
    float h = mc::pick({300.f, 800.f, 2500.f}), v = mc::pick({0.f, 100.f}), w = mc::pick({0.f, 0.5f}); int num = mc::pick({0, 1, 2, 4, 20}); bool spatial = mc::flip(); NV(spatial);
    vec2 oa{{la[0][0] + 0.31f * u, la[1][1] + 0.17f * u, la[2][2] + 40 * u}}, oo{{lo[0][0] + 0.23f * u, lo[1][1] - 0.27f * u, lo[2][2]}}, oe{{105, mc::pick({640.f, NANF}), 0}}, ol{{0.55f, mc::pick({0.33f, NANF}), 0}};
    Grid I(la, lo, el, lf, t), O(oa, oo, oe, ol, t);
    // the scale is the same everywhere, or that of the grid point nearest to the output location
    vec2 H(Y, vec(X)); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) H[y][x] = h * (1 + 0.7f * ((x + y) % 3));
    auto scale = [&](int p) -> double { if(!spatial) return h; double b = 1e30; float r = h; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double d = chord(oa[0][p], oo[0][p], la[y][x], lo[y][x], t); if(d < b) { b = d; r = H[y][x]; } } return r; };
    BarnesStructure S1(h, v, w), S2(I, H, vec2(Y, vec(X, v)), vec2(Y, vec(X, w)), 0.0013f); const StructureFunction& S = spatial ? S2 : S1; NV(k); NV(h); NV(v); NV(w); NV(num); NV(f); NV(el); NV(lf); mc::op(); mc::site("smart"); vec2 r = smart(I, O, f, num, S); mc::outcome_of(r);
    mc::check(r.size() == 1 && r[0].size() == 3, "shape"); 
    for(int p = 0; p < 3; p++) {
        const double h = scale(p), L = sqrt(-2 * log(0.0013)) * h;
        std::vector<std::pair<double, double>> c; bool edge = false;
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double d = chord(oa[0][p], oo[0][p], la[y][x], lo[y][x], t); if(fabs(d - L) < L * 0.01) edge = true; if(d > L) continue; double e = -0.5 * d * d / h / h; if(v > 0 && valid(oe[0][p]) && valid(el[y][x])) e += -0.5 * pow((oe[0][p] - el[y][x]) / v, 2); if(w > 0 && valid(ol[0][p]) && valid(lf[y][x])) e += -0.5 * pow((ol[0][p] - lf[y][x]) / w, 2); c.push_back({exp(e), f[y][x]}); }
        if(edge) continue; std::sort(c.begin(), c.end(), [](auto& a, auto& b) { return a.first > b.first; }); int n = std::min(num, (int)c.size()); if(n > 0 && n < (int)c.size() && fabs(c[n - 1].first - c[n].first) < 2e-4 * c[n - 1].first + 1e-30) continue;
        double s = 0; for(int i = 0; i < n; i++) s += c[i].second; mc::check(close(r[0][p], n ? s / n : NAN, 1e-3), "smart", mc::fmt("location %d (%zu within reach): %g want %g", p, c.size(), r[0][p], n ? s / n : NAN));
    }
}
// ensembles and grids of realistic size
MC_HARNESS(sizes) {
    int k = mc::choose(2), Y = mc::pick({1, 11}), X = 13, E = mc::pick({10, 51}), miss = mc::choose(3); CoordinateType t = k ? Cartesian : Geodetic; float u = k ? 1000 : 1; vec2 la(Y, vec(X)), lo = la; vec3 a(Y, vec2(X, vec(E))), tr = a, fa = a;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[y][x] = (k ? 0 : 50) + u * y; lo[y][x] = (k ? 0 : 5) + u * (x + 0.1f * y); for(int e = 0; e < E; e++) { bool m = miss == 1 ? (e + x) % 8 == 2 : miss == 2 && (x + y) % 4 == 1; a[y][x][e] = m ? NANF : (y * 5 + x * 3 + e * 7) % 23; tr[y][x][e] = 100 + y * 10 + x + 0.5f * e; fa[y][x][e] = (e + y) % 9 == 4 ? NANF : -100 - y * 10 - x - 0.25f * e; } }
    int oy = 7, ox = 9; vec2 oa(oy, vec(ox)), oo = oa, th = oa; for(int y = 0; y < oy; y++) for(int x = 0; x < ox; x++) { oa[y][x] = la[0][0] + u * (-0.43f + y * Y / 7.f * 1.1f); oo[y][x] = lo[0][0] + u * (-0.37f + x * 1.57f); th[y][x] = (y * 3 + x * 2) % 23; }
    ComparisonOperator o = OPS[mc::choose(4)]; NV(k); NV(Y); NV(E); NV(miss); NV((int)o); Grid I(la, lo, vec2(), vec2(), t), O(oa, oo, vec2(), vec2(), t); mc::op(); mc::site("sizes"); vec2 p = downscale_probability(I, O, a, th, o); mc::outcome_of(p); mc::check((int)p.size() == oy && (int)p[0].size() == ox, "shape");
    std::vector<vec2> c; for(Statistic s : allstats()) { mc::op(); c.push_back(mask_threshold_downscale_consensus(I, O, tr, fa, a, th, o, s)); } static const float L[] = {0, 0.1f, 0.5f, 0.95f, 1}; std::vector<vec2> q; for(float l : L) { mc::op(); q.push_back(mask_threshold_downscale_quantile(I, O, tr, fa, a, th, o, l)); }
    for(int y = 0; y < oy; y++) for(int x = 0; x < ox; x++) { auto N = nn(la, lo, oa[y][x], oo[y][x], t); if(N.size() > 1) continue; int i = N[0].first, j = N[0].second, n = 0, m = 0; std::vector<double> v; for(int e = 0; e < E; e++) if(valid(a[i][j][e])) { bool b = cmpop(a[i][j][e], th[y][x], o); n++; m += b; v.push_back(b ? tr[i][j][e] : fa[i][j][e]); }
        mc::check(close(p[y][x], n ? m / (double)n : NAN, 1e-6), "probability-sizes"); for(size_t s = 0; s < c.size(); s++) mc::check(close(c[s][y][x], rstat(v, allstats()[s]), stol(allstats()[s], 300) * (allstats()[s] == Sum ? E : 1)), std::string("consensus-sizes-") + sname(allstats()[s]), mc::fmt("%g want %g", c[s][y][x], rstat(v, allstats()[s]))); for(size_t l = 0; l < q.size(); l++) mc::check(close(q[l][y][x], rquantile(v, L[l]), 2e-3), "quantile-sizes"); }
}
MC_MAIN
