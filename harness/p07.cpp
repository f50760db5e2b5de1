#include "gp.h"
using namespace gp;
struct S { CoordinateType t; vec2 la, lo; std::vector<std::pair<float, float>> obs; double unit, tol; };
static S setting(int k) {
    S s; s.t = k == 2 ? Cartesian : Geodetic;
    if(k == 0) { s.la = {{59, 59, 59}, {60, 60, 60}}; s.lo = {{10, 11, 12}, {10, 11, 12}}; s.obs = {{59.1f, 10.1f}, {59.1f, 10.1f}, {59.6f, 10.7f}, {60, 12}, {63, 20}, {59.44f, 11.4f}}; s.unit = 60000; s.tol = 3; }
    else if(k == 1) { s.la = {{80, 80.1f}, {80, 80.1f}}; s.lo = {{179.6f, 179.5f}, {-179.7f, -179.6f}}; s.obs = {{80.02f, 179.9f}, {80.02f, -179.8f}, {80.1f, -179.61f}, {80.05f, 179.4f}, {-80, 0}, {80.09f, 179.3f}}; s.unit = 8000; s.tol = 3; }
    else if(k == 2) { s.la = {{0, 0, 0, 0}}; s.lo = {{0, 1000, 2000, 3000}}; s.obs = {{10, 20}, {-300, 480}, {200, 1100}, {900, 2600}, {0, 3000}, {5000, -1000}}; s.unit = 700; s.tol = 1e-2; }
    else { s.la = {{0}}; s.lo = {{0}}; s.obs = {{0, 0}, {0.1f, 0.1f}, {-0.1f, 0.2f}, {0.2f, -0.1f}, {50, 50}, {0, 0.3f}}; s.unit = 20000; s.tol = 3; }
    return s;
}
template <class F> static void judge(const char* tag, const std::vector<double>& want, const std::vector<char>& und, F got, double tol) {
    for(size_t i = 0; i < want.size(); i++) { float g = got(i); mc::outcome_of(vec(1, g)); if(!und[i]) mc::check(close(g, want[i], tol), tag, mc::fmt("cell %zu: %.7g want %.7g", i, g, want[i])); }
}
static void run(const S& s, const std::vector<int>& ids, const vec& vals) {
    int Y = s.la.size(), X = s.la[0].size(), n = ids.size();
    vec la, lo, fa, fo; for(int i : ids) { la.push_back(s.obs[i].first); lo.push_back(s.obs[i].second); }
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { fa.push_back(s.la[y][x]); fo.push_back(s.lo[y][x]); }
    Grid G(s.la, s.lo, vec2(), vec2(), s.t); Points P(la, lo, vec(), vec(), s.t), O(fa, fo, vec(), vec(), s.t);
    Statistic st = allstats()[mc::choose(allstats().size())]; int mn = mc::range(0, 3);
    double m = maxabs(vals), tol = stol(st, m);
    const char* stat = sname(st); NV(ids); NV(vals); NV(stat); NV(mn);
    float r = s.unit * mc::pick({0.8, 1.3, 40.});
    { std::vector<double> want; std::vector<char> und;
      for(int c = 0; c < Y * X; c++) { std::vector<double> v; int cnt = 0; char u = 0;
        for(int i = 0; i < n; i++) { double d = chord(la[i], lo[i], fa[c], fo[c], s.t); if(fabs(d - r) < s.tol) u = 1; if(d < r) { v.push_back(vals[i]); cnt++; } }
        want.push_back(cnt >= mn ? rstat(v, st) : NAN); und.push_back(u); }
      mc::op(2); mc::site("gridding"); vec2 g = gridding(G, P, vals, r, mn, st); vec p = gridding(O, P, vals, r, mn, st);
      mc::check((int)g.size() == Y && (int)g[0].size() == X && (int)p.size() == Y * X, "shape");
      judge("gridding-grid", want, und, [&](int i) { return g[i / X][i % X]; }, tol); judge("gridding-points", want, und, [&](int i) { return p[i]; }, tol); }
    { std::vector<std::vector<double>> b(Y * X); std::vector<char> und(Y * X, 0);
      for(int i = 0; i < n; i++) { std::vector<double> d; for(int c = 0; c < Y * X; c++) d.push_back(chord(la[i], lo[i], fa[c], fo[c], s.t)); double mi = *std::min_element(d.begin(), d.end()); int hits = 0, at = 0; for(int c = 0; c < Y * X; c++) if(d[c] - mi < s.tol) { hits++; at = c; }
        if(hits > 1) { for(int c = 0; c < Y * X; c++) if(d[c] - mi < s.tol) und[c] = 1; } else b[at].push_back(vals[i]); }
      std::vector<double> want; for(int c = 0; c < Y * X; c++) want.push_back(b[c].size() > 0 && (int)b[c].size() >= mn ? rstat(b[c], st) : NAN);
      mc::op(2); mc::site("gridding_nearest"); vec2 g = gridding_nearest(G, P, vals, mn, st); vec p = gridding_nearest(O, P, vals, mn, st);
      mc::check((int)g.size() == Y && (int)g[0].size() == X && (int)p.size() == Y * X, "shape");
      judge("nearest-grid", want, und, [&](int i) { return g[i / X][i % X]; }, tol); judge("nearest-points", want, und, [&](int i) { return p[i]; }, tol); }
}
// every multiset order of up to three/four observations, every missing pattern
MC_HARNESS(sets) {
    S s = setting(mc::choose(4)); int n = mc::range(0, mc::thorough() ? 4 : 3); std::vector<int> ids; vec v;
    for(int i = 0; i < n; i++) ids.push_back(mc::choose(6)); for(int i = 0; i < n; i++) { int c = mc::choose(3); v.push_back(c == 0 ? 3.5f * (i + 1) : c == 1 ? NANF : -2.f); }
    run(s, ids, v);
}
// more observations at once; a bounded number missing or changed
MC_HARNESS(many) {
    S s = setting(mc::choose(4)); mc::budget(2); std::vector<int> ids; vec v; int base = mc::choose(2);
    for(int i = 0; i < 7; i++) { int d = mc::dev(6); ids.push_back((i * (base + 1) + d) % 6); int e = mc::dev(4); v.push_back(e == 1 ? NANF : e == 2 ? INFF : e == 3 ? -40.f : 280 + i * (i % 3 - 1.f)); }
    run(s, ids, v);
}
// grids and numbers of observations of realistic size
MC_HARNESS(sizes) {
    int k = mc::choose(3), n = mc::pick({30, 150}), Y = k == 1 ? 1 : 9, X = k == 1 ? 40 : 11, miss = mc::choose(2); S s; s.t = k == 2 ? Cartesian : Geodetic; s.unit = k == 2 ? 700 : 60000; s.tol = k == 2 ? 1e-2 : 6; float u = k == 2 ? 1000 : 1; s.la.assign(Y, vec(X)); s.lo = s.la;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { s.la[y][x] = (k == 2 ? 0 : 50) + u * y; s.lo[y][x] = (k == 2 ? 0 : -7) + u * (x + 0.1f * y); }
    std::vector<int> ids; vec v; for(int i = 0; i < n; i++) { ids.push_back(i); s.obs.push_back({s.la[0][0] + u * ((i * 37) % 101 / 101.f * Y - 0.7f), s.lo[0][0] + u * ((i * 61) % 103 / 103.f * X - 0.4f)}); v.push_back(miss && i % 7 == 3 ? NANF : 280 + (i * 13) % 41 * 0.5f); }
    run(s, ids, v);
}
MC_MAIN
