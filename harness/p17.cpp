#include "oi.h"
using namespace gp;
static bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
// ---- neighbourhood_search: the accepted outputs of one cell (any of several equally close values)
static std::vector<double> search(const vec2& a, const vec2& s, int y, int x, int h, float lo, float hi, float delta, const ivec2& ap) {
    int Y = a.size(), X = a[0].size(); if(!valid(s[y][x]) || (!ap.empty() && ap[y][x] == 0)) return {a[y][x]}; std::vector<double> in, near; double best = 1e30;
    for(int i = std::max(0, y - h); i <= std::min(Y - 1, y + h); i++) for(int j = std::max(0, x - h); j <= std::min(X - 1, x + h); j++) { if(!valid(s[i][j]) || !valid(a[i][j])) continue; double d = s[i][j] < lo ? lo - s[i][j] : s[i][j] > hi ? s[i][j] - hi : 0; if(d == 0) in.push_back(a[i][j]); else if(d <= delta) { if(d < best - 1e-7) { best = d; near.clear(); } if(d <= best + 1e-7) near.push_back(a[i][j]); } }
    if(!in.empty()) return {rstat(in, Mean)}; if(!near.empty()) return near; return {a[y][x]};
}
static void judge_search(const vec2& a, const vec2& s, int h, float lo, float hi, float delta, const ivec2& ap) {
    mc::op(); mc::site("neighbourhood_search"); vec2 r = neighbourhood_search(a, s, h, lo, hi, delta, ap); mc::check(r.size() == a.size(), "search-shape");
    for(size_t y = 0; y < a.size(); y++) { mc::check(r[y].size() == a[y].size(), "search-shape"); mc::outcome_of(r[y]); for(size_t x = 0; x < a[y].size(); x++) { auto w = search(a, s, y, x, h, lo, hi, delta, ap); bool ok = false; for(double v : w) ok = ok || close(r[y][x], v, 1e-5 * (1 + fabs(v))); mc::check(ok, "search", mc::fmt("cell %d %d: %g want %g", (int)y, (int)x, r[y][x], w[0])); } }
}
// every field over the alphabet
MC_HARNESS(search_small) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 1}, {1, 2}, {2, 1}, {1, 3}, {2, 2}}; auto sh = mc::pick(shapes); int n = sh.first * sh.second; if(n == 4) mc::budget(mc::thorough() ? 6 : 4);
    vec2 a(sh.first, vec(sh.second)), s = a; ivec2 ap; int c = 0; for(auto& r : s) for(float& x : r) x = n == 4 ? mc::pickdev(std::vector<float>{0.5f, 0.8f, 0.f, 1.f, 0.75f, NANF, INFF}) : mc::pick({0.5f, 0.8f, 0.f, 1.f, 0.75f, NANF, INFF});
    for(auto& r : a) for(float& x : r) { c++; x = (n == 4 ? mc::dev(2) : mc::flip()) ? NANF : c * c * 1.5f; } if(mc::flip()) for(int y = 0; y < sh.first; y++) { ivec r; for(int x = 0; x < sh.second; x++) r.push_back(n == 4 ? 1 - mc::dev(2) : 1 - mc::choose(2)); ap.push_back(r); }
    int h = mc::range(0, 2); auto t = mc::pick(std::vector<std::pair<float, float>>{{0.7f, 0.9f}, {0.75f, 0.75f}, {0, 0.5f}, {2, 3}}); float d = mc::pick({0.f, 0.1875f, 0.625f, 10.f}); NV(a); NV(s); NV(ap); NV(h); NV(t.first); NV(t.second); NV(d); judge_search(a, s, h, t.first, t.second, d, ap);
}
// larger fields with a bounded number of special cells
MC_HARNESS(search_large) {
    mc::budget(mc::thorough() ? 4 : 3); int Y = mc::pick({3, 1, 4}), X = mc::pick({4, 5}), h = mc::range(1, 3); vec2 a(Y, vec(X)), s = a; ivec2 ap(Y, ivec(X, 1)); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { a[y][x] = y * 10 + x * x; s[y][x] = mc::pickdev(std::vector<float>{0.25f, 0.8f, 0.625f, 1.f, NANF}); if((y + x) % 3 == 0) { int d = mc::dev(3); a[y][x] = d == 1 ? NANF : d == 2 ? INFF : a[y][x]; } if((y * 2 + x) % 5 == 0) ap[y][x] = 1 - mc::dev(2); }
    float d = mc::pick({0.125f, 0.5f}); NV(a); NV(s); NV(ap); NV(h); NV(d); judge_search(a, s, h, 0.75f, 0.875f, d, ap);
}
MC_HARNESS(search_bad) {
    vec2 a(2, vec(3, 1)); int bad = mc::choose(10); vec2 s = a; ivec2 ap; int h = 1; float lo = 0, hi = 1; switch(bad) { case 0: s.pop_back(); break; case 1: s[0].pop_back(); break; case 2: s[1].pop_back(); break; case 3: ap = {{1, 1, 1}}; break; case 4: ap = {{1, 1, 1}, {1, 1}}; break; case 5: h = -1; break; case 6: lo = 2; break; case 7: s.clear(); break; case 8: a[1].pop_back(); s[1].pop_back(); break; case 9: a.clear(); break; }
    NV(bad); mc::op(); mc::check(mc::throws([&] { neighbourhood_search(a, s, h, lo, hi, 0.1f, ap); }), "search-bad"); mc::check(neighbourhood_search(vec2(), vec2(), 1, 0, 1, 0.1f).empty(), "search-empty");
}
// ---- local_distribution_correction
struct Ldc { bool ok = true; std::vector<double> v; };
static Ldc correct(double bg, const std::vector<std::pair<double, double>>& R, const std::vector<std::pair<double, double>>& F, float q0, float q1, int mp) {
    Ldc r; int n = R.size(); if(!valid(bg) || n == 0 || n < mp) { r.v = {bg}; return r; } double sr = 0; for(auto& p : R) sr += p.second;
    std::set<std::pair<int, int>> cuts; for(double e : {-1e-4, 1e-4}) for(double f : {-1e-4, 1e-4}) cuts.insert({std::max(0, (int)floor(n * (double)q0 + e)), std::min(n, (int)floor(n * (double)q1 + f))});
    for(auto& c : cuts) { if(c.second <= c.first) { r.ok = false; return r; } auto A = R, B = F; std::sort(A.begin(), A.end()); std::sort(B.begin(), B.end());
        // the order of equal values with different weights is unspecified where it matters
        auto amb = [&](std::vector<std::pair<double, double>>& V) { for(int k : {c.first, c.second}) if(k > 0 && k < n && V[k - 1].first == V[k].first && V[k - 1].second != V[k].second) return true; for(int k = 0; k + 1 < n; k++) if(V[k].first > 0 && V[k].first == V[k + 1].first && V[k].second != V[k + 1].second) return true; return false; }; if(amb(A) || amb(B)) { r.ok = false; return r; }
        std::vector<double> x{0}, xq{0}, y{0}, yq{0}; double sx = 0, sy = 0; for(int k = c.first; k < c.second; k++) { sx += B[k].second; x.push_back(B[k].first); xq.push_back(sx); sy += A[k].second; y.push_back(A[k].first); yq.push_back(sy); } for(size_t k = 1; k < x.size(); k++) { xq[k] = q0 + xq[k] / sx * ((double)q1 - q0); yq[k] = q0 + yq[k] / sy * ((double)q1 - q0); }
        double v; if(bg < 0.01) v = 0; else if(y.back() <= 0 && fabs(bg - 3 * x.back()) < 1e-4) { r.ok = false; return r; } else if(y.back() <= 0) v = bg < 3 * x.back() || bg < 0.1 ? 0 : bg; else if(bg >= x.back()) v = bg + y.back() - x.back(); else { double q = rinterp(bg, x, xq), m = rinterp(q, yq, y), w = 1 - exp(-0.01 * sr); for(size_t k = 0; k < yq.size(); k++) if(fabs(yq[k] - q) < 1e-6 && k + 1 < yq.size() && yq[k + 1] - yq[k] < 1e-6) { r.ok = false; return r; } v = w * m + (1 - w) * bg; } r.v.push_back(v); }
    return r;
}
static const double LY[] = {0, 0.8, 1.9, 40}, LX[] = {0.3, -0.9, 1.1, 40};
static StructureFunctionPtr make(int k) { switch(k) { case 0: return std::make_shared<BarnesStructure>(1500, 200, 0, 2900); case 1: return std::make_shared<CressmanStructure>(2600, 60, 0); default: { BarnesStructure b(1000); CrossValidation cv(b, 1000); return cv.clone(); } } }
static void ldc(bool full) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.009; int nT = mc::range(1, 2), nS = full ? mc::range(0, mc::thorough() ? 4 : 3) : mc::pick({5, 4}), k = mc::choose(3), mp = mc::pick({0, 2, 5}); static const std::vector<std::pair<float, float>> qs = {{0, 1}, {0, 0.9f}, {0.25f, 0.75f}, {0.1f, 0.9f}}; auto q = mc::pick(qs); mc::budget(full ? (nS * nT > 2 ? 2 : 3) : mc::thorough() ? 2 : 1);
    vec la, lo, el; vec2 ob(nT), fc(nT); for(int i = 0; i < nS; i++) { int p = (i + mc::dev(4)) % 4; la.push_back(LY[p] * u + 0.013 * i * u); lo.push_back(LX[p] * u); el.push_back(i % 2 ? 150 : 90); }
    for(int a = 0; a < nT; a++) for(int i = 0; i < nS; i++) { float o = 1.3f * (i + 1) - 0.4f * a, f = 0.7f * (i * 3 % 4 + 1) + 1.13f * a + 0.05f * i; int d = mc::dev(9); if(d == 1) o = 0; if(d == 2) o = NANF; if(d == 3) o = -1; if(d == 4) f = 0; if(d == 5) f = NANF; if(d == 6) f = -0.5f; if(d == 7) o = INFF; if(d == 8) f = INFF; ob[a].push_back(o); fc[a].push_back(f); }
    bool dry = mc::dev(2); if(dry) for(auto& r : ob) for(float& x : r) x = x > 0 ? 0 : x; vec2 by{{0, (float)u}, {(float)(0.4 * u), (float)(-60 * u)}}, bx{{0, 0}, {(float)u, 0}}, be{{100, 100}, {120, 100}}, bg(2, vec(2)); for(auto& r : bg) for(float& x : r) x = full ? 0 : 1; bg[0][0] = mc::pick({1.f, 0.f, 0.05f, 2.1f, 4.f, 30.f}); bg[0][1] = mc::pickdev(std::vector<float>{1.7f, NANF, 0.7f}); bg[1][0] = 0.9f; bg[1][1] = mc::pickdev(std::vector<float>{0.05f, 5.f, 0.f});
    NV(t); NV(k); NV(mp); NV(q.first); NV(q.second); NV(la); NV(lo); NV(ob); NV(fc); NV(bg); Points P(la, lo, el, {}, t); Grid G(by, bx, be, {}, t); auto s = make(k); mc::op(); mc::site("local_distribution_correction"); vec2 r = local_distribution_correction(G, bg, P, ob, fc, *s, q.first, q.second, mp); mc::check(r.size() == 2 && r[0].size() == 2 && r[1].size() == 2, "ldc-shape");
    if(nT == 1) { mc::op(); vec2 r1 = local_distribution_correction(G, bg, P, ob[0], fc[0], *s, q.first, q.second, mp); for(int y = 0; y < 2; y++) for(int x = 0; x < 2; x++) mc::check(same(r[y][x], r1[y][x]), "ldc-single-time"); }
    for(int y = 0; y < 2; y++) { mc::outcome_of(r[y]); for(int x = 0; x < 2; x++) { Point p = G.get_point(y, x); if(!clear_edges(p, P, *s)) continue; double loc = s->localization_distance(p); std::vector<std::pair<double, double>> R, F;
        for(int i = 0; i < nS; i++) { if(chord(la[i], lo[i], p.lat, p.lon, t) > loc) continue; double c = s->corr_background(p, P.get_point(i)); if(!(c > 0)) continue; for(int a = 0; a < nT; a++) if(valid(ob[a][i]) && valid(fc[a][i]) && ob[a][i] >= 0 && fc[a][i] >= 0) { R.push_back({ob[a][i], c}); F.push_back({fc[a][i], c}); } }
        Ldc w = correct(bg[y][x], R, F, q.first, q.second, mp); if(!w.ok) continue; bool ok = false; for(double v : w.v) ok = ok || close(r[y][x], v, 2e-4 * (1 + fabs(v))); mc::check(ok, R.empty() ? "ldc-uninfluenced" : "ldc", mc::fmt("cell %d %d: %g want %g (%d pairs)", y, x, r[y][x], w.v[0], (int)R.size())); } }
}
MC_HARNESS(ldc_small) { ldc(true); }
MC_HARNESS(ldc_large) { ldc(false); }
MC_HARNESS(ldc_bad) {
    int bad = mc::choose(11); vec2 bg(1, vec(2, 1)), o(2, vec(3, 1)), f = o; float q0 = 0, q1 = 1; Grid G({{0, 1}}, {{0, 1}}); Points P({0, 1, 2}, {0, 1, 2}); switch(bad) { case 0: bg.clear(); break; case 1: bg[0].pop_back(); break; case 2: bg.push_back(bg[0]); break; case 3: o.pop_back(); break; case 4: o[0].pop_back(); break; case 5: f[1].pop_back(); break; case 6: q0 = -0.1f; break; case 7: q1 = 1.1f; break; case 8: q0 = 0.6f; q1 = 0.4f; break; case 9: q0 = NANF; break; case 10: f.clear(); break; }
    NV(bad); mc::op(); mc::check(mc::throws([&] { local_distribution_correction(G, bg, P, o, f, BarnesStructure(1e6), q0, q1, 0); }), "ldc-bad");
}
// ---- neighbourhood_score
static const Metric MET[] = {Ets, Ts, Pc, Kss, Bias, Hss};
static double score(int a, int b, int c, int d, Metric m) { double n = a + b + c + d, ar = n ? (a + b) * (double)(a + c) / n : 0; switch(m) {
    case Ets: return n == 0 || a + b + c - ar == 0 ? NAN : (a - ar) / (a + b + c - ar); case Ts: return a + b + c ? a / (double)(a + b + c) : NAN; case Pc: return n ? (a + d) / n : NAN; case Kss: return (a + c) * (b + d) ? (a * d - b * c) / (double)((a + c) * (b + d)) : NAN;
    case Bias: return b == c ? 1 : 1 - abs(b - c) / (double)(b + c); default: { double q = (a + c) * (double)(c + d) + (a + b) * (double)(b + d); return q ? 2. * (a * d - b * c) / q : NAN; } } }
MC_HARNESS(nscore) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; float u = t == Cartesian ? 100 : 1; static const std::vector<std::pair<int, int>> shapes = {{2, 3}, {1, 4}, {3, 1}, {1, 1}}; auto sh = mc::pick(shapes); int Y = sh.first, X = sh.second, h = mc::range(1, 2), n = mc::range(0, mc::thorough() ? 5 : 4); mc::budget(mc::thorough() ? 3 : n < 3 ? 3 : n == 3 ? 2 : 1); vec2 la(Y, vec(X)), lo = la, f = la; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[y][x] = u * y; lo[y][x] = u * x + 3 * u; f[y][x] = mc::pickdev(std::vector<float>{(y + x) % 2 ? 2.f : 0.f, 1.f, NANF, 1.5f}); }
    vec pa, po, ref; for(int i = 0; i < n; i++) { int c = (i * 2 + mc::dev(3)) % (X * Y); pa.push_back(la[c / X][c % X] + u * (0.1f * i - 0.2f)); po.push_back(lo[c / X][c % X] + 0.15f * u); ref.push_back(mc::pick({2.f, 0.f, 1.f, NANF, INFF})); }
    float th = 1; NV(t); NV(f); NV(pa); NV(po); NV(ref); NV(h); Grid G(la, lo, {}, {}, t); Points P(pa, po, {}, {}, t); std::vector<std::vector<std::vector<double>>> cell(Y, std::vector<std::vector<double>>(X)); for(int i = 0; i < n; i++) { double best = 1e30; int by = 0, bx = 0; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { double d = chord(la[y][x], lo[y][x], pa[i], po[i], t); if(d < best) { best = d; by = y; bx = x; } } cell[by][bx].push_back(ref[i]); }
    for(Metric m : MET) { mc::op(); mc::site("neighbourhood_score"); vec2 r = neighbourhood_score(G, P, f, ref, h, m, th); mc::check((int)r.size() == Y && (int)r[0].size() == X, "score-shape");
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { int a = 0, b = 0, c = 0, d = 0; for(int i = std::max(0, y - h); i <= std::min(Y - 1, y + h); i++) for(int j = std::max(0, x - h); j <= std::min(X - 1, x + h); j++) { double o = rstat(cell[i][j], Mean); if(!valid(o) || !valid(f[i][j])) continue; bool F = f[i][j] > th, O = o > th; a += F && O; b += F && !O; c += !F && O; d += !F && !O; } double w = score(a, b, c, d, m); if(m == Bias && a + b + c + d == 0) continue; mc::check(close(r[y][x], w, 1e-5), mc::fmt("score-%d", (int)m), mc::fmt("cell %d %d: %g want %g (table %d %d %d %d)", y, x, r[y][x], w, a, b, c, d)); } mc::outcome_of(r[0]); }
}
MC_HARNESS(nscore_bad) {
    int bad = mc::choose(7); vec2 f(1, vec(2, 1)); vec r(3, 1); int h = 1; Grid G({{0, 1}}, {{0, 1}}); Points P({0, 1, 2}, {0, 1, 2}); switch(bad) { case 0: f.clear(); break; case 1: f[0].pop_back(); break; case 2: f.push_back(f[0]); break; case 3: r.pop_back(); break; case 4: r.push_back(1); break; case 5: h = 0; break; case 6: h = -1; break; }
    NV(bad); mc::op(); mc::check(mc::throws([&] { neighbourhood_score(G, P, f, r, h, Ets, 1); }), "score-bad");
}
// search fields of realistic size
MC_HARNESS(search_sizes) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 60}, {40, 1}, {17, 23}}; auto sh = mc::pick(shapes); int h = mc::pick({0, 1, 3, 8, 60}), p = mc::choose(3), miss = mc::choose(2), ma = mc::choose(2); float d = mc::pick({0.f, 0.11f, 5.f}); auto t = mc::pick(std::vector<std::pair<float, float>>{{0.7f, 0.9f}, {0, 0.1f}, {2, 3}}); vec2 a(sh.first, vec(sh.second)), s = a; ivec2 ap; if(ma) ap.assign(sh.first, ivec(sh.second, 1));
    for(int y = 0; y < sh.first; y++) for(int x = 0; x < sh.second; x++) { a[y][x] = miss && (y + x * 3) % 5 == 1 ? NANF : y * 3 + x * 2 + (y * x) % 4; s[y][x] = miss && (y * 3 + x) % 7 == 2 ? NANF : p == 0 ? (y * 7 + x * 11) % 64 / 64.f : p == 1 ? (x > sh.second / 2) * 0.8f : (x % 8 == 0) * 0.75f + (y % 4) / 64.f; if(ma) ap[y][x] = (y + x) % 3 != 0; }
    NV(sh.first); NV(sh.second); NV(h); NV(p); NV(miss); NV(ma); NV(d); NV(t.first); judge_search(a, s, h, t.first, t.second, d, ap);
}
MC_MAIN
