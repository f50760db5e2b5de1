// P29: calibrators of the command-line client that combine cells: temporal windows, accumulation, spatial neighbourhoods, masks and
// overrides. The values of all cells that matter are enumerated over alphabets with missing values, for all options of a small domain,
// and every cell is compared with a computation over the prescribed cells.
#include "cal.h"
#include <algorithm>
using namespace cal;
namespace {
typedef std::vector<float> V;
static const char* ST[] = {"mean", "min", "max", "sum", "std", "median", "quantile", "variance9"};
// the statistic of the valid values, in double precision
double stat(const VD& a, int s, double q) {
    VD v; for(double x : a) if(valid(x)) v.push_back(x); int n = v.size(); if(!n) return MV; double t = 0; for(double x : v) t += x;
    if(s == 0) return t / n; if(s == 3) return t; if(s == 4) { double m = t / n, r = 0; for(double x : v) r += (x - m) * (x - m); return sqrt(r / n); }
    std::sort(v.begin(), v.end()); if(s == 1) return v[0]; if(s == 2) return v[n - 1]; double p = (s == 5 ? 0.5 : q) * (n - 1); int i = std::min((int)floor(p), n - 1), j = std::min(i + 1, n - 1); return v[i] + (v[j] - v[i]) * (p - i);
}
}
MC_HARNESS(window) {
    int nt = mc::range(1, mc::thorough() ? 6 : 5); World w(1, 2, 2, nt); static const float A[] = {1, MV, 4, NAN, -2.5f}; int na = nt <= 3 ? 5 : nt == 4 ? 4 : 3; std::vector<double> v(nt); for(int t = 0; t < nt; t++) v[t] = A[mc::choose(na)]; NOTE_(vs(v));
    w.set("v", [&](int t, int e, int y, int x) { return x == 1 && e == 1 ? v[t] : x == 0 && e == 1 ? v[nt - 1 - t] : t * t + 10 * x; });
    int len = mc::range(0, nt + 2), before = mc::choose(2), s = mc::choose(8), keep = mc::choose(2), edge = mc::choose(3), qi = mc::choose(4); NV(len); NV(before); NV(s); NV(keep); NV(edge); NV(qi); if(s != 6 && qi) mc::skip(); if((s == 7 || edge == 2 || len == 0) && before + keep) mc::skip(); static const double Q[] = {0.3, 0, 1, 1.2};
    std::string o = mc::fmt("length=%d before=%d stat=%s keepMissing=%d", len, before, ST[s], keep) + (s == 6 ? mc::fmt(" quantile=%g", Q[qi]) : "") + (edge == 1 ? " edgePolicy=missing" : edge == 2 ? " edgePolicy=wrap" : ""); bool bad = s == 7 || edge == 2 || len < 1 || (s == 6 && qi == 3);
    bool ok = w.run("window", "v", o); mc::check(ok == !bad, "window-rejected", ok ? "accepted: " + o : "rejected: " + o); if(!ok || bad) { w.others("window", ""); return; }
    w.check("window", "v", [&](int t, int e, int y, int x) -> VD { int a = before ? t - len + 1 : t - (len - 1) / 2, b = a + len - 1; VD u; bool full = a >= 0 && b < nt, miss = false; for(int k = std::max(a, 0); k <= std::min(b, nt - 1); k++) { u.push_back(w.old("v", k, e, y, x)); miss = miss || !valid(u.back()); } if((edge == 1 && !full) || (keep && miss)) return {MV}; return {stat(u, s, Q[qi])}; });
}
MC_HARNESS(accumulate) {
    int nt = mc::range(1, mc::thorough() ? 6 : 5); World w(1, 2, 2, nt); static const float A[] = {1, MV, 0.25f, 3, NAN}; std::vector<double> v(nt); for(int t = 0; t < nt; t++) v[t] = A[mc::choose(nt <= 4 ? 5 : 4)]; NOTE_(vs(v));
    w.set("v", [&](int t, int e, int y, int x) { return x == 1 && e == 1 ? v[t] : x == 0 && e == 1 ? v[nt - 1 - t] : t * t + 10 * x; }); int mode = mc::choose(3), win = mc::range(-1, 3); NV(mode); NV(win); if(mode == 0 && win != 1) mc::skip();
    std::string o = mc::choose(2) && win == 1 ? "" : mc::fmt("window=%d", win);
    if(mode == 0) { mc::check(w.run("accumulate", "v", ""), "accumulate-rejected", "rejected"); w.check("accumulate", "v", [&](int t, int e, int y, int x) -> VD { double s = 0; for(int k = 1; k <= t; k++) { double c = w.old("v", k, e, y, x); if(!valid(c)) return {MV}; s += c; } return {s}; }); return; }
    if(mode == 1) { bool ok = w.run("deaccumulate", "v", o); mc::check(ok == (win >= 0), "deaccumulate-rejected", ok ? "accepted" : "rejected"); if(!ok || win < 0) { w.others("deaccumulate", ""); return; } w.check("deaccumulate", "v", [&](int t, int e, int y, int x) -> VD { if(t < win) return {MV}; double a = w.old("v", t, e, y, x), b = w.old("v", t - win, e, y, x); return {valid(a) && valid(b) ? a - b : MV}; }); return; }
    if(win != 1) mc::skip(); mc::check(w.run("accumulate", "v", "") && w.run("deaccumulate", "v", o), "roundtrip-rejected", "rejected");
    w.check("roundtrip", "v", [&](int t, int e, int y, int x) -> VD { if(t == 0) return {MV}; for(int k = 1; k <= t; k++) if(!valid(w.old("v", k, e, y, x))) return {MV}; return {w.old("v", t, e, y, x)}; });
}
namespace {
void neighbourhood(int ny, int nx, const VD& v, int r, int s, double q, int fast, int approx, int par) {
    World w(ny, nx); w.set("v", [&](int t, int e, int y, int x) { double c = v[y * nx + x]; return t + e == 2 ? c : t == 0 && e == 1 ? v[(ny - 1 - y) * nx + nx - 1 - x] : y + 3 * x + t; });
    std::string o = (par ? mc::fmt("radius=%d", (r + 1) % 3) : mc::fmt("radius=%d", r)) + mc::fmt(" stat=%s fast=%d approx=%d", ST[s], fast, approx) + (s == 6 ? mc::fmt(" quantile=%g", q) : ""); NOTE_(o + mc::fmt(" par=%d ", par) + vs(v));
    Table p; if(par) p.fill(par == 5 ? 2 : par == 2 ? 1 : 0, w, 2, [&](int t, int l) { return V{par == 3 ? MV : par == 4 ? -2 : (float)(par == 2 ? (r + 1 - t) % 3 : r)}; });
    bool bad = r < 0 || s == 7 || (s == 6 && (q < 0 || q > 1)) || par >= 3; bool ok = w.run("neighbourhood", "v", o, par ? &p : NULL); mc::check(ok == !bad, "neighbourhood-rejected", ok ? "accepted" : "rejected"); if(!ok || bad) { w.others("neighbourhood", ""); return; }
    w.check("neighbourhood", "v", [&](int t, int e, int y, int x) -> VD {
        int R = par == 2 ? (r + 1 - t) % 3 : r; VD u; bool miss = false; double big = 0; for(int i = std::max(0, y - R); i <= std::min(ny - 1, y + R); i++) for(int j = std::max(0, x - R); j <= std::min(nx - 1, x + R); j++) { u.push_back(w.old("v", t, e, i, j)); if(valid(u.back())) big = std::max(big, std::fabs(u.back())); } for(int i = 0; i < ny; i++) for(int j = 0; j < nx; j++) miss = miss || !valid(w.old("v", t, e, i, j));
        double want = stat(u, s, q), g = w.got("v", t, e, y, x);
        if(approx && !miss && (s == 5 || s == 6)) { mc::check(valid(g) && g >= stat(u, 1, 0) - 1e-4 && g <= stat(u, 2, 0) + 1e-4, "neighbourhood-approx", mc::fmt("cell %d,%d: %g is outside the range of the neighbourhood", y, x, g)); if(q == 0 || q == 1 || R == 0) return {want}; return {}; }
        if(valid(want) && big > 1e5) { mc::check(std::fabs(g - want) <= 1e-5 * big * (s == 4 ? 100 : 1), "neighbourhood", mc::fmt("time %d member %d cell %d,%d want %.9g got %.9g", t, e, y, x, want, g)); return {}; }
        return {want};
    });
}
const double Q[] = {0.3, 0, 1, -0.1, 0.7};
}
// all patterns on small grids
MC_HARNESS(neighbourhood) {
    static const int S[][2] = {{1, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}}; int k = mc::choose(6), ny = S[k][0], nx = S[k][1], n = ny * nx, r = mc::range(-1, 2), s = mc::choose(8), q = mc::choose(4), fast = mc::choose(2), approx = mc::choose(2); if(s != 6 && q) mc::skip(); if(s != 5 && s != 6 && approx) mc::skip(); if((r < 0 || s == 7) && (fast || approx || k > 1)) mc::skip();
    static const float A[] = {MV, 1, -2.5f, 7, 0, NAN}; int na = n == 1 ? 6 : n == 3 ? 5 : n == 4 ? 4 : mc::thorough() ? 4 : 3; VD v(n); for(int i = 0; i < n; i++) v[i] = A[mc::choose(na)]; neighbourhood(ny, nx, v, r, s, Q[q], fast, approx, 0);
}
// larger grids and larger differences in magnitude with few deviations from a pattern
MC_HARNESS(neighbourhood2) {
    static const int S[][2] = {{3, 4}, {5, 3}, {3, 5}, {1, 6}, {5, 5}}; int k = mc::choose(5); mc::budget((k == 0) + (mc::thorough() ? 3 : 2)); int s = mc::choose(7), ny = S[k][0], nx = S[k][1], r = mc::pickdev(std::vector<int>{1, 2, 0, 3}), fast = !mc::dev(2), approx = s >= 5 ? mc::dev(2) : 0, q = s == 6 ? mc::pickdev(std::vector<int>{0, 1, 2, 3, 4}) : 0, par = mc::dev(6);
    VD v(ny * nx); for(int i = 0; i < ny * nx; i++) v[i] = mc::pickdev(std::vector<double>{(i * 7 % 5) * 0.5 - 1, MV, 30, 1e9}); neighbourhood(ny, nx, v, r, s, Q[q], fast, approx, par);
}
MC_HARNESS(mask) {
    World w(2, 3); static const float A[] = {MV, 1, 5, NAN}; int k = mc::choose(4); NV(k); w.set("v", [&](int t, int e, int y, int x) { return A[(k + t + e + y * 2 + x) % 4]; }); int keep = mc::choose(3), kind = mc::range(0, 3), hole = mc::choose(3); NV(keep); NV(kind); NV(hole); if(hole == 1) w.la[1][1] = NAN; if(hole == 2) w.lo[0][0] = NAN; if(hole) { w.f->setLats(w.la); w.f->setLons(w.lo); }
    static const float R[] = {0, 6000, 12000, 30000, MV, NAN}; int c[4]; for(int i = 0; i < (kind == 3 ? 4 : 2); i++) { c[i] = mc::choose(6); NV(c[i]); } World plain(2, 3); Table p; p.fill(kind, plain, 2, [&](int t, int l) { return V{R[c[kind == 3 ? 2 * t + l : kind == 1 ? t : l]]}; });
    bool ok = w.run("mask", "v", keep == 0 ? "" : mc::fmt("keep=%d", keep - 1), &p); mc::check(ok == (kind >= 2), "mask-rejected", ok ? "accepted parameters without locations" : "rejected"); if(!ok) { w.others("mask", ""); return; } bool kp = keep != 1;
    w.check("mask", "v", [&](int t, int e, int y, int x) -> VD { bool in = false, edge = false; for(int l = 0; l < 2; l++) { double rad = R[c[kind == 3 ? 2 * t + l : l]], la = w.la[y][x], lo = w.lo[y][x]; if(!valid(rad) || !valid(la) || !valid(lo)) continue; double D = M_PI / 180, a = sin((p.loc[l].lat() - la) * D / 2), b = sin((p.loc[l].lon() - lo) * D / 2), d = 2 * 6.378137e6 * asin(sqrt(a * a + cos(la * D) * cos(p.loc[l].lat() * D) * b * b)); if(std::fabs(d - rad) < 5 + 0.002 * d) edge = true; else if(d < rad) in = true; } double v = w.old("v", t, e, y, x); if(edge && !in) return {v, MV}; return {in == kp ? v : MV}; }, 0);
}
MC_HARNESS(override) {
    mc::budget(mc::thorough() ? 4 : 3); static const int S[][2] = {{4, 4}, {3, 3}, {5, 3}, {1, 4}}; int k = mc::dev(4), ny = S[k][0], nx = S[k][1]; World w(ny, nx); w.set("v", [](int t, int e, int y, int x) { return (t + y + x) % 5 == 4 ? (double)MV : 100 * t + 10 * e + y + 0.1 * x; });
    vec2 el = w.el; for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) el[y][x] = mc::pickdev(std::vector<float>{100.25f * y + 10.5f * x, MV, 500}); w.elevs(el); int rad = mc::pickdev(std::vector<int>{0, 1, 2}), me = mc::pickdev(std::vector<int>{-1, 0, 1, 2}); NV(rad); NV(me); static const float ME[] = {0.5f, 60, 150};
    static const double PO[][2] = {{1, 1}, {1.2, 2.1}, {1.9, 1.1}, {0, 1}, {2.6, 1.2}, {1, 3.2}, {-30, 2}}; int np = mc::range(1, 3); NV(np); std::vector<Location> loc; std::vector<std::vector<double> > val(2); int td = mc::dev(2); NV(td); Table p; p.kind = 2;
    for(int i = 0; i < np; i++) { int a = mc::dev(7); a = (a + i) % 7; NV(a); float e = mc::pickdev(std::vector<float>{111, 110.5f, MV, 400}); NV(e); Location l(60 + 0.1 * PO[a][0], 10 + 0.2 * PO[a][1], e); bool dup = false; for(auto& m : loc) dup = dup || (m.lat() == l.lat() && m.lon() == l.lon()); if(dup) mc::skip(); loc.push_back(l); for(int t = 0; t < 1 + td; t++) { double v = mc::pickdev(std::vector<double>{1000. + 10 * i + t, MV, NAN, 0}); NV(v); val[t].push_back(v); p.setParameters(V{(float)v}, t, l); } } p.recomputeTree(); int q = mc::dev(3); NV(q);
    Table none, two; none.setParameters(V{3}, 0); for(auto& l : loc) two.setParameters(V{3, 4}, 0, l); two.recomputeTree();
    bool ok = w.run("override", "v", mc::fmt("radius=%d", rad) + (me >= 0 ? mc::fmt(" maxElevDiff=%g", ME[me]) : ""), q == 1 ? &none : q == 2 ? &two : &p); mc::check(ok == !q, "override-rejected", ok ? "accepted" : "rejected"); if(!ok || q) { w.others("override", ""); return; }
    w.check("override", "v", [&](int t, int e, int y, int x) -> VD {
        VD r; bool must = false; double v0 = w.old("v", t, e, y, x); for(int i = 0; i < np; i++) { double v = val[td ? t : 0][i]; if(!valid(v)) continue; // candidate nearest grid points
            double best = INFINITY; for(int b = 0; b < ny; b++) for(int a = 0; a < nx; a++) best = std::min(best, hypot(w.la[b][a] - loc[i].lat(), (w.lo[b][a] - loc[i].lon()) * 0.5)); bool all = true, any = false;
            for(int b = 0; b < ny; b++) for(int a = 0; a < nx; a++) if(hypot(w.la[b][a] - loc[i].lat(), (w.lo[b][a] - loc[i].lon()) * 0.5) <= best + 1e-3) { bool inside = b > 0 && b < ny - 1 && a > 0 && a < nx - 1 && std::abs(b - y) <= rad && std::abs(a - x) <= rad && (me < 0 || (valid(el[y][x]) && valid(loc[i].elev()) && std::fabs(el[y][x] - loc[i].elev()) < ME[me])); any = any || inside; all = all && inside; }
            if(any) r.push_back(v); if(any && all) must = true; }
        if(!must) r.push_back(v0); return r; }, 1e-6);
}
MC_MAIN
