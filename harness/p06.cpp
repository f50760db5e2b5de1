#include "gp.h"
using namespace gp;
struct G { vec2 la, lo, el; int Y, X; CoordinateType t; };
// grid layouts: regular geodetic, fine geodetic, Cartesian, irregular
static G grid(int kind, int Y, int X) {
    G g; g.Y = Y; g.X = X; g.t = kind == 2 ? Cartesian : Geodetic;
    g.la.assign(Y, vec(X)); g.lo = g.la; g.el = g.la;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        if(kind == 0) { g.la[y][x] = 59 + y; g.lo[y][x] = 10 + x; }
        else if(kind == 1) { g.la[y][x] = 70 - 0.01f * y; g.lo[y][x] = 179.99f + 0.02f * x; }
        else if(kind == 2) { g.la[y][x] = 1000 * y; g.lo[y][x] = 1500 * x; }
        else { g.la[y][x] = 59 + y + 0.3f * x; g.lo[y][x] = 10 + x - 0.2f * y; }
        g.el[y][x] = ((y * 3 + x * 5) % 4) * 100;
    }
    return g;
}
static double cell(const G& g) { return g.t == Cartesian ? 1000 : chord(g.la[0][0], g.lo[0][0], g.la.back().back(), g.lo.back().back(), g.t) / std::max(1.0, hypot(g.Y - 1, g.X - 1)); }
struct Pt { double la, lo, el; };
static Pt point(const G& g, int k) {
    int y = k % g.Y, x = (k / g.Y) % g.X; float dy = g.Y > 1 ? g.la[1][0] - g.la[0][0] : (g.t == Cartesian ? 1000 : 0.01f), dx = g.X > 1 ? g.lo[0][1] - g.lo[0][0] : dy;
    int off = mc::choose(3); float fy = off == 0 ? 0.05f : off == 1 ? 0.37f : -1.7f, fx = off == 0 ? 0.03f : off == 1 ? 0.22f : 2.3f;
    return {(float)(g.la[y][x] + fy * dy), (float)(g.lo[y][x] + fx * dx), mc::pick({0.f, 150.f, NANF})};
}
static Points mk(const std::vector<Pt>& p, CoordinateType t) { vec a, b, c; for(auto q : p) { a.push_back(q.la); b.push_back(q.lo); c.push_back(q.el); } return Points(a, b, c, vec(), t); }
// -1 undecided (at the edge), 0 outside, 1 inside
static int in(const G& g, int y, int x, const Pt& p, double r) {
    double d = chord(g.la[y][x], g.lo[y][x], p.la, p.lo, g.t), tol = g.t == Cartesian ? 1e-3 : 3;
    return d < r - tol ? 1 : d > r + tol ? 0 : -1;
}
static void cmp(const vec2& got, const vec2& want, const vec2& und, const char* tag) {
    mc::check(got.size() == want.size(), tag);
    for(size_t y = 0; y < want.size(); y++) { mc::check(got[y].size() == want[y].size(), tag); for(size_t x = 0; x < want[y].size(); x++) if(!und[y][x]) mc::check(close(got[y][x], want[y][x], 0), tag, mc::fmt("cell %zu,%zu: %g want %g", y, x, got[y][x], want[y][x])); }
    mc::outcome_of(got);
}
MC_HARNESS(circles) {
    int kind = mc::choose(4), sh = mc::choose(3); G g = grid(kind, sh == 0 ? 1 : sh == 1 ? 3 : 2, sh == 0 ? 4 : sh == 1 ? 3 : 5);
    int n = mc::range(0, 2); std::vector<Pt> P; vec radii, obs;
    for(int i = 0; i < n; i++) { P.push_back(point(g, i == 0 ? 0 : mc::choose(g.Y * g.X))); radii.push_back(cell(g) * mc::pick({0.5, 1.2, 2.7, 1000.})); obs.push_back(i == 0 ? -5 : mc::pick({7.f, NANF})); }
    vec2 f(g.Y, vec(g.X)); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) f[y][x] = (y + x) % 3 == 2 ? NANF : 10 * y + x;
    NV(kind); NV(g.Y); NV(radii); NV(obs);
    Grid G_(g.la, g.lo, g.el, vec2(), g.t); Points Q = mk(P, g.t);
    for(int outside = 0; outside < 2; outside++) {
        mc::op(); mc::site("fill"); vec2 got = fill(G_, f, Q, radii, 99, outside);
        vec2 want = f, und(g.Y, vec(g.X, 0));
        for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { int any = 0; for(int i = 0; i < n; i++) { int s = in(g, y, x, P[i], radii[i]); if(s < 0) und[y][x] = 1; if(s > 0) any = 1; } if(any) und[y][x] = 0; want[y][x] = (any != 0) != (outside != 0) ? 99 : f[y][x]; }
        cmp(got, want, und, outside ? "fill-outside" : "fill-inside");
    }
    for(float lim : {NANF, 0.f, 50.f, 150.f, 250.f}) {
        mc::op(); mc::site("doping_circle"); vec2 got = doping_circle(G_, f, Q, obs, radii, lim);
        vec2 want = f, und(g.Y, vec(g.X, 0));
        for(int i = 0; i < n; i++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
            if(valid(lim) && fabs(P[i].el - g.el[y][x]) > lim) continue;
            int s = in(g, y, x, P[i], radii[i]); if(s < 0) und[y][x] = 1; else if(s > 0) { und[y][x] = 0; want[y][x] = obs[i]; }
        }
        cmp(got, want, und, "doping-circle");
    }
}
MC_HARNESS(squares) {
    int kind = mc::choose(4), sh = mc::choose(3); G g = grid(kind, sh == 0 ? 1 : sh == 1 ? 3 : 4, sh == 0 ? 4 : sh == 1 ? 3 : 2);
    int n = mc::range(0, 2); std::vector<Pt> P; vec obs; ivec hw;
    for(int i = 0; i < n; i++) { P.push_back(point(g, i == 0 ? 0 : mc::choose(g.Y * g.X))); hw.push_back(mc::pick({0, 1, 2, 7})); obs.push_back(i == 0 ? -5 : mc::pick({7.f, NANF})); }
    vec2 f(g.Y, vec(g.X)); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) f[y][x] = (y + x) % 3 == 2 ? NANF : 10 * y + x;
    NV(kind); NV(g.Y); NV(hw); NV(obs);
    Grid G_(g.la, g.lo, g.el, vec2(), g.t); Points Q = mk(P, g.t);
    std::vector<std::pair<int, int>> c; bool tie = false;
    for(auto& p : P) {
        double best = 1e30, second = 1e30; int by = 0, bx = 0;
        for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { double d = chord(g.la[y][x], g.lo[y][x], p.la, p.lo, g.t); if(d < best) { second = best; best = d; by = y; bx = x; } else second = std::min(second, d); }
        if(second - best < (g.t == Cartesian ? 1e-3 : 3)) tie = true;
        c.push_back({by, bx});
    }
    if(tie) mc::skip();
    for(float lim : {NANF, 0.f, 50.f, 150.f, 250.f}) {
        mc::op(); mc::site("doping_square"); vec2 got = doping_square(G_, f, Q, obs, hw, lim);
        vec2 want = f;
        for(int i = 0; i < n; i++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) {
            if(abs(y - c[i].first) > hw[i] || abs(x - c[i].second) > hw[i]) continue;
            if(valid(lim) && fabs(P[i].el - g.el[y][x]) > lim) continue;
            want[y][x] = obs[i];
        }
        cmp(got, want, vec2(g.Y, vec(g.X, 0)), "doping-square");
    }
}
static double dirfill(const std::vector<double>& v, int i) {
    if(valid(v[i])) return v[i];
    int a = i, b = i; while(a >= 0 && !valid(v[a])) a--; while(b < (int)v.size() && !valid(v[b])) b++;
    if(a < 0 || b >= (int)v.size()) return NAN;
    return v[a] + (v[b] - v[a]) * (i - a) / (b - a);
}
static void checkfm(const vec2& f) {
    mc::op(); mc::site("fill_missing"); vec2 got = fill_missing(f); int Y = f.size(), X = f[0].size(); vec2 want = f;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        if(valid(f[y][x])) { mc::check(got[y][x] == f[y][x], "fill_missing-valid-changed"); continue; }
        std::vector<double> r = D(f[y]), c; for(int k = 0; k < Y; k++) c.push_back(f[k][x]);
        double a = dirfill(r, x), b = dirfill(c, y), w = valid(a) && valid(b) ? (a + b) / 2 : valid(a) ? a : b;
        mc::check(close(got[y][x], w, 1e-4), "fill_missing", mc::fmt("cell %d,%d: %g want %g", y, x, got[y][x], w));
    }
    mc::outcome_of(got);
}
MC_HARNESS(gaps) {
    static const int S[][2] = {{1, 1}, {1, 7}, {7, 1}, {2, 4}, {4, 2}, {3, 3}, {1, 9}, {3, 4}, {4, 4}}; const int* s = S[mc::choose(mc::thorough() ? 9 : 8)];
    static const float V[] = {10, 30, -20, 40, 15, 0, 8, 100, -3}; vec2 f(s[0], vec(s[1]));
    for(int y = 0; y < s[0]; y++) for(int x = 0; x < s[1]; x++) { int k = y * s[1] + x; f[y][x] = mc::flip() ? NANF : V[(k * 2 + y) % 9] + k; }
    NV(f); checkfm(f);
}
MC_HARNESS(gaps_values) {
    int Y = mc::range(1, 2), X = mc::range(1, Y == 1 ? (mc::thorough() ? 7 : 6) : 3); vec2 f(Y, vec(X));
    for(auto& r : f) for(auto& v : r) v = mc::pick({NANF, INFF, 0.f, 6.f, -12.f});
    NV(f); checkfm(f);
}
// many points on a grid of realistic size
MC_HARNESS(sizes) {
    int kind = mc::choose(4), sh = mc::choose(3), n = mc::pick({9, 30}), sc = mc::choose(3), off = mc::choose(2); G g = grid(kind, sh == 0 ? 1 : sh == 1 ? 14 : 25, sh == 0 ? 60 : sh == 1 ? 19 : 6); Grid G_(g.la, g.lo, g.el, vec2(), g.t);
    vec a, o, e, radii, obs; ivec hw; vec2 f(g.Y, vec(g.X)); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) f[y][x] = (y + x) % 3 == 2 ? NANF : 10 * y + x; std::vector<std::pair<int, int>> c; std::vector<Pt> P; double u = cell(g);
    for(int i = 0; i < n; i++) { int y = (i * 7 + off) % g.Y, x = (i * 11 + 3 * off) % g.X; float dy = g.Y > 1 ? g.la[1][0] - g.la[0][0] : 0.01f, dx = g.X > 1 ? g.lo[0][1] - g.lo[0][0] : dy; P.push_back({(float)(g.la[y][x] + 0.21f * dy), (float)(g.lo[y][x] + 0.17f * dx), i % 5 == 4 ? NANF : 37.f * (i % 9)}); { double best = 1e30, second = 1e30; int by = 0, bx = 0; for(int yy = 0; yy < g.Y; yy++) for(int xx = 0; xx < g.X; xx++) { double d = chord(g.la[yy][xx], g.lo[yy][xx], P.back().la, P.back().lo, g.t); if(d < best) { second = best; best = d; by = yy; bx = xx; } else second = std::min(second, d); } if(second - best < (g.t == Cartesian ? 1e-3 : 3)) mc::skip(); c.push_back({by, bx}); } radii.push_back(u * (sc == 0 ? 0.5 + 0.1 * (i % 4) : sc == 1 ? 1.37 + 0.3 * (i % 3) : 3.3)); hw.push_back(sc * (1 + i % 3)); obs.push_back(i % 6 == 5 ? NANF : -i - 1); }
    NV(kind); NV(g.Y); NV(n); NV(sc); NV(off); Points Q = mk(P, g.t); std::vector<std::vector<std::vector<int>>> S(n, std::vector<std::vector<int>>(g.Y, std::vector<int>(g.X))); for(int i = 0; i < n; i++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) S[i][y][x] = in(g, y, x, P[i], radii[i]);
    for(int outside = 0; outside < 2; outside++) { mc::op(); mc::site("fill"); vec2 got = fill(G_, f, Q, radii, 99, outside), want = f, und(g.Y, vec(g.X, 0)); for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { int any = 0; for(int i = 0; i < n; i++) { int s = S[i][y][x]; if(s < 0) und[y][x] = 1; if(s > 0) any = 1; } if(any) und[y][x] = 0; if((any != 0) != (outside != 0)) want[y][x] = 99; } cmp(got, want, und, outside ? "fill-outside" : "fill-inside"); }
    for(float lim : {NANF, 0.f, 120.f}) {
        mc::op(2); mc::site("doping"); vec2 got = doping_circle(G_, f, Q, obs, radii, lim), want = f, und(g.Y, vec(g.X, 0));
        for(int i = 0; i < n; i++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) { if(valid(lim) && fabs(P[i].el - g.el[y][x]) > lim) continue; int s = S[i][y][x]; if(s < 0) und[y][x] = 1; else if(s > 0) { und[y][x] = 0; want[y][x] = obs[i]; } }
        cmp(got, want, und, "doping-circle");
        got = doping_square(G_, f, Q, obs, hw, lim); want = f;
        for(int i = 0; i < n; i++) for(int y = 0; y < g.Y; y++) for(int x = 0; x < g.X; x++) if(abs(y - c[i].first) <= hw[i] && abs(x - c[i].second) <= hw[i] && !(valid(lim) && fabs(P[i].el - g.el[y][x]) > lim)) want[y][x] = obs[i];
        cmp(got, want, vec2(g.Y, vec(g.X, 0)), "doping-square");
    }
}
// gaps of many lengths in fields of realistic size
MC_HARNESS(gaps_sizes) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 70}, {60, 1}, {20, 31}, {31, 20}, {12, 12}}; auto s = mc::pick(shapes); int p = mc::range(2, 13), q = mc::range(1, 5), b = mc::choose(2), keep = mc::choose(2); vec2 f(s.first, vec(s.second));
    for(int y = 0; y < s.first; y++) for(int x = 0; x < s.second; x++) { bool hit = (y * q + x * (b ? 3 : 1)) % p == 0; f[y][x] = hit == (keep == 0) ? (y * 17 + x * 29) % 37 - 11 : NANF; }
    NV(s.first); NV(s.second); NV(p); NV(q); NV(b); NV(keep); checkfm(f);
}
MC_MAIN
