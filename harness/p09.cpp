#include "gp.h"
using namespace gp;
struct G { vec2 la, lo, el, lf; };
static const float EL[] = {0, 100, 900, 350, 20, 1500, 700, 40, 60}, LF[] = {1, 0.5f, 0, 0.25f, 1, 0.75f, 0, 1, 0.9f};
static G mk(int Y, int X, float a0, float o0, float da, float dO, int ph) { G g{vec2(Y, vec(X)), vec2(Y, vec(X)), vec2(Y, vec(X)), vec2(Y, vec(X))}; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { g.la[y][x] = a0 + da * y; g.lo[y][x] = o0 + dO * x; g.el[y][x] = EL[(y * X + x + ph) % 9]; g.lf[y][x] = LF[(y * X + x + ph * 2) % 9]; } return g; }
static float& at(vec2& m, int i) { return m[i / m[0].size()][i % m[0].size()]; }
// Expected downscaled field with an independent nearest/bilinear (regular grid, so separable). Points outside: nearest.
static double down(const G& g, const vec2& f, double la, double lo, Downscaler d) {
    int Y = f.size(), X = f[0].size(); double u = (la - g.la[0][0]) / (Y > 1 ? g.la[1][0] - g.la[0][0] : 1), v = (lo - g.lo[0][0]) / (X > 1 ? g.lo[0][1] - g.lo[0][0] : 1);
    int ny = std::min(std::max(0, (int)floor(u + 0.5)), Y - 1), nx = std::min(std::max(0, (int)floor(v + 0.5)), X - 1);
    if(d == Nearest || Y < 2 || X < 2 || u < 0 || v < 0 || u > Y - 1 || v > X - 1) return f[ny][nx];
    int y = std::min((int)u, Y - 2), x = std::min((int)v, X - 2); double s = u - y, t = v - x; double a = f[y][x], b = f[y + 1][x], c = f[y][x + 1], e = f[y + 1][x + 1];
    if(!(valid(a) && valid(b) && valid(c) && valid(e))) return f[ny][nx];
    return a * (1 - s) * (1 - t) + b * s * (1 - t) + c * (1 - s) * t + e * s * t;
}
MC_HARNESS(gradients) {
    mc::budget(2); int sh = mc::choose(3); G g = mk(sh == 0 ? 2 : sh == 1 ? 3 : 1, sh == 0 ? 3 : sh == 1 ? 2 : 3, 50, 10, 0.5f, 0.5f, 0); int Y = g.la.size(), X = g.la[0].size();
    G o = mk(2, 3, 50.11f, 9.7f, 0.29f, 0.53f, 4); vec2 f(Y, vec(X)), ge = f, gl = f; int NI = Y * X;
    bool uze = mc::flip(), uzl = mc::flip();
    auto bad = [](int d, float v) { return d == 1 ? NANF : v; };
    for(int i = 0; i < NI; i++) { int y = i / X, x = i % X; at(f, i) = bad(mc::dev(2), 280 + 2 * y - 3 * x + (y * x)); at(g.el, i) = bad(mc::dev(2), at(g.el, i)); at(g.lf, i) = bad(mc::dev(2), at(g.lf, i)); int d = mc::dev(3); at(ge, i) = d == 1 ? NANF : d == 2 ? 0 : -0.0065f + 0.002f * i; d = mc::dev(3); at(gl, i) = d == 1 ? NANF : d == 2 ? 0 : 2.f - i; }
    for(int i = 0; i < 6; i++) { at(o.el, i) = bad(mc::dev(2), at(o.el, i)); at(o.lf, i) = bad(mc::dev(2), at(o.lf, i)); }
    Downscaler dn = mc::flip() ? Bilinear : Nearest; float sg = mc::pick({-0.0065f, 0.f, 0.01f});
    NV(f); NV(ge); NV(gl); NV(g.el); NV(g.lf); NV(o.el); NV(o.lf); NV(uze); NV(uzl); NV((int)dn);
    Grid I(g.la, g.lo, g.el, g.lf), O(o.la, o.lo, o.el, o.lf); vec a, b, c, d; for(int i = 0; i < 6; i++) { a.push_back(at(o.la, i)); b.push_back(at(o.lo, i)); c.push_back(at(o.el, i)); d.push_back(at(o.lf, i)); } Points P(a, b, c, d);
    vec2 f2 = f, ge2 = ge, gl2 = gl; for(int i = 0; i < NI; i++) { at(f2, i) = 5 - at(f, i); at(ge2, i) *= -2; at(gl2, i) += 1; }
    vec3 F = {f, f2}, GE = uze ? vec3{ge, ge2} : vec3(), GL = uzl ? vec3{gl, gl2} : vec3();
    std::vector<double> ws[2], wf[2], tl;
    for(int i = 0; i < 6; i++) for(int t = 0; t < 2; t++) {
        double la = a[i], lo = b[i], v = down(g, F[t], la, lo, dn), e = down(g, g.el, la, lo, dn), l = down(g, g.lf, la, lo, dn);
        ws[t].push_back(v + (c[i] - e) * sg); double r = v; if(uze && valid(c[i]) && valid(e)) r += down(g, GE[t], la, lo, dn) * (c[i] - e); if(uzl && valid(d[i]) && valid(l)) r += down(g, GL[t], la, lo, dn) * (d[i] - l); wf[t].push_back(r);
    }
    auto J = [&](const char* tag, const std::vector<double>& w, std::function<float(int)> get) { for(int i = 0; i < 6; i++) mc::check(close(get(i), w[i], 0.02), tag, mc::fmt("location %d: %.7g want %.7g", i, get(i), w[i])); };
    mc::op(9); mc::site("simple_gradient");
    { vec r = simple_gradient(I, P, f, sg, dn); mc::outcome_of(r); J("simple-points", ws[0], [&](int i) { return r[i]; }); }
    { vec2 r = simple_gradient(I, O, f, sg, dn); J("simple-grid", ws[0], [&](int i) { return at(r, i); }); }
    { vec2 r = simple_gradient(I, P, F, sg, dn); mc::check(r.size() == 2, "shape"); for(int t = 0; t < 2; t++) J("simple-points-stack", ws[t], [&](int i) { return r[t][i]; }); }
    { vec3 r = simple_gradient(I, O, F, sg, dn); mc::check(r.size() == 2, "shape"); for(int t = 0; t < 2; t++) J("simple-grid-stack", ws[t], [&](int i) { return at(r[t], i); }); }
    mc::site("full_gradient"); vec2 E = uze ? ge : vec2(), L = uzl ? gl : vec2();
    { vec r = full_gradient(I, P, f, E, L, dn); mc::outcome_of(r); J("full-points", wf[0], [&](int i) { return r[i]; }); }
    { vec2 r = full_gradient(I, O, f, E, L, dn); J("full-grid", wf[0], [&](int i) { return at(r, i); }); }
    { vec2 r = full_gradient(I, P, F, GE, GL, dn); mc::check(r.size() == 2, "shape"); for(int t = 0; t < 2; t++) J("full-points-stack", wf[t], [&](int i) { return r[t][i]; }); }
    { vec3 r = full_gradient(I, O, F, GE, GL, dn); mc::check(r.size() == 2, "shape"); for(int t = 0; t < 2; t++) J("full-grid-stack", wf[t], [&](int i) { return at(r[t], i); }); }
    { vec3 r = full_gradient_debug(I, O, f, E, L, dn); J("full-debug", wf[0], [&](int i) { return r[i / 3][i % 3][0]; });
      // the parts add up
      std::vector<double> w[9]; for(int i = 0; i < 6; i++) { double la = a[i], lo = b[i], v = down(g, f, la, lo, dn), e = uze ? down(g, g.el, la, lo, dn) : NAN, l = uzl ? down(g, g.lf, la, lo, dn) : NAN;
          double ce = uze && valid(c[i]) && valid(e) ? down(g, ge, la, lo, dn) * (c[i] - e) : 0, cl = uzl && valid(d[i]) && valid(l) ? down(g, gl, la, lo, dn) * (d[i] - l) : 0;
          double q[9] = {0, d[i] - l, c[i] - e, cl, ce, d[i], l, v + cl, v + ce}; for(int j = 1; j < 9; j++) w[j].push_back(q[j]); }
      for(int j = 1; j < 9; j++) J("full-debug-parts", w[j], [&](int i) { return r[i / 3][i % 3][j]; }); }
}
static void grad(const vec2& b, const vec2& v, int hw, int mn, float mr, float dg, double noise) {
    int Y = b.size(), X = b[0].size(); mc::op(2);
    mc::site("calc_gradient-minmax"); vec2 mm = calc_gradient(b, v, MinMax, hw, mn, mr, dg); mc::site("calc_gradient-regression"); vec2 lr = calc_gradient(b, v, LinearRegression, hw, mn, mr, dg); mc::outcome_of(mm); mc::outcome_of(lr);
    float b0 = NANF; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) if(!valid(b0) && valid(b[y][x]) && valid(v[y][x])) b0 = b[y][x];
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        std::vector<double> B, V; for(int i = std::max(0, y - hw); i <= std::min(Y - 1, y + hw); i++) for(int j = std::max(0, x - hw); j <= std::min(X - 1, x + hw); j++) if(valid(b[i][j]) && valid(v[i][j])) { B.push_back(b[i][j]); V.push_back(v[i][j]); }
        int n = B.size(); double mi = 1e30, ma = -1e30; for(double q : B) mi = std::min(mi, q), ma = std::max(ma, q);
        std::string where = mc::fmt("cell %d,%d: n %d base range %g", y, x, n, n ? ma - mi : 0.);
        if(n == 0 || n < mn || ma == mi || (valid(mr) && ma - mi <= mr)) mc::check(close(mm[y][x], dg, 0), "minmax-default", where + mc::fmt(" gives %g", mm[y][x]));
        else { bool okk = false; for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(B[i] == ma && B[j] == mi && close(mm[y][x], (V[i] - V[j]) / (ma - mi), 1e-4 * fabs((V[i] - V[j]) / (ma - mi)) + 1e-5)) okk = true; mc::check(okk, "minmax", where + mc::fmt(" gives %g", mm[y][x])); }
        double mb = 0, mv = 0; for(int i = 0; i < n; i++) mb += B[i] / n, mv += V[i] / n; double vb = 0, cv = 0; for(int i = 0; i < n; i++) vb += (B[i] - mb) * (B[i] - mb) / n, cv += (B[i] - mb) * (V[i] - mv) / n;
        if(n == 0 || n < mn || ma == mi) mc::check(close(lr[y][x], dg, 0), "regression-default", where + mc::fmt(" gives %g", lr[y][x]));
        else if(valid(mr) && fabs(sqrt(vb) - mr) < 1e-3 * (1 + mr)) continue;
        else if(valid(mr) && sqrt(vb) < mr) mc::check(close(lr[y][x], dg, 0), "regression-range", where + mc::fmt(" gives %g", lr[y][x]));
        else mc::check(close(lr[y][x], cv / vb, noise * (1 + fabs(cv / vb))), "regression", where + mc::fmt(" gives %.7g want %.7g", lr[y][x], cv / vb));
    }
}
MC_HARNESS(local_small) {
    int s = mc::choose(3), Y = s == 0 ? 1 : s == 1 ? 2 : 4, X = s == 0 ? 4 : s == 1 ? 2 : 1; vec2 b(Y, vec(X)), v = b;
    for(int i = 0; i < Y * X; i++) { at(b, i) = mc::pick({0.f, 10.f, 25.f, NANF}); int c = mc::choose(3); at(v, i) = c == 0 ? 1.5f * i : c == 1 ? -4.f : INFF; }
    int hw = mc::pick({1, 2, 9}), mn = mc::pick({0, 2, 3}); float mr = mc::pick({NANF, 0.f, 6.f, 12.f}); NV(b); NV(v); NV(hw); NV(mn); NV(mr); grad(b, v, hw, mn, mr, -11, 1e-3);
}
// realistic magnitudes: elevations of hundreds of metres, temperatures; a bounded number of cells changed
MC_HARNESS(local_large) {
    mc::budget(mc::thorough() ? 3 : 2); int k = mc::choose(4); vec2 b(4, vec(4)), v = b; float off = mc::pick({0.f, 333.3f, 1234.5f});
    for(int i = 0; i < 16; i++) { int d = mc::dev(5); float base = k == 0 ? off : k == 1 ? off + (i * 7) % 16 * 5 : k == 2 ? off + i / 4 * 300 : off + (i % 5) * 0.5f; at(b, i) = d == 1 ? NANF : d == 2 ? base + 40 : base; at(v, i) = d == 3 ? NANF : d == 4 ? 300 : 280.3f - 0.0065f * at(b, i) + 0.01f * (i % 3); if(d == 1) at(v, i) = 281; }
    int hw = mc::pick({1, 3}); float mr = mc::pick({NANF, 10.f}); NV(b); NV(v); NV(hw); NV(mr); grad(b, v, hw, 2, mr, 0.5f, 2e-2);
}
// local gradients in fields of realistic size
MC_HARNESS(local_sizes) {
    static const std::vector<std::pair<int, int>> shapes = {{1, 40}, {30, 1}, {12, 17}}; auto sh = mc::pick(shapes); int k = mc::choose(3), hw = mc::pick({1, 2, 5, 30}), mn = mc::pick({0, 2, 12}), miss = mc::choose(2); float mr = mc::pick({NANF, 40.f}); vec2 b(sh.first, vec(sh.second)), v = b;
    for(int y = 0; y < sh.first; y++) for(int x = 0; x < sh.second; x++) { b[y][x] = k == 0 ? 100 + (y * 37 + x * 53) % 101 * 7 : k == 1 ? y * 20 + x * 11 : (x / 4 % 2) * 50; v[y][x] = miss && (y * 2 + x) % 6 == 1 ? NANF : 280.3f - 0.0065f * b[y][x] + 0.1f * ((x + y) % 3); if(miss && (y + x * 3) % 10 == 4) b[y][x] = NANF; }
    NV(sh.first); NV(sh.second); NV(k); NV(hw); NV(mn); NV(miss); NV(mr); grad(b, v, hw, mn, mr, 0.5f, 2e-2);
}
MC_MAIN
