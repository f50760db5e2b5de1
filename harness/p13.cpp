#include "gp.h"
#include <memory>
using namespace gp;
enum K { B, C, S, T, PL, L };
static const char* kname(int k) { static const char* n[] = {"barnes", "cressman", "soar", "toar", "powerlaw", "linear"}; return n[k]; }
typedef StructureFunctionPtr SP;
static double rho(int k, double d, double l) {
    d = fabs(d);
    if(k == L) return 1 - (1 - l) * std::min(d, 1.0);
    if(l == 0) return 1;
    double v = d / l;
    switch(k) { case B: return exp(-v * v / 2); case C: return v >= 1 ? 0 : (1 - v * v) / (1 + v * v); case S: return (1 + v) * exp(-v); case T: return (1 + v + v * v / 3) * exp(-v); default: return 1 / (1 + v * v / 2); }
}
static SP make(int k, float h, float v, float w, float hmax) {
    switch(k) { case B: return std::make_shared<BarnesStructure>(h, v, w, hmax); case C: return std::make_shared<CressmanStructure>(h, v, w); case S: return std::make_shared<SoarStructure>(h, v, w, hmax); case T: return std::make_shared<ToarStructure>(h, v, w, hmax); case PL: return std::make_shared<PowerlawStructure>(h, v, w, hmax); default: return std::make_shared<LinearStructure>(h, v, w, hmax); }
}
static SP makef(int k, const Grid& g, const vec2& h, const vec2& v, const vec2& w, float r) {
    switch(k) { case B: return std::make_shared<BarnesStructure>(g, h, v, w, r); case S: return std::make_shared<SoarStructure>(g, h, v, w, r); case T: return std::make_shared<ToarStructure>(g, h, v, w, r); case PL: return std::make_shared<PowerlawStructure>(g, h, v, w, r); default: return std::make_shared<LinearStructure>(g, h, v, w, r); }
}
struct Range { double lo, hi; };
static Range mul(Range a, Range b) { return {a.lo * b.lo, a.hi * b.hi}; }
// horizontal part: acceptable values, given truncation at hmax (relative to the scale) or where rho gets below minrho
static Range horizontal(int k, double d, double h, double hmax, double minrho, double eps) {
    if(k == L) return d > eps ? Range{0, 0} : d == 0 ? Range{1, 1} : Range{0, 1};
    double a = rho(k, d + eps, h), b = rho(k, std::max(0.0, d - eps), h);
    if(k == C) return {a, b};
    bool in, out;
    if(valid(hmax)) { in = d + eps < 0.99 * hmax; out = d - eps > 1.01 * hmax; if(d == 0 && hmax == 0) { in = true; } }
    else { in = a > minrho * 1.03; out = b < minrho * 0.97; }
    if(in) return {a, b};
    if(out) return {0, 0};
    return {0, b};
}
static Range part(int k, float a, float b, double l) { if(!valid(a) || !valid(b)) return {1, 1}; double r = rho(k, (double)a - b, l); return {r, r}; }
static bool inside(double x, Range r) { double t = 2e-5; return x >= r.lo - t - 1e-4 * r.lo && x <= r.hi + t + 1e-4 * r.hi; }
static void expect(double x, Range r, const std::string& tag, const std::string& at) { mc::check(inside(x, r), tag, at + mc::fmt(": got %g want %g..%g", x, r.lo, r.hi)); mc::check(x >= 0 && x <= 1 + 1e-6, tag + "-range", at + mc::fmt(": %g", x)); }
static float E[] = {0, -300, 200, NANF, 1500}, F[] = {0, 1, 0.3f, NANF};
MC_HARNESS(single) {
    int k = mc::choose(6); float h = mc::pick({1000.f, 30.f}), v = mc::pick({0.f, 200.f, 1000.f}), w = mc::pick({0.f, 0.5f}); float ratio = mc::pick({NANF, 0.f, 0.1f, 1.f, 2.5f, 6.f, 12.f}); if(k == L) { v = v ? 0.4f : 0.f; h = 0.5; }
    if(k == C && valid(ratio)) mc::skip(); float hmax = valid(ratio) ? ratio * h : NANF; float e1 = E[mc::choose(5)], f1 = F[mc::choose(4)];
    NV(k); NV(h); NV(v); NV(w); NV(hmax); NV(e1); NV(f1); mc::op(); mc::site(std::string("construct-") + kname(k)); SP s = make(k, h, v, w, hmax), c = s->clone(); std::string id = std::string("-") + kname(k);
    Point p1(20, 10, e1, f1, Cartesian);       // northing, easting
    static const double D[] = {0, 0.02, 0.1, 0.5, 0.97, 1.05, 2, 2.6, 3.5, 5, 5.9, 6.2, 8, 8.8, 9.1, 9.9, 11, 12.5, 30, 38, 41, 100}; std::vector<Point> P; std::vector<double> dd; int n = 0;
    for(double d : D) for(int j = 0; j < 2; j++) for(int q = 0; q < 3; q++) { double x = d * (k == L ? 10 : h); n = (n + 1) % 20; P.push_back(Point(20 + (j ? x * 0.6 : 0), 10 + (j ? x * 0.8 : -x), E[(n) % 5], F[(n * 3 + q) % 4], Cartesian)); dd.push_back(x); }
    float loc = s->localization_distance(p1), cloc = c->localization_distance(p1); mc::check(loc == cloc, "clone-localization" + id); mc::outcome_of(vec{loc});
    mc::check(valid(loc) && loc >= 0, "localization-invalid" + id, mc::fmt("%g", loc));
    if(valid(hmax) && k != L) mc::check(fabs(loc - hmax) <= 0.01 * hmax + 1e-3 * h, "localization" + id, mc::fmt("%g with hmax %g", loc, hmax));
    mc::site(std::string("corr") + id); vec r = s->corr(p1, P), rb = s->corr_background(p1, P), rc = c->corr(p1, P); mc::check(r.size() == P.size() && rb.size() == P.size(), "shape");
    mc::check(fabs(s->corr(p1, p1) - 1) < 1e-6, "identical" + id, mc::fmt("%g", s->corr(p1, p1)));
    for(size_t i = 0; i < P.size(); i++) {
        mc::op(); Range R = mul(mul(horizontal(k, dd[i], h, hmax, 0.0013, 1e-3 + 1e-5 * dd[i]), part(k, e1, P[i].elev, v)), part(k, f1, P[i].laf, w));
        if(dd[i] == 0) R = mul(part(k, e1, P[i].elev, v), part(k, f1, P[i].laf, w));
        std::string at = mc::fmt("distance %g elev %g laf %g", dd[i], P[i].elev, P[i].laf);
        expect(r[i], R, "corr" + id, at); float a = s->corr(p1, P[i]);
        mc::check(a == r[i], "corr-vector" + id, at); mc::check(rb[i] == r[i] && s->corr_background(p1, P[i]) == a, "corr-background" + id, at); mc::check(rc[i] == r[i] && c->corr(p1, P[i]) == a, "clone" + id, at);
        mc::check(fabs(s->corr(P[i], p1) - a) <= 1e-6, "symmetric" + id, at + mc::fmt(": %g and %g", a, s->corr(P[i], p1)));
        mc::check(dd[i] <= loc * 1.001 + 1e-3 || a == 0, "beyond-localization" + id, at + mc::fmt(": %g, localization %g", a, loc));
    }
}
// geodetic positions, including the dateline, the pole and antipodes
MC_HARNESS(geodetic) {
    int k = mc::choose(6); float h = mc::pick({50000.f, 400000.f}); if(k == L) h = 0.5; float hm = mc::pick({NANF, 300000.f}); if(k == C && valid(hm)) mc::skip(); SP s = make(k, h, 0, 0, hm); static const float A[] = {0, 60, 60.3f, 89.5f, -45}, O[] = {0, 0.5f, 179.9f, -179.9f, 360, 100};
    float la = A[mc::choose(5)], lo = O[mc::choose(6)]; NV(k); NV(h); NV(hm); NV(la); NV(lo); std::string id = std::string("-") + kname(k); Point p1(la, lo); std::vector<Point> P; for(float a : A) for(float o : O) for(float f : {0.f, 0.1f, 2.f}) P.push_back(Point(a + (a < 89 ? f : 0), o));
    mc::op(); mc::site("corr" + id); vec r = s->corr(p1, P); mc::outcome_of(r); for(size_t i = 0; i < P.size(); i++) { double d = chord(la, lo, P[i].lat, P[i].lon, Geodetic); if(k == L && d < 5) continue; expect(r[i], horizontal(k, d, h, hm, 0.0013, 3), "geodetic" + id, mc::fmt("to %g,%g", P[i].lat, P[i].lon)); mc::check(s->corr(p1, P[i]) == r[i], "corr-vector" + id); }
}
// spatially varying scales: those of the cell nearest to the first point apply
MC_HARNESS(spatial) {
    int k = mc::choose(6); if(k == C) mc::skip(); CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 30000 : 1; int nx = mc::range(1, 2); vec2 y(2), x(2), h(2), v(2), w(2); static const float H[] = {20000, 5000, 0};
    for(int i = 0; i < 2; i++) for(int j = 0; j < nx; j++) { y[i].push_back((40 + i) * u); x[i].push_back((10 + j) * u); h[i].push_back(k == L ? 0.5f : H[mc::choose(3)]); v[i].push_back(j ? 100 : 0); w[i].push_back(i ? 0.5f : 1); }
    float mr = mc::pick({0.0013f, 0.1f, 0.8f}); Grid g(y, x, {}, {}, t); NV(k); NV(t); NV(h); NV(mr); mc::op(); mc::site(std::string("spatial-") + kname(k)); SP s = makef(k, g, h, v, w, mr), c = s->clone(); std::string id = std::string("-") + kname(k);
    for(int a = 0; a < 2; a++) for(int b = 0; b < nx; b++) for(int off = 0; off < 3; off++) {
        double yy = y[a][b] + (off == 1 ? (a ? 0.4 : -0.4) * u : off == 2 ? 0.2 * u : 0), xx = x[a][b] + (off == 1 ? (b ? 0.9 : -0.9) : off == 2 ? 0.1 : 0) * u; if(a == 1 && off == 2) yy += 0.2 * u; Point p1(yy, xx, 100, 0.5, t); std::vector<Point> P; for(int q = 0; q < 9; q++) { double st = q < 8 ? pow(q, 1.5) * 0.04 : 0; P.push_back(Point(yy + st * u * (q % 2 ? 1 : -0.5), xx + st * u * (q % 3 ? -0.2 : 0.5), q % 3 ? 180 : NANF, q % 4 ? 0.3f : NANF, t)); }
        vec r = s->corr(p1, P); float loc = s->localization_distance(p1); mc::check(loc == c->localization_distance(p1), "clone-localization" + id); mc::outcome_of(r); mc::check(close(loc, (float)loc, 0) && loc >= 0, "localization-invalid" + id);
        for(size_t i = 0; i < P.size(); i++) {
            mc::op(); double d = chord(yy, xx, P[i].lat, P[i].lon, t), hh = h[a][b]; Range H0; double eps = t == Cartesian ? 0.1 : 4; if(k == L && d < 10 && i) continue;
            if(k != L && hh == 0) H0 = i == 8 ? Range{1, 1} : d > eps ? Range{0, 0} : Range{0, 1}; else H0 = i == 8 ? Range{1, 1} : horizontal(k, d, hh, NANF, mr, eps);
            Range R = mul(mul(H0, part(k, 100, P[i].elev, v[a][b])), part(k, 0.5, P[i].laf, w[a][b])); std::string at = mc::fmt("from %g,%g distance %g scale %g", yy, xx, d, hh);
            expect(r[i], R, "spatial" + id, at); float one = s->corr(p1, P[i]); mc::check(one == r[i] && c->corr(p1, P[i]) == one && s->corr_background(p1, P[i]) == one, "spatial-consistent" + id, at); mc::check(d <= loc * 1.001 + eps || one == 0, "beyond-localization" + id, at);
        }
    }
}
// products of functions and cross-validation
MC_HARNESS(wrappers) {
    int a = mc::choose(6), b = mc::choose(6), c = mc::choose(6); bool same = mc::flip(); float h = a == L ? 0.5f : 1000, v = b == L ? 0.5f : 300, w = c == L ? 0.2f : 0.8f;
    SP sa = make(a, h, 0, 0, NANF), sb = make(b, b == L ? 0.3f : 10.f, v, 0, NANF), sc = make(c, c == L ? 0.3f : 10.f, 0, w, NANF); MultipleStructure m(*sa, *sb, *sc); SP mc_ = m.clone(); float e1 = E[mc::choose(5)], f1 = F[mc::choose(4)]; float dist = mc::pick({0.f, 500.f, 2000.f}); CrossValidation cv(m, dist); SP cvc = cv.clone(); NV(a); NV(b); NV(c); NV(e1); NV(f1); NV(dist);
    Point p1(0, 0, e1, f1, Cartesian); std::vector<Point> P; for(double d : {0., 100., 499., 501., 900., 1999., 2001., 3000.}) for(int q = 0; q < 5; q++) P.push_back(Point(same ? 0 : d * 0.6, same ? d : d * 0.8, E[q], F[(q * 3 + (int)d) % 4], Cartesian));
    mc::op(); mc::site("multiple"); vec r = m.corr(p1, P); mc::outcome_of(r); mc::site("crossvalidation"); vec o = cvc->corr(p1, P), ob = cv.corr_background(p1, P), oc = cvc->corr_background(p1, P); mc::check(m.localization_distance(p1) == sa->localization_distance(p1), "multiple-localization"); mc::check(cv.localization_distance(p1) == m.localization_distance(p1) && cvc->localization_distance(p1) == m.localization_distance(p1), "cv-localization");
    for(size_t i = 0; i < P.size(); i++) {
        Point q = P[i]; double d = chord(0, 0, q.lat, q.lon, Cartesian); Range R = mul(mul(d == 0 ? Range{1, 1} : horizontal(a, d, h, NANF, 0.0013, 0.01), part(b, e1, q.elev, v)), part(c, f1, q.laf, w)); std::string at = mc::fmt("distance %g elev %g laf %g", d, q.elev, q.laf);
        expect(r[i], R, "multiple", at); float one = m.corr(p1, q); mc::check(fabs(one - r[i]) < 1e-6 && fabs(mc_->corr(p1, q) - one) < 1e-6 && fabs(m.corr_background(p1, q) - one) < 1e-6, "multiple-consistent", at);
        float excl = d <= dist ? 0 : one; mc::check(fabs(o[i] - one) < 1e-6 && fabs(cv.corr(p1, q) - one) < 1e-6, "cv-corr", at); mc::check(fabs(ob[i] - excl) < 1e-6 && fabs(cv.corr_background(p1, q) - excl) < 1e-6 && fabs(oc[i] - excl) < 1e-6, "cv-background", at + mc::fmt(": %g want %g", ob[i], excl));
    }
}
// correlations between points and knots: those within reach, best max_points
MC_HARNESS(points) {
    int k = mc::choose(5), n = mc::range(0, 4), mp = mc::range(0, 3); bool cvw = mc::flip(); CoordinateType t = mc::flip() ? Cartesian : Geodetic; double u = t == Cartesian ? 1000 : 0.01; SP s0 = make(k, t == Cartesian ? 800 : 900, 0, 0, mc::flip() ? 2600 : NANF), s = s0; CrossValidation cv(*s0, 400); if(cvw) s = cv.clone();
    vec ky, kx; for(int i = 0; i < n; i++) { int c = mc::choose(5); ky.push_back((c % 3) * 1.1 * u); kx.push_back((c + c / 3) * 0.93 * u); } vec py{0, (float)(0.37 * u), (float)(90 * u)}, px{0, (float)(1.1 * u), 0}; Points P(py, px, {}, {}, t), Kn(ky, kx, {}, {}, t); NV(k); NV(t); NV(mp); NV(ky); NV(kx); NV(cvw);
    mc::op(); mc::site("staticcorr_points"); vec2 o = staticcorr_points(P, Kn, *s, mp); mc::check(o.size() == 3, "shape"); for(int i = 0; i < 3; i++) {
        mc::check((int)o[i].size() == n, "shape"); mc::outcome_of(o[i]); std::vector<double> r; Point p = P.get_point(i); int used = 0; double worst = 2; for(int j = 0; j < n; j++) { r.push_back(s->corr_background(p, Kn.get_point(j))); double d = chord(py[i], px[i], ky[j], kx[j], t); if(fabs(d - s->localization_distance(p)) < 4) mc::skip(); if(o[i][j] != 0) { used++; worst = std::min(worst, (double)o[i][j]); mc::check(o[i][j] == (float)r[j], "staticcorr-value", mc::fmt("point %d knot %d: %g want %g", i, j, o[i][j], r[j])); } }
        int pos = 0; for(double x : r) if(x > 0) pos++; mc::check(used == (mp ? std::min(mp, pos) : pos), "staticcorr-count", mc::fmt("point %d: %d used, %d positive, limit %d", i, used, pos, mp)); for(int j = 0; j < n; j++) if(o[i][j] == 0) mc::check(r[j] <= worst, "staticcorr-best", mc::fmt("point %d knot %d", i, j));
    }
}
MC_HARNESS(invalid) {
    int k = mc::choose(6), which = mc::choose(4); float bad = mc::pick({-1.f, NANF, INFF}); float p[4] = {k == L ? 0.5f : 1000.f, 0, 0, NANF}; if(which == 3 && (bad != -1 || k == C)) mc::skip(); p[which] = bad; NV(k); NV(which); NV(bad); mc::op(); mc::check(mc::throws([&] { make(k, p[0], p[1], p[2], p[3]); }), "invalid-scale-accepted"); SP s = make(B, 1000, 0, 0, NANF); mc::check(mc::throws([&] { CrossValidation c(*s, bad); }), "invalid-dist-accepted");
    if(k != C) { Grid g(vec2{{0, 0}, {1, 1}}, vec2{{0, 1}, {0, 1}}); vec2 ok(2, vec(2, 0.5)), b1(2, vec(3, 0.5)), b2(3, vec(2, 0.5)); mc::check(mc::throws([&] { makef(k, g, b1, ok, ok, 0.1); }) && mc::throws([&] { makef(k, g, ok, b2, ok, 0.1); }) && mc::throws([&] { makef(k, g, ok, ok, b1, 0.1); }), "size-accepted"); vec2 one(1, vec(1, 0.5)); for(int m = 1; m < 7; m++) mc::check(mc::throws([&] { makef(k, g, m & 1 ? one : ok, m & 2 ? one : ok, m & 4 ? one : ok, 0.1); }), "mixed-size-accepted", mc::fmt("%d", m)); Grid none; SP u = makef(k, none, one, one, one, 0.1); mc::check(u->corr(Point(0, 0), Point(0, 0)) == 1, "uniform"); mc::check(mc::throws([&] { makef(k, none, ok, ok, ok, 0.1); }), "empty-grid-accepted"); }
}
MC_MAIN
