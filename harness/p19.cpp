#include "gp.h"
using namespace gp;
static const double K0 = 273.15;
static double rvap(double tc) { return 0.611 * exp(17.63 * tc / (tc + 243.04)); }
static double rtd(double e) { return (116.9 + 243.04 * log(e)) / (16.78 - log(e)); }
static double rdew(double t, double rh) { if(!valid(t) || !valid(rh) || rh <= 0) return NAN; double td = rtd(rh * rvap(t - K0)) + K0; return std::min(td, t); }
static double rsat(double t) {
    static const double E[41] = {.000034, .000089, .000220, .000517, .001155, .002472, .005080, .01005, .01921, .03553, .06356, .1111, .1891, .3139, .5088, .8070, 1.2540, 1.9118, 2.8627, 4.2148, 6.1078, 8.7192, 12.272, 17.044, 23.373, 31.671, 42.430, 56.236, 73.777, 95.855, 123.40, 157.46, 199.26, 250.16, 311.69, 385.56, 473.67, 578.09, 701.13, 845.28, 1013.25};
    double x = std::min(39.0, std::max(0.0, (t - 173.16) / 5)); int l = (int)x; return E[l] + (E[l + 1] - E[l]) * (x - l);
}
static double rrh(double t, double td) { if(!valid(t) || !valid(td)) return NAN; if(t <= td) return 1; return std::min(1.0, rsat(td) / rsat(t)); }
static double rwet(double t, double p, double rh) { if(!valid(t) || !valid(p) || !valid(rh) || rh <= 0 || t - K0 <= -243.04) return NAN; double e = rh * rvap(t - K0), td = rtd(e), g = 0.00066 * p / 1000, d = 4098 * e / ((td + 243.04) * (td + 243.04)); if(g + d == 0) return NAN; return (g * (t - K0) + d * td) / (g + d) + K0; }
static double rpress(double a, double b, double p, double t) { if(!valid(a) || !valid(b) || !valid(p) || !valid(t)) return NAN; return p * exp(-9.80665 * 0.0289644 * (b - a) / (8.3144598 * t)); }
static double rqnh(double p, double a) { if(p == 0) return 0; if(!valid(p) || !valid(a) || p < 0) return NAN; double g = 9.80665, T0 = 288.15, L = 0.0065, RG = 287.053, p0 = 101325; return p0 * pow(pow(p / p0, RG * L / g) + a * L / T0, g / (RG * L)); }
static bool slpbad(double ps, double z, double t, double rh, double td) { return !valid(z) || !valid(t) || ps < 0 || t < 0 || rh < 0 || rh > 1 || td < 0; }
static double rslp(double ps, double z, double t, double rh, double td) {
    if(std::isnan(ps)) return NAN;
    double T = t - K0, e = 0, d = 0, p = ps / 100; bool dry = false;
    if(valid(rh)) { e = rh * 6.11 * pow(10, 7.5 * T / (237.3 + T)); if(e <= 0) dry = true; else { double l = log(e / 6.1094); d = 243.04 * l / (17.625 - l); } }
    else if(valid(td)) { d = td - K0; e = 6.11 * pow(10, 7.5 * d / (237.3 + d)); }
    else d = T - 3;
    if(z >= 50) return 100 * p * exp((9.80665 * z / 287.05) / (t + 0.5 * 0.0065 * z + e * 0.12));
    double Tv = t / (1 - 0.379 * (dry ? 0 : 6.11 * pow(10, 7.5 * d / (237.7 + d))) / p);
    return 100 * (p + p * z / (29.27 * Tv));
}
static const vec TEMP = {273.15f, NANF, 180, 220, 250, 268.9f, 283.16f, 293.15f, 310, 330, 360, 20, 30, INFF};
static const vec RH = {0.8f, NANF, 0, 1e-6f, 0.01f, 0.3f, 0.999f, 1, 1.2f, -0.1f, INFF};
MC_HARNESS(humidity) {
    float t = mc::pick(TEMP), rh = mc::pick(RH), td = mc::pick({273.15f, NANF, 100.f, 175.f, 200.f, 240.f, 268.9f, 273.16f, 293.15f, 310.f, 365.f, 390.f, INFF}), p = mc::pick({101325.f, NANF, 0.f, 20000.f, 85000.f, INFF}); NV(t); NV(rh); NV(td); NV(p);
    bool cold = t < 150;                      // the formulas are not meaningful there
    mc::op(3); mc::site("dewpoint"); float d = dewpoint(t, rh); double w = rdew(t, rh); mc::outcome_of(vec{d});
    if(!cold) { mc::check(close(d, w, 4e-3), "dewpoint", mc::fmt("got %g want %g", d, w)); if(valid(d)) mc::check(d <= t, "dewpoint-above-temperature"); }
    mc::site("relative_humidity"); float r = relative_humidity(t, td); w = rrh(t, td); mc::check(close(r, w, 2e-5), "relative_humidity", mc::fmt("got %g want %g", r, w)); if(valid(r)) mc::check(r >= 0 && r <= 1, "humidity-range");
    mc::site("wetbulb"); float b = wetbulb(t, p, rh); w = rwet(t, p, rh); if(!cold || t <= 30) mc::check(close(b, w, 6e-3), "wetbulb", mc::fmt("got %g want %g", b, w));
    if(valid(d) && t >= 250 && t <= 330 && rh <= 1 && rh >= 0.01) { float back = relative_humidity(t, d); mc::check(fabs(back - rh) <= 0.08 * rh + 1e-3, "humidity-roundtrip", mc::fmt("%g -> dewpoint %g -> %g", rh, d, back)); }
}
MC_HARNESS(wetbulb_all) { float t = mc::pick(TEMP), rh = mc::pick(RH), p = mc::pick({101325.f, NANF, 0.f, 20000.f, 85000.f}); NV(t); NV(rh); NV(p); mc::op(2); mc::site("wetbulb"); float b = wetbulb(t, p, rh); double w = rwet(t, p, rh); mc::outcome_of(vec{b}); if(t >= 150 || t <= 30 || !valid(t)) mc::check(close(b, w, 6e-3), "wetbulb", mc::fmt("got %g want %g", b, w)); float d = dewpoint(t, rh); w = rdew(t, rh); if(!(t < 150)) mc::check(close(d, w, 4e-3), "dewpoint", mc::fmt("got %g want %g", d, w)); }
// fine sweep of the vapour pressure table: every table cell, at its ends and inside it
MC_HARNESS(table) { int i = mc::range(-2, 42), j = mc::range(-2, 42); float a = mc::pick({0.f, 0.5f, 4.9f}), b = mc::pick({0.f, 2.5f}); float t = 173.16f + 5 * i + a, td = 173.16f + 5 * j + b; mc::op(); mc::site("relative_humidity"); float r = relative_humidity(t, td); double w = rrh(t, td); mc::outcome_of(vec{r}); NV(t); NV(td); mc::check(close(r, w, 3e-5 * (1 + w)), "relative_humidity", mc::fmt("got %g want %g", r, w)); }
MC_HARNESS(altitude) {
    float a = mc::pick({0.f, NANF, -400.f, 50.f, 1000.f, 8848.f}), b = mc::pick({0.f, NANF, -400.f, 20.f, 1000.f, 5000.f}), p = mc::pick({101325.f, NANF, 0.f, 50000.f, 110000.f, INFF}), t = mc::pick({288.15f, NANF, 230.f, 310.f}); NV(a); NV(b); NV(p); NV(t);
    mc::op(3); mc::site("pressure"); float o = pressure(a, b, p, t); double w = rpress(a, b, p, t); mc::outcome_of(vec{o}); mc::check(close(o, w, 1e-5 * fabs(w)), "pressure", mc::fmt("got %g want %g", o, w));
    if(valid(o)) { float back = pressure(b, a, o, t); mc::check(close(back, p, 1e-5 * p), "pressure-roundtrip", mc::fmt("%g", back)); if(a == b) mc::check(o == p, "pressure-identity"); if(b > a && p > 0) mc::check(o < p, "pressure-increases"); }
    mc::check(pressure(a, b, p) == pressure(a, b, p, 288.15f) || !valid(pressure(a, b, p)), "pressure-default");
    for(float q : {p, -1.f}) { mc::site("qnh"); float h = qnh(q, a); w = rqnh(q, a); if(q == 0 && !valid(a)) continue; mc::check(valid(q) ? close(h, w, 1e-4 * fabs(w)) : !valid(h), "qnh", mc::fmt("pressure %g: got %g want %g", q, h, w)); if(a == 0 && valid(q) && q >= 0) mc::check(close(h, q, 1e-5 * q + 1e-3), "qnh-sealevel"); }
}
static void slpin(vec& v, bool all) { auto pk = [&](const vec& c) { return all ? mc::pick(c) : mc::pickdev(c); }; v = {pk({101325, NANF, 95000, 60000, -1}), pk({20, NANF, 0, -10, 49.9f, 50, 500, 3000}), pk({288.15f, NANF, 250, 273.15f, 305, -1}), pk({NANF, 0, 0.3f, 1, 1.1f, -0.1f}), pk({NANF, 280, 250, -1})}; }
MC_HARNESS(sea_level) {
    vec v; slpin(v, true); NV(v); mc::op(2); mc::site("sea_level_pressure"); float o = NANF; bool th = mc::throws([&] { o = sea_level_pressure(v[0], v[1], v[2], v[3], v[4]); }), bad = slpbad(v[0], v[1], v[2], v[3], v[4]); mc::check(th == bad, bad ? "invalid-accepted" : "valid-rejected");
    vec one; bool tv = mc::throws([&] { one = sea_level_pressure(vec{v[0]}, vec{v[1]}, vec{v[2]}, vec{v[3]}, vec{v[4]}); }); mc::check(tv == bad, bad ? "vector-invalid-accepted" : "vector-valid-rejected"); if(bad) return;
    double w = rslp(v[0], v[1], v[2], v[3], v[4]); mc::outcome_of(vec{o}); mc::check(close(o, w, 2e-6 * fabs(w) + 0.02), "sea_level_pressure", mc::fmt("got %.9g want %.9g", o, w)); mc::check(one.size() == 1 && (one[0] == o || (!valid(o) && !valid(one[0]))), "vector");
    if(v[1] == 0 && valid(o)) mc::check(close(o, v[0], 0.02), "identity-at-sea-level");
}
MC_HARNESS(wind) {
    vec W = {0, -0.f, 1, -1, 3, -4, 0.001f, -1e-30f, 50, NANF, 1e-6f, -1e-6f, 0.7071f}; float u = mc::pick(W), v = mc::pick(W); NV(u); NV(v); mc::op(2); mc::site("wind_speed"); float s = wind_speed(u, v); mc::site("wind_direction"); float d = wind_direction(u, v); mc::outcome_of(vec{s, d});
    if(!valid(u) || !valid(v)) { mc::check(!valid(s), "speed-of-missing"); mc::check(!valid(d), "direction-of-missing"); return; }
    double w = sqrt(double(u) * u + double(v) * v); mc::check(close(s, w, 1e-6 * w + 1e-20), "wind_speed", mc::fmt("got %g want %g", s, w));
    mc::check(d >= 0 && d <= 360, "direction-range", mc::fmt("%g", d)); if(u == 0 && v == 0) { mc::check(d == 180, "direction-of-calm", mc::fmt("%g", d)); return; }
    // direction the wind comes from, clockwise from north
    double a = d * M_PI / 180; mc::check(close(-w * sin(a), u, 2e-5 * w) && close(-w * cos(a), v, 2e-5 * w), "wind_direction", mc::fmt("%g", d));
}
static bool eq(const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(valid(b[i]) ? a[i] != b[i] : valid(a[i])) return false; return true; }
MC_HARNESS(arrays) {      // arrays equal the scalar version, in order, and mismatching sizes are rejected
    int n = mc::range(0, 3); vec t, rh, p, z; static const float T[] = {273.15f, 290, NANF, 250}, H[] = {0.8f, NANF, 0.1f}, P[] = {101325, 90000, NANF}, Z[] = {0, 120, 700};
    for(int i = 0; i < n; i++) { t.push_back(T[mc::choose(i < 2 ? 4 : 2)]); rh.push_back(H[mc::choose(3)]); p.push_back(P[mc::choose(i < 2 ? 3 : 2)]); z.push_back(Z[mc::choose(i < 2 ? 3 : 2)]); }
    NV(t); NV(rh); NV(p); NV(z); vec td(n), r(n), w(n), pr(n), q(n), ws(n), wd(n), sl; vec dz(z); std::reverse(dz.begin(), dz.end());
    for(int i = 0; i < n; i++) { td[i] = dewpoint(t[i], rh[i]); r[i] = relative_humidity(t[i], td[i]); w[i] = wetbulb(t[i], p[i], rh[i]); pr[i] = pressure(z[i], dz[i], p[i], t[i]); q[i] = qnh(p[i], z[i]); ws[i] = wind_speed(rh[i], z[i]); wd[i] = wind_direction(rh[i], z[i]); if(valid(t[i])) sl.push_back(sea_level_pressure(p[i], z[i], t[i], rh[i])); }
    mc::op(8); mc::site("arrays"); mc::outcome_of(td);
    mc::check(eq(dewpoint(t, rh), td), "dewpoint-array"); mc::check(eq(relative_humidity(t, td), r), "relative_humidity-array"); mc::check(eq(wetbulb(t, p, rh), w), "wetbulb-array"); mc::check(eq(pressure(z, dz, p, t), pr), "pressure-array"); mc::check(eq(qnh(p, z), q), "qnh-array"); mc::check(eq(wind_speed(rh, z), ws), "wind_speed-array"); mc::check(eq(wind_direction(rh, z), wd), "wind_direction-array");
    vec o; bool th = mc::throws([&] { o = sea_level_pressure(p, z, t, rh, vec(n, NANF)); }); mc::check(th == (sl.size() != t.size()), "sea_level_pressure-array-throws"); if(!th) mc::check(eq(o, sl), "sea_level_pressure-array");
    static const float D[] = {NANF, 265, 280}; for(int k = 0; k < 9 && sl.size() == t.size(); k++) { vec d, want, o; for(int i = 0; i < n; i++) { d.push_back(D[(k + i * (k / 3 + 1)) % 3]); want.push_back(sea_level_pressure(p[i], z[i], t[i], rh[i], d[i])); } o = sea_level_pressure(p, z, t, rh, d); mc::check(eq(o, want), "sea_level_pressure-dewpoints"); }
}
MC_HARNESS(sizes) {
    int f = mc::choose(7), n[5]; vec a[5]; static const int ar[] = {2, 2, 3, 4, 2, 2, 5}; bool same = true; for(int i = 0; i < ar[f]; i++) { n[i] = mc::range(0, 2); a[i] = vec(n[i], i == 3 ? 0.5f : 280.f); same = same && n[i] == n[0]; } if(f == 6) a[3] = vec(n[3], 0.5f); NV(f); mc::op(); mc::site("sizes"); vec o;
    bool th = mc::throws([&] { switch(f) { case 0: o = dewpoint(a[0], a[1]); break; case 1: o = relative_humidity(a[0], a[1]); break; case 2: o = wetbulb(a[0], a[1], a[2]); break; case 3: o = pressure(a[0], a[1], a[2], a[3]); break; case 4: o = qnh(a[0], a[1]); break; case 5: o = wind_speed(a[0], a[1]); vec q = wind_direction(a[0], a[1]); break; } if(f == 6) o = sea_level_pressure(a[0], a[1], a[2], a[3], a[4]); });
    if(f == 5) mc::check(mc::throws([&] { wind_direction(a[0], a[1]); }) == !same, "direction-size-mismatch"); mc::check(th == !same, "size-mismatch"); if(!th) mc::check((int)o.size() == n[0], "shape");
}
MC_MAIN
