// P28: point-wise calibrators of the command-line client. Each calibrator is applied to a file whose cells together hold the values of
// an alphabet (one cell is chosen freely, the others are derived from it), for all options and parameters of a small domain, and every
// cell is compared with the definition; all other variables, times, members and locations must stay as they were.
#include "cal.h"
#include <algorithm>
using namespace cal;
// A table where a location lacks parameters at one time (kind 4) may be used or rejected.
namespace {
typedef std::vector<float> V;
// the cell at the last time and member and the first location has value a[k], the others run through the alphabet
struct Pick { V a; int k, s; double operator()(int t, int e, int y, int x) const { int i = (1 - t) * 5 + (1 - e) * 3 + (y * 2 + x) * s; return a[(k + i) % a.size()]; } };
Pick over(const V& a, int s = 1) { int k = mc::choose(a.size()); NV(k); return Pick{a, k, s}; }
std::string csv(const V& v) { std::string s; for(size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + mc::fmt("%g", v[i]); return s; }
const double PI = 3.14159265358979323846;
}
MC_HARNESS(qc) {
    World w(2, 2); w.set("v", over({MV, NAN, -2, -1, 0, 0.5f, 2.5f, 3, 7, INFINITY}));
    static const float B[] = {MV, -1, 0, 2.5f, 3}; float lo = B[mc::choose(5)], hi = B[mc::choose(5)]; NV(lo); NV(hi); if(valid(lo) && valid(hi) && lo > hi) mc::skip();
    std::string o = (valid(lo) ? mc::fmt("min=%g ", lo) : "") + (valid(hi) ? mc::fmt("max=%g", hi) : "");
    mc::check(w.run("qc", "v", o), "qc-rejected", "rejected");
    w.check("qc", "v", [&](int t, int e, int y, int x) -> VD { double v = w.old("v", t, e, y, x); if(!valid(v)) return {v}; if(valid(lo)) v = std::max(v, (double)lo); if(valid(hi)) v = std::min(v, (double)hi); return {v}; }, 0);
}
MC_HARNESS(threshold) {
    World w(2, 2); w.set("v", over({MV, NAN, -2, -1, 0, 0.5f, 1, 1.5f, 2, 3}));
    int n = mc::range(1, 3), m = mc::range(0, 4), q = mc::choose(5); NV(n); NV(m); NV(q); static const V T[] = {{0}, {0, 1}, {-1, 0, 2}}, U[] = {{1}, {0.5f, 0.5f}, {0, 1, 1}}; const V& th = mc::flip() ? U[n - 1] : T[n - 1];
    V val; for(int i = 0; i < m + 1; i++) val.push_back(10 * i - 7 + (i == 2 ? MV + 7 - 20 : 0)); V eq; for(int i = 0; i < n; i++) eq.push_back(q == 4 ? 0 : (q >> (i % 2)) & 1); if(mc::flip()) eq.push_back(1); bool given = q != 4; if(!given && (int)eq.size() != n) mc::skip();
    bool bad = m != n || (given && (int)eq.size() != n);
    bool ok = w.run("threshold", "v", "thresholds=" + csv(th) + " values=" + csv(val) + (given ? " equals=" + csv(eq) : ""));
    mc::check(ok == !bad, "threshold-rejected", ok ? "wrong number of values accepted" : "rejected"); if(!ok || bad) { w.others("threshold", ""); return; }
    w.check("threshold", "v", [&](int t, int e, int y, int x) -> VD { double v = w.old("v", t, e, y, x); if(!valid(v)) return {v}; for(int i = 0; i < n; i++) if(v < th[i] || (v == th[i] && eq[i] == 1)) return {val[i]}; return {val[n]}; }, 0);
}
MC_HARNESS(sort) {
    int n = mc::range(1, mc::thorough() ? 6 : 5); NV(n); static const float A[] = {MV, NAN, 1, 2, -1500}; World w(1, 2, n, 2); std::vector<int> k(n); for(int i = 0; i < n; i++) { k[i] = mc::choose(5); } NOTE_(vs(VD(k.begin(), k.end())));
    w.set("v", [&](int t, int e, int y, int x) { return A[(k[x ? n - 1 - e : e] + (1 - t) * 2) % 5]; });
    mc::check(w.run("sort", "v", ""), "sort-rejected", "rejected");
    w.check("sort", "v", [&](int t, int e, int y, int x) -> VD { VD s; for(int i = 0; i < n; i++) if(valid(w.old("v", t, i, y, x))) s.push_back(w.old("v", t, i, y, x)); std::sort(s.begin(), s.end()); return {e < (int)s.size() ? s[e] : MV}; }, 0);
}
MC_HARNESS(cloud) {
    World w(2, 2); w.set("v", over({MV, NAN, -0.1f, 0, 0.3f, 0.7f, 1, 2})); w.set("p", over({MV, NAN, -0.1f, 0, 1e-6f, 3}, 3)); static const float VAL[] = {MV, 1, 0.5f, 0}; float val = VAL[mc::choose(4)]; NV(val); bool none = mc::choose(8) == 7;
    bool ok = w.run("cloud", "v", (none ? "" : "precipVariable=p ") + (valid(val) ? mc::fmt("value=%g", val) : "")); mc::check(ok == !none, "cloud-rejected", ok ? "accepted without the precipitation variable" : "rejected"); if(!valid(val)) val = 1;
    w.check("cloud", "v", [&](int t, int e, int y, int x) -> VD { double v = w.old("v", t, e, y, x), p = w.old("p", t, e, y, x); return {!none && valid(v) && valid(p) && p > 0 && v < val ? val : v}; }, 0);
}
MC_HARNESS(altitude) {
    World w(2, 3); w.set("v", over({MV, 1, 2, NAN})); vec2 el = w.el; int hole = mc::choose(4); NV(hole); for(int y = 0; y < 2; y++) for(int x = 0; x < 3; x++) el[y][x] = (y + x) % 3 == hole ? MV : 100 * y + x; w.elevs(el);
    int kind = mc::choose(4); NV(kind); static const float E[] = {MV, NAN, 0, -3, 812.5f}; Table p; p.fill(kind, w, 2, [](int t, int l) { return V{1}; }); int a = mc::choose(5), b = mc::choose(5); NV(a); NV(b);
    Table q; q.kind = kind; if(kind >= 2) { q.loc = p.loc; q.loc[0].elev(E[a]); q.loc[1].elev(E[b]); for(int l = 0; l < 2; l++) { q.setParameters(V{1}, 0, q.loc[l]); if(kind == 3) q.setParameters(V{1}, 1, q.loc[l]); } q.recomputeTree(); } else q.setParameters(V{1}, 0);
    bool ok = w.run("altitude", "v", "", &q); mc::check(ok == (kind >= 2), "altitude-rejected", ok ? "accepted parameters without locations" : "rejected"); w.others("altitude", "");
    vec2 n = w.f->getElevs(); for(int y = 0; y < 2; y++) for(int x = 0; x < 3; x++) { double want = el[y][x]; if(ok) { double d0 = hypot(q.loc[0].lat() - w.la[y][x], (q.loc[0].lon() - w.lo[y][x]) / 2), d1 = hypot(q.loc[1].lat() - w.la[y][x], (q.loc[1].lon() - w.lo[y][x]) / 2); want = d0 < d1 ? E[a] : E[b]; } mc::check(near(want, n[y][x], 0), "altitude", mc::fmt("cell %d,%d want %g got %g", y, x, want, n[y][x])); }
}
MC_HARNESS(phase) {
    World w(2, 2); w.set("v", over({MV, 1})); w.set("t", over({MV, NAN, 250, 272.5f, 273.5f, 274, 274.5f, 290}, 3)); w.set("p", over({MV, INFINITY, 0, 0.1f, 0.3f, 0.7f, 5}, 5)); int s = mc::choose(3), r = mc::choose(3), m = mc::choose(3), none = mc::choose(6); NV(s); NV(r); NV(m); NV(none); if(none > 2 && s + r + m > 0) mc::skip(); if(none < 3 && none > 0) mc::skip();
    static const float S[] = {273.15f, 272, 274}, R[] = {274.15f, 274, 275}, M[] = {0.2f, 0, 0.5f}; if(m == 1) { w.set("p", over({MV, INFINITY, 0.1f, 0.3f, 0.7f, 5}, 5)); }
    std::string o = none == 3 ? "temperature=t" : none == 4 ? "precipitation=p" : "temperature=t precipitation=p"; if(s) o += mc::fmt(" snowThreshold=%g", S[s]); if(r) o += mc::fmt(" rainThreshold=%g", R[r]); if(m) o += mc::fmt(" minPrecip=%g", M[m]); bool bad = none == 3 || none == 4;
    bool ok = w.run("phase", "v", o); mc::check(ok == !bad, "phase-rejected", ok ? "accepted without required options" : "rejected"); if(!ok) { w.others("phase", ""); return; }
    w.check("phase", "v", [&](int t, int e, int y, int x) -> VD { double p = w.old("p", t, e, y, x), T = w.old("t", t, e, y, x); if(!valid(p) || !valid(T)) return {MV}; if(p < M[m]) return {0}; if(T == S[s]) return {3, 2}; return {T < S[s] ? 3. : T <= R[r] ? 2. : 1.}; }, 0);
}
MC_HARNESS(wind) {
    World w(1, 2); static const char* C[] = {"x", "y", "speed", "direction", "angle"}; int c = mc::choose(5); NV(c); bool comp = c < 2;
    w.set("v", [](int t, int e, int y, int x) { return (t + e) % 2 ? (double)MV : 4; }); w.set("a", comp ? over({MV, NAN, 0, 0.5f, 3, 12}) : over({MV, NAN, 0, 1e-3f, 3, -3, 5, -12})); w.set("b", comp ? over({MV, INFINITY, 0, 45, 90, 135, 180, 210, 270, 300, 360, -30, 400}, 3) : over({MV, INFINITY, 0, 1e-3f, 3, -3, -5, 12}, 3));
    int m = mc::choose(3); NV(m); bool bad = c == 4 || m == 1; std::string o = std::string(comp ? "speed=a " : "x=a ") + (m == 1 ? "" : comp ? "direction=b " : "y=b ") + "compute=" + C[c];
    bool ok = w.run("diagnoseWind", "v", o); mc::check(ok == !bad, "wind-rejected", ok ? "accepted: " + o : "rejected"); if(!ok) { w.others("wind", ""); return; }
    w.check("wind", "v", [&](int t, int e, int y, int x) -> VD { double a = w.old("a", t, e, y, x), b = w.old("b", t, e, y, x); if(!valid(a) || !valid(b)) return {MV, w.old("v", t, e, y, x)}; if(c == 0) return {-a * sin(b * PI / 180)}; if(c == 1) return {-a * cos(b * PI / 180)}; if(c == 2) return {hypot(a, b)}; double g = w.got("v", t, e, y, x), d = atan2(-a, -b) * 180 / PI; mc::check(g >= 0 && g <= 360, "winddir-range", mc::fmt("%g", g)); if(a == 0 && b == 0) return {}; return {d - 360, d, d + 360}; });
    if(ok && c < 2) { // and back
        World u(1, 2); u.set("x", [&](int t, int e, int y, int x) { double a = w.old("a", t, e, y, x), b = w.old("b", t, e, y, x); return valid(a) && valid(b) ? -a * sin(b * PI / 180) : MV; }); u.set("y", [&](int t, int e, int y, int x) { double a = w.old("a", t, e, y, x), b = w.old("b", t, e, y, x); return valid(a) && valid(b) ? -a * cos(b * PI / 180) : MV; }); u.set("v", [](int t, int e, int y, int x) { return 0; });
        mc::check(u.run("diagnoseWind", "v", c ? "x=x y=y compute=direction" : "x=x y=y compute=speed"), "wind-rejected", "rejected");
        u.check("windback", "v", [&](int t, int e, int y, int x) -> VD { double a = w.old("a", t, e, y, x), b = w.old("b", t, e, y, x); if(!valid(a) || !valid(b)) return {MV, 0}; if(c == 0) return {a}; if(a == 0) return {}; double d = fmod(b + 360, 360); return {d, d + 360, d - 360}; }, 1e-3);
    }
}
namespace {
double ew(double T, double A = 17.625, double B = 243.04) { double c = T - 273.15; return 0.61094 * exp(A * c / (c + B)); }   // kPa
double dewpoint(double T, double rh) { double l = log(rh * ew(T) / 0.61094); return 273.15 + 243.04 * l / (17.625 - l); }
}
MC_HARNESS(humidity) {
    World w(1, 2); static const char* C[] = {"dewpoint", "rh", "wetbulb", "mixing"}; int c = mc::choose(4); NV(c); static const V T = {MV, NAN, 233, 253, 263.15f, 273.15f, 280, 293.15f, 305, 313}, R = {MV, NAN, 0, 0.05f, 0.3f, 0.62f, 0.95f, 1}, D = {MV, INFINITY, 230, 250, 263.15f, 273.15f, 279, 293.15f, 300, 313};
    w.set("v", [](int t, int e, int y, int x) { return (t + e) % 2 ? (double)MV : 4; }); w.set("t", over(T)); w.set("r", c == 1 ? over(D, 3) : over(R, 3)); int m = mc::choose(6); NV(m); if(m == 1) m = 0; bool press = c == 2 && m >= 3; vec2 el = w.el; el[0][0] = m == 2 ? MV : m == 0 ? 0 : 500; el[0][1] = m == 4 ? NAN : 1500; w.elevs(el);
    w.set("p", [&](int t, int e, int y, int x) { return m == 4 && t == 1 && e == 1 ? (double)MV : m == 5 && t == 1 && e == 1 ? NAN : 101325 - 12000 * x - 300 * t; });
    std::string o = mc::fmt("temperature=t %s compute=%s", c == 1 ? "dewpoint=r" : "rh=r", C[c]); if(press) o += " pressure=p"; bool bad = c == 3; if(c < 2 && m == 5) { o = mc::fmt("temperature=t compute=%s", C[c]); bad = true; } bool ok = w.run("diagnoseHumidity", "v", o); mc::check(ok == !bad, "humidity-rejected", ok ? "accepted: " + o : "rejected"); if(!ok) { w.others("humidity", ""); return; }
    w.check("humidity", "v", [&](int t, int e, int y, int x) -> VD {
        double a = w.old("t", t, e, y, x), b = w.old("r", t, e, y, x), g = w.got("v", t, e, y, x), old = w.old("v", t, e, y, x); if(!valid(a) || !valid(b)) return {MV, old}; bool v = valid(g);
        if(c == 0) { if(b == 0) return {MV, old}; mc::check(v && g <= a + 1e-3 && std::fabs(g - dewpoint(a, b)) <= (b < 0.1 ? 1.0 : 0.5) + 0.03 * std::fabs(273 - a), "dewpoint", mc::fmt("temperature %g humidity %g: got %g, Magnus formula %g", a, b, g, dewpoint(a, b))); }
        if(c == 1) { double h = std::min(1.0, ew(b) / ew(a)); mc::check(v && g >= 0 && g <= 1 && std::fabs(g - h) <= 0.03, "rh", mc::fmt("temperature %g dewpoint %g: got %g, Magnus formula %g", a, b, g, h)); }
        if(c == 2) { double P = press ? w.old("p", t, e, y, x) : 101325 * pow(1 - 0.0065 * el[0][x] / 288.15, 5.25588); if(b == 0 || (press ? !valid(P) : !valid(el[0][x]))) return {MV, old};
            double tc = a - 273.15, ee = b * 0.611 * exp(17.63 * tc / (tc + 243.04)), td = (116.9 + 243.04 * log(ee)) / (16.78 - log(ee)), ga = 0.00066 * P / 1000, de = 4098 * ee / pow(td + 243.04, 2), want = (ga * tc + de * td) / (ga + de) + 273.15;
            mc::check(v && std::fabs(g - want) <= 0.05 && g <= a + 1, "wetbulb", mc::fmt("temperature %g humidity %g pressure %g: got %g, formula %g", a, b, P, g, want)); }
        return {};
    });
}
MC_HARNESS(qnh) {
    World w(2, 2); w.set("v", [](int t, int e, int y, int x) { return (t + e) % 2 ? (double)MV : 4; }); w.set("p", over({MV, NAN, 0, 50000, 90000, 101325, 104000})); static const float E[] = {MV, NAN, 0, 130, 2400, -400}; int k = mc::choose(6); NV(k); vec2 el = w.el; for(int i = 0; i < 4; i++) el[i / 2][i % 2] = E[(k + i) % 6]; w.elevs(el); bool none = mc::choose(4) == 3;
    bool ok = w.run("qnh", "v", none ? "" : "pressureVariable=p"); mc::check(ok == !none, "qnh-rejected", ok ? "accepted without pressure variable" : "rejected"); if(!ok) { w.others("qnh", ""); return; }
    w.check("qnh", "v", [&](int t, int e, int y, int x) -> VD { double p = w.old("p", t, e, y, x), z = el[y][x]; if(!valid(p) || !valid(z)) return {MV, w.old("v", t, e, y, x)}; if(p == 0) return {0}; double k = 287.053 * 0.0065 / 9.80665; return {101325 * pow(pow(p / 101325, k) + z * 0.0065 / 288.15, 1 / k)}; });
}
MC_HARNESS(windDirection) {
    World w(2, 2); w.set("v", over({MV, NAN, 0, 1, 12})); w.set("d", over({MV, INFINITY, 0, 30, 90, 200, 359}, 3)); int kind = mc::choose(5), n = mc::choose(6), b = mc::choose(10), sc = mc::choose(3), op = mc::choose(4); NV(kind); NV(n); NV(b); NV(sc); NV(op); if((n >= 2 || op == 3) && (b > 0 || sc > 0)) mc::skip(); int N = n < 2 ? 9 : n == 2 ? 8 : n == 3 ? 1 : n == 4 ? 0 : 9;
    Table p; p.fill(kind, w, 2, [&](int t, int l) { V v(N); for(int i = 0; i < N; i++) v[i] = i == 0 ? 1 : (i == b ? 0.7f : 0.05f * ((i + t + 2 * l) % 4 - 1.5f)) * (sc == 1 ? 3 : 1); if(sc == 2 && b < N && l == 0 && t == 0) v[b] = n == 1 ? NAN : MV; return v; });
    bool bad = N < 9 || op == 3, nopar = false; bool ok = w.run("windDirection", "v", op == 3 ? "" : "directionVariable=d", mc::choose(2) && n == 5 ? (nopar = true, (ParameterFile*)NULL) : &p); bad = bad || nopar;
    if(bad && !nopar && op != 3) { if(ok) w.check("winddirection-few", "v", [&](int t, int e, int y, int x) -> VD { return {MV, w.old("v", t, e, y, x)}; }); else w.others("winddirection", "v"); return; }   // too few parameters: an error or no valid result
    if(kind == 4 && ok != !bad) { w.others("winddirection", "v"); return; } mc::check(ok == !bad, "winddirection-rejected", ok ? "accepted" : "rejected"); if(!ok) { w.others("winddirection", ""); return; }
    w.check("winddirection", "v", [&](int t, int e, int y, int x) -> VD { double v = w.old("v", t, e, y, x), d = w.old("d", t, e, y, x); if(!valid(d)) return {MV, v}; if(!valid(v)) return {MV}; V q = p.at(w, t, y, x); for(float f : q) if(!valid(f)) return {MV, v}; double f = q[0], r = d * PI / 180; for(int k = 1; k <= 4; k++) f += q[2 * k - 1] * sin(k * r) + q[2 * k] * cos(k * r); return {v * std::max(f, 0.0)}; });
}
MC_HARNESS(regression) {
    World w(2, 2); int multi = mc::choose(3), kind = mc::choose(5), n = mc::range(0, 3), bad = mc::choose(5); NV(multi); NV(kind); NV(n); NV(bad); w.set("v", over({MV, NAN, 0, 1, -2.5f, 3})); if(multi) { w.set("a", over({MV, 0.5f, -2, 4, NAN}, 3)); w.set("b", over({1, 2, INFINITY}, 2)); }
    Table p; p.fill(kind, w, 2, [&](int t, int l) { V v(n); for(int i = 0; i < n; i++) v[i] = (i == 1 ? 1.5f : i == 2 ? -0.25f : 2) + 0.5f * t - l; if(bad < 3 && bad < n && t == 0 && l == 0) v[bad] = MV; if(bad == 3 && n && t == 0 && l == 0) v[n - 1] = NAN; return v; });
    int nv = mc::range(0, 3); if(!multi && nv) mc::skip(); static const char* A[] = {"", "1", "1,a", "1,a,b"}; static const char* B[] = {"", "a", "v,b", "b,1,a"}; if(multi && nv == 0) mc::skip(); NV(nv);
    std::string o = multi ? std::string("variables=") + (multi == 1 ? A[nv] : B[nv]) : mc::choose(2) ? mc::fmt("order=%d", std::max(n - 1, 0)) : ""; bool ok = w.run("regression", "v", o, &p);
    bool err = n == 0 || (multi && n != nv); if(kind == 4 && ok != !err) { w.others("regression", "v"); return; } mc::check(ok == !err, "regression-rejected", ok ? "accepted the wrong number of parameters" : "rejected"); if(!ok || err) { w.others("regression", "v"); return; }
    static const char* AV[] = {"1", "a", "b"}; static const char* BV[4][3] = {{}, {"a"}, {"v", "b"}, {"b", "1", "a"}};
    w.check("regression", "v", [&](int t, int e, int y, int x) -> VD { double v = w.old("v", t, e, y, x), s = 0; if(!valid(v)) return {MV}; V q = p.at(w, t, y, x); for(int i = 0; i < n; i++) { double f = multi ? 0 : pow(v, i); if(multi) { std::string k = multi == 1 ? AV[i] : BV[nv][i]; f = k == "1" ? 1 : w.old(k, t, e, y, x); } if(!valid(q[i]) || !valid(f)) return {MV}; s += q[i] * f; } return {s}; });
}
MC_HARNESS(qq) {
    World w(2, 2); w.set("v", over({MV, NAN, -50, -1, 0, 0.25f, 1, 1.5f, 2, 2.75f, 3, 4, 60})); static const char* PO[] = {"", "1to1", "meanSlope", "nearestSlope", "zero", "steep"}; int po = mc::choose(6), kind = mc::choose(5), n = mc::choose(7), extra = mc::choose(4); NV(po); NV(kind); NV(n); NV(extra);
    static const V P[] = {{}, {5, 1}, {3, 1, 4, 2}, {0, 0, 2, 1, 3, 3}, {-1, 0, 1, 0, 2, 2, 2, 2}, {0, 1, 1, 1, 3, 1.5f, 7, 3}, {1, 2, 3}};
    int miss = mc::choose(3); NV(miss); Table p; p.fill(kind, w, 2, [&](int t, int l) { V v = P[n]; for(size_t i = 0; i < v.size(); i++) v[i] += i % 2 ? 0 : t - 2 * l; if(miss && !v.empty() && t == 0 && l == 0) v[miss == 1 ? 0 : v.size() - 1] = miss == 1 ? MV : NAN; return v; });
    std::string o = po ? mc::fmt("extrapolation=%s", PO[po]) : ""; if(extra) o += extra == 1 ? " extraObs=10 extraFcst=11" : extra == 2 ? " extraObs=-3,0.5 extraFcst=1,-4" : " extraObs=1,2 extraFcst=1"; V eo, ef; if(extra == 1) { eo = {10}; ef = {11}; } if(extra == 2) { eo = {-3, 0.5f}; ef = {1, -4}; }
    bool ok = w.run("qq", "v", o, &p), bad = po == 5 || n == 6 || extra == 3 || (n == 0 && !extra); if(n == 0 && !ok) { w.others("qq", "v"); return; } if(kind == 4 && ok != !bad) { w.others("qq", "v"); return; } mc::check(ok == !bad, "qq-rejected", ok ? "accepted" : "rejected"); if(!ok || bad) { w.others("qq", "v"); return; }
    w.check("qq", "v", [&](int t, int e, int y, int x) -> VD {
        double v = w.old("v", t, e, y, x); V q = p.at(w, t, y, x), ob, fc; for(float f : q) if(!valid(f)) return {v}; if(!valid(v)) return {MV}; for(size_t i = 0; i < q.size(); i += 2) { ob.push_back(q[i]); fc.push_back(q[i + 1]); } ob.insert(ob.end(), eo.begin(), eo.end()); fc.insert(fc.end(), ef.begin(), ef.end()); std::sort(ob.begin(), ob.end()); std::sort(fc.begin(), fc.end()); int N = ob.size();
        double g = w.got("v", t, e, y, x), a = INFINITY, b = -INFINITY; for(int i = 0; i < N; i++) if(fc[i] == v) { a = std::min(a, (double)ob[i]); b = std::max(b, (double)ob[i]); } if(a <= b) { mc::check(g >= a - 1e-4 && g <= b + 1e-4, "qq-point", mc::fmt("value %g on the curve: want %g to %g got %g", v, a, b, g)); return {}; }
        for(int i = 0; i + 1 < N; i++) if(fc[i] < v && v < fc[i + 1]) return {ob[i] + (ob[i + 1] - ob[i]) * (v - fc[i]) / (fc[i + 1] - fc[i])};
        bool low = v < fc[0]; double sl = 1; if(po == 4) sl = 0; else if(N > 1 && po >= 2) { double dO = po == 2 ? ob[N - 1] - ob[0] : low ? ob[1] - ob[0] : ob[N - 1] - ob[N - 2], dF = po == 2 ? fc[N - 1] - fc[0] : low ? fc[1] - fc[0] : fc[N - 1] - fc[N - 2]; if(dF == 0) { mc::check(valid(g), "qq-vertical", mc::fmt("value %g: the result is not valid", v)); return {}; } sl = dO / dF; }
        int k = low ? 0 : N - 1; return {ob[k] + sl * (v - fc[k])};
    });
}
MC_HARNESS(coastal) {
    int ny = mc::range(1, 2); World w(ny, 3); mc::budget(mc::thorough() ? 4 : 3); int rad = mc::pickdev(std::vector<int>{1, 0, 2, 3, 9}), diff = mc::dev(3), nn = mc::choose(2), kind = mc::pickdev(std::vector<int>{2, 3, 4, 1, 0}), n = mc::pickdev(std::vector<int>{3, 2, 4, 1, 0}); NV(rad); NV(diff); NV(nn); NV(kind); NV(n);
    static const V L = {0, 1, 0.5f, 0.04f, NAN, MV}, X = {4, 7, -2, MV, NAN}; vec2 lf = w.lf; vec2 va = w.lf; for(int y = 0; y < ny; y++) for(int x = 0; x < 3; x++) { std::vector<float> c = L; std::swap(c[0], c[(x + y) % 3]); lf[y][x] = mc::pickdev(c); c = X; std::swap(c[0], c[(x + 2 * y) % 3]); va[y][x] = mc::pickdev(c); } w.lafs(lf);
    w.set("v", [&](int t, int e, int y, int x) { double v = va[y][x]; return t + e == 2 ? v : !valid(v) ? 3 : v * (t + 2) + e; }); int bad = mc::dev(4); Table p; p.fill(kind, w, 2, [&](int t, int l) { V v(n); for(int i = 0; i < n; i++) v[i] = 0.5f + i * 0.3f + 0.2f * t - 0.1f * l; if(bad && bad <= n && l == 0) v[bad - 1] = bad == 2 ? NAN : MV; return v; });
    static const float DF[] = {0.1f, 0.7f, 0.02f}; std::string o = mc::fmt("searchRadius=%d useNN=%d", rad, nn) + (diff ? mc::fmt(" minLafDiff=%g", DF[diff]) : ""); bool ok = w.run("coastal", "v", o, &p), err = kind < 2 || n != 3; if(kind == 4 && ok != !err) { w.others("coastal", "v"); return; } mc::check(ok == !err, "coastal-rejected", ok ? "accepted" : "rejected"); if(!ok || err) { w.others("coastal", "v"); return; }
    w.check("coastal", "v", [&](int t, int e, int y, int x) -> VD {
        V q = p.at(w, t, y, x); VD r; double lo = INFINITY, hi = -INFINITY; VD lv, hv; for(int k = 0; k < 2; k++) for(int i = std::max(0, y - rad); i <= std::min(ny - 1, y + rad); i++) for(int j = std::max(0, x - rad); j <= std::min(2, x + rad); j++) { double l = lf[i][j], v = w.old("v", t, e, i, j); if(!valid(l)) continue; if(!k) { lo = std::min(lo, l); hi = std::max(hi, l); } else { if(l == lo) lv.push_back(v); if(l == hi) hv.push_back(v); } }
        if(lv.empty()) { lv.push_back(MV); hv.push_back(MV); } for(double a : lv) for(double b : hv) { double gr = valid(a) && valid(b) && hi - lo > DF[diff] ? (b - a) / (hi - lo) : 0, base = nn ? w.old("v", t, e, y, x) : a; r.push_back(valid(base) && valid(q[0]) && valid(q[1]) && valid(q[2]) ? q[0] + q[1] * base + q[2] * gr : MV); } return r;
    });
}
MC_MAIN
