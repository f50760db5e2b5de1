#include "gp.h"
using namespace gp;
// independent reference functions
static double gammaP(double a, double x, bool upper) {     // regularised incomplete gamma
    if(x <= 0) return upper ? 1 : 0;
    double lg = std::lgamma(a);
    if(x < a + 1) {
        double s = 1 / a, t = s; for(int n = 1; n < 100000; n++) { t *= x / (a + n); s += t; if(t < s * 1e-17) break; }
        double p = s * exp(-x + a * log(x) - lg); return upper ? 1 - p : p;
    }
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d;
    for(int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if(fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if(fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double del = d * c; h *= del; if(fabs(del - 1) < 1e-16) break; }
    double q = exp(-x + a * log(x) - lg) * h; return upper ? q : 1 - q;
}
static double ncdf(double z, bool upper) { return 0.5 * erfc((upper ? z : -z) / sqrt(2)); }
// distribution function of a gamma variable expressed as the standard normal deviate, compared on the closer tail
static bool samedev(double z, double a, double x, double tol) {
    auto dev = [&](double zz) { return zz > 0 ? -log(ncdf(zz, true)) : log(ncdf(zz, false)); };
    bool up = gammaP(a, x, false) > 0.5;
    double t = up ? -log(gammaP(a, x, true)) : log(gammaP(a, x, false));
    return dev(z - tol) <= t + 1e-6 * (1 + fabs(t)) && dev(z + tol) >= t - 1e-6 * (1 + fabs(t));
}
static const vec GRID = {0, 1e-3f, 0.01f, 0.1f, 0.25f, 0.5f, 0.999f, 1, 1.5f, 2, 3.7f, 5, 8, 10, 13, 17, 20, 30, 50, 100, 271.3f, 1000, 10000};
struct Tr { Transform* t = nullptr; std::string name; int kind; float p1 = 0, p2 = 0, p3 = 0; ~Tr() { delete t; } };
static void make(Tr& r, int k) {
    r.kind = k;
    if(k == 0) { r.t = new Identity(); r.name = "identity"; }
    else if(k == 1) { r.t = new Log(); r.name = "log"; }
    else if(k == 2) { r.p1 = mc::pick({0.1f, 0.f, 0.5f, 1.f, 2.f, -0.5f, -1.f, 3.f}); r.t = new BoxCox(r.p1); r.name = "boxcox"; }
    else if(k == 3) { r.p1 = mc::pick({0.1f, 0.5f, 1.f, 2.f}); r.p2 = mc::pick({1.f, 0.3f, 4.f, 50.f}); r.t = new StartedBoxCox(r.p1, r.p2); r.name = "startedboxcox"; }
    else { r.p1 = mc::pick({1.f, 0.5f, 2.f, 7.5f, 0.1f}); r.p2 = mc::pick({1.f, 2.f, 0.25f, 10.f}); r.p3 = mc::pick({0.01f, 0.f, 0.1f}); r.t = new gridpp::Gamma(r.p1, r.p2, r.p3); r.name = "gamma"; }
}
// NAN: not specified; otherwise the transformed value
static double ref(const Tr& r, double x) {
    switch(r.kind) {
        case 0: return x;
        case 1: return x > 0 ? log(x) : NAN;
        case 2: if(x < 0) x = 0; if(r.p1 == 0) return x > 0 ? log(x) : NAN; if(x == 0 && r.p1 < 0) return NAN; return (pow(x, r.p1) - 1) / r.p1;
        case 3: if(x < 0) x = 0; return x <= r.p2 ? x : r.p2 * (1 + (pow(x / r.p2, r.p1) - 1) / r.p1);
        default: return NAN;
    }
}
static bool domain(const Tr& r, double x) { if(r.kind == 4) return x + r.p3 > 1e-9 && (x + r.p3) / r.p2 < 600; return !std::isnan(ref(r, x)) && (r.kind != 2 && r.kind != 3 || x >= 0); }
// loss of precision in single precision: derivative of the inverse times the rounding of the transformed value
static double slack(const Tr& r, double x, double y) {
    double h = std::max(1e-3, 1e-3 * fabs(x)), d;
    if(r.kind == 4) return 2e-3 * (x + r.p3 + r.p2 * 1e-3) * (1 + fabs(y) * 0.2) + 1e-6;
    double a = ref(r, x), b = ref(r, x + h); d = b != a ? h / (b - a) : 1e9;
    return 4e-7 * (1 + fabs(y)) * fabs(d) * 2 + 3e-6 * (1 + fabs(x));
}
MC_HARNESS(roundtrip) {
    Tr r; make(r, mc::choose(5)); NV(r.name); NV(r.p1); NV(r.p2); NV(r.p3); double last = -1e30; vec in = GRID; if(r.kind < 2) for(float v : {-3.f, -0.5f}) in.insert(in.begin(), v);
    std::sort(in.begin(), in.end());
    for(float x : in) {
        if(!domain(r, x)) continue;
        mc::op(2); mc::site("forward"); float y = r.t->forward(x); mc::site("backward"); float z = r.t->backward(y); mc::outcome_of(vec{y}); std::string at = mc::fmt("%s(%g,%g,%g) of %g: forward %g backward %g", r.name.c_str(), r.p1, r.p2, r.p3, x, y, z);
        mc::check(y >= last - 1e-6 * fabs(last), "not-monotone-" + r.name, at + mc::fmt(" previous %g", last)); last = y;
        double w = ref(r, x); if(r.kind != 4) mc::check(close(y, w, 2e-5 * (1 + fabs(w))), "forward-" + r.name, at + mc::fmt(" want %g", w));
        else mc::check(samedev(y, r.p1, (double(x) + r.p3) / r.p2, 2e-5 * (1 + fabs(y))), "forward-gamma", at);
        double tol = slack(r, x, y); if(tol < 0.02 * (1 + fabs(x))) mc::check(close(z, x, tol), "inverse-" + r.name, at);
    }
}
// the other direction: forward undoes backward
MC_HARNESS(inverse) {
    Tr r; make(r, mc::choose(5)); NV(r.name); NV(r.p1); NV(r.p2); NV(r.p3); double last = -1e30;
    for(float y : {-30.f, -6.f, -3.f, -2.f, -1.f, -0.5f, -0.1f, 0.f, 0.1f, 0.3f, 0.5f, 0.9f, 1.f, 2.f, 3.f, 4.f, 6.f, 7.5f}) {
        if(r.kind == 4 && y < -6) continue; bool edge = r.kind == 2 && r.p1 < 0 && 1 + r.p1 * y <= 0; if(edge) continue;   // beyond the largest transformed value
        mc::op(2); mc::site("backward"); float x = r.t->backward(y); std::string at = mc::fmt("%s(%g,%g,%g): backward of %g is %g", r.name.c_str(), r.p1, r.p2, r.p3, y, x); mc::check(valid(x), "backward-missing-" + r.name, at); mc::check(x >= last - 1e-6 * fabs(last), "backward-not-monotone-" + r.name, at); last = x; mc::outcome_of(vec{x});
        if(r.kind == 2 || r.kind == 3) { mc::check(x >= 0, "backward-negative-" + r.name, at); bool below = r.kind == 2 ? r.p1 > 0 && 1 + r.p1 * y <= 0 : y < 0; if(below) { mc::check(x == 0, "backward-below-range-" + r.name, at); continue; } }
        if(r.kind == 4) { mc::check(x >= -r.p3 * 1.0001, "backward-below-range-gamma", at); if((double(x) + r.p3) < 1e-3 * std::max(r.p3, 1e-30f) || x == 0) continue; double s = (double(x) + r.p3) / r.p2; if(r.p3 > 0 && double(x) + r.p3 < 1e-2 * r.p3) continue; mc::check(samedev(y, r.p1, s, 1e-4 * (1 + fabs(y)) + (x + r.p3 < 0.1 * r.p3 ? 1e-3 : 0)), "backward-gamma", at); continue; }
        mc::site("forward"); float z = r.t->forward(x); double w = ref(r, x); if(std::isnan(w)) continue; double dx = 2e-7 * x + 1e-30, d = fabs(ref(r, x + dx) - w); mc::check(close(z, y, 4 * d + 2e-5 * (1 + fabs(y))), "forward-of-backward-" + r.name, at + mc::fmt(" forward %g", z));
    }
}
// fields are transformed element by element, missing values stay missing, shapes (ragged and empty too) are kept
MC_HARNESS(fields) {
    Tr r; int k = mc::choose(5); r.kind = k; if(k == 0) r.t = new Identity(); else if(k == 1) r.t = new Log(); else if(k == 2) r.t = new BoxCox(0.5f); else if(k == 3) r.t = new StartedBoxCox(0.5f, 2); else r.t = new gridpp::Gamma(2, 2, 0.01f);
    int Y = mc::range(0, 3); vec2 f; vec one; vec3 three; static const float V[] = {1, 3.5f, NANF, INFF, 20};
    int full = 0; for(int y = 0; y < Y; y++) { int X = mc::range(0, Y > 2 ? 2 : 3); vec row; for(int x = 0; x < X; x++) row.push_back(V[++full > 4 ? mc::choose(2) + 1 : mc::choose(5)]); f.push_back(row); one.insert(one.end(), row.begin(), row.end()); }
    for(int y = 0; y < Y; y++) { vec2 q; for(size_t x = 0; x < f[y].size(); x++) { vec e; for(size_t i = 0; i <= x; i++) e.push_back(f[y][i]); q.push_back(e); } three.push_back(q); }
    NV(k); NV(f);
    for(int dir = 0; dir < 2; dir++) {
        mc::op(3); mc::site(dir ? "backward" : "forward"); auto S = [&](float v) { return dir ? r.t->backward(v) : r.t->forward(v); };
        vec a = dir ? r.t->backward(one) : r.t->forward(one); vec2 b = dir ? r.t->backward(f) : r.t->forward(f); vec3 c = dir ? r.t->backward(three) : r.t->forward(three); mc::outcome_of(a);
        mc::check(a.size() == one.size() && b.size() == f.size() && c.size() == f.size(), "shape");
        auto eq = [&](float got, float in) { float w = S(in); mc::check(valid(in) ? got == w : !valid(got), dir ? "backward-element" : "forward-element", mc::fmt("%g -> %g, scalar %g", in, got, w)); };
        for(size_t i = 0; i < a.size(); i++) eq(a[i], one[i]);
        for(int y = 0; y < Y; y++) { mc::check(b[y].size() == f[y].size() && c[y].size() == f[y].size(), "shape"); for(size_t x = 0; x < f[y].size(); x++) { eq(b[y][x], f[y][x]); mc::check(c[y][x].size() == three[y][x].size(), "shape"); for(size_t i = 0; i < c[y][x].size(); i++) eq(c[y][x][i], three[y][x][i]); } }
    }
    for(float v : {NANF, INFF, -INFF}) { mc::check(!valid(r.t->forward(v)), "missing-forward"); mc::check(!valid(r.t->backward(v)), "missing-backward"); }
}
MC_HARNESS(parameters) {
    float a = mc::pick({1.f, 0.f, -1.f, NANF, INFF, 0.5f}), b = mc::pick({1.f, 0.f, -1.f, NANF, INFF, 0.5f}), c = mc::pick({0.01f, 0.f, -0.01f, NANF, INFF}); NV(a); NV(b); NV(c);
    auto bad = [](float v) { return !valid(v) || v <= 0; }; mc::op(2);
    mc::site("Gamma"); mc::check(mc::throws([&] { gridpp::Gamma g(a, b, c); }) == (bad(a) || bad(b) || !valid(c) || c < 0), "gamma-parameters");
    mc::site("StartedBoxCox"); mc::check(mc::throws([&] { StartedBoxCox g(a, b); }) == (bad(a) || bad(b)), "startedboxcox-parameters");
}
MC_HARNESS(quantiles) {
    int n = mc::range(0, mc::thorough() ? 3 : 2); static const float L[] = {0.5f, 0, 1, 0.01f, 0.999f, 0.9999f, -0.1f, 1.1f, NANF}; static const float P[] = {1, 2, 7.5f, 0.3f, 40, 0, -1, NANF, INFF}; vec l, s, c; bool bad = false;
    for(int i = 0; i < n; i++) { l.push_back(L[mc::choose(9)]); s.push_back(P[mc::choose(i ? 3 : 9)]); c.push_back(P[mc::choose(i ? 2 : 9)]); bad = bad || !valid(l[i]) || l[i] < 0 || l[i] > 1 || !valid(s[i]) || s[i] <= 0 || !valid(c[i]) || c[i] <= 0; }
    NV(l); NV(s); NV(c); mc::op(); mc::site("gamma_inv"); vec o; bool th = mc::throws([&] { o = gamma_inv(l, s, c); }); mc::check(th == bad, bad ? "invalid-accepted" : "valid-rejected"); if(bad) return;
    mc::check(o.size() == l.size(), "shape"); mc::outcome_of(o);
    for(int i = 0; i < n; i++) { std::string at = mc::fmt("level %g shape %g scale %g: %g", l[i], s[i], c[i], o[i]); if(l[i] == 0) mc::check(fabs(o[i]) < 1e-6, "quantile-0", at); else if(l[i] == 1) mc::check(std::isinf(o[i]) && o[i] > 0, "quantile-1", at); else { double p = gammaP(s[i], o[i] / c[i], false), lo = gammaP(s[i], o[i] / c[i] * (1 - 1e-5), false), hi = gammaP(s[i], o[i] / c[i] * (1 + 1e-5), false); mc::check(lo - 1e-9 <= l[i] && l[i] <= hi + 1e-9, "quantile", at + mc::fmt(" cdf %g", p)); } }
}
MC_HARNESS(sizes) { int a = mc::range(0, 3), b = mc::range(0, 3), c = mc::range(0, 3); mc::op(); bool th = mc::throws([&] { vec o = gamma_inv(vec(a, 0.5f), vec(b, 1), vec(c, 1)); mc::check(o.size() == (size_t)b, "shape"); }); mc::check(th == (a != b || b != c), "size-mismatch"); }
MC_MAIN
