// P30: probabilistic calibration. All small ensembles over an alphabet, with the parameters of the distributions varied, are calibrated;
// each member must get the value at its rank's quantile of the distribution computed from the raw ensemble: the value is put into an
// independently computed distribution function. Invalid members or parameters must leave the values as they were. Rank shuffling and
// the distribution functions themselves are checked on all inputs of a small domain.
#include "cal.h"
#include <algorithm>
using namespace cal;
namespace {
typedef std::vector<float> V;
double gammaP(double a, double x) {     // regularised incomplete gamma
    if(x <= 0) return 0; if(std::isinf(x)) return 1; double lg = std::lgamma(a);
    if(x < a + 1) { double s = 1 / a, t = s; for(int i = 1; i < 100000; i++) { t *= x / (a + i); s += t; if(t < s * 1e-16) break; } return s * exp(-x + a * log(x) - lg); }
    double b = x + 1 - a, c = 1e300, d = 1 / b, h = d; for(int i = 1; i < 100000; i++) { double an = -i * (i - a); b += 2; d = an * d + b; if(fabs(d) < 1e-300) d = 1e-300; c = b + an / c; if(fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if(fabs(e - 1) < 1e-16) break; } return 1 - exp(-x + a * log(x) - lg) * h;
}
double betacf(double a, double b, double x) { double c = 1, d = 1 - (a + b) * x / (a + 1); if(fabs(d) < 1e-300) d = 1e-300; d = 1 / d; double h = d; for(int m = 1; m < 20000; m++) { double n = m * (b - m) * x / ((a + 2 * m - 1) * (a + 2 * m)); d = 1 + n * d; if(fabs(d) < 1e-300) d = 1e-300; c = 1 + n / c; if(fabs(c) < 1e-300) c = 1e-300; d = 1 / d; h *= d * c; n = -(a + m) * (a + b + m) * x / ((a + 2 * m) * (a + 2 * m + 1)); d = 1 + n * d; if(fabs(d) < 1e-300) d = 1e-300; c = 1 + n / c; if(fabs(c) < 1e-300) c = 1e-300; d = 1 / d; double e = d * c; h *= e; if(fabs(e - 1) < 1e-15) break; } return h; }
double betaI(double a, double b, double x) { if(x <= 0) return 0; if(x >= 1) return 1; double f = exp(std::lgamma(a + b) - std::lgamma(a) - std::lgamma(b) + a * log(x) + b * log1p(-x)); return x < (a + 1) / (a + b + 2) ? f * betacf(a, b, x) / a : 1 - f * betacf(b, a, 1 - x) / b; }
double student(double z, double v) { if(std::isinf(z)) return z > 0; double p = 0.5 * betaI(v / 2, 0.5, v / (v + z * z)); return z > 0 ? 1 - p : p; }
double normal(double z) { return 0.5 * erfc(-z / sqrt(2.0)); }
enum Kind { ZAGA, GAUSS, BCT };
// the distribution given the raw ensemble statistics: usable, and its distribution function
struct Dist {
    Kind k; V p; double m, s, mu = 0, sg = 0, nu = 0, tau = 0, p0 = 0; bool missing = false, extreme = false;
    Dist(Kind k_, const V& p_, double mean, double second) : k(k_), p(p_), m(mean), s(second) {
        for(float f : p) missing = missing || !valid(f); if(!valid(m) || !valid(s)) missing = true; if(missing) return; if(m < 0) { missing = true; return; }
        if(k == ZAGA) { mu = exp(p[0] + p[1] * cbrt(m)); sg = exp(p[2] + p[3] * m); double l = p[4] + p[5] * m + p[6] * s + p[7] * cbrt(m); p0 = 1 / (1 + exp(-l)); extreme = mu > 1e18 || mu < 1e-18 || sg > 300 || sg < 1e-3; }
        if(k == GAUSS) { mu = m; sg = exp(p[0] + p[1] * s); if(mu <= 0) missing = true; extreme = sg > 1e8 || sg < 1e-8; }
        if(k == BCT) { mu = p[0] + p[1] * m; sg = exp(p[2] + p[3] * cbrt(s)); nu = p[4] + p[5] * m; tau = exp(std::min(p[6], 10.f)); if(mu < 0) missing = true; extreme = sg > 1e3 || sg < 1e-4 || tau < 0.05 || fabs(nu) > 10 || mu == 0 || (nu != 0 && fabs(nu * sg) < 1e-3); }
    }
    double cdf(double v) const {
        if(k == ZAGA) return v < 0 ? 0 : p0 + (1 - p0) * gammaP(1 / (sg * sg), v / (sg * sg * mu)); if(k == GAUSS) return normal((v - mu) / sg);
        if(v <= 0) return 0; if(nu == 0) return student(log(v / mu) / sg, tau); double z = (pow(v / mu, nu) - 1) / (sg * nu), f = student(1 / (sg * fabs(nu)), tau); return nu > 0 ? (student(z, tau) - (1 - f)) / f : student(z, tau) / f;
    }
    // is v the value at quantile q?
    bool at(double q, double v) const {
        if(!valid(v)) return cdf(1e37) < q; /* too large to be represented */ if(k == ZAGA && v == 0) return q <= p0 + 1e-5 || cdf(1e-30) >= q - 1e-5; if(k == ZAGA && q < p0 - 1e-5) return false; if(k != GAUSS && v < 0) return false; if(q <= 0) return v == 0;
        double e = 2e-5 * std::max(1.0, std::fabs(v)) * (k == GAUSS ? 1 : 0) + 1e-5 * std::fabs(v), lo = cdf(v - e), hi = cdf(v + e); return lo - 2e-5 <= q && q <= hi + 2e-5;
    }
    std::string str() const { return mc::fmt("mean %g second %g mu %g sigma %g nu %g tau %g p0 %g", m, s, mu, sg, nu, tau, p0); }
};
// one calibrated ensemble
void ensemble(const std::string& tag, const Dist& d, bool usable, const VD& raw, const VD& got) {
    int n = raw.size(); bool same = true, any = true; for(int e = 0; e < n; e++) { same = same && near(raw[e], got[e], 0); any = any && valid(got[e]); } std::string at = "raw " + vs(raw) + " calibrated " + vs(got) + " " + d.str();
    if(!usable || d.missing) { mc::check(same, tag + "-invalid", "changed though members or parameters are invalid: " + at); return; }
    if(d.extreme) { if(same) return; mc::check(any, tag + "-novalue", at); if(!any) return; }
    VD s = got; std::sort(s.begin(), s.end()); if(!d.extreme) for(int e = 0; e < n; e++) mc::check(d.at((e + 0.5) / n, s[e]), tag + "-quantile", mc::fmt("rank %d value %g is at level %g, want %g: ", e, s[e], d.cdf(s[e]), (e + 0.5) / n) + at); else for(int e = 0; e < n; e++) mc::check(d.k == GAUSS || s[e] >= 0, tag + "-range", at);
    for(int a = 0; a < n; a++) for(int b = 0; b < n; b++) if(raw[a] < raw[b]) mc::check(got[a] <= got[b], tag + "-rank", at);
}
// parameters: 4 sets, and one value replaced
V params(Kind k, int set, int bad, int with) {
    static const V Z[] = {{-0.5f, 0.8f, -0.3f, 0.01f, 0.5f, -0.4f, 1, -0.5f}, {0, 1, 0, 0, -3, 0, 0, 0}, {1, -0.2f, -2, 0, 40, -30, 100, 0}, {0.3f, 0.5f, 1, -0.2f, 0, 0, 0, 0}}, G[] = {{-1, 0.3f}, {0.5f, 0}, {-4, 2}, {2, -1}}, B[] = {{0.2f, 0.9f, -1.5f, 0.1f, 0.5f, 0.05f, 2}, {1, 0, -2, 0, 0, 0, 30}, {0.1f, 1.1f, -1, 0, -0.8f, 0.1f, 0.5f}, {-3, 1, 0, 0.2f, 1, 0, 1}};
    V p = k == ZAGA ? Z[set] : k == GAUSS ? G[set] : B[set]; static const float W[] = {MV, NAN, 200, -200, 1e30f, INFINITY, 0}; if(bad < (int)p.size() && bad >= 0) p[bad] = W[with]; return p;
}
// mean and fraction or spread of the neighbourhood ensemble; false if a member is missing
bool stats(World& w, Kind k, int t, int y, int x, int r, int win, double thr, double maxmean, double& m, double& s) {
    VD v; bool ok = true, own = true; for(int e = 0; e < w.ne; e++) { if(!valid(w.old("v", t, e, y, x))) own = false; for(int i = std::max(0, y - r); i <= std::min(w.ny - 1, y + r); i++) for(int j = std::max(0, x - r); j <= std::min(w.nx - 1, x + r); j++) { double c = 0; bool g = true; for(int u = t - win + 1; u <= t; u++) { double a = w.old("v", u, e, i, j); g = g && valid(a); c += a; } if(g) v.push_back(c); else ok = false; } }
    if(k == GAUSS ? !own : !ok) return false; m = 0; for(double c : v) m += c / v.size(); s = 0; if(k == ZAGA) for(double c : v) s += (c <= thr) / (double)v.size(); else { for(double c : v) s += (c - m) * (c - m) / v.size(); s = sqrt(s); } if(k != GAUSS) m = std::min(m, maxmean); return true;
}
void members(Kind k, World& w) {   // a small domain of ensembles: those at the last time and first cell are free
    static const V Z = {0, 0.3f, 1, 6, MV, 150, -1, NAN}, G = {280, 281.5f, 279.9f, MV, 1, -5, NAN, 0}, B = {0, 3, 3.5f, 12, MV, 150, NAN, -2}; const V& a = k == ZAGA ? Z : k == GAUSS ? G : B; std::vector<int> c(w.ne); for(int e = 0; e < w.ne; e++) { c[e] = mc::choose(a.size()); NV(a[c[e]]); }
    w.set("v", [&](int t, int e, int y, int x) { int i = (w.nt - 1 - t) + x * 2; return i == 0 ? a[c[e]] : a[(c[(e + i) % w.ne] + i) % 4] ; });
}
void run(Kind k) {
    int ne = mc::range(1, mc::thorough() ? 4 : 3); World w(1, 2, ne, 2); members(k, w); mc::budget(2); int kind = mc::pickdev(std::vector<int>{0, 1, 2, 3}), r = k == BCT ? 0 : mc::dev(2), set = mc::choose(4), bad = mc::dev(9) - 1, with = bad >= 0 ? mc::choose(7) : 0, o = mc::dev(4); NV(kind); NV(r); NV(set); NV(bad); NV(with); NV(o);
    std::string opt; double thr = 0.5, mx = 100; if(k != BCT) opt = mc::fmt("neighbourhoodSize=%d ", r); if(k == ZAGA && o == 1) { thr = 2; opt += "fracThreshold=2 "; } if(k != GAUSS && o == 2) { mx = 2; opt += "maxEnsMean=2 "; } bool six = k == ZAGA && o == 3; if(six) opt += "6h=1";
    auto par = [&](int t, int l) { V p = params(k, set, bad, with); if(t && !p.empty() && bad != 0) p[0] += 0.3f; if(l) { p = params(k, (set + 1) % 4, -1, 0); } return p; }; Table p; p.fill(kind, w, 2, par); const char* N[] = {"zaga", "gaussian", "bct"};
    bool ok = w.run(N[k], "v", opt, &p); mc::check(ok, std::string(N[k]) + "-rejected", "rejected: " + opt); w.others(N[k], "v"); if(!ok) return;
    for(int t = 0; t < 2; t++) for(int x = 0; x < 2; x++) { VD raw, got; for(int e = 0; e < ne; e++) { raw.push_back(w.old("v", t, e, 0, x)); got.push_back(w.got("v", t, e, 0, x)); } double m = MV, s = MV; bool u = stats(w, k, t, 0, x, r, 1, thr, mx, m, s); V q = p.at(w, t, 0, x); ensemble(N[k], Dist(k, q, u ? m : MV, u ? s : MV), u, raw, got); }
}
}
MC_HARNESS(zaga) { run(ZAGA); }
MC_HARNESS(gaussian) { run(GAUSS); }
MC_HARNESS(bct) { run(BCT); }
// probability of precipitation and quantile variables
MC_HARNESS(pop) {
    int six = mc::choose(2), nt = six ? 7 : 2, ne = mc::range(1, 2); World w(1, 2, ne, nt); static const float A[] = {0, 0.3f, 2, 7, MV, -1}; int c[2]; for(int e = 0; e < ne; e++) { c[e] = mc::choose(6); NV(c[e]); } int tz = six ? mc::range(0, 6) : 1; w.set("v", [&](int t, int e, int y, int x) { return t == tz && x == 0 ? A[c[e]] : A[(t * 2 + e + x) % 4] / (six ? 4 : 1); }); w.set("pop", [](int t, int e, int y, int x) { return 7 + t; }); w.set("lo", [](int t, int e, int y, int x) { return 8; }); w.set("hi", [](int t, int e, int y, int x) { return 9; });
    mc::budget(2); int kind = mc::dev(4), r = mc::dev(2), set = mc::choose(4), bad = mc::dev(9) - 1, thr = mc::dev(3), qs = mc::choose(4), mxo = mc::dev(2); NV(kind); NV(r); NV(set); NV(bad); NV(thr); NV(qs); static const double TH[] = {0.5, 0, 3}; double mx = mxo ? 2 : 100;
    Table p; p.fill(kind, w, nt, [&](int t, int l) { V q = params(ZAGA, (set + l) % 4, bad, 0); if(t && bad != 0) q[0] += 0.1f * t; return q; });
    std::string o = mc::fmt("popVariable=pop neighbourhoodSize=%d 6h=%d", r, six) + (thr ? mc::fmt(" popThreshold=%g", TH[thr]) : "") + (mxo ? " maxEnsMean=2" : "") + (qs & 1 ? " precipLowQuantile=0.2 lowVariable=lo" : "") + (qs & 2 ? " precipHighQuantile=0.9 highVariable=hi" : "");
    bool ok = w.run("zaga", "v", o, &p); mc::check(ok, "pop-rejected", "rejected: " + o); if(!ok) return;
    for(int t = 0; t < nt; t++) for(int e = 0; e < ne; e++) for(int x = 0; x < 2; x++) {
        mc::check(near(w.old("v", t, e, 0, x), w.got("v", t, e, 0, x), 0), "pop-input", "the precipitation was changed"); double m = MV, s = MV; bool early = six && t < 5, u = !early && stats(w, ZAGA, t, 0, x, r, six ? 6 : 1, 0.5, mx, m, s); Dist d(ZAGA, p.at(w, t, 0, x), u ? m : MV, u ? s : MV); double g = w.got("pop", t, e, 0, x), lo = w.got("lo", t, e, 0, x), hi = w.got("hi", t, e, 0, x); std::string at = mc::fmt("time %d member %d cell %d: pop %g low %g high %g ", t, e, x, g, lo, hi) + d.str();
        if(!(qs & 1)) mc::check(lo == 8, "pop-low-untouched", at); if(!(qs & 2)) mc::check(hi == 9, "pop-high-untouched", at); if(early) { mc::check(!valid(g), "pop-early", at); continue; }
        if(d.missing) { mc::check(!valid(g) || g == 7 + t, "pop-missing", at); if(qs & 1) mc::check(!valid(lo) || lo == 8, "low-missing", at); if(qs & 2) mc::check(!valid(hi) || hi == 9, "high-missing", at); continue; } if(d.extreme) { mc::check(!valid(g) || (g >= 0 && g <= 1), "pop-range", at); continue; }
        mc::check(valid(g) && std::fabs(g - (1 - d.cdf(TH[thr]))) <= 1e-4, "pop", mc::fmt("want %g ", 1 - d.cdf(TH[thr])) + at); if(qs & 1) mc::check(d.at(0.2, lo), "low", at); if(qs & 2) mc::check(d.at(0.9, hi), "high", at);
    }
}
// the distribution functions
MC_HARNESS(functions) {
    Kind k = (Kind)mc::choose(3); static const float M[] = {MV, 0, 0.2f, 3, 80, -1, NAN}, S[] = {MV, 0, 0.4f, 1, 2.5f, -0.1f}, Q[] = {0.001f, 0.05f, 0.3f, 0.5f, 0.77f, 0.95f, 0.9999f, 1, -0.1f, 1.5f}; float m = M[mc::choose(7)], s = S[mc::choose(6)]; int set = mc::choose(4), bad = mc::choose(9) - 1, with = bad >= 0 ? mc::choose(7) : 0; NV(k); NV(m); NV(s); NV(set); NV(bad); NV(with); V p = params(k, set, bad, with); Parameters P(p); Dist d(k, p, m, s); if(k == ZAGA && valid(s) && (s < 0 || s > 1)) d.missing = true; if(k != ZAGA && valid(s) && s < 0) d.missing = true;
    mc::site("distribution"); double last = -INFINITY; std::vector<float> T = {-1, 0, 0.1f, 1, 5, 40, 300, MV};
    for(float q : Q) { double v = 0; mc::op(); bool r = rejected([&]() { v = k == ZAGA ? CalibratorZaga::getInvCdf(q, m, s, P) : k == GAUSS ? CalibratorGaussian::getInvCdf(q, m, s, P) : CalibratorBct::getInvCdf(q, m, s, P); }); std::string at = mc::fmt("level %g gives %g, whose level is %g: ", q, v, d.missing ? NAN : d.cdf(v)) + d.str(); mc::check(!r, "inverse-rejected", at); if(r) continue; if(q < 0 || q >= 1 || d.missing) { mc::check(!valid(v), "inverse-invalid", at); continue; } if(d.extreme) { mc::check(!valid(v) || k == GAUSS || v >= 0, "inverse-range", at); if(valid(v)) { mc::check(v >= last, "inverse-monotone", at); last = v; } continue; } mc::check(d.at(q, v), "inverse", at); if(valid(v)) { mc::check(v >= last, "inverse-monotone", at); last = v; } }
    last = -1; if(k == BCT) return; for(float t : T) { double v = 0; mc::op(); bool r = rejected([&]() { v = k == ZAGA ? CalibratorZaga::getCdf(t, m, s, P) : CalibratorGaussian::getCdf(t, m, s, P); }); std::string at = mc::fmt("threshold %g gives %g, want %g: ", t, v, d.missing ? NAN : d.cdf(t)) + d.str(); mc::check(!r, "cdf-rejected", at); if(r) continue; if(!valid(t)) { mc::check(!valid(v), "cdf-missing", at); continue; } if(d.missing) { mc::check(!valid(v) || (k == ZAGA && t < 0), "cdf-invalid", at); continue; } if(d.extreme) { mc::check(!valid(v) || (v >= 0 && v <= 1), "cdf-range", at); continue; } mc::check(valid(v) && std::fabs(v - d.cdf(t)) <= 2e-5, "cdf", at); mc::check(v >= last, "cdf-monotone", at); last = v; }
    if(k == ZAGA) { double v = CalibratorZaga::getP0(m, s, P); mc::check(d.missing ? !valid(v) : (valid(v) && std::fabs(v - d.p0) < 1e-5), "p0", mc::fmt("want %g got %g ", d.p0, v) + d.str()); }
}
// reordering after the ranks of other values
MC_HARNESS(shuffle) {
    static const float A[] = {1, 2, -3, MV, NAN}; int n = mc::range(0, mc::thorough() ? 5 : 4), dn = mc::choose(3) - 1, m = std::max(0, n + (n <= 2 ? dn : 0)); if(n > 2 && dn) mc::skip(); V b(n), a(m); bool miss = n != m; for(auto& x : b) { x = A[mc::choose(5)]; miss = miss || !valid(x); } for(auto& x : a) { x = A[mc::choose(5)] * 10; if(x == MV * 10) x = MV; miss = miss || !valid(x); }
    V o = a; mc::site("shuffle"); mc::op(); Calibrator::shuffle(b, a); std::string at = "before " + vs(VD(b.begin(), b.end())) + " after " + vs(VD(o.begin(), o.end())) + " got " + vs(VD(a.begin(), a.end())); if(miss) { bool same = a.size() == o.size(); for(size_t i = 0; same && i < o.size(); i++) same = near(o[i], a[i], 0); mc::check(same, "shuffle-invalid", at); return; }
    V x = a, y = o; std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); mc::check(x == y, "shuffle-values", at); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) if(b[i] < b[j]) mc::check(a[i] <= a[j], "shuffle-rank", at);
}
MC_MAIN
