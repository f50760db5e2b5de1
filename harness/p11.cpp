#include "gp.h"
using namespace gp;
static const Extrapolation POL[] = {OneToOne, MeanSlope, NearestSlope, Zero, Unchanged};
static const char* pname(Extrapolation e) { return e == OneToOne ? "OneToOne" : e == MeanSlope ? "MeanSlope" : e == NearestSlope ? "NearestSlope" : e == Zero ? "Zero" : "Unchanged"; }
static bool defined_ = true;
static double ref(double x, const std::vector<double>& R, const std::vector<double>& F, Extrapolation below, Extrapolation above) {
    int n = F.size(); defined_ = true; if(!valid(x)) return NAN; if(x >= F[0] && x <= F[n - 1]) return rinterp(x, F, R);
    bool lo = x < F[0]; Extrapolation p = lo ? below : above; double r0 = lo ? R[0] : R[n - 1], f0 = lo ? F[0] : F[n - 1], s = 1;
    if(p == Unchanged) return x; if(p == Zero) return r0;
    if(n > 1 && p == MeanSlope) { s = (R[n - 1] - R[0]) / (F[n - 1] - F[0]); if(F[n - 1] == F[0]) defined_ = false; }
    if(n > 1 && p == NearestSlope) { int i = lo ? 0 : n - 2; s = (R[i + 1] - R[i]) / (F[i + 1] - F[i]); if(F[i + 1] == F[i]) defined_ = false; }
    return r0 + s * (x - f0);
}
static vec sorted(int n, bool strict) { static const float A[] = {-3, 0, 0.5f, 2, 7}; vec v; int lo = 0; for(int i = 0; i < n; i++) { int k = lo + mc::choose(5 - lo); v.push_back(A[k]); lo = strict ? k + 1 : k; if(lo > 4 && i + 1 < n) mc::skip(); } return v; }
MC_HARNESS(apply) {
    int n = mc::range(1, mc::thorough() ? 5 : 4); vec F = sorted(n, false), R; for(int i = 0; i < n; i++) R.push_back(mc::pick({-1.f, 0.f, 4.f, 4.5f}));
    NV(F); NV(R); vec X = {-10, -3, INFF, 0, 0.25f, 0.5f, 1, 2, 3.5f, 7, 20, NANF}; auto RD = D(R), FD = D(F);
    for(auto b : POL) for(auto a : POL) {
        mc::op(4); mc::site("apply_curve"); vec v1 = apply_curve(X, R, F, b, a); vec2 half{vec(X.begin(), X.begin() + 6), vec(X.begin() + 6, X.end())}; vec2 v2 = apply_curve(half, R, F, b, a);
        vec3 c3(2, vec2(6, R)), f3(2, vec2(6, F)); c3[1][2][0] += 100; vec2 v3 = apply_curve(half, c3, f3, b, a); mc::outcome_of(v1);
        mc::check(v1.size() == X.size() && v2.size() == 2 && v2[1].size() == 6 && v3.size() == 2 && v3[1].size() == 6, "shape");
        for(size_t i = 0; i < X.size(); i++) {
            if(std::isinf(X[i])) { mc::check(!valid(v1[i]) && !valid(v2[i / 6][i % 6]) && !valid(v3[i / 6][i % 6]) && !valid(apply_curve(X[i], R, F, b, a)), "apply_curve-infinite", mc::fmt("below %s above %s: %g %g", pname(b), pname(a), v1[i], v3[i / 6][i % 6])); continue; }
            double w = ref(X[i], RD, FD, b, a); if(!defined_) continue; double tol = 1e-4 * (1 + fabs(w)); float s = apply_curve(X[i], R, F, b, a); std::string at = mc::fmt("x %g below %s above %s: want %g", X[i], pname(b), pname(a), w);
            mc::check(close(s, w, tol), "apply_curve", at + mc::fmt(" got %g", s)); mc::check(close(v1[i], w, tol), "apply_curve-vector", at + mc::fmt(" got %g", v1[i])); mc::check(close(v2[i / 6][i % 6], w, tol), "apply_curve-field", at + mc::fmt(" got %g", v2[i / 6][i % 6]));
            auto R2 = D(c3[i / 6][i % 6]); w = ref(X[i], R2, FD, b, a); mc::check(close(v3[i / 6][i % 6], w, 1e-4 * (1 + fabs(w))), "apply_curve-percell", at + mc::fmt(" got %g", v3[i / 6][i % 6]));
        }
    }
}
MC_HARNESS(interpolation) {
    int n = mc::range(0, 5); vec X = sorted(n, false), Y; for(int i = 0; i < n; i++) Y.push_back(mc::pick({1.f, -2.f, 10.f})); vec q = {-10, -3, -1.5f, 0, 0.2f, 0.5f, 1, 2, 6.9f, 7, 8, NANF, INFF}; NV(X); NV(Y);
    mc::op(2); mc::site("interpolate"); vec r = interpolate(q, X, Y); mc::outcome_of(r); mc::check(r.size() == q.size(), "shape"); for(size_t i = 0; i < q.size(); i++) { double w = rinterp(q[i], D(X), D(Y)); mc::check(close(r[i], w, 1e-4), "interpolate-vector", mc::fmt("x %g: %g want %g", q[i], r[i], w)); mc::check(close(interpolate(q[i], X, Y), w, 1e-4), "interpolate", mc::fmt("x %g: want %g", q[i], w)); }
}
MC_HARNESS(qm_curve) {
    int n = mc::range(0, 4); vec R, F; for(int i = 0; i < n; i++) R.push_back(mc::pick({3.f, -1.f, 8.f, 2.f})); for(int i = 0; i < n; i++) F.push_back(mc::pick({5.f, 0.f, 1.f})); int m = mc::range(0, 2); vec Q; for(int i = 0; i < m; i++) Q.push_back(mc::pick({0.f, 0.3f, 0.5f, 1.f}));
    NV(R); NV(F); NV(Q); mc::op(); mc::site("quantile_mapping_curve"); vec of{99, 99, 99}; vec o = quantile_mapping_curve(R, F, of, Q); mc::outcome_of(o); mc::outcome_of(of); vec sr = R, sf = F; std::sort(sr.begin(), sr.end()); std::sort(sf.begin(), sf.end());
    if(m == 0 || n <= 1) { mc::check(o == sr && of == sf, "qm-sorted"); return; }
    mc::check(o.size() == Q.size() && of.size() == Q.size(), "shape"); for(int i = 0; i < m; i++) { double p = Q[i] * (n - 1); int a = std::max(0, (int)floor(p - 1e-5)), b = std::min(n - 1, (int)ceil(p + 1e-5)); mc::check(o[i] >= sr[a] && o[i] <= sr[b] && of[i] >= sf[a] && of[i] <= sf[b], "qm-quantile", mc::fmt("level %g", Q[i])); bool same = false; for(int k = a; k <= b; k++) if(close(o[i], sr[k], 1e-5) && close(of[i], sf[k], 1e-5)) same = true; mc::check(same || o[i] != (int)o[i] || of[i] != (int)of[i], "qm-pairing"); }
}
MC_HARNESS(qm_invalid) { vec R{1, 2, 3}, F{1, 2, 3}, o; float q = mc::pick({-0.1f, 1.1f, NANF, INFF}); mc::op(2); mc::check(mc::throws([&] { quantile_mapping_curve(R, F, o, vec{0.5f, q}); }), "qm-level-accepted"); mc::check(mc::throws([&] { quantile_mapping_curve(R, vec{1, 2}, o); }), "qm-size-accepted"); }
static void mono(const vec& R, const vec& F) {
    NV(R); NV(F); vec of{9, 9}; mc::op(); mc::site("monotonize_curve"); vec o = monotonize_curve(R, F, of); mc::outcome_of(of); mc::check(o.size() == of.size(), "shape");
    for(size_t i = 1; i < of.size(); i++) mc::check(of[i] > of[i - 1], "monotonize-not-increasing", mc::fmt("%g then %g", of[i - 1], of[i]));
    size_t k = 0; std::vector<int> kept; for(size_t i = 0; i < of.size(); i++) { while(k < F.size() && !(F[k] == of[i] && R[k] == o[i])) k++; mc::check(k < F.size(), "monotonize-not-subcurve"); kept.push_back(k++); }
    for(size_t p = 0; p < F.size(); p++) { if(!valid(F[p]) || !valid(R[p])) continue; bool inside = std::find_if(of.begin(), of.end(), [&](float x) { return x == F[p]; }) != of.end(); bool clear = true, bad = false;
        for(size_t i = 0; i < F.size(); i++) if(i != p && valid(F[i]) && valid(R[i])) { double d = i < p ? F[p] - F[i] : F[i] - F[p]; if(d <= 0.25) clear = false; if(d < -0.25) bad = true; }
        if(clear) mc::check(inside, "monotonize-dropped", mc::fmt("point %zu", p)); bool dup = false; for(size_t i = 0; i < F.size(); i++) if(i != p && F[i] == F[p]) dup = true; if(bad && !dup) mc::check(!inside, "monotonize-kept", mc::fmt("point %zu", p)); }
}
MC_HARNESS(monotone) { int n = mc::range(1, mc::thorough() ? 7 : 6); vec R, F; for(int i = 0; i < n; i++) { F.push_back(mc::pick({0.f, 1.f, 2.f, 3.5f, NANF})); R.push_back(i == 2 && mc::flip() ? NANF : 10 * i); } mono(R, F); }
MC_HARNESS(monotone_fine) { int n = mc::range(1, 6); vec R, F; for(int i = 0; i < n; i++) { F.push_back(mc::pick({0.f, 0.05f, 0.15f, 0.5f, 1.f})); R.push_back(i); } mono(R, F); }
// curves of realistic length
MC_HARNESS(sizes) {
    int n = mc::pick({9, 33, 120, 500}), b = mc::choose(4), st = mc::choose(2); vec F, R; for(int i = 0; i < n; i++) { F.push_back(b == 3 ? 250 + i * 0.1f : st ? -20 + i * 0.5f + (i % 3) * 0.1f : (i - i % 2 * 0.25f)); R.push_back(b == 0 ? F[i] * 0.9f + 1 : b == 1 ? F[i] + (i * 7) % 5 : b == 2 ? 3 : F[i] - 0.2f * (i % 4)); } auto RD = D(R), FD = D(F);
    vec X; for(int i = 0; i < 90; i++) X.push_back(F[0] + (F[n - 1] - F[0]) * (i - 7) / 76.f); for(int i = 0; i < n; i += 1 + n / 40) X.push_back(F[i]); X.push_back(NANF); while(X.size() % 6) X.push_back(0); NV(n); NV(b); NV(st); int h = X.size() / 6; vec2 f(6); for(size_t i = 0; i < X.size(); i++) f[i / h].push_back(X[i]); vec3 c3(6, vec2(h, R)), f3(6, vec2(h, F)); for(int i = 0; i < 6; i++) for(int j = 0; j < h; j++) for(float& v : c3[i][j]) v += i * 3 + j;
    for(auto lo : POL) for(auto hi : POL) { mc::op(3); mc::site("apply_curve"); vec v1 = apply_curve(X, R, F, lo, hi); vec2 v2 = apply_curve(f, R, F, lo, hi), v3 = apply_curve(f, c3, f3, lo, hi); mc::outcome_of(v1);
        for(size_t i = 0; i < X.size(); i++) { double w = ref(X[i], RD, FD, lo, hi); if(!defined_) continue; double tol = 3e-4 * (1 + fabs(w)); std::string at = mc::fmt("x %g below %s above %s: want %g", X[i], pname(lo), pname(hi), w);
            mc::check(close(v1[i], w, tol), "sizes-vector", at + mc::fmt(" got %g", v1[i])); mc::check(close(v2[i / h][i % h], w, tol), "sizes-field", at); auto R2 = D(c3[i / h][i % h]); w = ref(X[i], R2, FD, lo, hi); mc::check(close(v3[i / h][i % h], w, 3e-4 * (1 + fabs(w))), "sizes-percell", at); } }
    mc::op(); vec iv = interpolate(X, F, R); for(size_t i = 0; i < X.size(); i++) mc::check(close(iv[i], rinterp(X[i], FD, RD), 3e-4 * (1 + fabs(rinterp(X[i], FD, RD)))), "sizes-interpolate");
    vec o(R.rbegin(), R.rend()), fr(F.rbegin(), F.rend()), of, sr = R; std::sort(sr.begin(), sr.end()); mc::op(2); vec q1 = quantile_mapping_curve(o, fr, of); mc::check(q1 == sr && of == F, "sizes-qm"); vec lv; for(int i = 0; i <= 20; i++) lv.push_back(i / 20.f); q1 = quantile_mapping_curve(o, fr, of, lv); mc::check(q1.size() == lv.size() && of.size() == lv.size(), "sizes-qm-shape"); for(size_t i = 0; i < lv.size(); i++) { double p = (double)lv[i] * (n - 1); int A = std::max(0, (int)floor(p - 1e-3)), B = std::min(n - 1, (int)ceil(p + 1e-3)); mc::check(q1[i] >= sr[A] - 1e-4 && q1[i] <= sr[B] + 1e-4 && of[i] >= F[A] - 1e-4 && of[i] <= F[B] + 1e-4, "sizes-qm-quantile"); }
}
MC_MAIN
