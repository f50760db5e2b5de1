#include "gp.h"
using namespace gp;
static const Metric MET[] = {Ets, Ts, Kss, Pc, Bias, Hss};
static const char* mname(Metric m) { return m == Ets ? "ets" : m == Ts ? "ts" : m == Kss ? "kss" : m == Pc ? "pc" : m == Bias ? "bias" : "hss"; }
static const double UNDEF = 1e30;   // degenerate table whose score is not specified
static double score(double a, double b, double c, double d, Metric m) {
    double n = a + b + c + d, hits = n > 0 ? (a + b) * (a + c) / n : 0, q;
    switch(m) {
        case Ets: if(n == 0) return NAN; q = a + b + c - hits; return q == 0 ? NAN : (a - hits) / q;
        case Ts: return a + b + c == 0 ? NAN : a / (a + b + c);
        case Pc: return n == 0 ? NAN : (a + d) / n;
        case Kss: return (a + c) * (b + d) == 0 ? NAN : a / (a + c) - b / (b + d);
        case Bias: if(n == 0) return UNDEF; return b == c ? 1 : 1 - fabs(b - c) / (b + c);
        default: q = (a + c) * (c + d) + (a + b) * (b + d); return q == 0 ? NAN : 2 * (a * d - b * c) / q;
    }
}
struct T { double a = 0, b = 0, c = 0, d = 0; };
static T table(const vec& r, const vec& f, float rt, float ft) {
    T t;
    for(size_t i = 0; i < r.size(); i++) {
        if(!valid(r[i]) || !valid(f[i])) continue;
        bool R = r[i] > rt, F = f[i] > ft;
        (R ? (F ? t.a : t.c) : (F ? t.b : t.d))++;
    }
    return t;
}
static double score(const T& t, Metric m) { return score(t.a, t.b, t.c, t.d, m); }
static bool same(float got, double want) { return want == UNDEF || (std::isnan(want) ? !valid(got) : close(got, want, 2e-5)); }
MC_HARNESS(tables) {
    int n = mc::thorough() ? 11 : 8; static const float F[] = {0, 1, 2, 3, 4, 10, 117, 2500, 5, 0.5f, 31};
    float a = F[mc::choose(n)], b = F[mc::choose(n)], c = F[mc::choose(n)], d = F[mc::choose(n)]; NV(a); NV(b); NV(c); NV(d);
    for(Metric m : MET) {
        mc::op(); mc::site("calc_score"); float s = calc_score(a, b, c, d, m); double w = score(a, b, c, d, m); mc::outcome_of(vec{s});
        // the rational form may be ill-conditioned when a difference of large numbers is formed
        double tol = 1e-5 + 1e-6 * std::max(std::max(a, b), std::max(c, d));
        if(w == UNDEF) continue;
        if(std::isnan(w)) mc::check(!valid(s), std::string("degenerate-") + mname(m), mc::fmt("got %g", s));
        else mc::check(fabs(s - w) <= tol, std::string("score-") + mname(m), mc::fmt("want %g got %g", w, s));
    }
}
MC_HARNESS(pairs) {
    int n = mc::range(0, mc::thorough() ? 5 : 4); static const float V[] = {0, 1, INFF, 2, -1, NANF};
    vec r, f; for(int i = 0; i < n; i++) { bool few = n >= 4 && !mc::thorough(); r.push_back(V[mc::choose(few ? 5 : 6) + few]); f.push_back(V[mc::choose(few ? 4 : 6) + 2 * few]); }
    NV(r); NV(f);
    for(Metric m : MET) for(float rt : {0.5f, 1.f, -5.f}) {
        mc::op(); mc::site("calc_score-series"); float s = calc_score(r, f, rt, m); double w = score(table(r, f, rt, rt), m); mc::outcome_of(vec{s});
        mc::check(same(s, w), std::string("series-") + mname(m), mc::fmt("threshold %g: want %g got %g", rt, w, s));
        for(float ft : {0.f, 1.5f, 9.f}) { s = calc_score(r, f, rt, ft, m); w = score(table(r, f, rt, ft), m); mc::check(same(s, w), std::string("series2-") + mname(m), mc::fmt("thresholds %g %g: want %g got %g", rt, ft, w, s)); }
    }
}
static void judge(const vec& r, const vec& f, float rt, Metric m, float x) {
    std::vector<float> fv; for(float v : f) if(valid(v)) fv.push_back(v);
    auto S = [&](float t) { return score(table(r, f, rt, t), m); };
    std::string id = std::string("-") + mname(m);
    if(fv.empty()) { mc::check(!valid(x), "optimal-without-data" + id, mc::fmt("got %g", x)); return; }
    float lo = *std::min_element(fv.begin(), fv.end()), hi = *std::max_element(fv.begin(), fv.end()), width = hi - lo;
    double slo = S(lo), shi = S(hi), best = -1e30; float bestx = NANF;
    for(int b = 0; b < 10; b++) {       // evenly spaced candidates from smallest to largest forecast
        float c = lo + width / 9 * b; bool near = false;
        if(b) for(float v : fv) if(fabs(v - c) <= 1e-4 * (1 + fabs(c))) near = true;
        if(b == 9) { near = false; c = hi; }
        if(near) continue;
        double s = S(c); if(s != UNDEF && valid(s) && s > best) { best = s; bestx = c; }
    }
    auto at_boundary = [&](double s, double margin) { return fabs(s - slo) < margin || fabs(s - shi) < margin; };
    if(valid(x)) {
        double s = S(x), below = S(x - 1e-5 * (1 + fabs(x))), above = S(x + 1e-5 * (1 + fabs(x)));
        bool sharp = s == below && s == above;      // not at a jump of the score: rounding cannot matter
        mc::check(x >= lo - 1e-4 && x <= hi + 1e-4, "optimal-outside" + id, mc::fmt("%g not in %g..%g", x, lo, hi));
        if(sharp) {
            mc::check(valid(s) && s > 1e-4 - 1e-6, "optimal-without-skill" + id, mc::fmt("threshold %g score %g", x, s));
            mc::check(s >= best - 1e-5, "optimal-not-best" + id, mc::fmt("threshold %g score %g, but %g gives %g", x, s, bestx, best));
            mc::check(!at_boundary(s, 0.0009), "optimal-at-boundary" + id, mc::fmt("threshold %g score %g", x, s));
        } else {
            double top = -1e30; for(double t : {s, below, above}) if(t != UNDEF && valid(t)) top = std::max(top, t);
            mc::check(top >= best - 1e-5, "optimal-not-best" + id, mc::fmt("threshold %g score %g, but %g gives %g", x, top, bestx, best));
        }
    } else if(best > 1.1e-4) {
        // missing is only right when nothing better than the boundaries was there
        bool excused = best <= std::max(valid(slo) ? slo : -1e30, valid(shi) ? shi : -1e30) + 0.0011;
        mc::check(excused, "optimal-missing" + id, mc::fmt("%g gives %g, boundaries give %g and %g", bestx, best, slo, shi));
    }
}
static void series(int n, vec& r, vec& f, bool missing) {
    static const float RV[] = {0, 2, 1, NANF, -INFF}, FV[] = {0, 1, 3, 10, NANF, INFF};
    for(int i = 0; i < n; i++) { r.push_back(RV[mc::choose(n > 4 ? 2 : missing ? 5 : 3)]); f.push_back(FV[mc::choose(n > 4 ? 4 : missing ? 6 : 4)]); }
    NV(r); NV(f);
}
MC_HARNESS(optimal) {
    int n = mc::range(0, mc::thorough() ? 6 : 5); vec r, f; series(n, r, f, n <= 3);
    for(Metric m : MET) {
        if(m == Bias && n == 0) continue;
        mc::op(); mc::site(std::string("optimal-") + mname(m)); float x = get_optimal_threshold(r, f, 1.f, m); mc::outcome_of(vec{x}); judge(r, f, 1.f, m, x);
        // a curve pairs each threshold having an optimum with that optimum, in order
        for(const vec& th : {vec{}, vec{1}, vec{-1, 1, 0.5f, 5}}) {
            vec of{7, 7, 7, 7, 7}; mc::site("metric_optimizer_curve"); vec o = metric_optimizer_curve(r, f, th, m, of); vec wo, wf;
            for(float t : th) { float v = get_optimal_threshold(r, f, t, m); if(valid(v)) { wo.push_back(v); wf.push_back(t); } }
            mc::check(o == wo && of == wf, std::string("curve-") + mname(m));
        }
    }
}
// two groups of forecasts with one pair straddling, so that the score as a function of the threshold has several steps
MC_HARNESS(steps) {
    int n = mc::thorough() ? 12 : 10; vec f, r; for(int i = 0; i < n; i++) { f.push_back(i * i * 0.37f - 3); r.push_back(mc::choose(2) * 2 ? 2.f : 0.f); } NV(r);
    for(Metric m : MET) { mc::op(); mc::site(std::string("steps-") + mname(m)); float x = get_optimal_threshold(r, f, 1.f, m); mc::outcome_of(vec{x}); judge(r, f, 1.f, m, x); }
}
// a curve over every sequence of thresholds, also unsorted and repeated ones
MC_HARNESS(curve) {
    mc::budget(mc::thorough() ? 3 : 2); vec r, f, th; for(int i = 0; i < 8; i++) { f.push_back(i); r.push_back(i + mc::pickdev(std::vector<float>{0, -2, 2.25f, NANF, INFF})); } int k = mc::range(0, 3); for(int i = 0; i < k; i++) th.push_back(mc::pick({0.5f, 2.5f, 4.5f, 2.25f, -9.f, NANF})); NV(r); NV(f); NV(th);
    for(Metric m : MET) { mc::op(); vec of{3}, wo, wf; mc::site("metric_optimizer_curve"); vec o = metric_optimizer_curve(r, f, th, m, of); for(float t : th) { float v = get_optimal_threshold(r, f, t, m); if(valid(v)) { wo.push_back(v); wf.push_back(t); } } mc::check(o == wo && of == wf, std::string("curve-") + mname(m)); mc::outcome_of(o); }
}
MC_HARNESS(sizes) {
    int a = mc::choose(4), b = mc::choose(4); if(a == b) mc::skip(); vec r(a, 1), f(b, 2), of; NV(a); NV(b); mc::op(3);
    for(Metric m : MET) {
        mc::check(mc::throws([&] { metric_optimizer_curve(r, f, vec{1}, m, of); }), "size-curve"); mc::check(mc::throws([&] { get_optimal_threshold(r, f, 1, m); }), "size-threshold"); mc::check(mc::throws([&] { calc_score(r, f, 1, m); }), "size-score");
    }
}
// series of realistic length
MC_HARNESS(long_series) {
    int n = mc::pick({25, 90, 400}), b = mc::choose(4), miss = mc::choose(3); float rt = mc::pick({1.f, 4.5f, -9.f, 11.25f}), noise = mc::pick({0.f, 1.5f, 6.f}); vec r, f; for(int i = 0; i < n; i++) { float v = b == 0 ? (i * 37) % 101 * 0.15f : b == 1 ? std::max(0.f, (i * 61) % 103 * 0.2f - 12) : b == 2 ? i * 15.f / n : (i * 7) % 5 * 3; r.push_back(miss == 1 && i % 9 == 5 ? NANF : v); f.push_back(miss == 2 && i % 7 == 3 ? INFF : v * 0.9f + noise * ((i * 29) % 17 / 17.f - 0.4f)); }
    NV(n); NV(b); NV(miss); NV(rt); NV(noise);
    for(Metric m : MET) { mc::op(2); mc::site(std::string("long-") + mname(m)); for(float ft : {rt, rt + 0.4f, -20.f}) { float s = calc_score(r, f, rt, ft, m); double w = score(table(r, f, rt, ft), m); bool edge = false; for(size_t i = 0; i < f.size(); i++) if(valid(f[i]) && fabs(f[i] - ft) < 1e-5) edge = true; if(!edge) mc::check(same(s, w), std::string("long-") + mname(m), mc::fmt("want %g got %g", w, s)); }
        float x = get_optimal_threshold(r, f, rt, m); mc::outcome_of(vec{x}); judge(r, f, rt, m, x); }
}
MC_MAIN
