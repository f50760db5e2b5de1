// P21: malformed input is rejected with an error, never by crashing.
// Every public operation is called with every argument in turn (and pairs of arguments) replaced by each malformed
// or extreme variant. Oracle: no crash, abort or hang ever; a variant that is inconsistent or out of range raises an
// exception; consistent input (also empty) does not; and an operation works after another one has been rejected.
#include "gp.h"
using namespace gp;
namespace {
// deviations of one call: what was changed and whether it makes the call malformed
struct In {
    int Y = 3, X = 2, P = 3, Q = 2, E = 2, T = 2;
    bool bad = false, odd = false, empty = false; std::string what;
    void mark(const char* n, const char* how, bool b) { if(b) bad = true; else odd = true; if(!what.empty()) what += "+"; what += std::string(n) + " " + how; }
    static float val(int i, int k) { return 1 + ((i * 5 + k * 3) % 7) * 0.5f; }
    vec v(const char* n, int N, float f = NANF, bool surplus_ok = false, bool empty_ok = false) {
        vec r(N); for(int i = 0; i < N; i++) r[i] = std::isnan(f) ? val(i, N) : f;
        switch(mc::dev(6)) {
            case 5: if(N == 0 || val(0, N) == f) mc::skip(); r.assign(N, 0); mark(n, "zero", false); break;
            case 1: if(N == 0) mc::skip(); r.pop_back(); mark(n, "one short", !(empty_ok && r.empty())); break;
            case 2: r.push_back(1); mark(n, "one more", !surplus_ok); break;
            case 3: if(N <= 1) mc::skip(); r.clear(); mark(n, "empty", !empty_ok); break;
            case 4: if(N == 0) mc::skip(); r.assign(N, NANF); mark(n, "missing", false); break;
        }
        return r;
    }
    ivec iv(const char* n, int N, int f) { ivec r(N, f); switch(mc::dev(6)) { case 1: if(N == 0) mc::skip(); r.pop_back(); mark(n, "one short", true); break; case 2: r.push_back(1); mark(n, "one more", true); break; case 3: if(N == 0) mc::skip(); r[0] = -1; mark(n, "negative", true); break;
        case 4: if(N < 2) mc::skip(); r[N - 1] = -1; mark(n, "negative last", true); break; case 5: if(N < 3) mc::skip(); r[N / 2] = -1; mark(n, "negative middle", true); break; } return r; }
    // one negative value: in the first, the last or the middle place
    void neg(const char* n, vec& r) { int k = mc::dev(4); int N = r.size(); if(k && N < k) mc::skip(); if(k) { r[k == 1 ? 0 : k == 2 ? N - 1 : N / 2] = -1; mark(n, k == 1 ? "negative" : k == 2 ? "negative last" : "negative middle", true); } }
    // mode 0: checked against something; 1: free-standing (only ragged is malformed)
    vec2 f(const char* n, int A, int B, float c = NANF, bool free = false, bool empty_ok = false) {
        vec2 r(A, vec(B)); for(int a = 0; a < A; a++) for(int b = 0; b < B; b++) r[a][b] = std::isnan(c) ? val(a * B + b, A) : c;
        switch(mc::dev(10)) {
            case 8: if(A < 2 || B == 0) mc::skip(); r[0].pop_back(); mark(n, "ragged first", true); break;
            case 9: if(A < 3 || B == 0) mc::skip(); r[A / 2].pop_back(); mark(n, "ragged middle", true); break;
            case 1: if(A == 0) mc::skip(); r.pop_back(); mark(n, "one row short", !free && !(empty_ok && r.empty())); break;
            case 2: if(B == 0) mc::skip(); r.push_back(vec(B, 1)); mark(n, "one row more", !free); break;
            case 3: if(A == 0 || B == 0) mc::skip(); for(auto& x : r) x.pop_back(); mark(n, "one column short", !free); break;
            case 4: if(A == 0) mc::skip(); for(auto& x : r) x.push_back(1); mark(n, "one column more", !free); break;
            case 5: if(A < 2 || B == 0) mc::skip(); r.back().pop_back(); mark(n, "ragged short", true); break;
            case 6: if(A < 2) mc::skip(); r.back().push_back(1); mark(n, "ragged long", true); break;
            case 7: if(A == 0) mc::skip(); r.clear(); mark(n, "empty", !free && !empty_ok); break;
        }
        return r;
    }
    // outer: the first dimension is free (time)
    vec3 c(const char* n, int A, int B, int C, bool outer_free, bool free = false, bool empty_ok = false) {
        vec3 r(A, vec2(B, vec(C))); for(int a = 0; a < A; a++) for(int b = 0; b < B; b++) for(int k = 0; k < C; k++) r[a][b][k] = val(a * B + b + k, A);
        bool inner_free = !outer_free && free;
        switch(mc::dev(13)) {
            case 11: if(A < 2 || B == 0) mc::skip(); r[0].pop_back(); mark(n, "middle ragged first", true); break;
            case 12: if(A * B < 2 || C == 0) mc::skip(); r[0][0].pop_back(); mark(n, "inner ragged first", true); break;
            case 1: if(A == 0) mc::skip(); r.pop_back(); mark(n, "outer short", !(free || outer_free)); break;
            case 2: if(A == 0) mc::skip(); r.push_back(r[0]); mark(n, "outer more", !(free || outer_free)); break;
            case 3: if(A == 0 || B == 0) mc::skip(); for(auto& x : r) x.pop_back(); mark(n, "middle short", !free); break;
            case 4: if(A == 0 || B == 0) mc::skip(); for(auto& x : r) x.push_back(x[0]); mark(n, "middle more", !free); break;
            case 5: if(A == 0 || B == 0 || C == 0) mc::skip(); for(auto& x : r) for(auto& y : x) y.pop_back(); mark(n, "inner short", outer_free && !free); break;
            case 6: if(A == 0 || B == 0) mc::skip(); for(auto& x : r) for(auto& y : x) y.push_back(1); mark(n, "inner more", outer_free && !free); break;
            case 7: if(A < 2 || B == 0) mc::skip(); r.back().pop_back(); mark(n, "middle ragged", true); break;
            case 8: if(A * B < 2 || C == 0) mc::skip(); r.back().back().pop_back(); mark(n, "inner ragged", true); break;
            case 9: if(A == 0) mc::skip(); r.clear(); mark(n, "empty", !(free || outer_free || empty_ok)); break;
            case 10: if(A * B < 2) mc::skip(); r.back().back().push_back(1); mark(n, "inner ragged long", true); break;
        }
        return r;
    }
    int n(const char* nm, int ok, std::initializer_list<int> bads, std::initializer_list<int> odds = {}) {
        int k = mc::dev(1 + bads.size() + odds.size()); if(k == 0) return ok;
        int r = k <= (int)bads.size() ? *(bads.begin() + k - 1) : *(odds.begin() + k - 1 - bads.size());
        mark(nm, mc::fmt("%d", r).c_str(), k <= (int)bads.size()); return r;
    }
    float x(const char* nm, float ok, std::initializer_list<float> bads, std::initializer_list<float> odds = {}) {
        int k = mc::dev(1 + bads.size() + odds.size()); if(k == 0) return ok;
        float r = k <= (int)bads.size() ? *(bads.begin() + k - 1) : *(odds.begin() + k - 1 - bads.size());
        mark(nm, mc::fmt("%g", r).c_str(), k <= (int)bads.size()); return r;
    }
    CoordinateType base = Geodetic;
    CoordinateType ct(const char* nm, bool check) { if(!check) return base; if(mc::dev(2)) { mark(nm, "other coordinate type", true); return base == Geodetic ? Cartesian : Geodetic; } return base; }
    Grid grid(const char* nm, int A, int B, bool check = false) { CoordinateType t = ct(nm, check); vec2 la(A, vec(B)), lo = la, el = la, lf = la; for(int a = 0; a < A; a++) for(int b = 0; b < B; b++) { la[a][b] = 60 + a; lo[a][b] = 10 + b; el[a][b] = 100 * (a + b); lf[a][b] = (a + b) % 2; } return Grid(la, lo, el, lf, t); }
    Points pts(const char* nm, int N, bool check = false) { CoordinateType t = ct(nm, check); int same = N < 2 ? 0 : mc::dev(2); if(same) mark(nm, "colocated", false); vec la, lo, el, lf; for(int i = 0; i < N; i++) { int k = same ? 1 : i; la.push_back(60.3f + 0.6f * k); lo.push_back(10.2f + 0.3f * k); el.push_back(50 * k); lf.push_back(k % 2); } return Points(la, lo, el, lf, t); }
    int np(const char* nm) { int k = mc::dev(2); if(k) { odd = true; empty = true; what += std::string(what.empty() ? "" : "+") + nm + " none"; return 0; } return 3; }
    void dims(const char* nm, int& A, int& B) { int k = mc::dev(3); if(k == 1) { A = B = 0; empty = true; odd = true; what += std::string(what.empty() ? "" : "+") + nm + " 0x0"; } if(k == 2) { A = B = 1; odd = true; what += std::string(what.empty() ? "" : "+") + nm + " 1x1"; } }
    Statistic stat(bool quantile_bad = true) { int k = mc::dev(8); static const Statistic s[] = {Mean, Quantile, Unknown, (Statistic)33, Median, Count, RandomChoice, Std}; if(k >= 1 && k <= 3) mark("statistic", k == 1 ? "quantile" : k == 2 ? "unknown" : "33", k == 1 ? quantile_bad : true); else if(k) mark("statistic", sname(s[k]), false); return s[k]; }
    Metric metric() { int k = mc::dev(2); if(k) mark("metric", "unknown", true); return k ? (Metric)33 : Ets; }
    Downscaler down() { int k = mc::dev(3); if(k == 1) mark("downscaler", "unknown", true); if(k == 2) mark("downscaler", "bilinear", false); return k == 1 ? (Downscaler)33 : k == 2 ? Bilinear : Nearest; }
    Extrapolation pol(const char* n) { int k = mc::dev(3); if(k == 1) mark(n, "unknown", true); if(k == 2) mark(n, "meanslope", false); return k == 1 ? (Extrapolation)33 : k == 2 ? MeanSlope : OneToOne; }
    ComparisonOperator cmp() { int k = mc::dev(3); if(k == 1) mark("operator", "unknown", true); if(k == 2) mark("operator", "gt", false); return k == 1 ? (ComparisonOperator)33 : k == 2 ? Gt : Leq; }
    std::shared_ptr<StructureFunction> st() { int k = mc::dev(4); if(k) mark("structure", k == 1 ? "multiple" : k == 2 ? "crossvalidation" : "spatial", false); auto b = std::make_shared<BarnesStructure>(100000, 200, 0.5f); switch(k) { case 1: return std::make_shared<MultipleStructure>(*b, SoarStructure(200), CressmanStructure(1, 1, 1)); case 2: return std::make_shared<CrossValidation>(*b, 1000); case 3: return std::make_shared<BarnesStructure>(grid("", 2, 2), vec2(2, vec(2, 100000)), vec2(2, vec(2, 0)), vec2(2, vec(2, 0))); } return b; }
};
typedef void (*Fn)(In&, const std::function<void(const std::function<void()>&)>&);
struct Op { const char* name; Fn fn; };
// draw the arguments first, then call
#define OP(n, ...) {n, [](In& i, const std::function<void(const std::function<void()>&)>& go) { __VA_ARGS__; }}
#define GO(...) go([&]() { __VA_ARGS__; })
#define GG Grid ig = i.grid("grid", i.Y, i.X)
#define IGOG int A = 3, B = 2, C = 2, D = 2; i.dims("input grid", A, B); i.dims("output grid", C, D); Grid ig = i.grid("igrid", A, B), og = i.grid("ogrid", C, D, true)
#define IGOP int A = 3, B = 2; i.dims("input grid", A, B); Grid ig = i.grid("igrid", A, B); Points op = i.pts("opoints", i.np("output points"), true)
#define IPOG int C = 2, D = 2; int N = i.np("input points"); i.dims("output grid", C, D); Points ip = i.pts("ipoints", N); Grid og = i.grid("ogrid", C, D, true)
#define IPOP int N = i.np("input points"); Points ip = i.pts("ipoints", N), op = i.pts("opoints", i.np("output points"), true)
#define IGIP int A = 3, B = 2; i.dims("grid", A, B); int N = i.np("points"); Grid ig = i.grid("grid", A, B); Points ip = i.pts("points", N, true)
#define IQIP int N = i.np("points"); int M = i.np("output points"); Points ip = i.pts("points", N), oq = i.pts("output points", M, true)
#define NEG -1, -2147483647
#define FNEG -1, -1e30f
const std::vector<Op> ops = {
    OP("nearest grid grid", IGOG; vec2 f = i.f("values", A, B); GO(nearest(ig, og, f))),
    OP("nearest grid grid 3d", IGOG; vec3 f = i.c("values", 2, A, B, true); GO(nearest(ig, og, f))),
    OP("nearest grid points", IGOP; vec2 f = i.f("values", A, B); GO(nearest(ig, op, f))),
    OP("nearest grid points 3d", IGOP; vec3 f = i.c("values", 2, A, B, true); GO(nearest(ig, op, f))),
    OP("nearest points points", IPOP; vec f = i.v("values", N); GO(nearest(ip, op, f))),
    OP("nearest points points 2d", IPOP; vec2 f = i.f("values", 1, N); GO(if(f.size() > 1 && f[0].size() == N) { i.bad = false; } nearest(ip, op, f))),
    OP("nearest points grid", IPOG; vec f = i.v("values", N); GO(nearest(ip, og, f))),
    OP("bilinear grid grid", IGOG; vec2 f = i.f("values", A, B); GO(bilinear(ig, og, f))),
    OP("bilinear grid grid 3d", IGOG; vec3 f = i.c("values", 2, A, B, true); GO(bilinear(ig, og, f))),
    OP("bilinear grid points", IGOP; vec2 f = i.f("values", A, B); GO(bilinear(ig, op, f))),
    OP("bilinear grid points 3d", IGOP; vec3 f = i.c("values", 2, A, B, true); GO(bilinear(ig, op, f))),
    OP("downscaling grid grid", IGOG; vec2 f = i.f("values", A, B); Downscaler d = i.down(); GO(downscaling(ig, og, f, d))),
    OP("downscaling grid grid 3d", IGOG; vec3 f = i.c("values", 2, A, B, true); Downscaler d = i.down(); GO(downscaling(ig, og, f, d))),
    OP("downscaling grid points", IGOP; vec2 f = i.f("values", A, B); Downscaler d = i.down(); GO(downscaling(ig, op, f, d))),
    OP("downscaling grid points 3d", IGOP; vec3 f = i.c("values", 2, A, B, true); Downscaler d = i.down(); GO(downscaling(ig, op, f, d))),
    OP("simple_gradient grid grid", IGOG; vec2 f = i.f("values", A, B); Downscaler d = i.down(); GO(simple_gradient(ig, og, f, -0.01f, d))),
    OP("simple_gradient grid grid 3d", IGOG; vec3 f = i.c("values", 2, A, B, true); Downscaler d = i.down(); GO(simple_gradient(ig, og, f, -0.01f, d))),
    OP("simple_gradient grid points", IGOP; vec2 f = i.f("values", A, B); Downscaler d = i.down(); GO(simple_gradient(ig, op, f, -0.01f, d))),
    OP("simple_gradient grid points 3d", IGOP; vec3 f = i.c("values", 2, A, B, true); Downscaler d = i.down(); GO(simple_gradient(ig, op, f, -0.01f, d))),
    OP("full_gradient grid grid", IGOG; vec2 f = i.f("values", A, B), g = i.f("elev gradient", A, B, NANF, false, true), l = i.f("laf gradient", A, B, NANF, false, true); Downscaler d = i.down(); GO(full_gradient(ig, og, f, g, l, d))),
    OP("full_gradient grid grid 3d", IGOG; vec3 f = i.c("values", 2, A, B, true), g(f.size(), vec2(A, vec(B, 1))), l = g; g = i.bad || i.empty ? g : i.c("elev gradient", f.size(), A, B, false, false, true); Downscaler d = i.down(); GO(bool same = g.empty() || g.size() != f.size() || (!g[0].empty() && g[0][0].size() == B); if(!same) i.bad = true; full_gradient(ig, og, f, g, l, d))),
    OP("full_gradient grid points", IGOP; vec2 f = i.f("values", A, B), g = i.f("elev gradient", A, B, NANF, false, true), l = i.f("laf gradient", A, B, NANF, false, true); Downscaler d = i.down(); GO(full_gradient(ig, op, f, g, l, d))),
    OP("full_gradient grid points 3d", IGOP; vec3 f = i.c("values", 2, A, B, true), g(f.size(), vec2(A, vec(B, 1))), l = g; l = i.bad || i.empty ? l : i.c("laf gradient", f.size(), A, B, false, false, true); Downscaler d = i.down(); GO(bool same = l.empty() || l.size() != f.size() || (!l[0].empty() && l[0][0].size() == B); if(!same) i.bad = true; full_gradient(ig, op, f, g, l, d))),
    OP("full_gradient_debug", IGOG; vec2 f = i.f("values", A, B), g = i.f("elev gradient", A, B, NANF, false, true), l = i.f("laf gradient", A, B, NANF, false, true); Downscaler d = i.down(); GO(full_gradient_debug(ig, og, f, g, l, d))),
    OP("downscale_probability", IGOG; vec3 f = i.c("values", A, B, 2, false); vec2 t = i.f("threshold", C, D); auto c = i.cmp(); GO(downscale_probability(ig, og, f, t, c))),
    OP("mask_threshold_consensus", IGOG; vec3 a = i.c("true", A, B, 2, false), b = i.c("false", A, B, 2, false), c = i.c("thresholds", A, B, 2, false); if((!a.empty() && !b.empty() && !c.empty()) && !a[0].empty() && !b[0].empty() && !c[0].empty() && (a[0][0].size() != c[0][0].size() || b[0][0].size() != c[0][0].size())) i.bad = true; vec2 t = i.f("threshold", C, D); auto o = i.cmp(); Statistic s = i.stat(); GO(mask_threshold_downscale_consensus(ig, og, a, b, c, t, o, s))),
    OP("mask_threshold_quantile", IGOG; vec3 a = i.c("true", A, B, 2, false), b = a, c = a; vec2 t = i.f("threshold", C, D); auto o = i.cmp(); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(mask_threshold_downscale_quantile(ig, og, a, b, c, t, o, q))),
    OP("smart", IGOG; vec2 f = i.f("values", A, B); int n = i.n("num", 2, {NEG}, {0, 100}); auto s = i.st(); GO(smart(ig, og, f, n, *s))),
    OP("count grid points", IGOP; float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); GO(count(ig, op, r))),
    OP("count grid grid", IGOG; float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); GO(count(ig, og, r))),
    OP("count points grid", IPOG; float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); GO(count(ip, og, r))),
    OP("count points points", IPOP; float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); GO(count(ip, op, r))),
    OP("distance grid points", IGOP; int n = i.n("num", 2, {NEG, 0}, {100}); GO(distance(ig, op, n))),
    OP("distance grid grid", IGOG; int n = i.n("num", 2, {NEG, 0}, {100}); GO(distance(ig, og, n))),
    OP("distance points grid", IPOG; int n = i.n("num", 2, {NEG, 0}, {100}); GO(distance(ip, og, n))),
    OP("distance points points", IPOP; int n = i.n("num", 2, {NEG, 0}, {100}); GO(distance(ip, op, n))),
    OP("fill", IGIP; vec2 f = i.f("values", A, B); vec r = i.v("radii", N, 60000); i.neg("radius", r); if(r.empty() && N) i.bad = true; bool o = mc::dev(2); GO(fill(ig, f, ip, r, 9, o))),
    OP("fill_missing", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); GO(fill_missing(f))),
    OP("doping_square", IGIP; vec2 f = i.f("values", A, B); vec o = i.v("obs", N); ivec h = i.iv("halfwidths", N, 1); float e = i.x("elev", NANF, {-1}, {0, 100}); GO(doping_square(ig, f, ip, o, h, e))),
    OP("doping_circle", IGIP; vec2 f = i.f("values", A, B); vec o = i.v("obs", N), h = i.v("radii", N, 90000); i.neg("radius", h); float e = i.x("elev", NANF, {-1}, {0, 100}); GO(doping_circle(ig, f, ip, o, h, e))),
    OP("gridding grid", IGIP; vec o = i.v("values", N); float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); int m = i.n("min_num", 0, {NEG}, {100}); Statistic s = i.stat(); GO(gridding(ig, ip, o, r, m, s))),
    OP("gridding points", IQIP; vec o = i.v("values", N); float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); int m = i.n("min_num", 0, {NEG}, {100}); Statistic s = i.stat(); GO(gridding(oq, ip, o, r, m, s))),
    OP("gridding_nearest grid", IGIP; vec o = i.v("values", N); int m = i.n("min_num", 0, {NEG}, {100}); Statistic s = i.stat(); GO(gridding_nearest(ig, ip, o, m, s))),
    OP("gridding_nearest points", IQIP; vec o = i.v("values", N); int m = i.n("min_num", 0, {NEG}, {100}); Statistic s = i.stat(); GO(gridding_nearest(oq, ip, o, m, s))),
    OP("neighbourhood", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); Statistic s = i.stat(); GO(neighbourhood(f, h, s))),
    OP("neighbourhood 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f = i.c("values", A, B, 2, false, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); Statistic s = i.stat(); GO(neighbourhood(f, h, s))),
    OP("neighbourhood_brute_force", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); Statistic s = i.stat(); GO(neighbourhood_brute_force(f, h, s))),
    OP("neighbourhood_brute_force 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f = i.c("values", A, B, 2, false, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); Statistic s = i.stat(); GO(neighbourhood_brute_force(f, h, s))),
    OP("neighbourhood_quantile", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(neighbourhood_quantile(f, q, h))),
    OP("neighbourhood_quantile 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f = i.c("values", A, B, 2, false, true); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(neighbourhood_quantile(f, q, h))),
    OP("neighbourhood_quantile_fast", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); vec t{1, 2, 3}; if(mc::dev(2)) { t.clear(); i.mark("thresholds", "empty", false); } int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(neighbourhood_quantile_fast(f, q, h, t))),
    OP("neighbourhood_quantile_fast 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f = i.c("values", A, B, 2, false, true); vec t{1, 2, 3}; if(mc::dev(2)) { t.clear(); i.mark("thresholds", "empty", false); } int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(neighbourhood_quantile_fast(f, q, h, t))),
    OP("neighbourhood_quantile_fast field", int A = 3; int B = 2; i.dims("field", A, B); vec2 f(A, vec(B, 2)); vec2 q = i.f("quantile", A, B, 0.5f); vec t{1, 2, 3}; int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); GO(if(q.size() == 1 && q[0].size() == 1) i.bad = false; neighbourhood_quantile_fast(f, q, h, t))),
    OP("neighbourhood_quantile_fast field 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f(A, vec2(B, vec(2, 2))); vec2 q = i.f("quantile", A, B, 0.5f); vec t{1, 2, 3}; int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); GO(if(q.size() == 1 && q[0].size() == 1) i.bad = false; neighbourhood_quantile_fast(f, q, h, t))),
    OP("get_neighbourhood_thresholds", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); int h = i.n("num", 3, {NEG, 0}, {1, 1000}); GO(get_neighbourhood_thresholds(f, h))),
    OP("get_neighbourhood_thresholds 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 f = i.c("values", A, B, 2, false, true); int h = i.n("num", 3, {NEG, 0}, {1, 1000}); GO(get_neighbourhood_thresholds(f, h))),
    OP("calc_gradient", int A = 3; int B = 2; i.dims("field", A, B); vec2 b = i.f("base", A, B), v = i.f("values", A, B); auto t = mc::dev(2) ? LinearRegression : MinMax; int h = i.n("halfwidth", 1, {NEG, 0}, {1000}); int m = i.n("num_min", 2, {NEG}, {0, 100}); float r = i.x("min_range", NANF, {-1}, {0, 1000}); GO(if(A == 0) i.bad = true; calc_gradient(b, v, t, h, m, r, 0))),
    OP("neighbourhood_search", int A = 3; int B = 2; i.dims("field", A, B); vec2 b = i.f("array", A, B), v = i.f("search", A, B); int h = i.n("halfwidth", 1, {NEG}, {0, 1000}); float lo = i.x("target_min", 0.5f, {}, {0, 1}), hi = i.x("target_max", 2, {-1}, {3}); GO(neighbourhood_search(b, v, h, lo, hi, 0.1f))),
    OP("neighbourhood_search apply", ivec2 a(3, ivec(2, 1)); switch(mc::dev(6)) { case 1: a.pop_back(); i.mark("apply", "row short", true); break; case 2: a.push_back(a[0]); i.mark("apply", "row more", true); break; case 3: a[2].pop_back(); i.mark("apply", "ragged", true); break; case 4: a[0].push_back(1); i.mark("apply", "ragged", true); break; case 5: a.clear(); i.mark("apply", "empty", false); break; }; GO(neighbourhood_search(vec2(3, vec(2, 1)), vec2(3, vec(2, 1)), 1, 0, 2, 0.1f, a))),
    OP("quantile_mapping_curve", vec r = i.v("ref", 3), f = i.v("fcst", 3); float q = i.x("quantile", 0.5f, {-0.1f, 1.1f}, {0, 1}); bool none = mc::dev(2); if(none) i.mark("quantiles", "none", false); GO(vec of; quantile_mapping_curve(r, f, of, none ? vec() : vec{0, q}))),
    OP("metric_optimizer_curve", vec r = i.v("ref", 3), f = i.v("fcst", 3), t = i.v("thresholds", 2, NANF, true, true); Metric m = i.metric(); GO(vec of; if(t.size() == 1) i.bad = i.what.find("ref") != std::string::npos || i.what.find("fcst") != std::string::npos || i.what.find("metric") != std::string::npos ? i.bad : false; if(t.empty()) mc::skip(); metric_optimizer_curve(r, f, t, m, of))),
    OP("get_optimal_threshold", vec r = i.v("ref", 3), f = i.v("fcst", 3); Metric m = i.metric(); GO(get_optimal_threshold(r, f, 1, m))),
    OP("calc_score", vec r = i.v("ref", 3), f = i.v("fcst", 3); Metric m = i.metric(); GO(calc_score(r, f, 1, m); calc_score(r, f, 1, 2, m))),
    OP("calc_score table", Metric m = i.metric(); float a = i.x("a", 1, {}, {0, NANF, -1}); GO(calc_score(a, 1, 1, 1, m))),
    OP("apply_curve scalar", vec r = i.v("ref", 3), f = i.v("fcst", 3); float x = i.x("x", 2, {}, {NANF, -1000, 1000, INFINITY}); auto a = i.pol("below"), b = i.pol("above"); GO(if(i.what.find("missing") != std::string::npos) mc::skip(); bool used = !f.empty() && ((x < f[0] && a == (Extrapolation)33) || (x > f.back() && b == (Extrapolation)33)); if(i.bad && r.size() == f.size() && !r.empty() && !used) i.bad = false; apply_curve(x, r, f, a, b))),
    OP("apply_curve 1d", vec x = i.v("x", 3, -100, true, true), r = i.v("ref", 3), f = i.v("fcst", 3); auto a = i.pol("below"), b = i.pol("above"); GO(if(i.what.find("missing") != std::string::npos) mc::skip(); if(r.size() == f.size() && !r.empty() && (x.empty() || a != (Extrapolation)33)) i.bad = false; apply_curve(x, r, f, a, b))),
    OP("apply_curve 2d", int A = 3; int B = 2; i.dims("field", A, B); vec2 x = i.f("x", A, B, -100, true); vec r = i.v("ref", 3), f = i.v("fcst", 3); auto a = i.pol("below"), b = i.pol("above"); GO(if(i.what.find("missing") != std::string::npos) mc::skip(); if(r.size() == f.size() && !r.empty() && (a != (Extrapolation)33 || A == 0) && i.what.find("ragged") == std::string::npos) i.bad = false; if(i.bad && a == (Extrapolation)33 && (x.empty() || x[0].empty())) mc::skip(); apply_curve(x, r, f, a, b))),
    OP("apply_curve 3d", int A = 3; int B = 2; i.dims("field", A, B); vec2 x = i.f("x", A, B, -100); vec3 r = i.c("ref", A, B, 3, false), f = i.c("fcst", A, B, 3, false); auto a = i.pol("below"); GO(if(!i.bad && A && r[0][0].size() != f[0][0].size()) i.bad = true; if(A == 0 || (i.bad && a == (Extrapolation)33 && (x.empty() || x[0].empty()))) mc::skip(); apply_curve(x, r, f, a, OneToOne))),
    OP("monotonize_curve", vec r = i.v("ref", 3), f = i.v("fcst", 3); GO(vec of; monotonize_curve(r, f, of))),
    OP("gamma_inv", vec l = i.v("levels", 3, 0.5f), s = i.v("shape", 3), c = i.v("scale", 3); GO(gamma_inv(l, s, c))),
    OP("gamma_inv values", float l = i.x("level", 0.5f, {-0.1f, 1.1f}, {0, 1, NANF}), s = i.x("shape", 1, {0, -1}, {NANF}), c = i.x("scale", 1, {0, -1}, {NANF}); GO(gamma_inv(vec(2, l), vec(2, s), vec(2, c)))),
    OP("transforms", float t = i.x("threshold", 1, {0, -1}), s = i.x("shape", 1, {0, -1}), c = i.x("scale", 1, {0, -1}), o = i.x("tolerance", 0.1f, {-1}, {0}); vec2 f = i.f("values", 2, 2, NANF, true); GO(if(i.what.find("ragged") != std::string::npos) mc::skip(); Log().forward(f); BoxCox(0).backward(f); StartedBoxCox(t, 0.5f).forward(f); gridpp::Gamma(s, c, o).forward(f))),
    OP("transform scaling", float s = i.x("scaling", 1, {0, -1}); GO(StartedBoxCox(1, s).forward(1.f))),
    OP("dewpoint", vec a = i.v("a", 3, 280), b = i.v("b", 3, 0.5f); GO(dewpoint(a, b))),
    OP("relative_humidity", vec a = i.v("a", 3, 280), b = i.v("b", 3, 270); GO(relative_humidity(a, b))),
    OP("wetbulb", vec a = i.v("a", 3, 280), b = i.v("b", 3, 100000), c = i.v("c", 3, 0.5f); GO(wetbulb(a, b, c))),
    OP("pressure", vec a = i.v("a", 3, 0), b = i.v("b", 3, 10), c = i.v("c", 3, 100000), d = i.v("d", 3, 280); GO(pressure(a, b, c, d))),
    OP("qnh", vec a = i.v("a", 3, 100000), b = i.v("b", 3, 10); GO(qnh(a, b))),
    OP("sea_level_pressure", vec a = i.v("a", 3, 100000), b = i.v("b", 3, 10), c = i.v("c", 3, 280), d = i.v("d", 3, 0.5f), e = i.v("e", 3, 270); GO(if(i.what.find("missing") != std::string::npos) mc::skip(); sea_level_pressure(a, b, c, d, e))),
    OP("wind", vec a = i.v("a", 3), b = i.v("b", 3); GO(if(mc::dev(2)) wind_speed(a, b); else wind_direction(a, b))),
    OP("calc_statistic 1d", vec a = i.v("a", 3, NANF, true, true); Statistic s = i.stat(true); GO(if(i.what.find("statistic") == std::string::npos) i.bad = false; if(a.size() < 3) { if(i.bad) mc::skip(); } calc_statistic(a, s))),
    OP("calc_statistic 2d", int A = 3; int B = 2; i.dims("field", A, B); vec2 a = i.f("a", A, B, NANF, true); Statistic s = i.stat(true); GO(if(i.what.find("statistic") == std::string::npos) i.bad = false; if(i.bad && (a.empty() || a[0].empty())) mc::skip(); calc_statistic(a, s))),
    OP("calc_quantile", vec a = i.v("a", 3, NANF, true, true); float q = i.x("q", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(if(i.what.find("q ") == std::string::npos) i.bad = false; calc_quantile(a, q))),
    OP("calc_quantile 2d", int A = 3; int B = 2; i.dims("field", A, B); vec2 a = i.f("a", A, B, NANF, true); float q = i.x("q", 0.5f, {-0.1f, 1.1f}, {0, 1}); GO(if(i.what.find("q ") == std::string::npos) i.bad = false; if(i.bad && a.empty()) mc::skip(); calc_quantile(a, q))),
    OP("calc_quantile 3d", int A = 3; int B = 2; i.dims("field", A, B); vec3 a = i.c("a", A, B, 2, false); vec2 q = i.f("q", A, B, 0.5f); GO(if(i.what.find("inner ragged") != std::string::npos) i.bad = i.what.find("+") != std::string::npos ? i.bad : false; calc_quantile(a, q))),
    OP("interpolate", vec x = i.v("x", 2, 1.2f, true, true), a{1, 2, 3}, b = i.v("y", 3); bool s = mc::dev(2); GO(if(x.size() < 2 && i.what.find("y ") == std::string::npos) i.bad = false; if(x.empty()) mc::skip(); if(s) interpolate(x[0], a, b); else interpolate(x, a, b))),
    OP("calc_even_quantiles", vec x = i.v("x", 3, NANF, true, true); int n = i.n("num", 2, {NEG}, {0, 1, 100}); GO(if(i.what.find("num") == std::string::npos) i.bad = false; calc_even_quantiles(x, n))),
    OP("window", int A = 3; int B = 2; i.dims("field", A, B); vec2 f = i.f("values", A, B, NANF, true); int l = i.n("length", 3, {NEG, 0}, {1, 101}); Statistic s = i.stat(); bool b = mc::dev(2), k = mc::dev(2), m = mc::dev(2); GO(window(f, l, s, b, k, m))),
    OP("optimal_interpolation grid", IGIP; vec2 f = i.f("background", A, B); vec o = i.v("obs", N), r = i.v("ratios", N, 0.5f), b = i.v("pbackground", N); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); GO(optimal_interpolation(ig, f, ip, o, r, b, *s, m))),
    OP("optimal_interpolation points", IQIP; vec f = i.v("background", M), o = i.v("obs", N), r = i.v("ratios", N, 0.5f), b = i.v("pbackground", N); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); GO(optimal_interpolation(oq, f, ip, o, r, b, *s, m))),
    OP("optimal_interpolation_full grid", IGIP; vec2 f = i.f("background", A, B), v = i.f("variance", A, B, 1); vec o = i.v("obs", N), r = i.v("obs variance", N, 0.5f), b = i.v("pbackground", N), w = i.v("pvariance", N, 1); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); GO(vec2 av; optimal_interpolation_full(ig, f, v, ip, o, r, b, w, *s, m, av))),
    OP("optimal_interpolation_full points", IQIP; vec f = i.v("background", M), v = i.v("variance", M, 1), o = i.v("obs", N), r = i.v("obs variance", N, 0.5f), b = i.v("pbackground", N), w = i.v("pvariance", N, 1); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); GO(vec av; optimal_interpolation_full(oq, f, v, ip, o, r, b, w, *s, m, av))),
    OP("optimal_interpolation_ensi grid", IGIP; vec3 f = i.c("background", A, B, 2, false); vec o = i.v("obs", N), r = i.v("sigmas", N, 0.5f); vec2 b = i.f("pbackground", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); if(N && A && !i.bad && f[0][0].size() != b[0].size()) i.bad = true; GO(optimal_interpolation_ensi(ig, f, ip, o, r, b, *s, m))),
    OP("optimal_interpolation_ensi points", IQIP; vec2 f = i.f("background", M, 2); vec o = i.v("obs", N), r = i.v("sigmas", N, 0.5f); vec2 b = i.f("pbackground", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 1, 100}); GO(optimal_interpolation_ensi(oq, f, ip, o, r, b, *s, m))),
    OP("ebe grid", IGIP; vec2 q = i.f("bratios", A, B, 1); vec3 f = i.c("background", A, B, 2, false), g = i.c("background corr", A, B, 2, false); vec r = i.v("ratios", N, 0.5f); vec2 o = i.f("obs", N, 2), b = i.f("pbackground", N, 2), c = i.f("pbackground corr", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); if(i.what.find("inner") != std::string::npos) i.bad = true; GO(optimal_interpolation_ensi_multi_ebe(ig, q, f, g, ip, o, r, b, c, *s, m))),
    OP("ebe points", IQIP; vec q = i.v("bratios", M, 1); vec2 f = i.f("background", M, 2), g = i.f("background corr", M, 2); vec r = i.v("ratios", N, 0.5f); vec2 o = i.f("obs", N, 2), b = i.f("pbackground", N, 2), c = i.f("pbackground corr", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); GO(optimal_interpolation_ensi_multi_ebe(oq, q, f, g, ip, o, r, b, c, *s, m))),
    OP("ebesc grid", IGIP; vec2 q = i.f("bratios", A, B, 1); vec3 f = i.c("background", A, B, 2, false); vec r = i.v("ratios", N, 0.5f); vec2 o = i.f("obs", N, 2), b = i.f("pbackground", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); if(i.what.find("inner") != std::string::npos) i.bad = true; GO(optimal_interpolation_ensi_multi_ebesc(ig, q, f, ip, o, r, b, *s, m))),
    OP("ebesc points", IQIP; vec q = i.v("bratios", M, 1); vec2 f = i.f("background", M, 2); vec r = i.v("ratios", N, 0.5f); vec2 o = i.f("obs", N, 2), b = i.f("pbackground", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); GO(optimal_interpolation_ensi_multi_ebesc(oq, q, f, ip, o, r, b, *s, m))),
    OP("utem grid", IGIP; vec2 q = i.f("bratios", A, B, 1); vec3 f = i.c("background", A, B, 2, false), g = i.c("background corr", A, B, 2, false); vec r = i.v("ratios", N, 0.5f), o = i.v("obs", N); vec2 b = i.f("pbackground", N, 2), c = i.f("pbackground corr", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); if(i.what.find("inner") != std::string::npos) i.bad = true; GO(optimal_interpolation_ensi_multi_utem(ig, q, f, g, ip, o, r, b, c, *s, m))),
    OP("utem points", IQIP; vec q = i.v("bratios", M, 1); vec2 f = i.f("background", M, 2), g = i.f("background corr", M, 2); vec r = i.v("ratios", N, 0.5f), o = i.v("obs", N); vec2 b = i.f("pbackground", N, 2), c = i.f("pbackground corr", N, 2); auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); GO(optimal_interpolation_ensi_multi_utem(oq, q, f, g, ip, o, r, b, c, *s, m))),
    OP("staticcorr_points", IQIP; auto s = i.st(); int m = i.n("max_points", 2, {NEG}, {0, 100}); GO(staticcorr_points(oq, ip, *s, m))),
    OP("local_distribution_correction", IGIP; vec2 f = i.f("background", A, B); vec o = i.v("obs", N, NANF, true), b = i.v("pbackground", N, NANF, true); auto s = i.st(); float lo = i.x("min_quantile", 0, {-0.1f, 1.1f}, {0.5f}), hi = i.x("max_quantile", 1, {-0.1f, 1.1f}, {0.9f}); if(o.size() != b.size()) i.bad = true; GO(local_distribution_correction(ig, f, ip, o, b, *s, lo, hi))),
    OP("neighbourhood_score", IGIP; vec2 f = i.f("fcst", A, B); vec o = i.v("ref", N); int h = i.n("halfwidth", 1, {NEG}, {0, 100}); Metric m = i.metric(); GO(if(A == 0 || N == 0) mc::skip(); neighbourhood_score(ig, ip, f, o, h, m, 2))),
    OP("structure functions", int k = mc::choose(6); float h = i.x("h", 1000, {-1}, {0}), v = i.x("v", 100, {-1}, {0}), w = i.x("w", 0.5f, {-1}, {0}), m = i.x("hmax", NANF, {-1}, {0, 100000}); GO(if(k == 5 && m == -1) i.bad = h < 0 || v < 0 || w < 0; switch(k) { case 0: BarnesStructure(h, v, w, m); break; case 1: SoarStructure(h, v, w, m); break; case 2: ToarStructure(h, v, w, m); break; case 3: PowerlawStructure(h, v, w, m); break; case 4: LinearStructure(h, v, w, m); break; case 5: CressmanStructure(h, v, w); break; })),
    OP("spatial structure functions", int k = mc::choose(5); int A = 3; int B = 2; i.dims("grid", A, B); Grid ig = i.grid("grid", A, B); vec2 h = i.f("h", A, B, 1000), v = i.f("v", A, B, 0), w = i.f("w", A, B, 0); GO(switch(k) { case 0: BarnesStructure(ig, h, v, w); break; case 1: SoarStructure(ig, h, v, w); break; case 2: ToarStructure(ig, h, v, w); break; case 3: PowerlawStructure(ig, h, v, w); break; case 4: LinearStructure(ig, h, v, w); break; })),
    OP("cross validation", float d = i.x("dist", 1000, {-1}, {0, NANF}); BarnesStructure b(1000); GO(CrossValidation c(b, d); c.corr(Point(0, 0), Point(0, 0)))),
    OP("corr", auto s = i.st(); auto b = s; Points p = i.pts("p", i.np("points"), false); GO(std::vector<Point> q; for(int k = 0; k < p.size(); k++) q.push_back(p.get_point(k)); b->corr(Point(60, 10), q); b->corr_background(Point(60, 10), q))),
    OP("points", int N = i.np("points"); vec la = i.v("lats", N, 60), lo = i.v("lons", N, 10), el = i.v("elevs", N, 1, false, true), lf = i.v("lafs", N, 1, false, true); GO(if(i.what.find("ats missing") != std::string::npos || i.what.find("ons missing") != std::string::npos) i.bad = true; Points(la, lo, el, lf))),
    OP("point", float a = i.x("lat", 60, {NANF, 91, -91, INFINITY}, {90, -90}), b = i.x("lon", 10, {NANF, INFINITY}, {-180, 360}); GO(Points({a}, {b}); Point p(a, b))),
    OP("grid", int A = 3; int B = 2; i.dims("grid", A, B); vec2 la = i.f("lats", A, B, 60), lo = i.f("lons", A, B, 10), el(A, vec(B, 1)), lf(A, vec(B, 1)); if(!i.bad && A) { el = i.f("elevs", A, B, 1, false, true); lf = i.f("lafs", A, B, 1, false, true); }; GO(if(A == 1 && la.empty()) i.bad = !lo.empty() || !el.empty(); Grid(la, lo, el, lf))),
    OP("grid lookups", int A = 3; int B = 2; i.dims("grid", A, B); Grid ig = i.grid("grid", A, B); float a = i.x("lat", 60.2f, {NANF, 91}, {90}), b = i.x("lon", 10.2f, {NANF}, {-170}); int n = i.n("num", 2, {NEG}, {0, 100}); float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); int k = mc::choose(6); GO(vec d; int q; bool rr = i.what.find("radius") != std::string::npos; bool nn = i.what.find("num") != std::string::npos; bool cc = i.what.find("lat") != std::string::npos || i.what.find("lon") != std::string::npos; bool g = k >= 1 && k <= 3; if((rr && !g) || (nn && k != 4)) mc::skip(); if(cc && k == 5) mc::skip(); switch(k) { case 0: if(A == 0) i.bad = cc ? i.bad : false; ig.get_nearest_neighbour(a, b); break; case 1: ig.get_neighbours(a, b, r); break; case 2: ig.get_neighbours_with_distance(a, b, r, d); break; case 3: ig.get_num_neighbours(a, b, r); break; case 4: ig.get_closest_neighbours(a, b, n); break; case 5: ig.get_box(a, b, q, q, q, q); break; })),
    OP("points lookups", int N = i.np("points"); Points p = i.pts("points", N); float a = i.x("lat", 60.2f, {NANF, 91}, {90}), b = i.x("lon", 10.2f, {NANF}, {-170}); int n = i.n("num", 2, {NEG}, {0, 100}); float r = i.x("radius", 1e5f, {FNEG}, {0, 1e9f}); int k = mc::choose(5); GO(vec d; bool rr = i.what.find("radius") != std::string::npos; bool nn = i.what.find("num") != std::string::npos; bool g = k >= 1 && k <= 3; if((rr && !g) || (nn && k != 4)) mc::skip(); switch(k) { case 0: p.get_nearest_neighbour(a, b); break; case 1: p.get_neighbours(a, b, r); break; case 2: p.get_neighbours_with_distance(a, b, r, d); break; case 3: p.get_num_neighbours(a, b, r); break; case 4: p.get_closest_neighbours(a, b, n); break; })),
    OP("element access", Points p = i.pts("points", 3); Grid g = i.grid("grid", 3, 2); int k = mc::choose(4); int a = i.n("index", 1, {-1, 3, 1000000}); GO(switch(k) { case 0: p.get_point(a); break; case 1: g.get_point(a, 1); break; case 2: if(a == 1) a = 0; g.get_point(1, a); break; case 3: p.subset(ivec{0, a}); break; })),
    OP("kdtree", int N = i.np("points"); vec la = i.v("lats", N, 60), lo = i.v("lons", N, 10); int n = i.n("num", 1, {NEG}, {0, 100}); GO(if(i.what.find("missing") != std::string::npos) i.bad = true; KDTree t(la, lo); t.get_nearest_neighbour(60, 10); t.get_nearest_neighbour(60, 10, false); vec d; t.get_neighbours_with_distance(60, 10, 1e6, d); t.get_closest_neighbours(60, 10, n))),
    OP("points from tree", int N = i.np("points"); vec la(N, 60), lo(N, 10), el = i.v("elevs", N, 1, false, true), lf = i.v("lafs", N, 1, false, true); GO(Points p(KDTree(la, lo), el, lf); for(int k = 0; k < p.size(); k++) p.get_point(k))),
    OP("convert_coordinates", vec la = i.v("lats", 3, 60), lo = i.v("lons", 3, 10); GO(if(i.what.find("missing") != std::string::npos) i.bad = true; vec x, y, z; convert_coordinates(la, lo, Geodetic, x, y, z))),
    OP("in domain", IGIP; GO(ip.get_in_domain(ig); ip.get_in_domain_indices(ig))),
    OP("to_points", int A = 3; int B = 2; i.dims("grid", A, B); Grid ig = i.grid("grid", A, B); GO(ig.to_points().get_lats())),
};
#undef OP
} // namespace

// Variants that a caller may reasonably see accepted or rejected; only a crash, abort, hang or read outside the input
// would be wrong for these. Everything else that is malformed has to raise an error.
bool has(const std::string& s, const char* t) { return s.find(t) != std::string::npos; }
bool may_accept(const std::string& op, const std::string& what) {
    if(has(what, "ragged long") || has(what, "operator unknown")) return true;                         // surplus is ignored / no comparison holds
    if(has(what, "other coordinate type")) return !(has(op, "optimal_interpolation") || has(op, "ebe") || has(op, "utem") || has(op, "distance") || has(op, "staticcorr"));
    if(has(what, "radius -1") && (has(op, "count") || has(op, "lookups"))) return true;                // nothing lies within a negative radius
    if(has(what, "num 0") && has(op, "distance")) return true;
    if(op == "apply_curve 2d" && has(what, "x ragged")) return true;                                     // rows are independent
    if(op == "local_distribution_correction" && has(what, "one more")) return true;
    if(op == "grid" && (has(what, "elevs") || has(what, "lafs") || what == "lats empty")) return true; // documented to become missing / no grid
    if(op == "nearest points points 2d" && (what == "values empty" || has(what, "row short"))) return true; // any number of times
    if(has(what, "statistic quantile") && (has(op, "brute_force") || op == "mask_threshold_consensus")) return true;
    return false;
}
bool may_reject(const std::string& op, const std::string& what, bool empty) {
    if(empty) return true;
    if(has(op, "apply_curve") && has(what, "unknown")) return true;
    if(has(op, "gamma_inv") || (op == "cross validation" && has(what, "nan"))) return true;
    return op == "neighbourhood_score" && what == "halfwidth 0";
}

MC_HARNESS(malformed) {
    int k = mc::choose(ops.size());
    mc::budget(getenv("P21_B") ? atoi(getenv("P21_B")) : mc::thorough() ? 4 : 3);
    In in;
    mc::site(ops[k].name);
    bool ran = false, threw = false; std::string err;
    ops[k].fn(in, [&](const std::function<void()>& call) {
        mc::site(std::string(ops[k].name) + "/" + in.what);
        NV(std::string(ops[k].name)); NV(in.what);
        ran = true; mc::op();
        try { call(); } catch(const mc::Skip&) { throw; } catch(const mc::Failed&) { throw; } catch(const std::exception& e) { threw = true; err = e.what(); }
    });
    // two changes may cancel out, so only single ones are judged for acceptance
    bool single = in.what.find('+') == std::string::npos;
    if(single && in.bad && !in.empty && !may_accept(ops[k].name, in.what)) mc::check(threw, std::string("accepted:") + ops[k].name + "/" + in.what, "malformed input was accepted");
    if(may_reject(ops[k].name, in.what, in.empty)) in.odd = true, single = false;
    if(!in.bad && !in.odd) mc::check(!threw, std::string("rejected:") + ops[k].name, err);
    if(!in.bad && in.odd && single) mc::check(!threw, std::string("rejected:") + ops[k].name + "/" + in.what, err);
    mc::outcome_of(vec{(float)k, (float)threw, (float)in.what.size()});
}
MC_MAIN
