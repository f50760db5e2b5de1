// Every public array operation of the library, on a small workload with variants (plain, missing values, a single
// row of cells, missing metadata); returns all output values in one list.
#pragma once
#include "gp.h"
namespace ops {
using namespace gp;
struct Out { vec v; void operator()(float x) { v.push_back(x); } void operator()(const vec& a) { v.push_back(-1e6f - a.size()); for(float x : a) v.push_back(x); } void operator()(const vec2& a) { v.push_back(-2e6f - a.size()); for(auto& x : a) (*this)(x); } void operator()(const vec3& a) { v.push_back(-3e6f - a.size()); for(auto& x : a) (*this)(x); } void operator()(const ivec& a) { for(int x : a) v.push_back(x); v.push_back(-4e6f); } };
struct W {
    int var, Y, X, E = 3; Grid ig, og; Points ip, op; vec2 f, og2; vec3 e; vec obs, pv; vec2 pe; vec2 thr;
    static float val(int var, int i, int k) { if((var & 1) && (i * 5 + k * 3) % 7 == 2) return NANF; return ((i * 37 + k * 11) % 17) * 0.5f + i * 0.125f; }
    static Grid grid(int Y, int X, float a, float o, float s, bool md, CoordinateType t) { vec2 la(Y, vec(X)), lo = la, el = la, lf = la; for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { la[y][x] = a + s * y; lo[y][x] = o + s * x + 0.01f * s * y; el[y][x] = md ? 100 * ((y * 3 + x * 2) % 5) : NANF; lf[y][x] = md ? ((y + x) % 3) * 0.5f : NANF; } return Grid(la, lo, el, lf, t); }
    static Points pts(int n, float a, float o, float s, bool md, CoordinateType t) { vec la, lo, el, lf; for(int i = 0; i < n; i++) { la.push_back(a + s * ((i * 2) % 3) + 0.1f * s * i); lo.push_back(o + s * ((i * 3) % 4) * 0.7f); el.push_back(md ? 50 * i : NANF); lf.push_back(md ? (i % 2) : NANF); } return Points(la, lo, el, lf, t); }
    W(int v) : var(v) {
        Y = (v & 2) ? 1 : 4; X = 3; bool md = !(v & 4); CoordinateType t = Geodetic;
        ig = grid(Y, X, 60, 10, 1, md, t); og = grid(3, 2, 60.2f, 10.3f, 0.8f, md, t); ip = pts(5, 60, 10, 1, md, t); op = pts(4, 60.3f, 10.2f, 0.9f, md, t);
        f = vec2(Y, vec(X)); e = vec3(Y, vec2(X, vec(E))); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { f[y][x] = val(v, y * X + x, 1); for(int k = 0; k < E; k++) e[y][x][k] = val(v, y * X + x + k, k); }
        for(int i = 0; i < 5; i++) { obs.push_back(val(v, i, 4)); pv.push_back(val(v, i, 5)); vec q; for(int k = 0; k < E; k++) q.push_back(val(v, i + k, 2 + k)); pe.push_back(q); } thr = vec2(3, vec(2, 2)); thr[1][1] = 4;
    }
    vec3 stack() const { vec3 r; for(int k = 0; k < E; k++) { r.push_back(vec2(Y, vec(X))); for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) r[k][y][x] = e[y][x][k]; } return r; }
    vec2 pstack() const { vec2 r; for(int k = 0; k < E; k++) { r.push_back(vec()); for(int i = 0; i < 5; i++) r[k].push_back(pe[i][k]); } return r; }
    vec2 grad(float g) const { vec2 r = f; for(auto& q : r) for(float& x : q) x = valid(x) ? g * x : x; return r; }
    vec2 field(float a) const { return vec2(Y, vec(X, a)); }
};
typedef void (*Fn)(const W&, Out&);
struct Op { const char* name; Fn fn; };
#define OP(n, ...) {n, [](const W& w, Out& o) { __VA_ARGS__; }}
inline const std::vector<Op>& all() {
    static const std::vector<Op> v = {
        OP("neighbourhood", for(auto s : {Mean, Min, Max, Sum, Count, Median, Std, Variance}) for(int h : {0, 1, 5}) { o(neighbourhood(w.f, h, s)); o(neighbourhood(w.e, h, s)); }),
        OP("neighbourhood_quantile", for(float q : {0.f, 0.6f}) { o(neighbourhood_quantile(w.f, q, 1)); o(neighbourhood_quantile(w.e, q, 1)); }),
        OP("neighbourhood_quantile_fast", vec t{0, 2, 4, 8}; o(neighbourhood_quantile_fast(w.f, 0.4f, 1, t)); o(neighbourhood_quantile_fast(w.e, 0.4f, 1, t)); vec2 q = w.field(0.3f); q[0][0] = 0.9f; o(neighbourhood_quantile_fast(w.f, q, 1, t)); o(neighbourhood_quantile_fast(w.e, q, 1, t))),
        OP("neighbourhood_brute_force", for(auto s : {Mean, Max, Median}) { o(neighbourhood_brute_force(w.f, 1, s)); o(neighbourhood_brute_force(w.e, 1, s)); }),
        OP("thresholds", o(get_neighbourhood_thresholds(w.f, 3)); o(get_neighbourhood_thresholds(w.e, 4))),
        OP("calc_gradient", vec2 b = w.ig.get_elevs(); for(auto t : {MinMax, LinearRegression}) o(calc_gradient(b, w.f, t, 1, 2, 0, -1))),
        OP("neighbourhood_search", o(neighbourhood_search(w.f, w.grad(2), 1, 3, 6, 1)); ivec2 m(w.Y, ivec(w.X, 1)); m[0][0] = 0; o(neighbourhood_search(w.f, w.f, 1, 3, 6, 1, m))),
        OP("nearest", o(nearest(w.ig, w.og, w.f)); o(nearest(w.ig, w.og, w.stack())); o(nearest(w.ig, w.op, w.f)); o(nearest(w.ig, w.op, w.stack())); o(nearest(w.ip, w.op, w.obs)); o(nearest(w.ip, w.op, w.pstack())); o(nearest(w.ip, w.og, w.obs)); o(nearest(w.ip, w.og, w.pstack()))),
        OP("bilinear", o(bilinear(w.ig, w.og, w.f)); o(bilinear(w.ig, w.og, w.stack())); o(bilinear(w.ig, w.op, w.f)); o(bilinear(w.ig, w.op, w.stack()))),
        OP("downscaling", for(auto d : {Nearest, Bilinear}) { o(downscaling(w.ig, w.og, w.f, d)); o(downscaling(w.ig, w.og, w.stack(), d)); o(downscaling(w.ig, w.op, w.f, d)); o(downscaling(w.ig, w.op, w.stack(), d)); }),
        OP("downscale_probability", for(auto c : {Lt, Leq, Gt, Geq}) o(downscale_probability(w.ig, w.og, w.e, w.thr, c))),
        OP("mask_threshold", vec3 t = w.e; vec3 f = w.e; for(auto& a : f) for(auto& b : a) for(float& x : b) x += 5; for(auto c : {Lt, Geq}) { o(mask_threshold_downscale_consensus(w.ig, w.og, t, f, w.e, w.thr, c, Mean)); o(mask_threshold_downscale_quantile(w.ig, w.og, t, f, w.e, w.thr, c, 0.5f)); }),
        OP("simple_gradient", for(auto d : {Nearest, Bilinear}) { o(simple_gradient(w.ig, w.og, w.f, -0.01f, d)); o(simple_gradient(w.ig, w.og, w.stack(), -0.01f, d)); o(simple_gradient(w.ig, w.op, w.f, -0.01f, d)); o(simple_gradient(w.ig, w.op, w.stack(), -0.01f, d)); }),
        OP("full_gradient", vec2 g = w.grad(0.01f); vec2 l = w.grad(1); vec3 g3(w.E, g); vec3 l3(w.E, l); for(auto d : {Nearest, Bilinear}) { o(full_gradient(w.ig, w.og, w.f, g, l, d)); o(full_gradient(w.ig, w.og, w.f, g, vec2(), d)); o(full_gradient(w.ig, w.op, w.f, g, l, d)); o(full_gradient(w.ig, w.og, w.stack(), g3, l3, d)); o(full_gradient(w.ig, w.op, w.stack(), g3, l3, d)); o(full_gradient_debug(w.ig, w.og, w.f, g, l, d)); }),
        OP("smart", CressmanStructure s(200000, 200, 1); o(smart(w.ig, w.og, w.f, 2, s))),
        OP("count", for(float r : {50000.f, 150000.f}) { o(count(w.ig, w.op, r)); o(count(w.ig, w.og, r)); o(count(w.ip, w.og, r)); o(count(w.ip, w.op, r)); }),
        OP("distance", for(int n : {1, 2}) { o(distance(w.ig, w.op, n)); o(distance(w.ig, w.og, n)); o(distance(w.ip, w.og, n)); o(distance(w.ip, w.op, n)); }),
        OP("fill", vec r(5, 60000); o(fill(w.ig, w.f, w.ip, r, 99, false)); o(fill(w.ig, w.f, w.ip, r, 99, true)); o(fill_missing(w.f))),
        OP("doping", o(doping_square(w.ig, w.f, w.ip, w.obs, ivec(5, 1), 150)); o(doping_circle(w.ig, w.f, w.ip, w.obs, vec(5, 90000), 150))),
        OP("gridding", for(auto s : {Mean, Median, Max, Count, Std}) for(int m : {0, 2}) { o(gridding(w.ig, w.ip, w.obs, 120000, m, s)); o(gridding(w.op, w.ip, w.obs, 120000, m, s)); }),
        OP("gridding_nearest", for(auto s : {Mean, Median, Max, Count, Std}) for(int m : {0, 2}) { o(gridding_nearest(w.ig, w.ip, w.obs, m, s)); o(gridding_nearest(w.op, w.ip, w.obs, m, s)); }),
        OP("neighbourhood_score", o(neighbourhood_score(w.ig, w.ip, w.f, w.obs, 1, Ets, 2)); o(neighbourhood_score(w.ig, w.ip, w.f, w.obs, 1, Pc, 2))),
        OP("humidity", vec t; vec r; vec p; for(int i = 0; i < 5; i++) { t.push_back(270 + 2 * w.obs[i]); r.push_back(0.1f + 0.1f * w.pv[i] / 2); p.push_back(101325 - 100 * i); } o(dewpoint(t, r)); o(relative_humidity(t, r)); o(wetbulb(t, p, r)); o(qnh(p, w.obs)); o(pressure(w.obs, w.pv, p, t))),
        OP("sea_level_pressure", vec t; vec p; vec z; vec n(5, NANF); for(int i = 0; i < 5; i++) { t.push_back(270 + 2 * i); z.push_back(20 * i); p.push_back(w.obs[i] * 10 + 100000); } o(sea_level_pressure(p, z, t, n, n)); o(sea_level_pressure(p, z, t, vec(5, 0.5f), n))),
        OP("wind", o(wind_speed(w.obs, w.pv)); o(wind_direction(w.obs, w.pv))),
        OP("gamma_inv", vec l; for(int i = 0; i < 5; i++) l.push_back(0.15f + 0.15f * i); o(gamma_inv(l, vec{1, 2, 3, 4, 5}, vec{2, 2, 1, 1, 3}))),
        OP("transform", for(int k = 0; k < 4; k++) { Log a; BoxCox b(0.5f); gridpp::Gamma c(2, 1, 0.1f); StartedBoxCox d(0.5f, 1); const Transform& t = k == 0 ? (const Transform&)a : k == 1 ? (const Transform&)b : k == 2 ? (const Transform&)c : d; vec2 g = w.f; for(auto& q : g) for(float& x : q) x += 1; o(t.forward(g)); o(t.backward(t.forward(g))); o(t.forward(w.stack()[0])); }),
        OP("curve", vec r{0, 1, 5}; vec f{1, 2, 4}; for(auto p : {OneToOne, MeanSlope, NearestSlope, Zero, Unchanged}) { o(apply_curve(w.obs, r, f, p, p)); o(apply_curve(w.f, r, f, p, p)); o(apply_curve(w.f, vec3(w.Y, vec2(w.X, r)), vec3(w.Y, vec2(w.X, f)), p, p)); } vec of; o(quantile_mapping_curve(w.obs, w.pv, of, vec{0.1f, 0.9f})); o(of); o(monotonize_curve(vec{1, 2, 3}, vec{1, 0.5f, 3}, of)); o(of)),
        OP("metric", for(auto m : {Ets, Ts, Kss, Pc, Bias, Hss}) { vec of; o(metric_optimizer_curve(w.obs, w.pv, vec{1, 3, 5}, m, of)); o(of); o(calc_score(w.obs, w.pv, 3, m)); }),
        OP("statistics", for(auto s : {Mean, Median, Std, Sum, Count}) o(calc_statistic(w.pe, s)); o(calc_quantile(w.pe, 0.3f)); o(calc_quantile(w.e, w.field(0.7f))); o(interpolate(w.obs, vec{0, 1, 4}, vec{3, 9, 1}))),
        OP("window", for(auto s : {Mean, Sum, Min, Count}) for(int k = 0; k < 8; k++) o(window(w.pe, 3, s, k & 1, k & 2, k & 4))),
        OP("local_distribution_correction", BarnesStructure s(150000); vec b = w.pv; o(local_distribution_correction(w.ig, w.f, w.ip, w.obs, b, s, 0.01f, 0.99f)); o(local_distribution_correction(w.ig, w.f, w.ip, vec2{w.obs, w.pv}, vec2{b, b}, s, 0.1f, 0.9f, 2))),
        OP("optimal_interpolation", BarnesStructure s(150000, 200, 0.5f); vec r(5, 0.5f); for(int m : {0, 2}) for(bool x : {true, false}) { o(optimal_interpolation(w.ig, w.f, w.ip, w.obs, r, w.pv, s, m, x)); vec bg = nearest(w.ig, w.op, w.f); o(optimal_interpolation(w.op, bg, w.ip, w.obs, r, w.pv, s, m, x)); vec2 av; o(optimal_interpolation_full(w.ig, w.f, w.field(1), w.ip, w.obs, r, w.pv, vec(5, 1), s, m, av, x)); o(av); vec a1; o(optimal_interpolation_full(w.op, bg, vec(4, 1), w.ip, w.obs, r, w.pv, vec(5, 1), s, m, a1, x)); o(a1); }),
        OP("optimal_interpolation_ensi", CressmanStructure s(150000, 300, 1); vec r(5, 0.5f); for(int m : {0, 2}) for(bool x : {true, false}) { o(optimal_interpolation_ensi(w.ig, w.e, w.ip, w.obs, r, w.pe, s, m, x)); vec2 b; for(int i = 0; i < 4; i++) b.push_back(vec{1, 2, i + 1.5f}); o(optimal_interpolation_ensi(w.op, b, w.ip, w.obs, r, w.pe, s, m, x)); }),
        OP("ensi_multi", BarnesStructure s(150000); vec r(5, 0.5f); vec2 br = w.field(1); for(int m : {0, 2}) { o(optimal_interpolation_ensi_multi_ebe(w.ig, br, w.e, w.e, w.ip, w.pe, r, w.pe, w.pe, s, m)); o(optimal_interpolation_ensi_multi_ebesc(w.ig, br, w.e, w.ip, w.pe, r, w.pe, s, m)); o(optimal_interpolation_ensi_multi_utem(w.ig, br, w.e, w.e, w.ip, w.obs, r, w.pe, w.pe, s, m)); }),
        OP("staticcorr", BarnesStructure s(150000); o(staticcorr_points(w.op, w.ip, s, 0)); o(staticcorr_points(w.op, w.ip, s, 2))),
        OP("structures", BarnesStructure a(150000, 200, 0.5f); CressmanStructure b(150000, 200, 0.5f); MultipleStructure m(a, b, b); CrossValidation c(a, 50000); for(int i = 0; i < 4; i++) { std::vector<Point> q; for(int k = 0; k < 5; k++) q.push_back(w.ip.get_point(k)); o(a.corr(w.op.get_point(i), q)); o(b.corr_background(w.op.get_point(i), q)); o(m.corr(w.op.get_point(i), q)); o(c.corr_background(w.op.get_point(i), q)); o(a.localization_distance(w.op.get_point(i))); } vec2 h = w.field(100000); BarnesStructure g(w.ig, h, w.field(100), w.field(0), 0.01f); o(g.corr(w.op.get_point(0), w.op.get_point(1)))),
        OP("points", o(w.ip.get_neighbours(60.5f, 10.5f, 150000)); vec d; o(w.ip.get_neighbours_with_distance(60.5f, 10.5f, 150000, d)); o(d); o(w.ig.get_nearest_neighbour(60.5f, 10.5f)); o(w.ip.get_closest_neighbours(60.5f, 10.5f, 3)); o(w.ig.to_points().get_lats()); o(w.ip.get_in_domain(w.ig).get_lats()); o(w.ip.subset(ivec{3, 1}).get_lons()); int a; int b; int c; int e; o(w.ig.get_box(60.5f, 10.5f, a, b, c, e))),
    };
    return v;
}
#undef OP
inline vec run(int k, const W& w) { Out o; all()[k].fn(w, o); return o.v; }
inline bool same(const vec& a, const vec& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(memcmp(&a[i], &b[i], 4) && !(std::isnan(a[i]) && std::isnan(b[i]))) return false; return true; }
inline std::string diff(const vec& a, const vec& b) { if(a.size() != b.size()) return mc::fmt("%zu instead of %zu values", b.size(), a.size()); for(size_t i = 0; i < a.size(); i++) if(!same(vec{a[i]}, vec{b[i]})) return mc::fmt("value %zu of %zu: %.9g instead of %.9g", i, a.size(), b[i], a[i]); return ""; }
}
