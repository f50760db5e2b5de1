#include "gp.h"
using namespace gp;
// One "structure under test": built from the same locations in one of several ways.
struct Sut {
    int kind; int N; CoordinateType t;
    KDTree tree; Points pts; Grid grid; int nx = 1;
    static const int KINDS = 11;
    Sut(int kind, const vec& la, const vec& lo, CoordinateType t) : kind(kind), N(la.size()), t(t) {
        if(kind == 0) tree = KDTree(la, lo, t);
        if(kind == 1) { KDTree a(la, lo, t); KDTree b(a); KDTree c(b); tree = c; }
        if(kind == 2) { tree = KDTree(vec(3, 1), vec(3, 2), Geodetic); tree = KDTree(la, lo, t); }
        if(kind == 3) pts = Points(la, lo, vec(), vec(), t);
        if(kind == 4) { Points a(la, lo, vec(), vec(), t); Points b(a); pts = b; }
        if(kind == 5) { Points a(vec(2, 1), vec(2, 2)); a = Points(la, lo, vec(N, 3), vec(N, 1), t); pts = a; }
        if(kind == 6) pts = Points(KDTree(la, lo, t));
        if(kind == 7) { grid = Grid(vec2(1, la), vec2(1, lo), vec2(), vec2(), t); nx = N; }
        if(kind == 8) { vec2 a, b; for(int i = 0; i < N; i++) { a.push_back(vec(1, la[i])); b.push_back(vec(1, lo[i])); } grid = Grid(a, b, vec2(), vec2(), t); nx = 1; }
        if(kind == 9) { // two columns (last cell repeated when odd)
            vec2 a, b; for(int i = 0; i < N; i += 2) { int j = std::min(i + 1, N - 1); a.push_back({la[i], la[j]}); b.push_back({lo[i], lo[j]}); }
            grid = Grid(a, b, vec2(), vec2(), t); nx = 2; }
        if(kind == 10) pts = Grid(vec2(1, la), vec2(1, lo), vec2(), vec2(), t).to_points();
    }
    bool usable() const { return kind != 9 || N % 2 == 0; }
    bool isgrid() const { return kind >= 7 && kind <= 9; }
    ivec flat(const ivec2& I) const {
        ivec r; for(auto& i : I) { mc::check(i.size() == 2, "grid-index-size"); mc::check(i[0] >= 0 && i[1] >= 0 && i[1] < nx && i[0] * nx + i[1] < N, "grid-index-range"); r.push_back(i[0] * nx + i[1]); } return r; }
    int nearest(float a, float o, bool m) const {
        if(kind <= 2) return tree.get_nearest_neighbour(a, o, m);
        if(isgrid()) { ivec r = grid.get_nearest_neighbour(a, o, m); if(r.empty()) return -1; return flat(ivec2(1, r))[0]; }
        return pts.get_nearest_neighbour(a, o, m);
    }
    ivec closest(float a, float o, int k, bool m) const {
        if(kind <= 2) return tree.get_closest_neighbours(a, o, k, m);
        if(isgrid()) return flat(grid.get_closest_neighbours(a, o, k, m));
        return pts.get_closest_neighbours(a, o, k, m);
    }
    ivec within(float a, float o, float r, bool m) const {
        if(kind <= 2) return tree.get_neighbours(a, o, r, m);
        if(isgrid()) return flat(grid.get_neighbours(a, o, r, m));
        return pts.get_neighbours(a, o, r, m);
    }
    ivec withind(float a, float o, float r, vec& d, bool m) const {
        if(kind <= 2) return tree.get_neighbours_with_distance(a, o, r, d, m);
        if(isgrid()) return flat(grid.get_neighbours_with_distance(a, o, r, d, m));
        return pts.get_neighbours_with_distance(a, o, r, d, m);
    }
    int num(float a, float o, float r, bool m) const {
        if(kind <= 2) return tree.get_num_neighbours(a, o, r, m);
        if(isgrid()) return grid.get_num_neighbours(a, o, r, m);
        return pts.get_num_neighbours(a, o, r, m);
    }
};
// tol: distances within tol are not distinguished. A point closer than tol "matches" the query.
static void queries(const Sut& s, const vec& la, const vec& lo, float qa, float qo, float radius, bool match, CoordinateType t, double tol) {
    int N = la.size();
    std::vector<double> d(N);
    for(int i = 0; i < N; i++) d[i] = chord(la[i], lo[i], qa, qo, t);
    auto matches = [&](int i) { return d[i] <= tol; };
    std::vector<double> sorted; for(int i = 0; i < N; i++) if(match || !matches(i)) sorted.push_back(d[i]);
    std::sort(sorted.begin(), sorted.end());
    // nearest
    if(!(s.kind <= 2 && sorted.empty())) { // an empty tree has no nearest point; Points and Grid report that, the tree is covered under bad input
        mc::op(); mc::site("nearest");
        int n = s.nearest(qa, qo, match);
        if(sorted.empty()) mc::check(n == -1, "nearest-none", mc::S(n));
        else {
            mc::check(n >= 0 && n < N, "nearest-range", mc::S(n));
            mc::check(match || !matches(n), "nearest-match", mc::S(n));
            mc::check(d[n] <= sorted[0] + tol, "nearest-wrong", mc::fmt("index %d at %.6g, nearest is %.6g", n, d[n], sorted[0]));
        }
    }
    for(int k = 0; k <= N + 1; k = k < 3 || N < 6 ? k + 1 : k == 3 ? 7 : k == 7 ? N : k + 1) {
        mc::op(); mc::site("closest");
        if(k == 0) continue;
        ivec c = s.closest(qa, qo, k, match);
        int want = std::min(k, (int)sorted.size());
        mc::check((int)c.size() == want, "closest-count", mc::fmt("k=%d got %d want %d", k, (int)c.size(), want));
        std::vector<double> got; std::set<int> u(c.begin(), c.end());
        mc::check((int)u.size() == want, "closest-duplicates");
        for(int i : c) { mc::check(i >= 0 && i < N, "closest-range"); mc::check(match || !matches(i), "closest-match"); got.push_back(d[i]); }
        std::sort(got.begin(), got.end());
        for(int i = 0; i < want; i++) mc::check(fabs(got[i] - sorted[i]) <= tol, "closest-wrong", mc::fmt("k=%d i=%d got %.6g want %.6g", k, i, got[i], sorted[i]));
    }
    mc::op(); mc::site("within");
    ivec w = s.within(qa, qo, radius, match);
    std::set<int> u(w.begin(), w.end());
    mc::check(u.size() == w.size(), "within-duplicates");
    int must = 0, may = 0;
    for(int i = 0; i < N; i++) {
        bool cand = match || !matches(i);
        bool in = cand && d[i] <= radius - tol, maybe = cand && d[i] <= radius + tol;
        if(tol == 0) { in = cand && d[i] < radius; maybe = cand && d[i] <= radius; } // exactly at the radius: unspecified (test_radius_match excludes it along an axis)
        must += in; may += maybe;
        bool got = u.count(i);
        mc::check(!in || got, "within-missed", mc::fmt("index %d at %.6g radius %.6g", i, d[i], radius));
        mc::check(!got || maybe, "within-extra", mc::fmt("index %d at %.6g radius %.6g", i, d[i], radius));
    }
    for(int i : w) mc::check(i >= 0 && i < N, "within-range");
    mc::op();
    vec dist(2, -5);
    ivec wd = s.withind(qa, qo, radius, dist, match);
    mc::check(std::set<int>(wd.begin(), wd.end()) == u && wd.size() == u.size(), "withdist-set");
    mc::check(dist.size() == wd.size(), "withdist-size");
    for(size_t i = 0; i < wd.size(); i++) mc::check(fabs(dist[i] - d[wd[i]]) <= tol + 1e-5 * d[wd[i]], "withdist-value", mc::fmt("%g vs %g", dist[i], d[wd[i]]));
    mc::op();
    int n = s.num(qa, qo, radius, match);
    mc::check(n == (int)u.size(), "num", mc::fmt("%d vs %d", n, (int)u.size()));
    mc::outcome_of(w);
}
static const std::vector<std::pair<float, float>> cart = {{0, 0}, {3, 4}, {0, 5}, {4, 3}, {-5, 0}, {1, 1}, {0, -5}};
MC_HARNESS(cartesian) {
    int N = mc::range(1, mc::thorough() ? 4 : 3);
    int kind = mc::choose(Sut::KINDS);
    vec la, lo;
    for(int i = 0; i < N; i++) { auto p = mc::pick(cart); la.push_back(p.first); lo.push_back(p.second); }
    NV(N); NV(kind); NV(la); NV(lo);
    Sut s(kind, la, lo, Cartesian);
    if(!s.usable()) mc::skip();
    auto q = mc::pick(cart); float radius = mc::pick({1.5f, 5.f, 0.f, 10.f, 7.f}); bool match = !mc::flip();
    NV(q.first); NV(q.second); NV(radius); NV(match);
    queries(s, la, lo, q.first, q.second, radius, match, Cartesian, 0);
}
static const std::vector<float> glat = {60, 90, -90, 0, 89.5f, -45};
static const std::vector<float> glon = {0, 180, -180, 179.5f, -179.5f, 10};
MC_HARNESS(geodetic) {
    int N = mc::range(1, mc::thorough() ? 3 : 2);
    int kind = mc::choose(Sut::KINDS);
    vec la, lo;
    for(int i = 0; i < N; i++) { la.push_back(mc::pick(glat)); lo.push_back(mc::pick(glon)); }
    NV(kind); NV(la); NV(lo);
    Sut s(kind, la, lo, Geodetic);
    if(!s.usable()) mc::skip();
    float qa = mc::pick(glat), qo = mc::pick(glon), radius = mc::pick({60000.f, 1e6f, 6e6f, 2e7f}); bool match = !mc::flip();
    NV(qa); NV(qo); NV(radius); NV(match);
    // a "match" is decided on identical coordinates; the same place written with another longitude may or may not be one
    double tol = 3;
    bool alias = false;
    for(int i = 0; i < N; i++) if(chord(la[i], lo[i], qa, qo, Geodetic) < tol && !(la[i] == qa && lo[i] == qo)) alias = true;
    if(alias && !match) mc::skip();
    queries(s, la, lo, qa, qo, radius, match, Geodetic, tol);
}
// a point just inside or outside the radius in every direction, at every scale
MC_HARNESS(edge) {
    bool cart = mc::flip(); CoordinateType t = cart ? Cartesian : Geodetic;
    static const std::vector<std::pair<float, float>> bases = {{0, 0}, {60, 10}, {-60, -75}, {0, 90}, {0, 180}, {45, 135}, {-30, -135}, {80, 45}};
    auto b = mc::pick(bases); int dir = mc::choose(16); double dist = mc::pick({300., 2e4, 1e6, 5e6}); int kind = mc::pick({0, 3, 7}); double f = mc::pick({0.99, 0.9, 0.7, 1.01, 1.2});
    double ang = dir * M_PI / 8, la1, lo1; if(cart) { dist /= 1000; la1 = b.first + dist * sin(ang); lo1 = b.second + dist * cos(ang); }
    else { double p = b.first * M_PI / 180, a = dist / 6.371e6; la1 = asin(sin(p) * cos(a) + cos(p) * sin(a) * cos(ang)); lo1 = b.second + atan2(sin(ang) * sin(a) * cos(p), cos(a) - sin(p) * sin(la1)) * 180 / M_PI; la1 *= 180 / M_PI; }
    bool swap = mc::flip(); vec la(1, swap ? b.first : (float)la1), lo(1, swap ? b.second : (float)lo1); float qa = swap ? (float)la1 : b.first, qo = swap ? (float)lo1 : b.second;
    double d = chord(la[0], lo[0], qa, qo, t); float radius = d / f; la.push_back(-la[0]); lo.push_back(lo[0] + (cart ? 3000 : 90));
    NV(kind); NV(t); NV(la); NV(lo); NV(qa); NV(qo); NV(radius); Sut s(kind, la, lo, t); queries(s, la, lo, qa, qo, radius, true, t, cart ? 1e-3 * (1 + d * 1e-3) : 3);
}
// the distance formulas themselves
MC_HARNESS(formulas) {
    static const std::vector<float> A = {0, 10, -10, 60, -60, 60.01f, -60.01f, 89.9f, -89.9f, 90}, O = {0, 5, 5.01f, 179.9f, -179.9f, -120, 360, 355};
    float a = mc::pick(A), b = mc::pick(A), o = mc::pick(O), p = mc::pick(O); bool cart = mc::flip(); CoordinateType t = cart ? Cartesian : Geodetic; NV(a); NV(o); NV(b); NV(p); NV(t); mc::op(5); mc::site("formulas");
    double want = arc(a, o, b, p, t), w2 = chord(a, o, b, p, t), tol = cart ? 1e-4 * (1 + want) : 30 + 1e-4 * want; float d = KDTree::calc_distance(a, o, b, p, t), f = KDTree::calc_distance_fast(a, o, b, p, t);
    Point P(a, o, NANF, NANF, t), Q(b, p, NANF, NANF, t); mc::check(close(d, want, tol), "distance-formula", mc::fmt("%g want %g", d, want)); mc::check(close(KDTree::calc_distance(P, Q), want, tol), "distance-points"); mc::check(close(KDTree::calc_straight_distance(P, Q), w2, cart ? 1e-4 * (1 + w2) : 3 + 1e-6 * w2), "straight-distance", mc::fmt("%g want %g", KDTree::calc_straight_distance(P, Q), w2));
    mc::check(close(KDTree::calc_straight_distance(P.x, P.y, P.z, Q.x, Q.y, Q.z), w2, cart ? 1e-4 * (1 + w2) : 3 + 1e-6 * w2), "straight-distance-xyz");
    float g = KDTree::calc_distance_fast(b, p, a, o, t); mc::check(close(f, g, 2 + 1e-5 * f), "fast-symmetric", mc::fmt("%g and %g", f, g)); if(cart) mc::check(close(f, want, tol), "fast-cartesian");
    else { float h = KDTree::calc_distance_fast(-a, o, -b, p, t); mc::check(close(f, h, 2 + 1e-5 * f), "fast-hemisphere", mc::fmt("%g and %g", f, h)); if(a == b && o == p) mc::check(f == 0, "fast-zero"); if(want < 3e5 && fabs(a) <= 61) mc::check(close(f, want, 30 + 0.01 * want), "fast-near", mc::fmt("%g want %g", f, want)); mc::check(f >= 0, "fast-negative"); }
    float q; mc::check(close(KDTree::deg2rad(a), a * M_PI / 180, 1e-6) && close(q = KDTree::rad2deg(KDTree::deg2rad(o)), o, 1e-4), "deg-rad");
}
// more points than one tree node holds: a regular base layout with a bounded number of moved points
MC_HARNESS(larger) {
    mc::budget(mc::thorough() ? 2 : 1);
    CoordinateType t = mc::flip() ? Cartesian : Geodetic;
    int kind = mc::pick({0, 3, 4, 7, 9, 10});
    int n = mc::pick({5, 6});
    vec la, lo; double st = t == Cartesian ? 3 : 0.5;
    for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) {
        int m = mc::dev(4);
        double dy = m == 1 ? 0.5 : m == 2 ? -1 : 0, dx = m == 1 ? 0.25 : m == 3 ? 1 : 0;
        la.push_back((t == Cartesian ? 0 : 60) + st * (i + dy)); lo.push_back((t == Cartesian ? 0 : 178.5) + st * (j + dx));
    }
    Sut s(kind, la, lo, t);
    if(!s.usable()) mc::skip();
    int qi = mc::choose(4), qj = mc::choose(4); bool match = !mc::flip();
    static const double qs[] = {0, 1.5, 2.25, 5};
    float qa = (t == Cartesian ? 0 : 60) + st * qs[qi], qo = (t == Cartesian ? 0 : 178.5) + st * qs[qj];
    float radius = (float)(mc::pick({1.1, 2.3, 20.0}) * (t == Cartesian ? 3 : 50000));
    NV(kind); NV(la); NV(lo); NV(qa); NV(qo); NV(radius); NV(match);
    queries(s, la, lo, qa, qo, radius, match, t, t == Cartesian ? 1e-3 : 3);
}
// distance() and count() for all four input/output combinations
MC_HARNESS(distance_count) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic;
    int N = mc::range(1, 3), M = mc::range(1, 2);
    vec la, lo, oa, oo;
    auto pt = [&](vec& a, vec& o) { if(t == Cartesian) { auto p = mc::pick(cart); a.push_back(p.first); o.push_back(p.second); } else { static const std::vector<std::pair<float, float>> g = {{60, 10}, {60, 11}, {90, 0}, {0, 179.5f}, {0, -179.5f}, {61, 10}, {-45, 10}}; auto p = mc::pick(g); a.push_back(p.first); o.push_back(p.second); } };
    for(int i = 0; i < N; i++) pt(la, lo);
    for(int i = 0; i < M; i++) pt(oa, oo);
    int num = mc::range(1, 3);
    float radius = t == Cartesian ? mc::pick({5.f, 7.f}) : mc::pick({60000.f, 1.2e5f, 6e6f});
    NV(la); NV(lo); NV(oa); NV(oo); NV(num); NV(radius); NV((int)t);
    double tol = t == Cartesian ? 1e-4 : 30;
    std::vector<double> want(M); ivec lo_n(M), hi_n(M);
    for(int i = 0; i < M; i++) {
        std::vector<double> d; for(int k = 0; k < N; k++) d.push_back(arc(la[k], lo[k], oa[i], oo[i], t));
        std::sort(d.begin(), d.end());
        want[i] = d[std::min(num, N) - 1];
        double ct = t == Cartesian ? 1e-6 : 3;
        for(int k = 0; k < N; k++) { double c = chord(la[k], lo[k], oa[i], oo[i], t); lo_n[i] += c <= radius - ct; hi_n[i] += c <= radius + ct; }
    }
    Points ip(la, lo, vec(), vec(), t), op(oa, oo, vec(), vec(), t);
    Grid ig(vec2(1, la), vec2(1, lo), vec2(), vec2(), t), og(vec2(1, oa), vec2(1, oo), vec2(), vec2(), t);
    vec2 ca, co; for(int i = 0; i < M; i++) { ca.push_back(vec(1, oa[i])); co.push_back(vec(1, oo[i])); }
    Grid og2(ca, co, vec2(), vec2(), t);
    auto cmp = [&](const vec& v, const char* w) { mc::check((int)v.size() == M, std::string("distance-size-") + w); for(int i = 0; i < M; i++) mc::check(close(v[i], want[i], tol + 1e-4 * want[i]), std::string("distance-") + w, mc::fmt("point %d: %g want %g", i, v[i], want[i])); };
    auto cmpc = [&](const vec& v, const char* w) { mc::check((int)v.size() == M, std::string("count-size-") + w); for(int i = 0; i < M; i++) mc::check(v[i] >= lo_n[i] && v[i] <= hi_n[i], std::string("count-") + w, mc::fmt("point %d: %g want %d..%d", i, v[i], lo_n[i], hi_n[i])); };
    auto col = [&](const vec2& v) { vec r; for(auto& x : v) { mc::check(x.size() == 1, "column-size"); r.push_back(x[0]); } return r; };
    auto row = [&](const vec2& v) { mc::check(v.size() == 1, "row-size"); return v[0]; };
    mc::op(10); mc::site("distance");
    cmp(gridpp::distance(ip, op, num), "pp"); cmp(gridpp::distance(ig, op, num), "gp");
    cmp(row(gridpp::distance(ip, og, num)), "pg"); cmp(row(gridpp::distance(ig, og, num)), "gg");
    cmp(col(gridpp::distance(ip, og2, num)), "pg-col"); cmp(col(gridpp::distance(ig, og2, num)), "gg-col");
    mc::site("count");
    cmpc(gridpp::count(ip, op, radius), "pp"); cmpc(gridpp::count(ig, op, radius), "gp");
    cmpc(row(gridpp::count(ip, og, radius)), "pg"); cmpc(row(gridpp::count(ig, og, radius)), "gg");
    cmpc(col(gridpp::count(ip, og2, radius)), "pg-col"); cmpc(col(gridpp::count(ig, og2, radius)), "gg-col");
    mc::outcome_of(gridpp::count(ip, op, radius));
}
// pairwise distance functions
MC_HARNESS(pair_distance) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic;
    static const std::vector<float> A = {0, 60, 90, -90, 45.5f, -33, 89.99f}, O = {0, 10, 180, -180, 360, 370, -170, 179.99f};
    float a = mc::pick(A), o = mc::pick(O), b = mc::pick(A), p = mc::pick(O);
    NV(a); NV(o); NV(b); NV(p); NV((int)t);
    double want = arc(a, o, b, p, t), ch = chord(a, o, b, p, t);
    mc::op(5);
    float d = KDTree::calc_distance(a, o, b, p, t);
    mc::check(close(d, want, (t == Cartesian ? 1e-3 : 30) + 1e-5 * want), "calc_distance", mc::fmt("%g want %g", d, want));
    mc::check(close(KDTree::calc_distance(b, p, a, o, t), d, (t == Cartesian ? 1e-3 : 30) + 1e-5 * want), "calc_distance-symmetry");
    Point P(a, o, NANF, NANF, t), Q(b, p, NANF, NANF, t);
    mc::check(close(KDTree::calc_distance(P, Q), d, 1e-3 + 1e-5 * want), "calc_distance-point");
    float s = KDTree::calc_straight_distance(P, Q);
    mc::check(close(s, ch, (t == Cartesian ? 1e-3 : 3) + 1e-5 * ch), "calc_straight_distance", mc::fmt("%g want %g", s, ch));
    float f = KDTree::calc_distance_fast(a, o, b, p, t);
    // approximation: exact in Cartesian space and along meridians; 0 for identical, symmetric, wraps the dateline
    if(t == Cartesian) mc::check(close(f, want, 1e-3), "fast-cartesian");
    else {
        if(o == p) mc::check(close(f, want, 30 + 1e-4 * want), "fast-meridian", mc::fmt("%g want %g", f, want));
        if(a == b && fabs(a) < 1) { double w = fmod(fabs((double)o - p), 360); if(w > 180) w = 360 - w; mc::check(close(f, w * M_PI / 180 * R, 30 + 1e-4 * want), "fast-equator"); }
        mc::check(close(KDTree::calc_distance_fast(b, p, a, o, t), f, 1 + 1e-4 * f), "fast-symmetry");
    }
    if(a != b || o != p) { Point C(b, p, NANF, NANF, t == Cartesian ? Geodetic : Cartesian); mc::check(mc::throws([&] { KDTree::calc_distance(P, C); }), "calc_distance-mixed-types"); }
    mc::outcome_of(d);
}
MC_MAIN
