// P22: location metadata survives construction, copying, subsetting, domain selection and conversion.
// Every history of such operations up to a depth is applied to real objects and to a list of records.
#include "gp.h"
using namespace gp;
namespace {
struct Rec { float lat, lon, elev, laf; };
bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }
const float LL[][2] = {{60, 10}, {0, 0}, {-90, 45}, {10.5f, -180}, {59.5f, 370}, {60, 10}};
const float EL[] = {NANF, 0, -5, 8000.5f}, LF[] = {0, 1, NANF, 0.25f};
void check_points(const Points& p, const std::vector<Rec>& m, CoordinateType t, const char* where) {
    mc::op(); mc::site(where);
    std::string w = std::string("-") + where;
    mc::check(p.size() == (int)m.size(), "size" + w, mc::fmt("want %d got %d", (int)m.size(), p.size()));
    mc::check(p.get_coordinate_type() == t, "type" + w, "coordinate type changed");
    vec la = p.get_lats(), lo = p.get_lons(), el = p.get_elevs(), lf = p.get_lafs();
    mc::check(la.size() == m.size() && lo.size() == m.size() && el.size() == m.size() && lf.size() == m.size(), "lengths" + w, mc::fmt("%d %d %d %d", (int)la.size(), (int)lo.size(), (int)el.size(), (int)lf.size()));
    for(size_t i = 0; i < m.size(); i++) {
        mc::check(la[i] == m[i].lat && lo[i] == m[i].lon, "location" + w, mc::fmt("point %d", (int)i));
        mc::check(same(el[i], m[i].elev), "elevation" + w, mc::fmt("point %d want %g got %g", (int)i, m[i].elev, el[i]));
        mc::check(same(lf[i], m[i].laf), "laf" + w, mc::fmt("point %d want %g got %g", (int)i, m[i].laf, lf[i]));
        Point q = p.get_point(i); P3 x = xyz(m[i].lat, m[i].lon, t);
        mc::check(q.lat == m[i].lat && q.lon == m[i].lon && same(q.elev, m[i].elev) && same(q.laf, m[i].laf) && q.type == t, "get_point" + w, mc::fmt("point %d", (int)i));
        mc::check(fabs(q.x - x.x) <= 2 && fabs(q.y - x.y) <= 2 && fabs(q.z - x.z) <= 2, "xyz" + w, mc::fmt("point %d want (%g,%g,%g) got (%g,%g,%g)", (int)i, x.x, x.y, x.z, q.x, q.y, q.z));
        // the search structure describes the same points
        int k = p.get_nearest_neighbour(m[i].lat, m[i].lon);
        mc::check(k >= 0 && k < (int)m.size() && chord(m[k].lat, m[k].lon, m[i].lat, m[i].lon, t) <= 2, "lookup" + w, mc::fmt("nearest to point %d is %d", (int)i, k));
    }
    if(m.empty()) mc::check(p.get_nearest_neighbour(0, 0) == -1, "lookup-empty" + w, "a neighbour was found");
    mc::outcome_of(la); mc::outcome_of(el);
}
Grid regular(CoordinateType t) { return Grid({{-20, -20, -20}, {20, 20, 20}, {61, 61, 61}}, {{-40, 5, 30}, {-40, 5, 30}, {-40, 5, 30}}, {}, {}, t); }
}
MC_HARNESS(history) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; NV((int)t);
    int n = mc::range(0, 3); bool he = mc::flip(), hl = mc::flip(); NV(n); NV(he); NV(hl);
    std::vector<Rec> m; vec la, lo, el, lf;
    int rot = mc::choose(mc::thorough() ? 6 : 3); NV(rot);
    for(int i = 0; i < n; i++) {
        const float* l = LL[(i + rot * 2 + (rot == 1)) % 6];
        Rec r = {l[0], l[1], he ? EL[(i + rot) % 4] : NANF, hl ? LF[(i + 2 * rot) % 4] : NANF}; m.push_back(r);
        la.push_back(r.lat); lo.push_back(r.lon); if(he) el.push_back(r.elev); if(hl) lf.push_back(r.laf);
    }
    Points p = mc::flip() ? Points(la, lo, el, lf, t) : Points(KDTree(la, lo, t), el, lf);
    check_points(p, m, t, "construct");
    int depth = mc::range(0, mc::thorough() ? 4 : 3);
    for(int d = 0; d < depth; d++) {
        int op = mc::choose(8); NV(op);
        std::vector<Rec> before = m; Points old = p;
        switch(op) {
            case 0: { Points q(p); check_points(q, m, t, "copy"); p = q; break; }
            case 1: { Points q({1, 2}, {3, 4}, {5, 6}, {}, t == Geodetic ? Cartesian : Geodetic); q = p; check_points(q, m, t, "assign"); p = q; break; }
            case 2: { p = p; break; }
            case 3: { if(m.empty()) mc::skip(); ivec idx; int N = m.size(), k = mc::choose(5);
                if(k == 1) idx = {0}; if(k == 2) idx = {N - 1, 0}; if(k == 3) for(int i = N - 1; i >= 0; i--) idx.push_back(i); if(k == 4) idx = {N - 1, N - 1, 0};
                std::vector<Rec> s; for(int i : idx) s.push_back(m[i]); NV(idx);
                Points q = p.subset(idx); check_points(p, m, t, "source-after-subset"); m = s; p = q; break; }
            case 4: { Grid g = regular(t); std::vector<Rec> s; ivec want; bool unclear = false;
                for(size_t i = 0; i < m.size(); i++) { float x = m[i].lon, y = m[i].lat; if(t == Geodetic && (x > 300 || x == -180)) { if(y > 55) unclear = true; } bool in = y > -20 && y < 61 && x > -40 && x < 30; if(in) { s.push_back(m[i]); want.push_back(i); } }
                // a geodetic longitude of 370 is the same place as 10
                if(unclear) { s.clear(); want.clear(); for(size_t i = 0; i < m.size(); i++) { float x = m[i].lon > 300 ? m[i].lon - 360 : m[i].lon, y = m[i].lat; if(m[i].lon > 300) mc::skip(); if(y > -20 && y < 61 && x > -40 && x < 30) { s.push_back(m[i]); want.push_back(i); } } }
                ivec got = p.get_in_domain_indices(g); mc::check(got == want, "domain-indices", mc::fmt("want %d got %d points", (int)want.size(), (int)got.size()));
                Points q = p.get_in_domain(g); m = s; p = q; break; }
            case 5: { std::vector<Points> v; v.push_back(p); v.push_back(Points({1}, {2})); v.push_back(p); v.erase(v.begin()); std::swap(v[0], v[1]); check_points(v[0], m, t, "container"); p = v[0]; break; }
            case 6: { Points q(p.get_lats(), p.get_lons(), p.get_elevs(), p.get_lafs(), p.get_coordinate_type()); p = q; break; }
            case 7: { Points q; q = p; Points e; check_points(e, {}, Geodetic, "default"); p = q; break; }
        }
        static const char* N[] = {"after-copy", "after-assign", "after-selfassign", "after-subset", "after-domain", "after-container", "after-rebuild", "after-default"};
        check_points(p, m, t, N[op]);
        check_points(old, before, t, "earlier-copy");
    }
}
MC_HARNESS(grid) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; NV((int)t);
    int Y = mc::range(0, 3), X = mc::range(0, 3); bool he = mc::flip(), hl = mc::flip(), twin = mc::flip(); NV(Y); NV(X); NV(he); NV(hl); NV(twin);
    bool outer = mc::flip(); if(!outer && Y != 0 && X != 0) mc::skip();   // rows without columns / no rows
    vec2 la, lo, el, lf; std::vector<Rec> m; int k = 0, shift = mc::choose(4); NV(shift);
    if(outer || X != 0) { la.resize(Y); lo.resize(Y); } else Y = 0;
    if(he) el.resize(la.size()); if(hl) lf.resize(la.size());
    for(int y = 0; y < (int)la.size(); y++) for(int x = 0; x < X; x++, k++) {
        Rec r = {twin && y == 1 ? 50.f : 50.f + 3 * y + 0.5f * x, 10.f + 4 * x - 0.25f * (twin && y == 1 ? 0 : y), he ? EL[(k + shift) % 4] : NANF, hl ? LF[(k + shift) % 4] : NANF};
        m.push_back(r); la[y].push_back(r.lat); lo[y].push_back(r.lon); if(he) el[y].push_back(r.elev); if(hl) lf[y].push_back(r.laf);
    }
    Grid g(la, lo, el, lf, t);
    int op = mc::choose(4); NV(op); std::string w;
    if(op == 1) { Grid q(g); g = Grid({{1}}, {{2}}); g = q; w = "-copy"; }
    if(op == 2) { Grid q({{1, 2}}, {{3, 4}}, {{5, 6}}, {{1, 1}}, t == Geodetic ? Cartesian : Geodetic); q = g; g = q; w = "-assign"; }
    if(op == 3) { std::vector<Grid> v(2, g); v.push_back(Grid()); std::swap(v[0], v[2]); g = v[2]; w = "-container"; }
    mc::op(); mc::site("grid" + w);
    ivec s = g.size(); bool none = m.empty();
    mc::check(s.size() == 2 && (none ? s[0] * s[1] == 0 : s[0] == Y && s[1] == X), "size" + w, mc::fmt("want %dx%d got %dx%d", Y, X, s[0], s[1]));
    mc::check(g.get_coordinate_type() == t, "type" + w, "coordinate type changed");
    vec2 A = g.get_lats(), B = g.get_lons(), C = g.get_elevs(), E = g.get_lafs();
    if(none) { for(auto& f : {A, B, C, E}) for(auto& r : f) mc::check(r.empty(), "empty" + w, "a grid without points has values"); }
    else {
        mc::check(A == la && B == lo, "location" + w, "coordinates differ");
        mc::check((int)C.size() == Y && (int)E.size() == Y, "rows" + w, "elevation or land fraction has another size");
        for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
            const Rec& r = m[y * X + x];
            mc::check((int)C[y].size() == X && (int)E[y].size() == X, "columns" + w, "elevation or land fraction has another size");
            mc::check(same(C[y][x], r.elev) && same(E[y][x], r.laf), "metadata" + w, mc::fmt("(%d,%d)", y, x));
            Point q = g.get_point(y, x); P3 c = xyz(r.lat, r.lon, t);
            mc::check(q.lat == r.lat && q.lon == r.lon && same(q.elev, r.elev) && same(q.laf, r.laf) && q.type == t && fabs(q.x - c.x) <= 2 && fabs(q.y - c.y) <= 2 && fabs(q.z - c.z) <= 2, "get_point" + w, mc::fmt("(%d,%d)", y, x));
            ivec I = g.get_nearest_neighbour(r.lat, r.lon);
            mc::check(I.size() == 2 && I[0] >= 0 && I[0] < Y && I[1] >= 0 && I[1] < X && chord(A[I[0]][I[1]], B[I[0]][I[1]], r.lat, r.lon, t) <= 2, "lookup" + w, mc::fmt("(%d,%d) found elsewhere", y, x));
        }
        ivec2 all = g.get_closest_neighbours(50, 10, Y * X); std::vector<int> hit(Y * X);
        for(auto& I : all) { mc::check(I.size() == 2 && I[0] >= 0 && I[0] < Y && I[1] >= 0 && I[1] < X, "indices" + w, "index outside the grid"); hit[I[0] * X + I[1]]++; }
        for(int h : hit) mc::check(h == 1, "indices-cover" + w, mc::fmt("a gridpoint is listed %d times", h));
    }
    check_points(g.to_points(), m, t, "to_points");
    mc::outcome_of(vec{(float)s[0], (float)s[1], (float)he, (float)hl});
}
MC_HARNESS(coordinates) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; int st = mc::thorough() ? 5 : 15;
    float lat = mc::range(-90 / st, 90 / st) * st, lon = mc::range(-360 / st, 540 / st) * st; NV((int)t); NV(lat); NV(lon);
    if(mc::flip()) { lat += lat < 90 ? 0.125f : 0; lon += 0.3f; }
    float x, y, z; mc::op(); mc::site("convert_coordinates"); convert_coordinates(lat, lon, t, x, y, z); P3 w = xyz(lat, lon, t);
    mc::check(fabs(x - w.x) <= 2 && fabs(y - w.y) <= 2 && fabs(z - w.z) <= 2, "convert", mc::fmt("want (%.8g,%.8g,%.8g) got (%.8g,%.8g,%.8g)", w.x, w.y, w.z, x, y, z));
    if(t == Geodetic) mc::check(fabs(sqrt((double)x * x + (double)y * y + (double)z * z) - R) <= 2, "sphere", "not on the sphere");
    else mc::check(x == lon && y == lat && z == 0, "plane", "Cartesian coordinates are changed");
    vec X, Yv, Z; convert_coordinates(vec{lat, 1, lat}, vec{lon, 2, lon}, t, X, Yv, Z);
    mc::check(X.size() == 3 && Yv.size() == 3 && Z.size() == 3 && X[0] == x && Yv[0] == y && Z[0] == z && X[2] == x && Yv[2] == y && Z[2] == z, "vector", "vector form differs from scalar form");
    for(int k = 0; k < 3; k++) {
        Point p = k == 0 ? Point(lat, lon, 1, 0.5f, t) : k == 1 ? Point(lat, lon, 1, 0.5f, t, x, y, z) : Points({lat}, {lon}, {1}, {0.5f}, t).get_point(0);
        mc::check(p.lat == lat && p.lon == lon && p.elev == 1 && p.laf == 0.5f && p.type == t && p.x == x && p.y == y && p.z == z, "point", mc::fmt("constructor %d", k));
    }
    KDTree tree({lat}, {lon}, t);
    mc::check(tree.get_lats() == vec{lat} && tree.get_lons() == vec{lon} && tree.get_x() == vec{x} && tree.get_y() == vec{y} && tree.get_z() == vec{z} && tree.get_coordinate_type() == t && tree.size() == 1, "tree", "search tree does not return its points");
    mc::outcome_of(vec{x, y, z});
}
MC_MAIN
