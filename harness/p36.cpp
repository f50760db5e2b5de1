// P36: helper functions of the library that other parts and users build on: shape checks, sorted lookups, coordinate conversion,
// point-in-rectangle and array initialisation, compared with their definitions for every input of a small domain.
#include "gp.h"
using namespace gp;
// every array of up to three rows with up to two values each, and longer ones where only a row in the middle differs
static std::vector<std::vector<int> > shapes() { std::vector<std::vector<int> > r(1); for(size_t i = 0; i < r.size(); i++) if(r[i].size() < 3) for(int n = 0; n < 3; n++) { auto v = r[i]; v.push_back(n); r.push_back(v); } r.push_back({2, 2, 2, 2}); r.push_back({2, 1, 2, 2}); r.push_back({2, 2, 1, 2}); return r; }
static const std::vector<std::vector<int> > SH = shapes();
static vec2 shape2(int k) { vec2 v; for(int n : SH[k]) v.push_back(vec(n, 1)); return v; }
static bool same(const vec2& a, const vec2& b) { if(a.size() != b.size()) return false; bool r = true; for(size_t i = 0; i < a.size(); i++) r = r && a[i].size() == b[i].size(); return r; }
MC_HARNESS(shapes2) {
    int i = mc::choose(SH.size()), j = mc::choose(SH.size()); vec2 a = shape2(i), b = shape2(j); mc::op(); mc::site("compatible_size"); NV(i); NV(j); mc::check(compatible_size(a, b) == same(a, b), "vec2-vec2", "");
    // against a 3D array: same rows and columns; the third dimension is free
    vec3 c; int e = mc::range(0, 2); for(size_t y = 0; y < b.size(); y++) { c.push_back(vec2(b[y].size(), vec(e, 1))); } mc::check(compatible_size(a, c) == same(a, b), "vec2-vec3", "");
    // points and grids
    int np = mc::range(1, 3); Points p(vec(np, 1), vec(np, 2)); bool w = true; for(auto& r : a) w = w && (int)r.size() == np; mc::check(compatible_size(p, a) == w, "points-vec2", ""); if(!b.empty()) mc::check(compatible_size(p, b[0]) == ((int)b[0].size() == np), "points-vec", "");
    int ny = mc::range(1, 3), nx = mc::range(1, 2); Grid g(vec2(ny, vec(nx, 1)), vec2(ny, vec(nx, 2))); bool wg = (int)a.size() == ny; for(auto& r : a) wg = wg && (int)r.size() == nx; mc::check(compatible_size(g, a) == wg, "grid-vec2", ""); bool wb = (int)b.size() == ny; for(auto& r : b) wb = wb && (int)r.size() == nx;
    mc::check(compatible_size(g, vec3{a, b}) == (wg && wb), "grid-vec3", ""); mc::check(compatible_size(g, vec3{b}) == wb, "grid-vec3-1", ""); mc::check(compatible_size(g, vec3()), "grid-vec3-0", "");
}
MC_HARNESS(shapes3) {
    int ny = mc::range(0, 2), nx = mc::range(0, 2); vec3 a, b; auto make = [&](vec3& v) { v.assign(ny, vec2(nx)); for(auto& r : v) for(auto& c : r) c = vec(mc::range(0, 2), 1); }; make(a); int k = mc::choose(3); vec3 base = a; if(k == 0) make(b); else { b = a; if(k == 1) b.push_back(vec2(nx, vec(1, 1))); else if(ny > 0) b[mc::choose(ny)].push_back(vec(1, 1)); else mc::skip(); } NV(a); NV(b); mc::op(); mc::site("compatible_size");
    bool w = a.size() == b.size(); for(size_t y = 0; w && y < a.size(); y++) w = same(a[y], b[y]); mc::check(compatible_size(a, b) == w, "vec3-vec3", mc::fmt("want %d", w)); mc::check(compatible_size(b, a) == w, "vec3-vec3-swapped", mc::fmt("want %d", w));
}
MC_HARNESS(lookup) {
    int n = mc::range(0, mc::thorough() ? 6 : 5); static const float A[] = {-2, 0, 1, 1.5f, 3}; vec v; int lo = 0; for(int i = 0; i < n; i++) { lo = mc::range(lo, 4); v.push_back(A[lo]); } int hole = mc::range(0, n); if(hole) v[hole - 1] = mc::flip() ? NANF : INFF; float x = mc::pick({-3.f, -2.f, -1.f, 0.f, 0.5f, 1.f, 1.2f, 1.5f, 2.f, 3.f, 4.f}); NV(v); NV(x); mc::op(2); mc::site("lookup");
    // the value found is the largest at most x (the smallest at least x); -1 if there is none
    int L = get_lower_index(x, v), U = get_upper_index(x, v); double bl = -INFINITY, bu = INFINITY; for(float a : v) if(gp::valid(a)) { if(a <= x) bl = std::max(bl, (double)a); if(a >= x) bu = std::min(bu, (double)a); }
    mc::check(L >= -1 && L < n && (L < 0 ? bl == -INFINITY : v[L] == bl), "lower", mc::fmt("index %d", L)); mc::check(U >= -1 && U < n && (U < 0 ? bu == INFINITY : v[U] == bu), "upper", mc::fmt("index %d", U)); mc::outcome_of(vec{(float)L, (float)U});
    // with equal values: the outermost, so that lower and upper span the run
    if(!hole && L >= 0 && v[L] == x) { mc::check(L == 0 || v[L - 1] != x, "lower-run", mc::fmt("index %d", L)); mc::check(U == n - 1 || v[U + 1] != x, "upper-run", mc::fmt("index %d", U)); }
}
MC_HARNESS(coords) {
    CoordinateType t = mc::flip() ? Cartesian : Geodetic; static const float LA[] = {-90, -89.9f, -45, 0, 12.5f, 60, 90, 90.1f, -91, NANF, INFF, -INFF, 1e6f}, LO[] = {-360, -180, -90, 0, 33, 180, 270, 359.9f, 360, 540, 720.5f, -400, NANF, INFF, 1e6f}; int n = mc::range(1, 2); vec la, lo; bool ok = true;
    for(int i = 0; i < n; i++) { la.push_back(LA[mc::choose(13)]); lo.push_back(LO[mc::choose(15)]); bool a = gp::valid(la[i]) && (t == Cartesian || fabs(la[i]) <= 90), b = gp::valid(lo[i]); mc::check(is_valid_lat(la[i], t) == a, "valid-lat", mc::fmt("%g", la[i])); if(t == Cartesian || !b || fabs(lo[i]) <= 360) mc::check(is_valid_lon(lo[i], t) == b, "valid-lon", mc::fmt("%g", lo[i])); b = is_valid_lon(lo[i], t); ok = ok && a && b; }
    NV(la); NV(lo); NV(t); mc::op(); mc::site("convert_coordinates"); vec x, y, z; bool threw = mc::throws([&] { mc::check(convert_coordinates(la, lo, t, x, y, z), "returns", ""); }); mc::check(threw == !ok, "rejected", threw ? "rejected" : "accepted"); if(threw) return; mc::check((int)x.size() == n && (int)y.size() == n && (int)z.size() == n, "size", "");
    for(int i = 0; i < n; i++) { double a = la[i] * M_PI / 180, b = lo[i] * M_PI / 180, R = 6.378137e6, wx = t == Cartesian ? lo[i] : R * cos(a) * cos(b), wy = t == Cartesian ? la[i] : R * cos(a) * sin(b), wz = t == Cartesian ? 0 : R * sin(a); mc::check(fabs(wx - x[i]) < 2 && fabs(wy - y[i]) < 2 && fabs(wz - z[i]) < 2, "xyz", mc::fmt("want %g %g %g got %g %g %g", wx, wy, wz, x[i], y[i], z[i])); float p, q, r; convert_coordinates(la[i], lo[i], t, p, q, r); mc::check(p == x[i] && q == y[i] && r == z[i], "scalar", ""); }
}
static long cross(int ax, int ay, int bx, int by, int cx, int cy) { return (long)(bx - ax) * (cy - ay) - (long)(by - ay) * (cx - ax); }
MC_HARNESS(rectangle) {
    int ax = mc::range(-1, 1), ay = mc::range(-1, 1), ux = mc::range(-3, 3), uy = mc::range(-3, 3), k = mc::range(1, 2), turn = mc::pick({-1, 1}); if(ux == 0 && uy == 0) mc::skip(); double f = mc::pick({1., 0.5, 2.}); CoordinateType t = mc::flip() ? Cartesian : Geodetic; int first = mc::choose(4);
    int px[4] = {ax, ax + ux, ax + ux - turn * k * uy, ax - turn * k * uy}, py[4] = {ay, ay + uy, ay + uy + turn * k * ux, ay + turn * k * ux}; std::vector<Point> p; for(int i = 0; i < 4; i++) p.push_back(Point(py[(i + first) % 4] * f, px[(i + first) % 4] * f, 0, 0, t)); NV(ax); NV(ay); NV(ux); NV(uy); NV(k); NV(turn); NV(f); NV(first);
    for(int my = -8; my <= 8; my++) for(int mx = -8; mx <= 8; mx++) { mc::op(); int pos = 0, neg = 0; for(int i = 0; i < 4; i++) { int j = (i + 1) % 4; long c = cross(px[i], py[i], px[j], py[j], mx, my); pos += c > 0; neg += c < 0; } bool in = pos == 0 || neg == 0; Point m(my * f, mx * f, 0, 0, t); mc::site("point_in_rectangle"); bool g = point_in_rectangle(p[0], p[1], p[2], p[3], m); mc::check(g == in, "rectangle", mc::fmt("point %d,%d: want %d got %d", mx, my, in, g)); }
}
MC_HARNESS(init) {
    int ny = mc::range(0, 3), nx = mc::range(0, 3), ne = mc::range(0, 2); float v = mc::pick({0.f, -1.5f, NANF, INFF}); int iv = mc::pick({0, -7}); NV(ny); NV(nx); NV(ne); mc::op(4); mc::site("init"); auto eq = [&](float a) { return a == v || (std::isnan(a) && std::isnan(v)); };
    vec2 a = init_vec2(ny, nx, v), a0 = init_vec2(ny, nx); ivec2 b = init_ivec2(ny, nx, iv); vec3 c = init_vec3(ny, nx, ne, v), c0 = init_vec3(ny, nx, ne); ivec3 d = init_ivec3(ny, nx, ne, iv); bool ok = (int)a.size() == ny && (int)a0.size() == ny && (int)b.size() == ny && (int)c.size() == ny && (int)c0.size() == ny && (int)d.size() == ny; mc::check(ok, "rows", ""); if(!ok) return;
    for(int y = 0; y < ny; y++) { ok = (int)a[y].size() == nx && (int)a0[y].size() == nx && (int)b[y].size() == nx && (int)c[y].size() == nx && (int)c0[y].size() == nx && (int)d[y].size() == nx; mc::check(ok, "columns", ""); if(!ok) return; for(int x = 0; x < nx; x++) { mc::check(eq(a[y][x]) && std::isnan(a0[y][x]) && b[y][x] == iv, "value2", ""); ok = (int)c[y][x].size() == ne && (int)c0[y][x].size() == ne && (int)d[y][x].size() == ne; mc::check(ok, "depth", ""); if(!ok) return; for(int e = 0; e < ne; e++) mc::check(eq(c[y][x][e]) && std::isnan(c0[y][x][e]) && d[y][x][e] == iv, "value3", ""); } }
}
MC_MAIN
