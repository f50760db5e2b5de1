#include "gp.h"
using namespace gp;
struct L { const char* name; vec2 la, lo; CoordinateType t; double scale; };
static L layout(int k, int Y = 3, int X = 4) {
    double a0 = 59, o0 = 10, sc = 1; CoordinateType t = Geodetic; const char* n = "";
    if(k == 9) Y = 1; if(k == 10) X = 1; if(k == 11) Y = X = 1; if(k == 12) Y = X = 2;
    if(k == 8) { a0 = 7000000; o0 = 400000; sc = 1000; t = Cartesian; } if(k == 13) { a0 = 0; o0 = 0; sc = 1; t = Cartesian; } if(k == 14 || k == 17) { a0 = 60; o0 = 10; sc = 0.01; } if(k == 15) { a0 = -1.5; o0 = -1.5; }
    static const char* N[] = {"regular", "lat-descending", "lon-descending", "uneven", "rotated", "sheared", "transposed", "distorted", "cartesian-km", "row", "column", "single", "two-by-two", "cartesian-small", "fine", "trapezoid", "rotated-steep", "distorted-fine", "distorted-strong", "convex-kite", "rotated-45", "trapezoid lat-descending", "trapezoid lon-descending", "trapezoid transposed", "trapezoid of columns", "trapezoid of columns lat-descending", "trapezoid of columns lon-descending", "trapezoid of columns transposed", "distorted lat-descending", "distorted lon-descending", "distorted transposed", "rotated trapezoid"};
    n = N[k];
    L l{n, vec2(Y, vec(X)), vec2(Y, vec(X)), t, sc};
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) {
        double u = y, v = x, A = u, O = v;
        if(k == 1) A = -u; if(k == 2) O = -v; if(k == 3) { A = u + 0.4 * (u == 2); O = v * v * 0.3 + v; }
        if(k == 4) { A = u * 0.94 + v * 0.34; O = v * 0.94 - u * 0.34; } if(k == 5) { A = u; O = v + 0.3 * u; }
        if(k == 6) { A = v; O = u; } if(k == 7 || k == 17) { A = u + 0.08 * ((y * 2 + x) % 3); O = v + 0.1 * ((y + x * 2) % 3); }
        if(k == 15) { A = u; O = v * (1 + 0.1 * u); }
        if(k == 18) { A = u + 0.15 * ((y * 2 + x) % 3) - 0.2; O = v + 0.13 * ((y + x * 2) % 3); }
        if(k == 19) { A = u + 0.3 * (y == 1 && x == 1); O = v + 0.3 * (y == 1 && x == 1); }
        if(k == 20) { A = (u + v) * 0.7; O = (v - u) * 0.7; }
        if(k >= 21 && k <= 23) { A = u; O = v * (1 + 0.1 * u); if(k == 21) A = -A; if(k == 22) O = -O; if(k == 23) std::swap(A, O); }
        if(k >= 24 && k <= 27) { A = u * (1 + 0.1 * v); O = v; if(k == 25) A = -A; if(k == 26) O = -O; if(k == 27) std::swap(A, O); }
        if(k >= 28 && k <= 30) { A = u + 0.08 * ((y * 2 + x) % 3); O = v + 0.1 * ((y + x * 2) % 3); if(k == 28) A = -A; if(k == 29) O = -O; if(k == 30) std::swap(A, O); }
        if(k == 31) { double a = u, o = v * (1 + 0.1 * u); A = a * 0.94 + o * 0.34; O = o * 0.94 - a * 0.34; }
        if(k == 16) { A = u * 0.34 + v * 0.94; O = v * 0.34 - u * 0.94; }
        l.la[y][x] = a0 + sc * A; l.lo[y][x] = o0 + sc * O;
    }
    return l;
}
static const int NL = 32;
// inverse of the bilinear map of quad A(0,0) B(1,0: y+1) C(1,1) D(0,1: x+1); returns false if not found within [-m,1+m]
static bool inv(const L& l, int y, int x, double la, double lo, double& s, double& t, double m) {
    double a00 = l.la[y][x], a10 = l.la[y + 1][x], a01 = l.la[y][x + 1], a11 = l.la[y + 1][x + 1], o00 = l.lo[y][x], o10 = l.lo[y + 1][x], o01 = l.lo[y][x + 1], o11 = l.lo[y + 1][x + 1];
    s = t = 0.5; // s along y, t along x; Newton
    for(int it = 0; it < 50; it++) {
        double fa = a00 * (1 - s) * (1 - t) + a10 * s * (1 - t) + a01 * (1 - s) * t + a11 * s * t - la, fo = o00 * (1 - s) * (1 - t) + o10 * s * (1 - t) + o01 * (1 - s) * t + o11 * s * t - lo;
        double as = (a10 - a00) * (1 - t) + (a11 - a01) * t, at = (a01 - a00) * (1 - s) + (a11 - a10) * s, os = (o10 - o00) * (1 - t) + (o11 - o01) * t, ot = (o01 - o00) * (1 - s) + (o11 - o10) * s;
        double d = as * ot - at * os; if(d == 0) return false;
        double ds = (fa * ot - at * fo) / d, dt = (as * fo - fa * os) / d; s -= ds; t -= dt; if(fabs(ds) + fabs(dt) < 1e-9) { return s >= -m && s <= 1 + m && t >= -m && t <= 1 + m; }
    }
    return false;
}
struct Q { float la, lo; };
// acceptable values at a location (nearest with ties; bilinear with cell ambiguity at edges); empty means unjudged
static void accept(const L& l, const vec2& f, Q q, std::vector<double>& nn, std::vector<double>& bl, double& spread) {
    int Y = l.la.size(), X = l.la[0].size(); double best = 1e30; std::vector<std::pair<int, int>> N;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) best = std::min(best, chord(l.la[y][x], l.lo[y][x], q.la, q.lo, l.t));
    double tie = l.t == Cartesian ? l.scale * 1e-3 : 3;
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) if(chord(l.la[y][x], l.lo[y][x], q.la, q.lo, l.t) <= best + tie) { N.push_back({y, x}); nn.push_back(f[y][x]); }
    double eps = (l.t == Cartesian ? 1.0 : 8e-6) / l.scale; if(l.t == Cartesian && l.scale == 1) eps = 1e-5; // relative position accuracy of a float coordinate within the cell
    spread = eps; bool sure = false, adj = true;
    for(int y = 0; y + 1 < Y; y++) for(int x = 0; x + 1 < X; x++) {
        double s, t; if(!inv(l, y, x, q.la, q.lo, s, t, 2 * eps)) continue;
        bool inside = s >= 2 * eps && s <= 1 - 2 * eps && t >= 2 * eps && t <= 1 - 2 * eps; if(inside) sure = true;
        for(auto& c : N) if(c.first < y || c.first > y + 1 || c.second < x || c.second > x + 1) adj = false;
        double v[4] = {f[y][x], f[y + 1][x], f[y][x + 1], f[y + 1][x + 1]};
        if(valid(v[0]) && valid(v[1]) && valid(v[2]) && valid(v[3])) bl.push_back(v[0] * (1 - s) * (1 - t) + v[1] * s * (1 - t) + v[2] * (1 - s) * t + v[3] * s * t);
        else for(double n : nn) bl.push_back(n);
    }
    // on the outer boundary the point may count as outside: nearest is also acceptable then, which differs from the edge interpolation; decide only when sure or clearly interior
    if(!sure) { bool interior = false; // four cells around a node or two around an edge make it certain
        int cnt = 0; for(int y = 0; y + 1 < Y; y++) for(int x = 0; x + 1 < X; x++) { double s, t; if(inv(l, y, x, q.la, q.lo, s, t, 2 * eps)) cnt++; }
        interior = cnt == 4; if(!interior && cnt == 2) interior = true;
        if(!interior) for(double n : nn) bl.push_back(n); }
    if(!adj) bl.clear(), bl.push_back(12345678); // containing cell does not touch the nearest point: not judged
}
static bool ok(double g, const std::vector<double>& a, double tol) { if(a.size() == 1 && a[0] == 12345678) return true; for(double x : a) if(close(g, x, tol)) return true; return false; }
template <class F> static void judge(const char* tag, const std::vector<Q>& q, const std::vector<std::vector<double>>& acc, const std::vector<double>& tol, F get) {
    for(size_t i = 0; i < q.size(); i++) { double g = get(i); mc::check(ok(g, acc[i], tol[i]), tag, mc::fmt("at %.8g %.8g: %.8g, want %.8g (%zu alternatives) tol %g", q[i].la, q[i].lo, g, acc[i].empty() ? NAN : acc[i][0], acc[i].size(), tol[i])); }
}
static std::vector<Q> positions(const L& l) {
    std::vector<Q> q; int Y = l.la.size(), X = l.la[0].size(); auto la = [&](double u, double v) { int y = std::min(std::max(0, (int)floor(u)), std::max(0, Y - 2)), x = std::min(std::max(0, (int)floor(v)), std::max(0, X - 2)); double s = u - y, t = v - x; auto g = [&](const vec2& m) { double m00 = m[y][x], m10 = Y > 1 ? m[y + 1][x] : m00 + l.scale, m01 = X > 1 ? m[y][x + 1] : m00 + l.scale, m11 = Y > 1 && X > 1 ? m[y + 1][x + 1] : m10 + m01 - m00; return m00 * (1 - s) * (1 - t) + m10 * s * (1 - t) + m01 * (1 - s) * t + m11 * s * t; }; return Q{(float)g(l.la), (float)g(l.lo)}; };
    double su = Y > 4 ? (Y - 1) / 2. : 1, sv = X > 4 ? (X - 1) / 3. : 1;
    for(double u : {-1.3, 0., 0.2, 0.45, 0.9, 1., 1.6, 2., 2.8}) for(double v : {-2.1, 0., 0.35, 0.8, 1., 1.55, 2.4, 2.95, 3., 4.2}) q.push_back(la(u < 0 ? u : u * su, v < 0 ? v : v * sv));
    return q;
}
static void run(const L& l, const vec2& f) {
    std::vector<Q> q = positions(l); size_t n = q.size(); int Y = l.la.size();
    std::vector<std::vector<double>> A(n), B(n), B2(n), A2(n); std::vector<double> tn(n, 0), tb(n);
    vec2 g = f; for(auto& r : g) for(auto& v : r) v = 2 * v + 1;
    double m = maxabs(f[0]); for(auto& r : f) m = std::max(m, maxabs(r));
    for(size_t i = 0; i < n; i++) { double sp; accept(l, f, q[i], A[i], B[i], sp); accept(l, g, q[i], A2[i], B2[i], sp); tb[i] = m * 4 * sp + 1e-5 * m + 1e-6; }
    Grid I(l.la, l.lo, vec2(), vec2(), l.t); vec pa, po, fa, fo, fv, gv; for(auto x : q) { pa.push_back(x.la); po.push_back(x.lo); }
    for(int y = 0; y < Y; y++) for(size_t x = 0; x < l.la[0].size(); x++) { fa.push_back(l.la[y][x]); fo.push_back(l.lo[y][x]); fv.push_back(f[y][x]); gv.push_back(g[y][x]); }
    vec2 oa(n / 10), oo(n / 10); for(size_t i = 0; i < n; i++) { oa[i / 10].push_back(pa[i]); oo[i / 10].push_back(po[i]); }
    Points O(pa, po, vec(), vec(), l.t), IP(fa, fo, vec(), vec(), l.t); Grid OG(oa, oo, vec2(), vec2(), l.t); vec3 f3 = {f, g, f}; std::vector<double> tb2 = tb; for(auto& t : tb2) t *= 3;
    auto three = [&](const char* tag, const std::vector<std::vector<double>>& a, const std::vector<std::vector<double>>& b, const std::vector<double>& t1, const std::vector<double>& t2, size_t sz, std::function<float(int, int)> get) { mc::check(sz == 3, tag, "number of fields"); for(int t = 0; t < 3; t++) judge(tag, q, t == 1 ? b : a, t == 1 ? t2 : t1, [&](int i) { return get(t, i); }); };
    mc::op(22);
    for(int gen = 0; gen < 2; gen++) {
        mc::site("nearest"); const char* T = gen ? "downscaling-nearest" : "nearest";
        { vec r = gen ? downscaling(I, O, f, Nearest) : nearest(I, O, f); mc::check(r.size() == n, T); judge(T, q, A, tn, [&](int i) { return r[i]; }); mc::outcome_of(r); }
        { vec2 r = gen ? downscaling(I, OG, f, Nearest) : nearest(I, OG, f); judge(T, q, A, tn, [&](int i) { return r[i / 10][i % 10]; }); }
        { vec2 r = gen ? downscaling(I, O, f3, Nearest) : nearest(I, O, f3); three(T, A, A2, tn, tn, r.size(), [&](int t, int i) { return r[t][i]; }); }
        { vec3 r = gen ? downscaling(I, OG, f3, Nearest) : nearest(I, OG, f3); three(T, A, A2, tn, tn, r.size(), [&](int t, int i) { return r[t][i / 10][i % 10]; }); }
        mc::site("bilinear"); T = gen ? "downscaling-bilinear" : "bilinear";
        { vec r = gen ? downscaling(I, O, f, Bilinear) : bilinear(I, O, f); judge(T, q, B, tb, [&](int i) { return r[i]; }); mc::outcome_of(r); }
        { vec2 r = gen ? downscaling(I, OG, f, Bilinear) : bilinear(I, OG, f); judge(T, q, B, tb, [&](int i) { return r[i / 10][i % 10]; }); }
        { vec2 r = gen ? downscaling(I, O, f3, Bilinear) : bilinear(I, O, f3); three(T, B, B2, tb, tb2, r.size(), [&](int t, int i) { return r[t][i]; }); }
        { vec3 r = gen ? downscaling(I, OG, f3, Bilinear) : bilinear(I, OG, f3); three(T, B, B2, tb, tb2, r.size(), [&](int t, int i) { return r[t][i / 10][i % 10]; }); }
    }
    mc::site("nearest-points"); vec2 f2 = {fv, gv, fv};
    { vec r = nearest(IP, O, fv); judge("nearest-points", q, A, tn, [&](int i) { return r[i]; }); }
    { vec2 r = nearest(IP, OG, fv); judge("nearest-points", q, A, tn, [&](int i) { return r[i / 10][i % 10]; }); }
    { vec2 r = nearest(IP, O, f2); three("nearest-points", A, A2, tn, tn, r.size(), [&](int t, int i) { return r[t][i]; }); }
    { vec3 r = nearest(IP, OG, f2); three("nearest-points", A, A2, tn, tn, r.size(), [&](int t, int i) { return r[t][i / 10][i % 10]; }); }
}
MC_HARNESS(fields) {
    int k = mc::choose(NL); L l = layout(k); int b = mc::choose(3); mc::budget(mc::thorough() ? 3 : 2); int Y = l.la.size(), X = l.la[0].size(); vec2 f(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) { int d = mc::dev(mc::thorough() ? 4 : 3); float v = b == 0 ? 3 * y - 2 * x + 5 : b == 1 ? (y * 7 + x * 11) % 13 - 4.f : 273.15f + (y * x) % 4; f[y][x] = d == 0 ? v : d == 1 ? NANF : d == 2 ? v + 10 : INFF; }
    std::string name = l.name; NV(name); NV(f); run(l, f);
}
// get_box: the box really surrounds the location
MC_HARNESS(boxes) {
    L l = layout(mc::choose(NL)); Grid I(l.la, l.lo, vec2(), vec2(), l.t); int Y = l.la.size(), X = l.la[0].size();
    int u = mc::choose(31), v = mc::choose(41); double fu = (u - 5) / 10., fv = (v - 5) / 10.; int y = std::min(std::max(0, (int)floor(fu)), std::max(0, Y - 2)), x = std::min(std::max(0, (int)floor(fv)), std::max(0, X - 2));
    if(Y < 2 || X < 2) { int a, b, c, d; mc::op(); mc::check(!I.get_box(l.la[0][0], l.lo[0][0], a, b, c, d), "get_box-degenerate"); return; }
    double s = fu - y, t = fv - x; auto g = [&](const vec2& m) { return (float)(m[y][x] * (1 - s) * (1 - t) + m[y + 1][x] * s * (1 - t) + m[y][x + 1] * (1 - s) * t + m[y + 1][x + 1] * s * t); };
    float la = g(l.la), lo = g(l.lo); std::string name = l.name; NV(name); NV(la); NV(lo);
    int Y1, X1, Y2, X2; mc::op(); mc::site("get_box"); bool in = I.get_box(la, lo, Y1, X1, Y2, X2); mc::outcome_of(std::vector<int>{Y1, X1, in});
    if(in) { mc::check(Y1 >= 0 && X1 >= 0 && Y2 == Y1 + 1 && X2 == X1 + 1 && Y2 < Y && X2 < X, "get_box-indices", mc::fmt("%d %d %d %d", Y1, X1, Y2, X2)); double a, b; mc::check(inv(l, Y1, X1, la, lo, a, b, 0.01), "get_box-outside", mc::fmt("box %d,%d", Y1, X1)); }
    else { std::vector<double> nn, bl; double sp; bool any = false; for(int p = 0; p + 1 < Y; p++) for(int r = 0; r + 1 < X; r++) { double a, b; if(inv(l, p, r, la, lo, a, b, -0.01)) { double best = 1e30; int by = 0, bx = 0; for(int c = 0; c < Y; c++) for(int d = 0; d < X; d++) { double e = chord(l.la[c][d], l.lo[c][d], la, lo, l.t); if(e < best) best = e, by = c, bx = d; } if(by >= p && by <= p + 1 && bx >= r && bx <= r + 1) any = true; } } mc::check(!any, "get_box-missed", "location inside a cell next to its nearest point"); }
}
// grids of realistic size
MC_HARNESS(sizes) {
    static const std::vector<int> ks = {0, 1, 2, 4, 5, 6, 7, 8, 13, 14, 20, 28}; int k = mc::pick(ks); static const std::vector<std::pair<int, int>> shapes = {{14, 19}, {5, 37}, {29, 3}}; auto sh = mc::pick(shapes); int b = mc::choose(2), miss = mc::choose(3); L l = layout(k, sh.first, sh.second); int Y = l.la.size(), X = l.la[0].size(); for(auto& p : positions(l)) if(l.t == Geodetic && fabs(p.la) > 89) mc::skip(); vec2 f(Y, vec(X));
    for(int y = 0; y < Y; y++) for(int x = 0; x < X; x++) f[y][x] = miss == 1 && (y * 3 + x) % 7 == 2 ? NANF : miss == 2 && y > Y / 2 ? NANF : b ? 3 * y - 2 * x + 5 : (y * 7 + x * 11) % 13 - 4.f;
    std::string name = l.name; NV(name); NV(Y); NV(X); NV(b); NV(miss); run(l, f);
}
MC_MAIN
