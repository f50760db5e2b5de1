// P27: downscalers of the command-line client. Histories of lookups on alternating grids are compared with an exhaustive search, and
// each downscaler is compared with a double precision computation of its definition over patterns of values, elevations, land
// fractions, missing values, geometries and options.
#include "nc.h"
#include "File/Fake.h"
#include "Downscaler/Downscaler.h"
#include <memory>
#include <functional>
#include <array>
using namespace cl;
namespace {
typedef std::vector<std::vector<double> > D2;
const double PI = 3.14159265358979323846;
vec2 grid(int ny, int nx, std::function<double(int, int)> f) { vec2 v(ny, std::vector<float>(nx)); for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) v[y][x] = f(y, x); return v; }
std::unique_ptr<FileFake> file(int ny, int nx, int ne, int nt, const vec2& la, const vec2& lo) { std::unique_ptr<FileFake> f(new FileFake(Options(mc::fmt("nLat=%d nLon=%d nEns=%d nTime=%d", ny, nx, ne, nt)))); f->setLats(la); f->setLons(lo); return f; }
double dist(double a, double b, double c, double d) {   // great circle distance between (lat a, lon b) and (lat c, lon d)
    double r = PI / 180, x = sin((c - a) * r / 2), y = sin((d - b) * r / 2); return 2 * 6.371e6 * asin(std::min(1.0, sqrt(x * x + cos(a * r) * cos(c * r) * y * y)));
}
// smallest distance to the valid points of a grid, and the points at that distance
std::vector<std::pair<int, int> > nearest(const vec2& la, const vec2& lo, double lat, double lon, double tol = 5) {
    std::vector<std::pair<int, int> > r; if(!valid(lat) || !valid(lon)) return r; double m = INFINITY;
    for(int k = 0; k < 2; k++) for(size_t y = 0; y < la.size(); y++) for(size_t x = 0; x < la[y].size(); x++) if(valid(la[y][x]) && valid(lo[y][x])) { double d = dist(la[y][x], lo[y][x], lat, lon); if(k == 0) m = std::min(m, d); else if(d <= m + tol) r.push_back({(int)y, (int)x}); }
    return r;
}
bool near(double want, double got, double tol = 1e-4) { if(valid(want) && std::fabs(want) > 3e38) return !valid(got); if(!valid(want) || !valid(got)) return valid(want) == valid(got); return std::fabs(want - got) <= tol * std::max(1.0, std::fabs(want)); }
void lookup(const std::string& tag, const File& a, const File& b, bool brute) {
    vec2Int I, J; if(brute) Downscaler::getNearestNeighbourBruteForce(a, b, I, J); else Downscaler::getNearestNeighbour(a, b, I, J); mc::op();
    vec2 la = a.getLats(), lo = a.getLons(), pa = b.getLats(), po = b.getLons(); bool ok = I.size() == pa.size() && J.size() == pa.size(); for(size_t y = 0; ok && y < pa.size(); y++) ok = I[y].size() == pa[y].size() && J[y].size() == pa[y].size();
    mc::check(ok, tag + "-size", "lookup table does not have the size of the output grid"); if(!ok) return;
    bool same = false; if(la.size() == pa.size() && la[0].size() == pa[0].size()) { same = true; for(size_t y = 0; y < pa.size(); y++) for(size_t x = 0; x < pa[0].size(); x++) same = same && la[y][x] == pa[y][x] && lo[y][x] == po[y][x]; }
    for(size_t y = 0; y < pa.size(); y++) for(size_t x = 0; x < pa[y].size(); x++) {
        auto w = nearest(la, lo, pa[y][x], po[y][x]); bool found = w.empty() ? !Util::isValid(I[y][x]) && !Util::isValid(J[y][x]) : false; for(auto& p : w) found = found || (p.first == I[y][x] && p.second == J[y][x]);
        mc::check(found, tag, mc::fmt("output (%g,%g): got %d,%d, %zu candidates, first %d,%d", pa[y][x], po[y][x], I[y][x], J[y][x], w.size(), w.empty() ? -1 : w[0].first, w.empty() ? -1 : w[0].second));
    }
}
}
// histories of lookups on a pool of grids that change in between
MC_HARNESS(histories) {
    quiet(); Downscaler::clearCache(); std::unique_ptr<FileFake> g[4]; int shift[4] = {0, 0, 0, 0}, west[4] = {0, 0, 0, 0};
    auto lats = [&](int k, int s) { return k < 2 ? grid(2, 2, [&](int y, int x) { return 60 + y + 0.3 * s * (y + 1); }) : k == 2 ? grid(1, 3, [&](int y, int x) { return x == 1 && s == 0 ? NAN : 61.2 - 0.6 * x + 0.1 * s; }) : grid(2, 1, [&](int y, int x) { return 60.4 + 0.9 * y - 0.7 * s * y; }); };
    auto lons = [&](int k) { return k < 2 ? grid(2, 2, [&](int y, int x) { return 10 + 2 * x; }) : k == 2 ? grid(1, 3, [&](int y, int x) { return 9.5 + 1.2 * x; }) : grid(2, 1, [&](int y, int x) { return 11.3; }); };
    for(int k = 0; k < 4; k++) { vec2 a = lats(k, 0); g[k] = file(a.size(), a[0].size(), 1, 1, a, lons(k)); }
    int depth = mc::range(1, mc::thorough() ? 4 : 3);
    for(int i = 0; i < depth; i++) {
        int o = mc::choose(i == depth - 1 ? 32 : 40); NV(o);
        if(o < 32) { mc::site("lookup"); lookup("nearest", *g[o / 4 % 4], *g[o % 4], o >= 16); }
        else if(o >= 36) { int k = o - 36; mc::site("change"); west[k] ^= 1; vec2 lo = lons(k); for(auto& r : lo) for(size_t x = 0; x < r.size(); x++) r[x] += west[k] * (0.9 * x - 1.3); mc::check(g[k]->setLons(lo), "setlons", "coordinates of the right size were rejected"); mc::op(); }
        else { int k = o - 32; mc::site("change"); shift[k] ^= 1; mc::check(g[k]->setLats(lats(k, shift[k])), "setlats", "coordinates of the right size were rejected"); mc::op(); }
    }
    Downscaler::clearCache();
}
// nearest neighbours on all small sets of locations
MC_HARNESS(geometry) {
    quiet(); Downscaler::clearCache(); static const float LA[] = {0, 0, 0.6f, 89.5f, -45, 60, 60.3f, NAN}, LO[] = {179.8f, -179.7f, 0, 10, 30, -0.2f, 180, 20}; int n = mc::thorough() ? 4 : 3; vec2 la(1, std::vector<float>(n)), lo = la; bool any = false;
    for(int i = 0; i < n; i++) { int k = mc::choose(8); NV(k); la[0][i] = LA[k]; lo[0][i] = LO[k]; any = any || k < 7; }
    auto f = file(1, n, 1, 1, la, lo); int k = mc::choose(8), b = mc::choose(2); NV(k); NV(b); static const float PA[] = {0.1f, 0, 89.9f, -46, 60.1f, 60, 30, 90}, PO[] = {180, -179.9f, -100, 31, 0.1f, -179.9f, NAN, 0}; auto p = file(1, 1, 1, 1, vec2(1, std::vector<float>(1, PA[k])), vec2(1, std::vector<float>(1, PO[k])));
    mc::site("lookup"); bool r = rejected([&]() { lookup("nearest", *f, *p, b); }); mc::check(!r || !any, "rejected", "lookup on a grid with valid locations was rejected"); Downscaler::clearCache();
}
namespace {
// 2 times, 2 members; the pattern under study is that of the last time and member, the others differ
struct Case {
    std::unique_ptr<FileFake> in, out; vec2 la, lo, pa, po; int ny, nx, my, mx, ne = 2, nt = 2; std::vector<D2> v; /*[t*ne+e]*/ Variable var, ovar;
    void setup(const vec2& la_, const vec2& lo_, const vec2& pa_, const vec2& po_) { la = la_; lo = lo_; pa = pa_; po = po_; ny = la.size(); nx = la[0].size(); my = pa.size(); mx = pa[0].size(); in = file(ny, nx, ne, nt, la, lo); out = file(my, mx, ne, nt, pa, po); var = Variable("T"); ovar = Variable("T2"); v.assign(nt * ne, D2(ny, std::vector<double>(nx))); }
    void values(std::function<double(int, int, int, int)> f) { for(int t = 0; t < nt; t++) { FieldPtr p = in->getEmptyField(); for(int e = 0; e < ne; e++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { (*p)(y, x, e) = f(t, e, y, x); v[t * ne + e][y][x] = (*p)(y, x, e); } in->addField(p, var, t); } out->initNewVariable(ovar); }
    bool run(const std::string& name, const std::string& options) { Downscaler::clearCache(); std::unique_ptr<Downscaler> d; bool r = rejected([&]() { d.reset(Downscaler::getScheme(name, var, ovar, Options(options))); d->downscale(*in, *out); }); mc::op(); Downscaler::clearCache(); return !r; }
    double got(int t, int e, int i, int j) { return (*out->getField(ovar, t))(i, j, e); }
    std::pair<int, int> nn(int i, int j) { auto w = nearest(la, lo, pa[i][j], po[i][j]); if(w.empty()) return {-1, -1}; return w[0]; }
    bool unique(int i, int j) { return nearest(la, lo, pa[i][j], po[i][j], 20).size() <= 1; }
    void unchanged() { for(int t = 0; t < nt; t++) { FieldPtr p = in->getField(var, t); for(int e = 0; e < ne; e++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) mc::check(near(v[t * ne + e][y][x], (*p)(y, x, e), 0), "input", "the input field was changed"); } }
    void each(const std::string& tag, std::function<std::vector<double>(int, int, int, int)> want, double tol = 1e-4) {
        for(int t = 0; t < nt; t++) for(int e = 0; e < ne; e++) for(int i = 0; i < my; i++) for(int j = 0; j < mx; j++) { auto w = want(t, e, i, j); if(w.empty()) continue; double g = got(t, e, i, j); bool ok = false; for(double x : w) ok = ok || near(x, g, tol); mc::check(ok, tag, mc::fmt("time %d member %d output %d,%d: want %g (%zu candidates) got %g", t, e, i, j, w[0], w.size(), g)); }
    }
};
void outgrid(int k, vec2& pa, vec2& po, const vec2& la, const vec2& lo) {
    if(k == 0) { pa = la; po = lo; }
    else if(k == 1) { pa = grid(1, 3, [](int y, int x) { return x == 1 ? NAN : 60.2 + 0.35 * x; }); po = grid(1, 3, [](int y, int x) { return 10.3 + 0.45 * x; }); }
    else { pa = grid(3, 2, [](int y, int x) { return 59.7 + 0.82 * y; }); po = grid(3, 2, [](int y, int x) { return x == 1 && y == 1 ? NAN : 10.15 + 0.6 * x; }); }
}
double pat(int t, int e, double v) { return !valid(v) ? (t + e == 2 ? v : v == MV && t == 0 ? 7.5 : v) : v + (1 - t) * 16 + (1 - e) * 4; }
}
// nearest neighbour, pressure, bypass and aggregation
MC_HARNESS(simple) {
    quiet(); int scheme = mc::choose(4), og = mc::choose(3); NV(scheme); NV(og); vec2 la = grid(2, 2, [](int y, int x) { return 60 + y; }), lo = grid(2, 2, [](int y, int x) { return 10 + x; }), pa, po; outgrid(og, pa, po, la, lo);
    if(mc::flip()) { la[0][1] = NAN; if(og == 0) pa = la; }
    Case c; c.setup(la, lo, pa, po); static const double V[] = {MV, 0, 1.5, -3, 100}; double v[4]; for(int i = 0; i < 4; i++) { v[i] = V[mc::choose(5)]; } NV(v[0]); NV(v[1]); NV(v[2]); NV(v[3]);
    c.values([&](int t, int e, int y, int x) { return pat(t, e, v[y * 2 + x]); });
    auto N = [&](int t, int e, int i, int j) { auto p = c.nn(i, j); return p.first < 0 ? (double)MV : c.v[t * 2 + e][p.first][p.second]; };
    if(scheme == 0) {
        mc::site("nearest"); mc::check(c.run("nearestNeighbour", ""), "rejected", "nearest"); c.each("nearest", [&](int t, int e, int i, int j) { return c.unique(i, j) ? std::vector<double>{N(t, e, i, j)} : std::vector<double>(); }, 0);
    } else if(scheme == 1) {
        static const float E[] = {MV, 0, 250.5f, -20}; float a = E[mc::choose(4)], b = E[mc::choose(4)]; NV(a); NV(b); vec2 ie = grid(2, 2, [&](int y, int x) { return y == 1 && x == 0 ? a : 100 * y + 30 * x; }), oe = grid(c.my, c.mx, [&](int y, int x) { return x == 0 ? b : 55; }); c.in->setElevs(ie); c.out->setElevs(oe);
        mc::site("pressure"); mc::check(c.run("pressure", ""), "rejected", "pressure"); c.each("pressure", [&](int t, int e, int i, int j) { if(!c.unique(i, j)) return std::vector<double>(); auto p = c.nn(i, j); double w = N(t, e, i, j); if(p.first >= 0 && valid(w) && valid(ie[p.first][p.second]) && valid(oe[i][j])) w *= exp(-1.21e-4 * (oe[i][j] - ie[p.first][p.second])); return std::vector<double>{w}; });
    } else if(scheme == 2) {
        static const char* S[] = {"", "stat=mean", "stat=min", "stat=max", "stat=median", "stat=std", "stat=sum", "stat=quantile quantile=0.25", "stat=quantile quantile=1", "stat=quantile", "stat=quantile quantile=1.1", "stat=mode"}; int s = mc::choose(12); NV(s);
        mc::site("upscale"); bool ok = c.run("upscale", S[s]); mc::check(ok == (s < 9), "options", S[s]); if(!ok) return;
        for(int y = 0; y < 2; y++) for(int x = 0; x < 2; x++) if(nearest(c.pa, c.po, c.la[y][x], c.lo[y][x], 20).size() > 1) return;
        c.each("upscale", [&](int t, int e, int i, int j) {
            std::vector<double> a; for(int y = 0; y < 2; y++) for(int x = 0; x < 2; x++) { auto w = nearest(c.pa, c.po, c.la[y][x], c.lo[y][x]); if(!w.empty() && w[0] == std::make_pair(i, j) && valid(c.v[t * 2 + e][y][x])) a.push_back(c.v[t * 2 + e][y][x]); }
            if(a.empty()) return std::vector<double>{MV}; std::sort(a.begin(), a.end()); double sum = 0, m, q = s == 2 ? 0 : s == 3 || s == 8 ? 1 : s == 4 ? 0.5 : 0.25; for(double x : a) sum += x; m = sum / a.size(); if(s <= 1) return std::vector<double>{m}; if(s == 6) return std::vector<double>{sum};
            if(s == 5) { double v = 0; for(double x : a) v += (x - m) * (x - m); return std::vector<double>{sqrt(v / a.size())}; } double p = q * (a.size() - 1); int k = floor(p); return std::vector<double>{k + 1 < (int)a.size() ? a[k] + (a[k + 1] - a[k]) * (p - k) : a[k]};
        }, 1e-3);
    } else {
        mc::site("bypass"); c.ovar = Variable("new"); mc::check(c.run("bypass", ""), "rejected", "bypass"); c.each("bypass", [&](int, int, int i, int j) { return std::vector<double>{c.ovar.name() == "new" ? (double)(i + j) : MV}; }, 1e9);
        std::unique_ptr<FileFake> o = file(2, 2, 2, 1, la, lo); std::unique_ptr<Downscaler> d(Downscaler::getScheme("nearestNeighbour", c.var, c.ovar, Options())); mc::check(!d->downscale(*c.in, *o), "times", "files with different numbers of times were downscaled");
        mc::check(rejected([&]() { d.reset(Downscaler::getScheme("nearest", c.var, c.ovar, Options())); }), "name", "an unknown downscaler was accepted");
    }
    c.unchanged();
}
namespace {
std::vector<float> ELEV() { return {MV, 0, 0.4f, 45, 500}; }
// sums over all ways to choose n of the entries
void subsets(const std::vector<double>& a, size_t from, int n, double sum, int count, std::vector<std::pair<double, int> >& out) { if(n == 0) { out.push_back({sum, count}); return; } for(size_t i = from; i + n <= a.size(); i++) subsets(a, i + 1, n - 1, sum + (valid(a[i]) ? a[i] : 0), count + valid(a[i]), out); }
}
// the mean of the neighbours with the most similar elevation
MC_HARNESS(smart) {
    quiet(); mc::budget(mc::thorough() ? 5 : 3); vec2 la = grid(3, 3, [](int y, int x) { return 60 + y; }), lo = grid(3, 3, [](int y, int x) { return 10 + x; }), pa(1, std::vector<float>{61.1f, 60.2f}), po(1, std::vector<float>{11.2f, 11.9f}); if(mc::dev(2)) pa[0][1] = NAN;
    Case c; c.setup(la, lo, pa, po); vec2 ie = grid(3, 3, [](int y, int x) { return 10 * (y * 3 + x) + 3; }), oe(1, std::vector<float>{42, 18}); D2 v(3, std::vector<double>(3));
    int R = mc::pickdev(std::vector<int>{1, 0, 2}), n = mc::pickdev(std::vector<int>{2, 1, 5, 20}); double m = mc::pickdev(std::vector<double>{MV, 0, 1, 7}); NV(R); NV(n); NV(m);
    for(int i = 0; i < 9; i++) { int k = mc::dev(6); if(k) { ie[i / 3][i % 3] = ELEV()[k - 1]; NOTE_(mc::fmt("elev %d=%g", i, ie[i / 3][i % 3])); } k = mc::dev(3); v[i / 3][i % 3] = k == 0 ? i * i + 1 : k == 1 ? MV : -5.5; if(k) NOTE_(mc::fmt("value %d=%g", i, v[i / 3][i % 3])); }
    for(int i = 0; i < 2; i++) { int k = mc::dev(6); if(k) { oe[0][i] = ELEV()[k - 1]; NOTE_(mc::fmt("out %d=%g", i, oe[0][i])); } }
    c.in->setElevs(ie); c.out->setElevs(oe); c.values([&](int t, int e, int y, int x) { return pat(t, e, v[y][x]); });
    mc::site("smart"); mc::check(c.run("smart", mc::fmt("radius=%d num=%d minElevDiff=%g", R, n, m)), "rejected", "smart");
    c.each("smart", [&](int t, int e, int i, int j) {
        auto p = c.nn(i, j); if(p.first < 0) return std::vector<double>{MV}; double nv = c.v[t * 2 + e][p.first][p.second], ne = ie[p.first][p.second], o = oe[i][j]; if(!valid(o) || (valid(m) && valid(ne) && std::fabs(o - ne) <= m)) return std::vector<double>{nv};
        std::vector<std::pair<double, double> > a; for(int y = std::max(0, p.first - R); y <= std::min(2, p.first + R); y++) for(int x = std::max(0, p.second - R); x <= std::min(2, p.second + R); x++) a.push_back({valid(ie[y][x]) ? std::fabs(ie[y][x] - o) : 1e10, c.v[t * 2 + e][y][x]});
        std::sort(a.begin(), a.end()); int k = std::min<int>(n, a.size()); double sum = 0, cut = a[k - 1].first; int count = 0, fixed = 0; std::vector<double> tied; for(auto& q : a) if(q.first < cut - 1e-4) { fixed++; if(valid(q.second)) { sum += q.second; count++; } } else if(q.first <= cut + 1e-4) tied.push_back(q.second);
        std::vector<std::pair<double, int> > s; subsets(tied, 0, k - fixed, sum, count, s); std::vector<double> w; for(auto& q : s) w.push_back(q.second ? q.first / q.second : MV); return w;
    });
    c.unchanged();
}
namespace {
struct Cell { bool in; int i, j; double a, b; };
// smallest candidates of the interpolation at index coordinates (a,b) of a grid
std::vector<double> interp(const D2& v, double a, double b, bool fallback, double nn) {
    int ny = v.size(), nx = v[0].size(); std::vector<double> w;
    for(int i = 0; i + 1 < ny; i++) for(int j = 0; j + 1 < nx; j++) if(a >= i && a <= i + 1 && b >= j && b <= j + 1) {
        double s = a - i, t = b - j; if(!valid(v[i][j]) || !valid(v[i + 1][j]) || !valid(v[i][j + 1]) || !valid(v[i + 1][j + 1])) w.push_back(fallback ? nn : MV);
        else w.push_back((1 - s) * ((1 - t) * v[i][j] + t * v[i][j + 1]) + s * ((1 - t) * v[i + 1][j] + t * v[i + 1][j + 1]));
    }
    if(w.empty()) w.push_back(nn);
    return w;
}
// coordinates of the index coordinates (a,b) in grids that are regular, flipped, transposed, rotated, sheared and distorted
void place(int kind, double a, double b, double& lat, double& lon) {
    switch(kind) {
        case 0: lat = 2 + a; lon = 5 + b; break; case 1: lat = 2 - a; lon = 5 + b; break; case 2: lat = 2 + a; lon = 5 - b; break; case 3: lat = 2 - a; lon = 5 - b; break;
        case 4: lat = 2 + b; lon = 5 + a; break; case 5: lat = 2 - b; lon = 5 + a; break;
        case 6: lat = 2 + 0.8 * a + 0.6 * b; lon = 5 - 0.6 * a + 0.8 * b; break; case 7: lat = 2 + a + b; lon = 5 - a + b; break; case 8: lat = 2 - a - b; lon = 5 - a + b; break;
        case 9: lat = 2 + a + 0.2 * b; lon = 5 + b; break; case 10: lat = 2 + a; lon = 5 + b + 0.1 * a * b; break; case 11: lat = 2 + a + 0.1 * a * b; lon = 5 + b; break; case 12: lat = 2 - a - 0.1 * a * b; lon = 5 + b + 0.05 * a * b; break; default: lat = 2 + 0.8 * a + 0.6 * b + 0.06 * a * b; lon = 5 - 0.6 * a + 0.8 * b; break;
    }
}
}
// interpolation between the four surrounding points
MC_HARNESS(bilinear) {
    quiet(); int size = mc::choose(6), kind = mc::choose(14), far = mc::choose(2); NV(far); auto place = [&](int kind, double a, double b, double& lat, double& lon) { ::place(kind, a, b, lat, lon); if(far) { lat = 47.3 + (lat - 2) * 0.07; lon = 131.7 + (lon - 5) * 0.1; } }; static const int NY[] = {3, 2, 2, 1, 3, 1}, NX[] = {3, 3, 2, 3, 1, 1}; int ny = NY[size], nx = NX[size]; NV(ny); NV(nx); NV(kind);
    static const double A[] = {-0.8, 0, 0.25, 0.6, 1, 1.45, 2, 2.7}; double a = A[mc::choose(8)], b = A[mc::choose(8)]; NV(a); NV(b); mc::budget(mc::thorough() ? 3 : 2);
    auto g = [&](int what) { return grid(ny, nx, [&](int y, int x) { double la, lo; place(kind, y, x, la, lo); return what ? lo : la; }); }; double la, lo; place(kind, a, b, la, lo); vec2 pa(1, std::vector<float>{(float)la, 2}), po(1, std::vector<float>{(float)lo, NAN});
    Case c; c.setup(g(0), g(1), pa, po); if(nearest(c.la, c.lo, la, lo, 20).size() > 1 && (a < 0 || b < 0 || a > ny - 1 || b > nx - 1)) mc::skip();
    double big = 60; D2 v(ny, std::vector<double>(nx)); for(int i = 0; i < ny * nx; i++) { int k = mc::dev(4); v[i / nx][i % nx] = k == 0 ? i * i + 1 : k == 1 ? MV : k == 2 ? -50 : 1000; if(k > 1) big = std::max(big, std::fabs(v[i / nx][i % nx])); if(k) NOTE_(mc::fmt("value %d=%g", i, v[i / nx][i % nx])); }
    c.values([&](int t, int e, int y, int x) { return pat(t, e, v[y][x]); }); mc::site("bilinear"); mc::check(c.run("bilinear", ""), "rejected", "the downscaler stopped with an error");
    c.each(a < 0 || b < 0 || a > ny - 1 || b > nx - 1 ? "outside" : "inside", [&](int t, int e, int, int j) { if(j) return std::vector<double>{MV}; const D2& f = c.v[t * 2 + e]; std::vector<double> w; for(auto& p : nearest(c.la, c.lo, la, lo, 20)) for(double x : interp(f, a, b, false, f[p.first][p.second])) w.push_back(x); return w; }, far ? 5e-4 * big : 2e-3); c.unchanged();
}
// adjustment with the gradients in a neighbourhood
MC_HARNESS(gradient) {
    quiet(); mc::budget(mc::thorough() ? 4 : 3); vec2 la = grid(3, 3, [](int y, int x) { return 2 + y; }), lo = grid(3, 3, [](int y, int x) { return 5 + x; }), pa(1, std::vector<float>{3.2f, 2.3f}), po(1, std::vector<float>{6.3f, 6.9f}); const double PA[] = {1.2, 0.3}, PB[] = {1.3, 1.9};
    bool nan = mc::dev(2); if(nan) pa[0][1] = NAN; Case c; c.setup(la, lo, pa, po); vec2 ie(3, std::vector<float>(3)), il = ie, oe(1, std::vector<float>{60, 12}), ol(1, std::vector<float>{0.6f, 0.3f}); D2 v(3, std::vector<double>(3)), gv = v;
    static const float BE[] = {0, 40, 80, 15, 50, 95, 5, 20, 130}, BL[] = {0, 0.25f, 0.5f, 0.125f, 0.625f, 0.75f, 0.375f, 0.875f, 1};
    for(int i = 0; i < 9; i++) {
        int y = i / 3, x = i % 3; auto e = mc::pickdev(std::vector<float>{BE[i], MV, 0, 500}), l = mc::pickdev(std::vector<float>{BL[i], MV, 0, 1}); double w = mc::pickdev(std::vector<double>{10 + 3 * ((i * 5) % 7), MV, 1, 90}); ie[y][x] = e; il[y][x] = l; v[y][x] = w;
        if(e != BE[i]) NOTE_(mc::fmt("elev %d=%g", i, e)); if(l != BL[i]) NOTE_(mc::fmt("laf %d=%g", i, l)); if(w != 10 + 3 * ((i * 5) % 7)) NOTE_(mc::fmt("value %d=%g", i, w));
    }
    int flat = mc::dev(5); if(flat == 1) for(auto& r : ie) for(auto& x : r) x = 100; if(flat == 2) for(int i = 0; i < 9; i++) ie[i / 3][i % 3] = i == 4 ? 30 : 0; if(flat == 3) for(auto& r : il) for(auto& x : r) x = MV; if(flat == 4) for(auto& r : ie) for(auto& x : r) x = MV; NV(flat);
    oe[0][0] = mc::pickdev(std::vector<float>{60, MV, 0, 400}); ol[0][0] = mc::pickdev(std::vector<float>{0.6f, MV, 0, 1}); ol[0][1] = mc::pickdev(std::vector<float>{0.3f, MV, 1}); NV(oe[0][0]); NV(ol[0][0]); NV(ol[0][1]);
    std::string o; auto opt = [&](const char* name, std::vector<double> a, double def) { int k = mc::dev(a.size() + 1); if(!k) return def; o += mc::fmt("%s=%g ", name, a[k - 1]); return a[k - 1]; };
    double constant = opt("constantElevGradient", {0.5, 0, -0.01}, MV), R = opt("elevRadius", {0, 1, 2}, 3), minDiff = opt("minElevDiff", {0, 100, 1000}, 30), def = opt("defaultElevGradient", {0.25}, 0), minG = opt("minElevGradient", {0.2, -1}, MV), maxG = opt("maxElevGradient", {0.05, 1, -0.1}, MV), minLaf = opt("minLafForElevGradient", {0.5, 1.5}, 0), minN = opt("minNumPoints", {1, 8}, 2);
    bool other = mc::dev(2); if(other) o += "elevGradientVariable=G "; double LR = opt("lafRadius", {1}, 0), minLafDiff = opt("minLafDiff", {0.5, 2}, 0.1), sea = opt("minFracSeaPoints", {0.5, 0.9}, 0), minLG = opt("minLafGradient", {5, -100}, MV), maxLG = opt("maxLafGradient", {-5, 2}, MV); bool lg = opt("logTransform", {1}, 0), limit = opt("limit", {1}, 0);
    int radii = mc::dev(5), weights = mc::dev(4), save = mc::dev(3), bil = mc::dev(3), range = mc::dev(4); std::vector<std::vector<int> > RADII = {{}, {1}, {1, 2}, {2, 1}, {0, 1}}; std::vector<int> rr = RADII[radii]; static const char* RS[] = {"", "lafSearchRadii=1 ", "lafSearchRadii=1,2 ", "lafSearchRadii=2,1 ", "lafSearchRadii=0,1 "}; o += RS[radii];
    std::vector<double> W; if(weights == 0) W.assign(rr.size(), 1.0 / std::max<size_t>(1, rr.size())); else if(weights == 1) { W = {0.25, 0.5}; o += "lafWeights=0.25,0.5 "; } else if(weights == 2) { W = {2}; o += "lafWeights=2 "; } else { W = {0.25, 0.5, 0.25}; o += "lafWeights=0.25,0.5,0.25 "; }
    if(save) o += save == 1 ? "saveGradient=elev " : "saveGradient=laf "; if(bil) o += bil == 1 ? "downscaler=bilinear " : "downscaler=smart "; if(range) c.ovar = range == 1 ? Variable("T2", 0, 35, "", "") : range == 2 ? Variable("T2", 12, MV, "", "") : Variable("T2", MV, 20, "", ""); NOTE_("options " + o);
    c.in->setElevs(ie); c.in->setLandFractions(il); c.out->setElevs(oe); c.out->setLandFractions(ol); c.values([&](int t, int e, int y, int x) { return pat(t, e, v[y][x]); });
    std::vector<D2> G = c.v; if(other) for(int t = 0; t < 2; t++) { FieldPtr p = c.in->getEmptyField(); for(int e = 0; e < 2; e++) for(int y = 0; y < 3; y++) for(int x = 0; x < 3; x++) (*p)(y, x, e) = G[t * 2 + e][y][x] = 5 + y * 2 + x * x + e + t; c.in->addField(p, Variable("G"), t); }
    mc::site("gradient"); bool ok = c.run("gradient", o); mc::check(ok == (W.size() == rr.size() && bil < 2), "options", o); if(!ok) return;
    auto clamp = [&](double g, double lo, double hi) { if(valid(lo) && g < lo) g = lo; if(valid(hi) && g > hi) g = hi; return g; };
    D2 E(3, std::vector<double>(3)), L = E; for(int i = 0; i < 9; i++) { E[i / 3][i % 3] = ie[i / 3][i % 3]; L[i / 3][i % 3] = il[i / 3][i % 3]; }
    c.each("gradient", [&](int t, int e, int i, int j) {
        auto p = c.nn(i, j); if(p.first < 0) return std::vector<double>{MV}; const D2 &F = c.v[t * 2 + e], &H = G[t * 2 + e]; int I = p.first, J = p.second;
        double base = F[I][J], be = ie[I][J], bl = il[I][J]; if(bil) { base = interp(F, PA[j], PB[j], false, base)[0]; be = interp(E, PA[j], PB[j], true, be)[0]; bl = interp(L, PA[j], PB[j], true, bl)[0]; } if(!valid(base)) return std::vector<double>{MV};
        double laf = ol[i][j]; if(LR) { double s = 0; int n = 0; for(int k = 0; k < 2; k++) if(valid(ol[0][k])) { s += ol[0][k]; n++; } laf = n ? s / n : MV; }
        // elevation gradient
        double g = constant; if(!valid(constant)) {
            double sx = 0, sy = 0, lo = INFINITY, hi = -INFINITY; int n = 0; std::vector<std::pair<double, double> > q; for(int y = std::max(0.0, I - R); y <= std::min(2.0, I + R); y++) for(int x = std::max(0.0, J - R); x <= std::min(2.0, J + R); x++) { double u = lg ? (valid(H[y][x]) && H[y][x] > 0 ? log(H[y][x]) : MV) : H[y][x]; if(valid(ie[y][x]) && valid(u) && (!valid(il[y][x]) || il[y][x] >= minLaf)) { q.push_back({ie[y][x], u}); sx += ie[y][x]; sy += u; n++; lo = std::min<double>(lo, ie[y][x]); hi = std::max<double>(hi, ie[y][x]); } }
            double xx = 0, xy = 0; for(auto& k : q) { xx += (k.first - sx / n) * (k.first - sx / n); xy += (k.first - sx / n) * (k.second - sy / n); } g = n >= minN && n > 0 && hi - lo >= minDiff && xx > 1e-9 ? xy / xx : def; }
        g = clamp(g, minG, maxG);
        // land gradient, for all choices among points with equal land fraction
        std::vector<double> lgs; if(rr.empty()) lgs.push_back(MV); else {
            std::vector<std::pair<double, double> > acc(1, {0, 0});
            for(size_t r = 0; r < rr.size(); r++) {
                double lo = INFINITY, hi = -INFINITY; int n = 0, ns = 0; std::vector<std::array<double, 3> > q; for(int y = std::max(0, I - rr[r]); y <= std::min(2, I + rr[r]); y++) for(int x = std::max(0, J - rr[r]); x <= std::min(2, J + rr[r]); x++) if(valid(F[y][x]) && valid(il[y][x])) { n++; ns += il[y][x] < 0.5; q.push_back({{il[y][x], F[y][x], ie[y][x]}}); lo = std::min<double>(lo, il[y][x]); hi = std::max<double>(hi, il[y][x]); }
                if(!n || hi - lo < minLafDiff - 1e-6 || (double)ns / n < sea - 1e-6) continue; std::vector<std::pair<double, double> > next;
                for(auto& a : q) if(a[0] == lo) for(auto& b : q) if(b[0] == hi) for(auto& s : acc) { if(valid(a[2]) && valid(b[2])) next.push_back({s.first + W[r] * (b[1] - g * (b[2] - a[2]) - a[1]) / (hi - lo), s.second + W[r]}); else next.push_back(s); }
                acc = next;
            }
            for(auto& s : acc) lgs.push_back(s.second == 0 ? (double)MV : clamp(s.first / s.second, minLG, maxLG));
        }
        std::vector<double> w; for(double l : lgs) {
            if(save) { w.push_back(save == 1 ? g : l); continue; } double x = base; if(valid(oe[i][j]) && valid(be)) x = lg ? x * exp((oe[i][j] - be) * g) : x + (oe[i][j] - be) * g; if(valid(laf) && valid(bl) && valid(l)) x += (laf - bl) * l;
            double lo = range == 1 ? 0 : range == 2 ? 12 : MV, hi = range == 1 ? 35 : range == 3 ? 20 : MV; if((valid(lo) && x < lo) || (valid(hi) && x > hi)) { if((valid(lo) && std::fabs(x - lo) < 1e-3) || (valid(hi) && std::fabs(x - hi) < 1e-3)) w.push_back(x); x = base; } else if((valid(lo) && std::fabs(x - lo) < 1e-3) || (valid(hi) && std::fabs(x - hi) < 1e-3)) w.push_back(base);
            if(limit) { double a = INFINITY, b = -INFINITY; for(int y = std::max(0.0, I - R); y <= std::min(2.0, I + R); y++) for(int z = std::max(0.0, J - R); z <= std::min(2.0, J + R); z++) if(valid(F[y][z])) { a = std::min(a, F[y][z]); b = std::max(b, F[y][z]); } x = std::min(std::max(x, a), b); }
            w.push_back(x);
        }
        return w;
    }, 2e-3); c.unchanged();
}
MC_MAIN
