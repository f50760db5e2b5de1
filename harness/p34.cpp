// P34: the command-line client's spatial corrections. Optimal interpolation (-c oi) in single-member and ensemble mode and kriging
// (-c kriging) are run on small files for all station layouts, observations and options of a small domain, and every cell is compared
// with the analysis computed in double precision from the definition.
#include "cal.h"
#include "la.h"
using namespace cal;
namespace {
typedef std::vector<float> V;
const double RE = 6378137, PI = 3.14159265358979323846;
double dist(double a, double b, double c, double d) { a *= PI / 180; b *= PI / 180; c *= PI / 180; d *= PI / 180; double k = cos((a + c) / 2); return RE * sqrt(k * k * (b - d) * (b - d) + (a - c) * (a - c)); }
double arc(double a, double b, double c, double d) { a *= PI / 180; b *= PI / 180; c *= PI / 180; d *= PI / 180; double s = sin((a - c) / 2), t = sin((b - d) / 2); return 2 * RE * asin(sqrt(std::min(1.0, s * s + cos(a) * cos(c) * t * t))); }
struct Station { float lat, lon, elev; V par; };
struct Tab : ParameterFile {
    Tab() : ParameterFile(Options("file=memory"), true) {}
    bool isFixedSize() const { return true; }
    bool isReadable() const { return true; }
    std::string name() const { return "memory"; }
};
// position in units of cells
Station at(double y, double x, float e, V p) { return Station{(float)(60 + 0.1 * y), (float)(10 + 0.2 * x), e, p}; }
struct Oi {
    double d = 30000, h = 100, w = 0.2, wmin = MV, minRho = 0.0013, eps = 0.5, sigma = 1, sigmaC = 1, delta = 1, dc = 10000, maxElev = 200, grad = MV, lambda = 0.5; int maxLoc = 20, minEns = 5; bool soar = false, land = false, cv = false, extra = false, useEns = true, box = false, bias = false, dvar = false, num = false; double mu = 0.9, gamma = 0.25;
    std::string str() const {
        Oi o; std::string s; auto n = [&](const char* k, double a, double b) { if(a != b) s += mc::fmt("%s=%g ", k, a); };
        n("d", d, o.d); n("h", h, o.h); n("w", w, o.w); n("wmin", wmin, o.wmin); n("minRho", minRho, o.minRho); n("epsilon", eps, o.eps); n("sigma", sigma, o.sigma); n("sigmaC", sigmaC, sigma); n("delta", delta, o.delta); n("dc", dc, o.dc); n("maxElevDiff", maxElev, o.maxElev); n("elevGradient", grad, o.grad); n("lambda", lambda, o.lambda); n("maxLocations", maxLoc, o.maxLoc); n("minEns", minEns, o.minEns);
        n("landOnly", land, 0); n("crossValidate", cv, 0); n("extrapolate", extra, 0); n("useEns", useEns, 1); if(soar) s += "rhoType=soar "; if(box) s += "transform=boxcox "; n("mu", mu, o.mu); n("gamma", gamma, o.gamma); if(bias) s += "biasVariable=b "; if(dvar) s += "deltaVariable=dv "; if(num) s += "numVariable=nv "; return s;
    }
    double rho(double hd, double vd, double ld) const {
        if(!valid(hd)) return 0; double q = hd / d, r = soar ? (1 + q) * exp(-q) : exp(-0.5 * q * q);
        if(valid(h)) { if(!valid(vd)) return 0; r *= exp(-0.5 * vd * vd / h / h); }
        if(valid(wmin)) r *= 1 - (1 - wmin) * std::fabs(ld);
        if(valid(w)) r *= exp(-0.5 * ld * ld / w / w);
        return r;
    }
    double tr(double v) const { if(!box) return v; return (pow(std::max(v, 0.0), lambda) - 1) / lambda; }
    double inv(double v) const { if(!box) return v; return pow(std::max(0.0, 1 + lambda * v), 1 / lambda); }
};
// the analysis of one time; what[e][y][x] is NaN where it is not judged
struct Ana { std::vector<D2> a; bool used = false; D2 nb, num; double nd = NAN; };
Ana analyse(World& w, const std::string& var, int t, const std::vector<Station>& s, const Oi& o) {
    int ny = w.ny, nx = w.nx, ne = w.ne, n = s.size(); Ana r; r.a.assign(ne, D2(ny, VD(nx, NAN))); r.nb.assign(ny, VD(nx, NAN)); r.num = r.nb; auto B = [&](int y, int x) { if(!o.bias) return 0.0; double v = w.old("b", t, 0, y, x); return valid(v) ? v * o.mu : 0.0; }; bool regular = ny > 1 && nx > 1; double size = regular ? dist(w.la[0][0], w.lo[0][0], w.la[1][0], w.lo[1][0]) : 0, reach = sqrt(-2 * log(o.minRho)) * o.d; int R = regular ? (int)(reach / size) : 0; if(regular && std::fabs(reach / size - std::round(reach / size)) < 1e-3) return r;
    std::vector<int> mem; for(int e = 0; e < ne; e++) { bool v = true; for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) v = v && valid(w.old(var, t, e, y, x)); if(v) mem.push_back(e); } int m = mem.size();
    bool part = false; for(int e = 0; e < ne; e++) { int c = 0; for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) c += valid(w.old(var, t, e, y, x)); part = part || (c > 0 && c < ny * nx); }
    bool single = !o.useEns || m < o.minEns; if(m == 0) return r;
    std::vector<int> Y(n), X(n); std::vector<bool> ok(n); std::vector<double> laf(n), yhat(n, 0), obs(n), shift(n, 0); D2 yy(n, VD(m));
    for(int i = 0; i < n; i++) {
        double best = INFINITY; for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { if(!valid(w.la[y][x]) || !valid(w.lo[y][x])) continue; double q = arc(s[i].lat, s[i].lon, w.la[y][x], w.lo[y][x]); if(q < best) { best = q; Y[i] = y; X[i] = x; } }
        double ge = w.el[Y[i]][X[i]]; laf[i] = w.lf[Y[i]][X[i]]; ok[i] = valid(s[i].par[0]) && (!regular || (Y[i] > 0 && Y[i] < ny - 1 && X[i] > 0 && X[i] < nx - 1)) && (!valid(o.maxElev) || (valid(s[i].elev) && valid(ge) && std::fabs(s[i].elev - ge) < o.maxElev)) && !(o.land && laf[i] == 0);
        obs[i] = o.tr(s[i].par[0]); double corr = valid(o.grad) && valid(s[i].elev) && valid(ge) ? o.grad * (s[i].elev - ge) : 0;
        for(int k = 0; k < m; k++) { yy[i][k] = o.tr(w.old(var, t, mem[k], Y[i], X[i])) + corr; yhat[i] += yy[i][k] / m; }
        shift[i] = B(Y[i], X[i]);
    }
    if(o.dvar && m == ne && ne > 1 && !part) { double tr = 0; for(int i = 0; i < n; i++) for(int k = 0; k < m; k++) tr += (yy[i][k] - yhat[i]) * (yy[i][k] - yhat[i]) / (m - 1) / n; double d0 = w.old("dv", t, 0, 0, 0); if(!valid(d0)) d0 = 1; if(n && tr > 1e-3) r.nd = (d0 + 0.03 * o.sigma * o.sigma / o.eps / o.eps / tr) / 1.03; }
    for(int i = 0; i < n; i++) yhat[i] -= shift[i];
    for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) {
        std::vector<std::pair<double, int> > L; bool judge = true; auto sep = [&](double a, double b) { return valid(a) && valid(b) ? a - b : (double)MV; }; auto lsep = [&](double a, double b) { return valid(a) && valid(b) ? a - b : 0.0; };
        for(int i = 0; i < n; i++) { if(!ok[i]) continue; double hd = valid(w.la[y][x]) && valid(w.lo[y][x]) ? dist(s[i].lat, s[i].lon, w.la[y][x], w.lo[y][x]) : MV, q = o.rho(hd, sep(s[i].elev, w.el[y][x]), lsep(laf[i], w.lf[y][x])); if(std::fabs(q - o.minRho) < 1e-5) judge = false; if(q <= o.minRho) continue; if(regular && (std::abs(Y[i] - y) > R || std::abs(X[i] - x) > R)) { judge = false; continue; } if(!regular && hd >= reach * 0.999) { judge = false; continue; } L.push_back({-q, i}); }
        std::stable_sort(L.begin(), L.end()); if(o.cv && !L.empty()) { if(L.size() > 1 && L[1].first - L[0].first < 1e-5) judge = false; L.erase(L.begin()); }
        if((int)L.size() > o.maxLoc) { if(L[o.maxLoc].first - L[o.maxLoc - 1].first < 1e-5) judge = false; L.resize(o.maxLoc); } int k = L.size(); if(!judge) continue;
        if(single && o.box) continue; if(k == 0) { for(int e = 0; e < ne; e++) r.a[e][y][x] = w.old(var, t, e, y, x); if(!single) r.num[y][x] = 0; continue; } r.used = true;
        if(single) {
            la::Mat P(k, VD(k)); VD g(k), wt; for(int i = 0; i < k; i++) { const Station& a = s[L[i].second]; g[i] = -L[i].first; for(int j = 0; j < k; j++) { const Station& b = s[L[j].second]; P[i][j] = o.rho(dist(a.lat, a.lon, b.lat, b.lon), i == j && !valid(a.elev) ? (double)MV : sep(a.elev, b.elev), lsep(laf[L[i].second], laf[L[j].second])); } P[i][i] += o.eps * o.eps / (o.bias ? 1 + o.gamma : 1) * (a.par.size() == 2 ? a.par[1] : 1); }
            if(o.box || !la::solve(P, g, wt)) continue;
            for(int q = 0; q < m; q++) { double v = w.old(var, t, mem[q], y, x); for(int i = 0; i < k; i++) v += wt[i] * (obs[L[i].second] - yy[L[i].second][q] + shift[L[i].second]); r.a[mem[q]][y][x] = v; }
            r.nb[y][x] = B(y, x); continue;
        }
        if(part || m < 2) continue;
        la::Mat Ri(k, VD(k, 0)); bool inv = true; std::vector<int> rad;
        for(int i = 0; i < k; i++) { const V& p = s[L[i].second].par; Ri[i][i] = -L[i].first / (o.sigma * o.sigma * (p.size() > 1 ? p[1] : 1)); if(p.size() == 3 && p[2] > 0) rad.push_back(i); }
        if(!rad.empty()) { int z = rad.size(); la::Mat C(z, VD(z)); for(int i = 0; i < z; i++) for(int j = 0; j < z; j++) { const Station &a = s[L[rad[i]].second], &b = s[L[rad[j]].second]; double q = dist(a.lat, a.lon, b.lat, b.lon) / o.dc; C[i][j] = i == j ? 1 : (1 + q) * exp(-q); } la::Mat I = la::invert(C, inv); if(!inv) continue; for(int i = 0; i < z; i++) for(int j = 0; j < z; j++) Ri[rad[i]][rad[j]] = sqrt(L[rad[i]].first * L[rad[j]].first) / (o.sigmaC * o.sigmaC) * I[i][j]; }
        la::Mat Yp(k, VD(m)), C(m, VD(k, 0)), Pi(m, VD(m)); VD dd(k); for(int i = 0; i < k; i++) { int st = L[i].second; dd[i] = obs[st] - yhat[st]; for(int q = 0; q < m; q++) Yp[i][q] = yy[st][q] - shift[st] - yhat[st]; }
        for(int q = 0; q < m; q++) for(int i = 0; i < k; i++) for(int j = 0; j < k; j++) C[q][i] += Yp[j][q] * Ri[j][i];
        double delta = o.dvar ? w.old("dv", t, 0, y, x) : o.delta; if(!valid(delta)) delta = 1; r.num[y][x] = k;
        for(int a = 0; a < m; a++) for(int b = 0; b < m; b++) { Pi[a][b] = a == b ? (m - 1) / delta / (o.bias ? 1 + o.gamma : 1) : 0; for(int i = 0; i < k; i++) Pi[a][b] += C[a][i] * Yp[i][b]; }
        la::Mat P = la::invert(Pi, inv); if(!inv) continue; la::Mat Q = P, Z; for(auto& row : Q) for(double& v : row) v *= m - 1; VD ev; la::eig(Q, ev, Z); VD wt(m, 0); for(int a = 0; a < m; a++) for(int b = 0; b < m; b++) for(int i = 0; i < k; i++) wt[a] += P[a][b] * C[b][i] * dd[i];
        double bt = 0; for(int q = 0; q < m; q++) bt += o.tr(w.old(var, t, mem[q], y, x)) * wt[q]; r.nb[y][x] = B(y, x) - o.gamma / (1 + o.gamma) * bt;
        VD f(m); double mean = 0; for(int q = 0; q < m; q++) { f[q] = o.tr(w.old(var, t, mem[q], y, x)); mean += f[q] / m; }
        for(int e = 0; e < m; e++) {
            double inc = 0; for(int q = 0; q < m; q++) { double W = wt[q]; for(int z = 0; z < m; z++) W += Z[q][z] * sqrt(std::max(0.0, ev[z])) * Z[e][z]; inc += (f[q] - mean) * W; }
            double mi = inc - (f[e] - mean), lo = 0, hi = 0; for(int i = 0; i < k; i++) { double v = dd[i] - Yp[i][e]; if(i == 0) lo = hi = v; lo = std::min(lo, v); hi = std::max(hi, v); }
            if(!o.extra) mi = std::max(std::min(lo, 0.0), std::min(std::max(hi, 0.0), mi));
            r.a[mem[e]][y][x] = o.inv(f[e] + mi);
        }
    }
    return r;
}
void table(Tab& p, const std::vector<Station>& s) { for(auto& a : s) p.setParameters(Parameters(a.par), 0, Location(a.lat, a.lon, a.elev)); p.recomputeTree(); }
std::string show(const std::vector<Station>& s) { std::string r; for(auto& a : s) r += mc::fmt("(%g,%g,%g: ", (a.lat - 60) / 0.1, (a.lon - 10) / 0.2, a.elev) + vs(VD(a.par.begin(), a.par.end())) + ") "; return r; }
void run(World& w, std::vector<Station> s, const Oi& o, const char* tag) {
    NOTE_(o.str()); NOTE_(show(s)); Tab p; table(p, s); Capture c; bool ok = w.run("oi", "v", o.str(), &p); mc::check(ok, std::string(tag) + "-rejected", "rejected: " + c.str()); if(!ok) return;
    std::map<std::string, std::vector<D2> > keep; for(const char* k : {"b", "dv", "nv"}) if(w.v.count(k)) { keep[k] = w.v[k]; if((k[0] == 'b' && o.bias) || (k[0] == 'd' && o.dvar) || (k[0] == 'n' && o.num)) w.v.erase(k); } w.others(tag, "v"); VD got; for(auto& k : keep) w.v[k.first] = k.second;
    for(int t = 0; t < w.nt; t++) { Ana r = analyse(w, "v", t, s, o);
        for(int y = 0; y < w.ny; y++) for(int x = 0; x < w.nx; x++) { auto side = [&](const char* name, double want) { double g = w.got(name, t, 0, y, x); got.push_back(g); if(!std::isnan(want)) mc::check(near(want, g, 1e-3), std::string(tag) + "-" + name, mc::fmt("time %d cell %d,%d: want %.9g got %.9g", t, y, x, want, g)); }; if(o.bias) side("b", r.nb[y][x]); if(o.dvar) side("dv", r.nd); if(o.num) side("nv", r.num[y][x]); }
        for(int e = 0; e < w.ne; e++) for(int y = 0; y < w.ny; y++) for(int x = 0; x < w.nx; x++) { double g = w.got("v", t, e, y, x), want = r.a[e][y][x]; got.push_back(g); if(std::isnan(want)) { mc::check(!(std::isnan(g) || std::isinf(g)) || !valid(w.old("v", t, e, y, x)), std::string(tag) + "-finite", "not a number"); continue; } mc::check(near(want, g, s[0].par.size() == 3 ? 1e-2 : 5e-4) || (!valid(w.old("v", t, e, y, x)) && !valid(g)), tag, mc::fmt("time %d member %d cell %d,%d: had %g want %.9g got %.9g", t, e, y, x, w.old("v", t, e, y, x), want, g)); } }
    mc::outcome_of(got);
}
const double PY[] = {1.1, 2.2, 1.7, 0.2, 1.15}, PX[] = {1.15, 1.9, 3.1, 2.1, 1.2};
Oi options(bool ens) {
    Oi o; o.minEns = 2; o.useEns = ens; o.d = mc::pickdev(std::vector<double>{30000, 9000, 100000}); o.h = mc::pickdev(std::vector<double>{100, MV, 30}); o.w = mc::pickdev(std::vector<double>{0.2, MV, 0.6}); o.wmin = mc::pickdev(std::vector<double>{MV, 0.5}); o.maxLoc = mc::pickdev(std::vector<int>{20, 1, 2}); o.maxElev = mc::pickdev(std::vector<double>{200, MV, 45}); o.grad = mc::pickdev(std::vector<double>{MV, -0.0065}); o.minRho = mc::pickdev(std::vector<double>{0.0013, 0.3}); o.land = mc::dev(2); o.cv = mc::dev(2); o.soar = mc::dev(2); if(o.soar) o.d = 40000;
    if(ens) { o.sigma = mc::pickdev(std::vector<double>{1, 2.5}); o.delta = mc::pickdev(std::vector<double>{1, 0.6}); o.extra = mc::dev(2); o.sigmaC = o.sigma; } else o.eps = mc::pickdev(std::vector<double>{0.5, 1.2});
    return o;
}
const float LAF[] = {0, 0.3f, 1, 0.7f, 0.5f};
void place(World& w) { vec2 e = w.el, l = w.lf; for(int y = 0; y < w.ny; y++) for(int x = 0; x < w.nx; x++) { e[y][x] = 12 * y + 17 * ((x * 3 + y) % 4); l[y][x] = LAF[(2 * x + 3 * y) % 5]; } int miss = mc::dev(3); if(miss == 1) e[1][1] = MV; if(miss == 2) l[1][2] = MV; w.elevs(e); w.lafs(l); }
std::vector<Station> stations(int n, int np) {
    std::vector<Station> s; for(int i = 0; i < n; i++) { int k = mc::choose(5); for(auto& a : s) if(std::fabs(a.lat - 60 - 0.1 * PY[k]) < 1e-4) mc::skip(); float ob = mc::pick({3.f, -1.f}); if(mc::dev(2)) ob = mc::pick({(float)MV, 25.f}); float el = 20 + 9 * i; if(mc::dev(2)) el = mc::pick({(float)MV, 80.f, 400.f}); V p{ob}; if(np > 1) p.push_back(mc::pickdev(std::vector<float>{1, 0.3f, 4})); if(np > 2) { p[1] = 1; p.push_back(mc::choose(2) * 1000); } s.push_back(at(PY[k], PX[k], el, p)); }
    return s;
}
const double BG[6][5] = {{1, 2, 4, 0.5, 3}, {0, 3, 1, 2, 1.5}, {5, 2, 5, 5.5, 4}, {-2, 1, 0.5, 6, 0}, {1, 1, 3, 2, 7}, {0.1, 0.3, 0.2, 0, 1}};
}
MC_HARNESS(single) {
    int n = mc::range(0, mc::thorough() ? 3 : 2), np = mc::range(1, 3), ne = mc::range(1, 2); mc::budget(mc::thorough() || n < 2 ? 2 : 1); World w(4, 5, ne, 2); place(w); Oi o = options(false); auto s = stations(n, np); int miss = mc::dev(4);
    w.set("v", [&](int t, int e, int y, int x) { if(miss == 1 && t == 1 && e == 0 && y == 2 && x == 2) return (double)MV; if(miss == 2 && e == ne - 1 && t == 0) return (double)MV; if(miss == 3 && y == 1 && x == 1 && t == 1) return (double)NAN; return BG[(y * 5 + x) % 6][(e + t) % 5] + y; });
    if(n == 0) s.push_back(at(-30, 20, 0, V(np, 1))); run(w, s, o, "single");
}
MC_HARNESS(ensemble) {
    int n = mc::range(1, mc::thorough() ? 3 : 2), np = mc::range(1, 3), ne = mc::range(2, 3); mc::budget(n < 2 ? 2 : 1); World w(4, 5, ne, 2); place(w); Oi o = options(true); if(mc::dev(2)) { o.box = true; o.lambda = mc::pick({0.5, 0.3}); } o.dc = mc::pickdev(std::vector<double>{10000, 40000}); if(mc::dev(2)) o.sigmaC = 0.4; auto s = stations(n, np); if(o.box) for(auto& a : s) if(a.par[0] == -1) a.par[0] = 0;
    int miss = mc::dev(3); w.set("v", [&](int t, int e, int y, int x) { if(miss == 1 && e == 0 && t == 0) return (double)MV; if(miss == 2 && t == 1 && y == 1 && x == 1 && e == ne - 1) return (double)MV; double v = BG[(y * 5 + x) % 6][(e + t) % 5] + y; return o.box ? std::max(0.0, v) : v; });
    run(w, s, o, "ensemble");
}
// the variables that are read and updated along with the analysis: the bias, the inflation of the ensemble and the number of observations
MC_HARNESS(variables) {
    int n = mc::range(1, 2), np = mc::range(1, 2), ne = mc::range(1, 3), what = mc::pick({1, 2, 7}); mc::budget(n < 2 || mc::thorough() ? 2 : 1); World w(4, 5, ne, 2); place(w); Oi o = options(mc::flip()); o.bias = what & 1; o.dvar = what & 2; o.num = what & 4; if(o.bias) { o.mu = mc::pickdev(std::vector<double>{0.9, 1, 0.3}); o.gamma = mc::pickdev(std::vector<double>{0.25, 1}); } auto s = stations(n, np); int miss = mc::dev(3);
    w.set("v", [&](int t, int e, int y, int x) { return BG[(y * 5 + x) % 6][(e + t) % 5] + y; }); w.set("b", [&](int t, int e, int y, int x) { return miss == 1 && (x + y) % 2 ? (double)MV : 0.4 * y - 0.3 * x + t + e; }); w.set("dv", [&](int t, int e, int y, int x) { return miss == 2 && (x + y) % 2 == 0 ? (double)MV : 0.7 + 0.1 * y + 0.2 * t + 0.3 * e; }); w.set("nv", [&](int t, int e, int y, int x) { return 7; }); NV(miss);
    run(w, s, o, "variables");
}
// single-member mode with a transform: only that the result is a valid precipitation amount
MC_HARNESS(transform) {
    World w(3, 3, 1, 1); Oi o; o.useEns = false; o.box = true; o.d = 50000; o.lambda = mc::pick({0.5, 0.3, 0.8, 1., 0.}); float ob = mc::pick({0.f, 2.f, (float)MV, 30.f}); int k = mc::choose(3); if(o.lambda == 0 && (k != 1 || ob == 0)) mc::skip(); w.set("v", [&](int t, int e, int y, int x) { return k == 0 ? 0 : k == 1 ? 4 : (y * 3 + x) * 1.5; }); Tab p; std::vector<Station> s{at(1.1, 1.05, 0, V{ob, 1})}; table(p, s); NV(ob); NV(k); Capture c; float thr = mc::pick({(float)MV, 0.5f});
    mc::check(w.run("oi", "v", o.str() + (valid(thr) ? mc::fmt("boxCoxThreshold=%g", thr) : ""), &p), "transform-rejected", "rejected"); w.others("transform", "v");
    double lo = INFINITY, hi = -INFINITY; for(int y = 0; y < 3; y++) for(int x = 0; x < 3; x++) { double g = w.got("v", 0, 0, y, x); lo = std::min(lo, g); hi = std::max(hi, g); mc::check(valid(g) && g >= -1e-5, "transform-range", mc::fmt("cell %d,%d got %g", y, x, g)); if(k == 0 && (ob == 0 || !valid(ob))) mc::check(std::fabs(g) < 1e-3, "transform-dry", mc::fmt("cell %d,%d got %g", y, x, g)); }
    // without a transform in effect (lambda = 1) the analysis stays between background and observation
    if(k == 1 && o.lambda == 1 && valid(ob)) mc::check(lo >= std::min(4.f, ob) - 1e-3 && hi <= std::max(4.f, ob) + 1e-3, "transform-linear", mc::fmt("%g to %g", lo, hi));
    if(k == 1 && valid(ob)) mc::check(ob > 4 ? hi > 4.1 && lo > 3.99 : lo < 3.9 || o.lambda < 1, "transform-direction", mc::fmt("%g to %g", lo, hi));
    if(k == 1 && !valid(ob)) mc::check(std::fabs(lo - 4) < 1e-3 && std::fabs(hi - 4) < 1e-3, "transform-unobserved", mc::fmt("%g to %g", lo, hi));
}
// one row: distances instead of grid steps
MC_HARNESS(row) {
    int n = mc::range(1, 2), ne = mc::range(1, 3); mc::budget(2); World w(1, 4, ne, 1); Oi o = options(mc::flip()); o.minEns = 2; std::vector<Station> s; for(int i = 0; i < n; i++) { int k = mc::choose(3); double x = k == 0 ? 0.1 : k == 1 ? 2.2 : 3.4; for(auto& a : s) if(std::fabs(a.lon - 10 - 0.2 * x) < 1e-4) mc::skip(); s.push_back(at(0.3 * i - 0.1, x, 5, V{mc::pick({3.f, -1.f}), 1})); }
    w.set("v", [&](int t, int e, int y, int x) { return BG[x % 6][e] + x; }); run(w, s, o, "row");
}
// a long column: which cells an observation reaches
MC_HARNESS(reach) {
    World w(9, 9, 1, 1); vec2 la = w.la, lo = w.lo; for(int y = 0; y < 9; y++) for(int x = 0; x < 9; x++) { la[y][x] = 0.1 * y; lo[y][x] = 0.1 * x; } w.la = la; w.lo = lo; w.f->setLats(la); w.f->setLons(lo); Oi o; o.useEns = false; o.d = mc::pick({2000., 4500., 7000., 9500.}); o.minRho = mc::pick({0.0013, 0.05, 0.0001}); int Y = mc::range(1, 7), X = mc::range(1, 7); w.set("v", [&](int t, int e, int y, int x) { return BG[(y * 5 + x) % 6][e] + y; });
    run(w, {Station{(float)(0.1 * Y + 0.001), (float)(0.1 * X - 0.002), 0, V{9, 1}}}, o, "reach");
}
// the list of stations that were left out because of their elevation (1) or because they are at sea (2)
MC_HARNESS(removed) {
    World w(4, 4, 1, 1); vec2 e = w.el, l = w.lf; for(int y = 0; y < 4; y++) for(int x = 0; x < 4; x++) { e[y][x] = 100 * y; l[y][x] = x == 1 ? 0 : 0.5f; } w.elevs(e); w.lafs(l); w.set("v", [](int t, int e, int y, int x) { return y + x + e; }); Oi o; o.useEns = false; o.land = mc::flip(); o.maxElev = mc::pick({200., 50.5, (double)MV}); int n = mc::range(1, 2); std::vector<Station> s; NV(n);
    for(int i = 0; i < n; i++) { int Y = mc::choose(4), X = mc::range(1, 2); float el = mc::pick({0.f, 50.f, 151.f, 400.f, (float)MV}), ob = mc::pick({3.f, (float)MV}); for(auto& a : s) if(std::fabs(a.lat - 60 - 0.1 * Y) < 0.02) mc::skip(); s.push_back(at(Y + 0.02 * i, X, el, V{ob, 1})); }
    Tab p; table(p, s); Capture c; std::string file = scratch() + "/removed.txt"; std::remove(file.c_str()); NOTE_(o.str() + show(s)); bool ok = w.run("oi", "v", o.str() + "diaFile=" + file, &p); mc::check(ok, "removed-rejected", c.str()); if(!ok) return; w.others("removed", "v");
    std::map<std::string, int> got, exp; std::ifstream in(file.c_str()); std::string line; while(std::getline(in, line)) got[line]++; std::remove(file.c_str());
    for(auto& a : s) { int Y = (int)std::round((a.lat - 60) / 0.1), X = (int)std::round((a.lon - 10) / 0.2); if(Y < 1 || Y > 2 || !valid(a.par[0])) continue; int k = valid(o.maxElev) && (!valid(a.elev) || std::fabs(a.elev - e[Y][X]) >= o.maxElev) ? 1 : o.land && l[Y][X] == 0 ? 2 : 0; std::stringstream q; q << a.lon << ";" << a.lat << ";" << k << ";"; if(k) exp[q.str()]++; }
    std::string list; for(auto& q : got) list += q.first + " "; mc::check(got == exp, "removed", "listed: " + list);
}
MC_HARNESS(options) {
    World w(4, 4, 2, 1); w.set("v", [](int t, int e, int y, int x) { return y + x + e; }); int k = mc::choose(4); NV(k); Tab p; std::vector<Station> s{at(1.1, 1.2, 0, k == 2 ? V{1, 1, 1, 1} : V{1, 1}), at(2.1, 1.8, 0, k == 2 ? V{2, 1, 1, 1} : V{2, 1})}; table(p, s); Capture c; bool ok = w.run("oi", "v", k == 0 ? "transform=log" : k == 1 ? "rhoType=cressman" : k == 3 ? "maxBytes=1" : "", &p); mc::check(!ok, "options", "accepted"); w.others("options", "");
}
namespace {
struct Kr {  double radius = 30000, efold = 30000, elev = MV; bool barnes = false, approx = true, cv = false; int op = 0; std::string aux; double lo = 0, hi = 0; int win = 0;
    std::string str() const { std::string s; if(radius != 30000) s += mc::fmt("radius=%g ", radius); if(efold != 30000) s += mc::fmt("efoldDist=%g ", efold); if(valid(elev)) s += mc::fmt("maxElevDiff=%g ", elev); if(barnes) s += "type=barnes "; if(!approx) s += "approxDist=0 "; if(cv) s += "crossValidate=1 "; static const char* O[] = {"", "operator=subtract ", "operator=multiply ", "operator=divide "}; s += O[op]; if(aux != "") s += "auxVariable=" + aux + mc::fmt(" range=%g,%g ", lo, hi); if(win) s += mc::fmt("window=%d", win); return s; }
    // NaN: too close to a limit to be judged
    double cov(double a, double b, double e, double c, double d, double f) const { if(!valid(a) || !valid(b) || !valid(e) || !valid(c) || !valid(d) || !valid(f)) return 0; double h = approx ? dist(a, b, c, d) : arc(a, b, c, d), v = std::fabs(e - f), l = barnes ? radius : std::min(radius, efold); if(std::fabs(h - l) < 5 + 1e-3 * l && h > 0) return NAN; if(h >= l || (valid(elev) && v >= elev)) return 0; double r = barnes ? exp(-h * h / 2 / efold / efold) : (efold * efold - h * h) / (efold * efold + h * h); if(valid(elev)) r *= barnes ? exp(-v * v / 2 / elev / elev) : (elev * elev - v * v) / (elev * elev + v * v); return r; } };
}
MC_HARNESS(kriging) {
    int n = mc::range(1, 3), ne = mc::range(1, 2), nt = 2; mc::budget(n < 3 || mc::thorough() ? 2 : 1); World w(3, 4, ne, nt); vec2 e = w.el; for(int y = 0; y < 3; y++) for(int x = 0; x < 4; x++) e[y][x] = 10 * y + 15 * (x % 3); int hole = mc::dev(2); if(hole == 1) e[1][1] = MV; w.elevs(e);
    Kr o; o.op = mc::choose(4); bool mul = o.op > 1; o.cv = mc::flip(); o.radius = mc::pickdev(std::vector<double>{30000, 14000, 100000}); o.efold = mc::pickdev(std::vector<double>{30000, 18000}); o.elev = mc::pickdev(std::vector<double>{MV, 40, 200}); o.barnes = mc::dev(2); o.approx = !mc::dev(2); if(mc::dev(2)) { o.aux = "a"; o.lo = mc::pick({0., 1.}); o.hi = mc::pick({1., 3.}); o.win = mc::choose(3); }
    bool tdep = mc::flip(); std::vector<Station> s; D2 bias(nt, VD(n, 0)); Tab p; std::vector<Location> loc; static const double KY[] = {0.1, 1.2, 1.9, 1.3}, KX[] = {0.2, 1.1, 2.7, 1.4};
    for(int i = 0; i < n; i++) { int k = mc::choose(4); for(auto& a : s) if(std::fabs(a.lat - 60 - 0.1 * KY[k]) < 1e-4) mc::skip(); float el = 20; if(mc::dev(2)) el = mc::pick({(float)MV, 55.f}); s.push_back(at(KY[k], KX[k], el, V{1})); float b = mul ? mc::pick({1.5f, 0.8f}) : mc::pick({2.f, -0.5f}); bool miss = mc::dev(2); for(int t = 0; t < (tdep ? nt : 1); t++) { float c = t ? (mul ? 2.1f - b : -b + 0.25f) : b; if(miss && t == 0) c = MV; p.setParameters(Parameters(V{c}), t, Location(s[i].lat, s[i].lon, s[i].elev)); bias[t][i] = c; } if(!tdep) bias[1][i] = bias[0][i]; } p.recomputeTree();
    int miss = mc::dev(3); w.set("v", [&](int t, int m, int y, int x) { if(miss == 1 && m == 0 && y == 1 && x == 1) return (double)MV; if(miss == 2 && t == 1 && m == ne - 1) return (double)NAN; return BG[(y * 4 + x) % 6][(m + t) % 5] + y + 1; }); w.set("a", [&](int t, int m, int y, int x) { return (t * 3 + m * 2 + y + x) % 5 == 4 ? (double)MV : (t * 2 + m + y * x) % 4; });
    NOTE_(o.str()); NOTE_(show(s)); NV(tdep); for(auto& b : bias) NOTE_(vs(b)); Capture c; bool ok = w.run("kriging", "v", o.str(), &p); mc::check(ok, "kriging-rejected", "rejected: " + c.str()); if(!ok) return; VD got;
    w.check("kriging", "v", [&](int t, int m, int y, int x) -> VD {
        double v = w.old("v", t, m, y, x); got.push_back(w.got("v", t, m, y, x)); if(!valid(v)) return {v};
        VD g(n); bool any = false, un = false; for(int i = 0; i < n; i++) { g[i] = o.cov(s[i].lat, s[i].lon, s[i].elev, w.la[y][x], w.lo[y][x], w.el[y][x]); un = un || std::isnan(g[i]); any = any || g[i] > 0; } if(un) return {}; if(!any) return {v};
        bool lost = false; for(int i = 0; i < n; i++) lost = lost || !valid(bias[t][i]);
        double wgt = 1; if(o.aux != "") { int k = 0, q = 0; for(int u = std::max(0, t - o.win); u <= std::min(nt - 1, t + o.win); u++) { double a = w.old("a", u, m, y, x); if(valid(a)) { k++; q += a >= o.lo && a <= o.hi; } } wgt = k ? (double)q / k : 1; }
        std::vector<std::vector<int> > sets; std::vector<int> all; for(int i = 0; i < n; i++) all.push_back(i);
        if(o.cv) { double mx = 0; for(double q : g) mx = std::max(mx, q); for(int i = 0; i < n; i++) if(g[i] > mx - 1e-5) { std::vector<int> a; for(int j : all) if(j != i) a.push_back(j); sets.push_back(a); } } else sets.push_back(all);
        VD out; if(lost) out.push_back(v);
        for(auto& q : sets) { // with a missing bias: nothing is corrected, or the station is not used
            std::vector<int> a; for(int i : q) if(valid(bias[t][i])) a.push_back(i); int k = a.size(); la::Mat M(k, VD(k)); VD r(k), wt; for(int i = 0; i < k; i++) { r[i] = g[a[i]]; for(int j = 0; j < k; j++) { const Station &f = s[a[i]], &h = s[a[j]]; M[i][j] = i == j ? 1 : 0.828 * o.cov(f.lat, f.lon, f.elev, h.lat, h.lon, h.elev); if(std::isnan(M[i][j])) return {}; } }
            double z = 0; if(k) { if(!la::solve(M, r, wt)) return {}; for(int i = 0; i < k; i++) z += wt[i] * (bias[t][a[i]] - mul); }
            if(mul) { if(1 + z <= 0.05) return {}; z = pow(1 + z, wgt); } else z *= wgt;
            out.push_back(o.op == 0 ? v + z : o.op == 1 ? v - z : o.op == 2 ? v * z : v / z);
        }
        return out; }, 1e-3);
    mc::outcome_of(got);
}
MC_HARNESS(krigingoptions) {
    World w(2, 2, 1, 1); w.set("v", [](int t, int e, int y, int x) { return y + x + e; }); static const char* O[] = {"radius=-1", "efoldDist=-1", "maxElevDiff=-1", "type=oi", "operator=plus", "auxVariable=other", "auxVariable=other range=1", "auxVariable=other range=2,1"}; int k = mc::choose(9); NV(k); Tab p; if(k == 8) p.setParameters(Parameters(V{1}), 0); else { std::vector<Station> s{at(0.1, 0.2, 0, V{1}), at(1, 1, 0, V{1})}; table(p, s); } Capture c; mc::check(!w.run("kriging", "v", k == 8 ? "" : O[k], &p), "krigingoptions", "accepted"); w.others("krigingoptions", "");
}
MC_MAIN
