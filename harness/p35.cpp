// P35: training. The parameters a calibrator learns from pairs of observations and ensembles are compared with their definition for all
// small data sets over an alphabet with missing values (least squares, sorted pairs, mean bias) and, for maximum likelihood, with the
// likelihood reached by an independent optimisation of the same distribution.
#include "cal.h"
#include "la.h"
#include "Grid.h"
using namespace cal;
namespace {
typedef std::vector<float> V;
typedef std::vector<ObsEns> Data;
double mean(const V& e) { double s = 0; int n = 0; for(float x : e) if(valid(x)) { s += x; n++; } return n ? s / n : (double)MV; }
std::string show(const Data& d) { std::string s; for(auto& p : d) { s += mc::fmt(" (%g:", p.first); for(float x : p.second) s += mc::fmt(" %g", x); s += ")"; } return s; }
// trains; false if the client reported an error
bool train(const std::string& scheme, const std::string& options, const Data& d, V& out) {
    quiet(); mc::site(("train " + scheme).c_str()); mc::op(); out.clear();
    return !rejected([&]() { std::unique_ptr<Calibrator> c(Calibrator::getScheme(scheme, Variable("t"), Options(options))); Parameters p = c->train(d); for(int i = 0; i < p.size(); i++) out.push_back(p[i]); });
}
struct Pairs { VD o, f; };
Pairs pairs(const Data& d) { Pairs p; for(auto& q : d) { double m = mean(q.second); if(valid(q.first) && valid(m)) { p.o.push_back(q.first); p.f.push_back(m); } } return p; }
Data choose(int N) { static const V E[] = {{1}, {3}, {2, 6}, {MV}, {MV, 2}, {-1, NAN}, {0, 0}}; static const float O[] = {0, 2, -3, MV, 5}; Data d; for(int i = 0; i < N; i++) { float o = O[mc::choose(5)]; d.push_back(ObsEns(o, E[mc::choose(7)])); } return d; }
void regressionCheck(const std::string& tag, const Data& d, int order, bool intercept, double tol) {
    V got; bool ok = train("regression", mc::fmt("order=%d intercept=%d", order, (int)intercept), d, got); Pairs p = pairs(d); int n = p.o.size(); mc::outcome_of(got);
    if(order > 1) { mc::check(!ok, tag + "-order", "an order that cannot be trained was accepted"); return; }
    if(n == 0) { mc::check(!ok, tag + "-empty", "no valid data but trained"); return; }
    double so = 0, sf = 0; for(int i = 0; i < n; i++) { so += p.o[i]; sf += p.f[i]; } so /= n; sf /= n;
    if(order == 0) { mc::check(ok && got.size() == 1 && fabs(got[0] - so) <= tol * std::max(1., fabs(so)), tag + "-mean", mc::fmt("want %g got %s", so, ok && got.size() ? mc::fmt("%g", got[0]).c_str() : "nothing")); return; }
    double a = 0, b, sxx = 0, sxy = 0; double x0 = intercept ? sf : 0, y0 = intercept ? so : 0; for(int i = 0; i < n; i++) { sxx += (p.f[i] - x0) * (p.f[i] - x0); sxy += (p.f[i] - x0) * (p.o[i] - y0); }
    if(sxx < 1e-9) return;   // no unique solution
    b = sxy / sxx; if(intercept) a = so - b * sf; mc::check(ok && got.size() == 2, tag, "not trained"); if(!ok || got.size() != 2) return;
    if(!intercept) mc::check(got[0] == 0, tag + "-intercept", mc::fmt("intercept %g", got[0]));
    // single precision sums lose at most this much (known finding); anything beyond it is wrong for another reason
    double u = (n / 2. + 4) * 1.2e-7, v = sxx / n, db = intercept ? u * (fabs(so * sf) + fabs(b) * (sf * sf + v)) / v : 0; bool lost = false;
    if(intercept && fabs(sf) > 100) { for(double x : p.f) lost = lost || !(fabs(got[0] + got[1] * x - (a + b * x)) <= tol * std::max(std::max(1., fabs(sf)), fabs(a + b * x))); lost = lost || !(fabs(got[1] - b) <= 100 * tol * std::max(1., fabs(b))); lost = lost && (u * sf * sf > 0.3 * v || (fabs(got[1] - b) <= db && fabs(got[0] + got[1] * sf - so) <= u * (fabs(so) + fabs(got[1] * sf)) + tol)); }
    if(lost) { mc::fail(tag + "-cancellation", mc::fmt("mean %g spread %g: want %g + %g x, got %g + %g x", sf, sqrt(v), a, b, got[0], got[1])); return; }
    // what counts are the corrected forecasts
    for(double x : p.f) mc::check(fabs(got[0] + got[1] * x - (a + b * x)) <= tol * std::max(std::max(1., fabs(sf)), fabs(a + b * x)), tag, mc::fmt("forecast %g: want %g (%g + %g x), got %g (%g + %g x)", x, a + b * x, a, b, got[0] + got[1] * x, got[0], got[1])); mc::check(fabs(got[1] - b) <= 100 * tol * std::max(1., fabs(b)), tag + "-slope", mc::fmt("want %g got %g", b, got[1]));
}
}
MC_HARNESS(regression) { Data d = choose(mc::range(0, mc::thorough() ? 4 : 3)); int k = mc::choose(4); NOTE_(show(d)); NV(k); regressionCheck("regression", d, k == 3 ? 2 : k == 2 ? 0 : 1, k != 1, 1e-4); }
MC_HARNESS(regression_long) {
    // temperatures in Kelvin: the differences between the pairs are small compared with the values
    int N = mc::pick({5, 40, 400}); double off = mc::pick({0., 273.15, 101325.}), amp = mc::pick({1., 10.}); int pat = mc::choose(3), k = mc::choose(3); mc::budget(2); Data d; for(int i = 0; i < N; i++) { double f = off + amp * ((i * 7) % 13) / 13., o = off + amp * (pat == 0 ? ((i * 7) % 13) / 13. : pat == 1 ? ((i * 5) % 11) / 11. : -0.5 * ((i * 7) % 13) / 13.); d.push_back(ObsEns(o, V{(float)f, (float)(f + 0.5)})); }
    for(int j = 0; j < 3; j++) { int w = mc::dev(5), i = j == 0 ? 0 : j == 1 ? N / 2 : N - 1; if(w == 1) d[i].first = MV; if(w == 2) d[i].second[0] = MV; if(w == 3) d[i].second = V{MV, MV}; if(w == 4) d[i].first += 5; }
    NV(N); NV(off); NV(amp); NV(pat); NV(k); regressionCheck("long", d, k == 2 ? 0 : 1, k == 0, std::max(off > 1000 ? 1e-5 : 2e-5, N * 6e-8));
}
MC_HARNESS(qq) {
    Data d = choose(mc::range(0, mc::thorough() ? 4 : 3)); int q = mc::choose(6), x = mc::choose(3); static const char* Q[] = {"", " quantiles=0,1", " quantiles=0.5", " quantiles=0,0.25,0.5,1", " quantiles=0.1,0.9", " quantiles=1"}; static const VD QV[] = {{}, {0, 1}, {0.5}, {0, 0.25, 0.5, 1}, {0.1, 0.9}, {1}}; static const char* X[] = {"", " extraObs=10 extraFcst=-2", " extraObs=0.5,-7 extraFcst=20,1"}; static const VD XO[] = {{}, {10}, {0.5, -7}}, XF[] = {{}, {-2}, {20, 1}};
    NOTE_(show(d)); NOTE_(std::string(Q[q]) + X[x]); V got; bool ok = train("qq", std::string(Q[q]).substr(q ? 1 : 0) + X[x], d, got); mc::outcome_of(got); Pairs p = pairs(d); mc::check(ok, "qq-rejected", "not trained"); if(!ok) return; int n = p.o.size(); std::sort(p.o.begin(), p.o.end()); std::sort(p.f.begin(), p.f.end()); VD o = p.o, f = p.f;
    auto at = [&](const VD& v, double t) { double z = t * (n - 1); int i = std::min((int)z, n - 1), j = std::min(i + 1, n - 1); return v[i] + (z - i) * (v[j] - v[i]); };
    if(q && n > 0) { o.clear(); f.clear(); for(double t : QV[q]) { o.push_back(at(p.o, t)); f.push_back(at(p.f, t)); } } for(double v : XO[x]) o.push_back(v); for(double v : XF[x]) f.push_back(v); if(x) { std::sort(o.begin(), o.end()); std::sort(f.begin(), f.end()); }
    mc::check(got.size() == 2 * o.size(), "qq-size", mc::fmt("want %d points got %d values", (int)o.size(), (int)got.size())); if(got.size() != 2 * o.size()) return;
    for(size_t i = 0; i < o.size(); i++) mc::check(near(o[i], got[2 * i]) && near(f[i], got[2 * i + 1]), "qq", mc::fmt("point %d: want %g %g got %g %g", (int)i, o[i], f[i], got[2 * i], got[2 * i + 1]));
}
MC_HARNESS(kriging) {
    Data d = choose(mc::range(0, mc::thorough() ? 4 : 3)); double off = mc::pick({0., 280.}); if(off) for(auto& q : d) { if(valid(q.first)) q.first += off; for(float& x : q.second) if(valid(x)) x += off; } int k = mc::choose(5); static const char* OP[] = {"", " operator=add", " operator=subtract", " operator=multiply", " operator=divide"}; NOTE_(show(d)); NV(k); V got; bool ok = train("kriging", std::string("type=cressman") + OP[k], d, got); mc::outcome_of(got); mc::check(ok && got.size() == 1, "kriging-size", "not trained"); if(!ok || got.size() != 1) return;
    Pairs p = pairs(d); double so = 0, sf = 0; int n = p.o.size(); for(double x : p.o) so += x; for(double x : p.f) sf += x; if(n == 0) { mc::check(got[0] == (k >= 3 ? 1 : 0), "kriging-none", mc::fmt("no correction expected, got %g", got[0])); return; }
    if(k == 3 && fabs(sf) < 1e-6) return; if(k == 4 && fabs(so) < 1e-6) return; double w = k <= 1 ? (so - sf) / n : k == 2 ? (sf - so) / n : k == 3 ? so / sf : sf / so; mc::check(near(w, got[0], 1e-4), "kriging", mc::fmt("want %g got %g", w, got[0]));
}
MC_HARNESS(kriging_long) {
    int N = mc::pick({10, 300, 3000}); double off = mc::pick({0., 273.15, 101325.}); int k = mc::choose(4); static const char* OP[] = {"add", "subtract", "multiply", "divide"}; Data d; double so = 0, sf = 0; for(int i = 0; i < N; i++) { float o = off + 1.5 + 0.1 * (i % 7), f = off + 1 + 0.3 * (i % 5); if(mc::thorough() || i % 3) d.push_back(ObsEns(o, V{f, f})), so += o, sf += f; } int n = d.size();
    NV(N); NV(off); NV(k); V got; bool ok = train("kriging", std::string("operator=") + OP[k], d, got); mc::check(ok && got.size() == 1, "kriging-long-size", ""); if(!ok || got.size() != 1) return; double w = k == 0 ? (so - sf) / n : k == 1 ? (sf - so) / n : k == 2 ? so / sf : sf / so; mc::check(fabs(w - got[0]) <= (k < 2 ? 1e-3 + 1e-7 * off : 1e-5 * fabs(w)), "kriging-long", mc::fmt("want %.9g got %.9g", w, got[0]));
}
// training at one station of a grid: the pair consists of the station's observation and the ensemble of the forecast cell
MC_HARNESS(cell) {
    int oy = mc::range(1, 2), ox = mc::range(1, 2), fy = mc::range(1, 2), fx = mc::range(1, 3), N = mc::range(1, 3); int io = mc::choose(oy), jo = mc::choose(ox), ie = mc::choose(fy), je = mc::choose(fx); std::string scheme = mc::pick(std::vector<std::string>{"regression", "qq", "kriging"}); mc::budget(2); quiet(); std::vector<ObsEnsField> fd; Data d; Grid og, eg;
    for(int i = 0; i < N; i++) { FieldPtr o(new Field(oy, ox, 1)), f(new Field(fy, fx, 2)); for(int y = 0; y < oy; y++) for(int x = 0; x < ox; x++) (*o)(y, x, 0) = i * 3 - 2 * y + x + (i == 1 ? 2 : 0); for(int y = 0; y < fy; y++) for(int x = 0; x < fx; x++) for(int e = 0; e < 2; e++) (*f)(y, x, e) = i * i + 4 * y - x + e; if(mc::dev(2)) (*o)(io, jo, 0) = MV; if(mc::dev(2)) (*f)(ie, je, 0) = MV; if(mc::dev(2)) (*f)(ie, je, 1) = MV; fd.push_back(ObsEnsField(o, f)); d.push_back(ObsEns((*o)(io, jo, 0), V{(*f)(ie, je, 0), (*f)(ie, je, 1)})); }
    NOTE_(scheme); NOTE_(show(d)); V want, got; bool w = train(scheme, "", d, want), g = !rejected([&]() { std::unique_ptr<Calibrator> c(Calibrator::getScheme(scheme, Variable("t"), Options(""))); Parameters p = c->train(fd, og, eg, io, jo, ie, je); for(int i = 0; i < p.size(); i++) got.push_back(p[i]); }); mc::check(w == g && want.size() == got.size(), "cell-accepted", mc::fmt("want %d got %d", w, g)); if(!w || !g || want.size() != got.size()) return; for(size_t i = 0; i < want.size(); i++) mc::check(want[i] == got[i] || (!valid(want[i]) && !valid(got[i])), "cell", mc::fmt("parameter %d: want %g got %g", (int)i, want[i], got[i]));
}
MC_HARNESS(coastal) {
    int ny = mc::range(1, 2), nx = mc::range(2, 4), N = mc::range(2, 4), r = mc::pick({0, 1, 3}); double minDiff = mc::pick({0.1, 0.5}); bool nn = mc::flip(); int ie = mc::choose(ny), je = mc::choose(nx), pat = mc::choose(3); mc::budget(mc::thorough() ? 3 : 2); quiet();
    vec2 lf(ny, V(nx)); for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { lf[y][x] = pat == 0 ? (x % 2 ? 1.f : 0.f) : pat == 1 ? 0.2f + 0.15f * x + 0.05f * y : 0.9f - 0.3f * x - 0.02f * y; lf[y][x] = mc::pickdev(V{lf[y][x], MV, 0.5f}); } Grid og, eg; eg.landFractions(lf); og.landFractions(vec2(1, V(1, 0.7f)));
    std::vector<ObsEnsField> fd; for(int i = 0; i < N; i++) { FieldPtr o(new Field(1, 1, 1)), f(new Field(ny, nx, 2)); (*o)(0, 0, 0) = mc::pickdev(V{(float)(280 + (i * 3) % 5), MV}); for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { int w = mc::dev(3); for(int e = 0; e < 2; e++) (*f)(y, x, e) = (w == 1 || (w == 2 && e == 0)) ? MV : 279 + (i * i * 2 + x * (i + 1) * 3 + y * 5) % 7 + 0.5f * e; } fd.push_back(ObsEnsField(o, f)); }
    NV(lf); NV(ie); NV(je); NV(r); NV(nn); NV(minDiff); V got; mc::site("train coastal"); mc::op(); bool ok = !rejected([&]() { std::unique_ptr<Calibrator> c(Calibrator::getScheme("coastal", Variable("t"), Options(mc::fmt("searchRadius=%d minLafDiff=%g useNN=%d", r, minDiff, (int)nn)))); Parameters p = c->train(fd, og, eg, 0, 0, ie, je); for(int i = 0; i < p.size(); i++) got.push_back(p[i]); }); mc::outcome_of(got);
    // lowest and highest land fraction of the neighbourhood
    double lo = 1e9, hi = -1e9; std::vector<std::pair<int, int> > mi, ma; for(int y = std::max(0, ie - r); y <= std::min(ny - 1, ie + r); y++) for(int x = std::max(0, je - r); x <= std::min(nx - 1, je + r); x++) { double l = lf[y][x]; if(!valid(l)) continue; if(l < lo) { lo = l; mi.clear(); } if(l == lo) mi.push_back({y, x}); if(l > hi) { hi = l; ma.clear(); } if(l == hi) ma.push_back({y, x}); }
    bool none = mi.empty(), range = !none && hi - lo > minDiff; if(!none && fabs(hi - lo - minDiff) < 1e-5) return; bool some = false, match = false, singular = false, empty = false; if(none && nn) { mi.push_back({ie, je}); ma = mi; } else if(none) empty = true; std::string wants;
    for(auto& m : mi) for(auto& M : ma) {
        VD y, g; for(auto& q : fd) { auto st = [&](std::pair<int, int> c) { return mean((*q.second)(c.first, c.second)); }; double o = (*q.first)(0, 0, 0), vn = st({ie, je}), vl = st(m), vh = st(M); double base = nn ? vn : vl; if(!valid(o) || !valid(base) || !valid(vn)) continue; double gr = range && valid(vl) && valid(vh) ? (vh - vl) / (hi - lo) : 0; y.push_back(o - base); g.push_back(gr); }
        int n = y.size(); if(n == 0) { empty = true; continue; } double my = 0, mg = 0; for(int i = 0; i < n; i++) my += y[i], mg += g[i]; my /= n; mg /= n; double a = my, c = 0; if(range) { double sxx = 0, sxy = 0; for(int i = 0; i < n; i++) { sxx += (g[i] - mg) * (g[i] - mg); sxy += (g[i] - mg) * (y[i] - my); } if(n < 2 || sxx < 1e-3) { singular = true; continue; } c = sxy / sxx; a = my - c * mg; }
        some = true; wants += mc::fmt(" [%g 1 %g]", a, c); if(ok && got.size() == 3 && near(a, got[0], 2e-3) && got[1] == 1 && near(c, got[2], 2e-3)) match = true;
    }
    if(singular) return; if(!some) { mc::check(!ok, "coastal-empty", "trained without valid data"); return; } if(empty && !ok) return;
    mc::check(ok && got.size() == 3, "coastal-rejected", "not trained"); if(ok) mc::check(match, "coastal", "want" + wants + mc::fmt(" got [%g %g %g]", got[0], got[1], got[2]));
}
// maximum likelihood: sigma = exp(a + b spread); the negative log likelihood is convex in a and b
MC_HARNESS(gaussian) {
    int N = mc::pick({3, 6, 12}); static const float R[] = {0.5f, -1, 2, -0.3f, 1.2f}; int s1 = mc::choose(5), s2 = mc::choose(5), s3 = mc::range(0, 2); double off = mc::pick({3., 280.}); mc::budget(2); Data d; for(int i = 0; i < N; i++) { float h = 0.2f + 0.4f * (i % (s3 + 2)), m = off + (i * 7) % 5; V e = {m - h, m + h}; float o = m + R[(s1 + i * (s2 + 1) + (i / 5)) % 5] * (1 + 0.3f * (i % 3)); if(i < 3) { int w = mc::dev(4); if(w == 1) o = MV; if(w == 2) e = V{MV, MV}; if(w == 3) e = V{m - h, MV, m + h}; } d.push_back(ObsEns(o, e)); } NOTE_(show(d));
    V got; bool ok = train("gaussian", "", d, got); mc::outcome_of(got); mc::check(ok && got.size() == 2, "gaussian-size", "not trained"); if(!ok || got.size() != 2) return; mc::check(std::isfinite(got[0]) && std::isfinite(got[1]), "gaussian-finite", mc::fmt("%g %g", got[0], got[1]));
    VD rs, sp; for(auto& q : d) { double m = mean(q.second); if(!valid(q.first) || !valid(m)) continue; double v = 0; int n = 0; for(float x : q.second) if(valid(x)) { v += (x - m) * (x - m); n++; } rs.push_back(q.first - m); sp.push_back(sqrt(v / n)); } int n = rs.size(); if(n < 2) return;
    auto nll = [&](double a, double b) { double t = 0; for(int i = 0; i < n; i++) { double l = a + b * sp[i], z = rs[i] * exp(-l); t += l + 0.5 * z * z + 0.9189385; } return t; };
    double a = 0, b = 0; bool same = true; for(double x : sp) same = same && fabs(x - sp[0]) < 1e-4; for(int it = 0; it < 200; it++) { double ga = 0, gb = 0, aa = 0, ab = 0, bb = 0; for(int i = 0; i < n; i++) { double z2 = rs[i] * rs[i] * exp(-2 * (a + b * sp[i])); ga += 1 - z2; gb += sp[i] * (1 - z2); aa += 2 * z2; ab += 2 * z2 * sp[i]; bb += 2 * z2 * sp[i] * sp[i]; } if(same) { ab = 0; gb = 0; bb = 1; } double det = aa * bb - ab * ab; if(det <= 1e-12) break; double da = -(ga * bb - gb * ab) / det, db = -(gb * aa - ga * ab) / det, st = 1; while(st > 1e-9 && nll(a + st * da, b + st * db) > nll(a, b)) st /= 2; a += st * da; b += st * db; if(fabs(da) + fabs(db) < 1e-10) break; }
    if(fabs(a) > 10 || fabs(b) > 20) return; mc::check(nll(got[0], got[1]) <= nll(a, b) + 0.01, "gaussian", mc::fmt("log likelihood %g with [%g %g], but %g with [%g %g]", -nll(got[0], got[1]), got[0], got[1], -nll(a, b), a, b));
}
namespace {
struct Z { double m, f, o; };
double logit0(const VD& p, const Z& z) { return p[4] + p[5] * z.m + p[6] * z.f + p[7] * cbrt(z.m); }
double zagaNll(const VD& p, const std::vector<Z>& d) {
    double t = 0; for(auto& z : d) { double l = logit0(p, z); if(z.o == 0) t += l > 0 ? log1p(exp(-l)) : -l + log1p(exp(l)); else { double mu = p[0] + p[1] * cbrt(z.m), sg = p[2] + p[3] * z.m, k = exp(-2 * sg), th = exp(2 * sg + mu); t += (l > 0 ? l + log1p(exp(-l)) : log1p(exp(l))) - ((k - 1) * log(z.o) - z.o / th - std::lgamma(k) - k * log(th)); } } return t;
}
}
MC_HARNESS(zaga) {
    // groups of ensembles with the same mean but different fractions of dry members
    static const V E[] = {{0, 0, 3}, {0.6f, 1.2f, 1.2f}, {0, 1.5f, 1.5f}, {2, 6, 1}, {0, 0, 0}}; int g1 = mc::choose(5), g2 = mc::choose(5), rep = mc::thorough() ? mc::pick({2, 4}) : 2, z1 = mc::range(0, 4), z2 = mc::range(0, 4); if(g2 <= g1) mc::skip(); mc::budget(2); static const float P[] = {0.7f, 2, 1.1f, 4}; double th = mc::pickdev(VD{0.5, 1.3}); Data d; for(int i = 0; i < 4 * rep; i++) { float o1 = i % 4 < z1 ? 0 : P[(i / 4 + i) % 4], o2 = i % 4 < z2 ? 0 : P[(i / 4 + 2 * i + 1) % 4]; d.push_back(ObsEns(o1, E[g1])); d.push_back(ObsEns(o2, E[g2])); }
    int w = mc::dev(6); if(w == 1) d[0].first = MV; if(w == 2) d[1].second = V{MV, MV, MV}; if(w == 3) d[2].second.push_back(MV); if(w == 4) d.push_back(ObsEns(-1, V{1, 2})); if(w == 5) d.push_back(ObsEns(1, V{MV, NAN})); NOTE_(show(d)); NV(th);
    V got; bool ok = train("zaga", mc::fmt("fracThreshold=%g", th), d, got); mc::outcome_of(got); mc::check(ok && got.size() == 8, "zaga-size", "not trained"); if(!ok || got.size() != 8) return; for(float x : got) mc::check(std::isfinite(x), "zaga-finite", mc::fmt("%g", x));
    std::vector<Z> zs; for(auto& q : d) { double m = mean(q.second); if(!valid(q.first) || !valid(m) || q.first < 0 || m < 0) continue; int n = 0, s = 0; for(float x : q.second) if(valid(x)) { n++; s += x <= (float)th; } zs.push_back({m, s / (double)n, q.first}); }
    VD p(got.begin(), got.end()), i0(8, 0.1); double a = zagaNll(p, zs), b = zagaNll(i0, zs); mc::check(a <= b + 0.01, "zaga-initial", mc::fmt("log likelihood %g, %g with the initial parameters", -a, -b));
    // the probability of no precipitation: at best each group's frequency
    auto dry = [&](const VD& q) { double t = 0; for(auto& z : zs) { double l = logit0(q, z); if(z.o != 0) l = -l; t += l > 0 ? log1p(exp(-l)) : -l + log1p(exp(l)); } return t; }; std::map<std::pair<double, double>, std::pair<int, int> > c; for(auto& z : zs) { auto& x = c[{z.m, z.f}]; x.second++; x.first += z.o == 0; } double best = 0; for(auto& x : c) { double n = x.second.second, k = x.second.first; if(k > 0) best -= k * log(k / n); if(k < n) best -= (n - k) * log(1 - k / n); }
    if(c.size() <= 2) mc::check(dry(p) <= best + 0.05 * zs.size(), "zaga-dry", mc::fmt("dry part of the negative log likelihood %g, best %g (%d pairs)", dry(p), best, (int)zs.size()));
    // the amounts: with at most two different means each mean has its own gamma distribution, whose best scale is mean / shape
    std::map<double, VD> am; for(auto& z : zs) if(z.o > 0) am[z.m].push_back(z.o); if(am.size() > 2) return; double low = 0, have = a - dry(p); int na = 0; for(auto& x : am) { double s = 0, l = 0; int n = x.second.size(); for(double o : x.second) { s += o; l += log(o); } s /= n; l /= n; if(n < 2 || log(s) - l < 0.02) return; double b1 = INFINITY; for(double k = 0.05; k < 100; k *= 1.01) b1 = std::min(b1, -n * ((k - 1) * l - k - std::lgamma(k) - k * log(s / k))); low += b1; na += n; }
    mc::check(have <= low + 0.05 * na + 0.05, "zaga-amount", mc::fmt("amount part of the negative log likelihood %g, best %g (%d pairs)", have, low, na));
}
MC_MAIN
