// P32: date, text and numeric helpers of the command-line tool against independent definitions, over all dates and over
// all small inputs.
#include "cl.h"
#include "nc.h"
#include <sys/stat.h>
using namespace cl;
namespace {
typedef std::vector<float> V; typedef std::vector<double> VD; typedef std::vector<std::string> VS;
std::string vs(const V& v) { std::string s = "["; for(float x : v) s += mc::fmt(" %g", x); return s + " ]"; }
std::string vs(const VS& v) { std::string s = "["; for(auto& x : v) s += " '" + x + "'"; return s + " ]"; }
// rejected by any exception (the program ends with a failure)
template<class F> bool refuses(F f) { try { f(); } catch(const std::exception&) { return true; } return false; }
bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
bool same(float a, float b) { return (!valid(a) && !valid(b)) || a == b; }
// calendar
bool leap(int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
int mdays(int y, int m) { static const int D[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : D[m - 1]; }
long jan1(int y) { long d = 0; if(y >= 1970) for(int i = 1970; i < y; i++) d += 365 + leap(i); else for(int i = y; i < 1970; i++) d -= 365 + leap(i); return d; }
std::vector<std::pair<long, int> > year(int y) { std::vector<std::pair<long, int> > r; long d = jan1(y); for(int m = 1; m <= 12; m++) for(int k = 1; k <= mdays(y, m); k++) r.push_back({d++, y * 10000 + m * 100 + k}); return r; }
int hms(long s) { return (int)(s / 3600 * 10000 + s / 60 % 60 * 100 + s % 60); }
void instant(long day, int date, long s) {
    long t = day * 86400 + s; mc::op(); int d = Util::getDate(t), h = Util::getTime(t); long u = Util::getUnixTime(date, hms(s)); std::string at = mc::fmt("%d %06d is second %ld: getDate %d getTime %d getUnixTime %ld", date, hms(s), t, d, h, u);
    mc::check(d == date, "date", at); mc::check(h == hms(s), "time", at); mc::check(u == t, "unixtime", at);
}
// all lists up to a length over an alphabet
V list(int lo, int hi, const V& a) { int n = mc::range(lo, hi); V v(n); for(auto& x : v) { x = a[mc::choose(a.size())]; NV(x); } return v; }
}
// every day of every year
MC_HARNESS(days) {
    int y = mc::range(mc::thorough() ? 1401 : 1601, mc::thorough() ? 9998 : 2600); NV(y); mc::site("days");
    for(auto& d : year(y)) for(long s : {0L, 59L, 60L, 3599L, 3600L, 43200L, 86399L}) instant(d.first, d.second, s);
}
// every second of particular days
MC_HARNESS(seconds) {
    static const int D[] = {19700101, 19691231, 20000229, 19000228, 21000301, 20121231, 19680229, 20380119, 19011213, 22621231}; int date = D[mc::choose(10)], hour = mc::choose(24); NV(date); NV(hour); mc::site("seconds");
    for(auto& d : year(date / 10000)) if(d.second == date) for(long s = hour * 3600; s < hour * 3600 + 3600; s++) instant(d.first, date, s);
}
// date arithmetic, negative times
MC_HARNESS(arithmetic) {
    int y = mc::pick(mc::thorough() ? std::vector<int>{1600, 1700, 1899, 1900, 1969, 1970, 1999, 2000, 2011, 2012, 2100, 2400, 2999} : std::vector<int>{1900, 1969, 2000, 2012, 2013}), m = mc::range(1, 12); NV(y); NV(m); mc::site("calcDate"); std::vector<std::pair<long, int> > all; for(int i = y - 2; i <= y + 2; i++) for(auto& d : year(i)) all.push_back(d); std::map<long, int> of(all.begin(), all.end());
    for(auto& d : year(y)) if(d.second / 100 % 100 == m) {
        for(int q = -2 * 24 * 2; q <= 2 * 24 * 2; q++) { float h = q / 2.0f; mc::op(); int g = Util::calcDate(d.second, h), w = of[d.first + (long)std::floor(h / 24)]; mc::check(g == w, "calcDate", mc::fmt("%d and %g hours: want %d got %d", d.second, h, w, g)); }
        for(int k = -400; k <= 400; k += 7) { mc::op(); int g = Util::calcDate(d.second, k * 24), w = of[d.first + k]; mc::check(g == w, "calcDate", mc::fmt("%d and %d days: want %d got %d", d.second, k, w, g)); }
        for(long s : {1L, 60L, 3661L, 86399L, 90000L, 356399L}) { mc::op(); long u = Util::getUnixTime(d.second, -hms(s)); mc::check(u == d.first * 86400 - s, "unixtime-negative", mc::fmt("%d minus %d: want %ld got %ld", d.second, hms(s), d.first * 86400 - s, u)); }
    }
    for(int k = mdays(y, m) + 1; k <= 40; k++) { mc::op(); int date = y * 10000 + m * 100 + k; mc::check(refuses([&]() { Util::getUnixTime(date, 0); }), "bad-day", mc::fmt("%d accepted", date)); mc::check(refuses([&]() { Util::calcDate(date, 0); }), "bad-day", mc::fmt("%d accepted", date)); }
    long a = time(NULL); std::string s = Util::getCurrentTimeStamp(); int d = Util::getCurrentDate(), h = Util::getCurrentTime(); long b = Util::getCurrentUnixTime(); double c = Util::clock(); long e = time(NULL); bool okd = false, okh = false, oks = false;
    for(long t = a - 1; t <= e + 1; t++) { struct tm g; gmtime_r(&t, &g); char x[40]; strftime(x, sizeof(x), "%Y-%m-%d %H:%M:%S", &g); oks = oks || s == x; strftime(x, sizeof(x), "%Y%m%d", &g); okd = okd || d == atoi(x); okh = okh || h == hms((g.tm_hour * 60 + g.tm_min) * 60 + g.tm_sec); }
    mc::check(okd && okh && oks && b >= a - 1 && b <= e + 1 && c >= a - 1 && c < e + 2, "now", mc::fmt("%s %d %d %ld %f between %ld and %ld", s.c_str(), d, h, b, c, a, e));
}
// splitting and searching text
MC_HARNESS(split) {
    static const char A[] = {'a', ' ', ',', 'b', '\t'}; int n = mc::range(0, mc::thorough() ? 8 : 6); std::string s; for(int i = 0; i < n; i++) s += A[mc::choose(5)]; static const char* D[] = {" ", ",", " ,", ";", "", ",\t "}; std::string d = D[mc::choose(6)]; NOTE_("'" + s + "' by '" + d + "'"); mc::site("split");
    VS w; std::string c; for(char x : s + '\0') { if(x == 0 || d.find(x) != std::string::npos) { if(!c.empty()) w.push_back(c); c = ""; } else c += x; } mc::op(); VS g = Util::split(s, d); mc::check(g == w, "split", "want " + vs(w) + " got " + vs(g)); if(d == " ") mc::check(Util::split(s) == w, "split-default", "want " + vs(w));
    for(char x : A) { bool h = false; for(char y : s) h = h || x == y; mc::check(Util::hasChar(s, x) == h, "hasChar", std::string(1, x)); }
}
// laid out descriptions: title, then the words of the message within the width
MC_HARNESS(description) {
    int nw = mc::range(0, mc::thorough() ? 6 : 5), tl = mc::pick({0, 1, 4, 9, 10, 11, 14}), ind = mc::pick({0, 2, 3}), L = mc::pick({10, 12}), M = L + mc::pick({0, 1, 3, 4, 8, 12}) - (mc::flip() ? L - 5 : 0); std::string title(tl, 'T'), msg; VS words; int max = 0; for(int i = 0; i < nw; i++) { int l = mc::pick({1, 2, 4, 7}); words.push_back(std::string(l, 'a' + i)); msg += (i ? " " : "") + words.back(); max = std::max(max, l); } if(nw && mc::flip()) msg += "  "; NV(tl); NV(ind); NV(L); NV(M); NOTE_("'" + msg + "'"); mc::site("description"); mc::op(); std::string g = Util::formatDescription(title, msg, L, M, ind);
    if(L >= M) { mc::check(g == title + " " + msg, "description-narrow", g); return; }
    std::string at = "got '" + g + "'"; VS want; if(tl) want.push_back(title); want.insert(want.end(), words.begin(), words.end()); VS got = Util::split(g, " \n"); mc::check(got == want, "description-words", at); int n = 0; std::stringstream ss(g); std::string line; bool first = true;
    while(std::getline(ss, line)) { VS w = Util::split(line); int own = w.size() ? w.back().size() : 0; bool forced = first ? (int)w.size() <= (tl ? 1 : 0) + 1 : w.size() <= 1; mc::check((int)line.size() <= M || forced, "description-width", mc::fmt("a line of %d characters exceeds %d ", (int)line.size(), M) + at); (void)own;
        if(!first) { mc::check((int)line.size() > L && line.substr(0, L) == std::string(L, ' ') && line[L] != ' ', "description-indent", at); int lw = w[0].size(); mc::check(n + 1 + lw > M, "description-early", "a line is broken though the next word fits: " + at); } else mc::check(line.substr(0, ind + tl) == std::string(ind, ' ') + title, "description-title", at); n = line.size(); if(first && w.size() == (tl ? 1u : 0u)) n = std::max(n, L) - 1; first = false; }
}
// logit and its inverse
MC_HARNESS(logit) {
    mc::site("logit"); int i = mc::choose(2001); double p = i / 2000.0; if(mc::flip()) p = i == 0 ? 0 : pow(10, -i / 60.0); NV(p); float fp = p; mc::op(); double g = Util::logit(fp); if(fp <= 0 || fp >= 1) mc::check(!valid(g), "logit-invalid", mc::fmt("%g", g)); else { double w = log((double)fp) - log1p(-(double)fp); mc::check(valid(g) && close(g, w, 2e-6 * (1 + std::fabs(w)) + 2e-7 / (1 - fp)), "logit", mc::fmt("want %g got %g", w, g)); double b = Util::invLogit(g); mc::check(close(b, fp, 2e-6 + 2e-6 * std::fabs(w)), "logit-roundtrip", mc::fmt("%g", b)); }
    for(double x : {(i - 1000) * 0.11, (i - 1000) * 1e30, (i - 1000) * 1e-4}) { float fx = x; double g = Util::invLogit(fx), w = fx == MV ? MV : fx >= 0 ? 1 / (1 + exp(-(double)fx)) : exp((double)fx) / (1 + exp((double)fx)); mc::check(fx == MV ? g == MV : valid(g) && close(g, w, 1e-6), "invLogit", mc::fmt("at %g want %g got %g", fx, w, g)); }
    for(float x : {MV, NAN, INFINITY, -INFINITY, -0.1f, 1.1f}) mc::check(!valid(Util::logit(x)), "logit-missing", mc::fmt("%g", x)); for(float x : {MV, NAN, INFINITY, -INFINITY}) mc::check(!valid(Util::invLogit(x)), "invLogit-missing", mc::fmt("%g", x)); float inf = INFINITY; for(float x : {MV, NAN, inf, -inf}) mc::check(!Util::isValid(x), "isValid", mc::fmt("%g", x)); mc::check(Util::isValid(fp) && Util::isValid(-998.9999f), "isValid", mc::fmt("%g", p));
}
// statistics of lists
MC_HARNESS(statistics) {
    V a = list(0, mc::thorough() ? 6 : 5, V{0, 1.5f, -3, 1e4f, MV, NAN, INFINITY}); static const char* N[] = {"mean", "min", "max", "median", "quantile", "std", "sum", "Mean", "", "stdev"}; int k = mc::choose(10); float q = k == 4 ? mc::pick(V{0, 0.1f, 0.25f, 0.5f, 1.0f / 3, 0.9f, 1, -0.1f, 1.1f, MV, NAN}) : MV; NOTE_(N[k]); NV(q); mc::site("statistics"); Util::StatType t; mc::op(); bool known = Util::getStatType(N[k], t); mc::check(known == (k < 7), "stat-name", N[k]); if(!known) return;
    double g = MV; bool r = rejected([&]() { g = Util::calculateStat(a, t, q); }); VD v; for(float x : a) if(valid(x)) v.push_back(x); std::sort(v.begin(), v.end()); int n = v.size(); double m = 0, s = 0; for(double x : v) m += x / n; for(double x : v) s += (x - m) * (x - m) / n; std::string at = vs(a) + mc::fmt(" gives %g", g); double big = n ? std::max(std::fabs(v[0]), std::fabs(v[n - 1])) : 0;
    if(k == 4 && (!valid(q) || q < 0 || q > 1)) { mc::check(r || !valid(g), "quantile-invalid", at); return; } mc::check(!r, "stat-rejected", at); if(r) return; if(n == 0) { mc::check(!valid(g), "stat-empty", at); return; }
    double p = k == 1 ? 0 : k == 2 ? 1 : k == 3 ? 0.5 : q, i = p * (n - 1), f = i - floor(i), w = k == 0 ? m : k == 6 ? m * n : k == 5 ? sqrt(s) : f == 0 ? v[(int)i] : v[(int)i] * (1 - f) + v[(int)i + 1] * f; mc::check(valid(g) && close(g, w, 1e-5 * std::max(big, 1e-3)), std::string("stat-") + N[k], mc::fmt("want %g ", w) + at);
}
// combined sets of values
MC_HARNESS(combine) {
    V x = list(0, 4, V{1, 2, -3, 5}), y = list(0, mc::thorough() ? 5 : 4, V{1, 2, -3, 7}); mc::site("combine"); V w(x); w.insert(w.end(), y.begin(), y.end()); std::sort(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); mc::op(); V g = Util::combine(x, y); mc::check(g == w, "combine", vs(g));
}
// positions in sorted lists, and interpolation
MC_HARNESS(interpolate) {
    V x = list(0, mc::thorough() ? 6 : 5, V{0, 1, 2.5f, 7, MV}); float last = -INFINITY; bool miss = false; for(float v : x) { if(v == MV) { miss = true; continue; } if(v < last) mc::skip(); last = v; } float at = mc::pick(V{-1, 0, 0.5f, 1, 2, 2.5f, 5, 7, 8}); int n = x.size(); NV(at); mc::site("index"); mc::op(); int lo = Util::getLowerIndex(at, x), hi = Util::getUpperIndex(at, x), wl = -999, wu = -999; float bl = -INFINITY, bu = INFINITY; for(float v : x) if(v != MV) { if(v <= at) bl = std::max(bl, v); if(v >= at) bu = std::min(bu, v); }
    // below: the last of the tied values; above: the first; where the value itself is there, the first and the last of them
    for(int i = 0; i < n; i++) if(x[i] != MV) { if(x[i] == bl && (bl != at || wl < 0)) wl = i; if(x[i] == bu && (bu == at || wu < 0)) wu = i; }
    mc::check(lo == wl && hi == wu, "index", vs(x) + mc::fmt(" at %g: want %d and %d, got %d and %d", at, wl, wu, lo, hi)); if(miss || n == 0) return;
    V y(n); for(auto& v : y) { v = mc::pick(V{0, 3, -2, 1}); } mc::site("interpolate"); double g = Util::interpolate(at, x, y), w; if(at > x[n - 1]) w = y[n - 1]; else if(at < x[0]) w = y[0]; else if(x[wl] == x[wu]) w = (y[wl] + y[wu]) / 2; else w = y[wl] + (y[wu] - y[wl]) * (at - x[wl]) / (x[wu] - x[wl]); mc::check(close(g, w, 1e-5), "interpolate", vs(x) + vs(y) + mc::fmt(" at %g: want %g got %g", at, w, g));
    if(n) for(float m : {MV, NAN}) { double h = Util::interpolate(m, x, y); mc::check(!valid(h), "interpolate-missing", vs(x) + vs(y) + mc::fmt(" at a missing value: %g", h)); }
}
// matrix inverse
MC_HARNESS(inverse) {
    int n = mc::range(0, 3); V A = n == 3 ? V{0, 1, -2, 0.5f} : V{0, 1, -2, 0.5f, 3, 100, MV, NAN}; vec2 m(n, V(n)); bool miss = false; for(auto& r : m) for(auto& x : r) { x = A[mc::choose(A.size())]; NV(x); miss = miss || !valid(x); } if(n == 3 && mc::flip()) { miss = true; m[2][1] = MV; } mc::site("inverse"); mc::op(); vec2 g = Util::inverse(m); bool shape = (int)g.size() == n; for(auto& r : g) shape = shape && (int)r.size() == n; mc::check(shape, "inverse-shape", "other size"); if(!shape || n == 0) return;
    double det = n == 1 ? m[0][0] : n == 2 ? (double)m[0][0] * m[1][1] - (double)m[0][1] * m[1][0] : 0; if(n == 3) for(int j = 0; j < 3; j++) det += (double)m[0][j] * ((double)m[1][(j + 1) % 3] * m[2][(j + 2) % 3] - (double)m[1][(j + 2) % 3] * m[2][(j + 1) % 3]); std::string at; for(auto& r : g) at += vs(r);
    if(miss || det == 0) { bool all = true; for(auto& r : g) for(float x : r) all = all && x == MV; mc::check(all, miss ? "inverse-missing" : "inverse-singular", at); return; }
    double big = 0; for(auto& r : g) for(float x : r) big = std::max(big, (double)std::fabs(x)); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) { double s = 0; for(int k = 0; k < n; k++) s += (double)m[i][k] * g[k][j]; mc::check(close(s, i == j, 1e-5 * std::max(1.0, big * 100)), "inverse", mc::fmt("product %d,%d is %g: ", i, j, s) + at); }
}
// regression: the residual is orthogonal to the predictors
MC_HARNESS(regression) {
    int T = mc::range(0, mc::thorough() ? 5 : 4), np = mc::range(1, 2), off = mc::choose(3) == 2; bool c = mc::flip(); V y(T); for(auto& v : y) v = mc::pick(T > 3 ? V{0, 1, 10} : V{0, 1, -2, 10}); std::vector<V> x(np, V(T)); for(auto& p : x) for(auto& v : p) v = mc::pick(T > 3 ? V{0, 1, 3} : V{0, 1, 3, -2}); if(off && T) x.back().pop_back(); NOTE_(vs(y) + vs(x[0]) + (np > 1 ? vs(x[1]) : "")); NV(c); mc::site("regression"); mc::op(); V g; bool r = rejected([&]() { g = Util::regression(y, x, c); });
    if(T < 2 || (off && T)) { mc::check(r, "regression-accepted", "too few or unequal data"); return; } std::vector<VD> A; if(c) A.push_back(VD(T, 1)); for(auto& p : x) A.push_back(VD(p.begin(), p.end())); int n = A.size(); std::vector<VD> M(n, VD(n)); for(int i = 0; i < n; i++) for(int j = 0; j < n; j++) for(int t = 0; t < T; t++) M[i][j] += A[i][t] * A[j][t];
    double det = n == 1 ? M[0][0] : n == 2 ? M[0][0] * M[1][1] - M[0][1] * M[1][0] : 0; if(n == 3) for(int j = 0; j < 3; j++) det += M[0][j] * (M[1][(j + 1) % 3] * M[2][(j + 2) % 3] - M[1][(j + 2) % 3] * M[2][(j + 1) % 3]); if(std::fabs(det) < 1e-6) return; /* no unique solution: it must only not crash */ mc::check(!r && (int)g.size() == n, "regression-rejected", vs(g)); if(r || (int)g.size() != n) return;
    for(int i = 0; i < n; i++) { double s = 0; for(int t = 0; t < T; t++) { double e = y[t]; for(int j = 0; j < n; j++) e -= g[j] * A[j][t]; s += e * A[i][t]; } mc::check(std::fabs(s) < 1e-3, "regression", mc::fmt("residual along predictor %d is %g: ", i, s) + vs(g)); }
}
// distances
MC_HARNESS(distance) {
    static const float LA[] = {0, 60, 60.001f, -45, 89.9f, 90, -90, 30, MV, NAN, 90.1f, -91}, LO[] = {0, 10, 10.0001f, 179.9f, -179.9f, 180, 359, -10, MV, INFINITY, 361, 12.5f}; float la = LA[mc::choose(12)], lo = LO[mc::choose(12)], lb = LA[mc::choose(12)], lp = LO[mc::choose(12)]; bool ap = mc::flip(); NV(la); NV(lo); NV(lb); NV(lp); NV(ap); mc::site("distance"); mc::op(); double g = 0; bool r = rejected([&]() { g = Util::getDistance(la, lo, lb, lp, ap); }); std::string at = mc::fmt("got %g", g);
    if(!valid(la) || !valid(lo) || !valid(lb) || !valid(lp)) { mc::check(!r && g == MV, "distance-missing", at); return; } if(std::fabs(la) > 90 || std::fabs(lb) > 90 || std::fabs(lo) > 360 || std::fabs(lp) > 360) { mc::check(r, "distance-range", at); return; } mc::check(!r && valid(g) && g >= 0, "distance-invalid", at); if(r) return;
    double k = M_PI / 180, R = 6.378137e6, h = pow(sin((la - lb) * k / 2), 2) + cos(la * k) * cos(lb * k) * pow(sin((lo - lp) * k / 2), 2), w = 2 * R * asin(std::sqrt(std::min(1.0, h))); if(!ap) mc::check(close(g, w, 4 + w * 1e-6), "distance", mc::fmt("want %g ", w) + at); else { double c = cos((la + lb) / 2.0 * k), e = R * k * sqrt(pow(la - lb, 2) + c * c * pow(lo - lp, 2)); mc::check(close(g, e, 12 + e * 1e-5), "distance-approx", mc::fmt("want %g ", e) + at); }
    double b = 0; rejected([&]() { b = Util::getDistance(lb, lp, la, lo, ap); }); mc::check(close(g, b, 1 + g * 1e-6), "distance-symmetric", mc::fmt("%g ", b) + at); mc::check(close(Util::deg2rad(lo), lo * k, 1e-6), "deg2rad", at); mc::check(close(Util::rad2deg(Util::deg2rad(la)), la, 2e-5), "rad2deg", at);
}
// files
MC_HARNESS(files) {
    std::string d = scratch() + "/g"; mkdir(d.c_str(), 0700); static const char* F[] = {"a1", "a2", "b1", "c"}; int have = mc::choose(16); VS ex; for(int i = 0; i < 4; i++) { std::remove((d + "/" + F[i]).c_str()); if(have >> i & 1) { FILE* f = fopen((d + "/" + F[i]).c_str(), "w"); if(i != 3) fputs(F[i], f); fclose(f); } }
    static const char* P[] = {"a1", "b1", "c", "a*", "?1", "zz", "z*", "[ab]2"}; static const char* M[] = {"0", "2", "3", "01", "02", "", "", "1"}; int n = mc::range(0, mc::thorough() ? 4 : 3); VS want; std::string s; for(int i = 0; i < n; i++) { int p = mc::choose(8); s += (i ? "," : "") + d + "/" + P[p]; if(!strpbrk(P[p], "*?[")) want.push_back(d + "/" + P[p]); else for(const char* c = M[p]; *c; c++) if(have >> (*c - '0') & 1) want.push_back(d + "/" + F[*c - '0']); }
    NV(have); NOTE_(s); mc::site("files"); mc::op(); VS g = Util::glob(s); mc::check(g == want, "glob", "want " + vs(want) + " got " + vs(g)); if(n) return;
    auto text = [&](std::string f) { std::ifstream i(f.c_str(), std::ios::binary); std::stringstream x; x << i.rdbuf(); return x.str(); }; std::string a = d + "/a1", c = d + "/c", t = d + "/copied"; for(std::string f : {a, c}) { bool e = have >> (f == c ? 3 : 0) & 1; mc::check(Util::exists(f) == e, "exists", f); std::remove(t.c_str()); bool k = Util::copy(f, t); mc::check(k == e, "copy-result", f); if(e) mc::check(text(t) == text(f) && Util::exists(t), "copy", f); mc::check(Util::remove(f) == e && !Util::exists(f), "remove", f); }
    mc::check(!Util::copy(t, d + "/none/x"), "copy-nowhere", "reported as copied"); std::remove(t.c_str());
}
MC_MAIN
