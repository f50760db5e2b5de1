// Shared helpers for harnesses of the C++ API: reference geometry and statistics in double precision.
#pragma once
#include "mc.h"
#include <functional>
#include "gridpp.h"
#include <algorithm>
namespace gp {
using namespace gridpp;
static const float NANF = std::numeric_limits<float>::quiet_NaN();
static const float INFF = std::numeric_limits<float>::infinity();
static const double R = 6.378137e6;
inline bool valid(double v) { return !std::isnan(v) && !std::isinf(v); }
struct P3 { double x, y, z; };
inline P3 xyz(double lat, double lon, CoordinateType t) {
    if(t == Cartesian) return {lon, lat, 0};
    double a = lat * M_PI / 180, o = lon * M_PI / 180;
    return {R * cos(a) * cos(o), R * cos(a) * sin(o), R * sin(a)};
}
inline double chord(P3 a, P3 b) { return sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y) + (a.z - b.z) * (a.z - b.z)); }
inline double chord(double la, double lo, double lb, double mo, CoordinateType t) { return chord(xyz(la, lo, t), xyz(lb, mo, t)); }
inline double arc(double la, double lo, double lb, double mo, CoordinateType t) {
    double c = chord(la, lo, lb, mo, t);
    if(t == Cartesian) return c;
    return 2 * R * asin(std::min(1.0, c / 2 / R));
}
// reference statistic over the valid values of v; q used for Quantile
inline double rquantile(std::vector<double> v, double q) {
    std::vector<double> w;
    for(double x : v) if(valid(x)) w.push_back(x);
    if(w.empty()) return NAN;
    std::sort(w.begin(), w.end());
    double pos = q * (w.size() - 1);
    int i = (int)floor(pos);
    if(i >= (int)w.size() - 1) return w.back();
    return w[i] + (pos - i) * (w[i + 1] - w[i]);
}
inline double rstat(const std::vector<double>& v, Statistic s) {
    std::vector<double> w;
    for(double x : v) if(valid(x)) w.push_back(x);
    if(s == Count) return w.size();
    if(w.empty()) return NAN;
    double sum = 0; for(double x : w) sum += x;
    double m = sum / w.size(), var = 0;
    for(double x : w) var += (x - m) * (x - m);
    var /= w.size();
    switch(s) {
        case Mean: return m;
        case Sum: return sum;
        case Min: return *std::min_element(w.begin(), w.end());
        case Max: return *std::max_element(w.begin(), w.end());
        case Median: return rquantile(w, 0.5);
        case Variance: return var;
        case Std: return sqrt(var);
        default: return NAN;
    }
}
// documented piecewise linear interpolation: ends extend flat; on a vertical step the mean of both ends of the
// step, except where the step touches only one edge of the curve, where the end away from the edge is used
inline double rinterp(double x, const std::vector<double>& X, const std::vector<double>& Y) {
    int n = X.size();
    if(!valid(x) || n == 0) return NAN;
    if(x > X[n - 1]) return Y[n - 1];
    if(x < X[0]) return Y[0];
    int lo = -1, hi = -1;
    for(int i = 0; i < n; i++) if(X[i] == x) { if(lo < 0) lo = i; hi = i; }
    if(lo >= 0) {
        if(lo == hi) return Y[lo];
        bool a = lo == 0, b = hi == n - 1;
        if(a && !b) return Y[hi];
        if(b && !a) return Y[lo];
        return (Y[lo] + Y[hi]) / 2;
    }
    int i = 0; while(!(X[i] < x && x < X[i + 1])) i++;
    return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i]);
}
inline std::vector<double> D(const vec& v) { return std::vector<double>(v.begin(), v.end()); }
inline double maxabs(const vec& v) { double m = 0; for(float x : v) if(valid(x)) m = std::max(m, (double)fabs(x)); return m; }
inline const std::vector<Statistic>& allstats() { static std::vector<Statistic> s = {Mean, Min, Median, Max, Std, Variance, Sum, Count}; return s; }
inline const char* sname(Statistic s) {
    switch(s) { case Mean: return "mean"; case Min: return "min"; case Median: return "median"; case Max: return "max"; case Quantile: return "quantile"; case Std: return "std"; case Variance: return "variance"; case Sum: return "sum"; case Count: return "count"; case RandomChoice: return "randomchoice"; default: return "unknown"; }
}
// tolerance for a statistic computed in single precision over values of magnitude m
inline double stol(Statistic s, double m) {
    switch(s) { case Variance: return 1e-5 * m * m + 1e-6; case Std: return 4e-3 * m + 1e-6; case Sum: return 1e-4 * m + 1e-6; default: return 1e-5 * m + 1e-6; }
}
inline bool close(double got, double want, double tol) {
    if(std::isnan(want) || std::isnan(got)) return std::isnan(want) && std::isnan(got);
    if(std::isinf(want) || std::isinf(got)) return want == got;
    return fabs(got - want) <= tol;
}
} // namespace gp
