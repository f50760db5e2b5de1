// Shared parts of the harnesses of the client's calibrators: a small file with known fields whose every cell is compared before and
// after a calibration, and parameter tables that vary in time and space.
#pragma once
#include "nc.h"
#include "File/Fake.h"
#include "Calibrator/Calibrator.h"
#include "ParameterFile/ParameterFile.h"
#include "Downscaler/Downscaler.h"
#include <memory>
#include <functional>
namespace cal {
using namespace cl;
typedef std::vector<std::vector<double> > D2;
typedef std::vector<double> VD;
typedef std::function<double(int, int, int, int)> Cells;   // time, member, y, x
inline bool near(double want, double got, double tol = 1e-4) { if(valid(want) && std::fabs(want) > 3e38) return !valid(got); if(!valid(want) || !valid(got)) return valid(want) == valid(got); return std::fabs(want - got) <= tol * std::max(1.0, std::fabs(want)); }
inline std::string vs(const VD& v) { std::string s = "["; for(double x : v) s += mc::fmt(" %.9g", x); return s + " ]"; }
struct World {
    std::unique_ptr<FileFake> f; int ny, nx, ne, nt; std::map<std::string, std::vector<D2> > v; vec2 la, lo, el, lf; std::vector<double> times;
    World(int ny_, int nx_, int ne_ = 2, int nt_ = 2) : ny(ny_), nx(nx_), ne(ne_), nt(nt_) {
        quiet(); Downscaler::clearCache(); f.reset(new FileFake(Options(mc::fmt("nLat=%d nLon=%d nEns=%d nTime=%d", ny, nx, ne, nt))));
        la = f->getLats(); lo = f->getLons(); for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { la[y][x] = 60 + 0.1 * y; lo[y][x] = 10 + 0.2 * x; } f->setLats(la); f->setLons(lo); el = f->getElevs(); lf = f->getLandFractions();
        set("other", [](int t, int e, int y, int x) { return (t + e + y + x) % 4 == 3 ? (double)MV : 100 * t + 30 * e + 7 * y + x; });
    }
    void elevs(const vec2& e) { el = e; f->setElevs(e); }
    void lafs(const vec2& e) { lf = e; f->setLandFractions(e); }
    void set(const std::string& n, Cells c) {
        auto& a = v[n]; a.assign(nt * ne, D2(ny, VD(nx))); for(int t = 0; t < nt; t++) { FieldPtr p = f->getEmptyField(); for(int e = 0; e < ne; e++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) { (*p)(y, x, e) = c(t, e, y, x); a[t * ne + e][y][x] = (*p)(y, x, e); } f->addField(p, Variable(n), t); }
    }
    double old(const std::string& n, int t, int e, int y, int x) { return v[n][t * ne + e][y][x]; }
    double got(const std::string& n, int t, int e, int y, int x) { return (*f->getField(Variable(n), t))(y, x, e); }
    // false if the client reported an error
    bool run(const std::string& scheme, const std::string& var, const std::string& options, const ParameterFile* p = NULL) {
        mc::site(scheme.c_str()); mc::op(); bool r = rejected([&]() { std::unique_ptr<Calibrator> c(Calibrator::getScheme(scheme, Variable(var), Options(options))); c->calibrate(*f, p); }); Downscaler::clearCache(); return !r;
    }
    // everything but the variable var is as before
    void others(const std::string& tag, const std::string& var) {
        for(auto& a : v) if(a.first != var) for(int t = 0; t < nt; t++) for(int e = 0; e < ne; e++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) mc::check(near(old(a.first, t, e, y, x), got(a.first, t, e, y, x), 0), tag + "-other", "variable " + a.first + mc::fmt(" changed from %g to %g", old(a.first, t, e, y, x), got(a.first, t, e, y, x)));
        mc::check(f->getNumEns() == ne && f->getNumTime() == nt && f->getNumY() == ny && f->getNumX() == nx, tag + "-size", "the size of the file changed");
    }
    void check(const std::string& tag, const std::string& var, std::function<VD(int, int, int, int)> want, double tol = 1e-4) {
        others(tag, var);
        for(int t = 0; t < nt; t++) for(int e = 0; e < ne; e++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) {
            VD w = want(t, e, y, x); if(w.empty()) continue; double g = got(var, t, e, y, x); bool ok = false; for(double c : w) ok = ok || near(c, g, tol);
            mc::check(ok, tag, mc::fmt("time %d member %d cell %d,%d: had %g want ", t, e, y, x, old(var, t, e, y, x)) + vs(w) + mc::fmt(" got %.9g", g));
        }
    }
};
// A parameter file in memory. kind 0: one set; 1: one per time; 2: one per location; 3: per time and location; 4: the same, but
// location 1 has none at time 0.
struct Table : ParameterFile {
    int kind; std::vector<Location> loc; std::map<std::pair<int, int>, Parameters> p;   // (time, location)
    Table() : ParameterFile(Options("file=memory"), true), kind(0) {}
    bool isFixedSize() const { return true; }
    bool isReadable() const { return true; }
    std::string name() const { return "memory"; }
    // value(time, location index)
    void fill(int kind_, const World& w, int nt, std::function<std::vector<float>(int, int)> value) {
        kind = kind_; bool sp = kind >= 2, ti = kind == 1 || kind >= 3; loc.clear(); if(sp) { loc.push_back(Location(w.la[0][0] + 0.02, w.lo[0][0] - 0.01, 3)); loc.push_back(Location(w.la[w.ny - 1][w.nx - 1], w.lo[w.ny - 1][w.nx - 1], 50)); }
        for(int t = 0; t < (ti ? nt : 1); t++) for(int l = 0; l < (sp ? 2 : 1); l++) { if(kind == 4 && t == 0 && l == 1) continue; Parameters q(value(t, l)); p[{t, l}] = q; if(sp) setParameters(q, t, loc[l]); else setParameters(q, t); }
        recomputeTree();
    }
    std::vector<float> at(const World& w, int t, int y, int x) {
        int tt = kind == 1 || kind >= 3 ? t : 0; if(kind < 2) return p[{tt, 0}].getValues();
        double best = INFINITY; std::vector<float> r; for(int l = 0; l < 2; l++) { auto it = p.find({tt, l}); if(it == p.end()) continue; double a = loc[l].lat() - w.la[y][x], b = (loc[l].lon() - w.lo[y][x]) * 0.5, d = a * a + b * b; if(d < best) { best = d; r = it->second.getValues(); } }
        return r;
    }
};
}
