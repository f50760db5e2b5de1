// P26: forecast files. NetCDF files in every layout are read, changed, written and read again, histories of operations on one file
// are compared with a table of the fields, and the text formats are written and read back.
#include "nc.h"
#include "File/File.h"
#include "File/Netcdf.h"
#include "File/Fake.h"
#include <map>
#include <memory>
using namespace cl;
namespace {
const double NONE = -12345.5;   // marks a missing value in the tables
struct Spec {
    int nt = 2, ne = 2, ny = 2, nx = 3, order = 0, time = 0 /*0 dim 1 unlimited 2 scalar 3 reference time only*/, ens = 1, type = 0 /*float double short int*/, packed = 0, fill = 0, level = 0 /*0 none 1 one 2 two, read second 3 two, read first*/,
        ll = 0 /*0 1d 1 yx 2 xy 3 packed*/, names = 0 /*y x, latitude longitude, lat lon, options*/, elev = 0 /*none altitude geopotential altitude xy, packed*/, laf = 0, ref = 1;
    bool spatial = true;
};
int NT(nc_type t) { return t; }
nc_type TYPES[] = {NC_FLOAT, NC_DOUBLE, NC_SHORT, NC_INT};
double scale(const Spec& s) { return s.packed ? 0.1 : 1; }
double offset(const Spec& s) { return s.packed ? 5 : 0; }
double fill(const Spec& s) { switch(s.fill) { case 1: return -999; case 2: return s.type >= 2 ? 1000 : 1e20; case 3: return s.type >= 2 ? 0 : NAN; } static const double D[] = {NC_FILL_FLOAT, NC_FILL_DOUBLE, NC_FILL_SHORT, NC_FILL_INT}; return D[s.type]; }
const char* N(const Spec& s, int k) { static const char* n[4][7] = {{"y", "x", "time", "ensemble_member", "latitude", "longitude", "time"}, {"latitude", "longitude", "time", "ensemble_member", "latitude", "longitude", "time"}, {"lat", "lon", "time", "ensemble_member", "lat", "lon", "time"}, {"a", "b", "c", "d", "la", "lo", "tm"}}; return n[s.names][k]; }
// integer content of a cell of a variable; some cells are missing
int cell(const Spec& s, int v, int l, int t, int e, int y, int x) { int i = ((((v * 2 + l) * s.nt + t) * s.ne + e) * s.ny + y) * s.nx + x; return i % 7 == 5 ? -1 : i * 3 + 1; }
double geo(const Spec&, int what, int y, int x) { return what == 0 ? 50 + y * 0.5 + x * 0.125 : what == 1 ? 10 - y * 0.25 + x * 1.5 : what == 2 ? 100 * y + 10 * x + 1.5 : 0.25 * y + 0.125 * x; }
struct Def {
    int f, dy, dx, dt = -1, de = -1, dl = -1;
    std::vector<int> perm;   // of 0 time 1 ens 2 level 3 y 4 x
};
std::vector<int> permutation(int k) { std::vector<int> p = {0, 1, 3, 4}; for(int i = 0; i < k; i++) std::next_permutation(p.begin(), p.end()); return p; }
std::vector<int> order(const Spec& s) {
    std::vector<int> p = permutation(s.order), r;
    for(int d : p) { if(d == 0 && s.time >= 2) continue; if(d == 1 && !s.ens) continue; if(d == 3 && s.level) r.push_back(2); r.push_back(d); }
    if(s.time == 1) { r.erase(std::find(r.begin(), r.end(), 0)); r.insert(r.begin(), 0); }   // the unlimited dimension comes first in classic files
    return r;
}
int dimid(const Def& d, int k) { return k == 0 ? d.dt : k == 1 ? d.de : k == 2 ? d.dl : k == 3 ? d.dy : d.dx; }
int dimlen(const Spec& s, int k) { return k == 0 ? s.nt : k == 1 ? s.ne : k == 2 ? (s.level == 1 ? 1 : 2) : k == 3 ? s.ny : s.nx; }
void geovar(const Spec& s, const Def& d, const char* name, int what, int form, double mul, bool miss, std::vector<std::function<void()> >& later) {
    int id; int dims[2] = {form == 2 ? d.dx : d.dy, form == 2 ? d.dy : d.dx};
    if(form == 0) { dims[0] = what == 0 ? d.dy : d.dx; NCC(nc_def_var(d.f, name, NC_FLOAT, 1, dims, &id)); }
    else NCC(nc_def_var(d.f, name, form == 3 ? NC_INT : NC_FLOAT, 2, dims, &id));
    double sc = 0.125, off = 2; if(form == 3) { NCC(nc_put_att_double(d.f, id, "scale_factor", NC_DOUBLE, 1, &sc)); NCC(nc_put_att_double(d.f, id, "add_offset", NC_DOUBLE, 1, &off)); }
    later.push_back([=]() {
        for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) {
            size_t i[2] = {(size_t)(form == 2 ? x : y), (size_t)(form == 2 ? y : x)}; if(form == 0) i[0] = what == 0 ? y : x;
            double v = form == 0 ? (what == 0 ? geo(s, what, y, 0) : geo(s, what, 0, x)) : geo(s, what, y, x); v *= mul; if(form == 3) v = (v - off) / sc;
            if(miss && y == 1 && x == 1) v = form == 3 ? (double)NC_FILL_INT : (double)NC_FILL_FLOAT;
            NCC(nc_put_var1_double(d.f, id, i, &v));
        }
    });
}
double truth(const Spec& s, int what, int y, int x) { if(what == 2 && y == 1 && x == 1) return NONE; if(what < 2 && s.ll == 0) return what == 0 ? geo(s, 0, y, 0) : geo(s, 1, 0, x); return geo(s, what, y, x); }
void create(const std::string& file, const Spec& s, const std::vector<std::string>& vars) {
    Def d; NCC(nc_create(file.c_str(), NC_CLOBBER, &d.f)); std::vector<std::function<void()> > later; int id;
    NCC(nc_def_dim(d.f, N(s, 0), s.ny, &d.dy)); NCC(nc_def_dim(d.f, N(s, 1), s.nx, &d.dx));
    if(s.time < 2) NCC(nc_def_dim(d.f, N(s, 2), s.time == 1 ? NC_UNLIMITED : s.nt, &d.dt));
    if(s.ens) NCC(nc_def_dim(d.f, N(s, 3), s.ne, &d.de));
    if(s.level) NCC(nc_def_dim(d.f, "height", s.level == 1 ? 1 : 2, &d.dl));
    geovar(s, d, N(s, 4), 0, s.ll, 1, false, later); geovar(s, d, N(s, 5), 1, s.ll, 1, false, later);
    if(s.elev == 1 || s.elev >= 3) geovar(s, d, s.names == 3 ? "topo" : "altitude", 2, s.elev == 1 ? 1 : s.elev == 3 ? 2 : 3, 1, true, later);
    if(s.elev == 2) geovar(s, d, "surface_geopotential", 2, 1, 9.81, true, later);
    if(s.laf) geovar(s, d, s.names == 3 ? "land" : "land_area_fraction", 3, s.laf, 1, false, later);
    if(s.time < 3) { int st = s.time == 2; NCC(nc_def_var(d.f, N(s, 6), NC_DOUBLE, st ? 0 : 1, &d.dt, &id)); int n = s.nt, f = d.f; later.push_back([=]() { for(int t = 0; t < n; t++) { size_t i = t; double v = 1.5e9 + 3600.0 * t + 1; NCC(nc_put_var1_double(f, id, &i, &v)); } }); }
    if(s.ref) { NCC(nc_def_var(d.f, "forecast_reference_time", NC_DOUBLE, 0, NULL, &id)); int f = d.f; later.push_back([=]() { double v = 1.5e9 - 7; NCC(nc_put_var_double(f, id, &v)); }); }
    NCC(nc_put_att_text(d.f, NC_GLOBAL, "source", 6, "origin")); NCC(nc_put_att_text(d.f, NC_GLOBAL, "history", 5, "first"));
    std::vector<int> p = order(s);
    for(size_t v = 0; v < vars.size(); v++) {
        std::vector<int> dims; for(int k : p) dims.push_back(dimid(d, k));
        NCC(nc_def_var(d.f, vars[v].c_str(), TYPES[s.type], dims.size(), dims.data(), &id)); NCC(nc_put_att_text(d.f, id, "units", 1, "K"));
        if(s.packed) { float a = scale(s), b = offset(s); NCC(nc_put_att_float(d.f, id, "scale_factor", NC_FLOAT, 1, &a)); NCC(nc_put_att_float(d.f, id, "add_offset", NC_FLOAT, 1, &b)); }
        if(s.fill) { double x = fill(s); float y = x; short z = std::isnan(x) ? 0 : x > 30000 ? 0 : x; int w = z; if(s.type == 0) NCC(nc_put_att_float(d.f, id, "_FillValue", NC_FLOAT, 1, &y)); if(s.type == 1) NCC(nc_put_att_double(d.f, id, "_FillValue", NC_DOUBLE, 1, &x)); if(s.type == 2) NCC(nc_put_att_short(d.f, id, "_FillValue", NC_SHORT, 1, &z)); if(s.type == 3) NCC(nc_put_att_int(d.f, id, "_FillValue", NC_INT, 1, &w)); }
        int f = d.f; std::vector<int> pp = p;
        later.push_back([=]() { for(int l = 0; l < (s.level >= 2 ? 2 : 1); l++) for(int t = 0; t < s.nt; t++) for(int e = 0; e < s.ne; e++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) {
            std::vector<size_t> i; for(int k : pp) i.push_back(k == 0 ? t : k == 1 ? e : k == 2 ? l : k == 3 ? y : x);
            int c = cell(s, v, l, t, e, y, x); double val = c < 0 ? fill(s) : c; NCC(nc_put_var1_double(f, id, i.data(), &val)); } });
    }
    NCC(nc_enddef(d.f)); for(auto& g : later) g(); NCC(nc_close(d.f));
}
// all values of a variable read with the NetCDF library, and its missing value
std::vector<double> raw(int f, const char* name, double* miss, std::vector<std::string>* dn = NULL) {
    int id, nd, dims[10]; nc_type t; if(nc_inq_varid(f, name, &id) != NC_NOERR) return {}; NCC(nc_inq_var(f, id, NULL, &t, &nd, dims, NULL)); size_t n = 1;
    for(int i = 0; i < nd; i++) { size_t l; NCC(nc_inq_dimlen(f, dims[i], &l)); n *= l; char b[300]; NCC(nc_inq_dimname(f, dims[i], b)); if(dn) dn->push_back(b); }
    std::vector<double> v(n); NCC(nc_get_var_double(f, id, v.data()));
    if(miss && nc_get_att_double(f, id, "_FillValue", miss) != NC_NOERR) *miss = t == NC_SHORT ? NC_FILL_SHORT : t == NC_INT ? NC_FILL_INT : t == NC_DOUBLE ? NC_FILL_DOUBLE : NC_FILL_FLOAT;
    return v;
}
bool same(double want, double got, double rel = 2e-6) { if(want == NONE) return !valid(got); return fabs(want - got) <= rel * fabs(want) + 1e-9; }
std::string text(const std::string& f, const char* a) { int id; size_t l; NCC(nc_open(f.c_str(), NC_NOWRITE, &id)); std::string r; if(nc_inq_attlen(id, NC_GLOBAL, a, &l) == NC_NOERR) { std::vector<char> b(l + 1, 0); NCC(nc_get_att_text(id, NC_GLOBAL, a, b.data())); r = b.data(); } NCC(nc_close(id)); return r; }
Options opts(const Spec& s) { return Options(s.names == 3 ? "yDim=a xDim=b timeDim=c ensDim=d latVar=la lonVar=lo timeVar=tm elevVar=topo lafVar=land" : ""); }
typedef std::vector<double> Table;   // t, e, y, x of one variable at one level
size_t at(const Spec& s, int t, int e, int y, int x) { return ((t * s.ne + e) * s.ny + y) * s.nx + x; }
Table initial(const Spec& s, int v, int l) { Table r; for(int t = 0; t < s.nt; t++) for(int e = 0; e < s.ne; e++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) { int c = cell(s, v, l, t, e, y, x); r.push_back(c < 0 ? NONE : c * scale(s) + offset(s)); } return r; }
void meta(const Spec& s, const File& f, const std::string& w) {
    mc::op();
    mc::check(f.getNumY() == s.ny && f.getNumX() == s.nx && f.getNumTime() == s.nt && f.getNumEns() == s.ne, "dimensions" + w, f.getDimenionString());
    std::vector<double> tm = f.getTimes(); for(size_t t = 0; t < tm.size(); t++) mc::check(s.time == 3 ? tm[t] == 1.5e9 - 7 : tm[t] == 1.5e9 + 3600.0 * t + 1, "time" + w, mc::fmt("%d: %.9g", (int)t, tm[t]));
    mc::check(f.getReferenceTime() == (s.ref ? 1.5e9 - 7 : 1.5e9 + 1), "reference" + w, mc::fmt("%.9g", f.getReferenceTime()));
    vec2 g[4] = {f.getLats(), f.getLons(), f.getElevs(), f.getLandFractions()}; const char* nm[] = {"lat", "lon", "elev", "laf"};
    for(int k = 0; k < 4; k++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) { double want = (k == 2 && !s.elev) || (k == 3 && !s.laf) ? NONE : truth(s, k, y, x); mc::check(same(want, g[k][y][x]), nm[k] + w, mc::fmt("%d,%d: want %g got %g", y, x, want, g[k][y][x])); }
}
void field(const Spec& s, const File& f, const Variable& v, const Table& w, const std::string& tag) {
    for(int t = 0; t < s.nt; t++) { FieldPtr p; bool r = rejected([&]() { p = f.getField(v, t); }); mc::check(!r, "rejected" + tag, v.name()); if(r) return; mc::op(); for(int e = 0; e < s.ne; e++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) { double want = w[at(s, t, e, y, x)], got = (*p)(y, x, e); mc::check(same(want, got) && (want != NONE || std::isnan(got) || got == MV), "value" + tag, mc::fmt("%s t=%d e=%d y=%d x=%d: want %g got %g", v.name().c_str(), t, e, y, x, want == NONE ? NAN : want, got)); } }
}
}
MC_HARNESS(layouts) {
    quiet(); CloseLeft close; Spec s; mc::budget(mc::thorough() ? 4 : 3);
    s.type = mc::choose(4); s.packed = mc::choose(2);
    s.order = mc::dev(24); s.time = mc::dev(4); s.ens = !mc::dev(2); s.fill = mc::dev(4); s.level = mc::dev(4); s.ll = mc::dev(4); s.names = mc::dev(4); s.elev = mc::dev(5); s.laf = mc::dev(3); s.ref = s.time == 3 ? 1 : !mc::dev(2);
    if(s.fill == 3 && s.type >= 2) mc::skip(); if((s.names == 1 || s.names == 2) && s.ll) mc::skip();
    if(s.names == 3 && s.elev == 2) mc::skip();
    if(s.time >= 2) s.nt = 1; if(!s.ens) s.ne = 1;
    if(s.time == 2 && s.names == 3) mc::skip();   // the option names a time dimension, so the file has one
    if(s.names == 3 && s.time == 3) mc::skip();
    int changed = mc::dev(4) /*all times, first time, last time, nothing*/, writes = mc::dev(4) /*v, v and w, w, nothing*/, member = mc::dev(2);
    NV(s.type); NV(s.packed); NV(s.order); NV(s.time); NV(s.ens); NV(s.fill); NV(s.level); NV(s.ll); NV(s.names); NV(s.elev); NV(s.laf); NV(s.ref); NV(changed); NV(writes);
    std::string file = scratch() + "/l.nc"; create(file, s, {"v", "u"});
    int lev = s.level == 2 ? 1 : 0; Variable v("v", "K", "", s.level >= 2 ? lev : (int)MV), u("u", "K", "", s.level >= 2 ? lev : (int)MV), w("w", writes == 2 && s.type % 2 ? "" : "m", writes == 2 && s.type == 2 ? "" : "some_name");
    Table tv = initial(s, 0, lev), tu = initial(s, 1, lev), tw, ov = initial(s, 0, 1 - lev);
    std::vector<double> before; { int id; NCC(nc_open(file.c_str(), NC_NOWRITE, &id)); before = raw(id, "u", NULL); NCC(nc_close(id)); }
    mc::site("open");
    {
        std::unique_ptr<File> f; bool r = rejected([&]() { f.reset(File::getScheme(file, opts(s))); }); mc::check(!r && f, "open", "rejected"); if(r || !f) return;
        meta(s, *f, ""); mc::site("read"); field(s, *f, v, tv, ""); field(s, *f, u, tu, "");
        mc::check(f->hasVariable(v) && f->hasVariable(u) && !f->hasVariable(w), "has", "wrong variables"); Variable found; mc::check(f->getVariable("v", found) && found.units() == "K", "units", found.units());
        // change values
        mc::site("change");
        for(int t = 0; t < s.nt; t++) if(changed == 0 || (changed == 1 && t == 0) || (changed == 2 && t == s.nt - 1)) {
            FieldPtr p = f->getField(v, t);
            for(int e = 0; e < s.ne; e++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) { if(member && e) continue; int i = at(s, t, e, y, x); double val = i % 5 == 1 ? NONE : (i * 7 + 500) * scale(s) + offset(s); tv[i] = val; (*p)(y, x, e) = val == NONE ? (i % 2 ? MV : NAN) : (float)val; }
        }
        for(int i = 0; i < s.nt * s.ne * s.ny * s.nx; i++) tw.push_back(i % 4 == 3 ? NONE : i * 0.3 - 2);
        std::vector<Variable> wr;
        if(writes < 2) wr.push_back(v);
        if(writes == 1 || writes == 2) { wr.push_back(w); f->initNewVariable(w); for(int t = 0; t < s.nt; t++) { FieldPtr p = f->getEmptyField(); for(int e = 0; e < s.ne; e++) for(int y = 0; y < s.ny; y++) for(int x = 0; x < s.nx; x++) { double val = tw[at(s, t, e, y, x)]; (*p)(y, x, e) = val == NONE ? MV : (float)val; } f->addField(p, w, t); } }
        mc::site("write");
        r = rejected([&]() { f->write(wr, "message"); }); mc::check(!r, "write", "rejected"); if(r) return;
        if(writes >= 2) tv = initial(s, 0, lev);
    }
    mc::site("reopen");
    {
        std::unique_ptr<File> f; bool r = rejected([&]() { f.reset(File::getScheme(file, opts(s), true)); }); mc::check(!r && f, "reopen", "rejected"); if(r || !f) return;
        Spec a = s; a.ref = s.ref; meta(a, *f, "-after"); field(s, *f, v, tv, "-after"); field(s, *f, u, tu, "-untouched"); if(s.level >= 2) { f->clear(); field(s, *f, Variable("v", "K", "", 1 - lev), ov, "-otherlevel"); }
        if(writes == 1 || writes == 2) { field(s, *f, w, tw, "-new"); Variable x; mc::check(f->getVariable("w", x) && x.units() == w.units() && x.standardName() == w.standardName(), "newmeta", x.units() + " " + x.standardName()); } else mc::check(!f->hasVariable(w), "notwritten", "w");
    }
    int id; NCC(nc_open(file.c_str(), NC_NOWRITE, &id)); std::vector<double> after = raw(id, "u", NULL); mc::check(after.size() == before.size(), "untouched-size", ""); for(size_t i = 0; i < std::min(before.size(), after.size()); i++) mc::check(before[i] == after[i] || (std::isnan(before[i]) && std::isnan(after[i])), "untouched-raw", mc::fmt("%d: %g became %g", (int)i, before[i], after[i]));
    // missing values are stored as the variable's missing value, others as valid numbers
    double miss; std::vector<std::string> dn; std::vector<double> rv = raw(id, "v", &miss); std::vector<int> p = order(s);
    if(writes < 2) for(size_t i = 0; i < rv.size(); i++) {
        size_t k = i; int ix[5] = {0, 0, 0, 0, 0}; for(int q = p.size() - 1; q >= 0; q--) { ix[p[q]] = k % dimlen(s, p[q]); k /= dimlen(s, p[q]); }
        if(s.level >= 2 && ix[2] != lev) continue; double want = tv[at(s, ix[0], ix[1], ix[3], ix[4])]; bool m = rv[i] == miss || (std::isnan(miss) && std::isnan(rv[i])) || (float)rv[i] == (float)miss;
        mc::check(m == (want == NONE), "rawmissing", mc::fmt("%d: want %g stored %g", (int)i, want, rv[i])); if(!m) mc::check(fabs(rv[i] * scale(s) + offset(s) - want) < 1e-4 * (1 + fabs(want)), "rawvalue", mc::fmt("%d: want %g stored %g", (int)i, want, rv[i]));
    }
    NCC(nc_close(id));
    mc::check(text(file, "source") == "origin", "attribute", "global attribute changed"); std::string h = text(file, "history"); mc::check(h.find("message") != std::string::npos && h.size() > 6 && h.substr(h.size() - 6) == "\nfirst", "history", h); unlink(file.c_str());
}
// histories of operations on one file with two times, one member and two points
MC_HARNESS(histories) {
    quiet(); CloseLeft close; Spec s; s.ne = 1; s.ens = 0; s.ny = 1; s.nx = 2; std::string file = scratch() + "/h.nc"; create(file, s, {"v", "u"});
    const char* NAME[] = {"v", "u", "w"}; typedef std::vector<double> F; F disk[3][2]; bool ondisk[3] = {true, true, false}; F cache[3][2]; bool cached[3][2] = {}; bool known[3] = {};
    for(int v = 0; v < 2; v++) for(int t = 0; t < 2; t++) for(int x = 0; x < 2; x++) { int c = cell(s, v, 0, t, 0, 0, x); disk[v][t].push_back(c < 0 ? NONE : c); }
    double t0[2] = {1.5e9 + 1, 1.5e9 + 3601}, tm[2] = {t0[0], t0[1]}, dt[2] = {t0[0], t0[1]}, ref = 1.5e9 - 7, dref = ref; double el[2] = {NONE, NONE}, del[2] = {NONE, NONE};
    std::unique_ptr<File> f(File::getScheme(file, Options())); int next = 1000;
    auto load = [&](int v, int t) { if(cached[v][t]) return; known[v] = true; if(ondisk[v]) { cache[v][t] = disk[v][t]; cached[v][t] = true; } else for(int k = 0; k < 2; k++) if(!cached[v][k]) { cache[v][k] = F(2, NONE); cached[v][k] = true; } };
    auto get = [&](int v, int t, bool byname, const std::string& w) { FieldPtr p = byname ? f->getField(std::string(NAME[v]), t) : f->getField(Variable(NAME[v]), t); load(v, t); for(int x = 0; x < 2; x++) mc::check(same(cache[v][t][x], (*p)(0, x, 0)), "value" + w, mc::fmt("%s time %d point %d: want %g got %g", NAME[v], t, x, cache[v][t][x], (*p)(0, x, 0))); return p; };
    int depth = mc::range(1, mc::thorough() ? 4 : 3);
    for(int d = 0; d < depth; d++) {
        mc::site("op"); int op = mc::choose(11), v = 0, t = 0; if(op < 6) { v = mc::choose(3); if(op != 3 && op != 5) t = mc::choose(2); } NV(op); NV(v); NV(t); mc::op();
        switch(op) {
            case 0: get(v, t, false, ""); break;
            case 1: { FieldPtr p = get(v, t, true, "-name"); double val = next++; (*p)(0, 1, 0) = val; cache[v][t][1] = val; break; }
            case 2: { FieldPtr p = f->getEmptyField(); double val = next++; (*p)(0, 0, 0) = val; f->addField(p, Variable(NAME[v]), t); known[v] = true; cache[v][t] = F{val, NONE}; cached[v][t] = true; break; }
            case 3: { bool has = ondisk[v] || known[v]; f->initNewVariable(Variable(NAME[v])); if(!has) { known[v] = true; for(int k = 0; k < 2; k++) { cache[v][k] = F(2, NONE); cached[v][k] = true; } } break; }
            case 4: { FieldPtr p = f->getField(Variable(NAME[v]), t, true); known[v] = true; if(!cached[v][t]) { cache[v][t] = F(2, NONE); cached[v][t] = true; } for(int x = 0; x < 2; x++) mc::check(same(cache[v][t][x], (*p)(0, x, 0)), "skipread", mc::fmt("%s time %d: %g", NAME[v], t, (*p)(0, x, 0)));
                // the other time is either still to be read or empty as well
                int o = 1 - t; if(!cached[v][o]) { FieldPtr q = f->getField(Variable(NAME[v]), o); bool empty = true; for(int x = 0; x < 2; x++) empty = empty && !valid((*q)(0, x, 0)); if(ondisk[v] && !empty) load(v, o); else { cache[v][o] = F(2, NONE); cached[v][o] = true; } } break; }
            case 5: mc::check(f->hasVariable(Variable(NAME[v])) == (ondisk[v] || known[v]), "has", NAME[v]); break;
            case 6: f->clear(); for(int k = 0; k < 3; k++) { known[k] = false; for(int q = 0; q < 2; q++) cached[k][q] = false; } mc::check(f->getCacheSize() == 0, "cache", "not empty"); break;
            case 7: { int set = mc::choose(6); NV(set); static const int S[6][2] = {{0, -1}, {2, -1}, {0, 2}, {2, 0}, {1, 0}, {-1, -1}}; std::vector<Variable> wr; for(int k : S[set]) if(k >= 0) { wr.push_back(Variable(NAME[k])); }
                bool r = rejected([&]() { f->write(wr); }); mc::check(!r, "write", "rejected"); if(r) return;
                for(int k : S[set]) if(k >= 0) { if(!ondisk[k]) { for(int q = 0; q < 2; q++) if(!cached[k][q]) { bool unavailable = true; (void)unavailable; disk[k][q] = F(2, NONE); } ondisk[k] = true; for(int q = 0; q < 2; q++) if(!cached[k][q]) { cache[k][q] = F(2, NONE); cached[k][q] = true; } } for(int q = 0; q < 2; q++) load(k, q); for(int q = 0; q < 2; q++) disk[k][q] = cache[k][q]; }
                dt[0] = tm[0]; dt[1] = tm[1]; dref = ref; bool any = valid(el[0]) && el[0] != NONE; if(any) { del[0] = el[0]; del[1] = el[1]; } break; }
            case 8: f.reset(); f.reset(File::getScheme(file, Options())); for(int k = 0; k < 3; k++) { known[k] = false; for(int q = 0; q < 2; q++) cached[k][q] = false; } tm[0] = dt[0]; tm[1] = dt[1]; ref = dref; el[0] = del[0]; el[1] = del[1]; break;
            case 9: tm[1] += 1800; f->setTimes({tm[0], tm[1]}); ref += 60; f->setReferenceTime(ref); break;
            case 10: { bool ok = f->setElevs({{5, MV}}); mc::check(ok && !f->setElevs({{5}, {6}}), "setelevs", "wrong"); el[0] = 5; el[1] = NONE; break; }
        }
    }
    auto all = [&](const std::string& w) {
        mc::op(); for(int v = 0; v < 3; v++) mc::check(f->hasVariable(Variable(NAME[v])) == (ondisk[v] || known[v]), "has" + w, NAME[v]);
        for(int v = 0; v < 3; v++) for(int t = 0; t < 2; t++) get(v, t, false, w);
        std::vector<double> q = f->getTimes(); mc::check(q.size() == 2 && q[0] == tm[0] && q[1] == tm[1], "times" + w, mc::fmt("%.9g %.9g", q[0], q[1])); mc::check(f->getReferenceTime() == ref, "reference" + w, mc::fmt("%.9g", f->getReferenceTime()));
        vec2 e = f->getElevs(); mc::check(same(el[0], e[0][0]) && same(el[1], e[0][1]), "elevs" + w, mc::fmt("%g %g", e[0][0], e[0][1])); };
    all("-end"); for(auto v : {"v", "u"}) { Variable x(v); mc::check(f->getVariable(v, x), "known", v); }
    f.reset(); f.reset(File::getScheme(file, Options(), true)); for(int k = 0; k < 3; k++) { known[k] = false; for(int q = 0; q < 2; q++) cached[k][q] = false; } tm[0] = dt[0]; tm[1] = dt[1]; ref = dref; el[0] = del[0]; el[1] = del[1]; all("-reopened"); f.reset(); unlink(file.c_str());
}
// aliases and levels of one variable in the same file
MC_HARNESS(aliases) {
    quiet(); CloseLeft close; Spec s; s.ne = 1; s.ens = 0; s.ny = 1; s.nx = 2; s.level = 2; std::string file = scratch() + "/a.nc"; create(file, s, {"v", "u"}); std::unique_ptr<File> f(File::getScheme(file, Options()));
    f->addVariableAlias("first", Variable("v", "K", "", 0)); f->addVariableAlias("second", Variable("v", "K", "", 1)); f->addVariableAlias("third", Variable("u", "K", "", 1)); f->addVariableAlias("u", Variable("v", "K", "", 1));
    int depth = mc::range(1, 3); int seen[2][2] = {{-1, -1}, {-1, -1}};
    for(int d = 0; d < depth; d++) {
        mc::site("op"); int k = mc::choose(5), t = mc::choose(2); NV(k); NV(t); static const char* n[] = {"first", "second", "third", "v", "u"}; static const int V[] = {0, 0, 1, 0, 1}, L[] = {0, 1, 1, 0, 0};
        FieldPtr p = f->getField(std::string(n[k]), t); Table w = initial(s, V[k], L[k]), o = initial(s, V[k], 1 - L[k]); mc::op(); int& first = seen[V[k]][t];
        for(int x = 0; x < 2; x++) { double want = w[at(s, t, 0, 0, x)], got = (*p)(0, x, 0); bool ok = same(want, got), otherlevel = !ok && first == 1 - L[k] && same(o[at(s, t, 0, 0, x)], got);
            mc::check(!otherlevel, "levels", mc::fmt("%s time %d: want %g got %g, the level of the variable that was read first", n[k], t, want, got)); if(!otherlevel) mc::check(ok, "value", mc::fmt("%s time %d: want %g got %g", n[k], t, want, got)); }
        if(first < 0) first = L[k];
    }
    f.reset(); unlink(file.c_str());
}
// missing times and reference times
MC_HARNESS(times) {
    quiet(); CloseLeft close; Spec s; s.ne = 1; s.ens = 0; s.ny = 1; s.nx = 2; s.time = mc::choose(2); s.nt = mc::range(1, 3); s.ref = mc::choose(2); s.type = mc::choose(2); std::string file = scratch() + "/t.nc"; create(file, s, {"v", "u"}); NV(s.time); NV(s.nt); NV(s.ref);
    std::vector<double> tm; for(int t = 0; t < s.nt; t++) { tm.push_back(mc::pick({1.6e9 + 3600 * t, 1.6e9 + 60 * t + 0.25, -5e8 + t, (double)MV, (double)NAN})); NV(tm[t]); } double ref = mc::pick({1.6e9 - 3600, 0., (double)MV}); bool setref = mc::flip(); NV(ref); NV(setref);
    std::unique_ptr<File> f(File::getScheme(file, Options())); mc::site("write"); double had = s.ref ? 1.5e9 - 7 : 1.5e9 + 1; mc::check(f->getReferenceTime() == had, "before", mc::fmt("%.9g", f->getReferenceTime())); f->setTimes(tm); if(setref) f->setReferenceTime(ref); else ref = had; bool r = rejected([&]() { f->write({Variable("v")}); }); mc::op(); mc::check(!r, "write", "rejected"); f.reset(); if(r) return;
    mc::site("reopen"); r = rejected([&]() { f.reset(File::getScheme(file, Options(), true)); }); mc::op(); mc::check(!r, "reopen", "rejected"); if(r) return; std::vector<double> g = f->getTimes(); mc::check((int)g.size() == s.nt, "number", mc::fmt("%zu", g.size())); if((int)g.size() != s.nt) return;
    auto miss = [](double x) { return !valid(x); }; for(int t = 0; t < s.nt; t++) mc::check(miss(tm[t]) ? !Util::isValid(g[t]) : g[t] == tm[t], "time", mc::fmt("%d: want %.12g got %.12g", t, tm[t], g[t])); if(miss(ref)) ref = tm[0]; double got = f->getReferenceTime(); mc::check(miss(ref) ? !Util::isValid(got) : got == ref, "reference", mc::fmt("want %.12g got %.12g", ref, got)); field(s, *f, Variable("v"), initial(s, 0, 0), ""); f.reset(); unlink(file.c_str());
}
// attributes of the file and of its variables
MC_HARNESS(attributes) {
    quiet(); CloseLeft close; Spec s; s.ne = 1; s.ens = 0; s.ny = 1; s.nx = 2; std::string file = scratch() + "/b.nc"; create(file, s, {"v", "u"}); std::unique_ptr<File> g(File::getScheme(file, Options())); FileNetcdf* f = dynamic_cast<FileNetcdf*>(g.get()); mc::check(f, "type", "not a NetCDF file"); if(!f) return;
    static const char *A[] = {"source", "new", "history", "Conventions"}, *T[] = {"x", "a b\nc", ""}, *V[] = {"u", "v"}, *W[] = {"units", "note"}; std::map<std::string, std::string> m, vm; m["source"] = "origin"; m["history"] = "first"; vm["uunits"] = vm["vunits"] = "K"; int depth = mc::range(0, mc::thorough() ? 4 : 3);
    auto all = [&](const std::string& w) { mc::op(); for(const char* a : A) mc::check(f->getGlobalAttribute(a) == (m.count(a) ? m[a] : ""), "global" + w, std::string(a) + ": " + f->getGlobalAttribute(a)); for(const char* v : V) for(const char* a : W) { std::string k = std::string(v) + a; mc::check(f->getAttribute(v, a) == (vm.count(k) ? vm[k] : ""), "variable" + w, k + ": " + f->getAttribute(v, a)); } };
    for(int d = 0; d < depth; d++) {
        mc::site("op"); int k = mc::choose(5); NV(k); if(k == 4) { bool r = rejected([&]() { f->write({Variable("v")}, "message"); }); mc::check(!r, "write", "rejected"); if(r) return; std::string h = f->getGlobalAttribute("history"); size_t n = h.find('\n'); if(n == std::string::npos) n = h.size(); mc::check(h.substr(0, n).find("gridpp message") != std::string::npos && (n == h.size() ? "" : h.substr(n + 1)) == m["history"], "history", h); m["history"] = h; if(m.count("Conventions") && m["Conventions"] != "") m["Conventions"] = "CF-1.0"; continue; }
        std::string t = T[mc::choose(3)]; NOTE_(t); if(k == 3) { int v = mc::choose(2), a = mc::choose(2); NV(v); NV(a); f->setAttribute(V[v], W[a], t); vm[std::string(V[v]) + W[a]] = t; } else { int a = mc::choose(4); NV(a); bool has = m.count(A[a]); if(k == 0) { f->setGlobalAttribute(A[a], t); m[A[a]] = t; } else if(k == 1) { f->appendGlobalAttribute(A[a], t); m[A[a]] = has ? m[A[a]] + "\n" + t : t; } else { f->prependGlobalAttribute(A[a], t); m[A[a]] = has ? t + "\n" + m[A[a]] : t; } }
    }
    all(""); field(s, *g, Variable("v"), initial(s, 0, 0), ""); bool r = rejected([&]() { g->write({Variable("v")}, "last"); }); mc::check(!r, "write", "rejected"); g.reset(); g.reset(File::getScheme(file, Options(), true)); f = dynamic_cast<FileNetcdf*>(g.get()); if(!f) return; std::string h = f->getGlobalAttribute("history"); size_t n = h.find('\n'); if(n == std::string::npos) n = h.size(); mc::check(h.substr(0, n).find("gridpp last") != std::string::npos && (n == h.size() ? "" : h.substr(n + 1)) == m["history"], "history-last", h); m["history"] = h; if(m.count("Conventions") && m["Conventions"] != "") m["Conventions"] = "CF-1.0"; all("-reopened"); field(s, *g, Variable("v"), initial(s, 0, 0), "-reopened"); g.reset(); unlink(file.c_str());
}
// coordinates given to a file object
MC_HARNESS(coordinates) {
    quiet(); int ny = mc::range(1, 2), nx = mc::range(1, 2), what = mc::choose(5); NV(ny); NV(nx); NV(what); FileFake f(Options(mc::fmt("nLat=%d nLon=%d nEns=2 nTime=3", ny, nx))); vec2 before[4] = {f.getLats(), f.getLons(), f.getElevs(), f.getLandFractions()};
    if(what == 4) { int a[4], b[4]; bool eq = true; for(int k = 0; k < 4; k++) { a[k] = mc::range(1, 2); b[k] = mc::range(1, 2); eq = eq && a[k] == b[k]; } FileFake p(Options(mc::fmt("nLat=%d nLon=%d nEns=%d nTime=%d", a[0], a[1], a[2], a[3]))), q(Options(mc::fmt("nLat=%d nLon=%d nEns=%d nTime=%d", b[0], b[1], b[2], b[3]))); mc::op(); mc::check(p.hasSameDimensions(q) == eq && q.hasSameDimensions(p) == eq, "dimensions", p.getDimenionString() + q.getDimenionString()); mc::check(p.getDimenionString() == mc::fmt("[%d %d %d %d]", a[3], a[2], a[0], a[1]), "dimensionstring", p.getDimenionString()); return; }
    int my = ny + mc::range(0, 1), mx = nx + mc::range(0, 1); static const float L[4][10] = {{-90, -89.9f, 0, 59.5f, 90, 90.5f, -91, MV, NAN, 12}, {-360, -359.5f, -180, -180.25f, 0, 179.75f, 180.5f, 359, 360.5f, MV}, {0, 100.5f, -30, MV, NAN, 8000, 1, 2, 3, 4}, {0, 0.5f, 1, MV, NAN, 0.25f, 1, 1, 1, 1}}; vec2 v(my, std::vector<float>(mx)); bool size = my == ny && mx == nx; if(!size && my * mx > 2) { for(auto& r : v) for(auto& x : r) x = L[what][2]; } else for(auto& r : v) for(auto& x : r) { int k = mc::choose(10); x = L[what][k]; NV(x); }
    bool bad = false, ok = false; for(auto& r : v) for(auto x : r) if(valid(x)) bad = bad || (what == 0 && std::fabs(x) > 90) || (what == 1 && std::fabs(x) > 360); mc::site("set"); mc::op(); bool r = rejected([&]() { ok = what == 0 ? f.setLats(v) : what == 1 ? f.setLons(v) : what == 2 ? f.setElevs(v) : f.setLandFractions(v); });
    if(!size) { mc::check(r || !ok, "size", "coordinates of another size were accepted"); if(r) return; } else if(bad) { mc::check(r, "range", "accepted"); return; } else if(r) { bool mv = false; for(auto& q : v) for(auto x : q) mv = mv || x == MV; mc::check(mv && what < 2, "rejected", "coordinates of the right size were rejected"); } else mc::check(!r && ok, "rejected", "coordinates of the right size were rejected"); if(r) return;
    vec2 g[4] = {f.getLats(), f.getLons(), f.getElevs(), f.getLandFractions()}; for(int k = 0; k < 4; k++) for(int y = 0; y < ny; y++) for(int x = 0; x < nx; x++) {
        double got = g[k][y][x], want = k == what && size ? v[y][x] : before[k][y][x]; if(k == 1 && k == what && size && valid(want)) { double d = std::fmod(std::fabs(got - want), 360); mc::check(got >= -180.0001 && got <= 180.0001 && std::min(d, 360 - d) < 1e-3, "longitude", mc::fmt("want %g got %g", want, got)); } else mc::check(valid(want) ? got == want : !valid(got), "value", mc::fmt("%d: want %g got %g", k, want, got)); }
}
// files whose dimensions differ from the number of times and members that are to be written
MC_HARNESS(sizes) {
    quiet(); CloseLeft close; Spec s; s.ny = 1; s.nx = 2; s.ne = mc::range(0, 3); s.ens = s.ne > 0; if(!s.ens) s.ne = 1; s.time = mc::choose(3); s.nt = s.time == 2 ? 1 : mc::range(1, 3); int ne = mc::range(1, 3), nt = mc::range(1, 3), existing = mc::choose(2), read = mc::choose(2); NV(s.ne); NV(s.ens); NV(s.time); NV(s.nt); NV(ne); NV(nt); NV(existing); NV(read);
    std::string file = scratch() + "/s.nc"; create(file, s, {"v", "u"}); std::unique_ptr<File> f(File::getScheme(file, Options())); std::string name = existing ? "v" : "w"; Variable v(name);
    mc::site("resize"); std::vector<double> times; for(int t = 0; t < nt; t++) times.push_back(2e9 + 60 * t); bool fits = s.ens ? ne == s.ne : true;
    auto val = [](int t, int e, int x) { return t * 100 + e * 10 + x + 0.5f; };
    bool r = rejected([&]() {
        f->setTimes(times); f->setNumEns(ne); f->initNewVariable(v);
        for(int t = 0; t < nt; t++) { FieldPtr p = f->getField(v, t, true); for(int e = 0; e < ne; e++) for(int x = 0; x < 2; x++) (*p)(0, x, e) = val(t, e, x); }
        if(read) f->getField(Variable("u"), 0);
        f->write({v}); });
    mc::op(); f.reset();
    bool tfits = s.time == 1 || (s.time == 0 && nt <= s.nt) || (s.time == 2 && nt == 1);
    if(fits && tfits) mc::check(!r, "rejected", "dimensions fit"); if(!fits) mc::check(r, "members", "members do not fit but were accepted"); if(s.time == 0 && nt > s.nt) mc::check(r, "times", "times do not fit but were accepted");
    if(r || s.time == 2) { unlink(file.c_str()); return; }
    // a variable without an ensemble dimension holds the first member only
    mc::site("reopen"); f.reset(File::getScheme(file, Options(), true)); int members = existing && !s.ens ? 1 : ne;
    mc::check(f->getNumTime() == std::max(nt, s.nt) && f->getNumEns() == ne, "dimensions", f->getDimenionString()); if(f->getNumTime() < nt || f->getNumEns() != ne) return;
    for(int t = 0; t < nt; t++) { mc::check(f->getTimes()[t] == times[t], "time", mc::fmt("%d: %.9g", t, f->getTimes()[t])); FieldPtr p = f->getField(v, t); for(int e = 0; e < members; e++) for(int x = 0; x < 2; x++) mc::check((*p)(0, x, e) == val(t, e, x), "value", mc::fmt("time %d member %d point %d: want %g got %g", t, e, x, val(t, e, x), (*p)(0, x, e))); }
    f.reset(); unlink(file.c_str());
}
namespace {
const float VALUES[] = {1, -2.5, 0.12345678f, MV, 1234567.75f, 0, 1e-20f, 3e8f};
}
// files with one row per time (point) or per time and location (text)
MC_HARNESS(rows) {
    quiet(); int kind = mc::choose(2), nt = mc::range(1, 3), ne = mc::range(1, 3), nl = kind ? mc::range(1, 3) : 1, tset = mc::choose(3), a = mc::choose(8), b = mc::choose(8); bool nonl = mc::flip(); NV(nonl); NV(kind); NV(nt); NV(ne); NV(nl); NV(tset); NV(a); NV(b);
    std::string file = scratch() + "/r.txt"; unlink(file.c_str()); const double T[3][3] = {{0, 1, 2}, {1500000000, 1500003600, 1500010800}, {6, 12, 24}}; const double LL[3][3] = {{10.123456, -60.5, 3}, {20, 59, 100.25}, {30.5, 170, 0}};
    auto val = [&](int t, int l, int e) { return VALUES[(a + t * 3 + l * 5 + e * b) % 8]; }; std::vector<double> times(T[tset], T[tset] + nt);
    auto check = [&](const File& f, const std::string& w) { mc::op(); mc::check(f.getNumTime() == nt && f.getNumEns() == ne && f.getNumY() == nl && f.getNumX() == 1, "dimensions" + w, f.getDimenionString()); if(f.getNumTime() != nt || f.getNumEns() != ne || f.getNumY() != nl) return; std::vector<double> tt = f.getTimes(); for(int t = 0; t < nt; t++) mc::check(tt[t] == times[t], "time" + w, mc::fmt("%d: want %.9g got %.9g", t, times[t], tt[t]));
        vec2 la = f.getLats(), lo = f.getLons(), el = f.getElevs(); for(int l = 0; l < nl; l++) mc::check(la[l][0] == (float)LL[l][0] && lo[l][0] == (float)LL[l][1] && el[l][0] == (float)LL[l][2], "location" + w, mc::fmt("%d: %g %g %g", l, la[l][0], lo[l][0], el[l][0]));
        for(int t = 0; t < nt; t++) { FieldPtr p = f.getField(Variable("v"), t); for(int l = 0; l < nl; l++) for(int e = 0; e < ne; e++) { float want = val(t, l, e); mc::check((*p)(l, 0, e) == want, "value" + w, mc::fmt("time %d location %d member %d: want %.9g got %.9g", t, l, e, want, (*p)(l, 0, e))); } } };
    Options loc(kind ? "" : mc::fmt("lat=%.9g lon=%.9g elev=%.9g", LL[0][0], LL[0][1], LL[0][2]));
    // the file as a user writes it, with a comment
    mc::site("read"); std::string s = "# comment\n";
    for(int t = 0; t < nt; t++) for(int l = nl - 1; l >= 0; l--) { s += mc::fmt("%d", (int)times[t]); if(kind) s += mc::fmt(" %.9g %.9g %.9g", LL[l][0], LL[l][1], LL[l][2]); for(int e = 0; e < ne; e++) s += mc::fmt(" %.9g", val(t, l, e)); s += "\n"; }
    if(nonl) s.resize(s.size() - 1);      // the last line is not ended
    put(file, s); std::string type = kind ? "type=text" : "type=point ";
    std::unique_ptr<File> f; bool r = rejected([&]() { f.reset(File::getScheme(file, Options(type + loc.toString()))); }); mc::check(!r && f, "open", "rejected"); if(r || !f) return; check(*f, "");
    mc::site("write"); r = rejected([&]() { f->write({Variable("v")}); }); mc::check(!r, "write", "rejected");
    f.reset(); r = rejected([&]() { f.reset(File::getScheme(file, Options(type + loc.toString()))); }); mc::check(!r && f, "reopen", "rejected"); if(r || !f) return; check(*f, "-reopened");
    // changed, with a second variable that is not written
    mc::site("change"); FieldPtr p = f->getEmptyField(); (*p)(nl - 1, 0, ne - 1) = 77.25; f->addField(p, Variable("v"), nt - 1); f->initNewVariable(Variable("other")); f->write({Variable("v")}); f.reset(); f.reset(File::getScheme(file, Options(type + loc.toString())));
    for(int t = 0; t < nt; t++) { FieldPtr q = f->getField(Variable("v"), t); for(int l = 0; l < nl; l++) for(int e = 0; e < ne; e++) { float want = t == nt - 1 ? (l == nl - 1 && e == ne - 1 ? 77.25f : MV) : val(t, l, e); mc::check((*q)(l, 0, e) == want, "changed", mc::fmt("time %d location %d member %d: want %.9g got %.9g", t, l, e, want, (*q)(l, 0, e))); } }
    f.reset(); unlink(file.c_str());
    if(kind == 0) {   // a new output file is created from the options
        mc::site("new"); r = rejected([&]() { f.reset(File::getScheme(file, Options(type + loc.toString() + mc::fmt(" time=%d ens=%d", nt, ne)))); }); mc::check(!r && f, "new", "rejected"); if(r || !f) return;
        mc::check(f->getNumTime() == nt && f->getNumEns() == ne, "newdimensions", f->getDimenionString()); f->setTimes(times); f->initNewVariable(Variable("v"));
        for(int t = 0; t < nt; t++) { FieldPtr q = f->getField(Variable("v"), t, true); for(int e = 0; e < ne; e++) (*q)(0, 0, e) = val(t, 0, e); } f->write({Variable("v")}); f.reset(); f.reset(File::getScheme(file, Options(type + loc.toString()))); check(*f, "-new"); f.reset(); unlink(file.c_str());
        mc::check(rejected([&]() { f.reset(File::getScheme(file, Options(type + loc.toString() + " ens=1"))); }), "missingtime", "a new file without times was accepted"); if(f) return;
        if(ne == 1) { r = rejected([&]() { f.reset(File::getScheme(file, Options(type + loc.toString() + mc::fmt(" time=%d", nt)))); }); mc::check(!r && f->getNumEns() == 1, "defaultens", "the default number of members is not 1"); }
    }
}
// lines of minimum pressure
MC_HARNESS(norcom) {
    quiet(); int nl = mc::range(1, 2), nt = mc::range(1, 3), a = mc::choose(nt), b = mc::choose(nt); NV(nl); NV(nt); NV(a); NV(b); std::string file = scratch() + "/n.txt"; unlink(file.c_str());
    std::string o = std::string("type=norcomQnh ") + (nl == 1 ? "lats=1 lons=2 elevs=3 names=point" : "lats=1,1 lons=2,3 elevs=3,4 names=point,longer") + mc::fmt(" numTimes=%d startTime=%d endTime=%d", nt, a, b);
    std::unique_ptr<File> f; bool r = rejected([&]() { f.reset(File::getScheme(file, Options(o))); }); mc::check(r == (a > b), "times", "start after end"); if(r) return;
    static const float P[] = {101325, 99999.9f, 100000, MV, 100100.2f, 98700}; std::vector<std::vector<float> > p(nl, std::vector<float>(nt)); for(int l = 0; l < nl; l++) for(int t = 0; t < nt; t++) { p[l][t] = P[mc::choose(l ? 4 : 6)]; NV(p[l][t]); }
    std::vector<double> tm; for(int t = 0; t < nt; t++) tm.push_back(1500000000 + 3600 * t); f->setTimes(tm); for(int t = 0; t < nt; t++) { FieldPtr q = f->getEmptyField(); for(int l = 0; l < nl; l++) (*q)(0, l, 0) = p[l][t]; f->addField(q, Variable("QNH"), t); }
    mc::site("write"); r = rejected([&]() { f->write({Variable("QNH")}); }); mc::op(); bool any = true; std::vector<double> want; for(int l = 0; l < nl; l++) { double m = INFINITY; for(int t = a; t <= b; t++) if(valid(p[l][t])) m = std::min<double>(m, p[l][t]); want.push_back(m); any = any && !std::isinf(m); }
    mc::check(r == !any, "missing", r ? "rejected" : "a station without pressure was accepted"); if(r) { unlink(file.c_str()); return; }
    std::string s = slurp(file); for(int l = 0; l < nl; l++) { std::string n = l ? "longer" : "point"; n.resize(nl == 1 ? 5 : 6, ' '); std::string line = "EST MIN QNH " + n + ": " + mc::fmt("%04d HPA", (int)floor(want[l] / 100)); mc::check(s.find(line) != std::string::npos, "line", line + " not in: " + s); }
    mc::check(s.find(mc::fmt("VALID 14%02d40 - 14%02d40 UTC.", 2 + a, 2 + b)) != std::string::npos, "valid", s); unlink(file.c_str());
}
MC_MAIN
