// P25: parameter files. Histories of setting parameters are followed by every lookup, by writing and reading the file again as
// text and NetCDF, and compared with a table of the values set. Text and NetCDF files in every supported layout are read.
#include "nc.h"
#include <array>
#include "ParameterFile/ParameterFile.h"
using namespace cl;
namespace {
typedef std::vector<float> V;
struct Loc { float lat, lon, elev; bool operator<(const Loc& o) const { return lat != o.lat ? lat < o.lat : lon < o.lon; } };
typedef std::map<int, V> Times;
struct Table {
    std::map<Loc, Times> m; bool global = false, elev = true; mutable bool back = false; // lookups go back and forth, so that each is repeated after the table has changed
    void set(const V& v, int t, const Loc& l) { m[l][t] = v; }
    bool timedep() const { for(auto& x : m) for(auto& y : x.second) if(y.first > 0) return true; return false; }
    int maxtime() const { int k = 0; for(auto& x : m) for(auto& y : x.second) k = std::max(k, y.first); return k; }
};
double dist(const Loc& a, double lat, double lon) {
    const double R = 6.378137e6, D = M_PI / 180; double x = sin((a.lat - lat) * D / 2), y = sin((a.lon - lon) * D / 2);
    return 2 * R * asin(std::min(1.0, sqrt(x * x + cos(a.lat * D) * cos(lat * D) * y * y)));
}
bool present(const V& v) { for(float x : v) if(valid(x)) return true; return false; }
std::string str(const V& v) { std::string s = "["; for(float x : v) s += mc::fmt(" %.9g", x); return s + " ]"; }
bool equal(const V& a, const V& b, double rel) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!(fabs(a[i] - b[i]) <= rel * fabs(b[i])) && a[i] != b[i]) return false; return true; }
bool missing(const V& v) { return !present(v); }
// all lookups of the file against the table; values may have been written with limited precision
void lookups(const ParameterFile& f, const Table& t, double rel, bool cycle, const std::string& w) {
    static const double Q[][2] = {{60, 10}, {60, 11}, {85, 170}, {85, -170}, {0, 0}, {84, -178}, {60, 10.6}, {89, 0}, {-10, 179}, {60.2, 10.1}, {-90, 0}};
    int n = t.maxtime() + 1; bool td = t.timedep(); std::vector<std::array<double, 2> > qs; for(auto& q : Q) qs.push_back({q[0], q[1]}); if(t.back) std::reverse(qs.begin(), qs.end()); t.back = !t.back;
    for(int time = 0; time < n + (cycle ? 2 * n + 1 : 0); time++) {
        int tt = !td ? 0 : time % n;
        if(t.global) {
            V want; auto it = t.m.begin()->second.find(tt); if(it != t.m.begin()->second.end()) want = it->second;
            V got; mc::op(); bool r = rejected([&]() { got = f.getParameters(time).getValues(); });
            mc::check(!r && (missing(want) ? missing(got) : equal(got, want, rel)), "global" + w, mc::fmt("time %d: want ", time) + str(want) + " got " + (r ? "error" : str(got)));
        }
        for(auto& q : qs) {
            double best = INFINITY; for(auto& x : t.m) { auto it = x.second.find(tt); if(it != x.second.end()) best = std::min(best, t.global ? 0 : dist(x.first, q[0], q[1])); }
            V got; Location near(MV, MV, MV); mc::op(); bool found = false;
            bool r = rejected([&]() { got = f.getParameters(time, Location(q[0], q[1], 7)).getValues(); found = f.getNearestLocation(tt, Location(q[0], q[1], 7), near); });
            mc::check(!r, "rejected" + w, mc::fmt("time %d at %g,%g", time, q[0], q[1]));
            if(std::isinf(best)) { mc::check(missing(got), "missing" + w, mc::fmt("time %d at %g,%g: no parameters for this time but got ", time, q[0], q[1]) + str(got)); continue; }
            bool ok = false; std::string c; bool nearok = t.global;
            for(auto& x : t.m) { auto it = x.second.find(tt); if(it == x.second.end()) continue; double d = t.global ? 0 : dist(x.first, q[0], q[1]); if(d <= best + 5 + 1e-6 * best) { ok = ok || equal(got, it->second, rel) || (missing(it->second) && missing(got)); c += " " + str(it->second); nearok = nearok || (found && fabs(near.lat() - x.first.lat) < 1e-3 && fabs(near.lon() - x.first.lon) < 1e-3); } }
            mc::check(ok, "nearest" + w, mc::fmt("time %d at %g,%g: want", time, q[0], q[1]) + c + " got " + str(got));
            mc::check(nearok, "location" + w, mc::fmt("time %d at %g,%g: got %g,%g", time, q[0], q[1], near.lat(), near.lon()));
        }
        if(!t.global) for(auto& x : t.m) {
            V want; auto it = x.second.find(tt); if(it != x.second.end()) want = it->second;
            V got; bool r = rejected([&]() { got = f.getParameters(time, Location(x.first.lat, x.first.lon, 3), false).getValues(); });
            mc::check(!r && (missing(want) ? missing(got) : equal(got, want, rel)), "exact" + w, mc::fmt("time %d at %g,%g: want ", time, x.first.lat, x.first.lon) + str(want) + " got " + (r ? "error" : str(got)));
        }
    }
    if(!t.global) { std::vector<Location> l = f.getLocations(); mc::check(l.size() == t.m.size(), "locations" + w, mc::fmt("want %d got %d", (int)t.m.size(), (int)l.size())); for(auto& x : l) { auto it = t.m.find(Loc{x.lat(), x.lon(), 0}); mc::check(it != t.m.end() && (w == "" || !t.elev || it->first.elev == x.elev()), "locationvalue" + w, mc::fmt("%g,%g,%g", x.lat(), x.lon(), x.elev())); } }
    V got; bool r = rejected([&]() { got = f.getParameters(-1, Location(0, 0, 0)).getValues(); });
    mc::check(r || missing(got), "negativetime" + w, str(got));
    if(!cycle && td) { r = rejected([&]() { got = f.getParameters(n, Location(0, 0, 0)).getValues(); }); mc::check(r || missing(got), "latetime" + w, str(got)); }
    mc::check(f.isLocationDependent() == !t.global, "locationdependent" + w, "wrong"); mc::check(f.isTimeDependent() == td, "timedependent" + w, "wrong");
}
const Loc LOCS[] = {{60, 10, 100}, {60, 11, MV}, {85, 170, 0}, {85, -170, 5}, {0, 0, 12.5}};
const float VALS[] = {1, -2.5, 0.12345678f, 1e-20f, 1234567.75f, 0, 3e8f};
}
MC_HARNESS(histories) {
    quiet(); CloseLeft cl; Capture cap;
    bool global = mc::flip(); NV(global); bool cycle = mc::flip(); NV(cycle); int np = mc::range(1, 2); NV(np);
    Options o("file=" + scratch() + "/new.txt"); if(cycle) o.addOption("cycle", "1");
    ParameterFileText f(o, true); Table t; t.global = global;
    int n = mc::range(1, mc::thorough() ? 4 : 3); NV(n);
    std::vector<Loc> L(LOCS, LOCS + 5);
    { V got; mc::site("empty"); bool r = rejected([&]() { got = f.getParameters(0, Location(60, 10, 0)).getValues(); }); mc::check(r || missing(got), "emptyfile", str(got));
      r = rejected([&]() { got = f.getParameters(0).getValues(); }); mc::check(r || missing(got), "emptyfile", str(got)); Location l(1, 2, 3); mc::check(rejected([&]() { r = f.getNearestLocation(0, Location(60, 10, 0), l); }) || !r, "emptynearest", "a location is found in an empty file"); mc::site("set"); }
    for(int k = 0; k < n; k++) {
        int time = mc::choose(3), l = global ? 0 : mc::choose(5), miss = k == 0 ? 0 : mc::choose(2); NV(time); NV(l); NV(miss);
        V v; for(int p = 0; p < np; p++) v.push_back(miss ? MV : VALS[(k * np + p) % 7]);
        if(global) { f.setParameters(Parameters(v), time); Loc g{MV, MV, MV}; t.set(v, time, g); }
        else { f.setParameters(Parameters(v), time, Location(L[l].lat, L[l].lon, L[l].elev)); t.set(v, time, L[l]); }
        f.recomputeTree();
        lookups(f, t, 0, cycle, "");
    }
    std::string txt = scratch() + "/written.txt"; mc::op();
    mc::check(!rejected([&]() { f.write(txt); }), "writetext", "rejected");
    { ParameterFile* g = NULL; Options ro("file=" + txt); if(cycle) ro.addOption("cycle", "1"); bool r = rejected([&]() { g = ParameterFile::getScheme("text", ro); }); mc::check(!r, "readtext", "the written file cannot be read:\n" + slurp(txt)); if(g) lookups(*g, t, 0, cycle, "-text"); delete g; }
    unlink(txt.c_str());
}
// the same for NetCDF files, which take longer to write
MC_HARNESS(netcdf_write) {
    quiet(); CloseLeft cl; Capture cap;
    std::string file = scratch() + "/new.nc"; unlink(file.c_str());
    bool named = mc::flip(); NV(named); Options o("file=" + file); if(named) { o.addOption("dimName", "number"); o.addOption("varName", "values"); }
    int np = mc::range(1, 2); NV(np); Table t; int n = mc::range(1, mc::thorough() ? 3 : 2); NV(n); bool order = mc::flip(); NV(order);
    ParameterFileNetcdf* f = new ParameterFileNetcdf(o, true);
    for(int k = 0; k < n; k++) {
        int time = mc::choose(2), l = mc::choose(5); int miss = k == 0 ? 0 : mc::choose(2); NV(time); NV(l); NV(miss);
        V v; for(int p = 0; p < np; p++) v.push_back(miss ? MV : VALS[(k * np + p) % 7]);
        f->setParameters(Parameters(v), time, Location(LOCS[l].lat, LOCS[l].lon, LOCS[l].elev)); t.set(v, time, LOCS[l]); if(order) f->recomputeTree();
    }
    f->recomputeTree();
    for(auto& x : t.m) for(int k = 0; k <= t.maxtime(); k++) if(!x.second.count(k)) x.second[k] = V(np, MV);   // absent entries are stored as missing values
    mc::op(); bool r = rejected([&]() { f->write(); }); mc::check(!r, "writenetcdf", "rejected"); delete f; if(r) return;
    ParameterFile* g = NULL; r = rejected([&]() { g = ParameterFile::getScheme("netcdf", o); }); mc::check(!r, "readnetcdf", "the written file cannot be read");
    if(g) lookups(*g, t, 0, false, "-netcdf"); delete g; unlink(file.c_str());
}
// text files in every column order, with comments, missing columns and other defects
MC_HARNESS(text_read) {
    quiet(); CloseLeft cl;
    bool tc = mc::flip(), lc = mc::flip(); int np = mc::range(1, 2), rows = mc::range(1, 3), comment = mc::choose(3), perm = mc::choose(lc ? (tc ? 8 : 4) : (tc ? 3 : 1)); bool dup = mc::flip(); int nonl = mc::flip();
    int defect = mc::choose(7); NV(tc); NV(lc); NV(np); NV(rows); NV(perm); NV(defect); NV(dup); NV(nonl);
    std::vector<std::string> cols; if(tc) cols.push_back("time"); if(lc) { cols.push_back("lat"); cols.push_back("lon"); cols.push_back("elev"); }
    for(int p = 0; p < np; p++) cols.push_back(p ? "b" : "a");
    // permutations: rotations and reversals of the columns
    int rot = perm % (lc ? 4 : 3); std::rotate(cols.begin(), cols.begin() + rot % cols.size(), cols.end()); if(perm >= 4) std::reverse(cols.begin(), cols.end());
    if(!tc && !lc) rows = 1;
    Table t; t.global = !lc; std::string s; bool reject = false;
    if(comment == 1) s += "# time lat lon\n";
    std::string head; for(auto& c : cols) head += (head.empty() ? "" : " ") + c; s += head + "\n";
    for(int r = 0; r < rows; r++) {
        int time = tc ? (dup ? 0 : r) : 0; const Loc& l = LOCS[lc ? (tc && dup ? r : r * 2) % 5 : 0]; V v; int p = 0; std::string line;
        for(auto& c : cols) {
            float x = c == "time" ? time : c == "lat" ? l.lat : c == "lon" ? l.lon : c == "elev" ? l.elev : VALS[(r + 3 * p++) % 7];
            if(c == "a" || c == "b") v.push_back(x);
            line += (line.empty() ? "" : " ") + (c == "time" ? mc::fmt("%d", time) : mc::fmt("%.9g", x));
        }
        if(comment == 2 && r == 1) s += "#0 1 2 3\n";
        if(defect == 1 && r == rows - 1) { line += " 5"; reject = rows > 1; if(rows == 1) v.push_back(5); }    // one more value than the other rows
        if(defect == 2 && r == 0) { size_t b = line.find(' '); if(b != std::string::npos) { line = "x" + line.substr(b); reject = true; } else { line = "x"; reject = true; } }
        s += line + "\n"; if(lc) t.set(v, time, l); else { Loc g{MV, MV, MV}; t.set(v, time, g); }
    }
    if(defect == 3) { s = head + "\n"; reject = true; }                 // no rows
    if(defect == 4 && lc) { size_t b = s.find("elev", s.find(head)); s.replace(b, 4, "other"); reject = true; }  // incomplete location
    if(defect == 5) { s = ""; reject = true; }
    if(defect == 6 && (tc || lc) && rows > 1) { size_t b = s.find(tc ? "time" : "lat", s.find(head)); s.replace(b, tc ? 4 : 3, "z"); reject = !tc || !lc; if(tc && lc) return; }   // no column tells the rows apart
    if(nonl && !s.empty()) s.resize(s.size() - 1);      // the last line is not ended
    std::string f = scratch() + "/read.txt"; put(f, s); ParameterFile* g = NULL; mc::op();
    bool r = rejected([&]() { g = ParameterFile::getScheme("text", Options("file=" + f)); });
    mc::check(r == reject, r ? "rejected" : "accepted", s);
    if(g && !reject) lookups(*g, t, 0, false, ""); delete g;
}
// NetCDF files with any order of the dimensions
MC_HARNESS(netcdf_read) {
    quiet(); CloseLeft cl;
    int names = mc::choose(3), nlat = mc::range(1, 2), nlon = mc::range(1, 2), nc = mc::range(1, 2), time = mc::choose(4);   // 0: no time, 1: time dimension of one, 2: two, 3: two but not in the coefficients
    int grid = mc::choose(3);          // 0: one-dimensional, 1: (lat, lon), 2: (lon, lat)
    bool alt = mc::flip(); int perm = mc::choose(time == 1 || time == 2 ? 24 : 6), fill = mc::choose(3);
    NV(names); NV(nlat); NV(nlon); NV(nc); NV(time); NV(grid); NV(alt); NV(perm); NV(fill);
    static const char* N[3][4] = {{"lat", "lon", "lat", "lon"}, {"latitude", "longitude", "latitude", "longitude"}, {"y", "x", "latitude", "longitude"}};
    int nt = time == 0 ? 1 : time == 1 ? 1 : 2; bool hast = time == 1 || time == 2;
    std::string file = scratch() + "/read.nc"; int id, dT = -1, dY, dX, dC, vy, vx, va = -1, vt = -1, v;
    NCC(nc_create(file.c_str(), NC_CLOBBER, &id)); if(time) NCC(nc_def_dim(id, "time", nt, &dT)); NCC(nc_def_dim(id, N[names][0], nlat, &dY)); NCC(nc_def_dim(id, N[names][1], nlon, &dX)); NCC(nc_def_dim(id, "coeff", nc, &dC));
    int g1[1], g2[2]; g2[0] = grid == 2 ? dX : dY; g2[1] = grid == 2 ? dY : dX;
    g1[0] = dY; NCC(nc_def_var(id, N[names][2], NC_FLOAT, grid ? 2 : 1, grid ? g2 : g1, &vy)); g1[0] = dX; NCC(nc_def_var(id, N[names][3], NC_FLOAT, grid ? 2 : 1, grid ? g2 : g1, &vx));
    int ga[2] = {dY, dX}; if(alt) NCC(nc_def_var(id, "altitude", NC_FLOAT, 2, ga, &va));
    if(time) NCC(nc_def_var(id, "time", NC_DOUBLE, 1, &dT, &vt));
    std::vector<int> dims; if(hast) dims.push_back(dT); dims.push_back(dY); dims.push_back(dX); dims.push_back(dC);
    std::sort(dims.begin(), dims.end()); for(int k = 0; k < perm; k++) std::next_permutation(dims.begin(), dims.end());
    NCC(nc_def_var(id, "coefficient", NC_FLOAT, dims.size(), dims.data(), &v)); float FV = -7777; if(fill == 1) NCC(nc_put_att_float(id, v, "_FillValue", NC_FLOAT, 1, &FV));
    NCC(nc_enddef(id));
    auto lat = [&](int y, int x) { return 60.f + y * 10 + (grid ? x : 0); }; auto lon = [&](int y, int x) { return 10.f + x * 7 + (grid ? y : 0); };
    std::vector<float> la(4), lo(4), al(4), val(64); double ts[] = {0, 3600};
    for(int y = 0; y < nlat; y++) for(int x = 0; x < nlon; x++) { int i = grid == 2 ? x * nlat + y : y * nlon + x; if(grid) { la[i] = lat(y, x); lo[i] = lon(y, x); } else { la[y] = lat(y, x); lo[x] = lon(y, x); } al[y * nlon + x] = 100 * y + x; }
    Table t; t.elev = false;
    for(int k = 0; k < nt; k++) for(int y = 0; y < nlat; y++) for(int x = 0; x < nlon; x++) { V p; for(int c = 0; c < nc; c++) {
        float z = 1000 * (hast ? k : 0) + 100 * y + 10 * x + c + 0.5f; bool m = fill && y == nlat - 1 && x == 0 && (hast ? k : 0) == 0; size_t pos = 0;
        for(int d : dims) { int size = d == dT ? nt : d == dY ? nlat : d == dX ? nlon : nc, at = d == dT ? k : d == dY ? y : d == dX ? x : c; pos = pos * size + at; }
        val[pos] = m ? (fill == 1 ? FV : NC_FILL_FLOAT) : z; p.push_back(m ? MV : z); }
        if(hast || k == 0) t.set(p, k, Loc{lat(y, x), lon(y, x), 0}); }
    if(time == 3) for(auto& x : t.m) x.second[1] = x.second[0];
    NCC(nc_put_var_float(id, vy, la.data())); NCC(nc_put_var_float(id, vx, lo.data())); if(alt) NCC(nc_put_var_float(id, va, al.data())); if(time) NCC(nc_put_var_double(id, vt, ts)); NCC(nc_put_var_float(id, v, val.data())); NCC(nc_close(id));
    ParameterFile* g = NULL; mc::op(); bool r = rejected([&]() { g = ParameterFile::getScheme("netcdf", Options("file=" + file)); });
    mc::check(!r, "rejected", "a correct file is rejected"); if(g) lookups(*g, t, 0, false, ""); delete g;
}
MC_MAIN
