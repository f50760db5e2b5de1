// P31: the command-line program end to end: its main function is run on small NetCDF files and the output files are read back
// with the NetCDF library and compared with a direct evaluation of the requested chain.
#include "nc.h"
#include "Downscaler/Downscaler.h"
#include "File/File.h"
#define main gridpp_main
#include "Driver/Gridpp.cpp"
#undef main
using namespace cl;
namespace {
typedef std::vector<std::string> Args; typedef std::vector<double> Table;
const int NT = 3, NE = 2;
struct Grid { int ny, nx; double lat(int y) const { return 50 + (ny == 2 ? y : 0.1 + 0.3 * y); } double lon(int x) const { return 10 + (nx == 3 ? x : 0.2 + 0.9 * x); } };
const Grid IN = {2, 3}, OUT = {4, 2};
// one file: tables of its variables, attributes
struct Data { Grid g; std::map<std::string, Table> v; std::map<std::string, std::string> units, name; double t0, ref; size_t at(int t, int e, int y, int x) const { return ((t * NE + e) * g.ny + y) * g.nx + x; } int cells() const { return NT * NE * g.ny * g.nx; } };
Data make(const Grid& g, const Args& vars, double seed, double t0) {
    Data d; d.g = g; d.t0 = t0; d.ref = t0 - 60; for(auto& n : vars) { Table& t = d.v[n]; t.resize(d.cells()); double s = seed + n[0]; for(size_t i = 0; i < t.size(); i++) t[i] = fmod(s * 7 + i * 5.5, 13) - 3; t[d.at(1, 0, 1, 0)] = MV; t[d.at(0, 1, 0, 1)] = MV; d.units[n] = "u" + n; d.name[n] = "n" + n; } return d;
}
void save(const std::string& f, const Data& d) {
    int nc, dm[4], v, t, la, lo, r; NCC(nc_create(f.c_str(), NC_CLOBBER, &nc)); NCC(nc_def_dim(nc, "time", NT, &dm[0])); NCC(nc_def_dim(nc, "ensemble_member", NE, &dm[1])); NCC(nc_def_dim(nc, "lat", d.g.ny, &dm[2])); NCC(nc_def_dim(nc, "lon", d.g.nx, &dm[3]));
    NCC(nc_def_var(nc, "time", NC_DOUBLE, 1, dm, &t)); NCC(nc_def_var(nc, "lat", NC_FLOAT, 1, dm + 2, &la)); NCC(nc_def_var(nc, "lon", NC_FLOAT, 1, dm + 3, &lo)); NCC(nc_def_var(nc, "forecast_reference_time", NC_DOUBLE, 0, NULL, &r)); std::map<std::string, int> id;
    for(auto& k : d.v) { NCC(nc_def_var(nc, k.first.c_str(), NC_FLOAT, 4, dm, &v)); id[k.first] = v; for(auto& a : {std::make_pair("units", d.units.at(k.first)), std::make_pair("standard_name", d.name.at(k.first))}) NCC(nc_put_att_text(nc, v, a.first, a.second.size(), a.second.c_str())); }
    NCC(nc_put_att_text(nc, NC_GLOBAL, "history", 5, "first")); NCC(nc_put_att_text(nc, NC_GLOBAL, "source", 6, "origin")); NCC(nc_enddef(nc));
    for(int i = 0; i < NT; i++) { size_t s = i; double x = d.t0 + 3600 * i; NCC(nc_put_var1_double(nc, t, &s, &x)); } NCC(nc_put_var_double(nc, r, &d.ref)); for(int y = 0; y < d.g.ny; y++) { size_t s = y; double x = d.g.lat(y); NCC(nc_put_var1_double(nc, la, &s, &x)); } for(int k = 0; k < d.g.nx; k++) { size_t s = k; double x = d.g.lon(k); NCC(nc_put_var1_double(nc, lo, &s, &x)); }
    for(auto& k : d.v) { Table t = k.second; for(double& x : t) if(x == MV) x = NC_FILL_FLOAT; NCC(nc_put_var_double(nc, id[k.first], t.data())); } NCC(nc_close(nc));
}
std::string att(int nc, int v, const char* a) { size_t l; if(nc_inq_attlen(nc, v, a, &l) != NC_NOERR) return ""; std::vector<char> b(l + 1, 0); NCC(nc_get_att_text(nc, v, a, b.data())); return b.data(); }
// calibrators
struct Cal { Args args; void (*f)(Data&, const std::string&); };
void each(Data& d, const std::string& v, double (*f)(int, double)) { for(int i = 0; i < d.cells(); i++) if(valid(d.v[v][i])) d.v[v][i] = f(i / (d.cells() / NT), d.v[v][i]); }
std::string par() { return scratch() + "/par.txt"; }
std::vector<Cal> cals() {
    return {
        {{"-c", "qc", "min=0", "max=6.5"}, [](Data& d, const std::string& v) { each(d, v, [](int, double x) { return std::min(std::max(x, 0.0), 6.5); }); }},
        {{"-c", "sort"}, [](Data& d, const std::string& v) { for(int t = 0; t < NT; t++) for(int y = 0; y < d.g.ny; y++) for(int x = 0; x < d.g.nx; x++) { Table s; for(int e = 0; e < NE; e++) if(valid(d.v[v][d.at(t, e, y, x)])) s.push_back(d.v[v][d.at(t, e, y, x)]); std::sort(s.begin(), s.end()); s.resize(NE, MV); for(int e = 0; e < NE; e++) d.v[v][d.at(t, e, y, x)] = s[e]; } }},
        {{"-c", "regression", "-p", par(), "type=text"}, [](Data& d, const std::string& v) { each(d, v, [](int t, double x) { return t == 0 ? 1 + 2 * x : t == 1 ? 3 - 0.5 * x : x - 1; }); }},
        {{"-c", "neighbourhood", "radius=1", "stat=max"}, [](Data& d, const std::string& v) { Table o = d.v[v]; for(int t = 0; t < NT; t++) for(int e = 0; e < NE; e++) for(int y = 0; y < d.g.ny; y++) for(int x = 0; x < d.g.nx; x++) { double m = -1e9; for(int i = std::max(0, y - 1); i <= std::min(d.g.ny - 1, y + 1); i++) for(int j = std::max(0, x - 1); j <= std::min(d.g.nx - 1, x + 1); j++) if(valid(o[d.at(t, e, i, j)])) m = std::max(m, o[d.at(t, e, i, j)]); d.v[v][d.at(t, e, y, x)] = m == -1e9 ? MV : m; } }},
        {{"-c", "accumulate"}, [](Data& d, const std::string& v) { int n = d.cells() / NT; for(int i = 0; i < n; i++) { double s = 0; for(int t = 0; t < NT; t++) { double x = d.v[v][t * n + i]; if(t) s = valid(s) && valid(x) ? s + x : MV; d.v[v][t * n + i] = s; } } }},
        {{"-c", "diagnoseWind", "x=a", "y=b", "compute=speed"}, [](Data& d, const std::string& v) { if(!d.v.count("a")) d.v["a"] = Table(d.cells(), MV); Table A = d.v["a"], B = d.v["b"]; for(int i = 0; i < d.cells(); i++) if(valid(A[i]) && valid(B[i])) d.v[v][i] = sqrt(A[i] * A[i] + B[i] * B[i]); }},
    };
}
struct Block { std::string out, in; int down = 0 /*default nearest bypass*/, write = 0 /*default 1 0*/, attr = 0; bool first = false; std::vector<int> cal; };
Args block(const Block& b, const std::vector<Cal>& C) {
    Args a, v = {"-v", b.out}, i; if(b.write) v.push_back(b.write == 1 ? "write=1" : "write=0"); if(b.attr == 1) v.push_back("units=new"); if(b.attr == 2) v.push_back("standardName=new"); if(b.in != "") i = {"-vi", b.in}; if(b.first) { a = i; a.insert(a.end(), v.begin(), v.end()); } else { a = v; a.insert(a.end(), i.begin(), i.end()); }
    if(b.down) { a.push_back("-d"); a.push_back(b.down == 1 ? "nearestNeighbour" : "bypass"); } for(int c : b.cal) a.insert(a.end(), C[c].args.begin(), C[c].args.end()); return a;
}
// direct evaluation. in may be the same object as out
void evaluate(const std::vector<Block>& B, const std::vector<Cal>& C, Data& in, Data& out, std::set<std::string>& written) {
    std::set<std::string> seen;
    for(auto& b : B) {
        if(seen.count(b.out)) continue; seen.insert(b.out); std::string iv = b.in == "" ? b.out : b.in; if(!out.v.count(b.out)) { out.v[b.out] = Table(out.cells(), MV); auto u = in.units.find(b.out); if(u != in.units.end()) { out.units[b.out] = u->second; out.name[b.out] = in.name[b.out]; } }
        if(b.attr == 1) out.units[b.out] = "new"; if(b.attr == 2) out.name[b.out] = "new"; if(b.write != 2) written.insert(b.out);
        if(b.down != 2) { Table n(out.cells()); for(int t = 0; t < NT; t++) for(int e = 0; e < NE; e++) for(int y = 0; y < out.g.ny; y++) for(int x = 0; x < out.g.nx; x++) { int p = 0, q = 0; double best = 1e9; for(int i = 0; i < in.g.ny; i++) for(int j = 0; j < in.g.nx; j++) { double k = M_PI / 180, dy = in.g.lat(i) - out.g.lat(y), dx = (in.g.lon(j) - out.g.lon(x)) * cos((in.g.lat(i) + out.g.lat(y)) / 2 * k), D = dx * dx + dy * dy; if(D < best) { best = D; p = i; q = j; } } n[out.at(t, e, y, x)] = in.v[iv][in.at(t, e, p, q)]; } out.v[b.out] = n; }
        for(int c : b.cal) C[c].f(out, b.out);
    }
}
int start(const Args& a, bool& failed, std::string& said) {
    Downscaler::clearCache(); std::vector<const char*> v = {"gridpp"}; for(auto& s : a) v.push_back(s.c_str()); int r = -1; Capture c; try { r = gridpp_main(v.size(), v.data()); failed = false; } catch(const std::exception& e) { failed = true; } said = c.str(); quiet(); return r;
}
bool near(double w, double g) { return valid(w) ? std::fabs(w - g) <= 1e-5 * std::max(1.0, std::fabs(w)) : !valid(g) || std::fabs(g) > 1e36; }
// the file equals the expectation: written variables from want, the rest from before
void compare(const std::string& f, const Data& before, const Data& want, const std::set<std::string>& written, const Data& times, const std::string& cmd) {
    int nc; NCC(nc_open(f.c_str(), NC_NOWRITE, &nc)); std::set<std::string> have; int nv; NCC(nc_inq_nvars(nc, &nv)); for(int i = 0; i < nv; i++) { char b[300]; NCC(nc_inq_varname(nc, i, b)); have.insert(b); } std::set<std::string> all = {"time", "lat", "lon", "forecast_reference_time"}; for(auto& k : before.v) all.insert(k.first); all.insert(written.begin(), written.end()); std::string hs, as; for(auto& x : have) hs += x + " "; for(auto& x : all) as += x + " "; mc::check(have == all, "variables", "the output has variables " + hs + ", want " + as); if(have != all) { nc_close(nc); return; }
    double tm[NT], rf; int id; NCC(nc_inq_varid(nc, "time", &id)); NCC(nc_get_var_double(nc, id, tm)); for(int t = 0; t < NT; t++) mc::check(tm[t] == times.t0 + 3600 * t, "times", mc::fmt("time %d is %.1f", t, tm[t])); NCC(nc_inq_varid(nc, "forecast_reference_time", &id)); NCC(nc_get_var_double(nc, id, &rf)); mc::check(rf == times.ref, "reference", mc::fmt("%.1f", rf));
    std::string h = att(nc, NC_GLOBAL, "history"); mc::check(h.find(cmd) != std::string::npos && h.size() >= 5 && h.substr(h.size() - 5) == "first" && att(nc, NC_GLOBAL, "source") == "origin", "history", h);
    for(auto& n : all) if(before.v.count(n) || written.count(n)) {
        bool w = written.count(n); const Data& d = w ? want : before; const Table& x = d.v.at(n); int v, nd, dm[4]; NCC(nc_inq_varid(nc, n.c_str(), &v)); NCC(nc_inq_varndims(nc, v, &nd)); NCC(nc_inq_vardimid(nc, v, dm)); mc::check(nd == 4, "dimensions", n); if(nd != 4) continue; Table g(d.cells()); NCC(nc_get_var_double(nc, v, g.data()));
        for(int i = 0; i < d.cells(); i++) { mc::check(near(x[i], g[i]), w ? "value" : "untouched", mc::fmt("%s cell %d: want %g got %g", n.c_str(), i, x[i], g[i])); } auto at = [](const std::map<std::string, std::string>& m, const std::string& k) { auto i = m.find(k); return i == m.end() ? std::string() : i->second; };
        mc::check(att(nc, v, "units") == at(d.units, n) && att(nc, v, "standard_name") == at(d.name, n), "attributes", n + ": units '" + att(nc, v, "units") + "' name '" + att(nc, v, "standard_name") + "', want '" + at(d.units, n) + "' '" + at(d.name, n) + "'");
    }
    nc_close(nc);
}
void params() { if(!exists(par())) put(par(), "time param\n0 1 2\n1 3 -0.5\n2 -1 1\n"); }
// mode 0: separate files, 1: one file, 2: two pairs, 3: one file given twice; extra arguments in front and behind
void check_run(const std::vector<Block>& B, int mode, const Args& alias = {}, const Args& tail = {}) {
    CloseLeft cl; params(); std::vector<Cal> C = cals(); int n = mode == 2 ? 2 : 1; bool one = mode == 1 || mode == 3; std::vector<Data> in, out, old; std::string fi, fo;
    for(int k = 0; k < n; k++) { Data i = make(IN, {"a", "b", "d"}, k * 3, 1e9 + k * 86400), o = make(OUT, {"a", "b", "e"}, 40 + k, 2e9); std::string s = mc::fmt("%d.nc", k); if(one) { i.v["e"] = i.v["d"]; i.units["e"] = "ue"; i.name["e"] = "ne"; } save(scratch() + "/in" + s, i); if(!one) save(scratch() + "/out" + s, o); in.push_back(i); out.push_back(one ? i : o); fi += (k ? "," : "") + scratch() + "/in" + s; fo += (k ? "," : "") + scratch() + "/out" + s; } old = out;
    Args a = {fi}; if(mode != 1) a.push_back(one ? fi : fo); a.insert(a.end(), alias.begin(), alias.end()); for(auto& b : B) { Args x = block(b, C); a.insert(a.end(), x.begin(), x.end()); } a.insert(a.end(), tail.begin(), tail.end()); std::string cmd, shown; for(auto& s : a) { cmd += (cmd.empty() ? "" : " ") + s; shown += " " + (s.find("/") == std::string::npos ? s : s.find(",") != std::string::npos ? "in,in" : s.substr(s.rfind('/') + 1)); } NOTE_(shown); mc::site("main");
    bool failed; std::string said; mc::op(); int r = start(a, failed, said); mc::check(!failed && r == 0, "failed", "the run failed: " + said.substr(0, 1000)); if(failed || r) return;
    for(int k = 0; k < n; k++) { std::set<std::string> w; if(one) evaluate(B, C, out[k], out[k], w); else evaluate(B, C, in[k], out[k], w); std::string s = mc::fmt("%d.nc", k); compare(scratch() + (one ? "/in" : "/out") + s, old[k], out[k], w, one ? old[k] : in[k], cmd); if(!one) { int nc; NCC(nc_open((scratch() + "/in" + s).c_str(), NC_NOWRITE, &nc)); Data i0 = make(IN, {"a", "b", "d"}, k * 3, 1e9 + k * 86400); for(auto& x : i0.v) { int v; NCC(nc_inq_varid(nc, x.first.c_str(), &v)); Table g(i0.cells()); NCC(nc_get_var_double(nc, v, g.data())); for(int i = 0; i < i0.cells(); i++) mc::check(near(x.second[i], g[i]), "input-changed", x.first); } mc::check(att(nc, NC_GLOBAL, "history") == "first", "input-changed", "history"); nc_close(nc); } }
}
}
// one variable: every chain of calibrators
MC_HARNESS(chain) {
    Block b; b.out = mc::pick(Args{"a", "d", "n"}); if(b.out == "n") b.in = "d"; b.down = mc::choose(3); int n = mc::range(0, mc::thorough() ? 4 : 3); for(int i = 0; i < n; i++) b.cal.push_back(mc::choose(6)); int mode = mc::choose(mc::thorough() ? 4 : 3); check_run({b}, mode);
}
// several variables, each with a few deviations from '-v x'
MC_HARNESS(variables) {
    int n = mc::range(2, 3); mc::budget(mc::thorough() ? (n == 2 ? 3 : 2) : (n == 2 ? 2 : 1)); std::vector<Block> B; static const char* O[] = {"a", "b", "d", "n", "e"}; for(int i = 0; i < n; i++) { Block b; int k = mc::choose(4); b.out = O[k]; int in = mc::dev(4); b.in = in ? O[in - 1] : ""; if(k == 3 && in == 0) b.in = "a"; bool may = i == 0 || B.back().in != "" || B.back().down || !B.back().cal.empty(); b.first = b.in != "" && may && mc::dev(2); /* else -vi would belong to the variable before */ b.down = mc::dev(3); b.write = mc::dev(3); b.attr = mc::dev(3); int c = mc::dev(7); if(c) b.cal.push_back(c - 1); int c2 = c ? mc::dev(7) : 0; if(c2) b.cal.push_back(c2 - 1); B.push_back(b); } int mode = mc::choose(3); check_run(B, mode);
}
// aliases, debug levels
MC_HARNESS(extras) {
    Block b; b.out = mc::pick(Args{"a", "n"}); int al = mc::choose(4); b.in = al ? "al" : b.out == "n" ? "d" : ""; b.cal = {mc::choose(6)}; Args alias; if(al) alias = {"-va", "al", al == 2 ? "name=b" : "name=d"}; if(al == 3) { alias.push_back("-va"); alias.push_back("other"); alias.push_back("name=a"); } Args tail; int dbg = mc::choose(6); if(dbg) { tail = {"--debug", mc::pick(Args{"quiet", "error", "warn", "info"})}; if(dbg == 2) { alias.insert(alias.begin(), tail.begin(), tail.end()); tail.clear(); } if(dbg > 2) tail[1] = dbg == 3 ? "info" : dbg == 4 ? "error" : "quiet"; }
    // an alias refers to another variable of the input file
    Block e = b; std::vector<Block> B = {b}; if(al) { CloseLeft cl; params(); std::vector<Cal> C = cals(); Data i = make(IN, {"a", "b", "d"}, 0, 1e9), o = make(OUT, {"a", "b", "e"}, 40, 2e9), old = o; std::string fi = scratch() + "/in0.nc", fo = scratch() + "/out0.nc"; save(fi, i); save(fo, o); Args a = {fi, fo}; a.insert(a.end(), alias.begin(), alias.end()); Args x = block(b, C); a.insert(a.end(), x.begin(), x.end()); a.insert(a.end(), tail.begin(), tail.end()); std::string cmd; for(auto& s : a) cmd += (cmd.empty() ? "" : " ") + s; mc::site("main"); bool failed; std::string said; mc::op(); NOTE_(cmd.substr(fi.size() + fo.size())); int r = start(a, failed, said); mc::check(!failed && r == 0, "failed", said); if(failed || r) return; e.in = al == 2 ? "b" : "d"; std::set<std::string> w; evaluate({e}, C, i, o, w); compare(fo, old, o, w, i, cmd); } else check_run(B, 0, {}, tail);
}
// erroneous invocations: a failure, and the output as it was
MC_HARNESS(errors) {
    CloseLeft cl; params(); std::string fi = scratch() + "/in0.nc", fo = scratch() + "/out0.nc", bad = scratch() + "/none.nc", txt = par(); Data i = make(IN, {"a", "b", "d"}, 0, 1e9), o = make(OUT, {"a", "b", "e"}, 40, 2e9); save(fi, i); save(fo, o); Args head = {fi, fo}; Args good = {"-v", "a", "-d", "nearestNeighbour", "-c", "qc", "min=0"};
    struct Bad { const char* name; Args head, tail; }; std::vector<Bad> L = { {"no input", {bad, fo}, good}, {"no output", {fi, bad}, good}, {"text input", {txt, fo}, good}, {"text output", {fi, txt}, good}, {"unequal", {fi + "," + fi, fo}, good}, {"unknown type", {fi, "type=none", fo}, good}, {"nothing", {fi, fo}, {}}, {"unknown option first", {fi, fo}, {"-x", "a"}}, {"no variable name", {fi, fo}, {"-v"}}, {"variable not in input", {fi, fo}, {"-v", "zz"}}, {"input variable missing", {fi, fo}, {"-v", "a", "-vi", "zz"}}, {"input without output", {fi, fo}, {"-vi", "a"}}, {"unknown downscaler", {fi, fo}, {"-v", "a", "-d", "zz"}}, {"no downscaler", {fi, fo}, {"-v", "a", "-d"}}, {"unknown calibrator", {fi, fo}, {"-v", "a", "-c", "zz"}}, {"no calibrator", {fi, fo}, {"-v", "a", "-c"}}, {"parameters first", {fi, fo}, {"-v", "a", "-p", txt, "type=text"}}, {"no parameter type", {fi, fo}, {"-v", "a", "-c", "regression", "-p", txt}}, {"bad parameter type", {fi, fo}, {"-v", "a", "-c", "regression", "-p", txt, "type=zz"}}, {"no parameter file", {fi, fo}, {"-v", "a", "-c", "regression", "-p", bad, "type=text"}}, {"parameters required", {fi, fo}, {"-v", "a", "-c", "regression"}}, {"parameters refused", {fi, fo}, {"-v", "a", "-c", "diagnoseWind", "x=a", "y=zz", "compute=speed"}}, {"required option", {fi, fo}, {"-v", "a", "-c", "diagnoseWind", "x=a", "y=b"}}, {"bad option value", {fi, fo}, {"-v", "a", "-c", "neighbourhood", "stat=zz"}}, {"alias without name", {fi, fo}, {"-va", "al", "-v", "a"}}, {"alias late", {fi, fo}, {"-v", "a", "-va", "al", "name=b"}}, {"debug level", {fi, fo}, {"-v", "a", "--debug"}} };
    int k = mc::choose(L.size()), pre = mc::choose(3), post = mc::choose(2); Bad b = L[k]; NOTE_(b.name); NV(pre); NV(post); Args a = b.head; if(pre && b.tail.size() && b.tail[0] == "-v") { a.insert(a.end(), {"-v", "b", "-c", pre == 1 ? "accumulate" : "sort"}); } else if(pre) mc::skip(); a.insert(a.end(), b.tail.begin(), b.tail.end()); if(post) { if(b.tail.empty() || b.tail[0] == "-x" || b.tail[0] == "-vi" || b.tail.back() == "-v" || b.tail.back() == "-d" || b.tail.back() == "-c" || b.tail.back() == "--debug") mc::skip(); a.insert(a.end(), {"-v", "d"}); }
    mc::site("main"); bool failed; std::string said; mc::op(); int r = start(a, failed, said); if(b.name == std::string("debug level") || b.name == std::string("parameters refused") || true) mc::check(failed || r != 0, "accepted", std::string(b.name) + ": the run succeeded: " + said.substr(0, 500)); mc::check(said.find("rror") != std::string::npos || said.find("nvalid") != std::string::npos, "message", std::string(b.name) + ": no error message: " + said);
    CloseLeft(); int nc; NCC(nc_open(fo.c_str(), NC_NOWRITE, &nc)); for(auto& x : o.v) { int v; NCC(nc_inq_varid(nc, x.first.c_str(), &v)); Table g(o.cells()); NCC(nc_get_var_double(nc, v, g.data())); for(int c = 0; c < o.cells(); c++) mc::check(near(x.second[c], g[c]), "output-changed", x.first); } nc_close(nc);
}
// usage and version
MC_HARNESS(usage) {
    Args a; int k = mc::choose(6); static const char* W[] = {"", "--help", "--version", "x", "--help", "--version"}; if(k) a.push_back(W[k]); if(k > 3) { a.insert(a.begin(), "in"); a.push_back("out"); } bool failed; std::string said; mc::site("usage"); mc::op(); int r = start(a, failed, said); mc::check(!failed && r == 0, "usage-failed", said.substr(0, 300)); if(k == 2 || k == 5) { mc::check(said == std::string("gridpp version ") + Util::gridppVersion() + "\n", "version", said); return; } mc::check(said.find("usage:") != std::string::npos && said.find("-v var") != std::string::npos, "usage", said.substr(0, 300)); bool full = k == 1 || k == 4; for(const char* n : {"nearestNeighbour", "gradient", "bilinear", "zaga", "qc", "regression", "window", "text", "netcdf"}) mc::check(said.find(n) != std::string::npos, "usage-lists", n); mc::check((said.find("edgePolicy") != std::string::npos) == full, "usage-full", mc::fmt("%d", full));
}
MC_MAIN
