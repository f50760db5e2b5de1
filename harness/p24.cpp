// P24: the command line. Every sequence of command-line items up to a length is given to Setup and to a recursive-descent
// reading of the usage grammar
//   line  := (-va NAME opt*)* group+
//   group := (-v NAME opt* [-vi NAME opt*] | -vi NAME opt* -v NAME opt*) (-d NAME opt* [-p FILE opt*] | -c NAME opt* [-p FILE opt*])*
#include "nc.h"
#include "Setup.h"
#include "File/File.h"
#include "Calibrator/Calibrator.h"
#include "Downscaler/Downscaler.h"
#include "ParameterFile/ParameterFile.h"
using namespace cl;
namespace {
typedef std::vector<std::string> Args;
const std::string A() { return scratch() + "/a.nc"; }
const std::string B() { return scratch() + "/b.nc"; }
const std::string PAR() { return scratch() + "/p.txt"; }
void make(const std::string& f, const Args& vars) {
    int nc, d[3], v; NCC(nc_create(f.c_str(), NC_CLOBBER, &nc));
    NCC(nc_def_dim(nc, "time", 2, &d[0])); NCC(nc_def_dim(nc, "lat", 2, &d[1])); NCC(nc_def_dim(nc, "lon", 2, &d[2]));
    int t, la, lo; NCC(nc_def_var(nc, "time", NC_DOUBLE, 1, d, &t)); NCC(nc_def_var(nc, "lat", NC_FLOAT, 1, d + 1, &la)); NCC(nc_def_var(nc, "lon", NC_FLOAT, 1, d + 2, &lo));
    for(auto& n : vars) { NCC(nc_def_var(nc, n.c_str(), NC_FLOAT, 3, d, &v)); std::string u = "unit_" + n; NCC(nc_put_att_text(nc, v, "units", u.size(), u.c_str())); }
    NCC(nc_enddef(nc)); double ts[] = {0, 3600}; float ll[] = {50, 51}; NCC(nc_put_var_double(nc, t, ts)); NCC(nc_put_var_float(nc, la, ll)); NCC(nc_put_var_float(nc, lo, ll)); NCC(nc_close(nc));
}
void files() { if(exists(PAR())) return; make(A(), {"a", "b"}); make(B(), {"a", "c"}); put(PAR(), "time param\n0 1 2\n1 3 4\n"); }
bool in_a(const std::string& n) { return n == "a" || n == "b" || n == "lat" || n == "lon" || n == "time"; }
bool in_b(const std::string& n) { return n == "a" || n == "c" || n == "lat" || n == "lon" || n == "time"; }
struct Par { bool on = false; std::string file; Options o; };
struct Comp { std::string name; Options o; Par p; };
struct Group { std::string out, in; bool hasIn = false; Options vo, vio; Comp down; std::vector<Comp> cal; };
struct Line { bool reject = false, unspecified = false; std::vector<std::pair<std::string, Options> > alias; std::vector<Group> groups; };
bool flag(const std::string& s) { static const std::set<std::string> F = {"-v", "-vi", "-va", "-d", "-c", "-p"}; return F.count(s); }
struct Parser {
    const Args& a; size_t i; Line r;
    Parser(const Args& a_, size_t i_) : a(a_), i(i_) {}
    bool at(const char* f) { return i < a.size() && a[i] == f; }
    bool fail() { r.reject = true; return false; }
    bool name(std::string& n) { i++; if(i >= a.size() || a[i][0] == '-') return fail(); n = a[i++]; return true; }
    void opts(Options& o) { while(i < a.size() && !flag(a[i])) o.addOptions(a[i++]); }
    bool comp(Comp& c) {
        if(!name(c.name)) return false; opts(c.o);
        while(at("-p")) { if(c.p.on) return fail(); c.p.on = true; c.p.o.clear(); if(!name(c.p.file)) return false; opts(c.p.o); }
        return true;
    }
    bool group() {
        Group g; g.down.name = "nearestNeighbour";
        if(at("-v")) { if(!name(g.out)) return false; opts(g.vo); if(at("-vi")) { g.hasIn = true; if(!name(g.in)) return false; opts(g.vio); } }
        else if(at("-vi")) { g.hasIn = true; if(!name(g.in)) return false; opts(g.vio); if(!at("-v")) return fail(); if(!name(g.out)) return false; opts(g.vo); }
        else return fail();
        while(at("-d") || at("-c")) { Comp c; bool d = at("-d"); if(!comp(c)) return false; if(d) g.down = c; else g.cal.push_back(c); }
        if(at("-p")) return fail();
        if(at("-va")) return fail();   // aliases come before the variables
        r.groups.push_back(g); return true;
    }
    void line() {
        while(at("-va")) { std::pair<std::string, Options> x; if(!name(x.first)) return; opts(x.second); r.alias.push_back(x); }
        do { if(!group() || r.unspecified) return; } while(i < a.size());
    }
};
std::string str(const Options& o) { return "'" + o.toString() + "'"; }
bool scheme(const std::string& n, bool cal) { return cal ? (n == "neighbourhood" || n == "accumulate" || n == "sort") : (n == "nearestNeighbour" || n == "smart" || n == "bypass"); }
bool parok(const Par& p) { std::string t; return !p.on || (exists(p.file) && p.o.getValue("type", t) && t == "text"); }
void same_par(const ParameterFile* f, const Par& p, const std::string& w) {
    mc::check((f != NULL) == p.on, "parameterfile-" + w, p.on ? "missing" : "belongs to another component");
    if(!f || !p.on) return;
    Options want(p.o); want.addOption("file", p.file);
    mc::check(f->getFilename() == p.file, "parameterfilename-" + w, f->getFilename());
    mc::check(f->getOptions() == want, "parameteroptions-" + w, "want " + str(want) + " got " + str(f->getOptions()));
}
struct Meta { std::string units, sn; float mn = MV, mx = MV; };
void addm(Meta& m, const Options& o) { o.getValue("units", m.units); o.getValue("standardName", m.sn); o.getValue("min", m.mn); o.getValue("max", m.mx); }
void same_var(const Variable& v, const std::string& n, const Meta& m, const std::string& w) {
    mc::check(v.name() == n, w, "want " + n + " got " + v.name());
    mc::check(v.units() == m.units, w + "-units", "want " + m.units + " got " + v.units());
    mc::check(v.standardName() == m.sn, w + "-standardname", "want " + m.sn + " got " + v.standardName());
    mc::check(v.min() == m.mn && v.max() == m.mx, w + "-range", mc::fmt("want [%g, %g] got [%g, %g]", m.mn, m.mx, v.min(), v.max()));
}
void judge(const Args& args, size_t from, bool same) {
    Parser p(args, from); p.line(); Line& r = p.r;
    if(args.size() <= from) r.reject = true;
    // meaning of the parsed line
    std::map<std::string, Variable> alias; bool either = false;
    if(!r.reject && !r.unspecified) {
        for(auto& x : r.alias) { std::string n; if(alias.count(x.first)) continue; if(!x.second.getValue("name", n)) { r.reject = true; break; } alias[x.first] = Variable(x.second); }
    }
    std::vector<Group> kept; std::vector<std::string> inname; std::vector<int> found;
    if(!r.reject && !r.unspecified) for(auto& g : r.groups) {
        bool dup = false; for(auto& k : kept) dup = dup || k.out == g.out;
        bool bad = !scheme(g.down.name, false) || !parok(g.down.p); for(auto& c : g.cal) bad = bad || !scheme(c.name, true) || !parok(c.p);
        std::string in = g.hasIn ? g.in : g.out; int f = in_a(in) ? 1 : alias.count(in) ? 2 : 0;
        if(!f && same) for(auto& k : kept) if(k.out == in) f = 3;
        if(!f && g.down.name != "bypass") bad = true;
        if(dup) { either = either || bad; continue; }     // a variable given again is ignored
        if(bad) { r.reject = true; break; }
        kept.push_back(g); inname.push_back(in); found.push_back(f);
    }
    mc::op();
    Setup* s = NULL; bool rej = rejected([&]() { s = new Setup(args); });
    if(r.unspecified || (either && rej)) { delete s; return; }
    mc::check(rej == r.reject, r.reject ? "accepted" : "rejected", r.reject ? "an erroneous command line is accepted" : "a correct command line is rejected");
    if(rej) return;
    mc::check(s->variableConfigurations.size() == kept.size(), "variables", mc::fmt("want %d got %d", (int)kept.size(), (int)s->variableConfigurations.size()));
    mc::check(s->variableAliases.size() == alias.size(), "aliases", mc::fmt("want %d got %d", (int)alias.size(), (int)s->variableAliases.size()));
    for(auto& x : alias) { mc::check(s->variableAliases.count(x.first), "alias", x.first); const Variable& v = s->variableAliases[x.first]; mc::check(v.name() == x.second.name() && v.level() == x.second.level() && v.units() == x.second.units(), "aliasvalue", x.first + ": " + v.name()); }
    std::map<std::string, Meta> outmeta;
    for(size_t k = 0; k < kept.size(); k++) {
        const Group& g = kept[k]; const VariableConfiguration& c = s->variableConfigurations[k]; std::string w = mc::fmt("%d", (int)k);
        Meta om; if((same ? in_a(g.out) : in_b(g.out)) || in_a(g.out)) om.units = (g.out == "lat" || g.out == "lon" || g.out == "time") ? "" : "unit_" + g.out;
        addm(om, g.vo); same_var(c.outputVariable, g.out, om, "outputvariable"); outmeta[g.out] = om;
        if(found[k] == 1 || found[k] == 3) { Meta im; if(found[k] == 3) im = outmeta[inname[k]]; else im.units = (inname[k] == "lat" || inname[k] == "lon" || inname[k] == "time") ? "" : "unit_" + inname[k]; addm(im, g.hasIn ? g.vio : g.vo); same_var(c.inputVariable, inname[k], im, "inputvariable"); }
        if(found[k] == 2) { const Variable& v = alias[inname[k]]; Meta im; im.units = v.units(); im.sn = v.standardName(); im.mn = v.min(); im.mx = v.max(); addm(im, g.hasIn ? g.vio : g.vo); same_var(c.inputVariable, v.name(), im, "inputalias"); mc::check(c.inputVariable.level() == v.level(), "inputalias-level", mc::fmt("%g", c.inputVariable.level())); }
        mc::check(c.outputVariableOptions == g.vo, "variableoptions", "want " + str(g.vo) + " got " + str(c.outputVariableOptions));
        mc::check(c.inputVariableOptions == (g.hasIn ? g.vio : g.vo), "inputoptions", "want " + str(g.hasIn ? g.vio : g.vo) + " got " + str(c.inputVariableOptions));
        mc::check(c.downscaler && c.downscaler->name() == g.down.name, "downscaler", "want " + g.down.name + " got " + c.downscaler->name());
        bool dbg = false; g.down.o.getValue("debug", dbg); mc::check(c.downscaler->debug() == dbg, "downscaleroptions", mc::fmt("debug want %d got %d", (int)dbg, (int)c.downscaler->debug()));   // the only option of a downscaler that can be observed
        same_par(c.parameterFileDownscaler, g.down.p, "downscaler");
        mc::check(c.calibrators.size() == g.cal.size() && c.parameterFileCalibrators.size() == g.cal.size(), "calibrators", mc::fmt("want %d got %d and %d", (int)g.cal.size(), (int)c.calibrators.size(), (int)c.parameterFileCalibrators.size()));
        for(size_t q = 0; q < g.cal.size(); q++) {
            mc::check(c.calibrators[q]->name() == g.cal[q].name, "calibrator", mc::fmt("%d: want ", (int)q) + g.cal[q].name + " got " + c.calibrators[q]->name());
            mc::check(c.calibrators[q]->getOptions() == g.cal[q].o, "calibratoroptions", mc::fmt("%d: want ", (int)q) + str(g.cal[q].o) + " got " + str(c.calibrators[q]->getOptions()));
            same_par(c.parameterFileCalibrators[q], g.cal[q].p, "calibrator");
        }
    }
    for(size_t k = 0; k < kept.size(); k++) { for(auto p : s->variableConfigurations[k].parameterFileCalibrators) delete p; delete s->variableConfigurations[k].parameterFileDownscaler; }
    delete s;
}
std::string show(const Args& a) { std::string s; for(auto& x : a) { size_t p = x.rfind('/'); s += (s.empty() ? "" : " ") + (p == std::string::npos ? x : x.substr(p + 1)); } return s; }
void item(Args& a, int pos) {
    std::string n = std::to_string(pos);
    static const int NORMAL = 16;
    int k = mc::dev(NORMAL > 0 ? 10 : 1);   // 0: a regular item; otherwise an erroneous one
    if(k == 0) switch(mc::choose(NORMAL)) {
        case 0: a.insert(a.end(), {"-v", "a"}); break;
        case 1: a.insert(a.end(), {"-v", "b"}); break;
        case 2: a.insert(a.end(), {"-v", "new"}); break;
        case 3: a.insert(a.end(), {"-vi", "a"}); break;
        case 4: a.insert(a.end(), {"-vi", "al"}); break;
        case 5: a.insert(a.end(), {"-va", "al", "name=b", "level=1"}); break;
        case 6: a.insert(a.end(), {"-va", "bl", "name=a"}); break;
        case 7: a.insert(a.end(), {"-d", "smart"}); break;
        case 8: a.insert(a.end(), {"-d", "bypass"}); break;
        case 9: a.insert(a.end(), {"-c", "neighbourhood"}); break;
        case 10: a.insert(a.end(), {"-c", "accumulate", "k" + n + "=" + n}); break;
        case 11: a.insert(a.end(), {"-p", PAR(), "type=text"}); break;
        case 12: a.insert(a.end(), {"-p", PAR(), "type=text", "q" + n + "=" + n}); break;
        case 13: a.insert(a.end(), {"k" + n + "=" + n, "debug=1"}); break;
        case 14: a.insert(a.end(), {"max=" + n, "units=u" + n}); break;
        case 15: a.insert(a.end(), {"-vi", "new"}); break;
    }
    else switch(k) {
        case 1: a.push_back("-v"); break; case 2: a.push_back("-vi"); break; case 3: a.push_back("-va"); break; case 4: a.push_back("-d"); break; case 5: a.push_back("-c"); break; case 6: a.push_back("-p"); break;
        case 7: a.insert(a.end(), {"-p", PAR()}); break;
        case 8: a.insert(a.end(), {"-d", "foo"}); break;
        case 9: a.insert(a.end(), {"-c", "foo"}); break;
    }
}
}
MC_HARNESS(items) {
    quiet(); files(); CloseLeft cl;
    bool same = mc::flip(); NV(same);
    Args a{A(), same ? A() : B()}; int n = mc::range(0, mc::thorough() ? 6 : 5);
    mc::budget(mc::thorough() ? 2 : 1);
    for(int i = 0; i < n; i++) {
        if(n == (mc::thorough() ? 6 : 5)) mc::budget(0);   // the longest lines have no erroneous items
        item(a, i + 1);
        // what cannot start a line is rejected whatever follows
        if(i == 1 && a[2] != "-v" && a[2] != "-vi" && a[2] != "-va") mc::skip();
    }
    std::string line = show(a); NV(line);
    judge(a, 2, same);
}
// two complete variables, each with any combination of its parts
MC_HARNESS(groups) {
    quiet(); files(); CloseLeft cl;
    bool same = mc::flip(); NV(same); Args a{A(), same ? A() : B()};
    int n = 0; auto opt = [&](const char* key) { n++; if(mc::flip()) a.push_back(std::string(key) + std::to_string(n) + "=" + std::to_string(n)); };
    auto par = [&]() { n++; if(mc::flip()) a.insert(a.end(), {"-p", PAR(), "type=text", mc::fmt("q%d=1", n)}); };
    auto comp = [&](const char* f, const char* c) { a.insert(a.end(), {f, c}); if(f[1] == 'd') { if(mc::flip()) a.push_back("debug=1"); } else opt("o"); par(); };
    for(int g = 0; g < 2; g++) {
        switch(mc::choose(3)) {
            case 0: a.insert(a.end(), {"-v", g ? "b" : "a"}); opt("v"); break;
            case 1: a.insert(a.end(), {"-v", g ? "new" : "out"}); opt("v"); a.insert(a.end(), {"-vi", g ? "a" : "b"}); opt("vi"); break;
            case 2: a.insert(a.end(), {"-vi", g ? "a" : "b"}); opt("vi"); a.insert(a.end(), {"-v", g ? "new" : "out"}); opt("v"); break;
        }
        switch(mc::choose(g ? 5 : 6)) {
            case 0: break;
            case 1: comp("-d", "smart"); break;
            case 2: comp("-c", "neighbourhood"); break;
            case 3: comp("-d", "smart"); comp("-c", "accumulate"); break;
            case 4: comp("-c", "neighbourhood"); comp("-d", "smart"); break;
            case 5: comp("-c", "neighbourhood"); comp("-c", "accumulate"); break;
        }
    }
    std::string line = show(a); NV(line);
    judge(a, 2, same);
}
// files and their options
MC_HARNESS(files) {
    quiet(); files(); CloseLeft cl;
    const std::string a = A(), b = B(), none = scratch() + "/none.nc";
    struct F { Args names; std::string arg; bool bad; };
    std::vector<F> S = {{{a}, a, false}, {{b}, b, false}, {{a, b}, a + "," + b, false}, {{b, a}, b + "," + a, false}, {{a, b}, scratch() + "/?.nc", false}, {{none}, none, true}, {{PAR()}, PAR(), true}};
    std::vector<std::string> O = {"", "k=1", "k=1 l=2", "l=2 k=1", "type=netcdf", "type=foo", "yDim=lat", "yDim=nodim", "latVar=novar"};
    int fi = mc::choose(S.size()), fo = mc::choose(S.size() + 1), oi = mc::choose(O.size()), oo = fo == (int)S.size() ? 0 : mc::choose(O.size());
    Args args{S[fi].arg}; auto add = [&](const std::string& o) { for(auto& x : Util::split(o)) args.push_back(x); };
    add(O[oi]); bool noout = fo == (int)S.size(); if(!noout) { args.push_back(S[fo].arg); add(O[oo]); }
    args.push_back("-v"); args.push_back("a"); std::string line = show(args); NV(line);
    const F& in = S[fi]; const F& out = noout ? S[fi] : S[fo]; std::string io = O[oi], outo = noout ? O[oi] : O[oo];
    auto badopt = [](const std::string& o) { return o == "type=foo" || o == "yDim=nodim" || o == "latVar=novar"; };
    Options Io(io), Oo(outo); bool samefile = false; for(auto& x : in.names) for(auto& y : out.names) samefile = samefile || x == y;
    bool reject = in.bad || out.bad || in.names.size() != out.names.size() || badopt(io) || badopt(outo) || (samefile && Io != Oo);
    mc::op(); Setup* s = NULL; bool rej = rejected([&]() { s = new Setup(args); });
    mc::check(rej == reject, reject ? "accepted" : "rejected", "rejected: " + std::to_string(rej));
    if(rej) return;
    mc::check(s->inputFiles.size() == in.names.size() && s->outputFiles.size() == out.names.size(), "number", mc::fmt("%d inputs, %d outputs", (int)s->inputFiles.size(), (int)s->outputFiles.size()));
    for(size_t i = 0; i < in.names.size(); i++) {
        mc::check(s->inputFiles[i]->getFilename() == in.names[i], "input", s->inputFiles[i]->getFilename()); mc::check(s->outputFiles[i]->getFilename() == out.names[i], "output", s->outputFiles[i]->getFilename());
        mc::check((s->inputFiles[i] == s->outputFiles[i]) == (in.names[i] == out.names[i]), "handle", "one file has two handles");
    }
    mc::check(s->inputOptions == Io && s->outputOptions == Oo, "options", str(s->inputOptions) + " and " + str(s->outputOptions));
    delete s;
}
MC_MAIN
