// P23: option strings. Every sequence of operations up to a depth is applied to an Options object and to a reference
// list of key/value pairs with a set of keys that have been read.
#include "cl.h"
using namespace cl;
namespace {
typedef std::vector<std::pair<std::string, std::string> > Pairs;
struct Model {
    Pairs p; std::set<std::string> read;
    void set(const std::string& k, const std::string& v) {
        if(k.empty() || v.empty()) return;
        for(auto& x : p) if(x.first == k) { x.second = v; return; }
        p.push_back({k, v});
    }
    void parse(const std::string& s) {
        size_t i = 0;
        while(i < s.size()) {
            if(s[i] == ' ') { i++; continue; }
            std::string t; while(i < s.size() && s[i] != ' ') t += s[i++];
            size_t e = t.find('='); if(e == std::string::npos) set(t, "1"); else set(t.substr(0, e), t.substr(e + 1));
        }
    }
    const std::string* find(const std::string& k) const { for(auto& x : p) if(x.first == k) return &x.second; return NULL; }
    std::set<std::string> unread() const { std::set<std::string> u; for(auto& x : p) if(!read.count(x.first)) u.insert(x.first); return u; }
    void clear() { p.clear(); read.clear(); }
};
bool number(const std::string& s, double* v) { char* e; if(s.empty() || isspace(s[0])) return false; for(char c : s) if(!strchr("0123456789+-.eE", c)) return false; *v = strtod(s.c_str(), &e); return *e == 0; }
std::vector<std::string> list(const std::string& v) { std::vector<std::string> r(1); for(char c : v) if(c == ',') r.push_back(""); else r.back() += c; if(r.back().empty()) r.pop_back(); return r; }
const std::vector<std::string> KEYS = {"a", "b", "ab", "c"};
void agree(const Options& o, const Model& m, const std::string& w) {
    mc::op();
    for(auto& k : KEYS) mc::check(o.hasValue(k) == (m.find(k) != NULL), "key" + w, k);
    mc::check(!o.hasValue(""), "emptykey" + w, "an empty key exists");
    // rendering and parsing again gives an equal object with the pairs in order of appearance
    std::string s = o.toString(), want; for(auto& x : m.p) want += (want.empty() ? "" : " ") + x.first + "=" + x.second;
    mc::check(s == want, "render" + w, "want '" + want + "' got '" + s + "'");
    Options again(s); mc::check(again == o && o == again && !(again != o), "roundtrip" + w, s);
}
void unused(const Options& o, const Model& m, const std::string& w) {
    std::set<std::string> u = m.unread(); std::string text; bool ok;
    { Util::setShowWarning(true); Capture c; ok = o.check(); text = c.str(); Util::setShowWarning(false); }
    mc::check(ok == u.empty(), "check" + w, mc::fmt("%d keys unread but check says %d", (int)u.size(), (int)ok));
    for(auto& x : m.p) mc::check((text.find("'" + x.first + "'") != std::string::npos) == (u.count(x.first) > 0), "reported" + w, "key " + x.first + " in: " + text);
}
void get(const Options& o, Model& m, int kind, const std::string& k) {
    const std::string* v = m.find(k); std::string w = "-" + std::to_string(kind); bool got; mc::op();
    double d = 0; bool num = v && number(*v, &d);
    switch(kind) {
        case 0: { std::string x = "keep"; got = o.getValue(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); mc::check(x == (v ? *v : "keep"), "value" + w, "got '" + x + "'"); break; }
        case 1: { int x = -77; got = o.getValue(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); if(!v) mc::check(x == -77, "untouched" + w, mc::fmt("%d", x)); else if(num && fabs(d) < 2e9 && v->find_first_of(".eE") == std::string::npos) mc::check(x == (int)d, "value" + w, mc::fmt("want %g got %d", d, x)); break; }
        case 2: { float x = -77; got = o.getValue(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); if(!v) mc::check(x == -77, "untouched" + w, mc::fmt("%g", x)); else if(num) mc::check(x == (float)d, "value" + w, mc::fmt("want %g got %g", d, x)); break; }
        case 3: { bool x = false; got = o.getValue(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); if(v && (*v == "0" || *v == "1")) mc::check(x == (*v == "1"), "value" + w, *v); if(!v) mc::check(!x, "untouched" + w, k); break; }
        case 4: { std::vector<std::string> x{"old"}; got = o.getValues(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); mc::check(x == (v ? list(*v) : std::vector<std::string>()), "list" + w, mc::fmt("%d values", (int)x.size())); break; }
        case 5: { std::vector<float> x{5}; got = o.getValues(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); if(!v) mc::check(x.empty(), "list" + w, "not empty"); else { auto l = list(*v); mc::check(x.size() == l.size(), "listsize" + w, mc::fmt("want %d got %d", (int)l.size(), (int)x.size())); for(size_t i = 0; i < l.size(); i++) { double e; if(number(l[i], &e)) mc::check(x[i] == (float)e, "element" + w, mc::fmt("%d: want %g got %g", (int)i, e, x[i])); else if(l[i].empty()) mc::check(x[i] == 0 || !valid(x[i]), "emptyelement" + w, mc::fmt("got %g", x[i])); } } break; }
        case 6: { std::vector<int> x{5}; got = o.getValues(k, x); if(v) m.read.insert(k); mc::check(got == (v != NULL), "found" + w, k); if(!v) mc::check(x.empty(), "list" + w, "not empty"); else { auto l = list(*v); mc::check(x.size() == l.size(), "listsize" + w, mc::fmt("want %d got %d", (int)l.size(), (int)x.size())); for(size_t i = 0; i < l.size(); i++) { double e; if(number(l[i], &e) && l[i].find_first_of(".eE") == std::string::npos) mc::check(x[i] == (int)e, "element" + w, mc::fmt("%d: want %g got %d", (int)i, e, x[i])); else if(l[i].empty()) mc::check(x[i] == 0 || x[i] == (int)MV, "emptyelement" + w, mc::fmt("got %d", x[i])); } } break; }
        case 7: { std::string x = "keep"; bool r = rejected([&]() { o.getRequiredValue(k, x); }); if(v) m.read.insert(k); mc::check(r == !v, "required" + w, k); mc::check(x == (v ? *v : "keep"), "value" + w, "got '" + x + "'"); break; }
        case 8: { std::vector<std::string> x{"old"}; bool r = rejected([&]() { o.getRequiredValues(k, x); }); if(v) m.read.insert(k); mc::check(r == !v, "required" + w, k); if(v) mc::check(x == list(*v), "list" + w, mc::fmt("%d values", (int)x.size())); break; }
    }
}
}
MC_HARNESS(sequences) {
    quiet();
    static const std::vector<std::string> STR = {"a=1", "b=x c", " a=2  b=1,2,3 ", "c=", "=3", "ab=0 a=-1.5e3", "c=p=q", "a=,4 b=2,,x"};
    Options o; Model m, om; Options other; int depth = mc::range(1, mc::thorough() ? 5 : 4);
    for(int d = 0; d < depth; d++) {
        mc::site("op");
        // the last operation of a history is an observation; before it, any
        int op = mc::choose(d == depth - 1 ? 7 : 13);
        NV(op);
        switch(op) {
            case 0: unused(o, m, ""); break;
            case 1: case 2: case 3: { const std::string& k = KEYS[op - 1]; NV(k); int kind = mc::choose(9); NV(kind); get(o, m, kind, k); break; }
            case 4: { Options c(o); agree(c, m, "-copy"); unused(c, m, "-copy"); c.addOptions("a=77 zz=4"); agree(o, m, "-original"); break; }
            case 5: { Options e(o.toString()); bool same = e == o; mc::check(same, "equal", o.toString()); Model n = m; n.set("b", "new"); Options f(o); f.addOption("b", "new"); mc::check((f == o) == (n.p == m.p), "unequal", o.toString()); Options g("zz=1"); g.addOptions(o.toString()); mc::check(g != o && !(g == o) && o != g, "extra", "an additional key is ignored"); break; }
            case 6: { int k = 0; mc::check(rejected([&]() { o.getRequiredValue("missing", k); }), "missing", "accepted"); break; }
            case 7: case 8: { const std::string& s = mc::pick(STR); NV(s); o.addOptions(s); m.parse(s); break; }
            case 9: { static const char* V[] = {"9", "", "text"}; std::string k = KEYS[mc::choose(3)], v = V[mc::choose(3)]; NV(k); NV(v); o.addOption(k, v); m.set(k, v); break; }
            case 10: o.addOption("b", 12); o.addOption("", 3); m.set("b", "12"); break;
            case 11: o.clear(); m.clear(); break;
            case 12: { std::swap(o, other); std::swap(m, om); break; }
        }
        agree(o, m, "");
        agree(other, om, "-other");
        unused(o, m, "-end");
    }
    mc::outcome_of(std::vector<int>{(int)m.p.size(), (int)m.read.size()});
}
MC_HARNESS(parse) {
    quiet();
    // every string up to a length over the characters that matter
    static const char C[] = {'a', 'b', '=', ' ', ',', '1', '-'};
    int n = mc::range(0, mc::thorough() ? 7 : 6); std::string s; for(int i = 0; i < n; i++) s += C[mc::choose(7)];
    NV(s); mc::site("parse"); Options o(s); Model m; m.parse(s); mc::op();
    std::string want; for(auto& x : m.p) want += (want.empty() ? "" : " ") + x.first + "=" + x.second;
    mc::check(o.toString() == want, "pairs", "want '" + want + "' got '" + o.toString() + "'");
    for(auto& x : Pairs(m.p)) { mc::check(o.hasValue(x.first), "has", x.first); get(o, m, 0, x.first); get(o, m, 4, x.first); get(o, m, 5, x.first); get(o, m, 6, x.first); }
    mc::check(o.check(), "allread", "keys reported although all were read");
    mc::outcome_of(std::vector<int>{(int)m.p.size(), (int)want.size()});
}
MC_HARNESS(values) {
    quiet();
    // written values come back, also through text
    Options o; int k = mc::choose(4); int x = mc::choose(41); NV(k); NV(x);
    static const float F[] = {0, 1, -1, 0.1f, 2.5f, -999, 1e-5f, 1e10f, 273.15f, 123456, 0.333333f, 100000};
    mc::op(); mc::site("values");
    if(k == 0) { int v = (x - 20) * 104729; o.addOption("a", v); int g = 1; o.getValue("a", g); mc::check(g == v, "int", mc::fmt("want %d got %d", v, g)); }
    if(k == 1) { if(x >= 12) mc::skip(); o.addOption("a", F[x]); float g = 1; o.getValue("a", g); mc::check(fabs(g - F[x]) <= 1e-5 * fabs(F[x]), "float", mc::fmt("want %g got %g", F[x], g)); }
    if(k == 2) { o.addOption("a", x % 2 == 1); bool g = x % 2 == 0; o.getValue("a", g); mc::check(g == (x % 2 == 1), "bool", ""); }
    if(k == 3) { std::string s = std::string(1 + x % 5, 'a' + x % 26) + "/" + std::to_string(x) + ".nc"; o.addOption("a", s); std::string g; o.getValue("a", g); mc::check(g == s, "text", g); }
    mc::outcome_of(std::vector<int>{k, x});
}
MC_MAIN
