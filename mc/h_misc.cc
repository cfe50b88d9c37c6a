// C23 configuration sets, C27 lifetimes, C28 type builder
#include "rmodel.hh"
#include "regs.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/typebuilder.hh>
#include <typelib/typevisitor.hh>
#include <typelib/memory_layout.hh>
#include <typelib/value_ops.hh>
#include <typelib/typedisplay.hh>
#include <typelib/csvoutput.hh>
#include <typelib/value.hh>
#include <typelib/utilmm/configset.hh>
#include <libxml/parser.h>
#include <sstream>
#include <memory>
#include <functional>
#include <limits.h>
#include <string.h>
#include <algorithm>
using namespace std;
using namespace Typelib;
using namespace rm;
using mc::Ctx;
using utilmm::config_set;

// ---------------------------------------------------------------- C23
namespace
{
    struct Conf { map<string, list<string>> values; map<string, vector<int>> children; int id = 0; };
    // what a text is worth; false if it is refused
    bool as_bool(string const& s, bool& v) { v = s == "true" || s == "1"; return v || s == "false" || s == "0"; }
    bool as_int(string const& s, int& v)
    {
        size_t i = (s[0] == '-' || s[0] == '+') ? 1 : 0; if (i == s.size()) return false;
        long long x = 0; for (size_t k = i; k < s.size(); ++k) { if (!isdigit((unsigned char)s[k])) return false; x = x * 10 + (s[k] - '0'); if (x > 1ll << 33) return false; }
        if (s[0] == '-') x = -x; if (x < INT_MIN || x > INT_MAX) return false; v = x; return true;
    }
    template<typename T> struct Got { bool thrown; T value; bool operator==(Got const& o) const { return thrown == o.thrown && (thrown || value == o.value); } };
    template<typename T> Got<T> read(config_set const& s, string const& k, T const& d) { Got<T> g; g.thrown = false; try { g.value = s.get<T>(k, d); } catch (boost::bad_lexical_cast const&) { g.thrown = true; } return g; }
    template<typename T> void text_of(ostream& s, T const& t) { s << t; }
    template<typename T> void text_of(ostream& s, list<T> const& t) { for (auto& x : t) s << x << ","; }
    template<typename T> string text(Got<T> const& g) { if (g.thrown) return "refused"; ostringstream s; text_of(s, g.value); return s.str(); }
    template<typename T, typename F> void one_kind(config_set const& s, list<string> const* v, string const& k, T d, F conv, string const& what, string const& trace)
    {
        Got<T> want = { false, d }; Got<list<T>> lwant; lwant.thrown = false; list<T> ld(2, d); lwant.value = ld;
        if (v && !v->empty())
        {
            lwant.value.clear();
            for (auto& x : *v) { T t; if (!conv(x, t)) { lwant.thrown = true; break; } lwant.value.push_back(t); }
            if (lwant.thrown) want.thrown = true; else want.value = lwant.value.front();
        }
        // with several values, one that is not looked at may be refused or not
        Got<T> got = read<T>(s, k, d); Got<list<T>> lgot = read<list<T>>(s, k, ld);
        bool lax = false;
        if (v && v->size() > 1 && want.thrown) { T t; if (conv(v->front(), t)) { lax = true; if (!got.thrown) MC_CHECK(got.value == t, "get:" + what, trace); } }
        if (!lax) MC_CHECK(got == want, "get:" + what, "get(\"" + k + "\") gave " + text(got) + " instead of " + text(want) + "\n" + trace);
        MC_CHECK(lgot == lwant, "get list:" + what, "get(\"" + k + "\") gave " + text(lgot) + " instead of " + text(lwant) + "\n" + trace);
    }
    void compare(Ctx& c, config_set const& s, Conf const& m, vector<string> const& keys, map<config_set const*, int> const& ids, string const& trace)
    {
        bool none = true;
        for (auto& k : keys)
        {
            auto it = m.values.find(k); list<string> const* v = it == m.values.end() ? nullptr : &it->second;
            auto ch = m.children.find(k); vector<int> const kids = ch == m.children.end() ? vector<int>() : ch->second;
            if ((v && !v->empty()) || !kids.empty()) none = false;
            one_kind<string>(s, v, k, "dflt", [](string const& x, string& y) { y = x; return true; }, "string", trace);
            one_kind<int>(s, v, k, -77, as_int, "int", trace);
            one_kind<bool>(s, v, k, true, as_bool, "bool", trace);
            one_kind<bool>(s, v, k, false, as_bool, "bool", trace);
            MC_CHECK(s.exists(k) == ((v && !v->empty()) || !kids.empty()), "exists", k + trace);
            vector<int> got; for (auto* x : s.children(k)) got.push_back(ids.at(x));
            MC_CHECK(got == kids, "children", k + trace);
            config_set const& first = s.child(k);
            if (kids.empty()) MC_CHECK(first.empty(), "child", "a missing child is not an empty set " + trace);
            else MC_CHECK(ids.at(&first) == kids[0], "child", k + trace);
            c.step(8);
        }
        MC_CHECK(s.empty() == none, "empty", trace);
    }
}
// all sequences of operations
MC_BODY("C23", "sequences")
{
    vector<string> const keys = { "a", "ab", "b" }; vector<string> const vals = { "1", "0", "x" };
    int depth = c.thorough ? 5 : 4, n = 1 + c.choose(depth, "length"); vector<int> ops; ops.push_back(c.choose(22, "op")); if (n > 1) ops.push_back(c.choose(22, "op")); c.unit();
    vector<int> later; for (int i = 2; i < n; ++i) later.push_back(c.choose(22, "op"));
    for (int round = 0; round < 2; ++round)
    {
        long before = mc::live_allocs;
        {
            config_set s; Conf m; map<config_set const*, int> ids; int next = 0; ostringstream tr;
            for (int i = 0; i < n; ++i)
            {
                int o = i < 2 ? ops[i] : later[i - 2];
                // 7 operations on each key, and one on an unknown one
                if (o == 21) { s.erase("zz"); s.set("zz", list<string>()); tr << " erase zz"; continue; }
                string k = keys[o / 7];
                switch (o % 7)
                {
                    case 0: { string v = vals[i % 3]; s.set(k, v); m.values[k] = { v }; tr << " set " << k << "=" << v; break; }
                    case 1: { list<string> v = { vals[(i + 1) % 3], "true" }; s.set(k, v); m.values[k] = v; tr << " set list " << k; break; }
                    case 2: { string v = i % 2 ? "-12" : "7"; s.insert(k, v); m.values[k].push_back(v); tr << " insert " << k; break; }
                    case 3: { list<string> v = { "false", "2147483647", "0" }; s.insert(k, v); for (auto& x : v) m.values[k].push_back(x); tr << " insert list " << k; break; }
                    case 4: { s.erase(k); m.values.erase(k); tr << " erase " << k; break; }
                    case 5: { config_set* x = new config_set(&s); x->set("in", to_string(next)); s.insert(k, x); ids[x] = next; m.children[k].push_back(next++); MC_CHECK(x->parent() == &s && const_cast<config_set const*>(x)->parent() == &s, "parent", tr.str()); tr << " child " << k; break; }
                    case 6: { if (i % 2) s.insert(k, list<string>()); else { s.set(k, list<string>()); m.values.erase(k); } tr << (i % 2 ? " insert nothing " : " set empty list ") << k; break; }
                }
            }
            MC_CHECK(!s.parent(), "parent", "a set that was given no parent has one");
            if (!round) compare(c, s, m, { "a", "ab", "b", "zz", "" }, ids, "\nafter" + tr.str());
            if (!round) for (auto& x : ids) MC_CHECK(x.first->get<int>("in") == x.second, "child content", tr.str());
        }
        // the first round also allocates what is allocated once
        if (round) MC_CHECK(mc::live_allocs == before, "leak", mc::fmt("%ld blocks left", mc::live_allocs - before));
        c.step(n);
    }
    uint64_t h = n; for (int o : ops) h = h * 31 + o; c.state(h);
}
// all short texts, converted to everything
MC_BODY("C23", "conversions")
{
    string const al = c.thorough ? "019-+ .xtrue" : "019-+ .xt"; static vector<string> const words = { "true", "false", "True", "TRUE", "1.0", "yes", "true ", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967296", "4294967297", "18446744073709551617", "00", "01", "-0", "1e3", "0x1" };
    int len = c.choose(6, "length"); string s; if (len == 5) { s = c.pick(words, "word"); c.unit(); } else for (int i = 0; i < len; ++i) { s += al[c.choose(al.size(), "character")]; if (i == 0) c.unit(); }
    if (len == 0) c.unit();
    for (int alone = 0; alone < 3; ++alone)
    {
        config_set k; Conf m; if (alone == 1) { k.set("k", list<string> { "1", s }); m.values["k"] = { "1", s }; } else if (alone == 2) { k.set("k", list<string> { s, "0" }); m.values["k"] = { s, "0" }; } else { k.set("k", s); m.values["k"] = { s }; }
        // lexical casts of "" and of odd signs to numbers are not what matters here
        compare(c, k, m, { "k", "j" }, {}, "\nvalue '" + s + "'");
    }
    c.state(s);
}

// ---------------------------------------------------------------- C28
namespace
{
    // a reference type expression: what it is built from, and its modifiers, the outermost last. 0 for pointers
    struct Expr { string base; vector<int> mods; };
    string build(RM& m, Expr const& e) { string t = m.resolve(e.base); for (int x : e.mods) t = x ? m.array(t, x) : m.pointer(t); return t; }
    RM universe(int which)
    {
        RM m; m.numeric("/int", 4, regs::SINT); m.compound("/N/C", regs::one("x", "/int"), 8); m.numeric("/unsigned int", 4, regs::UINT); m.vec("/int");
        if (which & 1) { m.alias("/N/C", "/Al"); m.alias("/int", "/N/int"); m.alias("/Al", "/N/Al2"); }
        if (which & 2) { m.array(m.pointer("/int"), 2); m.array(m.array("/N/C", 2), 3); m.pointer(m.array("/N/C", 3)); }
        if (which & 4) { m.alias(m.pointer("/N/C"), "/PC"); m.alias(m.array("/int", 3), "/N/Arr"); m.alias(m.array("/N/Arr", 2), "/AA"); }
        return m;
    }
    vector<string> const BASES = { "/int", "/N/C", "/Al", "/PC", "/N/Arr", "/AA", "/std/vector</int>", "/unsigned int", "/int*", "/N/C[2][3]" };
    void check_builder(Type const& got, string const& want, RM const& m, string const& id, string const& trace)
    {
        MC_CHECK(got.getName() == want, id + ":name", got.getName() + " instead of " + want + trace); Def const& d = m.types.at(want);
        MC_CHECK(got.getSize() == d.size, id + ":size", want + trace);
    }
}
// sequences of operations of a builder
MC_BODY("C28", "operations")
{
    int u = c.choose(8, "registry"), n = 1 + c.choose(c.thorough ? 5 : 4, "length"), b = c.choose(BASES.size(), "base"); c.unit();
    RM m = universe(u); Registry r; create(m, r); m = snapshot(r, "operations");
    string base = BASES[b]; if (!m.has(base)) throw mc::Prune();
    string cur = m.resolve(base), trace = "\nfrom " + base;
    list<string> words; { stringstream s(base); string w; while (s >> w) words.push_back(w); }
    TypeBuilder x(r, words), y(r, r.get(base));
    check_builder(x.getType(), cur, m, "operations:start", trace); check_builder(y.getType(), cur, m, "operations:start", trace);
    for (int i = 0; i < n; ++i)
    {
        int o = c.choose(8, "op");
        switch (o)
        {
            case 0: case 1: case 2: { trace += mc::fmt(" pointer %d", o); x.addPointer(o); y.addPointer(o); for (int k = 0; k < o; ++k) cur = m.pointer(cur); break; }
            case 3: case 4: case 5: { trace += mc::fmt(" major %d", o); x.addArrayMajor(o); y.addArrayMajor(o); cur = m.array(cur, o); break; }
            case 6: case 7:
            {
                int k = o == 6 ? 2 : 7; trace += mc::fmt(" minor %d", k); x.addArrayMinor(k); y.addArrayMinor(k);
                vector<size_t> dims; while (m.types[cur].cat == 'a') { dims.push_back(m.types[cur].dim); cur = m.types[cur].elem; }
                cur = m.array(cur, k); for (size_t d = dims.size(); d-- > 0;) cur = m.array(cur, dims[d]);
            }
        }
        check_builder(x.getType(), cur, m, "operations", trace); MC_CHECK(&x.getType() == &y.getType() && &x.getType() == r.get(cur), "operations:identity", trace);
        c.step(2);
    }
    RM got = snapshot(r, "operations");
    MC_CHECK(got == m, "operations:registry", diff(m, got) + trace);
    c.state(m.text());
}
namespace
{
    // the reading of a name: 1 good, 0 bad, 2 not specified
    int reference_parse(string const& s, string& base, vector<int>& mods)
    {
        string t = s; mods.clear();
        while (!t.empty())
        {
            char e = t[t.size() - 1];
            if (e == ' ') { t.erase(t.size() - 1); continue; }
            if (e == '*') { mods.insert(mods.begin(), 0); t.erase(t.size() - 1); continue; }
            if (e == ']')
            {
                size_t at = t.rfind('['); if (at == string::npos) return 0;
                string d = t.substr(at + 1, t.size() - at - 2); if (d.find_first_not_of("0123456789 ") != string::npos || d.empty()) return 0;
                if (d.find(' ') != string::npos || d.size() > 6 || atoi(d.c_str()) == 0) return 2;
                mods.insert(mods.begin(), atoi(d.c_str())); t.erase(at); continue;
            }
            break;
        }
        base = t;
        if (t.size() < 2) return 2;
        return 1;
    }
}
// names, read
MC_BODY("C28", "names")
{
    string const al = "/A[]2*<>0 "; int len = 2 + c.choose(c.thorough ? 6 : 4, "length"); string s = "/A";
    // what follows the name of a type
    for (int i = 0; i < len; ++i) { s += al[c.choose(al.size(), "character")]; if (i == 1) c.unit(); }
    string base; vector<int> mods; int want = reference_parse(s, base, mods);
    bool thrown = false; TypeBuilder::ParsedTypename got; string gb;
    try { got = TypeBuilder::parseTypename(s); gb = TypeBuilder::getBaseTypename(s); } catch (std::runtime_error const&) { thrown = true; }
    c.step(2);
    if (want == 0) MC_CHECK(thrown, "names:accepted", s);
    if (want == 1)
    {
        MC_CHECK(!thrown, "names:refused", s);
        vector<int> gm; for (auto& m : got.second) { if (m.category == Type::Pointer) for (int k = 0; k < m.size; ++k) gm.push_back(0); else gm.push_back(m.size); }
        MC_CHECK(got.first == base && gb == base, "names:base", s + " gave " + got.first + " and " + gb);
        MC_CHECK(gm == mods, "names:modifiers", s);
        c.count("names");
    }
    c.state(mc::hash(s));
}
// names, built
MC_BODY("C28", "build")
{
    vector<string> const B = { "/int", "/N/C", "/Al", "/PC", "/N/Arr", "/AA", "/std/vector</int>", "/unsigned int", "/None", "/N/Al2" };
    int u = c.choose(8, "registry"), b = c.choose(B.size(), "base"), how = c.choose(3, "by"); c.unit(); int n = c.choose(c.thorough ? 5 : 4, "modifiers"); Expr e; e.base = B[b]; string name = e.base;
    for (int i = 0; i < n; ++i) { int k = c.choose(4, "modifier"); int d = (int[]) { 0, 1, 3, 12 }[k]; int sp = c.choose(i < 2 ? 2 : 1, "space"); e.mods.push_back(d); if (sp) name += " "; name += d ? mc::fmt("[%d]", d) : string("*"); }
    RM m = universe(u); Registry r; create(m, r); m = snapshot(r, "build"); RM before = m;
    if (!m.has(e.base))
    {
        Type const* t = (Type const*)1; bool undefined = false;
        if (how == 0) t = TypeBuilder::build(r, name);
        if (how == 1) { t = TypeBuilder::getBaseType(r, name); }
        if (how == 2) { try { TypeBuilder::parse(r, name); } catch (Undefined const& x) { undefined = x.getName() == e.base; } }
        MC_CHECK(how == 2 ? undefined : t == nullptr, "build:unknown", name);
        RM got = snapshot(r, "build"); MC_CHECK(got == before, "build:changed", diff(before, got)); c.step(); return;
    }
    string want = m.resolve(e.base); MC_CHECK(TypeBuilder::getBaseType(r, name) == r.get(e.base), "build:base", name);
    { RM got = snapshot(r, "build"); MC_CHECK(got == before, "build:changed", diff(before, got)); }
    want = build(m, e); Type const* t;
    if (how == 0) t = TypeBuilder::build(r, name);
    else if (how == 1) { TypeBuilder::TypeSpec s = TypeBuilder::parse(r, name); t = &TypeBuilder::build(r, s, 0); }
    else { t = TypeBuilder::build(r, name); MC_CHECK(t == TypeBuilder::build(r, name), "build:again", name); }
    MC_CHECK(t, "build:nothing", name);
    check_builder(*t, want, m, "build", "\n" + name); MC_CHECK(t == r.get(want), "build:identity", name);
    RM got = snapshot(r, "build"); MC_CHECK(got == m, "build:registry", diff(m, got) + name); c.step(3);
    c.state(m.text());
}

// ---------------------------------------------------------------- C27
namespace
{
    void ignore_xml(void*, char const*, ...) {}
    void quiet()
    {
        static bool done = false; if (done) return; done = true;
        xmlSetGenericErrorFunc(nullptr, ignore_xml); static PluginManager::self manager; clog.rdbuf(nullptr); xmlInitParser();
    }
    // another registry, that agrees with the family or not
    RM other_registry(int k, regs::Names const& n)
    {
        RM m; m.numeric("/i", 4, regs::SINT);
        switch (k)
        {
            case 0: m.compound(n.A, regs::one("x", "/i")); m.compound("/Z/User", { { "a", n.A, 0, {} }, { "p", m.pointer(n.A), 8, {} }, { "v", m.vec(n.A), 16, {} } }); m.alias(n.A, "/Z/AlA"); break;
            case 1: m.opaque("/Z/First", 3); m.compound(n.A, { { "y", "/i", 0, {} }, { "f", "/Z/First", 8, {} } }); m.compound(n.B, { { "a", n.A, 0, {} }, { "p", m.pointer(n.A), 32, {} }, { "o", m.array("/Z/First", 3), 48, {} } }); break;
            case 2: m.opaque(n.B, 7); m.compound("/AA", { { "v", m.vec(m.vec("/i")), 0, {} } }); m.compound("/Z", { { "b", n.B, 0, {} }, { "aa", "/AA", 8, {} } }); m.alias("/AA", n.T); break;
            case 3: m.compound(n.C, { { "next", n.C + "*", 0, {} }, { "m", m.array("/i", 2), 8, {} } }); m.pointer(n.C); m.compound("/Z", { { "c", n.C, 0, {} } }); break;
        }
        return m;
    }
    typedef map<string, pair<Type const*, Def>> Held;
    Held hold(Registry const& r) { Held h; RM m = snapshot(r, "lifetimes"); for (auto& t : m.types) { Def d = t.second; d.meta.clear(); d.source.clear(); d.persistent = true; for (auto& f : d.fields) f.meta.clear(); h[t.first] = make_pair(r.get(t.first), d); } return h; }
    // types that were there are still there, where they were, the same
    void still(Held const& h, Registry const& r, set<string> const& but, bool sizes, string const& what)
    {
        RM m = snapshot(r, "lifetimes");
        for (auto& t : h)
        {
            if (but.count(t.first)) continue;
            MC_CHECK(r.get(t.first) == t.second.first, "lifetimes:moved", t.first + " is not the object it was after " + what);
            Def d = m.types[t.first]; d.meta.clear(); d.source.clear(); d.persistent = true; for (auto& f : d.fields) f.meta.clear();
            if (!sizes) MC_CHECK(d == t.second.second, "lifetimes:changed", t.first + " was changed by " + what + "\n" + text(t.first, t.second.second) + "\n" + text(t.first, d));
        }
    }
    void use_values(Registry const& r)
    {
        for (auto it = r.begin(); it != r.end(); ++it)
        {
            Type const& t = *it; if (t.getSize() == 0 || t.getSize() > 4096 || t.getCategory() == Type::Opaque) continue;
            try
            {
                vector<uint8_t> mem(t.getSize() + 16), mem2(t.getSize() + 16), dump; Value v(mem.data(), t), w(mem2.data(), t);
                Typelib::init(v); Typelib::init(w); Typelib::zero(v); Typelib::copy(w, v); Typelib::compare(v, w);
                try { MemoryLayout l = layout_of(t); Typelib::dump(v, dump, l); Typelib::load(w, dump, l); } catch (exception const&) {}
                try { ostringstream s; s << csv_header(t, "v") << csv(t, mem.data()); } catch (exception const&) {}
                Typelib::destroy(v); Typelib::destroy(w);
            }
            catch (exception const&) {}
            ostringstream s; TypeDisplayVisitor d(s, ""); try { d.apply(t); } catch (exception const&) {}
        }
    }
    enum { OPS = 20 };
    // one operation; what types it takes away, whether sizes change
    void operate(int op, Registry& r, Registry& o, regs::Names const& n, set<string>& gone, bool& sizes, string& what)
    {
        auto get = [&](string const& x) -> Type const* { return r.get(x); };
        try
        {
            switch (op)
            {
                case 0: what = "merge into"; r.merge(o); break;
                case 1: what = "merge from"; o.merge(r); break;
                case 2: what = "mergeMetaData"; r.mergeMetaData(o); o.mergeMetaData(r); r.copySourceIDs(o); break;
                case 3: { what = "add"; for (string x : { n.A, n.B, string("/Q"), string("/bad name!"), string("rel") }) { unique_ptr<Type> t(new OpaqueType(x, 4)); try { r.add(t.get(), "src"); t.release(); } catch (RegistryException const&) {} } break; }
                case 4: { what = "alias"; for (string x : { n.T, n.A, string("/Q2"), string("bad"), string("/b]") }) for (string y : { n.A, n.B + "*", string("/none") }) { try { r.alias(y, x, string("s")); } catch (RegistryException const&) {} } break; }
                case 5: { what = "build"; for (string x : { n.A + "*", n.B + "[2][3]*", string("/none*"), string("/i[12]"), n.T + "[4]", n.C + "**", string("/std/vector<" + n.A + ">"), string("[2]") }) try { r.build(x); } catch (exception const&) {} break; }
                case 6: { what = "remove first"; Type const* t = get(n.A); if (t) { for (auto* x : const_cast<Registry const&>(r).reverseDepends(*t)) gone.insert(x->getName()); for (auto* x : r.remove(*t)) delete x; } break; }
                case 7: { what = "remove second"; Type const* t = get(n.B); if (t) { for (auto* x : const_cast<Registry const&>(r).reverseDepends(*t)) gone.insert(x->getName()); for (auto* x : r.remove(*t)) delete x; } break; }
                case 8: { what = "minimal by name"; for (string x : { n.A, n.B, n.C, n.T, string("/none"), n.B + "*" }) for (int al = 0; al < 2; ++al) try { unique_ptr<Registry> m(r.minimal(x, al)); snapshot(*m, "lifetimes"); } catch (std::runtime_error const&) {} break; }
                case 9: { what = "minimal without"; for (int al = 0; al < 2; ++al) try { unique_ptr<Registry> m(r.minimal(o, al)); snapshot(*m, "lifetimes"); unique_ptr<Registry> k(o.minimal(r, al)); snapshot(*k, "lifetimes"); } catch (RegistryException const&) {} break; }
                case 10: { what = "resize"; sizes = true; map<string, size_t> s; s[n.A] = 40; try { r.resize(s); } catch (RegistryException const&) {} s["/none"] = 2; s["/i"] = 16; try { r.resize(s); } catch (RegistryException const&) {} break; }
                case 11: { what = "tlb"; string d = PluginManager::save("tlb", r); { istringstream s(d); unique_ptr<Registry> x(PluginManager::load("tlb", s)); } { istringstream s(d); PluginManager::load("tlb", s, o); } { istringstream s(d.substr(0, d.size() / 2)); try { unique_ptr<Registry> x(PluginManager::load("tlb", s)); } catch (exception const&) {} } break; }
                case 12: what = "idl"; { config_set k; k.set("opaque_as_any", "1"); PluginManager::save("idl", k, r); } break;
                case 13: what = "values"; use_values(r); break;
                case 14: { what = "comparisons"; r.isSame(o); o.isSame(r); for (auto it = r.begin(); it != r.end(); ++it) for (auto ot = o.begin(); ot != o.end(); ++ot) { it->isSame(*ot); it->canCastTo(*ot); } break; }
                case 15: { what = "builder"; for (string x : { n.A, n.B, n.T }) if (r.get(x)) { TypeBuilder b(r, r.get(x)); b.addPointer(2); b.addArrayMajor(3); b.addArrayMinor(4); b.addPointer(1); } try { TypeBuilder b(r, list<string>(1, "/none")); } catch (Undefined const&) {} break; }
                case 16: what = "aliases removed"; try { r.removeAlias(n.T); } catch (RegistryException const&) {} r.clearAliases(); break;
                case 17: { what = "merge of types"; for (string x : { n.A, n.B, n.C, string("/std/vector<" + n.A + ">"), n.A + "*" }) if (Type const* t = o.get(x)) try { t->merge(r); } catch (RegistryException const&) {} break; }
                case 18: { what = "containers"; for (string x : { n.A, n.B, n.C }) if (Type const* t = r.get(x)) { try { Container::createContainer(r, "/std/vector", *t); Container::createContainer(r, "/std/vector", *t); } catch (exception const&) {} try { Container::createContainer(r, "/std/none", *t); } catch (exception const&) {} try { Container::createContainer(r, "/std/string", *t); } catch (exception const&) {} } break; }
                case 19: what = "namespaces"; r.setDefaultNamespace("/N"); r.importNamespace("/Z", true); r.setDefaultNamespace("/"); { ostringstream s; r.dump(s, Registry::AllType | Registry::WithSourceId); for (auto it = r.begin("/N"); it != r.end("/N"); ++it) s << it.getName() << it->getName(); } break;
            }
        }
        catch (RegistryException const&) { what += " (refused)"; } catch (std::runtime_error const&) { what += " (refused)"; } catch (ExportError const&) { what += " (refused)"; } catch (ImportError const&) { what += " (refused)"; } catch (TypeException const&) { what += " (refused)"; }
    }
}
MC_BODY("C27", "sequences")
{
    quiet();
    bool big = c.thorough; int nm = c.choose(big ? 3 : 1, "naming"); regs::Names const& n = regs::NAMING[big ? nm : 1];
    int k = c.choose(4, "other"), op1 = c.choose(OPS, "operation"); c.unit();
    int op2 = c.choose(OPS, "operation"); RM m = regs::pick_registry(c, n, false, big ? 5 : 2, 5, big ? 5 : 3, big ? 5 : 2, big ? 4 : 2);
    RM om = other_registry(k, n); string trace;
    for (int round = 0; round < 2; ++round)
    {
        long before = mc::live_allocs;
        {
            Registry r; create(m, r); unique_ptr<Registry> o(new Registry); create(om, *o); string what;
            for (int i = 0; i < 2; ++i)
            {
                Held h, g; if (!round) { h = hold(r); g = hold(*o); }
                set<string> gone; bool sizes = false; what.clear(); operate(i ? op2 : op1, r, *o, n, gone, sizes, what);
                if (!round) { trace += " " + what; still(h, r, gone, sizes, trace); still(g, *o, {}, false, trace); c.step(); }
            }
            o.reset(); // nothing depends on the other registry
            if (!round) { snapshot(r, "lifetimes"); use_values(r); }
        }
        // the first round also allocates what is allocated once
        if (round) MC_CHECK(mc::live_allocs == before, "leak", mc::fmt("%ld blocks were not released after", mc::live_allocs - before) + trace + "\n" + m.text());
    }
    c.state(trace + m.text());
}
