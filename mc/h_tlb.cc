// C15 type library round trip, C16 import of malformed documents
#include "rmodel.hh"
#include "regs.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/exporter.hh>
#include <typelib/typedisplay.hh>
#include <typelib/importer.hh>
#include <typelib/utilmm/configset.hh>
#include <libxml/parser.h>
#include <fstream>
#include <sstream>
#include <memory>
#include <functional>
#include <limits.h>
#include <string.h>
#include <algorithm>
#include <unistd.h>
using namespace std;
using namespace Typelib;
using namespace rm;
using mc::Ctx;

namespace
{
    PluginManager& manager() { static PluginManager::self m; return *m; }
    string save(Registry const& r) { manager(); return PluginManager::save("tlb", r); }
    void load(string const& doc, Registry& r) { istringstream in(doc); PluginManager::load("tlb", in, r); }
    bool recursive(RM const& m)
    {
        for (auto& t : m.types) for (auto& d : m.depends(t.first)) { RM const& x = m; set<string> up = x.rdepends(t.first); if (up.count(d)) return true; }
        return false;
    }
    // What is left of a registry after a round trip: all but the derived types that nothing uses, what was attached to
    // derived types, and the source of aliases
    RM through(RM const& m)
    {
        RM out;
        function<void(string const&)> keep = [&](string const& n)
        {
            if (out.types.count(n)) return;
            Def d = m.types.at(n);
            for (auto& x : m.depends(n)) keep(x);
            if (d.cat == 'p' || d.cat == 'a') { d.persistent = false; d.meta.clear(); d.source.clear(); }
            out.types[n] = d;
        };
        for (auto& t : m.types) if (t.second.persistent || (t.second.cat != 'p' && t.second.cat != 'a')) keep(t.first);
        for (auto& a : m.aliases) if (a.second.persistent) keep(a.second.to);
        vector<string> names; for (auto& t : out.types) names.push_back(t.first);
        for (auto& a : m.aliases) if (a.second.persistent) out.alias(a.second.to, a.first, true);
        return out;
    }
    RM forget_derived(RM m) { for (auto& t : m.types) if (t.second.cat == 'p' || t.second.cat == 'a') { t.second.persistent = false; t.second.meta.clear(); t.second.source.clear(); } return m; }
    void round_trip(Ctx& c, RM const& m, string const& id)
    {
        Registry r; create(m, r);
        RM before = snapshot(r, id);
        string doc;
        if (recursive(before))
        {
            bool refused = false;
            try { doc = save(r); } catch (ExportError const&) { refused = true; }
            MC_CHECK(refused, id + ":recursive", "a registry with recursive types was exported\n" + m.text());
            c.count("recursive types refused"); c.step(); return;
        }
        doc = save(r); c.step();
        MC_CHECK(snapshot(r, id) == before, id + ":source changed", before.text());
        RM want = through(before);
        Registry r2;
        try { load(doc, r2); }
        catch (exception const& e) { mc::fail(id + ":reload", string("the result cannot be loaded: ") + e.what() + "\n" + doc); }
        RM got = forget_derived(snapshot(r2, id));
        MC_CHECK(got == want, id + ":content", diff(want, got) + doc);
        c.step();
        string doc2 = save(r2); Registry r3; load(doc2, r3); c.step(2);
        RM again = forget_derived(snapshot(r3, id));
        want = through(want);
        MC_CHECK(again == want, id + ":second time", diff(want, again) + doc2);
        string doc3 = save(r3);
        MC_CHECK(doc3 == doc2, id + ":not stable", doc2);
        // everything is already there
        load(doc, r); c.step();
        RM same = snapshot(r, id);
        MC_CHECK(same == before, id + ":loaded over itself", diff(before, same));
        c.state(want.text());
    }
}

MC_BODY("C15", "registries")
{
    int nm = c.choose(3, "naming"), how = c.choose(c.thorough ? 6 : 3, "decoration");
    bool big = c.thorough;
    RM m = regs::pick_registry(c, regs::NAMING[nm], true, regs::NA, regs::NB, regs::NC, regs::ND, regs::NT);
    regs::decorate(m, big ? how : (int[]) { 0, 3, 5 }[how], "m");
    // decorations of derived types are not kept, whether used or not
    round_trip(c, m, "registries");
}
namespace
{
    vector<string> texts(bool thorough)
    {
        vector<string> r = { "]]>", "a]]>b", "]]>]]>", "]]]>", "<![CDATA[x]]>", "&amp;", "&#10;", "-->", "<!-- -->", "a&b<c>d\"e'f", "\xc3\xa9t\xc3\xa9", "%s%n" };
        string const al = "a&<>\"' ]\n\t;";
        for (char x : al) { r.push_back(string(1, x)); for (char y : al) { r.push_back(string { x, y }); if (thorough) for (char z : al) r.push_back(string { x, y, z }); } }
        return r;
    }
}
// Any text where any text can be
MC_BODY("C15", "texts")
{
    static vector<string> const T[2] = { texts(false), texts(true) };
    auto const& t = T[c.thorough];
    int where = c.choose(9, "position"); string s = c.pick(t, "text"), s2 = "zz"; c.unit();
    int second = c.choose(4, "other text"); if (second) s2 = vector<string> { "a", "<b>&", "]]>" }[second - 1];
    if (s == s2) throw mc::Prune();
    RM m; m.numeric("/i", 4, regs::SINT); m.enumeration("/E", { { "P", 0 } }); m.opaque("/O", 3); m.null("/N");
    m.vec("/i"); m.compound("/C", { { "x", "/i", 0, {} }, { "y", "/E", 4, {} }, { "v", "/std/vector</i>", 8, {} } });
    auto each = [&](function<void(Def&)> f) { for (auto& x : m.types) if (x.second.cat != 'v' || where != 3) f(x.second); };
    switch (where)
    {
        case 0: each([&](Def& d) { d.meta[s].insert("v"); d.meta[s2].insert("w"); }); break;
        case 1: each([&](Def& d) { d.meta["k"].insert(s); d.meta["k"].insert(s2); }); break;
        case 2: each([&](Def& d) { d.meta[s].insert(s2); d.meta[s]; d.meta[s2]; }); break;
        case 3: each([&](Def& d) { d.source = s; }); m.types["/E"].source = s2; break;
        case 4: m.types["/C"].fields[0].name = s; m.types["/C"].fields[1].name = s2; break;
        case 5: m.types["/E"].syms = { { s, 1 }, { s2, 2 } }; break;
        case 6: for (auto& f : m.types["/C"].fields) { f.meta[s].insert("v"); f.meta[s].insert("w"); f.meta[s2]; } break;
        case 7: for (auto& f : m.types["/C"].fields) { f.meta["k"].insert(s); f.meta["k"].insert(s2); f.meta["l"].insert(s + s2); } break;
        case 8: m.types["/std/vector</i>"].source = s; m.types["/std/vector</i>"].meta["source_id"].insert(s); m.types["/O"].source = s2; break;
    }
    round_trip(c, m, mc::fmt("texts %d", where));
}
// Every kind of type with every kind of name, used in every way
MC_BODY("C15", "names")
{
    vector<string> const N = { "/A", "/N/A", "/a b/unsigned int", "/T</A>", "/N/T</A,/B>", "/T</N/X<-1,2>>/U", "/T</A*,/B[2]>", "/std/pair</std/string,/i>", "/z/T</z>/T</z>", "/_", "/std/A" };
    int n = c.choose(N.size(), "name"), cat = c.choose(5, "category"), use = c.choose(10, "use"); c.unit();
    int al = c.choose(4, "alias"), meta = c.choose(2, "metadata");
    RM m; m.numeric("/i", 4, regs::SINT); string x = N[n];
    switch (cat)
    {
        case 0: m.numeric(x, 8, regs::FLT); break;
        case 1: m.enumeration(x, { { "P", -1 }, { "Q", 1 } }); break;
        case 2: m.opaque(x, 12); break;
        case 3: m.null(x); break;
        default: m.compound(x, { { "f", "/i", 4, {} } }, 12); break;
    }
    if (meta) { m.types[x].meta["a"].insert("b"); m.types[x].source = "/some/file.h"; }
    if (al == 1) m.alias(x, "/alias");
    if (al == 2) m.alias(x, "/T</alias,/U</V>>");
    switch (use)
    {
        case 0: break;
        case 1: m.compound("/C", { { "f", x, 0, {} }, { "g", x, 16, {} } }); break;
        case 2: m.compound("/C", { { "f", m.array(x, 3), 0, {} } }); break;
        case 3: m.compound("/C", { { "f", m.pointer(x), 0, {} } }); break;
        case 4: m.compound("/C", { { "f", m.vec(x), 0, {} } }); break;
        case 5: m.compound("/A2", { { "f", m.array(m.pointer(m.array(x, 3)), 1), 8, {} } }); break;
        case 6: m.vec(m.vec(m.array(x, 2))); break;
        case 7: m.alias(m.pointer(m.pointer(x)), "/pp"); break;
        case 8: m.alias(m.array(m.array(x, 2), 5), "/aa"); m.vec("/aa"); break;
        case 9: { string a = m.array(x, 4), p = m.pointer(x); m.types[a].persistent = m.types[p].persistent = true; m.types[a].source = "f"; m.types[p].meta["k"].insert("v"); break; }
    }
    if (al == 3) m.alias(x, "/z/alias");
    round_trip(c, m, "names");
}
// Numbers
MC_BODY("C15", "values")
{
    vector<size_t> const S = { 0, 1, 2, 3, 7, 8, 255, 256, 4095, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x123456789abcull };
    vector<int> const V = { 0, 1, -1, 255, 256, 65536, INT_MAX, INT_MIN, -256, 0x12345678 };
    int kind = c.choose(6, "kind"); size_t s = c.pick(S, "size"), s2 = c.pick(S, "other"); c.unit(); int v = c.pick(V, "value"), w = c.pick(V, "value");
    if (kind != 2 && (v || w)) throw mc::Prune();
    RM m; m.numeric("/i", 4, regs::SINT); m.numeric("/c", 1, regs::UINT);
    switch (kind)
    {
        case 0: for (int k = 0; k < 3; ++k) m.numeric(mc::fmt("/n%d", k), k ? s2 : s, (int[]) { regs::SINT, regs::UINT, regs::FLT }[k]); break;
        case 1: m.opaque("/o", s); m.opaque("/p", s2); m.compound("/C", { { "o", "/o", 0, {} }, { "p", "/p", s, {} } }); break;
        case 2: if (s || s2) throw mc::Prune(); m.enumeration("/e", { { "A", v }, { "B", w }, { "C", v } }); break;
        case 3: if (s2 > 0x100000000ull) throw mc::Prune(); m.compound("/C", { { "x", "/i", s, {} }, { "y", "/c", s + s2, {} } }, s + s2 + s2); break;
        case 4: // several fields at the same place, empty compounds
            m.compound("/D", {}, s2); m.compound("/C", { { "a", "/i", s, {} }, { "b", "/c", s, {} }, { "d", "/D", s, {} } }, s2); break;
        case 5: if (s > 0x7fffffff) throw mc::Prune(); m.compound("/C", { { "a", m.array("/c", s), 0, {} }, { "p", m.pointer("/c"), 8 + s, {} } }); break;
    }
    round_trip(c, m, mc::fmt("values %d", kind));
}
// Namespaces and dependencies in any order of the names
MC_BODY("C15", "order")
{
    vector<string> const N = { "/A", "/B", "/N/A", "/N/B", "/N/M/A", "/Z", "/O/A" };
    int n = c.thorough ? 4 : 3; vector<string> pool = N, names; RM m; m.numeric("/M/i", 4, regs::SINT);
    for (int i = 0; i < n; ++i) { int k = c.choose(pool.size(), "name"); names.push_back(pool[k]); pool.erase(pool.begin() + k); if (i == 1) c.unit(); }
    string prev = "/M/i";
    for (int i = 0; i < n; ++i)
    {
        int k = c.choose(i ? 6 : 2, "dependency"); string const& x = names[i];
        string far = i > 1 ? names[i - 2] : "/M/i";
        switch (k)
        {
            case 0: m.compound(x, { { "p", prev, 0, {} } }); break;
            case 1: m.alias(prev, x); break;
            case 2: m.compound(x, { { "p", m.vec(prev), 0, {} } }); break;
            case 3: m.compound(x, { { "p", m.pointer(prev), 0, {} }, { "q", far, 8, {} } }); break;
            case 4: m.alias(m.array(prev, 2), x); break;
            case 5: m.alias(m.vec(prev), x); break;
        }
        prev = m.resolve(x);
    }
    round_trip(c, m, "order");
}
// Resized containers keep their size, strings, files
MC_BODY("C15", "containers")
{
    int size = c.choose(3, "container size"), elem = c.choose(4, "element"), file = c.choose(2, "file"); c.unit();
    Registry r; r.add(new Numeric("/int8_t", 1, Numeric::SInt)); r.add(new Numeric("/int32_t", 4, Numeric::SInt), "src.h");
    Type const* e = r.get("/int32_t");
    Container const* str = &Container::createContainer(r, "/std/string", *r.get("/int8_t"));
    if (elem == 1) e = r.build("/int32_t[3]");
    if (elem == 2) e = str;
    if (elem == 3) e = &Container::createContainer(r, "/std/vector", *str);
    Container const* v = &Container::createContainer(r, "/std/vector", *e);
    Compound* k = new Compound("/C"); k->addField("s", *str, 0); k->addField("v", *v, 32); k->setSize(64); r.add(k, "c.h");
    r.alias(v->getName(), "/V"); r.alias("/std/string", "/string");
    if (size) { map<string, size_t> s; s[v->getName()] = (size == 1 ? 12 : 48); r.resize(s); }
    RM want = through(snapshot(r, "containers")); Registry r2;
    if (file)
    {
        string path = string(getenv("MC_SCRATCH")) + mc::fmt("/t%d.tlb", (int)getpid()); utilmm::config_set config;
        { unique_ptr<Exporter> x(manager().exporter("tlb")); x->save(path, config, r); }
        // a longer file is replaced
        { ofstream junk(path.c_str()); junk << string(100000, 'x'); }
        { unique_ptr<Exporter> x(manager().exporter("tlb")); x->save(path, config, r); }
        PluginManager::load("tlb", path, r2); unlink(path.c_str());
    }
    else load(save(r), r2);
    RM got = forget_derived(snapshot(r2, "containers"));
    MC_CHECK(got == want, "containers:content", diff(want, got));
    MC_CHECK(r.isSame(r2) && r2.isSame(r), "containers:same", want.text());
    c.step(4); c.state(got.text());
}

// ---------------------------------------------------------------- C16
namespace
{
    struct Node { string tag; vector<pair<string, string>> attrs; vector<Node> kids; };
    string escape(string const& s) { string r; for (char x : s) { if (x == '<') r += "&lt;"; else if (x == '&') r += "&amp;"; else if (x == '"') r += "&quot;"; else r += x; } return r; }
    string xml(Node const& n, string const& indent = "  ")
    {
        string s = indent + "<" + n.tag;
        for (auto& a : n.attrs) s += " " + a.first + "=\"" + escape(a.second) + "\"";
        if (n.kids.empty()) return s + "/>\n";
        s += ">\n"; for (auto& k : n.kids) s += xml(k, indent + "  ");
        return s + indent + "</" + n.tag + ">\n";
    }
    string xml(vector<Node> const& d) { string s = "<?xml version=\"1.0\"?>\n<typelib>\n"; for (auto& n : d) s += xml(n); return s + "</typelib>\n"; }
    Node N(string tag, vector<pair<string, string>> attrs, vector<Node> kids = {}) { Node n; n.tag = tag; n.attrs = attrs; n.kids = kids; return n; }
    vector<Node> base_document()
    {
        return {
            N("numeric", { { "name", "/i" }, { "category", "sint" }, { "size", "4" } }, { N("metadata", { { "key", "k" } }) }),
            N("numeric", { { "name", "/N/c" }, { "category", "uint" }, { "size", "1" }, { "source_id", "src" } }),
            N("enum", { { "name", "/E" } }, { N("value", { { "symbol", "A" }, { "value", "1" } }), N("value", { { "symbol", "B" }, { "value", "-2" } }) }),
            N("opaque", { { "name", "/O" }, { "size", "12" } }),
            N("null", { { "name", "/N/n" } }),
            N("compound", { { "name", "/C" }, { "size", "16" } }, { N("field", { { "name", "x" }, { "type", "/i" }, { "offset", "0" } }, { N("metadata", { { "key", "doc" } }) }), N("field", { { "name", "y" }, { "type", "/E" }, { "offset", "4" } }), N("field", { { "name", "z" }, { "type", "/N/c[2]" }, { "offset", "8" } }) }),
            N("container", { { "name", "/std/vector</C>" }, { "of", "/C" }, { "size", "24" }, { "kind", "/std/vector" } }),
            N("compound", { { "name", "/B" }, { "size", "64" } }, { N("field", { { "name", "c" }, { "type", "/C" }, { "offset", "0" } }), N("field", { { "name", "v" }, { "type", "/std/vector</C>" }, { "offset", "16" } }), N("field", { { "name", "p" }, { "type", "/C*" }, { "offset", "40" } }) }),
            N("alias", { { "name", "/Al" }, { "source", "/B" } }),
            N("alias", { { "name", "/N/P" }, { "source", "/C*" } }) };
    }
    struct Refused {}; struct Unspecified {};
    string const* attr(Node const& n, char const* k) { for (auto& a : n.attrs) if (a.first == k) return &a.second; return nullptr; }
    string need(Node const& n, char const* k) { string const* s = attr(n, k); if (!s) throw Refused(); return *s; }
    size_t number(string const& s)
    {
        if (s.empty() || s.find_first_not_of("0123456789+- ") != string::npos) throw Refused();
        if (s.find_first_not_of("0123456789") != string::npos) throw Unspecified();
        if (s.size() > 19) throw Refused();
        return stoull(s);
    }
    bool valid_name(string const& s)
    {
        // names used below are either plainly right or plainly wrong
        if (s.empty() || s[0] != '/') return false;
        for (size_t i = 0; i < s.size(); ++i) { if (!isalnum(s[i]) && !strchr("/ _<>,*[]", s[i])) return false; if (s[i] == '/' && (i + 1 == s.size() || s[i + 1] == '/')) return false; }
        return count(s.begin(), s.end(), '<') == count(s.begin(), s.end(), '>');
    }
    // What a document means
    struct Reader
    {
        RM out; map<string, Node> nodes; set<string> busy;
        void metadata(Node const& n, Meta& m) { for (auto& k : n.kids) if (k.tag == "metadata") m[need(k, "key")]; }
        string type(string const& name)
        {
            if (count(name.begin(), name.end(), '[') != count(name.begin(), name.end(), ']')) throw Refused();
            vector<pair<char, size_t>> mods; string base = base_and_modifiers(name, mods);
            if (base.empty() || base[base.size() - 1] == ' ') throw Unspecified();
            if (!out.has(base)) define(base);
            string t = out.resolve(base);
            for (auto& m : mods) { if (m.first == 'a' && m.second > 1000) throw Unspecified(); t = m.first == 'p' ? out.pointer(t) : out.array(t, m.second); }
            if (t != name && !out.has(name)) out.alias(t, name);
            return t;
        }
        void define(string const& name)
        {
            if (out.has(name)) return;
            auto it = nodes.find(name);
            if (it == nodes.end() || !busy.insert(name).second) throw Refused();
            Node const& n = it->second; Def d;
            if (name.find_first_of("*[") != string::npos) throw Unspecified();
            if (n.tag == "alias") { string t = type(need(n, "source")); if (out.has(name) && out.resolve(name) != t) throw Refused(); if (!valid_name(name)) throw Refused(); out.alias(t, name); return; }
            if (n.tag == "container")
            {
                string of = type(need(n, "of")), kind = need(n, "kind"); size_t size = 0;
                if (string const* s = attr(n, "size")) size = number(*s);
                if (size > 0x7fffffff) throw Refused();
                if (kind != "/std/vector") { if (kind == "/std/string") throw Unspecified(); throw Refused(); }
                string v = "/std/vector<" + of + ">"; if (out.has(v)) throw Unspecified();
                out.vec(of); Def& d = out.types[v]; if (size) d.size = size;
                metadata(n, d.meta); if (string const* s = attr(n, "source_id")) { d.source = *s; if (!s->empty()) d.meta["source_id"].insert(*s); }
                if (v != name) { if (!valid_name(name)) throw Refused(); out.alias(v, name); }
                return;
            }
            if (n.tag == "numeric")
            {
                string cat = need(n, "category"); d.cat = 'n';
                if (cat == "sint") d.num = regs::SINT; else if (cat == "uint") d.num = regs::UINT; else if (cat == "float") d.num = regs::FLT; else throw Refused();
                d.size = number(need(n, "size"));
            }
            else if (n.tag == "opaque") { d.cat = 'o'; d.size = number(need(n, "size")); }
            else if (n.tag == "null") { d.cat = '0'; d.size = 0; }
            else if (n.tag == "enum")
            {
                d.cat = 'e'; d.size = 4;
                for (auto& k : n.kids) if (k.tag == "value")
                {
                    string y = need(k, "symbol"), v = need(k, "value"); int sign = 1; if (v.size() > 1 && v[0] == '-') { sign = -1; v.erase(0, 1); }
                    size_t x = number(v); if (x > 0x7fffffff) throw Refused();
                    if (d.syms.count(y) && d.syms[y] != sign * int(x)) throw Refused();
                    d.syms[y] = sign * int(x);
                }
            }
            else if (n.tag == "compound")
            {
                size_t size = number(need(n, "size")); d.cat = 'c'; set<string> names;
                for (auto& k : n.kids) if (k.tag == "field")
                {
                    Fld f; f.name = need(k, "name"); string t = need(k, "type"); f.off = number(need(k, "offset")); f.type = type(t); metadata(k, f.meta);
                    if (!names.insert(f.name).second) throw Unspecified();
                    d.fields.push_back(f);
                }
                stable_sort(d.fields.begin(), d.fields.end(), [](Fld const& a, Fld const& b) { return a.off != b.off ? a.off < b.off : a.name < b.name; });
                d.size = size;
                for (auto& f : d.fields) if (f.off + out.types[f.type].size > size) throw Unspecified();
            }
            else throw Unspecified();
            if (!valid_name(name)) throw Refused();
            metadata(n, d.meta); if (string const* s = attr(n, "source_id")) d.source = *s;
            out.types[name] = d;
        }
        void read(vector<Node> const& doc)
        {
            static set<string> const tags = { "alias", "numeric", "null", "opaque", "enum", "compound", "container", "pointer", "array" };
            for (auto& n : doc) { string name = need(n, "name"); if (!tags.count(n.tag)) throw Refused(); if (!nodes.count(name)) nodes[name] = n; }
            // an error in what turns out to be already known is not looked at
            for (auto& n : nodes) { if (n.first.empty()) throw Refused(); if (!out.has(n.first)) type(n.first); }
        }
    };
    void ignore_xml_error(void*, char const*, ...) {}
    void silence()
    {
        static bool done = false; if (done) return; done = true;
        xmlSetGenericErrorFunc(nullptr, ignore_xml_error);
        clog.rdbuf(nullptr); xmlInitParser();
        for (int i = 0; i < 2; ++i) { Registry r; try { load("<", r); } catch (exception const&) {} load(xml(base_document()), r); }
    }
    void add_pre(Registry& r, RM& m, int pre)
    {
        switch (pre)
        {
            case 0: return;
            case 1: m.numeric("/C", 2, regs::UINT); m.types["/C"].source = "pre"; break; // another definition
            case 2: m.numeric("/i", 4, regs::SINT); m.compound("/O", { { "q", "/i", 0, {} } }); m.alias("/O", "/Al"); m.types["/i"].meta["pre"].insert("x"); break;
            case 3: m.numeric("/z", 4, regs::SINT); m.alias("/z", "/E"); m.array("/z", 2); break;
        }
        create(m, r);
    }
    // Loads a document, which must either be refused by an exception or give a sound registry, keep what was there, and release everything
    bool robust(Ctx& c, string const& doc, int pre, string const& id, RM const* want, RM* result = nullptr)
    {
        bool ok = false;
        {
            Registry r; RM before; add_pre(r, before, pre); before = snapshot(r, id);
            try { load(doc, r); ok = true; } catch (exception const&) {}
            c.step();
            RM got = snapshot(r, id);
            for (auto& t : before.types) MC_CHECK(got.types.count(t.first) && got.types[t.first] == t.second, id + ":changed", t.first + " was changed by loading\n" + doc);
            for (auto& a : before.aliases) MC_CHECK(got.aliases.count(a.first) && got.aliases[a.first] == a.second, id + ":changed", a.first + " was changed by loading\n" + doc);
            if (want)
            {
                MC_CHECK(ok, id + ":refused", "a good document was refused\n" + doc);
                MC_CHECK(got == *want, id + ":content", diff(*want, got) + doc);
            }
            if (result) *result = got;
        }
        return ok;
    }
    void leak_check(string const& doc, int pre, string const& id)
    {
        // by then, everything that is allocated once has been
        long n = mc::live_allocs;
        { Registry r; RM m; add_pre(r, m, pre); try { load(doc, r); } catch (exception const&) {} }
        if (mc::live_allocs != n) mc::fail(id + ":leak", mc::fmt("%ld objects were leaked by loading\n", mc::live_allocs - n) + doc);
    }
    void judge(Ctx& c, vector<Node> const& d, int pre, string const& id)
    {
        string doc = xml(d); Reader reader; { Registry r; add_pre(r, reader.out, pre); reader.out = snapshot(r, id); }
        int verdict = 0;
        try { reader.read(d); } catch (Refused) { verdict = 1; } catch (Unspecified) { verdict = 2; }
        bool ok = robust(c, doc, pre, id, verdict == 0 ? &reader.out : nullptr);
        if (verdict == 1) MC_CHECK(!ok, id + ":accepted", "a bad document was accepted\n" + doc);
        leak_check(doc, pre, id);
        c.count(verdict == 0 ? "documents loaded as expected" : verdict == 1 ? "bad documents refused" : "unspecified documents");
        c.state(mc::hash(doc) * 4 + pre);
    }
    vector<string> const& values(string const& key)
    {
        static vector<string> const names = { "/i", "/C", "/new", "", "rel", "/a b", "/A.", "/A<", "/N/", "/std/vector</i>", "/E" },
            refs = { "/i", "/missing", "/C", "/B", "/Al", "/N/P", "/i*", "/C**", "/i[2]", "/Al[3]", "/i[0]", "/std/vector</C>", "/std/vector</i>", "/E", "", "/", "*", "/i[-1]", "/C[", "/C]", "rel" },
            nums = { "0", "3", "8", "100", "x", "", "-1", "1.5", "99999999999999999999999", "0x10", "4294967296" },
            cats = { "sint", "uint", "float", "x", "" }, kinds = { "/std/vector", "/std/string", "/std/none", "" }, syms = { "A", "B", "" }, fields = { "x", "y", "n" }, other = { "", "z" };
        if (key == "name") return names;
        if (key == "type" || key == "of" || key == "source") return refs;
        if (key == "size" || key == "offset" || key == "value") return nums;
        if (key == "category") return cats;
        if (key == "kind") return kinds;
        if (key == "symbol") return syms;
        if (key == "field") return fields;
        return other;
    }
    typedef function<void(vector<Node>&)> Edit;
    vector<Edit> const& edits()
    {
        static vector<Edit> r;
        if (!r.empty()) return r;
        vector<Node> const d = base_document();
        static vector<string> const tags = { "alias", "numeric", "null", "opaque", "enum", "compound", "container", "pointer", "array", "what" };
        for (size_t i = 0; i < d.size(); ++i)
        {
            auto of = [&](vector<size_t> path) {
                Node const* n = &d[i]; for (size_t k : path) n = &n->kids[k];
                auto at = [=](vector<Node>& x) -> Node& { static Node none; Node* n = &x[i]; for (size_t k : path) { if (k >= n->kids.size()) { none = Node(); return none; } n = &n->kids[k]; } return *n; };
                for (size_t a = 0; a < n->attrs.size(); ++a)
                {
                    for (auto& v : values(n->tag == "field" && n->attrs[a].first == "name" ? "field" : n->attrs[a].first))
                        if (v != n->attrs[a].second) r.push_back([=](vector<Node>& x) { Node& n = at(x); if (a < n.attrs.size()) n.attrs[a].second = v; });
                    r.push_back([=](vector<Node>& x) { Node& n = at(x); if (a < n.attrs.size()) n.attrs[a].first = "other"; });
                }
            };
            of({});
            for (size_t k = 0; k < d[i].kids.size(); ++k) { of({ k }); for (size_t l = 0; l < d[i].kids[k].kids.size(); ++l) of({ k, l }); }
            for (auto& t : tags) if (t != d[i].tag) r.push_back([=](vector<Node>& x) { x[i].tag = t; });
            r.push_back([=](vector<Node>& x) { x[i] = x[(i + 1) % x.size()]; });      // removed
            r.push_back([=](vector<Node>& x) { x.push_back(x[i]); });                   // twice
            r.push_back([=](vector<Node>& x) { if (!x[i].kids.empty()) x[i].kids.push_back(x[i].kids[0]); });
            r.push_back([=](vector<Node>& x) { swap(x[i], x[(i + 3) % x.size()]); });
        }
        return r;
    }
}
// One or two edits of the elements of a document
MC_BODY("C16", "edits")
{
    silence(); auto const& e = edits(); int n = e.size();
    int a = c.choose(n, "first edit"), second = c.choose(2, "edits"); c.unit();
    vector<Node> d = base_document(); e[a](d);
    if (!second) { for (int pre = 0; pre < 4; ++pre) judge(c, d, pre, "edits"); return; }
    for (int b = a + 1; b < n; ++b)
    {
        if (!c.thorough && (a + b) % 4) continue;
        vector<Node> x = d; e[b](x);
        for (int pre = 0; pre < (c.thorough ? 4 : 1); ++pre) judge(c, x, pre, "edits");
    }
}
// The elements in every order
MC_BODY("C16", "orders")
{
    silence(); int which = c.choose(3, "elements"), pre = c.choose(4, "existing"); vector<Node> all = base_document(), d;
    vector<vector<int>> const sets = { { 0, 1, 2, 5, 6, 7 }, { 0, 5, 7, 8, 9, 2 }, { 9, 8, 7, 6, 5, 1 } };
    vector<int> left = sets[which];
    while (!left.empty()) { int k = c.choose(left.size(), "next"); d.push_back(all[left[k]]); left.erase(left.begin() + k); if (left.size() == 4) c.unit(); }
    judge(c, d, pre, "orders");
}
// Bytes cut, changed, removed
MC_BODY("C16", "bytes")
{
    silence(); static string doc = xml(base_document()); static string const with = "<>\"&/= a\n0]!?";
    int n = doc.size(), at = c.choose(n + 1, "position"); c.unit();
    auto test = [&](string const& s) { robust(c, s, 0, "bytes", nullptr); leak_check(s, 0, "bytes"); c.state(mc::hash(s)); };
    if (at == n) { test(doc + "x"); test(doc + "<typelib/>"); test(doc + string(3, '\0')); test(""); test("\xff\xfe"); test(string(1, '\0')); return; }
    string s = doc.substr(0, at);
    { Registry r; bool ok = true; try { load(s, r); } catch (exception const&) { ok = false; } if (size_t(at) < doc.rfind('>')) MC_CHECK(!ok, "bytes:truncated", "a truncated document was accepted\n" + s); }
    test(s);
    s = doc; s.erase(at, 1); test(s);
    for (char ch : with) if (doc[at] != ch) { s = doc; s[at] = ch; test(s); if (c.thorough) { s = doc; s.insert(at, 1, ch); test(s); } }
    for (int k = 0; k < 3; ++k) { s = doc; s[at] = "\0\x01\xe9"[k]; test(s); }
}
// What is not an element, and elements which are not known
MC_BODY("C16", "content")
{
    silence();
    vector<string> const junk = { "", "text", "<!-- comment -->", "<![CDATA[data]]>", "<?pi some?>", "<metadata key=\"a\">text</metadata>", "<metadata key=\"a\"><![CDATA[v]]></metadata>", "<metadata key=\"a\"><![CDATA[]]></metadata>",
        "<metadata/>", "<metadata key=\"a\"><metadata key=\"b\"/></metadata>", "<unknown name=\"/U\"/>", "<field/>", "<value/>", "<field name=\"f\"/>", "&amp;", "&undefined;", "&lt;", "<alias name=\"/Self\" source=\"/Self\"/>",
        "<alias name=\"/Al1\" source=\"/Al2\"/><alias name=\"/Al2\" source=\"/Al1\"/>", "<numeric name=\"/i\" category=\"uint\" size=\"8\"/>", "<compound name=\"/R\" size=\"8\"><field name=\"p\" type=\"/R*\" offset=\"0\"/></compound>",
        "<compound name=\"/R\" size=\"24\"><field name=\"p\" type=\"/std/vector&lt;/R&gt;\" offset=\"0\"/></compound><container name=\"/std/vector&lt;/R&gt;\" of=\"/R\" kind=\"/std/vector\"/>", "<pointer name=\"/i*\" of=\"/i\"/>", "<array name=\"/i[4]\" of=\"/i\" dimension=\"4\"/>",
        "<pointer name=\"/none*\" of=\"/none\"/>", "<x:numeric xmlns:x=\"a\" name=\"/xn\" category=\"uint\" size=\"8\"/>" };
    // 1: must be loaded, 0: must be refused, 2: either
    vector<int> const top = { 1, 1, 1, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0, 2, 0, 0, 1, 0, 0, 1, 1, 0, 2 };
    vector<Node> d = base_document(); int where = c.choose(4, "where"), j = c.choose(junk.size(), "what"), j2 = c.choose(junk.size(), "and"); c.unit();
    string doc = xml(d); size_t at;
    switch (where)
    {
        case 0: at = doc.find("  <numeric"); break;
        case 1: at = doc.rfind("</typelib>"); break;
        case 2: at = doc.find("    <field"); break;
        default: at = doc.find("    <value"); break;
    }
    doc.insert(at, junk[j] + junk[j2]);
    Registry r; load(xml(d), r); RM base = snapshot(r, "content"), got; bool ok = robust(c, doc, 0, "content", nullptr, &got);
    leak_check(doc, 0, "content");
    if (where < 2)
    {
        if (!top[j] || !top[j2]) MC_CHECK(!ok, "content:accepted", doc);
        else if (top[j] == 1 && top[j2] == 1) MC_CHECK(ok, "content:refused", doc);
    }
    if (ok && where < 2) for (auto& t : base.types) if (!(where == 0 && t.first == "/i")) MC_CHECK(got.types.count(t.first) && got.types[t.first] == t.second, "content:changed", t.first + " differs\n" + doc);
    c.state(mc::hash(doc));
}

// ---------------------------------------------------------------- C36
namespace
{
    vector<string> words(string const& s) { istringstream in(s); vector<string> r; string w; while (in >> w) r.push_back(w); return r; }
    string show(RM const& m, string const& name)
    {
        Def const& d = m.types.at(name);
        switch (d.cat)
        {
            case 'n': return mc::fmt("%s(%zu) (%s)", d.num == regs::SINT ? "sint" : d.num == regs::UINT ? "uint" : "float", d.size, name.c_str());
            case 'e': { string s = "enum " + name; for (auto& x : d.syms) s += mc::fmt("\n%s -> %d", x.first.c_str(), x.second); return s; }
            case 'o': return "opaque " + name + "\n";
            case '0': return "null\n";
            case 'p': return "pointer on " + d.elem + "\n";
            case 'a': return mc::fmt("array[%zu] of\n", d.dim) + show(m, d.elem);
            case 'v': return "container " + d.kind + "<" + d.elem + ">";
        }
        string s = mc::fmt("compound %s [%zu] {\n", name.c_str(), d.size);
        for (auto& f : d.fields) s += mc::fmt("(+%zu) ", f.off) + show(m, f.type) + " " + f.name + "\n";
        return s + "};";
    }
    // The lines of a listing, but for the way they are set out
    string listing(RM const& m, int mode, string const& filter)
    {
        string s = "Types in registry" + string(filter.empty() ? " not defined in any type library" : filter == "*" ? "" : " defined in " + filter) + "\n";
        map<string, pair<string, string>> all; // name to type and source
        for (auto& t : m.types) if (t.second.persistent) all[t.first] = make_pair(t.first, t.second.source);
        for (auto& a : m.aliases) if (a.second.persistent) all[a.first] = make_pair(a.second.to, a.second.source);
        vector<string> names; for (auto& x : all) names.push_back(x.first);
        sort(names.begin(), names.end(), name_less);
        for (auto& n : names)
        {
            string const& type = all[n].first, & source = all[n].second;
            if (filter != "*" && filter != source) continue;
            if (mode & Registry::WithSourceId) s += source + " ";
            if (!(mode & Registry::AllType)) s += type + "\n";
            else if (n == type) s += show(m, n) + "\n";
            else s += n + " is an alias for " + type + "\n";
        }
        return s;
    }
    void listed(Ctx& c, RM const& m, string const& id)
    {
        Registry r; create(m, r);
        RM before = snapshot(r, id);
        set<string> filters = { "*", "", "src", "none" };
        for (auto& t : before.types) filters.insert(t.second.source);
        for (auto& a : before.aliases) filters.insert(a.second.source);
        for (auto& f : filters)
            for (int mode = 0; mode < 8; ++mode) if (c.thorough || mode < 4 || mode == 7)
            {
                ostringstream s; r.dump(s, mode, f); c.step();
                string want = listing(before, mode, f);
                MC_CHECK(words(s.str()) == words(want), id + ":listing", mc::fmt("mode %d, filter '%s':\n", mode, f.c_str()) + s.str() + "---- instead of\n" + want);
                c.state(mc::hash(s.str()));
            }
        { ostringstream s; r.dump(s); MC_CHECK(words(s.str()) == words(listing(before, Registry::AllType, "*")), id + ":default", s.str()); }
        for (auto& t : before.types)
        {
            ostringstream plain; TypeDisplayVisitor(plain, "  ").apply(*r.get(t.first)); c.step();
            { ostringstream o; o << *r.get(t.first); MC_CHECK(words(o.str()) == words(plain.str()), id + ":operator", o.str()); }
            MC_CHECK(words(plain.str()) == words(show(before, t.first)), id + ":display", plain.str() + "---- instead of\n" + show(before, t.first));
        }
        RM after = snapshot(r, id);
        MC_CHECK(after == before, id + ":changed", diff(before, after));
    }
}
MC_BODY("C36", "registries")
{
    int nm = c.choose(3, "naming"), how = c.choose(c.thorough ? 6 : 1, "decoration");
    RM m = regs::pick_registry(c, regs::NAMING[nm], true, regs::NA, regs::NB, regs::NC, regs::ND, regs::NT);
    regs::decorate(m, c.thorough ? how : (int[]) { 3, 5, 3 }[nm], "m");
    listed(c, m, "registries");
}
// Every kind of type in every kind of type
MC_BODY("C36", "types")
{
    static vector<string> const N = { "/A", "/N/A", "/a b/unsigned int", "/N/T</A,/B<-1>>", "/z/A" };
    string x = c.pick(N, "name"); int kind = c.choose(12, "kind"); c.unit();
    RM m; m.numeric("/i", 4, regs::SINT);
    switch (kind)
    {
        case 0: m.numeric(x, 1, regs::SINT); break;
        case 1: m.numeric(x, 2, regs::UINT); break;
        case 2: m.numeric(x, 8, regs::FLT); break;
        case 3: m.enumeration(x, { { "P", -1 }, { "Q", INT_MAX }, { "A", INT_MIN } }); break;
        case 4: m.enumeration(x, {}); break;
        case 5: m.opaque(x, 12); break;
        case 6: m.null(x); break;
        case 7: m.compound(x, {}, 5); break;
        case 8: m.compound(x, { { "g", "/i", 4, {} }, { "f", "/i", 0, {} } }, 100); break;
        case 9: m.compound(x, { { "next", x + "*", 0, {} }, { "l", "/i", 0, {} } }); m.pointer(x); break;
        case 10: m.compound("/0in", { { "q", "/i", 8, {} } }); m.compound(x, { { "in", "/0in", 16, {} }, { "a", m.array("/0in", 2), 32, {} } }); break;
        case 11: m.compound(x, { { "v", m.vec("/i"), 0, {} }, { "w", m.vec(m.vec("/i")), 24, {} } }); break;
    }
    string t = x; int n = c.choose(c.thorough ? 4 : 3, "levels");
    for (int i = 0; i < n; ++i)
        switch (c.choose(4, "derived"))
        {
            case 0: t = m.pointer(t); break;
            case 1: t = m.array(t, i + 1); break;
            case 2: t = m.vec(t); break;
            case 3: { string k = mc::fmt("/N/C%d", i); m.compound(k, { { "x", t, size_t(8 * i), {} }, { "y", t, 1000000, {} } }); t = k; break; }
        }
    switch (c.choose(3, "alias"))
    {
        case 0: break;
        case 1: m.alias(t, "/0alias", true, "src"); break;
        case 2: m.alias(x, "/0alias"); m.types[x].source = "src"; m.types[t].source = "a b.h"; break;
    }
    listed(c, m, "types");
}
