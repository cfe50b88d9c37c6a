// C20 IDL export: the output is parsed and compared with what the registry means
#include "rmodel.hh"
#include "regs.hh"
#include <typelib/pluginmanager.hh>
#include <typelib/exporter.hh>
#include <typelib/importer.hh>
#include <typelib/typevisitor.hh>
#include <typelib/utilmm/configset.hh>
#include <sstream>
#include <memory>
#include <functional>
#include <string.h>
#include <algorithm>
using namespace std;
using namespace Typelib;
using namespace rm;
using mc::Ctx;

namespace
{
    PluginManager& manager() { static PluginManager::self m; return *m; }
    struct Options
    {
        string prefix, suffix; int blob = 0; string any; vector<string> selected;
        void to(utilmm::config_set& k) const
        {
            if (!prefix.empty()) k.set("namespace_prefix", prefix);
            if (!suffix.empty()) k.set("namespace_suffix", suffix);
            if (blob) k.set("blob_threshold", to_string(blob));
            if (!any.empty()) k.set("opaque_as_any", any);
            for (auto& s : selected) k.insert("selected", s);
        }
        bool as_any() const { return any == "1" || any == "true"; }
    };
    struct Refused { string why; };

    // ---- declarations, in both worlds
    struct Decl
    {
        string kind, name;              // struct enum typedef, absolute name
        vector<string> body;            // "type name dims"
        string text() const { string s = kind + " " + name; for (auto& b : body) s += "\n    " + b; return s; }
        bool operator<(Decl const& o) const { return text() < o.text(); }
    };
    string text(vector<Decl> v) { sort(v.begin(), v.end()); string s; for (auto& d : v) s += d.text() + "\n"; return s; }

    // ---- what a registry means in IDL
    string strip(string s) { if (s[0] == '_') s.erase(0, 1); return s; }
    string identifier(string s) { for (string k : { "struct ", "enum " }) if (s.compare(0, k.size(), k) == 0) { s = s.substr(k.size()); break; } for (char& x : s) if (strchr("<>/,*[]-", x)) x = '_'; return strip(s); }
    struct Writer
    {
        RM const& m; Options const& o; vector<Decl> out;
        Writer(RM const& m, Options const& o) : m(m), o(o) {}
        string module(string const& ns)
        {
            string r, all = o.prefix + "/" + ns + "/" + o.suffix; stringstream s(all); string x;
            while (getline(s, x, '/')) if (!x.empty()) r += "::" + identifier(x);
            return r;
        }
        static string ns_of(string const& name)
        {
            int depth = 0; size_t at = 0;
            for (size_t i = 0; i < name.size(); ++i) { if (name[i] == '<') ++depth; if (name[i] == '>') --depth; if (name[i] == '/' && !depth) at = i; }
            return name.substr(0, at + 1);
        }
        static string base_of(string const& name) { return name.substr(ns_of(name).size()); }
        // module and name of a type
        pair<string, string> target(string const& t)
        {
            Def const& d = m.types.at(t);
            switch (d.cat)
            {
                case 'n':
                {
                    if (t == "/bool") return { "", "boolean" };
                    if (d.num == regs::FLT) return { "", d.size == 4 ? "float" : "double" };
                    string u = d.num == regs::UINT ? "unsigned " : "";
                    switch (d.size) { case 1: return { "", "octet" }; case 2: return { "", u + "short" }; case 4: return { "", u + "long" }; case 8: return { "", u + "long long" }; }
                    throw Refused { "size" };
                }
                case 'o': if (!o.as_any()) throw Refused { "opaque" }; return { "", "any" };
                case '0': throw Refused { "null" };
                case 'p': throw Refused { "pointer" };
                case 'v':
                {
                    if (t == "/std/string") return { "", "string" };
                    if (m.types.at(d.elem).cat == 'a') throw Refused { "sequence of arrays" };
                    string ns = target(d.elem).first, e = d.elem; if (ns.empty()) ns = module("/");
                    for (char& x : e) if (x == ' ') x = '_';
                    return { ns, identifier("vector_" + e + "_") };
                }
                case 'a': throw Refused { "array" };
                default: return { module(ns_of(t)), identifier(base_of(t)) };
            }
        }
        string ref(string const& t) { auto p = target(t); return (p.first.empty() && m.types.at(t).cat != 'c' && m.types.at(t).cat != 'e' && !(m.types.at(t).cat == 'v' && t != "/std/string")) ? p.second : p.first + "::" + p.second; }
        // a member or a typedef
        string member(string const& t, string const& name)
        {
            Def const& d = m.types.at(t);
            if (d.cat == 'a') return ref(d.elem) + " " + strip(name) + "[" + to_string(d.dim) + "]";
            return ref(t) + " " + strip(name);
        }
        bool selected(string const& t) { return o.selected.empty() || count(o.selected.begin(), o.selected.end(), t); }
        void write()
        {
            map<string, string> sequences;
            for (auto& x : m.types)
            {
                string const& t = x.first; Def const& d = x.second;
                if (!d.persistent || !selected(t)) continue;
                Decl k;
                if (o.blob && d.cat == 'c' && d.size > size_t(o.blob)) { k.kind = "typedef"; k.name = ref(t); k.body.push_back("sequence<octet>"); out.push_back(k); continue; }
                switch (d.cat)
                {
                    case 'n': break;
                    case 'o': if (!o.as_any()) throw Refused { "opaque" }; break;
                    case '0': throw Refused { "null" };
                    case 'p': throw Refused { "pointer" };
                    case 'a': throw Refused { "array" };
                    case 'v': if (t == "/std/string") break;
                        k.kind = "typedef"; k.name = ref(t); k.body.push_back("sequence<" + ref(d.elem) + ">"); out.push_back(k);
                        sequences[ns_of(d.elem) + target(t).second] = t; break;
                    case 'c': k.kind = "struct"; k.name = ref(t); for (auto& f : d.fields) k.body.push_back(member(f.type, f.name)); out.push_back(k); break;
                    case 'e': k.kind = "enum"; k.name = ref(t); for (auto& s : d.syms) k.body.push_back(strip(s.first)); sort(k.body.begin(), k.body.end()); out.push_back(k); break;
                }
            }
            for (auto& a : m.aliases)
            {
                string const& t = a.second.to; Def const& d = m.types.at(t);
                if (!a.second.persistent || !selected(t)) continue;
                string ab = base_of(a.first), tb = base_of(t);
                if (ns_of(a.first) == ns_of(t) && (ab == "struct " + tb || ab == "enum " + tb || tb == "struct " + ab || tb == "enum " + ab)) continue;
                if (d.cat == 'p') throw Refused { "pointer" };
                if (d.cat == 'a' && (m.types.at(d.elem).cat == 'a' || m.types.at(d.elem).cat == 'p')) throw Refused { "array" };
                if (ab.find_first_of("/<>") != string::npos || (sequences.count(a.first) && sequences[a.first] == t)) continue;
                Decl k; k.kind = "typedef"; k.name = module(ns_of(a.first)) + "::" + strip(ab);
                if (d.cat == 'a') k.body.push_back(ref(d.elem) + " [" + to_string(d.dim) + "]");
                else if (d.cat == 'v' && t != "/std/string") k.body.push_back("sequence<" + ref(d.elem) + ">");
                else if (ab.find(' ') != string::npos) { if (d.cat != 'o') continue; if (o.as_any()) throw mc::Prune(); }
                else k.body.push_back(ref(t));
                out.push_back(k);
            }
        }
    };

    // ---- what a document says
    struct Parser
    {
        string const& s; size_t at = 0; string tok; vector<Decl> out; set<string> defined; bool check_use; vector<string> used_before;
        string id; Parser(string const& s, bool check_use, string const& id) : s(s), check_use(check_use), id(id) { next(); }
        [[noreturn]] void bad(string const& why) { mc::fail(id + ":invalid IDL", why + " near byte " + to_string(at) + " (" + tok + ")\n" + s); }
        static bool word(char x) { return isalnum((unsigned char)x) || x == '_'; }
        void next()
        {
            while (at < s.size() && isspace((unsigned char)s[at])) ++at;
            tok.clear(); if (at >= s.size()) return;
            if (word(s[at])) { while (at < s.size() && word(s[at])) tok += s[at++]; return; }
            if (s.compare(at, 2, "::") == 0) { tok = "::"; at += 2; return; }
            if (!strchr("{}<>[];,", s[at])) bad("unexpected character");
            tok = string(1, s[at++]);
        }
        void expect(string const& t) { if (tok != t) bad("expected " + t); next(); }
        string ident()
        {
            static set<string> const words = { "module", "struct", "enum", "typedef", "sequence", "long", "short", "unsigned", "octet", "boolean", "float", "double", "any", "string" };
            if (tok.empty() || !isalpha((unsigned char)tok[0]) || words.count(tok)) bad("not an identifier"); string r = tok; next(); return r;
        }
        string type()
        {
            if (tok == "::")
            {
                string n; while (tok == "::") { next(); n += "::" + ident(); }
                if (check_use && !defined.count(n)) bad(n + " is used before it is defined"); return n;
            }
            string r = tok;
            if (r == "sequence") { next(); expect("<"); string e = type(); expect(">"); return "sequence<" + e + ">"; }
            if (r == "unsigned") { next(); r += " " + tok; if (tok != "long" && tok != "short") bad("unsigned what"); }
            else if (r != "boolean" && r != "octet" && r != "short" && r != "long" && r != "float" && r != "double" && r != "any" && r != "string") bad("not a type");
            bool l = tok == "long"; next(); if (l && tok == "long") { r += " long"; next(); }
            return r;
        }
        string dims() { if (tok != "[") return ""; next(); string n = tok; if (n.empty() || n.find_first_not_of("0123456789") != string::npos) bad("not a dimension"); next(); expect("]"); return "[" + n + "]"; }
        void define(Decl const& d) { if (!defined.insert(d.name).second) bad(d.name + " is defined twice"); out.push_back(d); }
        void scope(string const& ns)
        {
            bool any = false;
            while (!tok.empty() && tok != "}")
            {
                any = true; Decl d; d.kind = tok; next();
                if (d.kind == "module") { string n = ns + "::" + ident(); expect("{"); scope(n); expect("}"); expect(";"); continue; }
                if (d.kind == "struct")
                {
                    d.name = ns + "::" + ident(); expect("{"); set<string> names;
                    while (tok != "}") { string t = type(), n = ident(); if (!names.insert(n).second) bad("member twice"); d.body.push_back(t + " " + n + dims()); expect(";"); }
                    next(); expect(";");
                    if (d.body.empty()) bad("empty structure");
                }
                else if (d.kind == "enum")
                {
                    d.name = ns + "::" + ident(); expect("{");
                    while (true) { d.body.push_back(ident()); if (tok == "}") break; expect(","); }
                    next(); expect(";"); sort(d.body.begin(), d.body.end());
                }
                else if (d.kind == "typedef") { string t = type(); d.name = ns + "::" + ident(); string k = dims(); d.body.push_back(k.empty() ? t : t + " " + k); expect(";"); }
                else bad("not a declaration");
                define(d);
            }
            if (!any && !ns.empty()) bad("empty module");
        }
        void read() { scope(""); if (!tok.empty()) bad("unbalanced"); }
    };

    bool emit(Registry const& r, Options const& o, string& doc, Exporter* reuse = nullptr)
    {
        manager(); utilmm::config_set k; o.to(k);
        try
        {
            if (!reuse) { doc = PluginManager::save("idl", k, r); return true; }
            ostringstream s; reuse->save(s, k, r); doc = s.str(); return true;
        }
        catch (ExportError const&) {} catch (UnsupportedType const&) {} catch (TypeException const&) {}
        return false;
    }
    bool recursive(RM const& m)
    {
        for (auto& t : m.types) for (auto& d : m.depends(t.first)) if (m.rdepends(t.first).count(d)) return true;
        return false;
    }
    void check(Ctx& c, RM const& model, Options const& o, string const& id, Exporter* reuse = nullptr)
    {
        Registry r; create(model, r); RM m = snapshot(r, id);
        Writer w(m, o); string refused; bool rec = recursive(m);
        try { if (rec) throw Refused { "recursive" }; w.write(); } catch (Refused const& x) { refused = x.why; }
        string doc; bool ok = emit(r, o, doc, reuse); c.step();
        string what = "prefix '" + o.prefix + "' suffix '" + o.suffix + "' blob " + to_string(o.blob) + " any '" + o.any + "'\n" + m.text();
        if (!refused.empty()) { MC_CHECK(!ok, id + ":accepted:" + refused, what + doc); c.count("refused"); return; }
        MC_CHECK(ok, id + ":refused", what + text(w.out));
        Parser p(doc, o.selected.empty(), id); p.read();
        string want = text(w.out), got = text(p.out);
        MC_CHECK(want == got, id + ":content", "expected\n" + want + "\ngot\n" + got + "\n" + what + doc);
        c.count("declarations", p.out.size()); c.state(got + o.prefix + o.suffix);
    }
    vector<pair<string, string>> const FIX = { { "", "" }, { "P", "" }, { "", "S" }, { "/P/Q", "S/T" }, { "N", "N" }, { "_p", "_s/" } };
}

MC_BODY("C20", "registries")
{
    int nm = c.choose(3, "naming"), how = c.choose(c.thorough ? 12 : 4, "options");
    RM m = regs::pick_registry(c, regs::NAMING[nm], true, regs::NA, regs::NB, regs::NC, regs::ND, regs::NT);
    Options o; int f = c.thorough ? how % 6 : (int[]) { 0, 3, 4, 1 }[how]; o.prefix = FIX[f].first; o.suffix = FIX[f].second;
    if (how & 1) o.any = "1";
    if (how >= 6 || how == 2) o.blob = 16;
    // blobs are specified for compounds only
    if (o.blob) for (auto& t : m.types) if (t.second.cat != 'c' && t.second.size > size_t(o.blob)) throw mc::Prune();
    check(c, m, o, "registries");
}
namespace
{
    // types a field can have; adds what they need
    vector<string> field_types(RM& m, bool deep)
    {
        vector<string> r;
        auto num = [&](string n, size_t s, int k) { m.numeric(n, s, k); r.push_back(n); };
        num("/bool", 1, regs::UINT);
        for (size_t s : { 1, 2, 4, 8 }) { num(mc::fmt("/int%d_t", int(s * 8)), s, regs::SINT); num(mc::fmt("/uint%d_t", int(s * 8)), s, regs::UINT); }
        num("/float", 4, regs::FLT); num("/double", 8, regs::FLT); num("/N/real", 8, regs::FLT); num("/odd", 3, regs::SINT);
        m.types["/std/string"] = [] { Def d; d.cat = 'v'; d.kind = "/std/string"; d.elem = "/int8_t"; d.size = 32; return d; }(); r.push_back("/std/string");
        m.enumeration("/E", { { "A", 0 }, { "B", 1 } }); m.enumeration("/N/E", { { "_C", 7 } }); m.enumeration("/N/_M/_E", { { "D", -1 }, { "E_", 2 } });
        m.compound("/S", regs::one("x", "/int32_t")); m.compound("/N/S", regs::one("_x", "/double")); m.compound("/N/_M/_S", regs::one("x", "/E")); m.compound("/N/M/T</int32_t,/N/S>", regs::one("x", "/N/S"));
        m.compound("/T</S*,/E[3],-1>", regs::one("x", "/N/_M/_E"));
        m.compound("/N/struct Tag", regs::one("x", "/int32_t")); m.enumeration("/N/enum Kind", { { "A", 0 } });
        for (auto& n : { "/E", "/N/E", "/N/_M/_E", "/S", "/N/S", "/N/_M/_S", "/N/M/T</int32_t,/N/S>", "/T</S*,/E[3],-1>", "/N/struct Tag", "/N/enum Kind" }) r.push_back(n);
        (void)deep;
        return r;
    }
    // drops what is not needed by the given types
    RM only(RM const& m, set<string> keep)
    {
        RM out; function<void(string const&)> add = [&](string const& n) { if (out.types.count(n)) return; out.types[n] = m.types.at(n); for (auto& d : m.depends(n)) add(d); };
        for (auto& k : keep) add(k);
        return out;
    }
}
// Every type in every use
MC_BODY("C20", "types")
{
    static map<bool, pair<RM, vector<string>>> cache;
    if (!cache.count(c.thorough)) { RM x; auto f = field_types(x, false); x.opaque("/O", 4); x.opaque("/N/O", 4); x.null("/N/Null"); f.insert(f.end(), { "/O", "/N/O", "/N/Null" }); cache[c.thorough] = { x, f }; }
    RM m = cache[c.thorough].first; auto const& f = cache[c.thorough].second;
    int use = c.choose(9, "use"); string t = c.pick(f, "type"); c.unit(); int fix = c.choose(FIX.size(), "names"), any = c.choose(4, "opaques"), place = c.choose(3, "place");
    // wrapped in something
    auto wrap = [&](string x, int u) {
        switch (u) { case 1: return m.array(x, 3); case 2: return m.vec(x); case 3: return m.array(m.vec(x), 7); case 4: return m.vec(m.vec(x)); case 5: return m.vec(m.array(x, 2)); case 6: return m.array(m.array(x, 2), 3); case 7: return m.pointer(x); case 8: return m.vec(m.pointer(x)); }
        return x; };
    string x = wrap(t, use), C = vector<string> { "/C", "/N/M/C", "/_K/_C" }[place];
    m.compound(C, { { "a", x, 0, {} }, { "_b", t, 512, {} }, { "d_", "/int32_t", 1024, {} } });
    m.compound("/N/User", regs::one("c", C));
    Options o; o.prefix = FIX[fix].first; o.suffix = FIX[fix].second; o.any = vector<string> { "", "1", "true", "0" }[any];
    check(c, only(m, { "/N/User" }), o, "types");
    check(c, only(m, { x }), o, "types alone");
}
// Aliases of everything under every kind of name
MC_BODY("C20", "aliases")
{
    vector<string> const N = { "/Al", "/S2", "/N/Al", "/N/_M/_Al", "/X/Y/Al", "/struct S", "/enum E", "/N/struct S", "/struct Other", "/unsigned thing", "/N/Tag", "/X/Tag", "/Kind", "/T</N/S>", "/_a", "/vector__N_S_", "/N/vector__N_S_", "/vector__int32_t_", "/X/vector__int32_t_" };
    static RM base; static vector<string> T; if (T.empty()) { RM x; T = field_types(x, false); x.opaque("/O", 4); x.null("/Null"); T.insert(T.end(), { "/O", "/Null" }); base = x; }
    RM m = base; int use = c.choose(8, "use"); string t = c.pick(T, "type"); c.unit(); string n = c.pick(N, "alias"); int fix = c.choose(c.thorough ? FIX.size() : 4, "names"), any = c.choose(2, "opaques"), second = c.choose(3, "second alias");
    string x = t;
    switch (use) { case 1: x = m.array(t, 3); break; case 2: x = m.vec(t); break; case 3: x = m.array(m.vec(t), 7); break; case 4: x = m.vec(m.vec(t)); break; case 5: x = m.vec(m.array(t, 2)); break; case 6: x = m.array(m.array(t, 2), 3); break; case 7: x = m.pointer(t); break; }
    // an alias that takes the name of the typedef of a sequence is specified when it is that sequence
    if (n.find("vector_") != string::npos && !(use == 2 && n == Writer::ns_of(t) + identifier("vector_" + t + "_"))) { if (use >= 2 && use <= 5) throw mc::Prune(); }
    // names with spaces stand for C names of structures, enums and numeric types
    if (n.find(' ') != string::npos && use) throw mc::Prune();
    RM k = only(m, { x, "/N/S" });
    if (k.has(n)) throw mc::Prune();
    // the name that the exported structure has
    for (string tag : { "struct ", "enum " }) { string y = Writer::ns_of(n) + tag + Writer::base_of(n); if (k.has(y) && y != x) throw mc::Prune(); }
    k.alias(x, n);
    if (second == 1) k.alias("/N/S", "/Z/Second");
    if (second == 2) { if (n == "/A0") throw mc::Prune(); k.alias(n, "/A0"); }
    Options o; o.prefix = FIX[fix].first; o.suffix = FIX[fix].second; if (any) o.any = "1";
    if (n.find(' ') != string::npos && k.types[x].cat == 'o') throw mc::Prune();
    check(c, k, o, "aliases");
}
// Some types only, and big ones as sequences of octets
MC_BODY("C20", "options")
{
    static RM base; static vector<string> T; if (T.empty()) { RM x; T = field_types(x, false); T.erase(remove(T.begin(), T.end(), string("/odd")), T.end()); x.types.erase("/odd"); x.alias("/N/S", "/N/AlS"); x.alias("/int32_t", "/AlI"); x.vec("/N/S"); T.push_back("/std/vector</N/S>"); base = x; }
    RM m = base; int what = c.choose(2, "option");
    Options o;
    if (what == 0)
    {
        string a = c.pick(T, "selected"), b = c.pick(T, "selected"); c.unit(); int fix = c.choose(FIX.size(), "names"), third = c.choose(T.size() + 1, "selected");
        o.prefix = FIX[fix].first; o.suffix = FIX[fix].second; o.selected = { a, b, "/none" }; if (third) o.selected.push_back(T[third - 1]);
        m.compound("/Z", regs::one("p", m.pointer("/S"))); // not supported, but not selected either
        check(c, m, o, "selection");
    }
    else
    {
        vector<string> const C = { "/C", "/N/_C", "/N/T</int32_t,/S>", "/N/M/C" };
        string n = c.pick(C, "name"); int size = c.choose(6, "size"), over = c.choose(5, "threshold"); c.unit(); int fix = c.choose(FIX.size(), "names"), inside = c.choose(4, "content"), user = c.choose(4, "use");
        m = only(m, { "/N/S", "/std/vector</N/S>", "/int32_t" });
        string f = inside == 0 ? "/int32_t" : inside == 1 ? m.pointer("/int32_t") : inside == 2 ? m.array(m.array("/N/S", 2), 1) : "/N/S";
        m.compound(n, { { "a", f, 0, {} } }, 38 + size);
        if (user == 1) m.compound("/User", regs::one("x", n));
        if (user == 2) m.compound("/User", regs::one("x", m.vec(n)));
        if (user == 3) { m.alias(n, "/A/Al"); m.compound("/User", regs::one("x", m.array(n, 2))); }
        o.prefix = FIX[fix].first; o.suffix = FIX[fix].second; o.blob = (int[]) { 0, 38, 40, 42, 1000 }[over];
        check(c, m, o, "blobs");
    }
}
// Types all over the namespaces, depending on each other in every way
MC_BODY("C20", "modules")
{
    vector<string> const NS = { "/", "/N/", "/N/M/", "/O/", "/N/M/L/", "/M/" };
    int n = c.thorough ? 5 : 4, q = c.thorough ? 5 : 4; vector<string> names; int a = c.choose(q, "namespace"), b = c.choose(q, "namespace"); c.unit();
    RM m; m.numeric("/i", 4, regs::SINT);
    for (int k = 0; k < n; ++k)
    {
        string x = NS[k == 0 ? a : k == 1 ? b : c.choose(q, "namespace")] + "T" + char('0' + k);
        vector<Fld> f = regs::one("x", "/i"); int dep = c.choose(k + 1, "depends on");
        if (dep) { if (dep == 2) f.push_back({ "v", m.vec(names[dep - 1]), 8, {} }); else f.push_back({ "d", names[dep - 1], 8, {} }); }
        m.compound(x, f); names.push_back(x);
    }
    int al = c.choose(q + 1, "alias"); if (al) m.alias(names[al % n], NS[al - 1] + "Al");
    Options o; int fix = c.choose(2, "names") * 3; o.prefix = FIX[fix].first; o.suffix = FIX[fix].second;
    check(c, m, o, "modules");
}
// One exporter used several times
MC_BODY("C20", "reuse")
{
    int k1 = c.choose(6, "first"), k2 = c.choose(6, "second"); c.unit(); int o1 = c.choose(4, "options"), o2 = c.choose(4, "options");
    auto reg = [](int k) {
        RM m; m.numeric("/i", 4, regs::SINT);
        switch (k)
        {
            case 0: m.compound("/N/A", regs::one("x", "/i")); break;
            case 1: m.compound("/N/A", regs::one("x", m.vec("/i"))); m.alias("/N/A", "/M/Al"); break;
            case 2: m.compound("/C", regs::one("x", m.pointer("/i"))); m.alias("/i", "/M/I"); break; // refused
            case 3: m.compound("/N/M/A", regs::one("x", "/i")); m.compound("/N/P", regs::one("p", m.pointer("/i"))); break; // refused in the middle
            case 4: m.enumeration("/N/M/E", { { "A", 1 } }); m.alias(m.vec("/i"), "/vector__i_"); break;
            case 5: m.alias("/i", "/vector__i_"); break;
        }
        return m; };
    auto opt = [](int k) { Options o; if (k & 1) o.prefix = "P"; if (k & 2) o.suffix = "S"; return o; };
    manager(); unique_ptr<Exporter> x(manager().exporter("idl"));
    check(c, reg(k1), opt(o1), "reuse", x.get()); check(c, reg(k2), opt(o2), "reuse", x.get()); check(c, reg(k1), opt(o2), "reuse", x.get());
}
