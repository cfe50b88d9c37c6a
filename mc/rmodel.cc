#include "rmodel.hh"
#include <functional>
#include <algorithm>
using namespace std;
using namespace Typelib;

namespace rm
{
    string RM::resolve(string const& name) const
    {
        if (types.count(name)) return name;
        auto it = aliases.find(name);
        return it == aliases.end() ? string() : it->second.to;
    }
    void RM::numeric(string const& name, size_t size, int category)
    { Def d; d.cat = 'n'; d.size = size; d.num = category; types[name] = d; }
    void RM::enumeration(string const& name, map<string, int> const& syms)
    { Def d; d.cat = 'e'; d.size = 4; d.syms = syms; types[name] = d; }
    void RM::opaque(string const& name, size_t size)
    { Def d; d.cat = 'o'; d.size = size; types[name] = d; }
    void RM::null(string const& name)
    { Def d; d.cat = '0'; types[name] = d; }
    void RM::compound(string const& name, vector<Fld> const& fields, size_t size)
    {
        Def d; d.cat = 'c'; d.fields = fields;
        // types of fields which are not known yet (recursion) are pointers or vectors
        for (auto& f : d.fields)
        {
            string t = resolve(f.type); size_t s;
            if (t.empty()) s = f.type[f.type.size() - 1] == '*' ? 8 : 24;
            else { f.type = t; s = types[t].size; }
            d.size = max(d.size, f.off + s);
        }
        d.size = max(d.size, size);
        types[name] = d;
    }
    string RM::derived(Def const& d, string const& elem) const
    {
        switch (d.cat)
        {
            case 'p': return elem + "*";
            case 'a': return elem + mc::fmt("[%zu]", d.dim);
            default: return "/std/vector<" + elem + ">";
        }
    }
    void RM::close(string const& name)
    {
        Def const& d = types[name];
        if (!(d.cat == 'p' || d.cat == 'a' || (d.cat == 'v' && d.kind == "/std/vector"))) return;
        for (auto& a : aliases_of(d.elem))
        {
            string n = derived(d, a);
            if (!has(n)) alias(name, n, false);
        }
    }
    string RM::pointer(string const& to)
    {
        string e = resolve(to), n = e + "*";
        if (has(n)) return resolve(n);
        Def d; d.cat = 'p'; d.size = sizeof(void*); d.elem = e; d.persistent = false;
        types[n] = d; close(n); return n;
    }
    string RM::array(string const& of, size_t dim)
    {
        string e = resolve(of), n = e + mc::fmt("[%zu]", dim);
        if (has(n)) return resolve(n);
        Def d; d.cat = 'a'; d.size = types[e].size * dim; d.elem = e; d.dim = dim; d.persistent = false;
        types[n] = d; close(n); return n;
    }
    string RM::vec(string const& of)
    {
        string e = resolve(of), n = "/std/vector<" + e + ">";
        if (has(n)) return resolve(n);
        Def d; d.cat = 'v'; d.size = sizeof(vector<int>); d.elem = e; d.kind = "/std/vector";
        types[n] = d; close(n); return n;
    }
    void RM::alias(string const& base, string const& name, bool persistent, string const& source)
    {
        string b = resolve(base);
        if (resolve(name) == b) return;
        aliases[name] = Alias { b, persistent, source };
        vector<string> triggers;
        for (auto& t : types) if (t.second.elem == b) triggers.push_back(t.first);
        for (auto& t : triggers) close(t);
    }
    set<string> RM::depends(string const& type) const
    {
        set<string> r; Def const& d = types.at(type);
        if (!d.elem.empty()) r.insert(d.elem);
        for (auto& f : d.fields) r.insert(f.type);
        return r;
    }
    set<string> RM::rdepends(string const& type) const
    {
        set<string> r; r.insert(type);
        for (bool more = true; more; )
        {
            more = false;
            for (auto& t : types)
                if (!r.count(t.first))
                    for (auto& d : depends(t.first)) if (r.count(d)) { r.insert(t.first); more = true; break; }
        }
        return r;
    }
    set<string> RM::aliases_of(string const& type) const
    {
        set<string> r;
        for (auto& a : aliases) if (a.second.to == type) r.insert(a.first);
        return r;
    }
    void RM::remove(string const& type)
    {
        set<string> dead = rdepends(type);
        for (auto& d : dead) types.erase(d);
        for (auto it = aliases.begin(); it != aliases.end(); ) if (dead.count(it->second.to)) aliases.erase(it++); else ++it;
    }
    string base_and_modifiers(string const& name, vector<pair<char, size_t>>& mods)
    {
        string n = name;
        while (!n.empty())
        {
            if (n[n.size() - 1] == '*') { mods.insert(mods.begin(), make_pair('p', size_t(0))); n.resize(n.size() - 1); }
            else if (n[n.size() - 1] == ']')
            {
                size_t o = n.rfind('[');
                mods.insert(mods.begin(), make_pair('a', size_t(atol(n.c_str() + o + 1)))); n.resize(o);
            }
            else break;
        }
        return n;
    }
    bool RM::can_build(string const& name) const
    {
        if (has(name)) return true;
        vector<pair<char, size_t>> m; return has(base_and_modifiers(name, m));
    }
    string RM::build(string const& name)
    {
        if (has(name)) return resolve(name);
        vector<pair<char, size_t>> m; string t = resolve(base_and_modifiers(name, m));
        if (t.empty()) return t;
        for (auto& x : m) t = x.first == 'p' ? pointer(t) : array(t, x.second);
        return t;
    }

    static string meta_text(Meta const& m)
    {
        string s;
        for (auto& k : m) { s += " @" + k.first + "="; for (auto& v : k.second) s += v + ";"; }
        return s;
    }
    string text(string const& name, Def const& d)
    {
        string s = name + ":" + d.cat + mc::fmt(" size=%zu", d.size);
        if (d.cat == 'n') s += mc::fmt(" num=%d", d.num);
        if (!d.elem.empty()) s += " of " + d.elem;
        if (d.cat == 'a') s += mc::fmt(" dim=%zu", d.dim);
        if (!d.kind.empty()) s += " kind=" + d.kind;
        for (auto& f : d.fields) s += " " + f.name + "@" + mc::fmt("%zu:", f.off) + f.type + meta_text(f.meta);
        for (auto& y : d.syms) s += " " + y.first + mc::fmt("=%d", y.second);
        if (!d.source.empty()) s += " src=" + d.source;
        if (!d.persistent) s += " derived";
        return s + meta_text(d.meta);
    }
    string RM::text() const
    {
        string s;
        for (auto& t : types) s += rm::text(t.first, t.second) + "\n";
        for (auto& a : aliases) s += a.first + " -> " + a.second.to + (a.second.persistent ? "" : " derived") + (a.second.source.empty() ? "" : " src=" + a.second.source) + "\n";
        return s;
    }
    string diff(RM const& want, RM const& got)
    {
        string s;
        for (auto& t : want.types)
        {
            auto it = got.types.find(t.first);
            if (it == got.types.end()) s += "missing " + text(t.first, t.second) + "\n";
            else if (!(it->second == t.second)) s += "expected " + text(t.first, t.second) + "\n     got " + text(it->first, it->second) + "\n";
        }
        for (auto& t : got.types) if (!want.types.count(t.first)) s += "unexpected " + text(t.first, t.second) + "\n";
        auto at = [](string const& n, Alias const& a) { return n + " -> " + a.to + (a.persistent ? "" : " derived") + (a.source.empty() ? "" : " src=" + a.source); };
        for (auto& a : want.aliases)
        {
            auto it = got.aliases.find(a.first);
            if (it == got.aliases.end()) s += "missing alias " + at(a.first, a.second) + "\n";
            else if (!(it->second == a.second)) s += "expected alias " + at(a.first, a.second) + " got " + at(it->first, it->second) + "\n";
        }
        for (auto& a : got.aliases) if (!want.aliases.count(a.first)) s += "unexpected alias " + at(a.first, a.second) + "\n";
        return s;
    }

    bool name_less(string const& a, string const& b)
    {
        return lexicographical_compare(a.begin(), a.end(), b.begin(), b.end(), [](char x, char y) {
                int p = x == '/' ? -1000 : x, q = y == '/' ? -1000 : y; return p < q; });
    }
    RM snapshot(Registry const& r, string const& id)
    {
        RM m; string last; size_t n = 0;
        for (RegistryIterator it = r.begin(); it != r.end(); ++it, ++n)
        {
            string name = it.getName(); Type const& t = *it;
            MC_CHECK(n == 0 || name_less(last, name), id + ":iteration-order", last + " before " + name);
            last = name;
            MC_CHECK(r.has(name, false) && r.get(name) == &t, id + ":get", name);
            RegistryIterator f = r.find(name);
            MC_CHECK(f != r.end() && f == it && &*f == &t, id + ":find", name);
            MC_CHECK(it.isAlias() == (t.getName() != name), id + ":isAlias", name);
            MC_CHECK(r.isIncluded(t), id + ":not-included", name + " is " + t.getName());
            if (it.isAlias())
            {
                MC_CHECK(&it.aliased() == &t, id + ":aliased", name);
                m.aliases[name] = Alias { t.getName(), it.isPersistent(), it.getSource() };
                continue;
            }
            Def d; d.size = t.getSize(); d.meta = t.getMetaData().get(); d.source = it.getSource(); d.persistent = it.isPersistent();
            set<Type const*> deps;
            switch (t.getCategory())
            {
                case Type::NullType: d.cat = '0'; break;
                case Type::Opaque: d.cat = 'o'; break;
                case Type::Numeric: d.cat = 'n'; d.num = dynamic_cast<Numeric const&>(t).getNumericCategory(); break;
                case Type::Enum: d.cat = 'e'; for (auto& v : dynamic_cast<Enum const&>(t).values()) d.syms[v.first] = v.second; break;
                case Type::Array: d.cat = 'a'; d.dim = dynamic_cast<Array const&>(t).getDimension(); break;
                case Type::Pointer: d.cat = 'p'; break;
                case Type::Container: d.cat = 'v'; d.kind = dynamic_cast<Container const&>(t).kind(); break;
                case Type::Compound:
                    d.cat = 'c';
                    for (auto& x : dynamic_cast<Compound const&>(t).getFields())
                    {
                        Fld fl; fl.name = x.getName(); fl.type = x.getType().getName(); fl.off = x.getOffset(); fl.meta = x.getMetaData().get();
                        d.fields.push_back(fl); deps.insert(&x.getType());
                    }
                    break;
                default: mc::fail(id + ":category", name);
            }
            if (Indirect const* i = dynamic_cast<Indirect const*>(&t)) { d.elem = i->getIndirection().getName(); deps.insert(&i->getIndirection()); }
            MC_CHECK(deps == t.dependsOn(), id + ":dependsOn", name);
            for (auto* x : deps) MC_CHECK(r.isIncluded(*x), id + ":foreign-type", name + " uses a type " + x->getName() + " which is not the registry's");
            m.types[name] = d;
        }
        MC_CHECK(n == r.size(), id + ":size", mc::fmt("%zu types iterated, size() is %zu", n, r.size()));
        for (auto& a : m.aliases) MC_CHECK(m.types.count(a.second.to), id + ":alias-target", a.first + " -> " + a.second.to);
        return m;
    }
    void create(RM const& m, Registry& r)
    {
        function<Type const&(string const&)> go = [&](string const& name) -> Type const&
        {
            if (Type const* t = r.get(name)) return *t;
            Def const& d = m.types.at(name); Type* t = nullptr;
            switch (d.cat)
            {
                case '0': t = new NullType(name); break;
                case 'o': t = new OpaqueType(name, d.size); break;
                case 'n': t = new Numeric(name, d.size, Numeric::NumericCategory(d.num)); break;
                case 'e': { Enum* e = new Enum(name); for (auto& s : d.syms) e->add(s.first, s.second); t = e; break; }
                case 'c':
                {
                    Compound* c = new Compound(name);
                    if (d.persistent) r.add(c, d.source); else r.add(c, false, d.source);
                    for (auto& f : d.fields)
                    {
                        Type const& ft = go(f.type);
                        Field const& fl = c->addField(f.name, ft, f.off);
                        for (auto& k : f.meta) fl.getMetaData().add(k.first, k.second);
                    }
                    c->setSize(d.size);
                    for (auto& k : d.meta) c->getMetaData().add(k.first, k.second);
                    return *c;
                }
                case 'a': { Type const& e = go(d.elem); if (Type const* k = r.get(name)) return *k; t = new Array(e, d.dim); break; }
                case 'p': { Type const& e = go(d.elem); if (Type const* k = r.get(name)) return *k; t = new Pointer(e); break; }
                case 'v':
                {
                    Type const& e = go(d.elem); if (Type const* k = r.get(name)) return *k;
                    Type* v = const_cast<Container*>(&Container::createContainer(r, d.kind, e));
                    if (!d.source.empty()) r.setSourceID(*v, d.source);
                    for (auto& k : d.meta) v->getMetaData().add(k.first, k.second);
                    return *v;
                }
            }
            for (auto& k : d.meta) t->getMetaData().add(k.first, k.second);
            if (d.persistent && (d.cat == 'a' || d.cat == 'p')) r.add(t, true, d.source);
            else r.add(t, d.source);
            return *t;
        };
        for (auto& t : m.types) go(t.first);
        for (auto& a : m.aliases) if (a.second.persistent) r.alias(a.second.to, a.first, true, a.second.source);
        for (auto& a : m.aliases) if (!a.second.persistent && !r.has(a.first, false)) r.alias(a.second.to, a.first, false, a.second.source);
    }

    namespace
    {
        struct Cmp
        {
            RM const& l; RM const& r; bool eq; set<pair<string, string>> seen;
            bool go(string const& a, string const& b)
            {
                if (!seen.insert(make_pair(a, b)).second) return true;
                Def const& x = l.types.at(a); Def const& y = r.types.at(b);
                if (x.cat != y.cat) return false;
                switch (x.cat)
                {
                    case '0': return a == b;
                    case 'o': return a == b && x.size == y.size;
                    case 'n': return x.size == y.size && x.num == y.num;
                    case 'e':
                        if (x.size != y.size) return false;
                        if (eq) return x.syms == y.syms;
                        for (auto& s : x.syms) { auto it = y.syms.find(s.first); if (it == y.syms.end() || it->second != s.second) return false; }
                        return true;
                    case 'p': return x.size == y.size && go(x.elem, y.elem);
                    case 'a': return x.size == y.size && x.dim == y.dim && (eq ? go(x.elem, y.elem) : same(l, x.elem, r, y.elem));
                    case 'v': return x.size == y.size && x.kind == y.kind && (eq ? go(x.elem, y.elem) : same(l, x.elem, r, y.elem));
                    default:
                        if (eq && x.size != y.size) return false;
                        if (x.fields.size() != y.fields.size()) return false;
                        for (size_t i = 0; i < x.fields.size(); ++i)
                            if (x.fields[i].name != y.fields[i].name || x.fields[i].off != y.fields[i].off || !go(x.fields[i].type, y.fields[i].type)) return false;
                        return true;
                }
            }
        };
    }
    bool same(RM const& l, string const& a, RM const& r, string const& b) { Cmp c { l, r, true, {} }; return c.go(a, b); }
    bool castable(RM const& l, string const& a, RM const& r, string const& b) { Cmp c { l, r, false, {} }; return c.go(a, b); }

    bool merge(RM& into, RM const& from)
    {
        RM m = into; map<string, string> done; bool ok = true;
        function<string(string const&)> go = [&](string const& n) -> string
        {
            auto it = done.find(n); if (it != done.end()) return it->second;
            string old = m.resolve(n);
            if (!old.empty())
            {
                if (!into.types.count(old) || !same(into, old, from, n)) ok = false;
                return done[n] = old;
            }
            Def d = from.types.at(n); d.meta.clear(); d.source.clear();
            for (auto& f : d.fields) f.meta.clear();
            switch (d.cat)
            {
                case 'p': return done[n] = m.pointer(go(d.elem));
                case 'a': return done[n] = m.array(go(d.elem), d.dim);
                case 'v': if (d.kind == "/std/vector") return done[n] = m.vec(go(d.elem)); break;
                case 'c':
                    done[n] = n; m.types[n] = d;
                    for (auto& f : d.fields) f.type = go(f.type);
                    break;
            }
            m.types[n] = d;
            return done[n] = n;
        };
        for (auto& t : from.types) { go(t.first); if (!ok) return false; }
        for (auto& a : from.aliases)
        {
            string old = m.resolve(a.first);
            if (old.empty()) m.alias(done.at(a.second.to), a.first, a.second.persistent, a.second.source);
            else if (!same(m, old, from, a.second.to)) return false;
        }
        for (auto& a : from.aliases)
            if (m.aliases.count(a.first) && m.aliases[a.first].source.empty()) m.aliases[a.first].source = a.second.source;
        for (auto& t : from.types)
        {
            if (!m.types.count(t.first)) continue;
            Def& d = m.types[t.first];
            if (!t.second.source.empty() && d.source.empty()) { d.source = t.second.source; d.meta["source_id"] = { d.source }; }
        }
        for (auto& t : from.types)
        {
            Def& d = m.types[m.resolve(t.first)];
            for (auto& k : t.second.meta) d.meta[k.first].insert(k.second.begin(), k.second.end());
            for (auto& f : t.second.fields)
                for (auto& g : d.fields) if (g.name == f.name)
                    for (auto& k : f.meta) g.meta[k.first].insert(k.second.begin(), k.second.end());
        }
        into = m;
        return true;
    }
}
