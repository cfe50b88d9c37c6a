// C08 names, C09 derived types and aliases, C10 merge, C11 minimal, C12
// removal and dependencies, C26 iteration
#include "rmodel.hh"
#include "regs.hh"
#include <typelib/typebuilder.hh>
#include <typelib/typename.hh>
#include <functional>
#include <memory>
using namespace std;
using namespace Typelib;
using namespace rm;
using mc::Ctx;

namespace
{
    using namespace regs;
    vector<string> ns_tokens(string const& ns)
    {
        vector<string> r; string cur = "/"; r.push_back(cur);
        for (size_t i = 1; i < ns.size(); ) { size_t e = ns.find('/', i); cur += ns.substr(i, e - i) + "/"; r.push_back(cur); i = e + 1; }
        return r;
    }
    // what a name designates: the deepest enclosing namespace of the default one wins
    string lookup(RM const& m, string const& ns, string const& name)
    {
        if (!name.empty() && name[0] == '/') return m.resolve(name);
        vector<string> p = ns_tokens(ns); string r;
        for (auto& x : p) { string t = m.resolve(x + name); if (!t.empty()) r = t; }
        return r;
    }
    struct World
    {
        Registry r; RM m; string ns; string trace; map<string, Type const*> ptr;
        World() : ns("/") {}
        void forget() { for (auto it = ptr.begin(); it != ptr.end(); ) if (!m.types.count(it->first)) ptr.erase(it++); else ++it; }
        void verify(string const& id)
        {
            RM got = snapshot(r, id);
            MC_CHECK(got == m, id + ":content", trace + "\n" + diff(m, got));
            MC_CHECK(r.getDefaultNamespace() == ns, id + ":namespace", trace);
            for (auto& t : m.types)
            {
                Type const* p = r.get(t.first);
                if (!ptr.count(t.first)) ptr[t.first] = p;
                MC_CHECK(ptr[t.first] == p, id + ":moved", t.first + " is another object after " + trace);
            }
        }
        void lookups(string const& id, vector<string> const& names)
        {
            for (auto& n : names)
            {
                string want = lookup(m, ns, n); Type const* t = r.get(n);
                string is = t ? t->getName() : string();
                MC_CHECK(is == want, id + ":lookup", mc::fmt("'%s' is '%s' instead of '%s' in namespace %s after ", n.c_str(), is.c_str(), want.c_str(), ns.c_str()) + trace);
                MC_CHECK(r.has(n, false) == !want.empty(), id + ":has", n + " after " + trace);
                if (!want.empty()) MC_CHECK(r.has(n, true), id + ":has", n + " after " + trace);
                MC_CHECK(r.getFullName(n) == (n[0] == '/' ? n : ns + n), id + ":full-name", n);
            }
        }
        template<typename E> void refused(string const& id, function<void()> f)
        {
            bool threw = false;
            try { f(); } catch (E const&) { threw = true; }
            MC_CHECK(threw, id + ":not-refused", trace);
        }
        void erase(string const& name, string const& id)
        {
            set<string> dead = m.rdepends(name), gone;
            set<Type const*> rd = const_cast<Registry const&>(r).reverseDepends(*r.get(name)); set<string> rdn; for (auto* t : rd) rdn.insert(t->getName());
            MC_CHECK(rdn == dead, id + ":reverse-depends", trace);
            set<Type*> out = r.remove(*r.get(name));
            for (auto* t : out) gone.insert(t->getName());
            MC_CHECK(gone == dead && out.size() == dead.size(), id + ":removed", trace);
            m.remove(name); forget();
            for (auto* t : out) delete t;
        }
    };
    vector<string> const NAMES = { "/A", "/N/A", "/N/M/A", "/M/A", "A", "N/A", "M/A", "N/M/A", "/B", "B", "/N/B", "N/B", "/N/S", "S", "N/S", "/N/A*", "A*", "N/A*", "/A[2]", "A[2]", "/B[2]",
        "B[2]", "/N/B[2]", "/B*", "B*", "std/vector</N/A>", "vector</N/A>", "/std/vector</B>", "/std/vector</N/A>", "/X", "X", "M/X", "/N", "N", "M", "/", "x" };
}
static void op(World& w, int o, bool& nothing)
{
    RM before = w.m; string nsb = w.ns; Registry& r = w.r; RM& m = w.m; nothing = false;
    auto note = [&](char const* s) { w.trace += (w.trace.empty() ? "" : ", "); w.trace += s; };
    auto add_num = [&](char const* name, size_t size) {
        note(name);
        Numeric* t = new Numeric(name, size, Numeric::SInt);
        string old = m.resolve(name);
        if (old.empty()) { r.add(t, string("src") + name); m.numeric(name, size, SINT); m.types[name].source = string("src") + name; }
        else { w.refused<AlreadyDefined>("add", [&]() { r.add(t); }); delete t; }
    };
    auto alias = [&](char const* base, char const* name) {
        note((string("alias ") + base + " as " + name).c_str());
        string b = lookup(m, w.ns, base), old = m.resolve(name);
        if (b.empty()) { w.refused<Undefined>("alias", [&]() { r.alias(base, name); }); return; }
        if (!old.empty() && old != b) { w.refused<AlreadyDefined>("alias", [&]() { r.alias(base, name); }); return; }
        r.alias(base, name, string("src")); m.alias(b, name, true, "src");
    };
    auto build = [&](char const* name) {
        note((string("build ") + name).c_str());
        string want = m.build(name);
        Type const* t = r.build(name);
        MC_CHECK((t ? t->getName() : string()) == want, "build:result", w.trace);
    };
    auto remove = [&](char const* name) { note((string("remove ") + name).c_str()); if (!m.types.count(name)) throw mc::Prune(); w.erase(name, "remove"); };
    auto unalias = [&](char const* name) {
        note((string("removeAlias ") + name).c_str());
        if (m.aliases.count(name)) { r.removeAlias(name); m.aliases.erase(name); }
        else w.refused<runtime_error>("removeAlias", [&]() { r.removeAlias(name); });
    };
    auto space = [&](char const* ns, char const* norm) { note((string("namespace ") + ns).c_str()); MC_CHECK(r.setDefaultNamespace(ns), "namespace:refused", w.trace); w.ns = norm; };
    switch (o)
    {
        case 0: add_num("/A", 1); break;
        case 1: add_num("/N/A", 2); break;
        case 2: add_num("/N/M/A", 4); break;
        case 3:
        {
            note("/N/S");
            if (!m.has("/N/A") || m.has("/N/S")) throw mc::Prune();
            Compound* c = new Compound("/N/S"); c->addField("a", *r.get("/N/A"), 4); c->addField("b", *r.get("/N/A"), 8); c->setSize(16);
            r.add(c); m.compound("/N/S", { { "a", "/N/A", 4, {} }, { "b", "/N/A", 8, {} } }, 16); break;
        }
        case 4: build("/N/A*"); break;
        case 5: build("/A[2]"); break;
        case 6: note("vector"); if (!m.has("/N/A") || m.has("/std/vector</N/A>")) throw mc::Prune(); Container::createContainer(r, "/std/vector", *r.get("/N/A")); m.vec("/N/A"); break;
        case 7: alias("/N/A", "/B"); break;
        case 8: alias("/A", "/N/B"); break;
        case 9: alias("/A", "/N/M/A"); break;
        case 10: alias("A", "/X"); break;
        case 11: alias("/N/A", "/M/A"); break;
        case 12: space("/N", "/N/"); break;
        case 13: space("/N/M/", "/N/M/"); break;
        case 14: space("/", "/"); break;
        case 15: remove("/N/A"); break;
        case 16: remove("/A"); break;
        case 17: remove("/N/M/A"); break;
        case 18: unalias("/B"); break;
        case 19: unalias("/N/M/A"); break;
        case 20: note("clearAliases"); r.clearAliases(); m.aliases.clear(); break;
        case 21: note("clear"); r.clear(); m = RM(); w.forget(); break;
        case 22: note("bad namespace"); MC_CHECK(!r.setDefaultNamespace("N") && !r.setDefaultNamespace("") && !r.setDefaultNamespace("/a b-c"), "namespace:accepted", w.trace); break;
        case 23: build("/B[2]"); break;
        case 24: build("/std/vector</N/A>*"); break;
        case 25:
        {
            note("merge");
            static Registry const* other = nullptr; static RM om;
            if (!other)
            {
                om.numeric("/N/A", 2, SINT); om.types["/N/A"].source = "x"; om.compound("/N/T", { { "t", "/N/A", 0, {} } }); om.alias("/N/A", "/B"); om.pointer("/N/T");
                Registry* o = new Registry; create(om, *o); other = o;
            }
            if (!merge(m, om)) { RM keep = m; w.refused<DefinitionMismatch>("merge", [&]() { r.merge(*other); }); throw mc::Prune(); }
            r.merge(*other); break;
        }
        default: throw mc::Prune();
    }
    w.forget();
    nothing = before == w.m && nsb == w.ns;
}
enum { NOPS = 26 };
static void sequences(Ctx& c, int depth)
{
    int n = 1 + c.choose(depth, "length");
    vector<int> ops; ops.push_back(c.choose(NOPS, "op"));
    if (n > 1) ops.push_back(c.choose(NOPS, "op"));
    c.unit();
    long before = mc::live_allocs; string st; unsigned long changes = 0;
    {
        World w; bool nothing;
        for (int i = 0; i < n; ++i)
        {
            int o = i < 2 ? ops[i] : c.choose(NOPS, "op");
            op(w, o, nothing);
            // only the last operation may be without effect: sequences with one inside are covered by shorter ones
            if (nothing && i + 1 < n && o != 22) throw mc::Prune();
            changes++;
            w.ptr.size();
            if (i + 2 == n) for (auto& t : w.m.types) w.ptr[t.first] = w.r.get(t.first);
        }
        w.verify("sequence");
        w.lookups("sequence", NAMES);
        if (c.verbose) c.log("%s\n%s", w.trace.c_str(), w.m.text().c_str());
        st = w.ns + w.m.text();
    }
    c.step(changes + NAMES.size()); c.count("operations", changes); c.count("lookups", NAMES.size());
    c.state(st); st = string();
    (void)before;
}
MC_BODY("C08", "sequences") { sequences(c, c.thorough ? 6 : 5); }
// explicit imports of a namespace
MC_BODY("C08", "imports")
{
    static vector<string> const all = { "/A", "/N/A", "/N/M/A", "/N/M/B", "/N/B", "/O/A", "/O/P/C", "/B" };
    static vector<string> const spaces = { "/", "/N", "/N/M", "/O", "/O/P/" };
    int set_ = c.choose(1 << all.size(), "types"), d = c.choose(5, "default"), i = c.choose(5, "import"), e = c.choose(2, "erase"); c.unit();
    Registry r; RM m;
    for (size_t k = 0; k < all.size(); ++k) if (set_ >> k & 1) { m.numeric(all[k], k + 1, SINT); }
    create(m, r);
    r.setDefaultNamespace(spaces[d]); r.importNamespace(spaces[i], e);
    auto norm = [](string s) { return s[s.size() - 1] == '/' ? s : s + "/"; };
    set<string> names;
    for (auto& t : m.types) for (string p : { "/", "/N/", "/N/M/", "/O/", "/O/P/", "" }) if (t.first.compare(0, p.size(), p) == 0) names.insert(t.first.substr(p.size()));
    for (auto& n : names)
    {
        if (n.empty()) continue;
        string want = lookup(m, norm(spaces[d]), n), imp = n[0] == '/' ? string() : m.resolve(norm(spaces[i]) + n);
        if (!imp.empty() && (want.empty() || e)) want = imp;
        Type const* t = r.get(n);
        MC_CHECK((t ? t->getName() : string()) == want, "import:lookup", mc::fmt("%s with default %s and %s imported (erase=%d) is %s, expected %s", n.c_str(), spaces[d].c_str(), spaces[i].c_str(), e, t ? t->getName().c_str() : "unknown", want.c_str()));
        c.step();
    }
    RM got = snapshot(r, "import"); MC_CHECK(got == m, "import:content", diff(m, got));
    // setting the default namespace forgets the imports
    r.setDefaultNamespace(spaces[d]);
    for (auto& n : names) if (!n.empty()) { Type const* t = r.get(n); MC_CHECK((t ? t->getName() : string()) == lookup(m, norm(spaces[d]), n), "import:forgotten", n); c.step(); }
    c.state(mc::fmt("%d %d %d %d", set_, d, i, e));
}
// any set of names in any order of insertion gives the same lookups
MC_BODY("C08", "orders")
{
    static vector<string> const all = { "/A", "/a/A", "/a/Z/A", "/Z/A", "/b/A", "/a/b/A" };
    int n = all.size(); vector<int> order; int used = 0;
    int len = 1 + c.choose(c.thorough ? 6 : 5, "count"); int d = c.choose(6, "default"), when = c.choose(2, "when");
    for (int i = 0; i < len; ++i)
    {
        int k = c.choose(n - i, "name"); if (i == 1 || len == 1) c.unit();
        for (int j = 0; j < n; ++j) if (!(used >> j & 1) && k-- == 0) { order.push_back(j); used |= 1 << j; break; }
    }
    static vector<string> const spaces = { "/", "/a/", "/a/Z/", "/Z/", "/b/", "/a/b/" };
    World w; if (!when) { w.r.setDefaultNamespace(spaces[d]); } w.ns = spaces[d];
    bool with_alias = order[0] % 2; // one of them is an alias
    for (size_t i = 0; i < order.size(); ++i)
    {
        string nme = all[order[i]]; w.trace += nme + " ";
        if (i && with_alias && i == 1) { w.r.alias(all[order[0]], nme); w.m.alias(all[order[0]], nme); }
        else { w.r.add(new Numeric(nme, 1 + i, Numeric::SInt)); w.m.numeric(nme, 1 + i, SINT); }
    }
    if (when) w.r.setDefaultNamespace(spaces[d]);
    vector<string> names; set<string> uniq;
    for (auto& a : all) for (auto& s : spaces) if (a.compare(0, s.size(), s) == 0) uniq.insert(a.substr(s.size()));
    names.assign(uniq.begin(), uniq.end());
    w.lookups("order", names); w.verify("order");
    // removing one of them uncovers the others
    w.trace += "then remove";
    w.erase(w.m.types.begin()->first, "order:remove");
    w.lookups("order:remove", names); w.verify("order:remove");
    c.step(2 * names.size()); c.state(w.trace + spaces[d] + (when ? "1" : "0"));
}

// ------------------------------------------------------------- registries
// Are all types still usable? Reads everything reachable, under AddressSanitizer
static void merge_check(Ctx& c, RM const& l, RM const& r, string const& id)
{
    c.log("--- left\n%s--- right\n%s", l.text().c_str(), r.text().c_str());
    RM want = l; bool ok = merge(want, r);
    c.count(ok ? "merges" : "refused merges");
    Registry L, R; create(l, L); create(r, R);
    bool threw = false;
    try { L.merge(R); } catch (DefinitionMismatch const&) { threw = true; }
    RM after = snapshot(R, id + ":source");
    MC_CHECK(after == r, id + ":source-modified", diff(r, after));
    MC_CHECK(threw == !ok, id + (threw ? ":refused" : ":accepted"), "--- left\n" + l.text() + "--- right\n" + r.text());
    RM got = snapshot(L, id);
    c.step(1 + r.types.size() + r.aliases.size());
    if (ok)
    {
        MC_CHECK(got == want, id + ":result", diff(want, got) + "--- left\n" + l.text() + "--- right\n" + r.text());
        // once more changes nothing, and the source is included
        L.merge(R); got = snapshot(L, id + ":again");
        MC_CHECK(got == want, id + ":again", diff(want, got));
        for (auto& n : r.types) MC_CHECK(L.get(n.first) && L.get(n.first)->isSame(*R.get(n.first)) && L.get(n.first) != R.get(n.first), id + ":included", n.first);
        for (auto& n : r.aliases) MC_CHECK(L.get(n.first) && L.get(n.first)->isSame(*R.get(n.first)), id + ":included", n.first);
    }
    else
        for (auto& t : l.types)
            MC_CHECK(got.types.count(t.first) && got.types[t.first] == t.second, id + ":refused-but-modified", t.first + " after a refused merge\n--- left\n" + l.text() + "--- right\n" + r.text());
}
MC_BODY("C10", "pairs")
{
    int nm = c.choose(c.thorough ? 3 : 2, "naming");
    bool x = c.thorough;
    RM l = pick_registry(c, NAMING[nm], true, 4, x ? 5 : 4, 4, x ? 4 : 2, x ? 4 : 2), r = pick_registry(c, NAMING[nm], false, 5, 6, 5, x ? 4 : 3, x ? 4 : 3);
    merge_check(c, l, r, "pairs");
    c.state(l.text() + "|" + r.text());
}
MC_BODY("C10", "into-subset")
{
    // everything into a registry holding a part of it
    int nm = c.choose(3, "naming"); bool big = c.thorough;
    RM r = pick_registry(c, NAMING[nm], true, NA, NB, NC, big ? ND : 4, big ? NT : 3);
    vector<string> names; for (auto& t : r.types) names.push_back(t.first);
    int k = c.choose(names.size() + 1, "kept"), al = c.choose(2, "aliases");
    RM l;
    if (k < int(names.size()))
    {
        set<string> keep; function<void(string)> go = [&](string n) { if (keep.insert(n).second) for (auto& d : r.depends(n)) go(d); };
        go(names[k]);
        for (auto& n : keep) l.types[n] = r.types[n];
        if (al) for (auto& a : r.aliases) if (keep.count(a.second.to)) l.aliases[a.first] = a.second;
    }
    else if (al) { l.numeric("/i", 4, SINT); l.alias("/i", NAMING[nm].T); }
    merge_check(c, l, r, "subset");
    c.state(l.text() + "|" + r.text());
}
MC_BODY("C10", "metadata")
{
    int nm = c.choose(3, "naming"), hl = c.choose(8, "left"), hr = c.choose(8, "right");
    RM l = pick_registry(c, NAMING[nm], true, 3, 3, 3, 1, 2), r = pick_registry(c, NAMING[nm], false, 3, 3, 3, 1, 2);
    decorate(l, hl, "l"); decorate(r, hr, "r");
    merge_check(c, l, r, "metadata");
    c.state(l.text() + "|" + r.text());
}
// a name that is a type on one side and an alias on the other
MC_BODY("C10", "clash")
{
    int a = 1 + c.choose(7, "A"), x = c.choose(7, "X"), side = c.choose(2, "side"), b = c.choose(3, "B"); c.unit();
    Names n = NAMING[0];
    RM l, r; if (!make(l, n, a, b, 0, 0, 1)) throw mc::Prune(); // T is an alias to A
    Names n2 = n; n2.A = n.T; if (!make(r, n2, 1 + x, 0, 0, 0, 0)) throw mc::Prune(); // T is a type
    bool eq = same(l, n.A, r, n.T);
    if (eq) throw mc::Prune(); // which name wins is not specified
    if (side) swap(l, r);
    merge_check(c, l, r, "clash");
    c.state(l.text() + "|" + r.text());
}
// three registries, in every order
MC_BODY("C10", "orders")
{
    int nm = c.choose(3, "naming");
    bool x = c.thorough;
    RM r[3]; r[0] = pick_registry(c, NAMING[nm], true, 3, x ? 4 : 3, 2, x ? 2 : 1, 2);
    for (int i = 1; i < 3; ++i) r[i] = pick_registry(c, NAMING[nm], false, 3, i == 1 ? 4 : 3, i == 1 ? 3 : 2, x ? 2 : 1, i == 1 && x ? 2 : 1);
    string ref; bool first = true;
    int perm[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    for (auto& p : perm)
    {
        Registry R[3], into; RM want; string res = "refused"; bool ok = true;
        for (int i : p) { create(r[i], R[i]); ok = ok && merge(want, r[i]); }
        bool threw = false;
        try { for (int i : p) into.merge(R[i]); } catch (DefinitionMismatch const&) { threw = true; }
        RM got = snapshot(into, "orders");
        MC_CHECK(threw == !ok, "orders:outcome", r[0].text() + "---\n" + r[1].text() + "---\n" + r[2].text());
        if (ok) { MC_CHECK(got == want, "orders:result", diff(want, got)); res = got.text(); }
        if (first) ref = res; first = false;
        MC_CHECK(res == ref, "orders:dependent", r[0].text() + "---\n" + r[1].text() + "---\n" + r[2].text());
        c.step(3);
    }
    c.state(r[0].text() + "|" + r[1].text() + "|" + r[2].text());
}
MC_BODY("C10", "single")
{
    // Type::merge of one type brings its dependencies and nothing else
    int nm = c.choose(3, "naming"), pre = c.choose(3, "before"); bool big = c.thorough;
    RM r = pick_registry(c, NAMING[nm], true, big ? NA : 5, NB, NC, big ? ND : 4, big ? NT : 2);
    vector<string> names; for (auto& t : r.types) names.push_back(t.first);
    string n = names[c.choose(names.size(), "type")];
    RM part; set<string> keep; function<void(string)> go = [&](string x) { if (keep.insert(x).second) for (auto& d : r.depends(x)) go(d); };
    go(n); for (auto& k : keep) part.types[k] = r.types[k];
    RM l; if (pre && !make(l, NAMING[nm], pre, 0, 0, 0, 0)) throw mc::Prune();
    RM want = l; bool ok = merge(want, part);
    Registry L, R; create(l, L); create(r, R);
    bool threw = false; Type const* t = nullptr;
    try { t = &R.get(n)->merge(L); } catch (DefinitionMismatch const&) { threw = true; }
    MC_CHECK(threw == !ok, "single:outcome", n + " of\n" + r.text());
    RM got = snapshot(L, "single");
    if (ok) { MC_CHECK(got == want, "single:result", diff(want, got) + n + " of\n" + r.text()); MC_CHECK(L.get(n) == t, "single:returned", n); }
    c.step(); c.state(l.text() + "|" + n + "|" + r.text());
}

// ---------------------------------------------------------------- C11
MC_BODY("C11", "named")
{
    int nm = c.choose(3, "naming"), how = c.choose(c.thorough ? 4 : 2, "decoration");
    RM r = pick_registry(c, NAMING[nm], true, c.thorough ? 8 : 6); decorate(r, c.thorough ? how : 3 * how, "m");
    bool wa = !c.choose(2, "aliases");
    Registry R; create(r, R);
    vector<string> names; for (auto& t : r.types) names.push_back(t.first); for (auto& a : r.aliases) names.push_back(a.first);
    for (auto& n : names)
    {
        set<string> keep; function<void(string)> go = [&](string x) { if (keep.insert(x).second) for (auto& d : r.depends(x)) go(d); };
        go(r.resolve(n)); RM want;
        for (auto& k : keep) { Def d = r.types[k]; if (!d.source.empty()) d.meta["source_id"] = { d.source }; want.types[k] = d; }
        if (wa) for (auto& a : r.aliases) if (keep.count(a.second.to)) want.aliases[a.first] = a.second;
        unique_ptr<Registry> min(R.minimal(n, wa));
        RM got = snapshot(*min, "named");
        MC_CHECK(got == want, "named:result", n + "\n" + diff(want, got) + "from\n" + r.text());
        for (auto& k : keep) MC_CHECK(min->get(k) != R.get(k), "named:shared", k);
        c.step();
    }
    bool threw = false; try { unique_ptr<Registry> x(R.minimal("/nosuchtype", wa)); } catch (runtime_error const&) { threw = true; }
    MC_CHECK(threw, "named:unknown", "");
    RM again = snapshot(R, "named:source"); MC_CHECK(again == r, "named:source-modified", diff(r, again));
    c.state(r.text() + (wa ? "a" : ""));
}
MC_BODY("C11", "difference")
{
    int nm = c.choose(3, "naming"), how = c.choose(2, "decoration"); bool big = c.thorough;
    RM r = pick_registry(c, NAMING[nm], true, big ? NA : 4, big ? NB : 5, NC, big ? ND : 4, big ? NT : 5); decorate(r, how * 3, "m");
    bool keep_al = c.choose(2, "aliases");
    Registry R; create(r, R);
    vector<string> names; for (auto& t : r.types) names.push_back(t.first);
    int base = c.choose(names.size() + 2, "auto"), al = c.choose(2, "auto aliases");
    // the automatic types: the closure of one type, none, or all
    RM a; set<string> keep; function<void(string)> go = [&](string x) { if (keep.insert(x).second) for (auto& d : r.depends(x)) go(d); };
    if (base < int(names.size())) go(names[base]); else if (base > int(names.size())) for (auto& n : names) go(n);
    for (auto& k : keep) a.types[k] = r.types[k];
    if (al) for (auto& x : r.aliases) if (keep.count(x.second.to)) a.aliases[x.first] = x.second;
    Registry A; create(a, A);
    set<string> need; function<void(string)> go2 = [&](string x) { if (need.insert(x).second) for (auto& d : r.depends(x)) go2(d); };
    for (auto& t : r.types) if (!a.can_build(t.first)) go2(t.first);
    RM want; for (auto& k : need) { Def d = r.types[k]; if (!d.source.empty()) d.meta["source_id"] = { d.source }; want.types[k] = d; }
    // aliases of needed types, then what follows from them
    for (auto& x : r.aliases) if (need.count(x.second.to) && (keep_al || !a.can_build(x.first))) want.aliases[x.first] = x.second;
    for (bool more = true; more; ) { size_t n = want.aliases.size(); for (auto& k : need) want.close(k); more = want.aliases.size() != n; }
    unique_ptr<Registry> min(R.minimal(A, keep_al));
    RM got = snapshot(*min, "difference");
    MC_CHECK(got == want, "difference:result", diff(want, got) + "from\n" + r.text() + "auto\n" + a.text());
    RM again = snapshot(R, "difference:source"); MC_CHECK(again == r, "difference:source-modified", diff(r, again));
    again = snapshot(A, "difference:auto"); MC_CHECK(again == a, "difference:auto-modified", diff(a, again));
    c.step(); c.state(r.text() + "|" + a.text() + (keep_al ? "k" : ""));
}

// ---------------------------------------------------------------- C12
MC_BODY("C12", "remove")
{
    int nm = c.choose(3, "naming"), ns = c.choose(3, "namespace"); bool big = c.thorough;
    RM r = pick_registry(c, NAMING[nm], true, big ? 6 : 3, big ? NB : 5, NC, big ? 5 : 3, big ? NT : 4);
    int n = 2;
    long before = mc::live_allocs; string st = r.text();
    long base = mc::live_allocs;
    {
        World w; create(r, w.r); w.m = r;
        static char const* spaces[] = { "/", "/N/", "/Z/" };
        w.r.setDefaultNamespace(spaces[ns]); w.ns = spaces[ns];
        w.verify("remove");
        vector<string> all; for (auto& t : r.types) all.push_back(t.first); for (auto& a : r.aliases) all.push_back(a.first);
        vector<string> lookups; for (auto& a : all) for (string p : { "", "/", "/N/", "/Z/" }) if (a.compare(0, p.size(), p) == 0 && a.size() > p.size()) lookups.push_back(a.substr(p.size()));
        for (auto& t : w.m.types)
        {
            set<string> got; for (auto* x : const_cast<Registry const&>(w.r).reverseDepends(*w.r.get(t.first))) got.insert(x->getName());
            MC_CHECK(got == w.m.rdepends(t.first), "remove:reverse-depends", t.first + " in\n" + r.text());
            MC_CHECK(w.r.getAliasesOf(*w.r.get(t.first)) == w.m.aliases_of(t.first), "remove:aliases-of", t.first);
            c.step(2);
        }
        for (int i = 0; i < n && !w.m.types.empty(); ++i)
        {
            vector<string> names; for (auto& t : w.m.types) names.push_back(t.first);
            string x = names[c.choose(names.size(), "removed")]; w.trace += " remove " + x; st += w.trace;
            w.erase(x, "remove"); w.verify("remove"); w.lookups("remove", lookups); c.step(1 + lookups.size());
        }
        // what was removed can be added again
        Registry again; create(r, again);
        RM want = w.m; if (!merge(want, r)) mc::fail("remove:model", "");
        w.r.merge(again); w.m = want; w.ptr.clear(); w.verify("remove:merged-back");
    }
    (void)before; (void)base;
    c.state(st);
}

// ---------------------------------------------------------------- C26
static void ranges(Ctx& c, Registry& r, vector<string> names, vector<string> const& prefixes)
{
    sort(names.begin(), names.end(), name_less);
    vector<string> got; for (RegistryIterator it = r.begin(); it != r.end(); ++it) got.push_back(it.getName());
    MC_CHECK(got == names, "iteration", "");
    for (auto& p : prefixes)
    {
        vector<string> want, in; for (auto& n : names) if (n.compare(0, p.size(), p) == 0) want.push_back(n);
        RegistryIterator e = r.end(p); size_t guard = 0;
        for (RegistryIterator it = r.begin(p); it != e; ++it) { in.push_back(it.getName()); MC_CHECK(it != r.end() && ++guard <= names.size(), "range:runs-away", "prefix " + p); }
        string l; for (auto& n : names) l += n + " ";
        MC_CHECK(in == want, "range", mc::fmt("prefix '%s' gives %zu types instead of %zu among ", p.c_str(), in.size(), want.size()) + l);
        if (want.empty()) MC_CHECK(r.begin(p) == r.end(), "range:empty", "prefix " + p);
        c.step();
    }
}
MC_BODY("C26", "ranges")
{
    static vector<string> const all = { "/A", "/A/B", "/A/B/C", "/AB", "/A_", "/A/z", "/A/zone", "/A1/B", "/B", "/a", "/A/a" , "/A B", "/A/Z/Q", "/Z", "/Az9" };
    int s = c.choose(1 << (c.thorough ? 14 : 7), "set"), low = c.choose(c.thorough ? 2 : 16, "rest"), al = c.choose(3, "aliases"), rev = c.choose(2, "order"); c.unit();
    Registry r; vector<string> names;
    for (size_t i = 0; i < all.size(); ++i) if ((s | low << (c.thorough ? 14 : 7)) >> i & 1) names.push_back(all[i]);
    vector<string> order = names; if (rev) reverse(order.begin(), order.end());
    for (size_t i = 0; i < order.size(); ++i)
        if (i && al && i % (al + 1) == 0) r.alias(order[0], order[i]);
        else r.add(new Numeric(order[i], 1, Numeric::SInt));
    vector<string> pre; for (auto& a : all) for (size_t i = 0; i <= a.size(); ++i) pre.push_back(a.substr(0, i));
    for (auto& a : all) pre.push_back(a + "/");
    sort(pre.begin(), pre.end()); pre.erase(unique(pre.begin(), pre.end()), pre.end());
    ranges(c, r, names, pre);
    snapshot(r, "ranges");
    // find() only knows full names
    for (auto& a : all)
    {
        bool in = find(names.begin(), names.end(), a) != names.end();
        MC_CHECK((r.find(a) != r.end()) == in && r.find(a.substr(1)) == r.end(), "find", a);
        if (in) { RegistryIterator it = r.find(a); MC_CHECK(it.getName() == a && it.getBasename() == getTypename(a) && it.getNamespace() == getNamespace(a), "find:names", a); }
        c.step();
    }
    c.state(mc::fmt("%d %d %d %d", s, low, al, rev));
}
MC_BODY("C26", "registries")
{
    int nm = c.choose(3, "naming");
    RM m = pick_registry(c, NAMING[nm], true);
    Registry r; create(m, r);
    vector<string> names; for (auto& t : m.types) names.push_back(t.first); for (auto& a : m.aliases) names.push_back(a.first);
    vector<string> pre; for (auto& a : names) for (size_t i = 0; i <= a.size(); ++i) pre.push_back(a.substr(0, i));
    sort(pre.begin(), pre.end()); pre.erase(unique(pre.begin(), pre.end()), pre.end());
    ranges(c, r, names, pre);
    RM got = snapshot(r, "registries"); MC_CHECK(got == m, "registries:content", diff(m, got));
    c.state(m.text());
}

// ---------------------------------------------------------------- C09
namespace
{
    struct Names9 { vector<string> v; };
}
// building derived types and declaring aliases, interleaved in every order
MC_BODY("C09", "interleavings")
{
    // bases: /A numeric, /N/S compound; events in every order
    static char const* builds[] = { "/A*", "/A[2]", "/N/S*[3]", "/B*", "/N/U[2]*", "V/A", "V/A[2]", "V/N/S", "/A*[2][3]" };
    static char const* alias[][2] = { { "/A", "/B" }, { "/N/S", "/N/U" }, { "/A*", "/P" }, { "/B", "/B2" }, { "V/A", "/L" }, { "/N/U", "/W" } };
    int n = c.thorough ? 6 : 5; World w; string st;
    w.m.numeric("/A", 4, SINT); w.m.compound("/N/S", one("x", "/A", 4), 12); create(w.m, w.r);
    int used = 0;
    for (int i = 0; i < n; ++i)
    {
        int e = c.choose(16, "event"); if (i == 1) c.unit();
        if (e == 15) break;
        if (used >> e & 1) throw mc::Prune();
        used |= 1 << e;
        if (e < 9)
        {
            string b = builds[e]; w.trace += b + " ";
            if (b[0] == 'V')
            {
                vector<pair<char, size_t>> mods; string base = base_and_modifiers(b.substr(1), mods);
                string el = w.m.build(b.substr(1)); Type const* x = w.r.build(b.substr(1));
                MC_CHECK(x && x->getName() == el, "interleavings:build", w.trace);
                string want = w.m.vec(el); MC_CHECK(Container::createContainer(w.r, "/std/vector", *x).getName() == want, "interleavings:container", w.trace);
            }
            else
            {
                string want = w.m.build(b); Type const* t = w.r.build(b);
                MC_CHECK((t ? t->getName() : string()) == want, "interleavings:build", w.trace + (t ? t->getName() : "null") + " instead of " + want);
                if (t) MC_CHECK(w.r.build(b) == t && w.r.get(b) == t, "interleavings:rebuild", w.trace);
            }
        }
        else
        {
            string b = alias[e - 9][0], a = alias[e - 9][1]; if (b == "V/A") b = "/std/vector</A>";
            if (!w.m.has(b)) throw mc::Prune();
            w.trace += a + "=" + b + " ";
            w.r.alias(b, a); w.m.alias(b, a);
        }
        c.step();
        if (i + 1 == n || i >= 2) w.verify("interleavings");
    }
    w.verify("interleavings");
    // every alias gives access to the types derived from what it names
    for (auto& t : w.m.types) if (t.second.cat == 'p' || t.second.cat == 'a' || t.second.cat == 'v')
        for (auto& a : w.m.aliases_of(t.second.elem))
            MC_CHECK(w.r.get(w.m.derived(t.second, a)) == w.r.get(t.first), "interleavings:closure", w.m.derived(t.second, a) + " is not " + t.first + " after " + w.trace);
    c.state(w.m.text());
}
// has() and build() agree on every derived name
MC_BODY("C09", "names")
{
    static char const* bases[] = { "/A", "/N/S", "/B", "/N/U", "/std/vector</A>", "/std/vector</B>", "/nope", "/N/nope", "/std/vector</nope>" };
    static char const* mods[] = { "*", "[2]", "[3]", "[10]", "[1]", "[12345]" };
    int b = c.choose(9, "base"); string name = bases[b]; vector<int> ms;
    int n = c.choose(c.thorough ? 6 : 5, "modifiers");
    for (int i = 0; i < n; ++i) { int k = c.choose(6, "modifier"); if (i == 0) c.unit(); name += mods[k]; ms.push_back(k); if (ms.size() > 3 && k > 2) throw mc::Prune(); }
    if (n == 0) c.unit();
    World w; w.m.numeric("/A", 4, SINT); w.m.compound("/N/S", one("x", "/A"), 12); w.m.vec("/A"); w.m.alias("/A", "/B"); w.m.alias("/N/S", "/N/U"); create(w.m, w.r);
    bool can = w.m.can_build(name);
    MC_CHECK(w.r.has(name, false) == w.m.has(name), "names:has", name);
    MC_CHECK(w.r.has(name, true) == can, "names:has-buildable", name);
    w.trace = name; w.verify("names");
    Type const* t = w.r.build(name); string want = w.m.build(name);
    MC_CHECK((t != nullptr) == can && (!t || t->getName() == want), "names:build", name + " gives " + (t ? t->getName() : "null") + " instead of " + want);
    w.verify("names:built");
    // the structure is the one the name tells, from the outside to the inside
    Type const* x = t; size_t size = 0;
    if (t)
    {
        for (int i = n - 1; i >= 0; --i)
        {
            if (ms[i] == 0) MC_CHECK(x->getCategory() == Type::Pointer, "names:structure", name);
            else
            {
                MC_CHECK(x->getCategory() == Type::Array && int(dynamic_cast<Array const*>(x)->getDimension()) == atoi(mods[ms[i]] + 1), "names:structure", name);
            }
            size_t s = x->getSize(); Type const* in = &dynamic_cast<Indirect const*>(x)->getIndirection();
            MC_CHECK(s == (ms[i] == 0 ? sizeof(void*) : in->getSize() * atoi(mods[ms[i]] + 1)), "names:size", name);
            x = in; (void)size;
        }
        MC_CHECK(x == w.r.get(bases[b]), "names:base", name);
        MC_CHECK(TypeBuilder::getBaseTypename(name) == bases[b], "names:base-name", name);
        MC_CHECK(TypeBuilder::getBaseType(w.r, name) == x, "names:base-type", name);
        MC_CHECK(w.r.get(name) == t && w.r.build(name) == t, "names:known", name);
    }
    c.step(4 + n); c.state(name);
}
