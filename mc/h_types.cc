// C13 resizing, C14 equivalence and castability, C21 type definitions
#include "rmodel.hh"
#include <typelib/typebuilder.hh>
#include <typelib/value.hh>
#include <typelib/value_ops.hh>
#include <functional>
#include <algorithm>
#include <memory>
using namespace std;
using namespace Typelib;
using namespace rm;
using mc::Ctx;

namespace
{
    enum { SINT = Numeric::SInt, UINT = Numeric::UInt, FLT = Numeric::Float };
    struct Names { string A, B, C, D; };
    // The iteration order of the types differs
    Names const NAMING[] = { { "/A", "/B", "/C", "/D" }, { "/D", "/C", "/B", "/A" }, { "/N/B", "/Z", "/A", "/N/A" } };
}
// ---------------------------------------------------------------- C13
namespace
{
    typedef map<string, size_t> Sizes;
    // What resizing means: each listed type gets its size, the others follow from what they contain
    RM resized(RM const& m, Sizes const& sizes)
    {
        RM out = m; set<string> done; Sizes given;
        for (auto& s : sizes) given[m.resolve(s.first)] = s.second;
        function<long(string const&)> go = [&](string const& n) -> long // the growth of n
        {
            Def& d = out.types[n]; Def const& old = m.types.at(n);
            if (done.insert(n).second)
            {
                if (given.count(n)) d.size = given[n];
                else if (d.cat == 'a') { go(d.elem); d.size = d.dim * out.types[d.elem].size; }
                else if (d.cat == 'c')
                {
                    long g = 0;
                    for (size_t i = 0; i < d.fields.size(); ++i) { d.fields[i].off = old.fields[i].off + g; g += go(d.fields[i].type); }
                    d.size = old.size + g;
                }
            }
            return long(d.size) - long(old.size);
        };
        for (auto& t : m.types) go(t.first);
        return out;
    }
    // lays the fields out one after the other, with some space before each
    vector<Fld> layout(RM const& m, vector<string> const& types, size_t gap, size_t tail, size_t& size)
    {
        vector<Fld> f; size_t at = 0; char name[2] = "a";
        for (auto& t : types)
        {
            at += gap; string r = m.resolve(t);
            f.push_back(Fld { name, r.empty() ? t : r, at, {} }); name[0]++;
            at += r.empty() ? (t[t.size() - 1] == '*' ? 8 : 24) : m.types.at(r).size;
        }
        size = at + tail; return f;
    }
    void comp(RM& m, string const& name, vector<string> const& types, size_t gap, size_t tail)
    { size_t size; vector<Fld> f = layout(m, types, gap, tail, size); m.compound(name, f, size); }
}
static void check_resize(Ctx& c, RM const& m, Sizes const& sizes, string const& id)
{
    Registry r; create(m, r);
    RM start = snapshot(r, id); MC_CHECK(start == m, id + ":setup", diff(m, start));
    RM want = resized(m, sizes);
    string what; for (auto& s : sizes) what += s.first + mc::fmt("=%zu ", s.second);
    c.log("%s\n%s", what.c_str(), m.text().c_str());
    r.resize(sizes);
    RM got = snapshot(r, id);
    MC_CHECK(got == want, id + ":result", what + "\n" + diff(want, got) + "from\n" + m.text());
    c.step(); c.count("resizes");
    // the same sizes once more change nothing
    r.resize(sizes); got = snapshot(r, id); MC_CHECK(got == want, id + ":again", what + "\n" + diff(want, got) + "from\n" + m.text());
    // and the previous sizes restore the registry
    Sizes back; bool ok = true;
    for (auto& s : sizes) { string n = m.resolve(s.first); back[n] = m.types.at(n).size; if (m.types.at(n).cat == 'c') ok = false; }
    if (ok) { r.resize(back); got = snapshot(r, id); MC_CHECK(got == m, id + ":back", what + "\n" + diff(m, got) + "from\n" + m.text()); }
    // unknown names are refused without effect
    Sizes bad = back; bad[m.types.begin()->first] = 77; bad["/zz/unknown"] = 4;
    bool threw = false; RM before = snapshot(r, id);
    try { r.resize(bad); } catch (Undefined const&) { threw = true; }
    got = snapshot(r, id); MC_CHECK(threw && got == before, id + ":unknown", what);
    c.step(3);
    c.state(what + m.text());
}
MC_BODY("C13", "nested")
{
    int nm = c.choose(3, "naming"), gap = c.choose(2, "gap"); Names const& n = NAMING[nm];
    static vector<vector<string>> const FA = { { "/i" }, { "/i", "/c" }, { "/c", "/i" }, { "/c", "/o", "/i" }, { "/i[2]", "/c" }, { "/c[3]", "/i*" }, { "/std/vector</i>", "/i" }, { "/i", "/i" }, { "/e", "/o" } };
    int a = c.choose(FA.size(), "A"); c.unit();
    vector<vector<string>> FB = { {}, { n.A }, { n.A, n.A }, { "/c", n.A, "/i" }, { n.A + "[2]", "/c" }, { n.A + "*", n.A }, { "/std/vector<" + n.A + ">", "/i" }, { n.A + "[2]", n.A, "/o" } };
    int b = c.choose(FB.size(), "B");
    vector<vector<string>> FC = { {}, { n.C + "*", n.A, "/i" }, { n.B, "/c" }, { n.A, n.B, n.A }, { n.B + "[2]", n.C + "*" }, { n.B + "[2][3]", "/i" }, { "/std/vector<" + n.C + ">", n.B } };
    int k = c.choose(FC.size(), "C");
    if (!b && k >= 2) throw mc::Prune();
    RM m; m.numeric("/i", 4, SINT); m.numeric("/c", 1, UINT); m.opaque("/o", 8); m.enumeration("/e", { { "x", 1 } });
    auto prepare = [&](vector<string> const& f, string const& self) {
        for (auto& t : f)
        {
            if (t == self + "*" || t == "/std/vector<" + self + ">") continue;
            if (t.compare(0, 11, "/std/vector") == 0) m.vec(t.substr(12, t.size() - 13)); else m.build(t);
        }
    };
    prepare(FA[a], ""); comp(m, n.A, FA[a], gap, 0);
    if (b) { prepare(FB[b], ""); comp(m, n.B, FB[b], gap, gap * 3); }
    if (k)
    {
        prepare(FC[k], n.C); comp(m, n.C, FC[k], 0, gap);
        if (k == 1 || k == 4) m.pointer(n.C);
        if (k == 6) m.vec(n.C);
    }
    if (c.choose(2, "alias")) { m.alias("/i", "/I"); m.alias(n.A, n.D); }
    static size_t const S[][3] = { { 4, 8, 2 }, { 1, 2, 0 }, { 8, 1, 12 } };
    bool full = c.thorough;
    Sizes s; int which = 1 + c.choose(full ? 15 : 11, "resized");
    if (which & 1) s[m.has("/I") ? "/I" : "/i"] = S[0][c.choose(3, "i")];
    if (which & 2) s["/c"] = S[1][c.choose(3, "c")];
    if (which & 4) s["/o"] = S[2][c.choose(3, "o")];
    if (which & 8)
    {
        // a compound: what it contains is not resized
        set<string> inside; function<void(string)> go = [&](string x) { if (inside.insert(x).second) for (auto& d : m.depends(x)) go(d); };
        go(n.A); if (inside.count(m.resolve(s.empty() ? "/i" : s.begin()->first)) && !s.empty()) throw mc::Prune();
        for (auto& x : s) if (inside.count(m.resolve(x.first))) throw mc::Prune();
        static size_t const D[] = { 0, 4, 40 };
        s[m.has(n.D) ? n.D : n.A] = m.types[n.A].size + D[c.choose(3, "grown A")];
    }
    check_resize(c, m, s, "nested");
}
// size changes that compensate each other, over all field sequences
MC_BODY("C13", "fields")
{
    static vector<string> const F = { "/i", "/c", "/o", "/i[2]", "/c[2][2]", "/i*", "/e" };
    int nm = c.choose(3, "naming"), len = 1 + c.choose(c.thorough ? 5 : 4, "fields"); Names const& n = NAMING[nm];
    RM m; m.numeric("/i", 4, SINT); m.numeric("/c", 1, UINT); m.opaque("/o", 8); m.enumeration("/e", { { "x", 1 } });
    vector<string> f;
    for (int i = 0; i < len; ++i) { f.push_back(c.pick(F, "field")); if (i == 0) c.unit(); m.build(f.back()); }
    comp(m, n.A, f, len % 2, len % 3);
    // users of it, before and after it in the order of names
    m.array(n.A, 2); comp(m, n.B, { "/c", n.A, n.A + "[2]", "/i" }, 0, 0); comp(m, n.C, { n.B, n.A, n.B }, 1, 1); comp(m, n.D, { n.C, n.A + "[2]" }, 0, 2);
    static int const D[][3] = { { 1, 0, 0 }, { 4, -1, 0 }, { 1, -1, 0 }, { -1, 1, 0 }, { 4, 0, -4 }, { 2, -1, -1 }, { 0, 3, 0 }, { -4, 0, 4 }, { 0, 0, 0 }, { -2, 1, 2 } };
    int d = c.choose(10, "growth");
    Sizes s; s["/i"] = 4 + D[d][0]; if (D[d][1]) s["/c"] = 1 + D[d][1]; if (D[d][2]) s["/o"] = 8 + D[d][2];
    check_resize(c, m, s, "fields");
}
// several changes in sequence
MC_BODY("C13", "sequences")
{
    int nm = c.choose(3, "naming"); Names const& n = NAMING[nm];
    int shape = c.choose(4, "shape"); 
    RM m; m.numeric("/i", 4, SINT); m.numeric("/c", 1, UINT); m.opaque("/o", 8); m.build("/i[2]"); m.build("/o*");
    comp(m, n.A, shape & 1 ? vector<string> { "/c", "/i[2]", "/o" } : vector<string> { "/o*", "/i", "/c" }, 0, 2);
    m.vec(n.A); m.array(n.A, 3);
    comp(m, n.B, shape & 2 ? vector<string> { n.A, n.A + "[3]", "/std/vector<" + n.A + ">" } : vector<string> { "/i", n.C + "*", n.A + "[3]", n.A }, 1, 0);
    comp(m, n.C, { n.B, "/c", n.C + "*" }, 0, 0); m.pointer(n.C);
    Registry r; create(m, r); RM start = snapshot(r, "sequences"); MC_CHECK(start == m, "sequences:setup", diff(m, start));
    string what; int len = c.thorough ? 4 : 3;
    for (int i = 0; i < len; ++i)
    {
        int k = c.choose(3, "type"), z = c.choose(4, "size"); if (i == 0) c.unit();
        static char const* T[] = { "/i", "/c", "/o" }; static size_t const Z[] = { 0, 1, 4, 9 };
        Sizes s; s[T[k]] = Z[z]; what += T[k] + mc::fmt("=%zu ", Z[z]);
        m = resized(m, s); r.resize(s);
        RM got = snapshot(r, "sequences"); MC_CHECK(got == m, "sequences:result", what + diff(m, got)); c.step();
    }
    c.state(what + m.text());
}

// values of vectors whose elements were resized
MC_BODY("C13", "vectors")
{
    int nm = c.choose(3, "naming"); Names const& n = NAMING[nm]; int shape = c.choose(4, "shape");
    RM m; m.numeric("/i", 4, SINT); m.numeric("/c", 1, UINT); m.build("/i[2]");
    comp(m, n.A, shape & 1 ? vector<string> { "/c", "/i[2]", "/c" } : vector<string> { "/i" }, 0, 0);
    comp(m, n.B, shape & 2 ? vector<string> { n.A, "/c", n.A } : vector<string> { "/c", n.A }, 0, 0); m.array(n.A, 2); m.vec(n.A);
    comp(m, n.C, { "/std/vector<" + n.A + ">", n.B }, 0, 0);
    vector<string> const elements = { "/i", n.A, n.B, n.A + "[2]", "/std/vector<" + n.A + ">", n.C };
    for (auto& e : elements) m.vec(e);
    Registry r; create(m, r); string what; int len = c.thorough ? 3 : 2;
    // the bytes of a value and of what its vectors hold, following the model
    function<void(RM const&, string const&, uint8_t const*, string&)> bytes = [&](RM const& m, string const& t, uint8_t const* p, string& out) {
        Def const& d = m.types.at(t);
        if (d.cat == 'c') { for (auto& f : d.fields) bytes(m, f.type, p + f.off, out); }
        else if (d.cat == 'a') { for (size_t i = 0; i < d.dim; ++i) bytes(m, d.elem, p + i * m.types.at(d.elem).size, out); }
        else if (d.cat == 'v')
        {
            uint8_t* const* v = reinterpret_cast<uint8_t* const*>(p); size_t s = m.types.at(d.elem).size; uint64_t k = (v[1] - v[0]) / s;
            out.append(reinterpret_cast<char*>(&k), 8); MC_CHECK((v[1] - v[0]) % s == 0, "vectors:length", t + " " + what);
            for (uint64_t i = 0; i < k; ++i) bytes(m, d.elem, v[0] + i * s, out);
        }
        else out.append(reinterpret_cast<char const*>(p), d.size);
    };
    int counter = 0;
    function<void(RM const&, string const&, uint8_t*)> fill = [&](RM const& m, string const& t, uint8_t* p) {
        Def const& d = m.types.at(t);
        if (d.cat == 'c') { for (auto& f : d.fields) fill(m, f.type, p + f.off); }
        else if (d.cat == 'a') { for (size_t i = 0; i < d.dim; ++i) fill(m, d.elem, p + i * m.types.at(d.elem).size); }
        else if (d.cat == 'v')
        {
            Type const& et = *r.get(d.elem); vector<uint8_t> e(m.types.at(d.elem).size + 8); Value v(e.data(), et);
            Container const& k = dynamic_cast<Container const&>(*r.get(t)); k.clear(p);
            for (int i = 0; i < 3; ++i) { Typelib::init(v); fill(m, d.elem, e.data()); k.push(p, v); Typelib::destroy(v); }
        }
        else for (size_t i = 0; i < d.size; ++i) p[i] = ++counter;
    };
    for (int i = 0; i < len; ++i)
    {
        int k = c.choose(4, "type"), z = c.choose(4, "size"); if (i == 0) c.unit();
        static size_t const Z[] = { 1, 2, 5, 9 };
        Sizes s; s[k == 0 ? "/i" : k == 1 ? "/c" : k == 2 ? n.A : n.B] = k >= 2 ? m.types.at(k == 2 ? n.A : n.B).size + z : Z[z];
        for (auto& x : s) what += x.first + mc::fmt("=%zu ", x.second);
        m = resized(m, s); r.resize(s);
        for (auto& e : elements)
        {
            string t = "/std/vector<" + e + ">"; Type const& ty = *r.get(t); string const w = t + " after " + what;
            uint64_t a[3] = {}, b[3] = {}, d[3] = {}; Value va(a, ty), vb(b, ty), vd(d, ty);
            Typelib::init(va); Typelib::init(vb); Typelib::init(vd);
            fill(m, t, reinterpret_cast<uint8_t*>(a)); string want, got; bytes(m, t, reinterpret_cast<uint8_t*>(a), want);
            MC_CHECK(dynamic_cast<Container const&>(ty).getElementCount(a) == 3, "vectors:count", w);
            Typelib::copy(vb, va); bytes(m, t, reinterpret_cast<uint8_t*>(b), got); MC_CHECK(got == want, "vectors:copy", w);
            MC_CHECK(Typelib::compare(va, vb), "vectors:compare", w);
            if (k < 2 && i == 0)      // without padding
            {
                vector<uint8_t> buffer = Typelib::dump(va); MC_CHECK(string(buffer.begin(), buffer.end()) == want, "vectors:dump", w);
                Typelib::load(vd, buffer); got.clear(); bytes(m, t, reinterpret_cast<uint8_t*>(d), got); MC_CHECK(got == want, "vectors:load", w);
            }
            else { vector<uint8_t> buffer = Typelib::dump(va); Typelib::load(vd, buffer); MC_CHECK(Typelib::compare(va, vd), "vectors:load", w); }
            fill(m, t, reinterpret_cast<uint8_t*>(b)); MC_CHECK(!Typelib::compare(va, vb), "vectors:differ", w);
            Typelib::destroy(va); Typelib::destroy(vb); Typelib::destroy(vd); c.step(5);
        }
    }
    c.state(what + m.text());
}

// ---------------------------------------------------------------- C14
namespace
{
    // compares a pair in all ways
    void pair_check(RM const& l, Type const& a, RM const& r, Type const& b, string const& id, string const& ctx)
    {
        string an = a.getName(), bn = b.getName();
        bool s = same(l, an, r, bn), k = castable(l, an, r, bn);
        MC_CHECK(a.isSame(b) == s, id + ":isSame", an + (s ? " is the same as " : " differs from ") + bn + "\n" + ctx);
        MC_CHECK(a.canCastTo(b) == k, id + ":canCastTo", an + (k ? " can be cast to " : " cannot be cast to ") + bn + "\n" + ctx);
        MC_CHECK(!s || k, id + ":model", an + " " + bn);
    }
    void all_types(RM& m, int variant)
    {
        size_t o = variant ? 8 : 4;
        m.numeric("/i", 4, SINT); m.numeric("/i2", 4, SINT); m.numeric("/u", 4, UINT); m.numeric("/s", 2, SINT); m.numeric("/f", 4, FLT); m.numeric("/d", 8, FLT);
        m.enumeration("/E1", { { "P", 0 }, { "Q", 1 } }); m.enumeration("/E1b", { { "P", 0 }, { "Q", 1 } }); m.enumeration("/E2", { { "P", 0 }, { "Q", 1 }, { "R", 2 } });
        m.enumeration("/E3", { { "P", 0 }, { "Q", 2 } }); m.enumeration("/E4", { { "P", 0 } }); m.enumeration("/E0", {});
        m.opaque("/O1", 4); m.opaque("/O2", o); m.opaque("/O3", 4); m.null("/n1"); m.null("/n2");
        if (variant) { m.numeric("/O4", 4, SINT); m.opaque("/n3", 0); m.null("/O5"); }
        else { m.opaque("/O4", 4); m.null("/n3"); m.opaque("/O5", 0); }
        vector<string> base; for (auto& t : m.types) base.push_back(t.first);
        // compounds of one field
        int k = 0;
        for (auto t : { "/i", "/i2", "/u", "/E1", "/E2", "/E4", "/O1", "/n1" })
        {
            m.compound(mc::fmt("/C%d", k++), { { "a", t, 0, {} } });
            m.compound(mc::fmt("/C%d", k++), { { "a", t, 0, {} } }, 8);
            m.compound(mc::fmt("/C%d", k++), { { "a", t, 4, {} } }, 8);
            m.compound(mc::fmt("/C%d", k++), { { "b", t, 0, {} } });
        }
        m.compound(mc::fmt("/C%d", k++), {}); m.compound(mc::fmt("/C%d", k++), {}, 4);
        vector<string> lvl; for (auto& t : m.types) lvl.push_back(t.first);
        // derived types
        vector<string> d1;
        for (auto& t : lvl)
        {
            if (m.types[t].cat != '0') { d1.push_back(m.array(t, 1)); d1.push_back(m.array(t, 2)); }
            d1.push_back(m.pointer(t));
            if (m.types[t].cat == 'n' || m.types[t].cat == 'e' || m.types[t].cat == 'c') d1.push_back(m.vec(t));
        }
        for (auto t : { "/E1*", "/E2*", "/C0[2]", "/i[2]", "/C1*", "/E1[2]", "/E4[2]" }) { m.pointer(t); m.array(t, 2); }
        for (auto t : { "/std/vector</i>", "/std/vector</E1>", "/std/vector</E2>" }) { m.vec(t); m.array(t, 2); m.pointer(t); }
        // compounds of two fields
        for (auto p : { "/i", "/i2", "/E1", "/E1b", "/E2", "/C0", "/C1", "/C4", "/C16", "/C17", "/E1[2]", "/E2*", "/C0*", "/C4*" })
            for (auto q : { "/i", "/i2", "/E1", "/E2", "/C0", "/C1", "/C4", "/E1[2]", "/E2[2]", "/E4[2]", "/std/vector</E1>", "/std/vector</E2>", "/E1*", "/E2*" })
                m.compound(mc::fmt("/D%d", k++), { { "a", p, 0, {} }, { "b", q, 8, {} } }, 32);
        // recursive ones
        for (int ring = 1; ring <= 4; ++ring)
            for (int i = 0; i < ring; ++i)
            {
                string n = mc::fmt("/R%d%d", ring, i), to = mc::fmt("/R%d%d*", ring, (i + 1) % ring);
                m.compound(n, { { "next", to, 0, {} } }); m.pointer(n);
            }
        // one of the ring is different
        for (int kind = 0; kind < 4; ++kind)
            for (int i = 0; i < 3; ++i)
            {
                string n = mc::fmt("/Q%d%d", kind, i), to = mc::fmt("/Q%d%d*", kind, (i + 1) % 3);
                m.compound(n, { { kind == 1 && i == 2 ? "prev" : "next", to, size_t(kind == 2 && i == 2 ? 8 : 0), {} } }, kind == 3 && i == 2 ? 16 : kind == 2 ? 16 : 0); m.pointer(n);
            }
    }
    struct Big { RM m[2]; Registry* r[2]; vector<Type const*> t[2]; };
    Big& big()
    {
        static Big* b = nullptr;
        if (!b)
        {
            b = new Big;
            for (int i = 0; i < 2; ++i)
            {
                all_types(b->m[i], i); b->r[i] = new Registry; create(b->m[i], *b->r[i]);
                RM got = snapshot(*b->r[i], "big"); MC_CHECK(got == b->m[i], "big", diff(b->m[i], got));
                for (auto& t : b->m[i].types) b->t[i].push_back(b->r[i]->get(t.first));
            }
        }
        return *b;
    }
}
MC_BODY("C14", "pairs")
{
    Big& b = big(); int x = c.choose(2, "left"), y = c.choose(2, "right"), i = c.choose(b.t[0].size(), "type"); c.unit();
    Type const& a = *b.t[x][i];
    for (auto* o : b.t[y]) pair_check(b.m[x], a, b.m[y], *o, "pairs", "");
    MC_CHECK(a.isSame(a) && a.canCastTo(a), "pairs:reflexive", a.getName());
    c.step(2 * b.t[y].size()); c.state(mc::fmt("%d%d", x, y) + a.getName());
}
// all graphs of two compounds with two fields each
MC_BODY("C14", "graphs")
{
    static char const* V[] = { "/X*", "/Y*", "/std/vector</X>", "/std/vector</Y>", "/E1*", "/E2*", "/E1", "/E2", "/E1[2]", "/E2[2]", "/std/vector</E1>", "/std/vector</E2>", "/X", "/X[1]" };
    int p = c.choose(12, "X.a"), q = c.choose(12, "X.b"); c.unit();
    int r = c.choose(14, "Y.a"), s = c.choose(14, "Y.b"), z = c.choose(c.thorough ? 3 : 2, "size of Y");
    RM m; m.enumeration("/E1", { { "P", 0 } }); m.enumeration("/E2", { { "P", 0 }, { "Q", 1 } });
    m.vec("/E1"); m.vec("/E2"); m.pointer("/E1"); m.pointer("/E2"); m.array("/E1", 2); m.array("/E2", 2);
    m.compound("/X", { { "a", V[p], 0, {} }, { "b", V[q], 64, {} } }, 128);
    m.array("/X", 1);
    // same offsets whatever the fields
    m.compound("/Y", { { "a", V[r], 0, {} }, { "b", V[s], 64 , {} } }, r >= 12 || s >= 12 ? 256 : z ? 128 + 8 * (z - 1) : 88);
    if (z && (r >= 12 || s >= 12)) throw mc::Prune();
    m.pointer("/X"); m.pointer("/Y"); m.vec("/X"); m.vec("/Y");
    Registry R; create(m, R); Type const *X = R.get("/X"), *Y = R.get("/Y");
    string t = m.text();
    pair_check(m, *X, m, *Y, "graphs", t); pair_check(m, *Y, m, *X, "graphs", t);
    pair_check(m, *R.get("/X*"), m, *R.get("/Y*"), "graphs", t); pair_check(m, *R.get("/std/vector</Y>"), m, *R.get("/std/vector</X>"), "graphs", t);
    // against a copy, and against a variant of E2
    RM m2 = m; m2.types["/E2"].syms.erase("Q"); if (z) m2.types["/E1"].syms["Q"] = 1;
    Registry R2; create(m2, R2);
    for (auto n : { "/X", "/Y" }) for (auto o : { "/X", "/Y" }) { pair_check(m, *R.get(n), m2, *R2.get(o), "graphs:variant", t); pair_check(m2, *R2.get(n), m, *R.get(o), "graphs:variant", t); }
    c.step(24); c.state(t);
}
// all pointer graphs of three compounds
MC_BODY("C14", "pointers")
{
    static char const* N[] = { "/X", "/Y", "/Z" };
    RM m; m.numeric("/i", 4, SINT); m.numeric("/u", 4, UINT);
    for (int i = 0; i < 3; ++i)
    {
        int a = c.choose(5, "a"), b = c.choose(c.thorough ? 4 : 3, "b"); if (i == 0) c.unit();
        string at = a < 3 ? string(N[a]) + "*" : a == 3 ? "/i*" : "/u*", bt = string(N[b % 3]) + "*"; m.pointer(a == 3 ? "/i" : "/u");
        vector<Fld> f; f.push_back(Fld { "a", at, 0, {} }); if (b < 3) f.push_back(Fld { "b", bt, 8, {} });
        m.compound(N[i], f, 16);
    }
    for (auto n : N) m.pointer(n);
    for (auto p : { "/i", "/u" }) m.pointer(p);
    Registry R; create(m, R); string t = m.text();
    for (auto x : N) for (auto y : N) { pair_check(m, *R.get(x), m, *R.get(y), "pointers", t); pair_check(m, *R.get(string(x) + "*"), m, *R.get(string(y) + "*"), "pointers", t); }
    // fields
    for (auto x : N) for (auto y : N)
        for (auto& f : dynamic_cast<Compound const*>(R.get(x))->getFields()) for (auto& g : dynamic_cast<Compound const*>(R.get(y))->getFields())
            MC_CHECK((f == g) == (f.getName() == g.getName() && f.getOffset() == g.getOffset() && same(m, f.getType().getName(), m, g.getType().getName())), "pointers:fields", string(x) + "." + f.getName() + " and " + y + "." + g.getName() + "\n" + t);
    c.step(18); c.state(t);
}
// whole registries
MC_BODY("C14", "registries")
{
    static char const* N[] = { "/A", "/N/B", "/N/C", "/Z" };
    static char const* K[] = { "none", "i", "u", "compound", "alias", "opaque" };
    RM m[2]; string t;
    for (int k = 0; k < 2; ++k)
    {
        m[k].numeric("/i", 4, SINT); m[k].numeric("/Q", 2, UINT);
        vector<int> w; for (int i = 0; i < 4; ++i) { w.push_back(c.choose(6, "kind")); if (k == 0 && i == 1) c.unit(); }
        for (int i = 0; i < 4; ++i) switch (w[i])
        {
            case 1: m[k].numeric(N[i], 4, SINT); break;
            case 2: m[k].numeric(N[i], 4, UINT); break;
            case 3: m[k].compound(N[i], { { "x", "/i", 0, {} } }); break;
            case 5: m[k].opaque(N[i], 4); break;
        }
        for (int i = 0; i < 4; ++i) if (w[i] == 4) { string to = i && w[i - 1] != 4 && w[i - 1] ? N[i - 1] : "/i"; m[k].alias(to, N[i]); }
        t += m[k].text() + "---\n";
    }
    (void)K;
    // only pairs which could be confused: same number of names
    if (m[0].types.size() + m[0].aliases.size() != m[1].types.size() + m[1].aliases.size() && !c.thorough) throw mc::Prune();
    bool want = m[0].types.size() == m[1].types.size() && m[0].aliases.size() == m[1].aliases.size();
    if (want) for (auto& x : m[0].types) want = want && m[1].types.count(x.first) && same(m[0], x.first, m[1], x.first);
    if (want) for (auto& x : m[0].aliases) want = want && m[1].aliases.count(x.first) && m[1].aliases[x.first].to == x.second.to;
    Registry r[2]; for (int k = 0; k < 2; ++k) create(m[k], r[k]);
    bool got = r[0].isSame(r[1]), back = r[1].isSame(r[0]);
    MC_CHECK(got == want && back == want, "registries:isSame", string(want ? "same" : "different") + " registries\n" + t);
    MC_CHECK(r[0].isSame(r[0]), "registries:reflexive", t);
    c.step(3); c.count(want ? "same" : "different"); c.state(t);
}

// ---------------------------------------------------------------- C21
MC_BODY("C21", "enums")
{
    static char const* N[] = { "P", "Q", "R" }; static int const V[] = { 0, 1, -1, 7 };
    int init = c.choose(3, "initial"), len = c.choose(c.thorough ? 6 : 5, "length");
    static int const I[] = { 0, 5, -3 };
    Enum e("/E", I[init]); map<string, int> m; int last = I[init] - 1; string t = mc::fmt("from %d:", I[init]);
    if (!len) c.unit();
    for (int i = 0; i < len; ++i)
    {
        int n = c.choose(3, "symbol"), v = c.choose(5, "value"); if (i == 0) c.unit();
        int val = v == 4 ? e.getNextValue() : V[v];
        t += mc::fmt(" %s=%d", N[n], val);
        bool clash = m.count(N[n]) && m[N[n]] != val, threw = false;
        try { e.add(N[n], val); } catch (Enum::AlreadyExists const&) { threw = true; }
        MC_CHECK(threw == clash, "enums:redefined", t);
        if (!clash) { m[N[n]] = val; last = val; }
        c.step();
    }
    MC_CHECK(e.getNextValue() == last + 1, "enums:next", t + mc::fmt(": next is %d", e.getNextValue()));
    MC_CHECK(e.values() == m, "enums:values", t);
    list<string> names; for (auto& x : m) names.push_back(x.first);
    MC_CHECK(e.names() == names, "enums:names", t);
    for (auto n : N)
    {
        bool threw = false; int v = 0;
        try { v = e.get(n); } catch (Enum::SymbolNotFound const&) { threw = true; }
        MC_CHECK(threw == !m.count(n) && (threw || v == m[n]), "enums:by-name", t);
    }
    for (int v = -4; v < 14; ++v)
    {
        bool threw = false, have = false; string n; for (auto& x : m) have = have || x.second == v;
        try { n = e.get(v); } catch (Enum::ValueNotFound const&) { threw = true; }
        MC_CHECK(threw == !have && (threw || (m.count(n) && m[n] == v)), "enums:by-value", t + mc::fmt(": %d", v));
    }
    c.step(21); c.state(t);
}
MC_BODY("C21", "metadata")
{
    int len = c.thorough ? 5 : 4;
    MetaData d[2]; Meta m[2]; string t;
    for (int i = 0; i < len; ++i)
    {
        int w = c.choose(2, "object"), o = c.choose(8, "operation"); string k = o < 7 && o != 5 && c.choose(2, "key") ? "k" : ""; if (i == 0) c.unit();
        MetaData& x = d[w]; Meta& y = m[w];
        t += mc::fmt(" %d:%d(%s)", w, o, k.c_str());
        switch (o)
        {
            case 0: x.add(k, "v"); y[k].insert("v"); break;
            case 1: x.add(k, "w"); y[k].insert("w"); break;
            case 2: { MetaData::Values v; v.insert("v"); v.insert("z"); x.add(k, v); y[k].insert("v"); y[k].insert("z"); break; }
            case 3: x.set(k, "s"); y[k] = { "s" }; break;
            case 4: x.clear(k); y.erase(k); break;
            case 5: x.clear(); y.clear(); break;
            case 6: x.add(k, MetaData::Values()); y[k]; break;
            case 7: x.merge(d[!w]); for (auto& e : m[!w]) y[e.first].insert(e.second.begin(), e.second.end()); break;
        }
        for (int j = 0; j < 2; ++j)
        {
            MC_CHECK(d[j].get() == m[j], "metadata:content", t);
            for (string q : { "", "k", "none" }) MC_CHECK(d[j].include(q) == (m[j].count(q) != 0) && d[j].get(q) == (m[j].count(q) ? m[j][q] : MetaData::Values()), "metadata:get", t);
        }
        c.step();
    }
    c.state(t);
}
MC_BODY("C21", "compounds")
{
    static Numeric i4("/i", 4, Numeric::SInt), c1("/c", 1, Numeric::UInt), d8("/d", 8, Numeric::Float);
    static Compound* pad = nullptr; static Array* arr = nullptr;
    if (!pad) { pad = new Compound("/pad"); pad->addField("x", i4, 0); pad->addField("y", c1, 4); pad->setSize(8); arr = new Array(c1, 3); }
    Type const* T[] = { &i4, &c1, &d8, pad, arr }; static size_t const TP[] = { 0, 0, 0, 3, 0 };
    static char const* N[] = { "b", "a", "c", "d" };
    int len = c.choose(5, "fields"); if (!len) c.unit();
    Compound s("/N/S"); size_t size = 0; string t; vector<pair<pair<size_t, string>, Type const*>> fs; bool overlap = false;
    vector<int> used(64, -1); size_t top = 0, tpad = 0;
    for (int i = 0; i < len; ++i)
    {
        int k = c.choose(5, "type"), o = c.choose(c.thorough ? 5 : 4, "offset"); if (i == 0) c.unit();
        static size_t const O[] = { 0, 4, 9, 16, 2 };
        size_t off = o == 3 ? size : O[o];
        t += mc::fmt(" %s:%s@%zu", N[i], T[k]->getName().c_str(), off);
        Field f(N[i], *T[k]); f.getMetaData().add("doc", N[i]);
        Field const& got = i % 2 ? s.addField(f, off) : s.addField(N[i], *T[k], off);
        MC_CHECK(got.getName() == N[i] && &got.getType() == T[k] && got.getOffset() == off, "compounds:field", t);
        MC_CHECK(got.getMetaData().get("doc").size() == size_t(i % 2), "compounds:field-metadata", t);
        size_t end = off + T[k]->getSize(); size = max(size, end);
        for (size_t b = off; b < end; ++b) { if (used[b] >= 0) overlap = true; used[b] = i; }
        if (end > top) { top = end; tpad = TP[k]; }
        fs.push_back(make_pair(make_pair(off, string(N[i])), T[k]));
        MC_CHECK(s.getSize() == size, "compounds:size", t + mc::fmt(": %zu", s.getSize()));
        c.step();
    }
    if (!overlap) MC_CHECK(s.getTrailingPadding() == tpad, "compounds:trailing", t + mc::fmt(": %u", s.getTrailingPadding()));
    s.setSize(size + 5); if (!overlap) MC_CHECK(s.getTrailingPadding() == tpad + 5, "compounds:trailing", t + mc::fmt(": %u", s.getTrailingPadding()));
    auto verify = [&](char const* id) {
        size_t i = 0; set<Type const*> deps;
        MC_CHECK(s.getFields().size() == fs.size(), id, t);
        for (auto& f : s.getFields())
        {
            MC_CHECK(f.getOffset() == fs[i].first.first && f.getName() == fs[i].first.second && &f.getType() == fs[i].second, id, t); deps.insert(fs[i].second);
            MC_CHECK(s.getField(f.getName()) == &f, id, t); ++i;
        }
        MC_CHECK(s.dependsOn() == deps && !s.getField("zz") && !s.getField(""), id, t);
    };
    verify("compounds:fields");
    sort(fs.begin(), fs.end()); s.normalizeFieldOrder(); verify("compounds:normalized");
    MC_CHECK(s.getBasename() == "S" && s.getNamespace() == "/N/" && s.getName() == "/N/S" && s.getCategory() == Type::Compound && !s.isNull(), "compounds:names", t);
    c.step(4); c.state(t);
}
