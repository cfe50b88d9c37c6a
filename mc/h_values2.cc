// C05 memory layouts, C06 value operations, C07 containers, C18 endianness,
// C19 CSV, C25 visitors
#include "cases.hh"
#include <typelib/csvoutput.hh>
#include <typelib/endianness.hh>
#include <typelib/typevisitor.hh>
#include <typelib/value_cast.hh>
#include <sstream>
#include <cmath>
using namespace std;
using namespace Typelib;
using namespace model;
using namespace cases;
using mc::Ctx;

// types with pointers and opaques anywhere
static MT* special_leaf(int i)
{
    switch (i)
    {
        case 0: return pointer(num("/double"));
        case 1: return opaque(5);
        case 2: return compound({ num("/int8_t"), pointer(num("/int32_t")) }, NATURAL);
        case 3: return compound({ opaque(3), num("/int32_t") }, NATURAL);
        case 4: return compound({ num("/int32_t"), opaque(8) }, NATURAL);
        default: return compound({ pointer(num("/int8_t")), opaque(16), str() }, NATURAL);
    }
}
static MT* special_chain(Ctx& c, int depth)
{
    int l = c.choose(6, "leaf");
    vector<int> ctx;
    for (int i = 0; i < depth; ++i)
    {
        int k = c.choose(gen::NCTX + 1, "context");
        if (i == 0) c.unit();
        if (k == 0) break;
        ctx.push_back(k - 1);
    }
    MT* t = special_leaf(l);
    for (int k : ctx)
    {
        t = gen::context(k, t);
        if (!t || t->n_leaves > 400 || t->size > 4000) throw mc::Prune();
    }
    return t;
}

// -------------------------------------------------------------------- C05
namespace
{
    // what a layout (or the model) says about each byte
    struct Tok
    {
        char k;                 // 'd' copied, 's' skipped, 'c' first byte of a container, '.' others
        Container const* type; vector<Tok> sub;
        Tok(char k) : k(k), type(nullptr) {}
        int init;               // value given at initialisation, -1 if none
    };
    typedef vector<Tok> Toks;
    struct BadLayout { string why; };
    // Interprets the operations, as any user of the layout does
    size_t interpret(MemoryLayout const& L, size_t at, Toks& out, bool nested)
    {
        size_t n = L.ops.size();
        auto arg = [&](size_t i) -> size_t { if (i >= n) throw BadLayout { "operand missing" }; return L.ops[i]; };
        for (; at < n; ++at)
            switch (L.ops[at])
            {
                case MemLayout::FLAG_MEMCPY: for (size_t k = arg(++at); k; --k) out.push_back(Tok('d')); break;
                case MemLayout::FLAG_SKIP: for (size_t k = arg(++at); k; --k) out.push_back(Tok('s')); break;
                case MemLayout::FLAG_ARRAY:
                {
                    size_t dim = arg(++at), body = ++at;
                    Toks el; size_t e = interpret(L, body, el, true);
                    if (MemoryLayout::skipBlock(L.begin() + body, L.end()) != L.begin() + e) throw BadLayout { "skipBlock does not find the end of an array" };
                    for (size_t i = 0; i < dim; ++i) out.insert(out.end(), el.begin(), el.end());
                    at = e; break;
                }
                case MemLayout::FLAG_CONTAINER:
                {
                    Tok t('c'); t.type = reinterpret_cast<Container const*>(arg(++at));
                    size_t body = ++at;
                    size_t e = interpret(L, body, t.sub, true);
                    if (MemoryLayout::skipBlock(L.begin() + body, L.end()) != L.begin() + e) throw BadLayout { "skipBlock does not find the end of a container" };
                    out.push_back(t);
                    for (size_t i = 1; i < t.type->getSize(); ++i) out.push_back(Tok('.'));
                    at = e; break;
                }
                case MemLayout::FLAG_END:
                    if (!nested) throw BadLayout { "unexpected end" };
                    return at;
                default: throw BadLayout { "unknown operation" };
            }
        if (nested) throw BadLayout { "missing end" };
        return at;
    }
    size_t interpret_init(MemoryLayout const& L, size_t at, Toks& out, bool nested)
    {
        auto const& o = L.init_ops; size_t n = o.size();
        auto arg = [&](size_t i) -> size_t { if (i >= n) throw BadLayout { "operand missing" }; return o[i]; };
        for (; at < n; ++at)
            switch (o[at])
            {
                case MemLayout::FLAG_INIT:
                    for (size_t k = arg(++at); k; --k) { Tok t('i'); t.init = arg(++at); out.push_back(t); } break;
                case MemLayout::FLAG_INIT_SKIP: for (size_t k = arg(++at); k; --k) out.push_back(Tok('s')); break;
                case MemLayout::FLAG_INIT_REPEAT:
                {
                    size_t dim = arg(++at); Toks el; size_t e = interpret_init(L, ++at, el, true);
                    for (size_t i = 0; i < dim; ++i) out.insert(out.end(), el.begin(), el.end());
                    at = e; break;
                }
                case MemLayout::FLAG_INIT_CONTAINER:
                {
                    Tok t('c'); t.type = reinterpret_cast<Container const*>(arg(++at));
                    out.push_back(t);
                    for (size_t i = 1; i < t.type->getSize(); ++i) out.push_back(Tok('.'));
                    break;
                }
                case MemLayout::FLAG_INIT_END:
                    if (!nested) throw BadLayout { "unexpected end" };
                    return at;
                default: throw BadLayout { "unknown operation" };
            }
        if (nested) throw BadLayout { "missing end" };
        return at;
    }
    void expected(MT* t, Toks& out)
    {
        switch (t->kind)
        {
            case NUM: case PTR: out.insert(out.end(), t->size, Tok('d')); break;
            case ENUM:
            {
                // the first symbol, by name
                uint64_t v = t->symbols.empty() ? 0 : int64_t(t->symbols[0]);
                for (size_t i = 0; i < t->size; ++i) { Tok k('d'); k.init = t->symbols.empty() ? -1 : int(uint8_t(v >> (8 * i))); out.push_back(k); out.back().type = reinterpret_cast<Container const*>(1); }
                break;
            }
            case NUL: break;
            case OPQ: out.insert(out.end(), t->size, Tok('s')); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) expected(t->elem, out); break;
            case STR: case VEC:
            {
                Tok k('c'); k.type = static_cast<Container const*>(t->real);
                if (t->kind == STR) k.sub.push_back(Tok('d')); else expected(t->elem, k.sub);
                out.push_back(k);
                out.insert(out.end(), t->size - 1, Tok('.'));
                break;
            }
            case COMP:
            {
                size_t base = out.size();
                for (auto& f : t->fields)
                {
                    while (out.size() < base + f.offset) out.push_back(Tok('s'));
                    expected(f.type, out);
                }
                while (out.size() < base + t->size) out.push_back(Tok('s'));
            }
        }
    }
    bool is_enum(Tok const& t) { return t.k == 'd' && t.type; }
    string toks(Toks const& t)
    {
        string s; for (auto& k : t) { s += is_enum(k) ? 'e' : k.k; if (k.k == 'c') s += "(" + toks(k.sub) + ")"; if (s.size() > 200) return s + ".."; }
        return s;
    }
    // full: the layout covers everything; otherwise trailing skips may be missing
    void covers(Toks const& want, Toks const& got, bool merged, bool full)
    {
        if (got.size() > want.size()) throw BadLayout { mc::fmt("describes %zu bytes of %zu", got.size(), want.size()) };
        for (size_t i = 0; i < want.size(); ++i)
        {
            if (i >= got.size())
            {
                if (full || want[i].k != 's') throw BadLayout { mc::fmt("ends at %zu", got.size()) };
                continue;
            }
            char w = want[i].k, g = got[i].k;
            if (w == 's' ? (g == 's' || (merged && g == 'd')) : w == g)
            {
                if (w == 'c')
                {
                    if (want[i].type != got[i].type) throw BadLayout { mc::fmt("wrong container at %zu", i) };
                    covers(want[i].sub, got[i].sub, merged, true);
                }
                continue;
            }
            throw BadLayout { mc::fmt("byte %zu is '%c', expected '%c'", i, g, w) };
        }
    }
    void covers_init(Toks const& want, Toks const& got)
    {
        if (got.size() > want.size()) throw BadLayout { mc::fmt("initialises %zu bytes of %zu", got.size(), want.size()) };
        for (size_t i = 0; i < want.size(); ++i)
        {
            char w = want[i].k; if (w == 'd') w = is_enum(want[i]) && want[i].init >= 0 ? 'i' : 's';
            char g = i < got.size() ? got[i].k : 's';
            if (w != g) throw BadLayout { mc::fmt("init: byte %zu is '%c', expected '%c'", i, g, w) };
            if (w == 'i' && want[i].init != got[i].init) throw BadLayout { mc::fmt("init: byte %zu gets %d, expected %d", i, got[i].init, want[i].init) };
            if (w == 'c' && want[i].type != got[i].type) throw BadLayout { "init: wrong container" };
        }
    }
    // pointers and opaques met without following pointers
    void specials(MT* t, bool& ptr, bool& opq)
    {
        switch (t->kind)
        {
            case PTR: ptr = true; break;
            case OPQ: opq = true; break;
            case ARR: case VEC: specials(t->elem, ptr, opq); break;
            case COMP: for (auto& f : t->fields) specials(f.type, ptr, opq); break;
            default: break;
        }
    }
}
static void layouts(Ctx& c, MT* t)
{
    c.state(t->expr);
    c.log("type %s", t->expr.c_str());
    bool ptr = false, opq = false; specials(t, ptr, opq);
    Toks want; expected(t, want);
    if (ptr || opq) c.count("types with pointers or opaques");
    size_t tail = 0; while (tail < want.size() && want[want.size() - 1 - tail].k == 's') ++tail;
    for (int f = 0; f < 20; ++f)
    {
        bool ap = f & 1, ao = f & 2, raw = f >= 16, merge = f & 4, rm = f & 8;
        string id = raw ? "raw-layout" : mc::fmt("layout:merge=%d,trailing-removed=%d", merge, rm);
        string w = mc::fmt("accept_pointers=%d accept_opaques=%d type %s", ap, ao, t->expr.c_str());
        bool ok = (!ptr || ap) && (!opq || ao);
        MemoryLayout L; bool threw = false;
        try { L = raw ? raw_layout_of(*t->real, ap, ao) : layout_of(*t->real, ap, ao, merge, rm); }
        catch (NoLayout const& e) { threw = true; MC_CHECK(!ok, id + ":refused", w + ": " + e.what()); }
        c.step();
        if (threw) { c.count("layouts refused"); continue; }
        MC_CHECK(ok, id + ":accepted", w);
        try { L.validate(); }
        catch (InvalidMemoryLayout const& e) { mc::fail(id + ":invalid", w + ": " + e.what()); }
        try
        {
            Toks got; interpret(L, 0, got, false);
            c.log("%s: %s", id.c_str(), toks(got).c_str());
            // the position of nothing (arrays without elements) is not specified
            bool full = raw || !rm;
            covers(want, got, !raw && merge, full);
            if (!full && !t->has_zero_dim && !opq && got.size() != t->size - trailing(t)) throw BadLayout { mc::fmt("covers %zu bytes, the trailing padding starts at %zu", got.size(), t->size - trailing(t)) };
            Toks in; interpret_init(L, 0, in, false);
            covers_init(want, in);
        }
        catch (BadLayout const& e) { mc::fail(id, e.why + ": " + w + "\n expected " + toks(want)); }
        c.step(2);
    }
}
MC_BODY("C05", "chain") { layouts(c, gen::chain(c, c.thorough ? 4 : 3)); }
MC_BODY("C05", "special") { layouts(c, special_chain(c, c.thorough ? 4 : 3)); }
MC_BODY("C05", "flat") { layouts(c, gen::flat(c, c.thorough ? 4 : 3, true)); }
MC_BODY("C05", "sized") { layouts(c, gen::sized(c, c.thorough).t); }
// compounds that contain themselves through containers have no layout, the others do
MC_BODY("C05", "recursive")
{
    static char const* V[] = { "/i", "V/X", "V/Y", "V/Z", "VV/X", "V/X[2]", "/X*", "V/X*", "/X", "/Y", "/Y[2]", "V/i", "VV/i" };
    Registry r; r.add(new Numeric("/i", 4, Numeric::SInt));
    Compound* k[3]; static char const* N[] = { "/X", "/Y", "/Z" };
    for (int i = 0; i < 3; ++i) r.add(k[i] = new Compound(N[i]));
    function<Type const&(string)> type = [&](string n) -> Type const& { return n[0] == 'V' ? Container::createContainer(r, "/std/vector", type(n.substr(1))) : *r.build(n); };
    string t; vector<string> f[3]; set<string> deps[3]; bool ptr[3] = { false, false, false };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < (c.thorough ? 2 : 2 - i / 2); ++j)
        {
            // by value, only what has been defined before
            int v = c.choose(i == 0 ? 8 : i == 1 ? 9 : 11, "field"); string n = i == 0 || v < 8 ? V[v] : V[v]; if (i == 0 && j == 1) c.unit();
            if (v == 0 && c.choose(2, "vector of numbers")) n = j ? "V/i" : "VV/i";
            t += string(N[i]) + "." + char('a' + j) + ":" + n + " ";
            f[i].push_back(n);
            if (n.find('*') != string::npos) ptr[i] = true;
            else for (int x = 0; x < 3; ++x) if (n.find(N[x]) != string::npos) deps[i].insert(N[x]);
        }
    for (int i = 0; i < 3; ++i) for (size_t j = 0; j < f[i].size(); ++j) k[i]->addField(string(1, 'a' + j), type(f[i][j]), k[i]->getSize());
    for (int i = 0; i < 3; ++i)
    {
        // everything that is laid out along with it
        set<string> all; bool cyclic = false, has_ptr = false;
        function<void(int, set<int>)> go = [&](int x, set<int> up) {
            if (!up.insert(x).second) { cyclic = true; return; }
            has_ptr = has_ptr || ptr[x];
            for (int y = 0; y < 3; ++y) if (deps[x].count(N[y])) go(y, up);
        };
        go(i, set<int>());
        for (int flags = 0; flags < 2; ++flags)
        {
            bool refused = false;
            try { MemoryLayout l = layout_of(*k[i], flags, false, true, true); l.validate(); } catch (NoLayout const&) { refused = true; }
            MC_CHECK(refused == (cyclic || (has_ptr && !flags)), "recursive", t + N[i] + (refused ? " is refused" : " is accepted"));
            c.step();
        }
    }
    c.state(t);
}

// -------------------------------------------------------------------- C06
static void initial(MT* t, MV& v)
{
    switch (t->kind)
    {
        case NUM: case PTR: case OPQ: break;
        case ENUM: if (!t->symbols.empty()) { uint64_t x = int64_t(t->symbols[0]); v.bytes.assign(reinterpret_cast<char*>(&x), t->size); } break;
        case STR: v.bytes.clear(); break;
        case VEC: v.kids.clear(); break;
        case ARR: for (auto& k : v.kids) initial(t->elem, k); break;
        case COMP: for (size_t i = 0; i < t->fields.size(); ++i) initial(t->fields[i].type, v.kids[i]); break;
        case NUL: break;
    }
}
static void zeroed(MT* t, MV& v)
{
    switch (t->kind)
    {
        case NUM: case PTR: case OPQ: case ENUM: v.bytes.assign(t->size, 0); break;
        case STR: v.bytes.clear(); break;
        case VEC: v.kids.clear(); break;
        case ARR: for (auto& k : v.kids) zeroed(t->elem, k); break;
        case COMP: for (size_t i = 0; i < t->fields.size(); ++i) zeroed(t->fields[i].type, v.kids[i]); break;
        case NUL: break;
    }
}
// the elementary differences of a value; returns how many there are
static size_t differences(MT* t, MV const& v)
{
    switch (t->kind)
    {
        case NUM: case PTR: case ENUM: return t->size;
        case OPQ: case NUL: return 0;
        case STR: return v.bytes.size() + 2;
        case VEC: case ARR: { size_t n = t->kind == VEC ? (v.kids.empty() ? 1 : 2) : 0; for (auto& k : v.kids) n += differences(t->elem, k); return n; }
        case COMP: { size_t n = 0; for (size_t i = 0; i < t->fields.size(); ++i) n += differences(t->fields[i].type, v.kids[i]); return n; }
    }
    return 0;
}
static bool differ(MT* t, MV& v, size_t& n)
{
    auto next = [&]() { return n-- == 0; };
    switch (t->kind)
    {
        case NUM: case PTR: case ENUM:
            for (auto& b : v.bytes) if (next()) { b ^= 1 << (n % 7); return true; }
            return false;
        case OPQ: case NUL: return false;
        case STR:
            for (auto& b : v.bytes) if (next()) { b ^= 0x20; return true; }
            if (next()) { v.bytes += 'x'; return true; }
            if (next()) { if (v.bytes.empty()) v.bytes = string(1, 0); else v.bytes.resize(v.bytes.size() - 1); return true; }
            return false;
        case VEC:
            if (next()) { v.kids.push_back(fill(t->elem, 0, fixed_size(1))); return true; }
            if (!v.kids.empty() && next()) { v.kids.pop_back(); return true; }
            // fallthrough
        case ARR: for (auto& k : v.kids) if (differ(t->elem, k, n)) return true; return false;
        case COMP: for (size_t i = 0; i < t->fields.size(); ++i) if (differ(t->fields[i].type, v.kids[i], n)) return true; return false;
    }
    return false;
}
static void valueops(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t; MV const& v = k.v;
    MemoryLayout L = layout_of(*t->real);
    vector<uint8_t> m; mask(t, m);
    long before = mc::live_allocs;
    // init
    for (int how = 0; how < 4; ++how)
    {
        MemoryLayout U; if (how == 3) U = layout_of(*t->real, false, false, false, false);
        long b0 = mc::live_allocs;
        {
            Mem d(t, 0x6B, false);
            if (how == 0) init(d.value()); else if (how == 1) init(d.value(), L); else if (how == 2) init(d.p, L); else init(d.p, U);
            d.live = true;
            Mem ref(t, 0x6B); MV w = ref.get(); initial(t, w); ref.set(w);
            MC_CHECK(d.get() == w, "init:value", what_of(t, v) + " initialised to " + show(t, d.get()));
            for (size_t i = 0; i < t->size; ++i)
                MC_CHECK(m[i] != 0 || d.p[i] == 0x6B, "init:padding", mc::fmt("byte %zu of %s written", i, t->expr.c_str()));
            if (how % 2) destroy(d.value()); else destroy(d.p, L);
            d.live = false;
        }
        MC_CHECK(mc::live_allocs == b0, "init:leak", t->expr);
        c.step(2);
    }
    // zero
    for (int how = 0; how < 3; ++how)
    {
        Mem d(t, 0xA5); d.set(v);
        if (how == 0) zero(d.value()); else if (how == 1) zero(d.value(), L); else zero(d.p, L);
        MV w = v; zeroed(t, w);
        MC_CHECK(d.get() == w, "zero:value", what_of(t, v) + " zeroed to " + show(t, d.get()));
        c.step();
        // still a valid value
        Mem s(t); s.set(v); Typelib::copy(d.value(), s.value());
        MC_CHECK(d.get() == v, "zero:reuse", what_of(t, v));
        if (how == 1) destroy(d.value(), L); else destroy(d.value());
        d.live = false;
    }
    // copy
    for (int prior = 0; prior < 3; ++prior)
        for (int how = 0; how < 4; ++how)
        {
            MemoryLayout U; if (how == 3) U = layout_of(*t->real, false, false, false, true);
            Mem s(t, 0xA5), d(t, 0x3C);
            s.set(v);
            if (prior) d.set(fill(t, 3, fixed_size(prior == 1 ? 3 : 7)));
            if (how == 0) Typelib::copy(d.value(), s.value()); else if (how == 1) Typelib::copy(d.p, s.p, *t->real); else Typelib::copy(d.p, s.p, how == 2 ? L : U);
            MC_CHECK(d.get() == v, "copy:value", what_of(t, v) + " copied as " + show(t, d.get()));
            MC_CHECK(s.get() == v, "copy:source", what_of(t, v));
            // a deep copy: the two values live their own lives
            MV other = fill(t, 4, fixed_size(2));
            s.set(other);
            MC_CHECK(d.get() == v, "copy:shared", what_of(t, v));
            destroy(s.value()); s.live = false;
            MC_CHECK(d.get() == v, "copy:shared", what_of(t, v));
            c.step();
        }
    // copying onto itself
    { Mem s(t); s.set(v); Typelib::copy(s.value(), s.value()); MC_CHECK(s.get() == v, "copy:self", what_of(t, v)); c.step(); }
    // comparison
    {
        Mem a(t, 0x11), b(t, 0xEE);
        a.set(v); b.set(v);
        MC_CHECK(compare(a.value(), b.value()) && compare(b.value(), a.value()) && compare(a.p, b.p, *t->real), "compare:equal", what_of(t, v));
        MC_CHECK(compare(a.value(), a.value()), "compare:self", what_of(t, v));
        size_t n = differences(t, v), step = n <= 40 ? 1 : n / 20;
        for (size_t i = 0; i < n; i += (i < 10 || i + 14 >= n ? 1 : step))
        {
            MV w = v; size_t at = i; differ(t, w, at);
            if (w == v) continue;
            b.set(w);
            MC_CHECK(!compare(a.value(), b.value()) && !compare(b.value(), a.value()) && !compare(a.p, b.p, *t->real),
                "compare:different", what_of(t, v) + " and " + show(t, w));
            c.step();
        }
        MC_CHECK(a.get() == v, "compare:modified", what_of(t, v));
        destroy(a.value()); a.live = false; destroy(b.p, L); b.live = false;
    }
    MC_CHECK(mc::live_allocs == before, "leak", mc::fmt("%ld blocks not released; ", mc::live_allocs - before) + what_of(t, v));
}
MC_BODY("C06", "chain") { valueops(c, chain_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C06", "chain3") { c.deviation_budget = 0; Case k; k.t = gen::chain(c, c.thorough ? 4 : 3, 7, 12); k.v = fill(k.t, 0, fixed_size(1 + c.choose(2, "size"))); valueops(c, k); }
MC_BODY("C06", "flat") { valueops(c, flat_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C06", "sized") { Case k = sized_case(c); if (k.t->n_leaves > 2500 && !c.thorough) throw mc::Prune(); valueops(c, k); }
// pointers are compared and copied as addresses
MC_BODY("C06", "pointers")
{
    Case k; k.t = special_chain(c, c.thorough ? 3 : 2);
    bool ptr = false, opq = false; specials(k.t, ptr, opq);
    if (opq || k.t->has_container) throw mc::Prune();
    k.v = fill(k.t, 0, fixed_size(1));
    describe(c, k);
    Mem a(k.t, 0x11), b(k.t, 0xEE); a.set(k.v); b.set(k.v);
    MC_CHECK(compare(a.value(), b.value()), "compare:pointers-equal", what_of(k.t, k.v));
    size_t n = differences(k.t, k.v);
    for (size_t i = 0; i < n; ++i)
    {
        MV w = k.v; size_t at = i; differ(k.t, w, at); b.set(w);
        MC_CHECK(!compare(a.value(), b.value()), "compare:pointers-different", what_of(k.t, k.v) + " and " + show(k.t, w));
        c.step();
    }
    MemoryLayout P = layout_of(*k.t->real, true);
    Typelib::copy(b.p, a.p, P);
    MC_CHECK(b.get() == k.v, "copy:pointers", what_of(k.t, k.v));
    c.step(2);
}

// -------------------------------------------------------------------- C07
static MT* element(int i)
{
    switch (i)
    {
        case 0: return num("/int8_t");
        case 1: return gen::P();
        case 2: return str();
        case 3: return vec(num("/int8_t"));
        case 4: return compound({ num("/int8_t"), str() }, NATURAL);
        case 5: return compound({ str(), num("/int8_t") }, NATURAL);
        case 6: return gen::E4();
        case 7: return model::array(str(), 2);
        case 8: return num("/double");
        case 9: return model::array(num("/uint16_t"), 3);
        case 10: return vec(str());
        case 11: return compound({ gen::Q(), vec(gen::P()) }, NATURAL);
        default: return nullptr;
    }
}
enum { NELEM = 12 };
namespace
{
    struct Seq
    {
        Ctx& c; MT* t; MT* el; Container const& type; vector<MV> alpha;
        Mem a, b; MV ma, mb; string trace;
        Seq(Ctx& c, MT* t, MT* el)
            : c(c), t(t), el(el), type(static_cast<Container const&>(*t->real)), a(t), b(t)
        {
            for (unsigned i = 0; i < 2; ++i) { unsigned k = 0; alpha.push_back(fill(el, i ? 3 : 0, [&k, i](MT*) { return (k++ + i) % 3 + (i ? 0 : 1); })); }
        }
        Typelib::Value self(Mem& m) { return m.value(); }
        vector<MV> items(MV const& m) const
        {
            if (t->kind == VEC) return m.kids;
            vector<MV> r; for (char ch : m.bytes) { MV k; k.bytes = string(1, ch); r.push_back(k); }
            return r;
        }
        MV from(vector<MV> const& v) const
        {
            MV r; if (t->kind == VEC) r.kids = v; else for (auto& k : v) r.bytes += k.bytes;
            return r;
        }
        void verify(char const* op)
        {
            c.step();
            string id = string(t->kind == STR ? "string:" : "vector:") + op;
            string w = trace + " on " + t->expr;
            MV ga = a.get(), gb = b.get();
            MC_CHECK(ga == ma, id, w + ": holds " + show(t, ga) + ", expected " + show(t, ma));
            MC_CHECK(gb == mb, id + ":other", w + ": the other container holds " + show(t, gb) + ", expected " + show(t, mb));
            MC_CHECK(type.getElementCount(a.p) == items(ma).size(), id + ":count", w);
            MC_CHECK(type.compare(a.p, b.p) == (ma == mb) && type.compare(b.p, a.p) == (ma == mb), id + ":compare", w + " " + show(t, ma) + " and " + show(t, mb));
        }
        // returns false when the operation does not apply
        void op(int o)
        {
            auto it = items(ma); size_t n = it.size();
            Mem v0(el), v1(el); v0.set(alpha[0]); v1.set(alpha[1]);
            auto note = [&](char const* s) { trace += string(" ") + s; c.log("%s", s); };
            auto drop = [&](char const* name, function<bool(MV const&, size_t)> f)
            {
                note(name); vector<size_t> seen; size_t calls = 0; vector<MV> left;
                for (size_t i = 0; i < n; ++i) if (!f(it[i], i)) left.push_back(it[i]);
                vector<MV> presented;
                MT* e = el;
                type.delete_if(a.p, [&](Value const& x) -> bool { MV m = read(e, static_cast<uint8_t const*>(x.getData())); presented.push_back(m); return f(m, calls++); });
                MC_CHECK(presented == it, string(t->kind == STR ? "string:" : "vector:") + name + ":elements", trace + " on " + t->expr + mc::fmt(": predicate called %zu times for %zu elements, or with other values", calls, n));
                ma = from(left); verify(name);
            };
            switch (o)
            {
                case 0: note("push0"); type.push(a.p, v0.value()); it.push_back(alpha[0]); ma = from(it); verify("push"); break;
                case 1: note("push1"); type.push(a.p, v1.value()); it.push_back(alpha[1]); ma = from(it); verify("push"); break;
                case 2: case 3:
                {
                    note(o == 2 ? "erase0" : "erase1");
                    MV const& x = alpha[o - 2]; bool found = false;
                    for (size_t i = 0; i < n; ++i) if (it[i] == x) { it.erase(it.begin() + i); found = true; break; }
                    bool r = type.erase(a.p, (o == 2 ? v0 : v1).value());
                    ma = from(it);
                    verify("erase");
                    MC_CHECK(r == found, string(t->kind == STR ? "string" : "vector") + ":erase:result", trace + " on " + t->expr);
                    break;
                }
                case 4: drop("delete_if(==0)", [&](MV const& m, size_t) { return m == alpha[0]; }); break;
                case 5: drop("delete_if(odd)", [&](MV const&, size_t i) { return i % 2 == 1; }); break;
                case 6: note("clear"); type.clear(a.p); ma = from({}); verify("clear"); break;
                case 7: note("copy-to-other"); type.copy(b.p, a.p); mb = ma; verify("copy"); break;
                case 8: note("copy-from-other"); type.copy(a.p, b.p); ma = mb; verify("copy"); break;
                case 9: { note("push-own-first"); if (!n || t->kind == STR) throw mc::Prune(); type.push(a.p, type.getElement(a.p, 0)); it.push_back(it[0]); ma = from(it); verify("push-own-element"); break; }
                case 10: { note("erase-own-last"); if (!n || t->kind == STR) throw mc::Prune();
                    MV x = it[n - 1]; for (size_t i = 0; i < n; ++i) if (it[i] == x) { it.erase(it.begin() + i); break; }
                    MC_CHECK(type.erase(a.p, type.getElement(a.p, n - 1)), "vector:erase:result", trace); ma = from(it); verify("erase-own-element"); break; }
                case 11: { note("set-first=1"); if (!n || t->kind == STR) throw mc::Prune(); type.setElement(a.p, 0, v1.value()); it[0] = alpha[1]; ma = from(it); verify("setElement"); break; }
                case 12: { note("set-last=first"); if (n < 2 || t->kind == STR) throw mc::Prune(); type.setElement(a.p, n - 1, type.getElement(a.p, 0)); it[n - 1] = it[0]; ma = from(it); verify("setElement"); break; }
                case 13: { note("load-dump"); Bytes d = dump(a.value()); load(b.value(), d); mb = ma; verify("dump-load"); break; }
            }
            MC_CHECK(type.isRandomAccess() == (t->kind == VEC), "random-access", t->expr);
            if (t->kind == VEC)
                for (size_t i = 0; i < items(ma).size(); ++i)
                {
                    Value e = type.getElement(a.p, i);
                    MC_CHECK(e.getType() == *el->real && read(el, static_cast<uint8_t const*>(e.getData())) == items(ma)[i], "vector:getElement", trace);
                }
        }
    };
    enum { NOPS = 14 };
}
static void containers(Ctx& c, int depth)
{
    int e = c.choose(NELEM + 1, "element");
    int o1 = c.choose(NOPS, "op");
    c.unit();
    MT* el = e == NELEM ? num("/int8_t") : element(e);
    MT* t = e == NELEM ? str() : vec(el);
    long before = mc::live_allocs;
    {
        Seq s(c, t, el);
        string states;
        s.op(o1);
        for (int i = 1; i < depth; ++i) { s.op(c.choose(NOPS, "op")); }
        s.ma = MV(); s.mb = MV();

        s.type.destroy(s.a.p); s.a.live = false; s.type.destroy(s.b.p); s.b.live = false;
        s.alpha.clear(); s.trace = string();
    }
    MC_CHECK(mc::live_allocs == before, "leak", t->expr + mc::fmt(": %ld blocks not released", mc::live_allocs - before));
}
MC_BODY("C07", "sequences") { containers(c, c.thorough ? 6 : 5); }
// growing and shrinking across every size up to the bound
MC_BODY("C07", "growth")
{
    int e = c.choose(NELEM + 1, "element");
    int mode = c.choose(5, "mode");
    c.unit();
    MT* el = e == NELEM ? num("/int8_t") : element(e);
    MT* t = e == NELEM ? str() : vec(el);
    size_t N = c.thorough ? 700 : 70;
    long before = mc::live_allocs;
    {
        Mem a(t), v(el); vector<MV> m;
        Container const& type = static_cast<Container const&>(*t->real);
        auto get = [&]() -> vector<MV> { MV g = a.get(); if (t->kind == VEC) return g.kids; vector<MV> r; for (char ch : g.bytes) { MV k; k.bytes = string(1, ch); r.push_back(k); } return r; };
        unsigned k = 0;
        for (size_t i = 0; i < N; ++i)
        {
            MV x = fill(el, 3 + i, [&k](MT*) { return k++ % 4; });
            v.set(x); type.push(a.p, v.value()); m.push_back(x);
            if (mode == 1 && i % 3 == 2) { type.erase(a.p, v.value()); for (size_t j = 0; j < m.size(); ++j) if (m[j] == x) { m.erase(m.begin() + j); break; } }
            if (mode == 2 && i % 20 == 19) { type.clear(a.p); m.clear(); }
            if (mode == 3 && t->kind == VEC) { type.push(a.p, type.getElement(a.p, i / 2 % m.size())); m.push_back(m[i / 2 % m.size()]); }
            c.step();
            MC_CHECK(get() == m, "growth", mc::fmt("after %zu insertions in %s", i + 1, t->expr.c_str()));
        }
        if (mode == 4)
            while (!m.empty())
            {
                size_t i = 0; vector<MV> left;
                for (size_t j = 0; j < m.size(); ++j) if (j % 4 != 1 && m.size() > 1) left.push_back(m[j]);
                type.delete_if(a.p, [&](Value const&) { size_t j = i++; return !(j % 4 != 1 && m.size() > 1); });
                if (left.size() == m.size()) left.pop_back(), type.delete_if(a.p, [&](Value const&) { return i++ == 2 * m.size() - 1; });
                m = left; c.step();
                MC_CHECK(get() == m, "shrink", mc::fmt("at %zu elements in %s", m.size(), t->expr.c_str()));
            }
        c.log("%s mode %d", t->expr.c_str(), mode);
        type.destroy(a.p); a.live = false;
    }
    MC_CHECK(mc::live_allocs == before, "leak", t->expr);
    c.state(t->expr + mc::fmt("|growth %d", mode));
}
// insertion of a value of another type is refused and changes nothing
MC_BODY("C07", "types")
{
    int e = c.choose(NELEM + 1, "element"), f = c.choose(NELEM, "value");
    c.unit();
    MT* el = e == NELEM ? num("/int8_t") : element(e);
    MT* t = e == NELEM ? str() : vec(el);
    MT* o = element(f);
    if (o == el) throw mc::Prune();
    Mem a(t), v(o), w(el); Container const& type = static_cast<Container const&>(*t->real);
    w.set(fill(el, 0, fixed_size(1))); type.push(a.p, w.value());
    MV m = a.get();
    v.set(fill(o, 0, fixed_size(1)));
    for (int k = 0; k < 3; ++k)
    {
        if (k == 2 && t->kind == STR) continue;
        bool threw = false;
        try { if (k == 0) type.push(a.p, v.value()); else if (k == 1) type.erase(a.p, v.value()); else type.setElement(a.p, 0, v.value()); }
        catch (std::exception const&) { threw = true; }
        c.step();
        // an erase of something which cannot be there may also just say so
        MC_CHECK(threw || k == 1, mc::fmt("type-mismatch:%d", k), o->expr + " accepted in " + t->expr);
        MC_CHECK(a.get() == m, "type-mismatch:changed", o->expr + " in " + t->expr);
    }
    c.state(t->expr + "|" + o->expr);
}

// -------------------------------------------------------------------- C18
static void swapped(MT* t, MV& v)
{
    switch (t->kind)
    {
        case NUM: case ENUM: reverse(v.bytes.begin(), v.bytes.end()); break;
        case ARR: case VEC: for (auto& k : v.kids) swapped(t->elem, k); break;
        case COMP: for (size_t i = 0; i < t->fields.size(); ++i) swapped(t->fields[i].type, v.kids[i]); break;
        default: break;
    }
}
static bool has_pointer(MT* t)
{
    bool p = false, o = false; specials(t, p, o); return p;
}
static void endian(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    MV w = k.v; swapped(t, w);
    bool p = false, o = false; specials(t, p, o);
    if (t->kind == NUL) throw mc::Prune();
    if (!p)
    {
        Mem a(t); a.set(k.v);
        endian_swap(a.value());
        MC_CHECK(a.get() == w, "in-place", what_of(t, k.v) + " swapped to " + show(t, a.get()));
        endian_swap(a.value());
        MC_CHECK(a.get() == k.v, "in-place:twice", what_of(t, k.v));
        c.step(2);
    }
    CompileEndianSwapVisitor s;
    bool threw = false, can = !p && !o && !t->has_container;
    try { s.apply(*t->real); } catch (UnsupportedEndianSwap const&) { threw = true; }
    MC_CHECK(threw || can || t->has_zero_dim, "compiled:accepted", t->expr);
    if (!can && !threw) throw mc::Prune(); // containers in an array without element
    MC_CHECK(!threw || !can || t->has_zero_dim, "compiled:refused", t->expr);
    c.step();
    if (threw) { c.count("compiled swap refused"); return; }
    Mem a(t, 0x44), b(t, 0x55), d(t, 0x66);
    a.set(k.v);
    s.swap(a.value(), b.value());
    MC_CHECK(b.get() == w, "compiled", what_of(t, k.v) + " swapped to " + show(t, b.get()));
    MC_CHECK(a.get() == k.v, "compiled:source", what_of(t, k.v));
    s.swap(b.value(), d.value());
    MC_CHECK(d.get() == k.v, "compiled:twice", what_of(t, k.v));
    // the compiled form can be rebuilt for another type
    MT* other = gen::Q(); Mem x(other, 0x44), y(other, 0x55); MV ov = fill(other, 0, fixed_size(0)), ow = ov; swapped(other, ow); x.set(ov);
    s.apply(*other->real); s.swap(x.value(), y.value());
    MC_CHECK(y.get() == ow, "compiled:reuse", t->expr);
    c.step(3);
}
MC_BODY("C18", "chain") { Case k; k.t = gen::chain(c, c.thorough ? 4 : 3); k.v = fill(k.t, 0, fixed_size(2)); endian(c, k); }
MC_BODY("C18", "special") { Case k; k.t = special_chain(c, 2); bool p = false, o = false; specials(k.t, p, o); k.v = fill(k.t, 0, fixed_size(p ? 0 : 2)); endian(c, k); }
MC_BODY("C18", "flat") { endian(c, flat_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C18", "pattern") { Case k; k.t = gen::chain(c, 1); k.v = fill(k.t, c.choose(6, "pattern"), fixed_size(1)); endian(c, k); }
// compounds of up to 5 numerics of every width, in every order, nested or not
MC_BODY("C18", "numerics")
{
    static char const* names[] = { "/int8_t", "/uint16_t", "/int32_t", "/double" };
    int n = 1 + c.choose(c.thorough ? 6 : 5, "fields"); vector<int> f;
    for (int i = 0; i < n; ++i) f.push_back(c.choose(4, "field"));
    int wrap = c.choose(4, "wrap");
    c.unit();
    vector<MT*> ts; for (int i : f) ts.push_back(num(names[i]));
    MT* t = compound(ts, NATURAL);
    if (wrap == 1) t = model::array(t, 3);
    if (wrap == 2) t = compound({ num("/int8_t"), model::array(model::array(t, 2), 2), num("/int32_t") }, NATURAL);
    if (wrap == 3) t = model::array(compound({ model::array(t, 2), num("/int8_t") }, NATURAL), 2);
    Case k; k.t = t; k.v = fill(t, 0, fixed_size(1));
    endian(c, k);
}
// scalar helpers
MC_BODY("C18", "scalars")
{
    int pos = c.choose(8, "byte"), val = c.choose(256, "value"); c.unit();
    uint64_t x = (uint64_t(0x0102030405060708) & ~(uint64_t(0xff) << (8 * pos))) | uint64_t(val) << (8 * pos);
    auto rev = [](uint64_t v, int n) { uint64_t r = 0; for (int i = 0; i < n; ++i) r |= ((v >> (8 * i)) & 0xff) << (8 * (n - 1 - i)); return r; };
    MC_CHECK(Endian::swap(uint64_t(x)) == rev(x, 8), "scalar:64", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(uint64_t(Endian::swap(int64_t(x))) == rev(x, 8), "scalar:s64", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(Endian::swap(uint32_t(x)) == uint32_t(rev(uint32_t(x), 4)), "scalar:32", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(uint32_t(Endian::swap(int32_t(x))) == uint32_t(rev(uint32_t(x), 4)), "scalar:s32", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(Endian::swap(uint16_t(x)) == uint16_t(rev(uint16_t(x), 2)), "scalar:16", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(uint16_t(Endian::swap(int16_t(x))) == uint16_t(rev(uint16_t(x), 2)), "scalar:s16", mc::fmt("%llx", (unsigned long long)x));
    MC_CHECK(Endian::swap(uint8_t(x)) == uint8_t(x), "scalar:8", "");
    MC_CHECK(Endian::to_big(uint32_t(x)) == uint32_t(rev(uint32_t(x), 4)) && Endian::to_little(uint32_t(x)) == uint32_t(x), "scalar:to", "");
    MC_CHECK(Endian::from_big(uint64_t(x)) == rev(x, 8) && Endian::from_little(uint64_t(x)) == x, "scalar:from", "");
    c.step(9); c.state(x);
}

// -------------------------------------------------------------------- C25
namespace
{
    struct Seen { char k; void const* p; string type; bool operator==(Seen const& o) const { return k == o.k && p == o.p && type == o.type; } };
    struct Collector : ValueVisitor
    {
        vector<Seen> s;
        Collector() : ValueVisitor(true) {}
        using ValueVisitor::visit_;
        bool add(char k, void const* p, string t = "") { s.push_back(Seen { k, p, t }); return true; }
        bool visit_ (int8_t  & v) { return add('b', &v); }
        bool visit_ (uint8_t & v) { return add('B', &v); }
        bool visit_ (int16_t & v) { return add('h', &v); }
        bool visit_ (uint16_t& v) { return add('H', &v); }
        bool visit_ (int32_t & v) { return add('i', &v); }
        bool visit_ (uint32_t& v) { return add('I', &v); }
        bool visit_ (int64_t & v) { return add('q', &v); }
        bool visit_ (uint64_t& v) { return add('Q', &v); }
        bool visit_ (float   & v) { return add('f', &v); }
        bool visit_ (double  & v) { return add('d', &v); }
        bool visit_ (Value const& v, OpaqueType const& t) { return add('o', v.getData(), t.getName()); }
        bool visit_ (Value const& v, Pointer const& t) { add('p', v.getData(), t.getName()); return ValueVisitor::visit_(v, t); }
        bool visit_ (Value const& v, Array const& t) { add('a', v.getData(), t.getName()); return ValueVisitor::visit_(v, t); }
        bool visit_ (Value const& v, Container const& t) { add('c', v.getData(), t.getName()); return ValueVisitor::visit_(v, t); }
        bool visit_ (Value const& v, Compound const& t) { add('s', v.getData(), t.getName()); return ValueVisitor::visit_(v, t); }
        bool visit_ (Value const& v, Compound const& t, Field const& f) { add('F', v.getData(), f.getName()); return ValueVisitor::visit_(v, t, f); }
        bool visit_ (Enum::integral_type& v, Enum const& e) { return add('e', &v, e.getName()); }
    };
    char letter(MT* t)
    {
        if (t->is_float) return t->size == 4 ? 'f' : 'd';
        char const* s = t->is_unsigned ? "BHIQ" : "bhiq";
        return s[t->size == 1 ? 0 : t->size == 2 ? 1 : t->size == 4 ? 2 : 3];
    }
    void walk(MT* t, uint8_t const* p, vector<Seen>& s)
    {
        string n = t->real->getName();
        switch (t->kind)
        {
            case NUM: s.push_back(Seen { letter(t), p, "" }); break;
            case ENUM: s.push_back(Seen { 'e', p, n }); break;
            case OPQ: s.push_back(Seen { 'o', p, n }); break;
            case NUL: break;
            case PTR: s.push_back(Seen { 'p', p, n }); walk(t->elem, *reinterpret_cast<uint8_t* const*>(p), s); break;
            case ARR: s.push_back(Seen { 'a', p, n }); for (size_t i = 0; i < t->dim; ++i) walk(t->elem, p + i * t->elem->size, s); break;
            case STR: { s.push_back(Seen { 'c', p, n }); string const& x = *reinterpret_cast<string const*>(p); for (size_t i = 0; i < x.size(); ++i) s.push_back(Seen { 'b', &x[i], "" }); break; }
            case VEC: { s.push_back(Seen { 'c', p, n }); auto const& x = *reinterpret_cast<vector<uint8_t> const*>(p); for (size_t i = 0; i < x.size(); i += t->elem->size) walk(t->elem, &x[i], s); break; }
            case COMP: s.push_back(Seen { 's', p, n }); for (auto& f : t->fields) { s.push_back(Seen { 'F', p + f.offset, f.name }); walk(f.type, p + f.offset, s); } break;
        }
    }
    struct TCollector : TypeVisitor
    {
        vector<string> s;
        using TypeVisitor::visit_;
        bool add(string const& x) { s.push_back(x); return true; }
        bool visit_ (OpaqueType const& t) { return add("o" + t.getName()); }
        bool visit_ (Numeric const& t) { return add("n" + t.getName()); }
        bool visit_ (Enum const& t) { return add("e" + t.getName()); }
        bool visit_ (Pointer const& t) { add("p" + t.getName()); return TypeVisitor::visit_(t); }
        bool visit_ (Array const& t) { add("a" + t.getName()); return TypeVisitor::visit_(t); }
        bool visit_ (Container const& t) { add("c" + t.getName()); return TypeVisitor::visit_(t); }
        bool visit_ (Compound const& t) { add("s" + t.getName()); return TypeVisitor::visit_(t); }
        bool visit_ (Compound const& t, Field const& f) { add("F" + f.getName()); return TypeVisitor::visit_(t, f); }
    };
    void twalk(MT* t, vector<string>& s)
    {
        string n = t->real->getName();
        switch (t->kind)
        {
            case NUM: s.push_back("n" + n); break;
            case ENUM: s.push_back("e" + n); break;
            case OPQ: s.push_back("o" + n); break;
            case NUL: break;
            case PTR: s.push_back("p" + n); twalk(t->elem, s); break;
            case ARR: s.push_back("a" + n); twalk(t->elem, s); break;
            case VEC: s.push_back("c" + n); twalk(t->elem, s); break;
            case STR: s.push_back("c" + n); s.push_back("n/int8_t"); break;
            case COMP: s.push_back("s" + n); for (auto& f : t->fields) { s.push_back("F" + f.name); twalk(f.type, s); } break;
        }
    }
    // points every pointer of the value to memory holding a value of the pointed type
    struct Pointees
    {
        vector<Mem*> mem;
        ~Pointees() { for (auto* m : mem) delete m; }
        void set(MT* t, uint8_t* p)
        {
            switch (t->kind)
            {
                case PTR: { Mem* m = new Mem(t->elem); mem.push_back(m); m->set(fill(t->elem, 0, fixed_size(1))); memcpy(p, &m->p, sizeof(void*)); set(t->elem, m->p); break; }
                case ARR: for (size_t i = 0; i < t->dim; ++i) set(t->elem, p + i * t->elem->size); break;
                case VEC: { auto& x = *reinterpret_cast<vector<uint8_t>*>(p); for (size_t i = 0; i < x.size(); i += t->elem->size) set(t->elem, &x[i]); break; }
                case COMP: for (auto& f : t->fields) set(f.type, p + f.offset); break;
                default: break;
            }
        }
    };
}
static void visitors(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    Pointees ptrs;
    Mem a(t); a.set(k.v); ptrs.set(t, a.p);
    vector<Seen> want; walk(t, a.p, want);
    Collector col; col.apply(a.value());
    auto showseq = [](vector<Seen> const& s) { string o; for (auto& x : s) { o += x.k; if (o.size() > 100) break; } return o; };
    size_t i = 0; while (i < want.size() && i < col.s.size() && want[i] == col.s[i]) ++i;
    MC_CHECK(col.s == want, "value-visitor", mc::fmt("differs from element %zu on: ", i) + what_of(t, k.v) + "\n got " + showseq(col.s) + "\n expected " + showseq(want));
    c.step(want.size());
    c.count("elements visited", want.size());
    // visitors can be reused
    col.s.clear(); col.apply(a.value());
    MC_CHECK(col.s == want, "value-visitor:again", what_of(t, k.v));
    vector<string> tw; twalk(t, tw);
    TCollector tc; tc.apply(*t->real);
    MC_CHECK(tc.s == tw, "type-visitor", t->expr);
    c.step(tw.size());
    if (t->kind == COMP)
    {
        for (auto& f : t->fields)
        {
            Value v = value_get_field(a.value(), f.name), v2 = value_get_field(a.p, *t->real, f.name);
            MC_CHECK(v.getData() == a.p + f.offset && v.getType() == *f.type->real && v == v2, "field", t->expr + " field " + f.name);
            c.step();
        }
        for (char const* bad : { "", "nosuchfield", "f", "." })
        {
            bool known = false; for (auto& f : t->fields) if (f.name == bad) known = true;
            if (known) continue;
            bool threw = false; try { value_get_field(a.value(), bad); } catch (FieldNotFound const&) { threw = true; }
            MC_CHECK(threw, "field:unknown", t->expr); c.step();
        }
    }
}
MC_BODY("C25", "chain") { visitors(c, chain_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C25", "special") { Case k; k.t = special_chain(c, c.thorough ? 3 : 2); k.v = fill(k.t, 0, fixed_size(c.choose(3, "size"))); visitors(c, k); }
MC_BODY("C25", "flat") { visitors(c, flat_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C25", "sized") { Case k = sized_case(c); if (k.t->n_leaves > 3000) throw mc::Prune(); visitors(c, k); }
// casts of simple values
template<typename T> static bool cast_ok(void* p, Type const& t, T& out)
{
    try { out = value_cast<T>(p, t); return true; } catch (BadValueCast const&) { return false; }
}
MC_BODY("C25", "cast")
{
    static char const* names[] = { "/int8_t", "/uint8_t", "/int16_t", "/uint16_t", "/int32_t", "/uint32_t", "/int64_t", "/uint64_t", "/float", "/double" };
    int n = c.choose(10, "type"), pat = c.choose(c.thorough ? 40 : 12, "pattern"); c.unit();
    MT* t = num(names[n]); MV v = fill(t, pat, fixed_size(0));
    Mem a(t); a.set(v); int ok = 0;
#define TRY(i, T) { T x; bool r = cast_ok<T>(a.p, *t->real, x); ok += r; MC_CHECK(r == (i == n), "cast:accepted", t->expr + " as " #T); \
        if (r) MC_CHECK(memcmp(&x, a.p, sizeof(T)) == 0, "cast:value", t->expr); c.step(); }
    TRY(0, int8_t) TRY(1, uint8_t) TRY(2, int16_t) TRY(3, uint16_t) TRY(4, int32_t) TRY(5, uint32_t) TRY(6, int64_t) TRY(7, uint64_t) TRY(8, float) TRY(9, double)
#undef TRY
    c.state(t->expr + show(t, v));
}

// -------------------------------------------------------------------- C19
namespace
{
    void header(MT* t, string const& pre, string const& post, vector<string>& out, vector<MT*>& leaf)
    {
        switch (t->kind)
        {
            case PTR: header(t->elem, "*(" + pre, post + ")", out, leaf); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) header(t->elem, pre, post + mc::fmt("[%zu]", i), out, leaf); break;
            case COMP: for (auto& f : t->fields) header(f.type, pre, post + "." + f.name, out, leaf); break;
            case NUL: case VEC: case STR: break;
            default: out.push_back(pre + post); leaf.push_back(t);
        }
    }
    // the leaves of the value in the same order
    void cells(MT* t, uint8_t const* p, vector<uint8_t const*>& out)
    {
        switch (t->kind)
        {
            case PTR: cells(t->elem, *reinterpret_cast<uint8_t* const*>(p), out); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) cells(t->elem, p + i * t->elem->size, out); break;
            case COMP: for (auto& f : t->fields) cells(f.type, p + f.offset, out); break;
            case NUL: case VEC: case STR: break;
            default: out.push_back(p);
        }
    }
    vector<string> split(string const& s, string const& sep)
    {
        vector<string> r; size_t at = 0;
        while (true) { size_t n = s.find(sep, at); r.push_back(s.substr(at, n == string::npos ? n : n - at)); if (n == string::npos) return r; at = n + sep.size(); }
    }
    bool cell_ok(MT* t, uint8_t const* p, string const& text, bool numeric)
    {
        int64_t i = 0; uint64_t u = 0;
        if (t->kind == OPQ) return text == "<" + t->real->getName() + ">";
        if (t->kind == ENUM)
        {
            int x; memcpy(&x, p, 4);
            Enum const& e = static_cast<Enum const&>(*t->real);
            // several symbols may share the value
            for (auto& s : e.values()) if (s.second == x && s.first == text) return true;
            for (auto& s : e.values()) if (s.second == x) return false;
            return text == to_string(x);
        }
        if (t->is_float)
        {
            char* end; double d = strtod(text.c_str(), &end);
            if (*end || text.empty()) return false;
            if (t->size == 4) { float f; memcpy(&f, p, 4); return (f != f && d != d) || float(d) == f; }
            double g; memcpy(&g, p, 8); return (g != g && d != d) || d == g;
        }
        if (t->size == 1 && !numeric) return text == string(reinterpret_cast<char const*>(p), 1);
        if (t->is_unsigned) { memcpy(&u, p, t->size); return text == to_string(u); }
        memcpy(&i, p, t->size); if (t->size < 8) { int sh = 64 - 8 * t->size; i = int64_t(uint64_t(i) << sh) >> sh; }
        return text == to_string(i);
    }
}
static void csvcheck(Ctx& c, MT* t, unsigned pattern)
{
    if (t->has_container) throw mc::Prune();
    vector<string> names; vector<MT*> leaves; header(t, "b", "", names, leaves);
    if (names.empty()) throw mc::Prune();
    Pointees ptrs; Mem a(t); MV v = fill(t, pattern, fixed_size(0)); a.set(v); ptrs.set(t, a.p);
    c.state(t->expr + "|" + show(t, v)); c.log("type %s", t->expr.c_str());
    vector<uint8_t const*> cl; cells(t, a.p, cl);
    for (string const& sep : { string(" "), string(", "), string("||") })
    {
        ostringstream h; h << csv_header(*t->real, "b", sep);
        MC_CHECK(split(h.str(), sep) == names, "header", t->expr + ": " + h.str());
        for (int numeric = 0; numeric < 2; ++numeric)
        {
            if (!numeric && sep == " ") continue;
            ostringstream l; l << csv(*t->real, a.p, sep, numeric);
            // a separator can be found in characters: look for the columns from the left
            string text = l.str(); size_t n = cl.size();
            bool chars = false; for (MT* m : leaves) if (m->kind == NUM && m->size == 1 && !numeric) chars = true;
            if (chars) { string probe; bool clash = false; for (size_t i = 0; i < n; ++i) if (leaves[i]->kind == NUM && leaves[i]->size == 1 && sep.find(char(*cl[i])) != string::npos) clash = true; if (clash) continue; }
            vector<string> col = split(text, sep);
            MC_CHECK(col.size() == names.size(), "columns", mc::fmt("%zu columns for %zu headers: ", col.size(), names.size()) + t->expr + ": " + text);
            for (size_t i = 0; i < n; ++i)
                MC_CHECK(cell_ok(leaves[i], cl[i], col[i], numeric), "cell", t->expr + " column " + names[i] + " is '" + col[i] + "' for value " + show(t, v));
            c.step(n);
            c.count("cells checked", n);
        }
    }
    CSVOutput o(*t->real, ";", true); ostringstream x; o.header(x, "b"); x << "\n"; o.display(x, a.p); x << "\n"; o.display(x, a.p);
    vector<string> lines = split(x.str(), "\n");
    MC_CHECK(lines.size() == 3 && lines[1] == lines[2] && split(lines[0], ";") == names && split(lines[1], ";").size() == names.size(), "reuse", t->expr);
}
static MT* csv_leaf(int i)
{
    static char const* names[] = { "/int8_t", "/uint8_t", "/int16_t", "/uint16_t", "/int32_t", "/uint32_t", "/int64_t", "/uint64_t", "/float", "/double" };
    if (i < 10) return num(names[i]);
    switch (i) { case 10: return gen::E4(); case 11: return opaque(5); case 12: return pointer(num("/double")); case 13: return gen::Q(); case 14: return pointer(gen::P()); default: return enumeration("/E0", { { "ONLY", 1 } }); }
}
MC_BODY("C19", "chain")
{
    int l = c.choose(16, "leaf"); vector<int> ctx;
    for (int i = 0; i < (c.thorough ? 4 : 3); ++i)
    {
        int k = c.choose(gen::NCTX + 2, "context"); if (i == 0) c.unit();
        if (k == 0) break;
        ctx.push_back(k - 1);
    }
    MT* t = csv_leaf(l);
    for (int k : ctx) { t = k == gen::NCTX ? pointer(t) : gen::context(k, t); if (!t || t->has_container || t->n_leaves > 100) throw mc::Prune(); }
    csvcheck(c, t, c.choose(2, "pattern"));
}
MC_BODY("C19", "flat")
{
    MT* t = gen::flat(c, c.thorough ? 4 : 3, true);
    csvcheck(c, t, c.choose(3, "pattern"));
}
MC_BODY("C19", "values")
{
    int l = c.choose(11, "leaf"), p = c.choose(c.thorough ? 256 : 64, "pattern"); c.unit();
    csvcheck(c, csv_leaf(l), p);
}
MC_BODY("C19", "bytes")
{
    int b = c.choose(256, "byte"), s = c.choose(2, "signed"); c.unit();
    MT* t = compound({ num(s ? "/int8_t" : "/uint8_t"), num("/int32_t") }, NATURAL);
    Mem a(t, 0); a.p[0] = b; a.p[4] = 7;
    for (int numeric = 0; numeric < 2; ++numeric)
    {
        ostringstream o; o << csv(*t->real, a.p, "::", numeric);
        string want = (numeric ? to_string(s ? int(int8_t(b)) : b) : string(1, char(b))) + "::7";
        MC_CHECK(o.str() == want, "byte", mc::fmt("byte %d shown as '%s'", b, o.str().c_str()));
        c.step();
    }
    c.state(b * 2 + s);
}
// enum values that have no symbol are shown as numbers
MC_BODY("C19", "enums")
{
    int v = c.choose(20, "value") - 10, k = c.choose(3, "enum"); c.unit();
    MT* t = k == 0 ? gen::E4() : k == 1 ? csv_leaf(15) : enumeration("/E5", { { "X", -3 }, { "Y", 0 }, { "Z", 4 } });
    Mem a(t, 0); memcpy(a.p, &v, 4);
    ostringstream o; o << csv(*t->real, a.p);
    MC_CHECK(cell_ok(t, a.p, o.str(), true), "enum", t->expr + mc::fmt(" value %d shown as ", v) + o.str());
    c.step(); c.state(v * 3 + k);
}
