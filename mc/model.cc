#include "model.hh"
#include <cstdlib>
#include <new>
using namespace std;
using namespace Typelib;

namespace model
{
    Universe& universe() { static Universe* u = new Universe; return *u; }

    static MT* fresh(string const& expr, Kind k)
    {
        MT* t = new MT();
        t->kind = k; t->expr = expr; t->size = 0; t->align = 1; t->is_float = t->is_unsigned = false;
        t->elem = nullptr; t->dim = 0; t->real = nullptr;
        t->has_container = t->has_ptr = t->has_opaque = t->has_enum = t->has_zero_dim = false;
        t->n_leaves = 1;
        universe().types[expr] = t;
        return t;
    }
    static MT* cached(string const& expr)
    {
        auto& m = universe().types;
        auto it = m.find(expr);
        return it == m.end() ? nullptr : it->second;
    }
    static void inherit(MT* t, MT const* e)
    {
        t->has_container |= e->has_container; t->has_ptr |= e->has_ptr;
        t->has_opaque |= e->has_opaque; t->has_enum |= e->has_enum; t->has_zero_dim |= e->has_zero_dim;
    }

    MT* num(string const& name)
    {
        if (MT* t = cached(name)) return t;
        MT* t = fresh(name, NUM);
        t->real = universe().reg->get(name);
        Numeric const& n = dynamic_cast<Numeric const&>(*t->real);
        t->size = t->align = n.getSize();
        t->is_float = n.getNumericCategory() == Numeric::Float;
        t->is_unsigned = n.getNumericCategory() == Numeric::UInt;
        return t;
    }
    MT* enumeration(string const& name, vector<pair<string, int>> const& syms, size_t size)
    {
        if (MT* t = cached(name)) return t;
        MT* t = fresh(name, ENUM);
        Enum* e = new Enum(name);
        map<string, int> sorted;
        for (auto& s : syms) { e->add(s.first, s.second); sorted[s.first] = s.second; }
        for (auto& s : sorted) t->symbols.push_back(s.second);
        e->setSize(size);
        universe().reg->add(e);
        t->real = e; t->size = t->align = size; t->has_enum = true;
        return t;
    }
    MT* nul()
    {
        if (MT* t = cached("/nil")) return t;
        MT* t = fresh("/nil", NUL);
        t->real = universe().reg->get("/nil"); t->size = 0;
        return t;
    }
    MT* opaque(size_t size)
    {
        string name = "/opq" + to_string(size);
        if (MT* t = cached(name)) return t;
        MT* t = fresh(name, OPQ);
        OpaqueType* o = new OpaqueType(name, size);
        universe().reg->add(o);
        t->real = o; t->size = size; t->has_opaque = true;
        return t;
    }
    MT* pointer(MT* to)
    {
        string expr = "ptr(" + to->expr + ")";
        if (MT* t = cached(expr)) return t;
        MT* t = fresh(expr, PTR);
        t->elem = to; t->size = t->align = sizeof(void*); t->has_ptr = true;
        t->real = universe().reg->build(to->real->getName() + "*");
        return t;
    }
    MT* array(MT* of, size_t dim)
    {
        string expr = "arr" + to_string(dim) + "(" + of->expr + ")";
        if (MT* t = cached(expr)) return t;
        MT* t = fresh(expr, ARR);
        inherit(t, of);
        t->elem = of; t->dim = dim; t->size = of->size * dim; t->align = of->align;
        t->n_leaves = of->n_leaves * dim;
        if (dim == 0) t->has_zero_dim = true;
        Array* a = new Array(*of->real, dim);
        if (Type const* known = universe().reg->get(a->getName())) { delete a; t->real = known; }
        else { universe().reg->add(a); t->real = a; }
        return t;
    }
    MT* vec(MT* of)
    {
        string expr = "vec(" + of->expr + ")";
        if (MT* t = cached(expr)) return t;
        MT* t = fresh(expr, VEC);
        inherit(t, of);
        t->elem = of; t->size = sizeof(RawVec); t->align = alignof(RawVec);
        t->has_container = true;
        t->real = &Container::createContainer(*universe().reg, "/std/vector", *of->real);
        return t;
    }
    MT* str()
    {
        if (MT* t = cached("str")) return t;
        MT* t = fresh("str", STR);
        t->elem = num("/int8_t"); t->size = sizeof(string); t->align = alignof(string);
        t->has_container = true;
        t->real = universe().reg->get("/std/string");
        return t;
    }
    MT* compound(vector<pair<MT*, size_t>> const& fields, size_t size, string const& tag)
    {
        string expr = "{" + tag;
        for (auto& f : fields) expr += f.first->expr + "@" + to_string(f.second) + ";";
        expr += "}" + to_string(size);
        if (MT* t = cached(expr)) return t;
        MT* t = fresh(expr, COMP);
        t->n_leaves = 0;
        char name[32]; snprintf(name, sizeof name, "/S%016llx", (unsigned long long)mc::hash(expr));
        Compound* c = new Compound(name);
        int i = 0;
        for (auto& f : fields)
        {
            MField mf; mf.name = "f" + to_string(i++); mf.type = f.first; mf.offset = f.second;
            t->fields.push_back(mf);
            c->addField(mf.name, *f.first->real, mf.offset);
            inherit(t, f.first);
            t->align = max(t->align, f.first->align);
            t->n_leaves += f.first->n_leaves;
        }
        c->setSize(size);
        t->size = size;
        universe().reg->add(c);
        t->real = c;
        return t;
    }
    static size_t up(size_t v, size_t a) { return (v + a - 1) / a * a; }
    MT* compound(vector<MT*> const& fields, Style style)
    {
        vector<pair<MT*, size_t>> f;
        size_t off = style == GAPPY ? 8 : 0, align = 1;
        for (MT* m : fields)
        {
            size_t a = m->align;
            align = max(align, a);
            if (style == PACKED)
            {
                if (m->has_container && off % 8) return nullptr;
            }
            else off = up(off, a);
            f.push_back(make_pair(m, off));
            off += m->size;
            if (style == GAPPY) off += 3;
        }
        if (style == PACKED)
        {
            // same thing as natural? then it is a duplicate
            size_t noff = 0;
            bool same = true;
            for (auto& x : f) { noff = up(noff, x.first->align); if (noff != x.second) same = false; noff += x.first->size; }
            if (same && up(noff, align) == off) return nullptr;
        }
        else off = up(off, align);
        if (style == TAIL) off += 8;
        if (off == 0) off = 1;
        return compound(f, off);
    }

    // ------------------------------------------------------------ memory
    static RawVec* V(uint8_t* p) { return reinterpret_cast<RawVec*>(p); }
    static RawVec const* V(uint8_t const* p) { return reinterpret_cast<RawVec const*>(p); }
    static string* S(uint8_t* p) { return reinterpret_cast<string*>(p); }
    static string const* S(uint8_t const* p) { return reinterpret_cast<string const*>(p); }

    void construct(MT* t, uint8_t* p)
    {
        if (!t->has_container) return;
        switch (t->kind)
        {
            case VEC: new (p) RawVec(); break;
            case STR: new (p) string(); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) construct(t->elem, p + i * t->elem->size); break;
            case COMP: for (auto& f : t->fields) construct(f.type, p + f.offset); break;
            default: break;
        }
    }
    void destruct(MT* t, uint8_t* p)
    {
        if (!t->has_container) return;
        switch (t->kind)
        {
            case VEC:
                if (t->elem->has_container)
                    for (size_t i = 0; i + t->elem->size <= V(p)->size(); i += t->elem->size) destruct(t->elem, V(p)->data() + i);
                V(p)->~RawVec(); break;
            case STR: S(p)->~basic_string(); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) destruct(t->elem, p + i * t->elem->size); break;
            case COMP: for (auto& f : t->fields) destruct(f.type, p + f.offset); break;
            default: break;
        }
    }
    uint8_t padding = 0x5A;
    void write(MT* t, MV const& v, uint8_t* p)
    {
        switch (t->kind)
        {
            case NUM: case ENUM: case PTR: case OPQ: memcpy(p, v.bytes.data(), t->size); break;
            case NUL: break;
            case STR: *S(p) = v.bytes; break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) write(t->elem, v.kids[i], p + i * t->elem->size); break;
            case COMP: for (size_t i = 0; i < t->fields.size(); ++i) write(t->fields[i].type, v.kids[i], p + t->fields[i].offset); break;
            case VEC:
            {
                size_t es = t->elem->size;
                for (size_t i = 0; i + es <= V(p)->size(); i += es) destruct(t->elem, V(p)->data() + i);
                V(p)->assign(v.kids.size() * es, padding);
                for (size_t i = 0; i < v.kids.size(); ++i)
                {
                    construct(t->elem, V(p)->data() + i * es);
                    write(t->elem, v.kids[i], V(p)->data() + i * es);
                }
                break;
            }
        }
    }
    MV read(MT* t, uint8_t const* p)
    {
        MV r;
        switch (t->kind)
        {
            case NUM: case ENUM: case PTR: case OPQ: r.bytes.assign(reinterpret_cast<char const*>(p), t->size); break;
            case NUL: break;
            case STR: r.bytes = *S(p); break;
            case ARR: r.kids.reserve(t->dim); for (size_t i = 0; i < t->dim; ++i) r.kids.push_back(read(t->elem, p + i * t->elem->size)); break;
            case COMP: for (auto& f : t->fields) r.kids.push_back(read(f.type, p + f.offset)); break;
            case VEC:
            {
                size_t es = t->elem->size;
                if (V(p)->size() % es) mc::fail("vector-size", "vector of " + t->elem->expr + " holds " + to_string(V(p)->size()) + " bytes");
                size_t n = V(p)->size() / es;
                r.kids.reserve(n);
                for (size_t i = 0; i < n; ++i) r.kids.push_back(read(t->elem, V(p)->data() + i * es));
                break;
            }
        }
        return r;
    }
    unsigned touch(MT* t, uint8_t const* p)
    {
        unsigned r = 0;
        auto plain = [&](uint8_t const* q, size_t n) { for (size_t i = 0; i < n; i += (n > 4096 ? 997 : 1)) r += q[i]; if (n) r += q[n - 1]; };
        switch (t->kind)
        {
            case NUM: case ENUM: case PTR: case OPQ: plain(p, t->size); break;
            case NUL: break;
            case STR: plain(reinterpret_cast<uint8_t const*>(S(p)->data()), S(p)->size() + 1); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) r += touch(t->elem, p + i * t->elem->size); break;
            case COMP: for (auto& f : t->fields) r += touch(f.type, p + f.offset); break;
            case VEC:
                if (!t->elem->has_container) plain(V(p)->data(), V(p)->size());
                else for (size_t i = 0; i + t->elem->size <= V(p)->size(); i += t->elem->size) r += touch(t->elem, V(p)->data() + i);
        }
        return r;
    }
    void mask(MT* t, vector<uint8_t>& out, size_t at)
    {
        if (out.size() < at + t->size) out.resize(at + t->size, 0);
        switch (t->kind)
        {
            case NUM: case ENUM: case PTR: case OPQ: fill_n(out.begin() + at, t->size, 1); break;
            case NUL: break;
            case STR: case VEC: fill_n(out.begin() + at, t->size, 2); break;
            case ARR: for (size_t i = 0; i < t->dim; ++i) mask(t->elem, out, at + i * t->elem->size); break;
            case COMP: for (auto& f : t->fields) mask(f.type, out, at + f.offset); break;
        }
    }

    // ------------------------------------------------------------ wire format
    static void u64(Wire& w, uint64_t v) { for (int i = 0; i < 8; ++i) w.push_back((v >> (8 * i)) & 0xff); }
    static void enc(MT* t, MV const& v, bool merged, Wire& w)
    {
        switch (t->kind)
        {
            case NUM: case ENUM: case PTR: for (unsigned char c : v.bytes) w.push_back(c); break;
            case OPQ: if (merged) for (size_t i = 0; i < t->size; ++i) w.push_back(-1); break;
            case NUL: break;
            case STR: u64(w, v.bytes.size()); for (unsigned char c : v.bytes) w.push_back(c); break;
            case VEC: u64(w, v.kids.size()); for (auto& k : v.kids) enc(t->elem, k, merged, w); break;
            case ARR: for (auto& k : v.kids) enc(t->elem, k, merged, w); break;
            case COMP:
            {
                size_t at = 0;
                for (size_t i = 0; i < t->fields.size(); ++i)
                {
                    auto& f = t->fields[i];
                    if (merged) for (; at < f.offset; ++at) w.push_back(-1);
                    enc(f.type, v.kids[i], merged, w);
                    at = f.offset + f.type->size;
                }
                if (merged) for (; at < t->size; ++at) w.push_back(-1);
                break;
            }
        }
    }
    static void runs(MT* t, vector<pair<bool, size_t>>& out)
    {
        if (t->kind == OPQ) out.push_back(make_pair(true, t->size));
        else if (t->kind == COMP)
        {
            size_t at = 0;
            for (auto& f : t->fields)
            {
                if (f.offset > at) out.push_back(make_pair(true, f.offset - at));
                runs(f.type, out);
                at = f.offset + f.type->size;
            }
            if (t->size > at) out.push_back(make_pair(true, t->size - at));
        }
        else if (t->size) out.push_back(make_pair(false, t->size));
    }
    size_t trailing(MT* t)
    {
        vector<pair<bool, size_t>> r; runs(t, r);
        size_t n = 0;
        while (!r.empty() && r.back().first) { n += r.back().second; r.pop_back(); }
        return n;
    }
    Wire encode(MT* t, MV const& v, bool merged, bool drop)
    {
        Wire w; enc(t, v, merged, w);
        if (merged && drop) w.resize(w.size() - trailing(t));
        return w;
    }
    bool matches(Wire const& w, vector<uint8_t> const& got, string* why)
    {
        size_t i = 0;
        for (; i < w.size() && i < got.size(); ++i)
            if (w[i] >= 0 && w[i] != got[i])
            {
                if (why) *why = mc::fmt("byte %zu is 0x%02x, expected 0x%02x", i, got[i], w[i]);
                return false;
            }
        if (w.size() != got.size())
        {
            if (why) *why = mc::fmt("%zu bytes, expected %zu", got.size(), w.size());
            return false;
        }
        return true;
    }
    namespace
    {
        struct Dec
        {
            vector<uint8_t> const& in; size_t at; size_t budget; bool bad;
            bool take(void* p, size_t n)
            {
                if (bad || n > in.size() - at) { bad = true; return false; }
                if (p) memcpy(p, in.data() + at, n);
                at += n; return true;
            }
            void go(MT* t, MV& v)
            {
                if (bad) return;
                switch (t->kind)
                {
                    case NUM: case ENUM: case PTR:
                        v.bytes.resize(t->size); take(&v.bytes[0], t->size); break;
                    case OPQ: v.bytes.assign(t->size, 0); take(nullptr, t->size); break;
                    case NUL: break;
                    case STR:
                    {
                        uint64_t n; if (!take(&n, 8)) return;
                        if (n > in.size() - at) { bad = true; return; }
                        v.bytes.assign(reinterpret_cast<char const*>(in.data()) + at, n); at += n; break;
                    }
                    case VEC:
                    {
                        uint64_t n; if (!take(&n, 8)) return;
                        if (n > in.size() - at) { bad = true; return; } // every element takes at least a byte
                        for (uint64_t i = 0; i < n && !bad; ++i) { v.kids.push_back(MV()); go(t->elem, v.kids.back()); }
                        break;
                    }
                    case ARR: v.kids.resize(t->dim); for (auto& k : v.kids) go(t->elem, k); break;
                    case COMP:
                    {
                        size_t p = 0;
                        v.kids.resize(t->fields.size());
                        for (size_t i = 0; i < t->fields.size() && !bad; ++i)
                        {
                            auto& f = t->fields[i];
                            take(nullptr, f.offset - p);
                            go(f.type, v.kids[i]);
                            p = f.offset + f.type->size;
                        }
                        take(nullptr, t->size - p);
                        break;
                    }
                }
            }
        };
    }
    bool decode(MT* t, vector<uint8_t> const& in, MV& out, bool& too_long)
    {
        // the stream may or may not include the trailing padding
        too_long = false;
        size_t tr = trailing(t);
        vector<uint8_t> padded(in); padded.insert(padded.end(), tr, 0);
        Dec d = { padded, 0, 0, false };
        MV v; d.go(t, v);
        if (d.bad) return false;
        if (d.at == padded.size() || d.at == in.size()) { out = v; return true; }
        too_long = true;
        return false;
    }
    vector<size_t> count_positions(MT* t, MV const& v, vector<size_t>* elem_sizes)
    {
        // re-run the encoder, recording where the counts are
        struct R
        {
            vector<size_t> pos, es; size_t at;
            void go(MT* t, MV const& v)
            {
                switch (t->kind)
                {
                    case NUM: case ENUM: case PTR: case OPQ: at += t->size; break;
                    case NUL: break;
                    case STR: pos.push_back(at); es.push_back(1); at += 8 + v.bytes.size(); break;
                    case VEC: pos.push_back(at); es.push_back(t->elem->size); at += 8; for (auto& k : v.kids) go(t->elem, k); break;
                    case ARR: for (auto& k : v.kids) go(t->elem, k); break;
                    case COMP:
                    {
                        size_t p = 0;
                        for (size_t i = 0; i < t->fields.size(); ++i)
                        {
                            at += t->fields[i].offset - p;
                            go(t->fields[i].type, v.kids[i]);
                            p = t->fields[i].offset + t->fields[i].type->size;
                        }
                        at += t->size - p;
                    }
                }
            }
        } r;
        r.at = 0; r.go(t, v);
        if (elem_sizes) *elem_sizes = r.es;
        return r.pos;
    }

    string show(MT* t, MV const& v)
    {
        string s;
        auto hex = [](string const& b) { string o; char x[4]; for (unsigned char c : b) { snprintf(x, 4, "%02x", c); o += x; if (o.size() > 64) { o += ".."; break; } } return o; };
        switch (t->kind)
        {
            case NUL: return "nil";
            case NUM: case ENUM: case PTR: case OPQ: return hex(v.bytes);
            case STR: return "'" + hex(v.bytes) + "'";
            default:
                s = t->kind == COMP ? "{" : "[";
                for (size_t i = 0; i < v.kids.size(); ++i)
                {
                    if (i) s += " ";
                    if (s.size() > 300) { s += mc::fmt("...(%zu)", v.kids.size()); break; }
                    s += show(t->kind == COMP ? t->fields[i].type : t->elem, v.kids[i]);
                }
                return s + (t->kind == COMP ? "}" : "]");
        }
    }

    // ------------------------------------------------------------ contents
    MV Filler::fill(MT* t)
    {
        MV r;
        auto byte = [&]() -> char
        {
            unsigned n = counter++;
            switch (pattern)
            {
                case 0: return char(n * 37 + 11);          // all different
                case 1: return char(n % 3 == 0 ? 0x00 : n % 3 == 1 ? 0xFF : 0x80 | (n & 0x7f));
                case 2: return 0;
                default: return char(n * 101 + pattern * 59 + 3);
            }
        };
        switch (t->kind)
        {
            case NUM: case OPQ:
                for (size_t i = 0; i < t->size; ++i) r.bytes += byte();
                break;
            case PTR: { uintptr_t p = 0x1000 + 16 * counter++; r.bytes.assign(reinterpret_cast<char*>(&p), t->size); break; }
            case ENUM:
            {
                uint64_t val = t->symbols.empty() ? 0 : int64_t(t->symbols[(counter++ + pattern) % t->symbols.size()]);
                r.bytes.assign(reinterpret_cast<char*>(&val), t->size);
                break;
            }
            case NUL: break;
            case STR: { size_t n = sz(t); for (size_t i = 0; i < n; ++i) r.bytes += byte(); break; }
            case VEC: { size_t n = sz(t); r.kids.reserve(n); for (size_t i = 0; i < n; ++i) r.kids.push_back(fill(t->elem)); break; }
            case ARR: r.kids.reserve(t->dim); for (size_t i = 0; i < t->dim; ++i) r.kids.push_back(fill(t->elem)); break;
            case COMP: for (auto& f : t->fields) r.kids.push_back(fill(f.type)); break;
        }
        return r;
    }
    MV fill(MT* t, unsigned pattern, function<size_t(MT*)> sz)
    {
        Filler f; f.pattern = pattern; f.counter = 0; f.sz = sz;
        return f.fill(t);
    }
    function<size_t(MT*)> chosen_sizes(mc::Ctx& c, vector<size_t> const& sizes, int free_sites)
    {
        auto n = make_shared<int>(0);
        return [&c, sizes, free_sites, n](MT*) -> size_t
        {
            int i = (*n)++;
            if (i < free_sites) return c.pick(sizes, "container size");
            return sizes[(i * 2 + 1) % sizes.size()];
        };
    }
    function<size_t(MT*)> fixed_size(size_t n) { return [n](MT*) { return n; }; }

    Mem::Mem(MT* t, uint8_t f, bool constructed) : t(t), live(constructed), pad(f)
    {
        // exact size: the redzone starts right after the value
        p = static_cast<uint8_t*>(malloc(t->size ? t->size : 1));
        memset(p, f, t->size);
        if (constructed) construct(t, p);
    }
    Mem::~Mem()
    {
        // while a failure is being reported, the contents may be corrupt
        if (std::uncaught_exception()) return;
        if (live) destruct(t, p);
        ::free(p);
    }
}
