// Bounded enumeration of types (every choice is made by the explorer)
#ifndef VERIF_GEN_HH
#define VERIF_GEN_HH
#include "model.hh"
namespace gen
{
    using namespace model;
    inline MT* E4() { return enumeration("/E4", { { "B", 5 }, { "A", -7 }, { "C", 0x01020304 } }); }
    inline MT* P() { return compound({ num("/int32_t"), num("/int8_t") }, NATURAL); }
    inline MT* Q() { return compound({ num("/uint8_t"), num("/double") }, NATURAL); }

    enum { NLEAF = 10 };
    inline MT* leaf(int i)
    {
        switch (i)
        {
            case 0: return num("/int8_t");
            case 1: return num("/int32_t");
            case 2: return str();
            case 3: return P();
            case 4: return Q();
            case 5: return vec(num("/int8_t"));
            case 6: return E4();
            case 7: return num("/uint16_t");
            case 8: return num("/double");
            default: return num("/uint64_t");
        }
    }
    enum { NCTX = 13 };
    // null when the context does not apply
    inline MT* context(int i, MT* x)
    {
        switch (i)
        {
            case 0: return array(x, 2);
            case 1: return x->size ? vec(x) : nullptr;
            case 2: return compound({ num("/int8_t"), x }, NATURAL);
            case 3: return compound({ x, num("/int8_t") }, NATURAL);
            case 4: return compound({ x, str() }, NATURAL);
            case 5: return compound({ str(), x }, NATURAL);
            case 6: return compound({ x, x }, NATURAL);
            case 7: return array(x, 1);
            case 8: return array(x, 3);
            case 9: return compound({ x }, NATURAL);
            case 10: return compound({ x }, TAIL);
            case 11: return compound({ x, num("/int32_t") }, GAPPY);
            default: return array(x, 0);
        }
    }
    // leaf wrapped in up to `depth` contexts
    inline MT* chain(mc::Ctx& c, int depth, int nleaf = NLEAF, int nctx = NCTX)
    {
        int l = c.choose(nleaf, "leaf");
        std::vector<int> ctx;
        for (int i = 0; i < depth; ++i)
        {
            int k = c.choose(nctx + 1, "context");
            if (i == 0) c.unit();
            if (k == 0) break;
            ctx.push_back(k - 1);
        }
        MT* t = leaf(l);
        for (int k : ctx)
        {
            t = context(k, t);
            if (!t || t->n_leaves > 400 || t->size > 4000) throw mc::Prune();
        }
        return t;
    }
    // a compound of up to n fields
    inline MT* flat(mc::Ctx& c, int maxf, bool with_opaque = false)
    {
        int n = 1 + c.choose(maxf, "fields");
        std::vector<int> f;
        int nl = with_opaque ? 10 : 8;
        for (int i = 0; i < n; ++i) f.push_back(c.choose(nl, "field"));
        Style st = Style(c.choose(4, "style"));
        c.unit();
        std::vector<MT*> ts;
        for (int i : f)
            switch (i)
            {
                case 0: ts.push_back(num("/int8_t")); break;
                case 1: ts.push_back(num("/uint16_t")); break;
                case 2: ts.push_back(num("/int32_t")); break;
                case 3: ts.push_back(str()); break;
                case 4: ts.push_back(vec(P())); break;
                case 5: ts.push_back(array(num("/uint16_t"), 3)); break;
                case 6: ts.push_back(P()); break;
                case 7: ts.push_back(E4()); break;
                case 8: ts.push_back(opaque(5)); break;
                default: ts.push_back(pointer(num("/double"))); break;
            }
        MT* t = compound(ts, st);
        if (!t) throw mc::Prune();
        return t;
    }
    // one sized thing (array or vector) around an element, sizes across the
    // usual thresholds
    struct Sized { MT* t; size_t n; };
    inline Sized sized(mc::Ctx& c, bool thorough)
    {
        std::vector<size_t> ns = { 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513,
            1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 10000, 16384 };
        if (thorough) for (size_t n : { 10, 11, 12, 13, 14, 18, 20, 24, 40, 48, 50, 80, 96, 99, 101, 200, 300, 400, 500, 600, 768, 999, 1001, 1500, 3000, 5000, 32767, 32768, 65535, 65536, 65537, 100000 }) ns.push_back(n);
        Sized r;
        r.n = c.pick(ns, "count");
        int e = c.choose(7, "element"), k = c.choose(5, "shape");
        c.unit();
        MT* el;
        switch (e)
        {
            case 0: el = num("/int8_t"); break;
            case 1: el = num("/uint16_t"); break;
            case 2: el = num("/double"); break;
            case 3: el = P(); break;
            case 4: el = str(); break;
            case 5: el = vec(num("/int32_t")); break;
            default: el = compound({ num("/int8_t"), str() }, NATURAL); break;
        }
        if (r.n > 5000 && e >= 4 && !thorough) throw mc::Prune();
        switch (k)
        {
            case 0: r.t = vec(el); break;
            case 1: r.t = array(el, r.n); break;
            case 2: r.t = compound({ num("/int8_t"), vec(el), num("/int8_t") }, NATURAL); break;
            case 3: if (r.n > 600) throw mc::Prune(); r.t = vec(array(el, 3)); break;
            default:
                if (e != 0) throw mc::Prune();
                r.t = compound({ str(), num("/int8_t") }, NATURAL); break;
        }
        return r;
    }
    // size function for sized(): outermost container gets n, others small
    inline std::function<size_t(MT*)> outer(size_t n)
    {
        auto first = std::make_shared<bool>(true);
        auto k = std::make_shared<size_t>(0);
        return [=](MT*) -> size_t { if (*first) { *first = false; return n; } return ((*k)++ * 5) % 4; };
    }
}
#endif
