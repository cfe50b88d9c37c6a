// The value spaces shared by the harnesses
#ifndef VERIF_CASES_HH
#define VERIF_CASES_HH
#include "gen.hh"
namespace cases
{
    using namespace model;
    typedef std::vector<uint8_t> Bytes;
    inline std::string hexs(Bytes const& b)
    {
        std::string o; char x[4];
        for (uint8_t c : b) { snprintf(x, 4, "%02x", c); o += x; if (o.size() > 120) { o += ".."; break; } }
        return o;
    }
    inline std::string what_of(MT* t, MV const& v) { return "type " + t->expr + " value " + show(t, v); }

    struct Case { MT* t; MV v; };
    inline Case chain_case(mc::Ctx& c, int depth, int nleaf = gen::NLEAF, int nctx = gen::NCTX)
    {
        Case r;
        r.t = gen::chain(c, depth, nleaf, nctx);
        unsigned pattern = r.t->has_container ? 0 : c.choose(2, "pattern");
        r.v = fill(r.t, pattern, chosen_sizes(c, c.thorough ? std::vector<size_t>{ 0, 1, 2, 5 } : std::vector<size_t>{ 0, 1, 2 }, 2));
        return r;
    }
    inline Case flat_case(mc::Ctx& c, int maxf)
    {
        Case r;
        r.t = gen::flat(c, maxf);
        r.v = fill(r.t, c.choose(2, "pattern"), chosen_sizes(c, { 0, 3 }, 2));
        return r;
    }
    inline Case sized_case(mc::Ctx& c)
    {
        Case r;
        gen::Sized s = gen::sized(c, c.thorough);
        r.t = s.t; r.v = fill(r.t, 0, gen::outer(s.n));
        return r;
    }
    inline void describe(mc::Ctx& c, Case const& k)
    {
        c.state(k.t->expr + "|" + show(k.t, k.v));
        c.log("type %s", k.t->expr.c_str());
        c.log("value %s", show(k.t, k.v).c_str());
        if (k.t->has_container) c.count("types with containers");
        if (trailing(k.t)) c.count("types with trailing padding");
    }
    // exactly sized copy on the heap, so that reading past the end is seen
    struct Exact
    {
        uint8_t* p; size_t n;
        Exact(Bytes const& b) : n(b.size()) { p = static_cast<uint8_t*>(malloc(n ? n : 1)); memcpy(p, b.data(), n); }
        Exact(size_t n, uint8_t fill) : n(n) { p = static_cast<uint8_t*>(malloc(n ? n : 1)); memset(p, fill, n); }
        ~Exact() { free(p); }
    };
}
#endif
