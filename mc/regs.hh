// Bounded family of registries: a compound, an enum or an opaque A, a compound
// B that uses it in several ways, a recursive C, derived types and an alias
#ifndef VERIF_REGS_HH
#define VERIF_REGS_HH
#include "rmodel.hh"
namespace regs
{
    using namespace std;
    using namespace rm;
    using mc::Ctx;
    enum { SINT = Typelib::Numeric::SInt, UINT = Typelib::Numeric::UInt, FLT = Typelib::Numeric::Float };
    struct Names { string A, B, C, T; };
    Names const NAMING[] = { { "/A", "/N/B", "/N/C", "/N/T" }, { "/Z/A", "/N/B", "/C", "/T" }, { "/N/K", "/Z", "/A", "/N/A" } };
    inline vector<Fld> one(string n, string t, size_t off = 0) { return { Fld { n, t, off, {} } }; }
    // definitions of the first type
    enum { NA = 8, NB = 7, NC = 5, ND = 8, NT = 7 };
    inline bool make(RM& m, Names const& n, int a, int b, int cc, int d, int t)
    {
        m = RM(); m.numeric("/i", 4, SINT); m.numeric("/c", 1, UINT);
        switch (a)
        {
            case 0: break;
            case 1: m.compound(n.A, one("x", "/i")); break;
            case 2: m.compound(n.A, { { "x", "/i", 0, {} }, { "y", "/i", 4, {} } }); break;
            case 3: m.compound(n.A, one("x", "/i"), 8); break;
            case 4: m.enumeration(n.A, { { "P", 0 }, { "Q", 1 } }); break;
            case 5: m.opaque(n.A, 4); break;
            case 6: m.enumeration(n.A, { { "P", 0 }, { "Q", 2 } }); break;
            case 7: m.compound(n.A, { { "x", "/i", 0, {} }, { "z", "/c", 4, {} } }, 8); break;
        }
        bool hasA = a != 0;
        if (b && !hasA) return false;
        switch (b)
        {
            case 0: break;
            case 1: m.compound(n.B, one("a", n.A)); break;
            case 2: m.pointer(n.A); m.compound(n.B, one("p", n.A + "*")); break;
            case 3: m.array(n.A, 2); m.compound(n.B, one("r", n.A + "[2]")); break;
            case 4: m.vec(n.A); m.compound(n.B, { { "v", "/std/vector<" + n.A + ">", 0, {} }, { "k", "/i", 24, {} } }, 32); break;
            case 5: m.compound(n.B, one("a", n.A), 48); break;
            case 6: m.pointer(n.A); m.compound(n.B, { { "p", n.A + "*", 0, {} }, { "a", n.A, 8, {} } }); break;
        }
        switch (cc)
        {
            case 0: break;
            case 1: { m.compound(n.C, one("next", n.C + "*")); m.pointer(n.C); break; }
            case 2: { if (!b) return false; m.compound(n.C, { { "next", n.C + "*", 0, {} }, { "b", n.B, 8, {} } }); m.pointer(n.C); break; }
            case 3: { if (!hasA) return false; m.compound(n.C, { { "a", n.A, 16, {} }, { "m", "/std/vector<" + n.C + ">", 24, {} } }); m.vec(n.C); break; }
            case 4: // mutual recursion with another compound
            {
                if (!b) return false;
                m.compound(n.C, { { "o", n.C + "2*", 0, {} }, { "b", n.B, 8, {} } });
                m.compound(n.C + "2", { { "c", n.C + "*", 0, {} }, { "x", "/i", 8, {} } });
                m.pointer(n.C); m.pointer(n.C + "2"); break;
            }
        }
        if (d && !hasA) return false;
        switch (d)
        {
            case 0: break;
            case 1: m.pointer(n.A); break;
            case 2: m.array(m.pointer(n.A), 2); break;
            case 3: m.vec(n.A); break;
            case 4: m.vec(m.vec(n.A)); break;
            case 5: m.pointer(m.array(n.A, 3)); break;
            case 6: m.array(m.array(n.A, 3), 2); break;
            case 7: m.vec(m.array(n.A, 2)); break;
        }
        switch (t)
        {
            case 0: break;
            case 1: if (!hasA) return false; m.alias(n.A, n.T); break;
            case 2: if (!b) return false; m.alias(n.B, n.T); break;
            case 3: if (!hasA) return false; m.pointer(n.A); m.alias(n.A + "*", n.T); break;
            case 5: m.alias("/i", n.T); break;
            case 6: if (!hasA) return false; m.alias(n.A, n.T); m.alias(n.T, n.T + "2", true, "al"); break;
            case 4: if (!hasA) return false; m.alias(m.array(n.A, 3), n.T); break;
        }
        return true;
    }
    inline RM pick_registry(Ctx& c, Names const& n, bool unit, int A = NA, int B = NB, int C = NC, int D = ND, int T = NT)
    {
        int a = c.choose(A, "A"), b = c.choose(B, "B"); if (unit) c.unit();
        int k = c.choose(C, "C"), d = c.choose(D, "derived"), t = c.choose(T, "alias");
        RM m; if (!make(m, n, a, b, k, d, t)) throw mc::Prune();
        return m;
    }
    inline Meta mt(string k, string v) { Meta r; r[k].insert(v); return r; }
    inline void decorate(RM& m, int how, string const& who)
    {
        int i = 0;
        for (auto& t : m.types)
        {
            if (t.second.cat == 'v') continue;
            ++i;
            if (how & 1) { t.second.meta["k"].insert(who); if (i % 2) t.second.meta["common"].insert("same"); for (auto& f : t.second.fields) { f.meta["doc"].insert(who + f.name); if (i % 2) f.meta["f"].insert("same"); } }
            if (how & 2) { if (i % 2) t.second.source = who + "src"; }
            if (how & 4) { t.second.source = "src"; }
        }
    }
}
#endif
