// C17 type names and namespaces
#include "mc.hh"
#include <typelib/typename.hh>
#include <typelib/registry.hh>
#include <typelib/typemodel.hh>
#include <typelib/typebuilder.hh>
#include <set>
#include <algorithm>
using namespace std;
using namespace Typelib;
using mc::Ctx;

namespace
{
    // The grammar of type names:
    //   name      := ['/'] component ('/' component)* modifier*      the first '/' is needed in absolute names
    //   component := identifier ['<' argument (',' argument)* '>']
    //   modifier  := '*' | '[' digits ']'
    //   argument  := absolute name | ['-'] digits
    // What is outside of the lax grammar has to be refused. Between the two
    // (modifiers in the middle, empty arguments, an array of nothing),
    // either answer will do.
    struct Parser
    {
        string const& s; size_t p; bool lax;
        bool at(char ch) { return p < s.size() && s[p] == ch; }
        static bool word(char ch) { return ch == '_' || ch == ' ' || isalnum(ch); }
        bool ident() { size_t b = p; while (p < s.size() && word(s[p])) ++p; return p > b; }
        bool digits() { size_t b = p; while (p < s.size() && isdigit(s[p])) ++p; return p > b; }
        void integers() { while (p < s.size() && (isdigit(s[p]) || s[p] == '-')) ++p; }
        bool end_of_arg() { return p == s.size() || s[p] == ',' || s[p] == '>'; }
        bool arg()
        {
            size_t b = p; bool integer = false;
            if (lax) { integers(); integer = true; }
            else { if (at('-')) ++p; integer = digits(); }
            if (integer && end_of_arg()) return true;
            bool cont = lax && (at('<') || at('/') || at('*') || at('['));
            p = b;
            return name(true, cont);
        }
        bool mods()
        {
            for (;;)
                if (at('*')) ++p;
                else if (at('[')) { ++p; if (!digits() || !at(']')) return false; ++p; }
                else return true;
        }
        bool name(bool absolute, bool integer = false)
        {
            if (integer) integers();
            else if (at('/')) ++p;
            else if (absolute && !(lax && at('['))) return false;
            for (;;)
            {
                bool id = integer || ident(); integer = false;
                if (!id && !(lax && at('['))) return false;
                if (lax && !mods()) return false;
                if (at('<'))
                {
                    do { ++p; if (!arg()) return false; } while (at(','));
                    if (!at('>')) return false;
                    ++p;
                    if (lax && !mods()) return false;
                }
                if (!at('/')) return mods();
                ++p;
            }
        }
    };
    bool grammar(string const& s, bool absolute, bool lax) { Parser p = { s, 0, lax }; return p.name(absolute) && p.p == s.size(); }

    vector<string> split(string const& s)
    {
        vector<string> r; int level = 0; string cur;
        for (size_t i = s[0] == '/'; i < s.size(); ++i)
        {
            if (s[i] == '<') ++level;
            if (s[i] == '>') --level;
            if (s[i] == '/' && !level) { r.push_back(cur); cur.clear(); }
            else cur += s[i];
        }
        r.push_back(cur); return r;
    }
    string join(vector<string> const& v, size_t n) { string r = "/"; for (size_t i = 0; i < n; ++i) r += v[i] + "/"; return r; }

    void check_validity(Ctx& c, string const& s)
    {
        for (int absolute = 0; absolute < 2; ++absolute)
        {
            bool got = isValidTypename(s, absolute), need = grammar(s, absolute, false), may = grammar(s, absolute, true);
            c.step();
            if (need) c.count("valid names");
            if (need && !got) mc::fail("refused " + s, "isValidTypename refuses the valid name '" + s + "'");
            if (got && !may) mc::fail("accepted " + s, mc::fmt("isValidTypename accepts '%s' as %s name", s.c_str(), absolute ? "an absolute" : "a relative or absolute"));
        }
    }
    // Splitting and namespaces of a valid name
    void check_parts(Ctx& c, string const& s)
    {
        vector<string> want = split(s);
        list<string> got = splitTypename(s);
        c.step(4);
        MC_CHECK(vector<string>(got.begin(), got.end()) == want, "split " + s, "splitTypename gives other components for " + s);
        string ns = join(want, want.size() - 1);
        MC_CHECK(getTypename(s) == want.back(), "typename " + s, "getTypename(" + s + ") is " + getTypename(s));
        MC_CHECK(getNamespace(s) == ns, "namespace " + s, "getNamespace(" + s + ") is " + getNamespace(s));
        if (s[0] != '/') return;
        MC_CHECK(isAbsoluteName(s) && !isAbsoluteName(s.substr(1)), "absolute " + s, "isAbsoluteName is wrong about " + s);
        MC_CHECK(getNamespace(s) + getTypename(s) == s, "recompose " + s, "namespace and base name do not give back " + s);
        for (size_t i = 0; i <= want.size(); ++i)
            for (int slash = 0; slash < 2; ++slash)
            {
                string n = join(want, i);
                if (i == want.size() && slash) continue; // the name followed by a slash
                if (!slash && i) n.erase(n.size() - 1);
                bool in = i < want.size();
                c.step(2);
                MC_CHECK(isInNamespace(s, n, true) == in, "in " + s + " " + n, mc::fmt("isInNamespace(%s, %s, true) is %d", s.c_str(), n.c_str(), !in));
                bool direct = i + 1 == want.size();
                MC_CHECK(isInNamespace(s, n, false) == direct, "directly in " + s + " " + n, mc::fmt("isInNamespace(%s, %s, false) is %d", s.c_str(), n.c_str(), !direct));
                MC_CHECK(getNormalizedNamespace(n) == join(want, i), "normalized " + n, "getNormalizedNamespace(" + n + ") is " + getNormalizedNamespace(n));
                if (!in) continue;
                string rel = s.substr(join(want, i).size());
                MC_CHECK(getRelativeName(s, n) == rel, "relative " + s + " " + n, mc::fmt("getRelativeName(%s, %s) is %s", s.c_str(), n.c_str(), getRelativeName(s, n).c_str()));
            }
        // the beginning of a component is not a namespace
        for (size_t i = 1; i < s.size(); ++i)
        {
            string n = s.substr(0, i); bool ok = count(n.begin(), n.end(), '<') != count(n.begin(), n.end(), '>');
            for (size_t k = 0; k < want.size(); ++k) if (n == join(want, k) || n + "/" == join(want, k)) ok = true;
            if (!ok) MC_CHECK(!isInNamespace(s, n, true) && !isInNamespace(s, n, false), "partial " + s + " " + n, "isInNamespace(" + s + ") says yes for " + n);
        }
    }
    template<typename F> void all_strings(string const& prefix, string const& alphabet, int len, F f)
    {
        vector<int> d(len, 0); string s = prefix + string(len, alphabet[0]);
        for (;;)
        {
            f(s);
            int i = 0;
            while (i < len && ++d[i] == (int)alphabet.size()) { d[i] = 0; s[prefix.size() + i] = alphabet[0]; ++i; }
            if (i == len) break;
            s[prefix.size() + i] = alphabet[d[i]];
        }
    }
    vector<string> const& components()
    {
        static vector<string> r;
        if (r.empty())
        {
            r = { "A", "B2", "a_b", "unsigned int" };
            for (auto a : { "/A", "-1", "12", "/A/B", "/A,/B", "3,/B*", "/A[2]", "/X</A>", "/X</A/B,2>*", "/N/X</A,/Y<-3>>[4],/B" })
                r.push_back("vector<" + string(a) + ">");
        }
        return r;
    }
    vector<string> const MODIFIERS = { "", "*", "[3]", "**", "[3]*", "*[10]", "[2][3]", "[3]*[2]" };
    string generate(Ctx& c, int maxc)
    {
        int n = 1 + c.choose(maxc, "components"); string s = c.choose(2, "relative") ? "" : "/";
        for (int i = 0; i < n; ++i) { if (i) s += "/"; s += c.pick(components(), "component"); if (!i) c.unit(); }
        return s + c.pick(MODIFIERS, "modifiers");
    }
}

// Every string over several alphabets
MC_BODY("C17", "strings")
{
    struct { char const* alphabet; int quick, thorough; } const A[] = {
        { "/A<>,*[]1", 7, 8 }, { "/A<>,*[]1- _.", 5, 6 }, { "/A<>,", 9, 10 }, { "/A[]1*", 8, 9 }, { "/A<>1*", 8, 9 }, { "/A<-1>,", 7, 9 } };
    auto const& a = A[c.choose(6, "alphabet")];
    string al = a.alphabet;
    int len = 1 + c.choose(c.thorough ? a.thorough : a.quick, "length");
    string prefix;
    for (int i = 0; i < 2 && i < len; ++i) prefix += al[c.choose(al.size(), "character")];
    c.unit();
    all_strings(prefix, al, len - prefix.size(), [&](string const& s) {
        check_validity(c, s);
        if (grammar(s, false, false)) { check_parts(c, s); c.state(mc::hash(s)); }
    });
}
// Every name out of the grammar up to a depth, and everything that is one character away from it
MC_BODY("C17", "grammar")
{
    string s = generate(c, 3);
    c.state(mc::hash(s));
    if (!grammar(s, s[0] == '/', false)) mc::fail("reference", "the reference does not recognize " + s);
    check_validity(c, s);
    check_parts(c, s);
    if (s.size() > (c.thorough ? 80u : 45u)) return;
    string const al = "/A<>,*[]1-.";
    for (size_t i = 0; i <= s.size(); ++i)
    {
        if (i < s.size()) { string m = s; m.erase(i, 1); if (!m.empty()) check_validity(c, m); }
        for (char ch : al)
        {
            string m = s; m.insert(i, 1, ch); check_validity(c, m);
            if (i < s.size()) { m = s; m[i] = ch; check_validity(c, m); }
        }
    }
}
// Namespaces
MC_BODY("C17", "namespaces")
{
    string const al = "/A1_ <.*";
    int len = 1 + c.choose(c.thorough ? 7 : 6, "length"); string prefix;
    for (int i = 0; i < 2 && i < len; ++i) prefix += al[c.choose(al.size(), "character")];
    c.unit();
    all_strings(prefix, al, len - prefix.size(), [&](string const& s) {
        bool legal = true, wordy = true, empty = false;
        vector<string> comps; string cur;
        for (char ch : s.substr(s[0] == '/')) { if (ch == '/') { comps.push_back(cur); cur.clear(); } else cur += ch; }
        if (!cur.empty()) comps.push_back(cur);
        for (auto& k : comps) { if (k.empty()) empty = true; for (char ch : k) { if (!Parser::word(ch)) wordy = false; if (!Parser::word(ch) && ch != '<') legal = false; } }
        c.step(2);
        for (int absolute = 0; absolute < 2; ++absolute)
        {
            bool got = isValidNamespace(s, absolute);
            if (!legal || (absolute && s[0] != '/')) { if (got) mc::fail("namespace accepted " + s, "isValidNamespace accepts '" + s + "'"); }
            else if (wordy && !empty) { c.count("valid namespaces"); if (!got) mc::fail("namespace refused " + s, "isValidNamespace refuses '" + s + "'"); }
        }
    });
    for (int absolute = 0; absolute < 2; ++absolute)
        MC_CHECK(!isValidTypename("", absolute) && !isValidNamespace("", absolute), "empty", "the empty name is accepted");
    MC_CHECK(getNormalizedNamespace("") == "/" && getNormalizedNamespace("/") == "/", "root", "the normalized root namespace is not /");
}
// From each namespace, the path to a type leads to this type and not to another one
MC_BODY("C17", "minimal path")
{
    // the names of some components are substrings of others
    vector<string> const NAMES[] = { { "A", "B", "C" }, { "A", "AB", "B" }, { "A", "vector</A/B>", "B" } };
    vector<string> const& names = NAMES[c.choose(3, "names")];
    int maxd = c.thorough ? 5 : 4;
    vector<string> t, ns;
    for (int d = c.choose(maxd + 1, "type depth"); d > 0; --d) t.push_back(c.pick(names, "component"));
    c.unit();
    vector<vector<string> > all(1);
    for (size_t i = 0; i < all.size(); ++i)
        if ((int)all[i].size() < maxd) for (auto& n : names) { auto v = all[i]; v.push_back(n); all.push_back(v); }
    string want = join(t, t.size());
    for (auto& ns : all)
        for (int slash = 0; slash < 2; ++slash)
            for (string base : { "T", "A" })
            {
                string n = join(ns, ns.size());
                if (!slash) { if (ns.empty()) continue; n.erase(n.size() - 1); }
                string got = getMinimalPathTo(want + base, n); c.step(); c.state(mc::hash(want + base + " " + n));
                string const key = "path to " + want + base + " from " + n;
                if (!got.empty() && got[0] == '/') { MC_CHECK(got == want, key, "getMinimalPathTo gives " + got + " for the " + key); c.count("absolute paths"); continue; }
                c.count("relative paths");
                MC_CHECK(got.empty() || got[got.size() - 1] == '/', key, "getMinimalPathTo gives " + got + " for the " + key);
                set<string> known;
                for (size_t i = 0; i <= t.size(); ++i) known.insert(join(t, i));
                for (size_t i = 0; i <= ns.size(); ++i) known.insert(join(ns, i));
                // innermost namespace first
                string found;
                if (got.empty()) { for (int i = ns.size(); i >= 0 && found.empty(); --i) if (join(ns, i) == want) found = want; }
                else
                {
                    string first = split(got)[0] + "/";
                    for (int i = ns.size(); i >= 0 && found.empty(); --i) if (known.count(join(ns, i) + first)) found = join(ns, i) + got;
                }
                MC_CHECK(found == want, key, "the " + key + " is given as '" + got + "', which leads to " + found);
                if (got.empty()) MC_CHECK(ns == t, key, "empty path to a type of another namespace");
            }
}
// A registry takes exactly the types with valid absolute names
MC_BODY("C17", "registry")
{
    string const al = "/A<>,*[]1 .";
    int len = 1 + c.choose(c.thorough ? 5 : 4, "length"); string prefix;
    for (int i = 0; i < 2 && i < len; ++i) prefix += al[c.choose(al.size(), "character")];
    c.unit();
    all_strings(prefix, al, len - prefix.size(), [&](string const& s) {
        Registry r;
        bool need = grammar(s, true, false), may = grammar(s, true, true), added = true, aliased = true;
        Type* t = new Numeric(s, 4, Numeric::SInt);
        try { r.add(t, true, ""); } catch (BadName const&) { added = false; delete t; }
        c.step();
        MC_CHECK(added || !need, "add refused " + s, "add() refuses a type named " + s);
        MC_CHECK(!added || may, "add accepted " + s, "add() takes a type named " + s);
        MC_CHECK(r.size() == size_t(added) && r.has(s, false) == added, "added " + s, "wrong contents after adding " + s);
        Registry q; q.add(new Numeric("/Z", 4, Numeric::SInt), true, "");
        try { q.alias("/Z", s, true, ""); } catch (BadName const&) { aliased = false; }
        MC_CHECK(aliased || !need, "alias refused " + s, "alias() refuses the name " + s);
        MC_CHECK(!aliased || may, "alias accepted " + s, "alias() takes the name " + s);
        MC_CHECK(q.size() == size_t(1 + aliased) && q.has(s, false) == aliased, "aliased " + s, "wrong contents after aliasing " + s);
        if (added) c.count("types added");
    });
}
