// Bounded exhaustive explorer (stateless depth-first search over choice points).
//
// A property is a set of "bodies".  A body is a deterministic function of the
// values returned by Ctx::choose().  The explorer runs the body once for every
// possible vector of choices: executions are enumerated, never sampled.
#ifndef VERIF_MC_HH
#define VERIF_MC_HH

#include <cstdarg>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace mc
{
    struct Failure
    {
        std::string key;  // identifies what fails (matched against known findings)
        std::string msg;  // free text
    };
    struct Skip {};       // thrown by unit() when another worker owns the subtree
    struct Prune {};      // thrown by a body to abandon a redundant execution

    struct Pick { int n, v; };

    class Ctx
    {
    public:
        bool thorough;
        bool verbose;
        std::string text;               // log of the execution, if verbose

        // A choice point with n alternatives. Alternative 0 is tried first.
        int choose(int n, char const* what);
        // Work distribution point: everything below is explored by one worker.
        void unit();
        // Count a transition: one operation executed on the implementation
        // and checked against the oracle
        void step(uint64_t n = 1);
        // Record a visited state (canonical form)
        void state(std::string const& canonical);
        void state(uint64_t hash);
        // Named counters, to show what the exploration exercised
        void count(char const* name, uint64_t n = 1);
        // Log, only evaluated when replaying verbosely
        void log(char const* fmt, ...) __attribute__((format(printf, 2, 3)));

        template<typename T> T const& pick(std::vector<T> const& v, char const* what)
        { return v[choose(v.size(), what)]; }

        // Environment faults: a deviation from the default answer, limited to
        // `budget` per execution. Returns the alternative (0 is the default).
        int deviate(int n, char const* what);
        int deviation_budget;
    };

    [[noreturn]] void fail(std::string const& key, std::string const& msg);
    std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));
    uint64_t hash(std::string const& s);
    uint64_t hash(void const* p, size_t n, uint64_t seed = 0x9ae16a3b2f90404fULL);

    typedef std::function<void(Ctx&)> Body;
    struct Registrar
    {
        Registrar(char const* prop, char const* group, Body body, double weight = 1);
    };

    // Live heap accounting of this process (operator new and delete)
    extern long live_allocs;
    extern long total_allocs;
    // Allocation fault injection: when >= 0, the allocation that makes this
    // reach zero throws std::bad_alloc
    extern long fail_alloc_in;
    extern bool alloc_failed;
    // Requests bigger than this are refused with std::bad_alloc
    extern size_t max_alloc;
}

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_BODY(prop, group) \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx&); \
    static mc::Registrar MC_CAT(mc_reg_, __LINE__)(prop, group, MC_CAT(mc_body_, __LINE__)); \
    static void MC_CAT(mc_body_, __LINE__)(mc::Ctx& c)

#define MC_CHECK(cond, key, msg) do { if (!(cond)) mc::fail((key), (msg)); } while(0)

#endif
