#include "mc.hh"
#include <algorithm>
#include <atomic>
#include <cassert>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <new>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <cxxabi.h>

using namespace std;

// ---------------------------------------------------------------- allocation
namespace mc
{
    long live_allocs = 0, total_allocs = 0, fail_alloc_in = -1;
    bool alloc_failed = false;
    size_t max_alloc = size_t(256) << 20;
}
static void* do_new(size_t n)
{
    if (mc::fail_alloc_in >= 0 && mc::fail_alloc_in-- == 0)
    {
        mc::alloc_failed = true;
        return nullptr;
    }
    if (n > mc::max_alloc) return nullptr;
    void* p = malloc(n ? n : 1);
    if (p)
    {
        __atomic_add_fetch(&mc::live_allocs, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&mc::total_allocs, 1, __ATOMIC_RELAXED);
    }
    return p;
}
static void do_delete(void* p)
{
    if (!p) return;
    __atomic_sub_fetch(&mc::live_allocs, 1, __ATOMIC_RELAXED);
    free(p);
}
void* operator new(size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = do_new(n); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, std::nothrow_t const&) noexcept { return do_new(n); }
void* operator new[](size_t n, std::nothrow_t const&) noexcept { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }

// ---------------------------------------------------------------- explorer
namespace
{
    const int MAX_TRACE = 4096;
    const int MAX_UNITS = 1 << 20;
    const int MAX_WORKERS = 64;

    // a past execution of a worker
    const int PAST_MAX = 120, PAST_FIRST = 30, PAST_LAST = 90;
    struct Past { int n; uint16_t v[PAST_MAX]; };
    struct Slot
    {
        volatile uint64_t past_n;        // executions recorded: the first ones, and the last ones in a ring
        Past first[PAST_FIRST], last[PAST_LAST];
        volatile uint64_t start_ms;      // start of the current execution, 0 = idle
        volatile uint64_t executions;
        volatile int length;             // current trace
        volatile int unit;
        volatile int unit_at;
        mc::Pick trace[MAX_TRACE];
    };
    struct Shared
    {
        atomic<int> stop;
        atomic<unsigned char> claimed[MAX_UNITS];
        Slot slots[MAX_WORKERS];
    };

    struct Group { string name; mc::Body body; };
    map<string, vector<Group>>& registry()
    {
        static map<string, vector<Group>> r;
        return r;
    }

    uint64_t now_ms()
    {
        timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return uint64_t(ts.tv_sec) * 1000 + ts.tv_nsec / 1000000;
    }

    Shared* shared = nullptr;

    // State of the current execution
    struct Exec
    {
        vector<mc::Pick> trace;      // choices made so far
        vector<int> prefix;          // forced choices
        vector<int> prefix_n;        // expected arities of the forced choices
        bool replay = false;         // no sharding
        int unit_at = -1;            // position of the unit() call
        Slot* slot = nullptr;
        int devs = 0;
    };
    Exec X;

    // Worker state
    int last_unit = -1;
    vector<mc::Pick> last_unit_prefix;
    bool own_last_unit = false;
    int resumed_unit = -1;

    map<string, uint64_t> counters;
    unordered_set<uint64_t> states;
    uint64_t n_steps = 0, n_exec = 0, n_pruned = 0;
}

namespace mc
{
    void fail(string const& key, string const& msg) { throw Failure{ key, msg }; }
    string fmt(char const* f, ...)
    {
        va_list ap; va_start(ap, f);
        char* out = nullptr;
        if (vasprintf(&out, f, ap) < 0) abort();
        va_end(ap);
        string s(out); free(out);
        return s;
    }
    uint64_t hash(void const* p, size_t n, uint64_t seed)
    {
        uint64_t h = seed ^ (n * 0x9E3779B97F4A7C15ULL);
        unsigned char const* c = static_cast<unsigned char const*>(p);
        for (size_t i = 0; i < n; ++i)
        {
            h ^= c[i];
            h *= 0x100000001b3ULL;
            h ^= h >> 29;
        }
        h ^= h >> 32; h *= 0xd6e8feb86659fd93ULL; h ^= h >> 32;
        return h;
    }
    uint64_t hash(string const& s) { return hash(s.data(), s.size()); }

    Registrar::Registrar(char const* prop, char const* group, Body body, double)
    {
        // a body may serve several properties: "C01,C02"
        string p(prop);
        size_t pos = 0;
        while (pos <= p.size())
        {
            size_t e = p.find(',', pos);
            if (e == string::npos) e = p.size();
            registry()[p.substr(pos, e - pos)].push_back(Group{ group, body });
            pos = e + 1;
        }
    }

    int Ctx::choose(int n, char const* what)
    {
        if (n <= 0) { fprintf(stderr, "choose(%d) for %s\n", n, what); _exit(77); }
        size_t i = X.trace.size();
        int v = 0;
        if (i < X.prefix.size())
        {
            v = X.prefix[i];
            // divergence while replaying a prefix is a hard error
            if (v >= n || (i < X.prefix_n.size() && X.prefix_n[i] != n))
            {
                fprintf(stderr, "NONDETERMINISM: at choice %zu (%s) arity %d, recorded value %d arity %d\n",
                        i, what, n, v, i < X.prefix_n.size() ? X.prefix_n[i] : -1);
                _exit(78);
            }
        }
        if (i >= size_t(MAX_TRACE)) { fprintf(stderr, "trace too long\n"); _exit(79); }
        X.trace.push_back(Pick{ n, v });
        if (X.slot) { X.slot->trace[i] = Pick{ n, v }; X.slot->length = i + 1; }
        return v;
    }
    int Ctx::deviate(int n, char const* what)
    {
        if (X.devs >= deviation_budget) return 0;
        int v = choose(n, what);
        if (v) ++X.devs;
        return v;
    }
    void Ctx::unit()
    {
        if (X.unit_at >= 0) return;
        X.unit_at = X.trace.size();
        if (X.slot) X.slot->unit_at = X.unit_at;
        if (X.replay) return;
        bool same = last_unit_prefix.size() == X.trace.size() && last_unit >= 0;
        for (size_t i = 0; same && i < X.trace.size(); ++i)
            same = last_unit_prefix[i].v == X.trace[i].v;
        if (!same)
        {
            ++last_unit;
            if (last_unit >= MAX_UNITS) { fprintf(stderr, "too many units\n"); _exit(80); }
            last_unit_prefix = X.trace;
            own_last_unit = (last_unit == resumed_unit) ||
                shared->claimed[last_unit].exchange(1) == 0;
            if (X.slot) X.slot->unit = last_unit;
        }
        if (!own_last_unit) throw Skip();
    }
    void Ctx::step(uint64_t n) { n_steps += n; }
    void Ctx::state(string const& s) { states.insert(hash(s)); }
    void Ctx::state(uint64_t h) { states.insert(h); }
    void Ctx::count(char const* name, uint64_t n)
    {
        // counters live outside of the accounted heap
        long l = live_allocs, t = total_allocs, f = fail_alloc_in;
        fail_alloc_in = -1;
        counters[name] += n;
        live_allocs = l; total_allocs = t; fail_alloc_in = f;
    }
    void Ctx::log(char const* f, ...)
    {
        if (!verbose) return;
        long l = live_allocs, t = total_allocs, fa = fail_alloc_in;
        fail_alloc_in = -1;
        va_list ap; va_start(ap, f);
        char* out = nullptr;
        if (vasprintf(&out, f, ap) < 0) abort();
        va_end(ap);
        text += out; text += "\n";
        free(out);
        live_allocs = l; total_allocs = t; fail_alloc_in = fa;
        if (getenv("MC_LIVE_LOG")) { fputs((text.substr(text.rfind('\n', text.size() - 2) + 1)).c_str(), stderr); }
    }
}

namespace
{
    string demangle(char const* n)
    {
        int st; char* d = abi::__cxa_demangle(n, 0, 0, &st);
        string r = d ? d : n; free(d); return r;
    }

    struct Result
    {
        bool failed = false, skipped = false;
        mc::Failure f;
        string text;
    };

    Result run_once(vector<Group>& groups, bool thorough, bool verbose)
    {
        Result r;
        X.trace.clear(); X.unit_at = -1; X.devs = 0;
        mc::Ctx c;
        c.thorough = thorough; c.verbose = verbose; c.deviation_budget = 0;
        if (X.slot) { X.slot->length = 0; X.slot->unit_at = -1; X.slot->start_ms = now_ms(); }
        mc::fail_alloc_in = -1; mc::alloc_failed = false;
        try
        {
            int g = c.choose(groups.size(), "group");
            c.log("group: %s", groups[g].name.c_str());
            groups[g].body(c);
        }
        catch (mc::Skip) { r.skipped = true; }
        catch (mc::Prune) { ++n_pruned; }
        catch (mc::Failure const& f) { r.failed = true; r.f = f; }
        catch (std::exception const& e)
        {
            r.failed = true;
            r.f.key = "escaped:" + groups[X.trace[0].v].name + ":" + demangle(typeid(e).name());
            r.f.msg = string("unexpected exception reached the harness: ") + demangle(typeid(e).name()) + ": " + e.what();
        }
        catch (...)
        {
            r.failed = true;
            r.f.key = "escaped:" + groups[X.trace[0].v].name;
            r.f.msg = "unexpected exception of unknown type reached the harness";
        }
        mc::fail_alloc_in = -1;
        if (X.slot) X.slot->start_ms = 0;
        r.text.swap(c.text);
        return r;
    }

    // next choice vector in depth-first order; false at the end
    bool next_prefix(vector<mc::Pick> const& trace, vector<int>& prefix, vector<int>& prefix_n)
    {
        int i = int(trace.size()) - 1;
        while (i >= 0 && trace[i].v + 1 >= trace[i].n) --i;
        if (i < 0) return false;
        prefix.clear(); prefix_n.clear();
        for (int k = 0; k <= i; ++k) { prefix.push_back(trace[k].v); prefix_n.push_back(trace[k].n); }
        prefix.back()++;
        return true;
    }

    string trace_str(vector<mc::Pick> const& t)
    {
        string s;
        for (size_t i = 0; i < t.size(); ++i) { if (i) s += ","; s += to_string(t[i].v); }
        return s;
    }

    string jstr(string const& s)
    {
        string o = "\"";
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
            else if (ch == '\n') o += "\\n";
            else if (ch == '\t') o += "\\t";
            else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += ch;
        }
        return o + "\"";
    }

    // --- records written by the workers, one file per worker process
    void put_u64(FILE* f, uint64_t v) { fwrite(&v, 8, 1, f); }
    void put_str(FILE* f, string const& s) { put_u64(f, s.size()); fwrite(s.data(), 1, s.size(), f); }
    bool get_u64(FILE* f, uint64_t& v) { return fread(&v, 8, 1, f) == 1; }
    bool get_str(FILE* f, string& s)
    {
        uint64_t n; if (!get_u64(f, n)) return false;
        s.resize(n);
        return n == 0 || fread(&s[0], 1, n, f) == n;
    }

    struct FailRec { string key, msg, trace, past; uint64_t count = 1; vector<pair<string, string>> more; };

    const size_t MAX_KEYS = 40;

    void record_past(Slot& s, vector<mc::Pick> const& t)
    {
        if (t.size() > size_t(PAST_MAX)) return;
        Past& p = s.past_n < PAST_FIRST ? s.first[s.past_n] : s.last[(s.past_n - PAST_FIRST) % PAST_LAST];
        p.n = t.size();
        for (size_t i = 0; i < t.size(); ++i) p.v[i] = t[i].v;
        s.past_n = s.past_n + 1;
    }
    // what a worker did before, as traces separated by '|', each of them followed by one
    string past_str(Slot const& s)
    {
        string r;
        auto put = [&](Past const& p) { for (int i = 0; i < p.n; ++i) { if (i) r += ","; r += to_string(p.v[i]); } r += "|"; };
        uint64_t n = s.past_n;
        for (uint64_t i = 0; i < n && i < uint64_t(PAST_FIRST); ++i) put(s.first[i]);
        if (n > uint64_t(PAST_FIRST))
        {
            uint64_t m = n - PAST_FIRST;
            for (uint64_t i = m > uint64_t(PAST_LAST) ? m - PAST_LAST : 0; i < m; ++i) put(s.last[i % PAST_LAST]);
        }
        return r;
    }

    [[noreturn]] void worker(vector<Group>& groups, bool thorough, int slot, string const& outfile,
            vector<int> start, vector<int> start_n, int resume_unit, int units_seen, vector<mc::Pick> unit_prefix)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        X.slot = &shared->slots[slot];
        X.slot->executions = 0; X.slot->past_n = 0;
        X.prefix = start; X.prefix_n = start_n;
        resumed_unit = resume_unit;
        last_unit = units_seen;
        last_unit_prefix = unit_prefix;
        own_last_unit = resume_unit >= 0;
        map<string, FailRec> fails;
        vector<string> samples;
        bool complete = true;
        uint64_t next_sample = 1;
        while (true)
        {
            if (shared->stop.load()) { complete = false; break; }
            Result r = run_once(groups, thorough, false);
            if (!r.skipped)
            {
                ++n_exec; X.slot->executions = n_exec;
                if (n_exec == next_sample) { samples.push_back(trace_str(X.trace)); next_sample *= 7; }
                if (r.failed)
                {
                    auto it = fails.find(r.f.key);
                    if (it != fails.end())
                    {
                        uint64_t n = ++it->second.count;
                        if (!(n & (n - 1)) && n < 5000) it->second.more.push_back({ trace_str(X.trace), past_str(*X.slot) });
                    }
                    else
                    {
                        FailRec fr; fr.key = r.f.key; fr.msg = r.f.msg; fr.trace = trace_str(X.trace); fr.past = past_str(*X.slot);
                        fails[r.f.key] = fr;
                        if (fails.size() > MAX_KEYS) { complete = false; break; }
                    }
                }
                record_past(*X.slot, X.trace);
            }
            vector<mc::Pick> t = X.trace;
            if (!next_prefix(t, X.prefix, X.prefix_n)) break;
        }
        FILE* f = fopen(outfile.c_str(), "w");
        put_u64(f, complete); put_u64(f, n_exec); put_u64(f, n_steps); put_u64(f, n_pruned);
        put_u64(f, fails.size());
        for (auto& k : fails) { put_str(f, k.second.key); put_str(f, k.second.msg); put_str(f, k.second.trace); put_u64(f, k.second.count);
            put_str(f, k.second.past); put_u64(f, k.second.more.size());
            for (auto& m : k.second.more) { put_str(f, m.first); put_str(f, m.second); }
        }
        put_u64(f, counters.size());
        for (auto& k : counters) { put_str(f, k.first); put_u64(f, k.second); }
        put_u64(f, samples.size());
        for (auto& s : samples) put_str(f, s);
        put_u64(f, states.size());
        for (uint64_t h : states) put_u64(f, h);
        fclose(f);
        _exit(0);
    }

    // processor time used so far by a process of ours
    double cpu_seconds(pid_t pid)
    {
        clockid_t id; timespec t;
        if (clock_getcpuclockid(pid, &id) != 0 || clock_gettime(id, &t) != 0) return 0;
        return t.tv_sec + t.tv_nsec / 1e9;
    }

    vector<int> parse_trace(string const& s)
    {
        vector<int> r; stringstream ss(s); string t;
        while (getline(ss, t, ',')) if (!t.empty()) r.push_back(atoi(t.c_str()));
        return r;
    }

    string slurp(string const& path, size_t max = 20000)
    {
        ifstream f(path); stringstream ss; ss << f.rdbuf(); string s = ss.str();
        if (s.size() > max) s = s.substr(0, max);
        return s;
    }

    // what a sanitizer or abort report says, reduced to a stable signature
    string crash_signature(string const& err, int status)
    {
        size_t p = err.find("SUMMARY: ");
        if (p != string::npos)
        {
            string l = err.substr(p + 9, err.find('\n', p) - p - 9);
            // "AddressSanitizer: heap-buffer-overflow /path/file.cc:12 in func"
            size_t c = l.find(": ");
            if (c != string::npos)
            {
                string kind = l.substr(c + 2);
                size_t sp = kind.find(' ');
                string fn;
                size_t in = kind.rfind(" in ");
                if (in != string::npos) fn = kind.substr(in + 4);
                return kind.substr(0, sp);
            }
        }
        if (err.find("runtime error: ") != string::npos) return "undefined-behaviour";
        if (err.find("terminate called") != string::npos) return "terminate";
        if (WIFSIGNALED(status)) return string("signal-") + to_string(WTERMSIG(status));
        return "exit-" + to_string(WEXITSTATUS(status));
    }

    struct Replay { bool crashed = false, hung = false, failed = false; string key, msg, text, err; int status = 0; };

    vector<vector<int>> parse_past(string const& s)
    {
        vector<vector<int>> r; stringstream ss(s); string t;
        while (getline(ss, t, '|')) r.push_back(parse_trace(t));
        return r;
    }

    // runs one execution, in a new process, possibly after others
    Replay replay_trace(vector<Group>& groups, bool thorough, vector<int> const& trace, string const& tmp, double limit_s, bool verbose, string const& past = string())
    {
        Replay out;
        string of = tmp + ".replay.out", ef = tmp + ".replay.err";
        pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
            dup2(e, 2);
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
            for (auto& p : parse_past(past)) { X = Exec(); X.replay = true; X.prefix = p; X.slot = nullptr; run_once(groups, thorough, false); }
            X = Exec(); X.replay = true; X.prefix = trace; X.slot = nullptr;
            Result r = run_once(groups, thorough, verbose);
            FILE* f = fopen(of.c_str(), "w");
            put_u64(f, r.failed); put_str(f, r.f.key); put_str(f, r.f.msg); put_str(f, r.text);
            fclose(f);
            _exit(0);
        }
        uint64_t t0 = now_ms();
        int st;
        while (true)
        {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            if (now_ms() - t0 > limit_s * 500 && (cpu_seconds(pid) > limit_s || now_ms() - t0 > limit_s * 6000)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); out.hung = true; break; }
            usleep(1000);
        }
        out.status = st;
        out.err = slurp(ef);
        if (!out.hung && WIFEXITED(st) && WEXITSTATUS(st) == 0)
        {
            FILE* f = fopen(of.c_str(), "r");
            uint64_t failed = 0;
            if (f && get_u64(f, failed) && get_str(f, out.key) && get_str(f, out.msg) && get_str(f, out.text))
                out.failed = failed;
            if (f) fclose(f);
        }
        else if (!out.hung) out.crashed = true;
        unlink(of.c_str()); unlink(ef.c_str());
        return out;
    }
}

int main(int argc, char** argv)
{
    string prop, out = "/dev/stdout", tmp = "/tmp/mc", replay, only;
    bool thorough = false; int jobs = 8; double cap = 1e9, exec_limit = 30;
    for (int i = 1; i < argc; ++i)
    {
        string a = argv[i];
        auto val = [&]() { return string(argv[++i]); };
        if (a == "--tier") thorough = val() == "thorough";
        else if (a == "--out") out = val();
        else if (a == "--tmp") tmp = val();
        else if (a == "--jobs") jobs = stoi(val());
        else if (a == "--cap") cap = stod(val());
        else if (a == "--exec-limit") exec_limit = stod(val());
        else if (a == "--replay") replay = val();
        else if (a == "--only") only = val();
        else if (a == "--list") { for (auto& p : registry()) for (auto& g : p.second) printf("%s %s\n", p.first.c_str(), g.name.c_str()); return 0; }
        else prop = a;
    }
    if (!registry().count(prop)) { fprintf(stderr, "no property %s in this harness\n", prop.c_str()); return 2; }
    vector<Group> groups;
    for (auto& g : registry()[prop]) if (only.empty() || g.name == only) groups.push_back(g);

    if (!replay.empty())
    {
        size_t bar = replay.rfind('|');
        if (bar != string::npos)
        {
            for (auto& p : parse_past(replay.substr(0, bar + 1))) { X = Exec(); X.replay = true; X.prefix = p; X.slot = nullptr; run_once(groups, thorough, false); }
            replay = replay.substr(bar + 1);
        }
        X = Exec(); X.replay = true; X.prefix = parse_trace(replay);
        Result r = run_once(groups, thorough, true);
        printf("%s", r.text.c_str());
        if (r.failed) { printf("FAILED key=%s\n%s\n", r.f.key.c_str(), r.f.msg.c_str()); return 1; }
        printf("held on this execution\n");
        return 0;
    }

    shared = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (jobs > MAX_WORKERS / 2) jobs = MAX_WORKERS / 2;

    struct W { pid_t pid; int slot; string out, err; bool done; uint64_t seen_ms = 0; double seen_cpu = -1; };
    vector<W> ws;
    vector<string> files;
    int nfile = 0;
    auto spawn = [&](int slot, vector<int> start, vector<int> start_n, int resume_unit, int units_seen, vector<mc::Pick> up)
    {
        W w; w.slot = slot; w.done = false;
        w.out = tmp + ".w" + to_string(nfile); w.err = tmp + ".e" + to_string(nfile); ++nfile;
        fflush(0);
        shared->slots[slot].start_ms = 0; shared->slots[slot].length = 0;
        pid_t pid = fork();
        if (pid == 0)
        {
            int e = open(w.err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(e, 2);
            int dn = open("/dev/null", O_WRONLY); dup2(dn, 1);
            worker(groups, thorough, slot, w.out, start, start_n, resume_unit, units_seen, up);
        }
        w.pid = pid;
        return w;
    };
    for (int i = 0; i < jobs; ++i) ws.push_back(spawn(i, {}, {}, -1, -1, {}));

    map<string, FailRec> fails;
    vector<string> harness_errors;
    uint64_t t0 = now_ms();
    bool capped = false;
    int crashes = 0;
    uint64_t crash_exec = 0;
    size_t running = ws.size();
    while (running)
    {
        usleep(2000);
        if (!capped && now_ms() - t0 > cap * 1000) { capped = true; shared->stop = 1; }
        for (size_t i = 0; i < ws.size(); ++i)
        {
            if (ws[i].done) continue;
            int st; bool hung = false;
            pid_t r = waitpid(ws[i].pid, &st, WNOHANG);
            Slot& s = shared->slots[ws[i].slot];
            if (r == 0)
            {
                // An execution hangs when it used up the limit in processor time
                // (a loop), or twelve times that on the clock (it sleeps):
                // a machine that is busy with something else is no hang.
                uint64_t b = s.start_ms, now = now_ms();
                if (!b || b != ws[i].seen_ms) { ws[i].seen_ms = b; ws[i].seen_cpu = -1; }
                if (!b || now <= b + uint64_t(exec_limit * 500)) continue;
                if (ws[i].seen_cpu < 0) ws[i].seen_cpu = cpu_seconds(ws[i].pid);
                if (cpu_seconds(ws[i].pid) - ws[i].seen_cpu > exec_limit / 2 || now > b + uint64_t(exec_limit * 12000))
                {
                    kill(ws[i].pid, SIGKILL); waitpid(ws[i].pid, &st, 0); hung = true;
                }
                else continue;
            }
            ws[i].done = true; --running;
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0)
            {
                files.push_back(ws[i].out); unlink(ws[i].err.c_str());
                continue;
            }
            if (!hung && WIFEXITED(st) && WEXITSTATUS(st) >= 77 && WEXITSTATUS(st) <= 80)
            {
                harness_errors.push_back(slurp(ws[i].err, 2000));
                shared->stop = 1;
                continue;
            }
            // The execution in progress killed the worker: a verdict about the
            // code under test, to be confirmed by replaying it alone.
            vector<mc::Pick> t(s.trace, s.trace + s.length);
            string err = slurp(ws[i].err);
            string key = (hung ? string("hang:") : "crash:" + crash_signature(err, st) + ":") + groups[t.empty() ? 0 : t[0].v].name;
            // identify the crash by the input class too: the choice made right at the unit
            FailRec fr; fr.key = key; fr.trace = trace_str(t);
            fr.msg = hung ? "execution did not terminate" : "execution crashed: " + err.substr(0, 3000);
            fr.past = past_str(s);
            if (fails.count(key)) { fails[key].count++; fails[key].more.push_back({ fr.trace, fr.past }); } else fails[key] = fr;
            ++crashes; if (hung) crashes += 9;
            crash_exec += s.executions + 1;
            unlink(ws[i].err.c_str());
            if (crashes > 60 || shared->stop.load()) { shared->stop = 1; continue; }
            vector<int> p, pn;
            if (!next_prefix(t, p, pn)) continue;
            // resume right after it
            vector<mc::Pick> up; int ru = -1, seen = s.unit;
            if (s.unit_at >= 0) { up.assign(t.begin(), t.begin() + s.unit_at); ru = s.unit; }
            W w = spawn(ws[i].slot, p, pn, ru, seen, up);
            ws.push_back(w); ++running;
            break;
        }
    }

    uint64_t execs = crash_exec, steps = 0, pruned = 0; bool complete = harness_errors.empty() && !(crashes > 60);
    map<string, uint64_t> cnt; unordered_set<uint64_t> st; vector<string> samples;
    for (auto& fn : files)
    {
        FILE* f = fopen(fn.c_str(), "r");
        uint64_t c, e, s, p, n;
        get_u64(f, c); get_u64(f, e); get_u64(f, s); get_u64(f, p);
        if (!c) complete = false;
        execs += e; steps += s; pruned += p;
        get_u64(f, n);
        for (uint64_t i = 0; i < n; ++i)
        {
            FailRec fr; get_str(f, fr.key); get_str(f, fr.msg); get_str(f, fr.trace); get_u64(f, fr.count);
            uint64_t more; get_str(f, fr.past); get_u64(f, more);
            for (uint64_t j = 0; j < more; ++j) { pair<string, string> m; get_str(f, m.first); get_str(f, m.second); fr.more.push_back(m); }
            auto it = fails.find(fr.key);
            if (it == fails.end()) fails[fr.key] = fr;
            else
            {
                // keep the earliest in depth-first order, so that reports are deterministic
                uint64_t total = it->second.count + fr.count;
                if (parse_trace(fr.trace) < parse_trace(it->second.trace)) swap(it->second, fr);
                it->second.count = total;
                it->second.more.push_back({ fr.trace, fr.past });
                it->second.more.insert(it->second.more.end(), fr.more.begin(), fr.more.end());
            }
        }
        get_u64(f, n);
        for (uint64_t i = 0; i < n; ++i) { string k; uint64_t v; get_str(f, k); get_u64(f, v); cnt[k] += v; }
        get_u64(f, n);
        for (uint64_t i = 0; i < n; ++i) { string k; get_str(f, k); samples.push_back(k); }
        get_u64(f, n);
        for (uint64_t i = 0; i < n; ++i) { uint64_t h; get_u64(f, h); st.insert(h); }
        fclose(f); unlink(fn.c_str());
    }

    // Confirm every failure by replaying it twice, alone
    vector<string> unconfirmed;
    stringstream jf; bool first = true;
    int confirmed_n = 0;
    for (auto& k : fails)
    {
        FailRec& fr = k.second;
        bool hang = fr.key.compare(0, 5, "hang:") == 0, crash = fr.key.compare(0, 6, "crash:") == 0;
        string text;
        int rounds = confirmed_n < 12 ? 2 : 1;
        auto confirm = [&](string const& trace, string const& past) {
            bool ok = true;
            vector<int> t = parse_trace(trace);
            for (int i = 0; i < rounds && ok; ++i)
            {
                Replay r = replay_trace(groups, thorough, t, tmp, (hang ? exec_limit * 4 : exec_limit * 2) * (past.empty() ? 1 : 3), true, past);
                if (hang) ok = r.hung;
                else if (crash)
                {
                    ok = r.crashed;
                    if (ok) fr.msg = "execution crashed: " + r.err.substr(0, 3000);
                }
                else { ok = r.failed && r.key == fr.key; if (ok) fr.msg = r.msg; }
                text = r.text;
                if (hang && ok) break;
            }
            return ok;
        };
        bool ok = confirm(fr.trace, "");
        // It may depend on what happened before in the same process (state that
        // outlives an execution): other executions that failed in this way, and
        // the history of the process
        if (!ok && !hang)
        {
            size_t tries = 0;
            for (auto& m : fr.more)
            {
                if (++tries > 12) break;
                if (confirm(m.first, "")) { ok = true; fr.trace = m.first; break; }
            }
            if (!ok) fr.more.insert(fr.more.begin(), { fr.trace, fr.past });
            tries = 0;
            if (!ok) for (auto& m : fr.more)
            {
                if (++tries > 4) break;
                if (!confirm(m.first, m.second)) continue;
                ok = true; fr.trace = m.second + m.first;
                fr.msg += "\n(after the " + to_string(parse_past(m.second).size()) + " executions that the replay lists, in the same process)";
                // a single one of them may be enough
                vector<vector<int>> past = parse_past(m.second); size_t singles = 0;
                for (size_t i = past.size(); i-- > 0 && singles < 40; ++singles)
                {
                    string one; for (size_t j = 0; j < past[i].size(); ++j) { if (j) one += ","; one += to_string(past[i][j]); } one += "|";
                    if (confirm(m.first, one)) { fr.trace = one + m.first; fr.msg += " (one is enough)"; break; }
                }
                confirm(m.first, fr.trace.substr(0, fr.trace.rfind('|') + 1));      // for its log
                break;
            }
        }
        if (!ok) { unconfirmed.push_back(fr.key + " trace=" + fr.trace + " msg=" + fr.msg); continue; }
        ++confirmed_n;
        jf << (first ? "" : ",\n  ") << "{\"key\":" << jstr(fr.key) << ",\"msg\":" << jstr(fr.msg) << ",\"trace\":" << jstr(fr.trace)
            << ",\"count\":" << fr.count << ",\"log\":" << jstr(text) << "}";
        first = false;
    }

    // Written-out samples, and a determinism check: same execution, same log
    stringstream js; first = true; int ns = 0; 
    uint64_t det = 0;
    sort(samples.begin(), samples.end());
    samples.erase(unique(samples.begin(), samples.end()), samples.end());
    size_t stride = max<size_t>(1, samples.size() / 6);
    for (size_t i = 0; i < samples.size(); i += stride)
    {
        Replay a = replay_trace(groups, thorough, parse_trace(samples[i]), tmp, exec_limit * 2, true);
        Replay b = replay_trace(groups, thorough, parse_trace(samples[i]), tmp, exec_limit * 2, true);
        if (a.text != b.text || a.failed != b.failed) harness_errors.push_back("replaying " + samples[i] + " twice gave different logs:\n" + a.text + "\n---\n" + b.text);
        else ++det;
        if (ns < 6)
        {
            string tx = a.text; if (tx.size() > 1500) tx = tx.substr(0, 1500) + "...";
            js << (first ? "" : ",\n  ") << "{\"choices\":" << jstr(samples[i]) << ",\"log\":" << jstr(tx) << "}";
            first = false; ++ns;
        }
    }

    ofstream o(out);
    o << "{\"property\":" << jstr(prop) << ",\n \"executions\":" << execs << ",\"transitions\":" << steps << ",\"states\":" << st.size()
      << ",\"pruned\":" << pruned << ",\"complete\":" << (complete && !capped ? "true" : "false") << ",\"capped\":" << (capped ? "true" : "false")
      << ",\"crashes\":" << crashes << ",\"determinism_checked\":" << det << ",\"wall_s\":" << (now_ms() - t0) / 1000.0 << ",\n \"groups\":[";
    first = true;
    for (auto& g : groups) { o << (first ? "" : ",") << jstr(g.name); first = false; }
    o << "],\n \"counters\":{";
    first = true;
    for (auto& k : cnt) { o << (first ? "" : ",") << jstr(k.first) << ":" << k.second; first = false; }
    o << "},\n \"failures\":[" << jf.str() << "],\n \"unconfirmed\":[";
    first = true;
    for (auto& u : unconfirmed) { o << (first ? "" : ",") << jstr(u); first = false; }
    o << "],\n \"errors\":[";
    first = true;
    for (auto& u : harness_errors) { o << (first ? "" : ",") << jstr(u); first = false; }
    o << "],\n \"samples\":[" << js.str() << "]}\n";
    return 0;
}
