// C01..C04: marshalling, over every type and value of a
// bounded grammar
#include "cases.hh"
#include <cstdio>
#include <cerrno>
#include <dlfcn.h>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
using namespace std;
using namespace Typelib;
using namespace model;
using mc::Ctx;

using namespace cases;

struct ChunkInput : InputStream
{
    Bytes const& b; size_t at;
    ChunkInput(Bytes const& b) : b(b), at(0) {}
    void read(uint8_t* p, size_t n)
    {
        if (n > b.size() - at) throw runtime_error("short");
        memcpy(p, b.data() + at, n); at += n;
    }
};
struct CollectOutput : OutputStream
{
    Bytes b; size_t calls; long fail_at; struct Injected {};
    CollectOutput(long f = -1) : calls(0), fail_at(f) {}
    void write(uint8_t const* p, size_t n)
    {
        if (fail_at >= 0 && long(calls) == fail_at) throw Injected();
        ++calls; b.insert(b.end(), p, p + n);
    }
};
// -------------------------------------------------------------------- C01
static void roundtrip(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    static char const* hows[] = { "vector", "bytes", "stream", "layout-unmerged", "layout-keep-trailing", "layout-unmerged-keep-trailing", "raw-layout" };
    // merging array(0) of containers...
    for (int prior = 0; prior < 4; ++prior)
        for (int how = 0; how < 7; ++how)
        {
            if (how >= 2 && prior != 0) continue;
            if (how == 1 && prior == 2) continue;
            string id = string("roundtrip:") + hows[how];
            MV prev;
            if (prior >= 1) prev = fill(t, 2 + prior, fixed_size(prior == 1 ? 3 : prior == 2 ? 1 : 20));
            if (prior == 3 && t->n_leaves > 50) continue;
            if (prior == 3 && !t->has_container) continue;
            c.log(" %s, destination state %d", hows[how], prior);
            long before = mc::live_allocs;
            {
                Mem src(t, 0xA5), dst(t, 0x3C, false);
                src.set(k.v);
                if (prior == 0) { Typelib::init(dst.value()); dst.live = true; }
                else { construct(t, dst.p); dst.live = true; dst.set(prev); }
                MemoryLayout L;
                switch (how)
                {
                    case 3: L = layout_of(*t->real, false, false, false, true); break;
                    case 4: L = layout_of(*t->real, false, false, true, false); break;
                    case 5: L = layout_of(*t->real, false, false, false, false); break;
                    case 6: L = raw_layout_of(*t->real); break;
                    default: break;
                }
                Bytes d;
                if (how < 3) d = dump(src.value()); else dump(src.value(), d, L);
                switch (how)
                {
                    case 0: load(dst.value(), d); break;
                    case 1: { Exact e(d); load(dst.value(), e.p, e.n); break; }
                    case 2: { ChunkInput in(d); load(dst.value(), in);
                              MC_CHECK(in.at == d.size(), id + ":leftover", "loading did not consume everything: " + what_of(t, k.v)); break; }
                    default: load(dst.value(), d, L); break;
                }
                MV got = dst.get();
                MC_CHECK(got == k.v, id + ":differs", what_of(t, k.v) + "\n loaded " + show(t, got) + "\n bytes " + hexs(d));
                MC_CHECK(src.get() == k.v, id + ":source-changed", what_of(t, k.v));
                MC_CHECK(compare(dst.value(), src.value()), id + ":compare", what_of(t, k.v));
                // and the copy can be marshalled again to the same logical bytes
                Bytes d2;
                if (how < 3) d2 = dump(dst.value()); else dump(dst.value(), d2, L);
                MC_CHECK(d2.size() == d.size(), id + ":second-dump", what_of(t, k.v));
                destroy(dst.value()); dst.live = false;
                c.step(4);
            }
            MC_CHECK(mc::live_allocs == before, id + ":leak", mc::fmt("%ld blocks not released; ", mc::live_allocs - before) + what_of(t, k.v));
        }
}
MC_BODY("C01", "chain") { roundtrip(c, chain_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C01", "flat") { roundtrip(c, flat_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C01", "sized") { roundtrip(c, sized_case(c)); }

// -------------------------------------------------------------------- C02
static int mem_fd()
{
    static int fd = memfd_create("mc", 0);
    if (ftruncate(fd, 0)) abort();
    lseek(fd, 0, SEEK_SET);
    return fd;
}
static Bytes fd_contents(int fd)
{
    Bytes r(lseek(fd, 0, SEEK_END));
    if (!r.empty() && pread(fd, r.data(), r.size(), 0) != ssize_t(r.size())) abort();
    return r;
}
static void sinks(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    Mem src(t); src.set(k.v);
    Value v = src.value();
    MemoryLayout L = layout_of(*t->real);
    uint8_t const* raw = src.p;
    Bytes ref = dump(v);
    Wire w = encode(t, k.v);
    string why;
    // the position of an array without elements relative to the trailing padding is not specified
    bool exact = !t->has_zero_dim;
    MC_CHECK(!exact || matches(w, ref, &why), "format", "marshalled form is not the documented one: " + why + "\n" + what_of(t, k.v) + "\n got " + hexs(ref));
    c.step();
    auto same = [&](char const* sink, Bytes const& b)
    { c.step(); MC_CHECK(b == ref, string("sink:") + sink, string(sink) + " does not produce the same bytes: " + what_of(t, k.v) + "\n ref " + hexs(ref) + "\n got " + hexs(b)); };
    auto prefixed = [&](char const* sink, Bytes const& b)
    {
        Bytes p = { 9, 8, 7 }; p.insert(p.end(), ref.begin(), ref.end());
        c.step();
        MC_CHECK(b == p, string("append:") + sink, what_of(t, k.v) + "\n ref " + hexs(p) + "\n got " + hexs(b));
    };
    { Bytes b; dump(v, b); same("vector", b); }
    { Bytes b = { 9, 8, 7 }; dump(v, b); prefixed("vector", b); }
    { Bytes b = { 9, 8, 7 }; dump(v, b, L); prefixed("vector+layout", b); }
    { Bytes b; dump(raw, b, L); same("vector raw", b); }
    { ostringstream o; o << "\x09\x08\x07"; dump(v, o); string s = o.str(); prefixed("ostream", Bytes(s.begin(), s.end())); }
    { ostringstream o; dump(v, o, L); string s = o.str(); same("ostream+layout", Bytes(s.begin(), s.end())); }
    { ostringstream o; dump(raw, o, L); string s = o.str(); same("ostream raw", Bytes(s.begin(), s.end())); }
    { CollectOutput o; dump(v, o); same("OutputStream", o.b); }
    { CollectOutput o; dump(v, o, L); dump(raw, o, L); Bytes b = ref; b.insert(b.end(), ref.begin(), ref.end());
      MC_CHECK(o.b == b, "sink:OutputStream twice", what_of(t, k.v)); }
    { int fd = mem_fd(); dump(v, fd); same("fd", fd_contents(fd)); }
    { int fd = mem_fd(); dump(v, fd, L); same("fd+layout", fd_contents(fd)); }
    { int fd = mem_fd(); dump(raw, fd, L); same("fd raw", fd_contents(fd)); }
    for (int i = 0; i < 3; ++i)
    {
        char* p = nullptr; size_t n = 0;
        FILE* f = open_memstream(&p, &n);
        if (i == 0) dump(v, f); else if (i == 1) dump(v, f, L); else dump(raw, f, L);
        fclose(f);
        same("FILE", Bytes(p, p + n));
        free(p);
    }
    for (int i = 0; i < 6; ++i)
    {
        size_t extra = i >= 3 ? 13 : 0;
        Exact e(ref.size() + extra, 0xC7);
        int n = i % 3 == 0 ? dump(v, e.p, e.n) : i % 3 == 1 ? dump(v, e.p, e.n, L) : dump(raw, e.p, e.n, L);
        MC_CHECK(n == int(ref.size()), "sink:buffer size", mc::fmt("returned %d for %zu bytes: ", n, ref.size()) + what_of(t, k.v));
        same("buffer", Bytes(e.p, e.p + ref.size()));
        for (size_t j = 0; j < extra; ++j)
            MC_CHECK(e.p[ref.size() + j] == 0xC7, "sink:buffer overrun", what_of(t, k.v));
    }
    MC_CHECK(getDumpSize(v) == ref.size(), "announced-size", mc::fmt("getDumpSize says %zu, %zu bytes are written: ", getDumpSize(v), ref.size()) + what_of(t, k.v));
    MC_CHECK(getDumpSize(v, L) == ref.size(), "announced-size:layout", what_of(t, k.v));
    MC_CHECK(getDumpSize(raw, L) == ref.size(), "announced-size:raw", what_of(t, k.v));
    c.step(3);
    // other layout flavours: documented contents as well
    for (int m = 0; m < 2; ++m) for (int r = 0; r < 2; ++r)
    {
        MemoryLayout X = layout_of(*t->real, false, false, m, r);
        Bytes b; dump(v, b, X);
        Wire x = encode(t, k.v, m, r);
        MC_CHECK(!exact || matches(x, b, &why), mc::fmt("format:merge=%d,trailing-removed=%d", m, r),
            why + "\n" + what_of(t, k.v) + "\n got " + hexs(b));
        MC_CHECK(getDumpSize(v, X) == b.size(), "announced-size:flavour", what_of(t, k.v));
        c.step(2);
    }
    MC_CHECK(src.get() == k.v, "source-changed", what_of(t, k.v));
}
MC_BODY("C02", "chain") { sinks(c, chain_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C02", "flat") { sinks(c, flat_case(c, c.thorough ? 4 : 3)); }
MC_BODY("C02", "sized") { sinks(c, sized_case(c)); }

// -------------------------------------------------------------------- C03
static Bytes concrete(Wire const& w) { Bytes b; for (int x : w) b.push_back(x < 0 ? 0xEE : x); return b; }
static void attempt(Ctx& c, MT* t, Bytes const& in, Bytes const& good, MV const& v, char const* what, int prior)
{
    MV expected; bool too_long;
    bool valid = decode(t, in, expected, too_long);
    for (int how = 0; how < 3; ++how)
    {
        if (how == 2 && (valid != false || too_long)) continue; // generic streams do not know where the input ends
        string id = mc::fmt("malformed:%s:%s", what, how == 0 ? "vector" : how == 1 ? "bytes" : "stream");
        long before = mc::live_allocs;
        {
            Mem dst(t, 0x3C);
            if (prior) dst.set(fill(t, 5, fixed_size(2)));
            bool threw = false; string msg;
            size_t old_max = mc::max_alloc;
            mc::max_alloc = size_t(1) << 18;
            try
            {
                if (how == 0) load(dst.value(), in);
                else if (how == 1) { Exact e(in); load(dst.value(), e.p, e.n); }
                else { ChunkInput s(in); load(dst.value(), s); }
            }
            catch (std::exception const& e) { threw = true; msg = e.what(); }
            mc::max_alloc = old_max;
            c.step();
            MC_CHECK(threw == !valid, id + (threw ? ":rejected-valid" : ":accepted"),
                string(threw ? "well-formed input rejected (" + msg + ")" : "malformed input accepted") + ": " + what_of(t, v) + "\n input " + hexs(in) + "\n original " + hexs(good));
            if (valid) { MV got = dst.get(); MC_CHECK(got == expected, id + ":value", what_of(t, v) + " input " + hexs(in) + " got " + show(t, got)); c.count("mutations that are well-formed"); }
            else c.count("mutations rejected");
            // whatever happened, the destination is still a valid value
            static volatile unsigned sink; sink = touch(t, dst.p);
            load(dst.value(), good);
            MC_CHECK(dst.get() == v, id + ":reload", what_of(t, v) + " after input " + hexs(in));
            destroy(dst.value()); dst.live = false;
            c.step(2);
        }
        MC_CHECK(mc::live_allocs == before, id + ":leak", what_of(t, v) + " input " + hexs(in));
    }
}
static void malformed(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    if (t->has_zero_dim) throw mc::Prune();
    size_t tail = trailing(t);
    Bytes good = concrete(encode(t, k.v));
    if (good.size() > 5000) throw mc::Prune();
    int prior = c.choose(2, "destination");
    size_t step = good.size() <= 60 ? 1 : good.size() / 30;
    for (size_t n = 0; n < good.size(); n += (n + 12 >= good.size() ? 1 : step))
        attempt(c, t, Bytes(good.begin(), good.begin() + n), good, k.v, "truncated", prior);
    for (size_t n : { 1, 2, 3, 4, 7, 8, 9, 16, 24 })
    {
        if (n <= tail) continue; // part of the trailing padding: unspecified
        Bytes b = good; b.resize(b.size() + n, 0x11);
        attempt(c, t, b, good, k.v, "extended", prior);
    }
    if (tail) { Bytes b = good; b.resize(b.size() + tail, 0x11); attempt(c, t, b, good, k.v, "with-trailing-padding", prior); }
    vector<size_t> es, pos = count_positions(t, k.v, &es);
    for (size_t i = 0; i < pos.size() && i < 4; ++i)
    {
        if (pos[i] + 8 > good.size()) continue;
        uint64_t old; memcpy(&old, &good[pos[i]], 8);
        uint64_t wrap = UINT64_MAX / es[i] + 1;
        for (uint64_t n : { uint64_t(0), old - 1, old + 1, old + 2, uint64_t(100), uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 60, uint64_t(1) << 61,
                uint64_t(1) << 63, UINT64_MAX, UINT64_MAX - 7, wrap, wrap + 1, wrap + old, (uint64_t(1) << 63) / es[i] })
        {
            if (n == old) continue;
            Bytes b = good; memcpy(&b[pos[i]], &n, 8);
            attempt(c, t, b, good, k.v, "count", prior);
        }
    }
}
MC_BODY("C03", "chain") { malformed(c, chain_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C03", "flat") { malformed(c, flat_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C03", "sized")
{
    Case k = sized_case(c);
    if (k.t->n_leaves > 100) throw mc::Prune();
    malformed(c, k);
}

// -------------------------------------------------------------------- C04
// The harness provides ::write(), so that it decides what the system answers
static thread_local struct { int fd; long calls; long at; int mode; Bytes* out; } wr = { -1, 0, -1, 0, nullptr };
static size_t mode_half(size_t n) { return n / 2; }
extern "C" ssize_t write(int fd, void const* p, size_t n)
{
    typedef ssize_t (*W)(int, void const*, size_t);
    static W real = reinterpret_cast<W>(dlsym(RTLD_NEXT, "write"));
    if (fd != wr.fd || fd < 0) return real(fd, p, n);
    long call = wr.calls++;
    if (call == wr.at)
        switch (wr.mode)
        {
            case 0: errno = EIO; return -1;
            case 1: errno = ENOSPC; return -1;
            case 2: errno = EINTR; return -1;
            case 3: errno = EAGAIN; return -1;
            case 4: if (n > 1) { n /= 2; break; } errno = EIO; return -1;     // short write
            case 5: if (n > 1) { n -= 1; break; } errno = EIO; return -1;
            case 6: if (n > 1) { n = 1; break; } errno = EIO; return -1;
            case 7: return 0;
            case 8: case 9: case 10: if (n > 1) { n = mode_half(n); break; } errno = EIO; return -1;
            case 11: case 12: if (n > 1) { n = 1; break; } errno = EIO; return -1;
        }
    // what follows the first incident
    if (wr.at >= 0 && call > wr.at)
        switch (wr.mode)
        {
            case 8: if (call == wr.at + 1 && n > 1) n = mode_half(n); break;     // short again
            case 9: if (call == wr.at + 1) { errno = EIO; return -1; } break;   // then an error
            case 10: if (call == wr.at + 1) return 0; break;
            case 11: n = 1; break;                                              // one byte at a time
            case 12: if (call == wr.at + 1) { errno = EINTR; return -1; } if (call == wr.at + 2) n = 1; break;
        }
    // after a permanent failure everything fails
    if (wr.at >= 0 && call > wr.at && (wr.mode <= 1)) { errno = EIO; return -1; }
    uint8_t const* b = static_cast<uint8_t const*>(p);
    wr.out->insert(wr.out->end(), b, b + n);
    return n;
}
struct Cookie { Bytes out; size_t limit; };
static ssize_t cookie_write(void* ck, char const* p, size_t n)
{
    Cookie* k = static_cast<Cookie*>(ck);
    if (k->out.size() + n > k->limit) n = k->limit - k->out.size();
    k->out.insert(k->out.end(), p, p + n);
    return n; // less than n is an error
}
struct LimitBuf : streambuf
{
    Bytes out; size_t limit;
    int overflow(int ch) { if (out.size() >= limit) return EOF; out.push_back(ch); return ch; }
};
static void faults(Ctx& c, Case const& k)
{
    describe(c, k);
    MT* t = k.t;
    Mem src(t); src.set(k.v);
    Value v = src.value();
    MemoryLayout L = layout_of(*t->real);
    Bytes ref = dump(v);
    CollectOutput full; dump(v, full);
    size_t calls = full.calls;
    // a buffer that is too small
    size_t step = ref.size() <= 60 ? 1 : ref.size() / 30;
    for (size_t n = 0; n < ref.size(); n += (n + 12 >= ref.size() ? 1 : step))
        for (int how = 0; how < 3; ++how)
        {
            Exact e(n, 0xC7);
            int r = how == 0 ? dump(v, e.p, e.n) : how == 1 ? dump(v, e.p, e.n, L) : dump(src.p, e.p, e.n, L);
            c.step();
            MC_CHECK(r == 0, "short-buffer", mc::fmt("returned %d for a buffer of %zu bytes, %zu needed: ", r, n, ref.size()) + what_of(t, k.v));
        }
    // a stream that throws at its k-th write
    size_t cstep = calls <= 24 ? 1 : calls / 12;
    for (size_t f = 0; f < calls; f += cstep)
    {
        CollectOutput o(f); bool threw = false;
        try { dump(v, o); } catch (CollectOutput::Injected) { threw = true; }
        c.step();
        MC_CHECK(threw, "stream-exception-lost", what_of(t, k.v));
        MC_CHECK(o.b.size() <= ref.size() && equal(o.b.begin(), o.b.end(), ref.begin()), "stream-prefix", what_of(t, k.v));
    }
    // a descriptor: the k-th write() fails, or is short
    for (int how = 0; how < 3; ++how)
        for (int mode = 0; mode < 13; ++mode)
            for (size_t f = 0; f < calls; f += cstep)
            {
                Bytes out; bool threw = false;
                wr.fd = 987654; wr.calls = 0; wr.at = f; wr.mode = mode; wr.out = &out;
                try { if (how == 0) dump(v, 987654); else if (how == 1) dump(v, 987654, L); else dump(src.p, 987654, L); }
                catch (std::exception&) { threw = true; }
                bool hit = wr.calls > long(f);
                wr.fd = -1;
                c.step();
                MC_CHECK(threw || out == ref, mc::fmt("fd:lost:mode%d", mode), mc::fmt("write %zu failed (mode %d), dump() reported success but %zu bytes of %zu were written: ", f, mode, out.size(), ref.size()) + what_of(t, k.v));
                MC_CHECK(out.size() <= ref.size() && equal(out.begin(), out.end(), ref.begin()), "fd:prefix", what_of(t, k.v));
                if (hit) c.count(threw ? "failed writes reported" : "failed writes recovered");
            }
    // FILE and ostream: reported by an exception or by the stream's own state
    for (size_t n = 0; n < ref.size(); n += step)
    {
        Cookie ck; ck.limit = n;
        cookie_io_functions_t io = { nullptr, cookie_write, nullptr, nullptr };
        FILE* f = fopencookie(&ck, "w", io);
        bool threw = false;
        setvbuf(f, nullptr, _IONBF, 0);
        try { dump(v, f); } catch (std::exception&) { threw = true; }
        bool err = ferror(f) || fflush(f); fclose(f);
        c.step();
        MC_CHECK(threw || err, "FILE:lost", mc::fmt("stream accepts %zu bytes of %zu and nothing is reported: ", n, ref.size()) + what_of(t, k.v));
        LimitBuf lb; lb.limit = n; ostream os(&lb); threw = false;
        try { dump(v, os); } catch (std::exception&) { threw = true; }
        c.step();
        MC_CHECK(threw || !os, "ostream:lost", what_of(t, k.v));
    }
    MC_CHECK(src.get() == k.v, "source-changed", what_of(t, k.v));
}
MC_BODY("C04", "chain") { faults(c, chain_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C04", "flat") { faults(c, flat_case(c, c.thorough ? 3 : 2)); }
MC_BODY("C04", "sized")
{
    Case k = sized_case(c);
    if (k.t->n_leaves > 100 || encode(k.t, k.v).size() > 3000) throw mc::Prune();
    faults(c, k);
}
