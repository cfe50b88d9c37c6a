// See mt.hh. Must not be instrumented itself, and its headers must not leave inline functions to others: keep last in the link.
#include "mt.hh"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <dlfcn.h>
#include <cxxabi.h>
#include <exception>
#include <list>
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <typeinfo>
#include <unistd.h>
#include <time.h>

extern "C" void* __libc_malloc(size_t); extern "C" void __libc_free(void*); extern "C" void* __libc_calloc(size_t, size_t);
extern "C" void* __libc_realloc(void*, size_t); extern "C" void* __libc_memalign(size_t, size_t);

namespace
{
    const int MAXT = 5; // thread 0 is the one that calls run()
    typedef uint32_t Clock;
    struct VC { Clock c[MAXT]; };
    void join(VC& a, VC const& b) { for (int i = 0; i < MAXT; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

    // synchronisation objects, by address
    struct Sync { void const* addr; VC vc; int owner, depth, readers, state; };
    const int MAX_SYNC = 4096;
    Sync* syncs; int n_syncs;

    // shadow memory: cells of 8 bytes in a hash table, valid for one run
    struct Cell { uintptr_t a; uint32_t gen; uint8_t freed, rm[MAXT], wm[MAXT]; Clock r[MAXT], w[MAXT]; void* rpc[MAXT]; void* wpc[MAXT]; };
    const size_t CELLS = size_t(1) << 18; Cell* cells; uint32_t gen; size_t used;

    struct Thread { pthread_t id; sem_t sem; VC vc; bool done; void const* waits; int wait_kind; bool signalled; std::function<void()> const* body; char error[400]; };
    Thread T[MAXT]; int n_threads; int current; // 0: not managed
    sem_t main_sem;
    bool managed = false; int quiet = 0;
    mc::Ctx* ctx; int budget; mt::Stats stats;
    char problem_key[64], problem[1200];
    void** quarantine; size_t n_quarantine, cap_quarantine;

    __thread int my_id = 0;
    bool mine() { return managed && my_id == current; } // the threads that start or end are not concerned
    bool on() { return managed && !quiet && my_id == current; }
    struct Hush { Hush() { ++quiet; } ~Hush() { --quiet; } };
    void zero(void* d, size_t n) { asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(0) : "memory"); }

    void where(char* to, size_t n, void* pc)
    {
        Dl_info i; if (!dladdr(pc, &i) || !i.dli_sname) { snprintf(to, n, "%p", pc); return; }
        int st; char* d = abi::__cxa_demangle(i.dli_sname, 0, 0, &st); snprintf(to, n, "%.200s+0x%lx", d ? d : i.dli_sname, (unsigned long)((char*)pc - (char*)i.dli_saddr)); __libc_free(d);
    }
    void problem_at(char const* key, char const* what, void* pc1, int t1, char const* what2, void* pc2, int t2)
    {
        if (problem_key[0]) return;
        ++quiet;
        char a[300], b[300]; where(a, sizeof a, pc1); if (pc2) where(b, sizeof b, pc2); else b[0] = 0;
        snprintf(problem_key, sizeof problem_key, "%s", key);
        snprintf(problem, sizeof problem, "%s by thread %d in %s\n%s by thread %d in %s", what, t1, a, what2, t2, b);
        --quiet;
    }
    void access(uintptr_t a, size_t n, bool write, void* pc);
    Cell* cell(uintptr_t a)
    {
        size_t h = (a >> 3) * 0x9E3779B97F4A7C15ULL >> 46;
        for (;; h = (h + 1) & (CELLS - 1))
        {
            Cell& c = cells[h];
            if (c.gen != gen)
            {
                if (++used > CELLS * 3 / 4) { fprintf(stderr, "mt: too many cells\n"); _exit(81); }
                zero(&c, sizeof c); c.gen = gen; c.a = a; return &c;
            }
            if (c.a == a) return &c;
        }
    }
    void touch(uintptr_t a8, uint8_t mask, bool write, void* pc)
    {
        Cell* c = cell(a8); int t = current; VC const& v = T[t].vc;
        if (c->freed) problem_at("use-after-release", write ? "write" : "read", pc, t, "release", c->wpc[c->freed], c->freed);
        for (int o = 1; o <= n_threads; ++o)
        {
            if (o == t) continue;
            if (c->w[o] > v.c[o] && (c->wm[o] & mask)) problem_at("race", write ? "write" : "read", pc, t, "concurrent write", c->wpc[o], o);
            if (write && c->r[o] > v.c[o] && (c->rm[o] & mask)) problem_at("race", "write", pc, t, "concurrent read", c->rpc[o], o);
        }
        Clock now = v.c[t];
        if (write) { c->wm[t] = c->w[t] == now ? c->wm[t] | mask : mask; c->w[t] = now; c->wpc[t] = pc; }
        else { c->rm[t] = c->r[t] == now ? c->rm[t] | mask : mask; c->r[t] = now; c->rpc[t] = pc; }
    }
    void access(uintptr_t a, size_t n, bool write, void* pc)
    {
        Hush h; ++stats.accesses;
        while (n)
        {
            uintptr_t base = a & ~uintptr_t(7); size_t off = a - base, k = 8 - off < n ? 8 - off : n;
            touch(base, uint8_t(((1u << k) - 1) << off), write, pc);
            a += k; n -= k;
        }
    }
    void fresh(void* p)
    {
        if (!p) return;
        uintptr_t a = uintptr_t(p), e = a + malloc_usable_size(p);
        for (a &= ~uintptr_t(7); a < e; a += 8) { size_t h = (a >> 3) * 0x9E3779B97F4A7C15ULL >> 46; for (;; h = (h + 1) & (CELLS - 1)) { Cell& c = cells[h]; if (c.gen != gen) break; if (c.a == a) { zero(c.r, sizeof c.r); zero(c.w, sizeof c.w); c.freed = 0; break; } } }
    }
    void release(void* p, void* pc)
    {
        if (!p) return;
        Hush hush; uintptr_t a = uintptr_t(p); size_t n = malloc_usable_size(p);
        if (n > 4096) n = 4096;
        for (size_t i = 0; i < n; i += 8) { touch(a + i, 0xff, true, pc); cell(a + i)->freed = current; }
        if (n_quarantine == cap_quarantine) { cap_quarantine = cap_quarantine ? cap_quarantine * 2 : 1024; quarantine = (void**)__libc_realloc(quarantine, cap_quarantine * sizeof(void*)); }
        quarantine[n_quarantine++] = p;
    }

    Sync& sync_of(void const* p)
    {
        for (int i = 0; i < n_syncs; ++i) if (syncs[i].addr == p) return syncs[i];
        if (n_syncs == MAX_SYNC) { fprintf(stderr, "mt: too many synchronisation objects\n"); _exit(81); }
        Sync& s = syncs[n_syncs++]; zero(&s, sizeof s); s.addr = p; return s;
    }
    void acquire(Sync& s) { join(T[current].vc, s.vc); ++stats.syncs; }
    void release(Sync& s) { join(s.vc, T[current].vc); ++T[current].vc.c[current]; ++stats.syncs; }

    enum { FREE, MUTEX, RDLOCK, WRLOCK, GUARD, COND };
    bool enabled(int t)
    {
        if (T[t].done) return false;
        switch (T[t].wait_kind)
        {
            case FREE: return true;
            case MUTEX: return sync_of(T[t].waits).owner == 0;
            case WRLOCK: { Sync& s = sync_of(T[t].waits); return s.owner == 0 && s.readers == 0; }
            case RDLOCK: return sync_of(T[t].waits).owner == 0;
            case GUARD: return sync_of(T[t].waits).state != 1;
            case COND: return T[t].signalled;
        }
        return true;
    }
    void sem_wait_(sem_t* s)
    {
        timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 60;
        while (sem_timedwait(s, &ts)) if (errno == ETIMEDOUT) { fprintf(stderr, "mt: a thread blocks outside of the scheduler\n"); _exit(82); }
    }
    // the running thread stops here (it waits for something, is done, or can be preempted) and another may go on
    void schedule()
    {
        ++quiet;
        int me = current, options[MAXT], n = 0; bool go = enabled(me);
        if (go) options[n++] = me;
        if (!go || budget != 0) for (int t = 1; t <= n_threads; ++t) if (t != me && enabled(t)) options[n++] = t;
        if (!n)
        {
            bool all = true; for (int t = 1; t <= n_threads; ++t) all = all && T[t].done;
            if (all) { my_id = -1; current = 0; --quiet; sem_post(&main_sem); return; }
            fprintf(stderr, "DEADLOCK:"); for (int t = 1; t <= n_threads; ++t) fprintf(stderr, " thread %d %s;", t, T[t].done ? "is done" : "waits"); fprintf(stderr, "\n");
            abort();
        }
        int k = n > 1 ? ctx->choose(n, "thread") : 0;
        ++stats.points;
        if (go && k) { ++stats.preemptions; if (budget > 0) --budget; }
        int next = options[k];
        if (next != me) { bool done = T[me].done; if (done) my_id = -1; current = next; --quiet; sem_post(&T[next].sem); if (!done) sem_wait_(&T[me].sem); }
        else --quiet;
    }
    // waits until the condition holds, then goes on
    void block(int kind, void const* on) { T[current].wait_kind = kind; T[current].waits = on; schedule(); T[current].wait_kind = FREE; }
    void* entry(void* p)
    {
        int me = int(intptr_t(p));
        sem_wait_(&T[me].sem);
        my_id = me;
        try { (*T[me].body)(); }
        catch (mc::Failure const& f) { ++quiet; if (!problem_key[0]) { snprintf(problem_key, sizeof problem_key, "%s", f.key.c_str()); snprintf(problem, sizeof problem, "in thread %d: %s", me, f.msg.c_str()); } --quiet; }
        catch (std::exception const& e) { ++quiet; if (!problem_key[0]) { snprintf(problem_key, sizeof problem_key, "exception"); snprintf(problem, sizeof problem, "exception in thread %d: %s", me, e.what()); } --quiet; }
        T[me].done = true; schedule();
        return 0;
    }
}

namespace mt
{
    int self() { return managed ? current : 0; }
    Quiet::Quiet() { ++quiet; }
    Quiet::~Quiet() { --quiet; }
    void yield() { if (on()) schedule(); }
    Stats run(mc::Ctx& c, std::vector<std::function<void()>> const& bodies, int preemptions)
    {
        if (!cells) { cells = (Cell*)__libc_calloc(CELLS, sizeof(Cell)); syncs = (Sync*)__libc_calloc(MAX_SYNC, sizeof(Sync)); }
        ++gen; used = 0; n_syncs = 0; n_quarantine = 0; problem_key[0] = 0; memset(&stats, 0, sizeof stats);
        ctx = &c; budget = preemptions; n_threads = bodies.size(); quiet = 0;
        if (n_threads >= MAXT) abort();
        sem_init(&main_sem, 0, 0);
        for (int t = 1; t <= n_threads; ++t)
        {
            T[t].done = false; T[t].wait_kind = FREE; T[t].body = &bodies[t - 1]; memset(&T[t].vc, 0, sizeof(VC)); T[t].vc.c[t] = 1; T[t].signalled = false;
            sem_init(&T[t].sem, 0, 0);
            if (pthread_create(&T[t].id, 0, entry, (void*)intptr_t(t))) { perror("pthread_create"); _exit(83); }
        }
        // who starts is a choice as well
        int first = 1 + (n_threads > 1 ? c.choose(n_threads, "first thread") : 0);
        current = first; managed = true;
        sem_post(&T[first].sem); sem_wait_(&main_sem);
        managed = false; current = 0;
        for (int t = 1; t <= n_threads; ++t) { pthread_join(T[t].id, 0); sem_destroy(&T[t].sem); }
        sem_destroy(&main_sem);
        for (size_t i = 0; i < n_quarantine; ++i) __libc_free(quarantine[i]);
        n_quarantine = 0;
        if (problem_key[0]) mc::fail(problem_key, problem);
        return stats;
    }
}

// ------------------------------------------------------------------ memory
#define PC __builtin_return_address(0)
extern "C"
{
    void* malloc(size_t n) { void* p = __libc_malloc(n); if (mine()) fresh(p); return p; }
    void* calloc(size_t n, size_t m) { void* p = __libc_calloc(n, m); if (mine()) fresh(p); return p; }
    void free(void* p) { if (on()) release(p, PC); else __libc_free(p); }
    void* realloc(void* p, size_t n)
    {
        if (!on()) { p = __libc_realloc(p, n); if (mine()) fresh(p); return p; }
        void* q = __libc_malloc(n); fresh(q); if (p && q) { size_t o = malloc_usable_size(p); __builtin_memcpy(q, p, o < n ? o : n); release(p, PC); } return q;
    }
    void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (mine()) fresh(p); return p; }
    void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
    int posix_memalign(void** r, size_t a, size_t n) { *r = memalign(a, n); return *r ? 0 : ENOMEM; }

    static void rd(void const* p, size_t n, void* pc) { if (on() && n) access(uintptr_t(p), n, false, pc); }
    static void wr(void const* p, size_t n, void* pc) { if (on() && n) access(uintptr_t(p), n, true, pc); }
    void* memcpy(void* d, void const* s, size_t n) { rd(s, n, PC); wr(d, n, PC); void* r = d; asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); return r; }
    void* memmove(void* d, void const* s, size_t n)
    {
        rd(s, n, PC); wr(d, n, PC); void* r = d;
        if (d <= s || (char*)d >= (char const*)s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
        else { char* d2 = (char*)d + n - 1; char const* s2 = (char const*)s + n - 1; asm volatile("std; rep movsb; cld" : "+D"(d2), "+S"(s2), "+c"(n) : : "memory"); }
        return r;
    }
    void* memset(void* d, int v, size_t n) { wr(d, n, PC); void* r = d; asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory"); return r; }
    int memcmp(void const* a, void const* b, size_t n) { rd(a, n, PC); rd(b, n, PC); unsigned char const* x = (unsigned char const*)a; unsigned char const* y = (unsigned char const*)b; for (; n; --n, ++x, ++y) { if (*x != *y) return *x - *y; asm volatile("" : : : "memory"); } return 0; }

    void __tsan_init() {}
    void __tsan_func_entry(void*) {}
    void __tsan_func_exit() {}
    void __tsan_read1(void* p) { rd(p, 1, PC); }   void __tsan_write1(void* p) { wr(p, 1, PC); }
    void __tsan_read2(void* p) { rd(p, 2, PC); }   void __tsan_write2(void* p) { wr(p, 2, PC); }
    void __tsan_read4(void* p) { rd(p, 4, PC); }   void __tsan_write4(void* p) { wr(p, 4, PC); }
    void __tsan_read8(void* p) { rd(p, 8, PC); }   void __tsan_write8(void* p) { wr(p, 8, PC); }
    void __tsan_read16(void* p) { rd(p, 16, PC); } void __tsan_write16(void* p) { wr(p, 16, PC); }
    void __tsan_unaligned_read2(void* p) { rd(p, 2, PC); }   void __tsan_unaligned_write2(void* p) { wr(p, 2, PC); }
    void __tsan_unaligned_read4(void* p) { rd(p, 4, PC); }   void __tsan_unaligned_write4(void* p) { wr(p, 4, PC); }
    void __tsan_unaligned_read8(void* p) { rd(p, 8, PC); }   void __tsan_unaligned_write8(void* p) { wr(p, 8, PC); }
    void __tsan_unaligned_read16(void* p) { rd(p, 16, PC); } void __tsan_unaligned_write16(void* p) { wr(p, 16, PC); }
    void __tsan_volatile_read1(void* p) { rd(p, 1, PC); }   void __tsan_volatile_write1(void* p) { wr(p, 1, PC); }
    void __tsan_volatile_read2(void* p) { rd(p, 2, PC); }   void __tsan_volatile_write2(void* p) { wr(p, 2, PC); }
    void __tsan_volatile_read4(void* p) { rd(p, 4, PC); }   void __tsan_volatile_write4(void* p) { wr(p, 4, PC); }
    void __tsan_volatile_read8(void* p) { rd(p, 8, PC); }   void __tsan_volatile_write8(void* p) { wr(p, 8, PC); }
    void __tsan_volatile_read16(void* p) { rd(p, 16, PC); } void __tsan_volatile_write16(void* p) { wr(p, 16, PC); }
    void __tsan_read_range(void* p, size_t n) { rd(p, n, PC); }
    void __tsan_write_range(void* p, size_t n) { wr(p, n, PC); }
    void __tsan_vptr_update(void** p, void* v) { if (*p != v) wr(p, 8, PC); }
    void __tsan_vptr_read(void** p) { rd(p, 8, PC); }

    // --------------------------------------------------------------- atomics: sequentially consistent
    static void at(void const volatile* p) { if (on()) { schedule(); Sync& s = sync_of((void const*)p); acquire(s); } }
    static void at_end(void const volatile* p) { if (on()) { Sync& s = sync_of((void const*)p); release(s); } }
#define ATOMICS(bits, T) \
    T __tsan_atomic##bits##_load(T const volatile* a, int) { at(a); return *a; } \
    void __tsan_atomic##bits##_store(T volatile* a, T v, int) { at(a); *a = v; at_end(a); } \
    T __tsan_atomic##bits##_exchange(T volatile* a, T v, int) { at(a); T o = *a; *a = v; at_end(a); return o; } \
    T __tsan_atomic##bits##_fetch_add(T volatile* a, T v, int) { at(a); T o = *a; *a = o + v; at_end(a); return o; } \
    T __tsan_atomic##bits##_fetch_sub(T volatile* a, T v, int) { at(a); T o = *a; *a = o - v; at_end(a); return o; } \
    T __tsan_atomic##bits##_fetch_and(T volatile* a, T v, int) { at(a); T o = *a; *a = o & v; at_end(a); return o; } \
    T __tsan_atomic##bits##_fetch_or(T volatile* a, T v, int) { at(a); T o = *a; *a = o | v; at_end(a); return o; } \
    T __tsan_atomic##bits##_fetch_xor(T volatile* a, T v, int) { at(a); T o = *a; *a = o ^ v; at_end(a); return o; } \
    int __tsan_atomic##bits##_compare_exchange_strong(T volatile* a, T* e, T v, int, int) { at(a); if (*a == *e) { *a = v; at_end(a); return 1; } *e = *a; return 0; } \
    int __tsan_atomic##bits##_compare_exchange_weak(T volatile* a, T* e, T v, int, int) { at(a); if (*a == *e) { *a = v; at_end(a); return 1; } *e = *a; return 0; } \
    T __tsan_atomic##bits##_compare_exchange_val(T volatile* a, T e, T v, int, int) { at(a); T o = *a; if (o == e) { *a = v; at_end(a); } return o; }
    ATOMICS(8, uint8_t) ATOMICS(16, uint16_t) ATOMICS(32, uint32_t) ATOMICS(64, uint64_t)
    void __tsan_atomic_thread_fence(int) { static char f; at(&f); at_end(&f); }
    void __tsan_atomic_signal_fence(int) {}

    // --------------------------------------------------------------- locks
    static int real_lock(char const* name, void* p)
    {
        typedef int (*F)(void*); F f = (F)dlsym(RTLD_NEXT, name); return f ? f(p) : 0;
    }
    static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        static int (*f)(pthread_mutex_t*); if (!on()) { if (!f) f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return f(m); }
        Sync* s = &sync_of(m);
        if (s->owner == current && recursive(m)) { ++s->depth; return 0; }
        schedule(); s = &sync_of(m);
        if (s->owner) { block(MUTEX, m); s = &sync_of(m); }
        s->owner = current; s->depth = 1; acquire(*s); return 0;
    }
    int pthread_mutex_trylock(pthread_mutex_t* m)
    {
        if (!on()) return real_lock("pthread_mutex_trylock", m);
        schedule(); Sync& s = sync_of(m);
        if (s.owner == current && recursive(m)) { ++s.depth; return 0; }
        if (s.owner) return EBUSY;
        s.owner = current; s.depth = 1; acquire(s); return 0;
    }
    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        static int (*f)(pthread_mutex_t*); if (!on()) { if (!f) f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return f(m); }
        Sync& s = sync_of(m);
        if (s.owner != current) { problem_at("unlock", "unlock of a mutex that is not held", PC, current, "", 0, 0); return EPERM; }
        if (--s.depth == 0) { s.owner = 0; release(s); }
        return 0;
    }
    int pthread_rwlock_rdlock(pthread_rwlock_t* m)
    {
        if (!on()) return real_lock("pthread_rwlock_rdlock", m);
        schedule(); if (sync_of(m).owner) block(RDLOCK, m); Sync& s = sync_of(m); ++s.readers; acquire(s); return 0;
    }
    int pthread_rwlock_wrlock(pthread_rwlock_t* m)
    {
        if (!on()) return real_lock("pthread_rwlock_wrlock", m);
        schedule(); { Sync& s = sync_of(m); if (s.owner || s.readers) block(WRLOCK, m); } Sync& s = sync_of(m); s.owner = current; acquire(s); return 0;
    }
    int pthread_rwlock_unlock(pthread_rwlock_t* m)
    {
        if (!on()) return real_lock("pthread_rwlock_unlock", m);
        Sync& s = sync_of(m); if (s.owner == current) s.owner = 0; else --s.readers; release(s); return 0;
    }
    int pthread_cond_wait(pthread_cond_t* cv, pthread_mutex_t* m)
    {
        if (!on()) { typedef int (*F)(pthread_cond_t*, pthread_mutex_t*); return ((F)dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"))(cv, m); }
        T[current].signalled = false; pthread_mutex_unlock(m); block(COND, cv); return pthread_mutex_lock(m);
    }
    static void wake(pthread_cond_t* cv, bool all) { for (int t = 1; t <= n_threads; ++t) if (!T[t].done && T[t].wait_kind == COND && T[t].waits == cv && !T[t].signalled) { T[t].signalled = true; if (!all) break; } }
    int pthread_cond_signal(pthread_cond_t* cv) { if (!on()) { typedef int (*F)(pthread_cond_t*); return ((F)dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"))(cv); } wake(cv, false); return 0; }
    int pthread_cond_broadcast(pthread_cond_t* cv) { if (!on()) { typedef int (*F)(pthread_cond_t*); return ((F)dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"))(cv); } wake(cv, true); return 0; }

    // guards of static variables: byte 0 is what the compiler tests
    int __cxa_guard_acquire(int64_t* g)
    {
        char* b = (char*)g;
        if (!on()) { if (*b) return 0; return 1; } // one thread only
        schedule();
        if (sync_of(g).state == 1) block(GUARD, g);
        Sync& s = sync_of(g); acquire(s);
        if (*b) return 0;
        s.state = 1; return 1;
    }
    void __cxa_guard_release(int64_t* g) { *(char*)g = 1; if (on()) { Sync& s = sync_of(g); s.state = 2; release(s); } }
    void __cxa_guard_abort(int64_t* g) { if (on()) { Sync& s = sync_of(g); s.state = 0; release(s); } }
    int pthread_once(pthread_once_t* o, void (*f)())
    {
        if (!on()) { typedef int (*F)(pthread_once_t*, void (*)()); static F r; if (!r) r = (F)dlsym(RTLD_NEXT, "pthread_once"); return r(o, f); }
        if (*o == 2 && sync_of(o).state == 0) return 0; // done before the threads started
        schedule(); if (sync_of(o).state == 1) block(GUARD, o);
        { Sync& s = sync_of(o); acquire(s); if (s.state == 2 || *o) return 0; s.state = 1; }
        f(); Sync& s = sync_of(o); s.state = 2; *o = 2; release(s); return 0;
    }
}

// --------------------------------------------------------------- what libstdc++ does with the nodes of maps and lists
namespace std
{
    static void rdn(_Rb_tree_node_base const* x) { if (on()) access(uintptr_t(x), sizeof *x, false, PC); }
    static void wrn(_Rb_tree_node_base const* x) { if (on()) access(uintptr_t(x), sizeof *x, true, PC); }
    _Rb_tree_node_base* next_(_Rb_tree_node_base* x)
    {
        rdn(x);
        if (x->_M_right) { x = x->_M_right; rdn(x); while (x->_M_left) { x = x->_M_left; rdn(x); } return x; }
        _Rb_tree_node_base* y = x->_M_parent; rdn(y); while (x == y->_M_right) { x = y; y = y->_M_parent; rdn(y); } return x->_M_right != y ? y : x;
    }
    _Rb_tree_node_base* prev_(_Rb_tree_node_base* x)
    {
        rdn(x);
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { x = x->_M_left; rdn(x); while (x->_M_right) { x = x->_M_right; rdn(x); } return x; }
        _Rb_tree_node_base* y = x->_M_parent; rdn(y); while (x == y->_M_left) { x = y; y = y->_M_parent; rdn(y); } return y;
    }
    _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return next_(x); }
    _Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) throw() { return next_(const_cast<_Rb_tree_node_base*>(x)); }
    _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return prev_(x); }
    _Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) throw() { return prev_(const_cast<_Rb_tree_node_base*>(x)); }
    void _Rb_tree_insert_and_rebalance(bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
    {
        typedef void (*F)(bool, _Rb_tree_node_base*, _Rb_tree_node_base*, _Rb_tree_node_base&); static F f;
        if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_");
        wrn(x); wrn(p); wrn(&h); f(left, x, p, h);
    }
    _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* z, _Rb_tree_node_base& h) throw()
    {
        typedef _Rb_tree_node_base* (*F)(_Rb_tree_node_base*, _Rb_tree_node_base&); static F f;
        if (!f) f = (F)dlsym(RTLD_NEXT, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_");
        wrn(z); wrn(z->_M_parent); wrn(&h); return f(z, h);
    }
    namespace __detail
    {
        void _List_node_base::_M_hook(_List_node_base* p) noexcept { if (on()) { access(uintptr_t(this), 16, true, PC); access(uintptr_t(p), 16, true, PC); access(uintptr_t(p->_M_prev), 16, true, PC); } _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { if (on()) { access(uintptr_t(this), 16, false, PC); access(uintptr_t(_M_prev), 8, true, PC); access(uintptr_t(_M_next) + 8, 8, true, PC); } _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
    }
}
