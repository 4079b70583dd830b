// Controlled scheduler and happens-before race detector behind clang's -fsanitize=thread instrumentation.
//
// The library and the thread programs are compiled with the instrumentation pass only; this file is the runtime. Exactly
// one thread runs at a time. A thread may lose control only at scheduling points: before an access to a granule known to be
// shared and written, before a synchronisation operation on such a granule, and where it blocks or ends. Every plain and
// atomic access is checked against vector clocks, so an unordered conflicting pair is reported in whatever order it ran.
// Blocking primitives are modelled here (mutexes, rwlocks, once, static guards); memory comes from per-thread arenas that
// are never reused, so address reuse cannot order or confuse accesses.
#include "sched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <locale.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

namespace sched {
static const int NT = MAXT;
static const size_t ARENA = size_t(64) << 20, STACK = size_t(1) << 20;
typedef uint32_t VC[NT];

struct Cell {
    uint64_t addr;
    VC w, r, aw, ar;            // last clock of each thread's plain write/read, atomic write/read
    void *pc[NT];               // last code address of each thread here
};
struct Sync {
    uint64_t addr;
    VC clk, rdclk;
    int owner, count, readers[NT], state;   // owner: -1 free, -2 locked outside any thread
};
static const size_t NCELL = size_t(1) << 21, NSYNC = size_t(1) << 14, NCONF = size_t(1) << 16;
static Cell *cells; static Sync *syncs; static uint64_t *conft; static uint32_t ngran;
static struct Gran { uint64_t g; uint8_t rd, wr; } *gran;
static const size_t NGRAN = size_t(1) << 19; static uint32_t *granlist;

static __thread int tid = -1;
static __thread int inrt = 0;
static bool active = false;
static int nthreads; static bool done[NT]; static struct { int kind; Sync *s; } blocked[NT];
static VC clk[NT], pendacq[NT], relfence[NT];
static sem_t sem[NT], finished;
static char *stk[NT];
static const uint8_t *prefix; static size_t nprefix;
static Out *out;
static uint32_t spin, steps;
static void (*bodyf)(int, void *); static void *bodyarg;

[[noreturn]] static void stop(uint32_t st, const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(out->msg, sizeof out->msg, fmt, ap); va_end(ap);
    out->status = st;
    _exit(0);
}
static size_t hsh(uint64_t x) { x *= 0x9E3779B97F4A7C15ull; return size_t(x ^ (x >> 29)); }
static void *anon(size_t n) { void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; }

// ---- arenas
static char *arena[NT + 1]; static size_t used[NT + 1];
static void *take(size_t n) {
    int a = tid + 1; if (!arena[a]) arena[a] = static_cast<char *>(anon(ARENA));
    size_t o = (used[a] + 15) & ~size_t(15); if (o + n + 16 > ARENA) return nullptr;
    *reinterpret_cast<size_t *>(arena[a] + o) = n; used[a] = o + 16 + n; return arena[a] + o + 16;
}
static bool ours(const void *p) { for (int a = 0; a <= NT; a++) if (arena[a] && p >= arena[a] && p < arena[a] + ARENA) return true; return false; }
static size_t size_of(const void *p) { return *reinterpret_cast<const size_t *>(static_cast<const char *>(p) - 16); }

static bool conflicting(uint64_t g) { for (size_t h = hsh(g);; h++) { uint64_t v = conft[h & (NCONF - 1)]; if (v == g + 1) return true; if (!v) return false; } }

static const char *where(void *pc, char *b, size_t n) {
    Dl_info i; if (dladdr(pc, &i) && i.dli_sname) snprintf(b, n, "%s+0x%lx", i.dli_sname, (unsigned long)((char *)pc - (char *)i.dli_saddr)); else snprintf(b, n, "%p", pc); return b;
}
static void wake(int t) { sem_post(&sem[t]); }
static void sleep_() { while (sem_wait(&sem[tid]) && errno == EINTR) {} }

static bool can_run(int t) {
    if (done[t]) return false;
    Sync *s = blocked[t].s; if (!s) return true;
    switch (blocked[t].kind) {
    case 1: { int rd = 0; for (int i = 0; i < NT; i++) rd += s->readers[i]; return s->owner == -1 && !rd; }   // exclusive
    case 2: return s->owner == -1;                 // shared
    case 3: return s->state != 1;                  // once / guard in progress
    }
    return true;
}
// choose who runs next; the caller is tid (or -1 for the start). Returns after the caller has control again.
static void choose(bool avoid_self) {
    uint8_t en = 0; int cnt = 0, firstother = -1;
    for (int k = 1; k <= nthreads; k++) { int t = (tid + k) % nthreads; if (can_run(t)) { if (!(en & (1 << t))) cnt++; en |= uint8_t(1 << t); if (t != tid && firstother < 0) firstother = t; } }
    bool self = tid >= 0 && (en & (1 << tid));
    if (!en) {
        bool all = true; for (int t = 0; t < nthreads; t++) all = all && done[t];
        if (all) { sem_post(&finished); return; }
        stop(DEADLOCK, "deadlock: every unfinished thread waits for another");
    }
    int next;
    if (avoid_self && firstother >= 0) next = firstother;          // a yield: no choice recorded, the others go first
    else if (cnt == 1) next = self ? tid : firstother;
    else {
        uint32_t i = out->npoints; if (i >= MAXP) stop(STEPS, "more than %d scheduling points", int(MAXP));
        int c = self ? tid : firstother;
        if (i < nprefix) { c = prefix[i]; if (!(en & (1 << c))) stop(DIVERGED, "the replayed schedule does not fit the execution at point %u", i); }
        out->pt[i].cur = self ? uint8_t(tid) : 255; out->pt[i].chosen = uint8_t(c); out->pt[i].enabled = en; out->npoints = i + 1; next = c;
    }
    if (next == tid) return;
    spin = 0; int me = tid; wake(next); if (me >= 0 && !done[me]) sleep_();
}
static void touch(uint64_t a, size_t n, bool wr) {
    for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3; g++)
        for (size_t h = (hsh(g >> 7) << 7) + (g & 127);; h++) { Gran &c = gran[h & (NGRAN - 1)]; if (!c.g) { c.g = g + 1; granlist[ngran] = uint32_t(h & (NGRAN - 1)); if (++ngran > NGRAN / 2) stop(STEPS, "too many locations"); } if (c.g == g + 1) { if (wr) c.wr |= uint8_t(1 << tid); else c.rd |= uint8_t(1 << tid); break; } }
}
static void point(uint64_t a, size_t n, bool sync) {
    if (++steps > 200000000u) stop(STEPS, "too many steps");
    bool c = false; for (uint64_t g = a >> 3; g <= (a + n - 1) >> 3 && !c; g++) c = conflicting(g);
    if (sync && ++spin > 500) { spin = 0; choose(true); return; }  // a thread that spins lets the others go
    if (c) choose(false);
}
static Cell *cell(uint64_t a) { for (size_t h = (hsh(a >> 6) << 6) + (a & 63);; h++) { Cell &c = cells[h & (NCELL - 1)]; if (c.addr == a) return &c; if (!c.addr) { c.addr = a; return &c; } } }
static void report(uint64_t a, int other, void *pc, void *opc, const char *what) {
    char b1[200], b2[200], b3[200]; Dl_info i; b3[0] = 0; if (dladdr(reinterpret_cast<void *>(a), &i) && i.dli_sname) snprintf(b3, sizeof b3, " (%s)", i.dli_sname);
    stop(RACE, "data race on %#llx%s: %s; thread %d at %s, thread %d at %s", (unsigned long long)a, b3, what, tid, where(pc, b1, sizeof b1), other, where(opc, b2, sizeof b2));
}
static bool own_stack(uint64_t a) { return a - reinterpret_cast<uint64_t>(stk[tid]) < STACK; }
static void access(const void *p, size_t n, bool wr, bool atomic, void *pc) {
    if (tid < 0 || inrt || !active || !n) return;
    uint64_t a = reinterpret_cast<uint64_t>(p); if (own_stack(a)) return;
    inrt++; out->accesses = out->accesses + 1;
    touch(a, n, wr); point(a, n, atomic);
    uint32_t now = clk[tid][tid];
    for (size_t k = 0; k < n; k++) {
        Cell *c = cell(a + k);
        for (int t = 0; t < nthreads; t++) if (t != tid) {
            uint32_t h = clk[tid][t];
            if (c->w[t] > h) report(a + k, t, pc, c->pc[t], wr ? "two unordered writes" : "a read unordered with a write");
            if (wr && c->r[t] > h) report(a + k, t, pc, c->pc[t], "a write unordered with a read");
            if (!atomic && c->aw[t] > h) report(a + k, t, pc, c->pc[t], "a plain access unordered with an atomic write");
            if (!atomic && wr && c->ar[t] > h) report(a + k, t, pc, c->pc[t], "a plain write unordered with an atomic read");
        }
        (atomic ? (wr ? c->aw : c->ar) : (wr ? c->w : c->r))[tid] = now; c->pc[tid] = pc;
    }
    inrt--;
}
static void join(VC a, const VC b) { for (int i = 0; i < NT; i++) if (b[i] > a[i]) a[i] = b[i]; }
static Sync *sync_at(const void *p) {
    uint64_t a = reinterpret_cast<uint64_t>(p);
    if (!syncs) syncs = static_cast<Sync *>(anon(NSYNC * sizeof(Sync)));
    for (size_t h = hsh(a), k = 0;; h++, k++) { if (k == NSYNC) abort(); Sync &s = syncs[h & (NSYNC - 1)]; if (s.addr == a) return &s; if (!s.addr) { s.addr = a; s.owner = -1; return &s; } }
}
static void acquire(Sync *s) { if (tid >= 0) join(clk[tid], s->clk); }
static void release(Sync *s) { if (tid >= 0) { join(s->clk, clk[tid]); clk[tid][tid]++; } }
// a synchronisation operation on p: a scheduling point, no race
static void sync_point(const void *p) { if (tid < 0 || !active) return; inrt++; uint64_t a = reinterpret_cast<uint64_t>(p); if (!own_stack(a)) { touch(a, 1, true); point(a, 1, true); } inrt--; }
static void block(int kind, Sync *s) {
    if (tid < 0) { if (!active) { fprintf(stderr, "a single thread blocks on its own lock\n"); _exit(98); } return; }
    inrt++; blocked[tid].kind = kind; blocked[tid].s = s;
    while (!can_run(tid)) choose(false);
    blocked[tid].s = nullptr; inrt--;
}

static void *entry(void *q) {
    tid = int(reinterpret_cast<intptr_t>(q)); sleep_();
    bodyf(tid, bodyarg);
    inrt++; done[tid] = true; choose(false);
    for (;;) pause();   // never run thread-exit code: it would escape the scheduler
}
void run(int n, void (*body)(int, void *), void *arg, const uint8_t *pre, size_t npre, const uint64_t *conf, size_t nconf, Out *o) {
    out = o; out->status = DIED; out->npoints = 0; out->nconf = 0; out->accesses = 0; out->msg[0] = 0;
    nthreads = n; prefix = pre; nprefix = npre; bodyf = body; bodyarg = arg;
    cells = static_cast<Cell *>(anon(NCELL * sizeof(Cell))); if (!syncs) syncs = static_cast<Sync *>(anon(NSYNC * sizeof(Sync)));
    conft = static_cast<uint64_t *>(anon(NCONF * 8)); gran = static_cast<Gran *>(anon(NGRAN * sizeof(Gran))); granlist = static_cast<uint32_t *>(anon(NGRAN * 4));
    for (size_t i = 0; i < nconf; i++) { size_t h = hsh(conf[i]); while (conft[h & (NCONF - 1)]) h++; conft[h & (NCONF - 1)] = conf[i] + 1; }
    sem_init(&finished, 0, 0);
    for (int t = 0; t < n; t++) { sem_init(&sem[t], 0, 0); memset(clk[t], 0, sizeof(VC)); clk[t][t] = 1; }
    for (int t = 0; t < n; t++) {
        char *m = static_cast<char *>(anon(STACK + 8192)); stk[t] = m + 4096; mprotect(m, 4096, PROT_NONE); mprotect(m + 4096 + STACK, 4096, PROT_NONE);
        pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstack(&a, stk[t], STACK); pthread_t h;
        if (pthread_create(&h, &a, entry, reinterpret_cast<void *>(intptr_t(t)))) stop(DIED, "pthread_create failed");
    }
    active = true; choose(false);
    while (sem_wait(&finished) && errno == EINTR) {}
    active = false;
    uint32_t k = 0;
    for (size_t q = 0; q < ngran; q++) { size_t i = granlist[q]; uint8_t all = gran[i].rd | gran[i].wr; if (gran[i].wr && (all & (all - 1))) { if (k == MAXC) { k--; out->status = CONFLICTS; } out->conf[k++] = gran[i].g - 1; } }
    out->nconf = k; out->status = OK;
}
}
using namespace sched;
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_write##N(void *p) { access(p, N, true, false, PC); } \
    void __tsan_read_write##N(void *p) { access(p, N, false, false, PC); access(p, N, true, false, PC); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_unaligned_write##N(void *p) { access(p, N, true, false, PC); } \
    void __tsan_unaligned_read_write##N(void *p) { access(p, N, false, false, PC); access(p, N, true, false, PC); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, false, false, PC); } \
    void __tsan_volatile_write##N(void *p) { access(p, N, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, sizeof *p, true, false, PC); }
void __tsan_vptr_read(void **p) { access(p, sizeof *p, false, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
}
// ---- atomics: executed as sequentially consistent steps; happens-before follows the stated order
static bool is_acq(int mo) { return mo != 0 && mo != 3; }      // relaxed 0 consume 1 acquire 2 release 3 acq_rel 4 seq_cst 5
static bool is_rel(int mo) { return mo >= 3; }
static void after_load(const void *p, int mo) { if (tid < 0 || !active) return; Sync *s = sync_at(p); if (is_acq(mo)) join(clk[tid], s->clk); else join(pendacq[tid], s->clk); }
static void after_store(const void *p, int mo, bool rmw) {
    if (tid < 0 || !active) return;
    Sync *s = sync_at(p); if (!rmw) memset(s->clk, 0, sizeof(VC));   // a plain store ends the release sequence
    if (is_rel(mo)) { join(s->clk, clk[tid]); clk[tid][tid]++; } else join(s->clk, relfence[tid]);
}
extern "C" {
void __tsan_atomic_thread_fence(int mo) { __atomic_thread_fence(__ATOMIC_SEQ_CST); if (tid < 0 || !active) return; if (mo != 3) join(clk[tid], pendacq[tid]); if (mo >= 3) { join(relfence[tid], clk[tid]); clk[tid][tid]++; } }
void __tsan_atomic_signal_fence(int) {}
#define ATOM(N, T) \
    T __tsan_atomic##N##_load(const volatile T *p, int mo) { access((void *)p, sizeof(T), false, true, PC); T v = __atomic_load_n(p, 5); after_load((void *)p, mo); return v; } \
    void __tsan_atomic##N##_store(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); __atomic_store_n(p, v, 5); after_store((void *)p, mo, false); } \
    T __tsan_atomic##N##_exchange(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_exchange_n(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_add(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_sub(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_and(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_or(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_xor(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int mo) { access((void *)p, sizeof(T), true, true, PC); T o = __atomic_fetch_nand(p, v, 5); after_load((void *)p, mo); after_store((void *)p, mo, true); return o; } \
    T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T c, T v, int mo, int fmo) { access((void *)p, sizeof(T), true, true, PC); T o = c; if (__atomic_compare_exchange_n(p, &o, v, false, 5, 5)) { after_load((void *)p, mo); after_store((void *)p, mo, true); } else after_load((void *)p, fmo); return o; } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *c, T v, int mo, int fmo) { T o = __tsan_atomic##N##_compare_exchange_val(p, *c, v, mo, fmo); if (o == *c) return 1; *c = o; return 0; } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *c, T v, int mo, int fmo) { return __tsan_atomic##N##_compare_exchange_strong(p, c, v, mo, fmo); }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)

// ---- blocking primitives. The instrumented objects' undefined references to X are renamed to mcw_X (objcopy).
static void lock_(void *m, bool recursive) {
    sync_point(m); Sync *s = sync_at(m); int me = tid < 0 ? -2 : tid;
    if (recursive && s->owner == me) { s->count++; return; }
    if (tid >= 0) block(1, s); else if (s->owner != -1) block(1, s);
    s->owner = me; s->count = 1; acquire(s); if (tid >= 0) join(clk[tid], s->rdclk);
}
static bool try_(void *m, bool recursive) {
    sync_point(m); Sync *s = sync_at(m); int me = tid < 0 ? -2 : tid;
    if (recursive && s->owner == me) { s->count++; return true; }
    int rd = 0; for (int i = 0; i < NT; i++) rd += s->readers[i];
    if (s->owner != -1 || rd) return false;
    s->owner = me; s->count = 1; acquire(s); if (tid >= 0) join(clk[tid], s->rdclk); return true;
}
static void unlock_(void *m) {
    sync_point(m); Sync *s = sync_at(m);
    if (s->owner == (tid < 0 ? -2 : tid)) { if (--s->count) return; release(s); s->owner = -1; return; }
    if (tid >= 0 && s->readers[tid]) { s->readers[tid]--; join(s->rdclk, clk[tid]); clk[tid][tid]++; return; }
    if (tid < 0) { s->readers[0] = 0; return; }
    stop(DEADLOCK, "a thread unlocks a lock it does not hold");
}
static bool rec(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int mcw_pthread_mutex_lock(pthread_mutex_t *m) { lock_(m, rec(m)); return 0; }
int mcw_pthread_mutex_trylock(pthread_mutex_t *m) { return try_(m, rec(m)) ? 0 : EBUSY; }
int mcw_pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) { lock_(m, rec(m)); return 0; }
int mcw_pthread_mutex_unlock(pthread_mutex_t *m) { unlock_(m); return 0; }
int mcw_pthread_spin_lock(pthread_spinlock_t *m) { lock_((void *)m, false); return 0; }
int mcw_pthread_spin_trylock(pthread_spinlock_t *m) { return try_((void *)m, false) ? 0 : EBUSY; }
int mcw_pthread_spin_unlock(pthread_spinlock_t *m) { unlock_((void *)m); return 0; }
int mcw_pthread_rwlock_wrlock(pthread_rwlock_t *m) { lock_(m, false); return 0; }
int mcw_pthread_rwlock_trywrlock(pthread_rwlock_t *m) { return try_(m, false) ? 0 : EBUSY; }
int mcw_pthread_rwlock_rdlock(pthread_rwlock_t *m) { sync_point(m); Sync *s = sync_at(m); if (tid < 0) { s->readers[0]++; return 0; } block(2, s); s->readers[tid]++; acquire(s); return 0; }
int mcw_pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { sync_point(m); Sync *s = sync_at(m); if (s->owner != -1) return EBUSY; s->readers[tid < 0 ? 0 : tid]++; acquire(s); return 0; }
int mcw_pthread_rwlock_unlock(pthread_rwlock_t *m) { unlock_(m); return 0; }
int mcw_pthread_once(pthread_once_t *o, void (*f)(void)) {
    sync_point(o); Sync *s = sync_at(o); if (s->state == 1) block(3, s);
    if (s->state == 2) { acquire(s); return 0; }
    s->state = 1; try { f(); } catch (...) { sync_point(o); s->state = 0; release(s); throw; } sync_point(o); release(s); s->state = 2; return 0;
}
int mcw___cxa_guard_acquire(uint64_t *g) {
    sync_point(g); Sync *s = sync_at(g); char *b = reinterpret_cast<char *>(g);
    if (__atomic_load_n(b, 2)) { acquire(s); return 0; }
    if (s->state == 1) block(3, s);
    if (__atomic_load_n(b, 2)) { acquire(s); return 0; }
    s->state = 1; acquire(s); return 1;
}
void mcw___cxa_guard_release(uint64_t *g) { sync_point(g); Sync *s = sync_at(g); release(s); s->state = 0; __atomic_store_n(reinterpret_cast<char *>(g), 1, 3); }
void mcw___cxa_guard_abort(uint64_t *g) { sync_point(g); Sync *s = sync_at(g); release(s); s->state = 0; }
int mcw_sched_yield() { if (tid >= 0 && active && !inrt) { inrt++; choose(true); inrt--; } return 0; }
int mcw_nanosleep(const timespec *, timespec *) { return mcw_sched_yield(); }
int mcw_usleep(unsigned) { return mcw_sched_yield(); }

// ---- C library calls that read or write memory the program names, or the process-wide locale
static char locale_word[8];
size_t mcw_strlen(const char *s) { size_t n = strlen(s); access(s, n + 1, false, false, PC); return n; }
int mcw_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return memcmp(a, b, n); }
int mcw_bcmp(const void *a, const void *b, size_t n) { access(a, n, false, false, PC); access(b, n, false, false, PC); return memcmp(a, b, n); }
void *mcw_memchr(const void *a, int c, size_t n) { const void *r = memchr(a, c, n); access(a, r ? size_t((const char *)r - (const char *)a) + 1 : n, false, false, PC); return const_cast<void *>(r); }
int mcw_strcmp(const char *a, const char *b) { access(a, strlen(a) + 1, false, false, PC); access(b, strlen(b) + 1, false, false, PC); return strcmp(a, b); }
int mcw_strncmp(const char *a, const char *b, size_t n) { access(a, strnlen(a, n), false, false, PC); access(b, strnlen(b, n), false, false, PC); return strncmp(a, b, n); }
char *mcw_strchr(const char *a, int c) { access(a, strlen(a) + 1, false, false, PC); return const_cast<char *>(strchr(a, c)); }
char *mcw_strcpy(char *d, const char *s) { size_t n = strlen(s) + 1; access(s, n, false, false, PC); access(d, n, true, false, PC); memcpy(d, s, n); return d; }
char *mcw_strncpy(char *d, const char *s, size_t n) { access(s, strnlen(s, n), false, false, PC); access(d, n, true, false, PC); return strncpy(d, s, n); }
char *mcw_strcat(char *d, const char *s) { size_t n = strlen(s) + 1, m = strlen(d); access(s, n, false, false, PC); access(d, m + 1, false, false, PC); access(d + m, n, true, false, PC); memcpy(d + m, s, n); return d; }
void *mcw_memcpy(void *d, const void *s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memcpy(d, s, n); }
void *mcw_memmove(void *d, const void *s, size_t n) { access(s, n, false, false, PC); access(d, n, true, false, PC); return memmove(d, s, n); }
void *mcw_memset(void *d, int c, size_t n) { access(d, n, true, false, PC); return memset(d, c, n); }
#define STR2(T, F) \
    T mcw_##F(const char *s, char **e) { access(locale_word, 1, false, false, PC); char *q; access(s, strlen(s) + 1, false, false, PC); T v = F(s, &q); if (e) { access(e, sizeof e, true, false, PC); *e = q; } return v; }
#define STR3(T, F) \
    T mcw_##F(const char *s, char **e, int b) { char *q; access(s, strlen(s) + 1, false, false, PC); T v = F(s, &q, b); if (e) { access(e, sizeof e, true, false, PC); *e = q; } return v; }
STR2(double, strtod) STR2(float, strtof) STR2(long double, strtold) STR3(long, strtol) STR3(unsigned long, strtoul) STR3(long long, strtoll) STR3(unsigned long long, strtoull)
double mcw_atof(const char *s) { access(locale_word, 1, false, false, PC); access(s, strlen(s) + 1, false, false, PC); return strtod(s, nullptr); }
int mcw_vsnprintf(char *d, size_t n, const char *f, va_list ap) { access(locale_word, 1, false, false, PC); access(f, strlen(f) + 1, false, false, PC); int r = vsnprintf(d, n, f, ap); if (n && r >= 0) access(d, size_t(r) < n ? size_t(r) + 1 : n, true, false, PC); return r; }
int mcw_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcw_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int mcw_vsprintf(char *d, const char *f, va_list ap) { return mcw_vsnprintf(d, 1 << 20, f, ap); }
int mcw_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int r = mcw_vsnprintf(d, 1 << 20, f, ap); va_end(ap); return r; }
char *mcw_setlocale(int c, const char *l) { access(locale_word, 1, l != nullptr, false, PC); return setlocale(c, l); }
static char strtok_word[8];
char *mcw_strtok(char *s, const char *d) { access(strtok_word, 1, true, false, PC); return strtok(s, d); }

// ---- memory
void *mcw_malloc(size_t n) { return tid < 0 ? malloc(n) : take(n); }
void mcw_free(void *p) { if (p && !ours(p)) free(p); }
void *mcw_calloc(size_t n, size_t m) { return tid < 0 ? calloc(n, m) : take(n * m); }
void *mcw_realloc(void *p, size_t n) {
    if (p && !ours(p)) return realloc(p, n);
    if (tid < 0 && !p) return malloc(n);
    void *q = take(n); if (p && q) { size_t o = size_of(p); memcpy(q, p, o < n ? o : n); } return q;
}
}
#include <new>
static void *get(size_t n) { void *p = tid < 0 ? malloc(n ? n : 1) : take(n); if (!p) throw std::bad_alloc(); return p; }
static void put(void *p) noexcept { if (p && !ours(p)) free(p); }
void *operator new(size_t n) { return get(n); }
void *operator new[](size_t n) { return get(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return tid < 0 ? malloc(n ? n : 1) : take(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return tid < 0 ? malloc(n ? n : 1) : take(n); }
void operator delete(void *p) noexcept { put(p); }
void operator delete[](void *p) noexcept { put(p); }
void operator delete(void *p, size_t) noexcept { put(p); }
void operator delete[](void *p, size_t) noexcept { put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { put(p); }
