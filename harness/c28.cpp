// C28: conversions leave the rest of the program alone. Everything of the process that other code can observe is recorded
// around every operation, in every environment, over all operation pairs, over value spaces and with every allocation
// failing in turn; memory in use is counted by an interposed allocator.
// MC_LOCALE: a locale (in LOCPATH) with another decimal separator.
#include "mc.hpp"
#include "ops.hpp"
#include "spaces.hpp"
#include <cfenv>
#include <clocale>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <dirent.h>
#include <iostream>
#include <locale>
#include <locale.h>
#include <malloc.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <xmmintrin.h>

// ---- memory in use
static bool ACCT; static long LIVE, BLOCKS; static long FAIL_AT = -1, ALLOCS;
extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static inline void *in(void *p) { if (ACCT && p) { LIVE += long(malloc_usable_size(p)); BLOCKS++; } return p; }
static inline void out(void *p) { if (ACCT && p) { LIVE -= long(malloc_usable_size(p)); BLOCKS--; } }
void *malloc(size_t n) { return in(__libc_malloc(n)); }
void free(void *p) { out(p); __libc_free(p); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *realloc(void *p, size_t n) { out(p); return in(__libc_realloc(p, n)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) { *p = in(__libc_memalign(a, n)); return *p ? 0 : ENOMEM; }
}
void *operator new(size_t n) { if (FAIL_AT >= 0 && ALLOCS++ == FAIL_AT) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }

namespace c28 {
using mc::Ctx; using mc::show;

// ---- environments
static const int MODE[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
static const char *MN[] = {"to nearest", "upward", "downward", "toward zero"};
static const char *WN[] = {"the C locale", "a setlocale(LC_ALL) locale", "a setlocale(LC_NUMERIC) locale", "a thread locale", "a global C++ locale"};
const int NENV = 20;
struct Env {
    int way; locale_t l = nullptr, old = nullptr; static const char *name() { static const char *n = getenv("MC_LOCALE"); return n ? n : "C.UTF-8"; }
    explicit Env(int e) : way(e / 4) {
        fesetround(MODE[e % 4]); bool ok = true;
        if (way == 1) ok = setlocale(LC_ALL, name()); else if (way == 2) ok = setlocale(LC_NUMERIC, name());
        else if (way == 3) { l = newlocale(LC_ALL_MASK, name(), nullptr); ok = l; if (ok) old = uselocale(l); } else if (way == 4) std::locale::global(std::locale(name()));
        if (!ok) { fprintf(stderr, "cannot install locale %s\n", name()); _exit(2); }
    }
    ~Env() { fesetround(FE_TONEAREST); if (way == 3) { uselocale(old); freelocale(l); } else if (way == 4) std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
};
inline std::string env_text(int e) { return std::string("rounding ") + MN[e % 4] + ", " + WN[e / 4]; }

// ---- what other code can observe
static char RNG[128]; static char TOK[8]; static unsigned short X48[3];
struct Snap {
    char lc[512]; locale_t tl; std::locale cxx; int round, exc; unsigned mxcsr; unsigned short x87; std::terminate_handler th; std::new_handler nh; struct sigaction sa[32]; sigset_t mask;
    char rng[128]; uint64_t envh; char **env; std::ios_base::fmtflags fl[4]; std::streamsize pr[4], wd[4]; int st[4], fi[4]; void *rb[4], *tie[4]; int unc; struct itimerval it[3]; char cwd[512]; mode_t um; struct rlimit rl[16]; int thr; int oi; int pgrp; struct tm gm;
};
inline uint64_t env_hash() { uint64_t h = 7; for (char **p = environ; p && *p; p++) for (char *q = *p;; q++) { h = (h ^ (unsigned char)*q) * 1099511628211ull; if (!*q) break; } return h; }
template <class S> void stream(Snap &s, int i, S &x) { s.fl[i] = x.flags(); s.pr[i] = x.precision(); s.wd[i] = x.width(); s.st[i] = int(x.rdstate()); s.fi[i] = x.fill(); s.rb[i] = x.rdbuf(); s.tie[i] = x.tie(); }
// cheap part
inline void take(Snap &s) {
    memset(s.lc, 0, sizeof s.lc); strncpy(s.lc, setlocale(LC_ALL, nullptr), sizeof s.lc - 1); s.tl = uselocale(nullptr); s.cxx = std::locale(); s.round = fegetround(); s.exc = fegetexcept(); s.mxcsr = _mm_getcsr() & ~0x3fu; asm volatile("fnstcw %0" : "=m"(s.x87));
    s.th = std::get_terminate(); s.nh = std::get_new_handler(); s.env = environ; s.unc = std::uncaught_exceptions(); memcpy(s.rng, RNG, sizeof RNG); s.oi = optind;
    stream(s, 0, std::cin); stream(s, 1, std::cout); stream(s, 2, std::cerr); stream(s, 3, std::clog);
}
inline void arm(Snap &s) { take(s); strcpy(TOK, "a,b,c"); strtok(TOK, ","); X48[0] = 11; X48[1] = 22; X48[2] = 33; seed48(X48); time_t z = 86400 * 366; s.gm = *gmtime(&z); }
inline const char *same(const Snap &a) {
    Snap b; take(b);
    if (strcmp(a.lc, b.lc)) return "the C locale"; if (a.tl != b.tl) return "the locale of the thread"; if (!(a.cxx == b.cxx)) return "the global C++ locale"; if (a.round != b.round) return "the rounding mode"; if (a.exc != b.exc) return "the floating-point traps"; if (a.mxcsr != b.mxcsr || a.x87 != b.x87) return "the floating-point control word";
    if (a.th != b.th) return "the terminate handler"; if (a.nh != b.nh) return "the new handler"; if (a.env != b.env) return "environ"; if (a.unc != b.unc) return "the number of uncaught exceptions"; if (memcmp(a.rng, b.rng, sizeof a.rng)) return "the state of rand()"; if (a.oi != b.oi) return "optind";
    for (int i = 0; i < 4; i++) if (a.fl[i] != b.fl[i] || a.pr[i] != b.pr[i] || a.wd[i] != b.wd[i] || a.st[i] != b.st[i] || a.fi[i] != b.fi[i] || a.rb[i] != b.rb[i] || a.tie[i] != b.tie[i]) return "the state of a standard stream";
    char *t = strtok(nullptr, ","); if (t != TOK + 2) return "the state of strtok()";
    unsigned short *x = seed48(X48); if (x[0] != 11 || x[1] != 22 || x[2] != 33) return "the state of drand48()";
    strcpy(TOK, "a,b,c"); strtok(TOK, ",");
    return nullptr;
}
// expensive part, around a whole case
inline int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
struct World {
    Snap s; int o[2], m[2], nfd; char here[512]; static const char *dir() { static char d[64]; if (!d[0]) { strcpy(d, "c28.XXXXXX"); if (!mkdtemp(d)) _exit(2); } return d; }
    World() {
        if (!getcwd(here, sizeof here)) _exit(2); if (chdir(dir())) _exit(2);
        fflush(nullptr); std::cout.flush(); for (int i = 0; i < 2; i++) { o[i] = dup(1 + i); m[i] = memfd_create("c28", 0); if (o[i] < 0 || m[i] < 0) _exit(2); dup2(m[i], 1 + i); }
        initstate(12345, RNG, sizeof RNG); heavy(s); nfd = fds(); arm(s);
    }
    static void heavy(Snap &s) {
        for (int i = 1; i < 32; i++) { memset(&s.sa[i], 0, sizeof s.sa[i]); sigaction(i, nullptr, &s.sa[i]); } sigprocmask(SIG_BLOCK, nullptr, &s.mask); s.envh = env_hash(); for (int i = 0; i < 3; i++) getitimer(__itimer_which(i), &s.it[i]);
        memset(s.cwd, 0, sizeof s.cwd); if (!getcwd(s.cwd, sizeof s.cwd)) s.cwd[0] = 0; s.um = umask(0); umask(s.um); for (int i = 0; i < 16; i++) getrlimit(__rlimit_resource(i), &s.rl[i]); struct stat st; s.thr = stat("/proc/self/task", &st) ? 0 : int(st.st_nlink); s.pgrp = getpgrp();
    }
    const char *changed() {
        if (const char *w = same(s)) return w;
        time_t z = 86400 * 366; struct tm g = *gmtime(&z); if (g.tm_year != s.gm.tm_year) return "gmtime()";
        Snap b; heavy(b); for (int i = 1; i < 32; i++) if (b.sa[i].sa_handler != s.sa[i].sa_handler || b.sa[i].sa_flags != s.sa[i].sa_flags) return "the handler of a signal";
        for (int i = 1; i < 32; i++) if (sigismember(&b.mask, i) != sigismember(&s.mask, i)) return "the signal mask";
        if (b.envh != s.envh) return "the environment variables"; for (int i = 0; i < 3; i++) if ((b.it[i].it_value.tv_sec || b.it[i].it_value.tv_usec) != (s.it[i].it_value.tv_sec || s.it[i].it_value.tv_usec)) return "an interval timer";
        if (strcmp(b.cwd, s.cwd)) return "the working directory"; if (b.um != s.um) return "the umask"; for (int i = 0; i < 16; i++) if (b.rl[i].rlim_cur != s.rl[i].rlim_cur) return "a resource limit"; if (b.thr != s.thr) return "the number of threads"; if (fds() != nfd) return "the open files";
        fflush(nullptr); std::cout.flush(); std::clog.flush(); for (int i = 0; i < 2; i++) { struct stat st; if (fstat(m[i], &st) || st.st_size) return i ? "the standard error output" : "the standard output"; }
        struct stat st; int n = 0; if (DIR *d = opendir(s.cwd)) { while (readdir(d)) n++; closedir(d); } if (n != 2) return "the files in the working directory"; (void)st;
        return nullptr;
    }
    ~World() { fflush(nullptr); for (int i = 0; i < 2; i++) { dup2(o[i], 1 + i); close(o[i]); close(m[i]); } if (chdir(here)) {} }
};
static std::vector<ops::Op> *A;
inline std::vector<ops::Op> *alphabet() {
    auto *v = new std::vector<ops::Op>(ops::alphabet());
    for (const char *t : {"1e5", "-0", "0x10", "1e", "123456789.123456789e-5", "1e309", "nan", "inf", "   7", "", "-", "9007199254740993", "1.5f", "0.000001"}) { v->push_back(ops::getf<double>((std::string("double from ") + t).c_str(), t)); v->push_back(ops::getf<float>((std::string("float from ") + t).c_str(), t)); }
    for (const char *t : {"", "1", "tru", "truee", "TRUE", "nulll"}) { std::string s = t; v->push_back(ops::mk(("bool from " + s).c_str(), [s] { return std::string(lexi::lexi<bool>(s) ? "t" : "f"); })); v->push_back(ops::mk(("null from " + s).c_str(), [s] { lexi::lexi<std::nullptr_t>(s); return std::string("n"); })); }
    for (double d : {1e21, 1e-7, 1.0, 0.5, 1e16, 4.35, 2.2250738585072014e-308, 1.7976931348623155e308}) { char b[40]; snprintf(b, sizeof b, "format %a", d); v->push_back(ops::fmt<lexi::FormatFloat, double>(b, d)); v->push_back(ops::fmt<lexi::FormatFloat, float>((std::string(b) + " as float").c_str(), float(d))); v->push_back(ops::fmt<lexi::FormatFloat, long double>((std::string(b) + " as long double").c_str(), d / 3.0L)); }
    return v;
}
inline void run(size_t op) { (*A)[op].run(nullptr); }

inline void sequence(Ctx &c, const std::vector<size_t> &s, int env) {
    std::string bad; const char *what = nullptr; size_t at = 0;
    { Env e(env); World w; for (at = 0; at < s.size() && !what; at++) { run(s[at]); what = same(w.s); } if (!what) what = w.changed(); }
    c.calls(s.size()); std::string o; for (size_t x : s) o += char(x); o += char(env); c.outcome(o);
    std::string q; if (what || c.verbose) for (size_t x : s) q += (q.empty() ? "" : ", ") + (*A)[x].name;
    if (what) c.fail("[%s] (%s): %s is not as it was (after step %zu)", q.c_str(), env_text(env).c_str(), what, at);
    c.note("[%s] (%s): nothing else changed", q.c_str(), env_text(env).c_str());
}
typedef std::function<void(uint64_t)> Do; typedef std::function<std::string(uint64_t)> Name;
inline void block(Ctx &c, uint64_t lo, uint64_t hi, int env, const Do &f, const Name &name) {
    const char *what = nullptr; uint64_t bad = 0;
    { Env e(env); World w; for (uint64_t i = lo; i < hi && !what; i++) { f(i); bad = i; what = same(w.s); } if (!what) what = w.changed(); }
    // twice more; the last time, nothing may be left in use that was not before
    long live = 0; uint64_t leak = lo; if (!what) { for (uint64_t i = lo; i < hi; i++) f(i); LIVE = BLOCKS = 0; for (uint64_t i = lo; i < hi; i++) { long b = LIVE; ACCT = true; f(i); ACCT = false; if (LIVE > b) leak = i; } live = LIVE; }
    c.calls(3 * (hi - lo)); c.outcome(lo * 64 + uint64_t(env));
    if (live > 0) c.fail("%s (among others from %s): %ld bytes stay in use each time", name(leak).c_str(), name(lo).c_str(), live);
    if (what) c.fail("%s (%s): %s is not as it was", name(bad).c_str(), env_text(env).c_str(), what);
    c.note("%s (%s): nothing else changed", name((lo + hi) / 2).c_str(), env_text(env).c_str());
}
inline void all_from(const std::string &s) {
    auto g = [](auto f) { try { f(); } catch (const std::runtime_error &) {} };
    g([&] { lexi::lexi<double>(s); }); g([&] { lexi::lexi<float>(s); }); g([&] { lexi::lexi<long double>(s.c_str()); }); g([&] { lexi::lexi<int>(s); }); g([&] { lexi::lexi<unsigned long long>(s.c_str()); }); g([&] { lexi::lexi<bool>(s); }); g([&] { lexi::lexi<std::nullptr_t>(s); }); g([&] { lexi::lexi<char>(s); }); g([&] { lexi::lexi<ops::Sc>(s); }); g([&] { lexi::lexi<std::streampos>(s); });
    g([&] { lexi::escape(s); }); g([&] { lexi::jsonify(s); }); g([&] { lexi::lexi(s); }); g([&] { lexi::string(s.c_str()); });
}
inline void all_of(uint64_t v) { lexi::lexi((unsigned long long)v); lexi::lexi((long long)v); lexi::escape(int(v)); lexi::jsonify((unsigned short)v); lexi::string((signed char)v); lexi::lexi(char(v)); lexi::jsonify(char(v)); lexi::escape(char(v)); lexi::lexi(v % 2 == 0); lexi::lexi(ops::Eu(v)); lexi::lexi(std::streampos(std::streamoff(v))); }
inline void all_of(double d) { lexi::lexi(d); lexi::lexi(-d); lexi::jsonify(float(d)); lexi::escape((long double)d); }

// memory: net bytes in use after n more repetitions, once warmed up
template <class F> void memory(Ctx &c, uint64_t warm, uint64_t more, long slack, const std::string &name, F f) {
    for (uint64_t i = 0; i < warm; i++) f(i);
    ACCT = true; LIVE = BLOCKS = 0; for (uint64_t i = 0; i < more; i++) f(warm + i); ACCT = false; long l = LIVE, b = BLOCKS;
    c.calls(warm + more); c.outcome(name);
    if (l > slack) c.fail("%s: %ld bytes in %ld blocks more in use after %llu further conversions", name.c_str(), l, b, (unsigned long long)more);
    c.note("%s: %ld bytes more in use after %llu conversions", name.c_str(), l, (unsigned long long)more);
}

void setup(mc::Run &r) {
    A = alphabet(); const size_t n = A->size(); const bool T = r.thorough();
    r.each("single", "every operation x 4 rounding modes x 5 ways to have a locale", n * NENV, [n](Ctx &c, uint64_t i) { sequence(c, {size_t(i % n)}, int(i / n)); });
    r.each("pairs", "all pairs of operations x 20 environments", n * n * NENV, [n](Ctx &c, uint64_t i) { sequence(c, {size_t(i % n), size_t(i / n % n)}, int(i / n / n)); });
    size_t st = T ? 2 : 5, m = n / st;
    r.each("triples", "all triples of every " + std::to_string(st) + "th operation", m * m * m, [m, st](Ctx &c, uint64_t i) { sequence(c, {size_t(i % m) * st, size_t(i / m % m) * st + st / 2, size_t(i / m / m) * st + 1}, int((i * 7) % NENV)); });
    const uint64_t B = 64; auto blk = [&](const char *name, const std::string &what, uint64_t count, Do f, Name nm) { r.each(name, what + ", all 20 environments in turn", (count + B - 1) / B, [=](Ctx &c, uint64_t i) { block(c, i * B, std::min(count, i * B + B), int(i % NENV), f, nm); }); };
    auto s1 = std::make_shared<sp::Strings>(std::string("10.,-e+x"), T ? 7 : 6); blk("number-texts", "every conversion of all texts over {1 0 . , - e + x}", s1->count(), [s1](uint64_t i) { all_from(s1->at(i)); }, [s1](uint64_t i) { return "conversions of the text " + show(s1->at(i)); });
    auto s2 = std::make_shared<sp::Strings>(sp::all_bytes(), 2); blk("bytes", "every conversion of all byte strings of length <= 2", s2->count(), [s2](uint64_t i) { all_from(s2->at(i)); }, [s2](uint64_t i) { return "conversions of the text " + show(s2->at(i)); });
    auto s3 = std::make_shared<sp::Strings>(std::string("truefalsn"), T ? 5 : 4); blk("literal-texts", "every conversion of all texts over the letters of the literals", s3->count(), [s3](uint64_t i) { all_from(s3->at(i)); }, [s3](uint64_t i) { return "conversions of the text " + show(s3->at(i)); });
    blk("long-texts", "every conversion of digits, points and specials of every length up to 1200", 3600, [](uint64_t i) { std::string s(i / 3, i % 3 == 0 ? '7' : i % 3 == 1 ? '0' : '"'); if (s.size() > 2 && i % 3 < 2) s[s.size() / 2] = '.'; all_from(s); }, [](uint64_t i) { return "conversions of a text of length " + std::to_string(i / 3); });
    auto near = std::make_shared<sp::NearInts>(T ? 200 : 20); blk("ints", "formatting integers around every power of 2 and 10, as all types", near->count(), [near](uint64_t i) { all_of(near->at(i)); }, [near](uint64_t i) { return "formatting " + std::to_string(near->at(i)); });
    auto ef = std::make_shared<sp::ExpFrac>(0); uint64_t fs = T ? 1 : 5; blk("floats", "formatting doubles: every exponent x edge fractions (every " + std::to_string(fs) + "th)", ef->count() / fs, [ef, fs](uint64_t i) { all_of(ef->at(i * fs)); }, [ef, fs](uint64_t i) { char b[64]; snprintf(b, sizeof b, "formatting %a", ef->at(i * fs)); return std::string(b); });
    // every allocation of the operation fails in turn
    r.each("failed-allocations", "every operation x 20 environments, each of its allocations failing in turn", n * NENV, [n](Ctx &c, uint64_t i) {
        size_t op = i % n; int env = int(i / n); const char *what = nullptr; long k = 0;
        { Env e(env); World w; for (; k < 400 && !what; k++) { bool threw = false; ALLOCS = 0; FAIL_AT = k; try { run(op); } catch (const std::bad_alloc &) { threw = true; } FAIL_AT = -1; c.calls(1); what = same(w.s); if (!threw) break; } if (!what) what = w.changed(); }
        if (what) c.fail("%s with allocation %ld failing (%s): %s is not as it was", (*A)[op].name.c_str(), k, env_text(env).c_str(), what);
        c.outcome(i * 1000 + uint64_t(k)); c.note("%s with %ld allocations failing in turn: nothing else changed", (*A)[op].name.c_str(), k);
    });
    // the arguments
    auto s4 = std::make_shared<sp::Strings>(std::string("1-.e\"\\nt \x80"), T ? 5 : 4);
    r.each("arguments", "C strings in read-only memory and std::string objects, all texts over {1 - . e \" \\ n t space 0x80}", s4->count(), [s4](Ctx &c, uint64_t i) {
        static char *page = static_cast<char *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        std::string s = s4->at(i), keep = s; const char *p = s.data(); size_t cap = s.capacity(); mprotect(page, 4096, PROT_READ | PROT_WRITE); char *t = page + 4096 - s.size() - 1; memcpy(t, s.c_str(), s.size() + 1); mprotect(page, 4096, PROT_READ);
        auto g = [](auto f) { try { f(); } catch (const std::runtime_error &) {} }; const char *q = t;
        all_from(s); g([&] { lexi::lexi<double>(q); }); g([&] { lexi::lexi<int>(q); }); g([&] { lexi::lexi<bool>(q); }); g([&] { lexi::lexi<std::nullptr_t>(q); }); g([&] { lexi::lexi<char>(q); }); g([&] { lexi::escape(q); }); g([&] { lexi::jsonify(q); }); g([&] { lexi::string(q); });
        c.calls(22); c.outcome(s); if (s != keep || s.data() != p || s.capacity() != cap) c.fail("the argument %s was changed to %s", show(keep).c_str(), show(s).c_str()); c.note("%s is unchanged", show(s).c_str());
    });
    // memory
    r.each("memory-repeated", "every operation 200 times more after 40", n, [](Ctx &c, uint64_t i) { memory(c, 40, 200, 0, (*A)[i].name, [i](uint64_t) { run(i); }); });
    const uint64_t N = T ? 2000000 : 100000;
    struct M { const char *name; void (*f)(uint64_t); };
    static const M MV[] = {
        {"integers", [](uint64_t i) { lexi::FormatInt f((unsigned long long)(i * 0x9E3779B97F4A7C15ull)); f.string(); }}, {"int", [](uint64_t i) { lexi::lexi(int(i * 2654435761u)); }}, {"doubles", [](uint64_t i) { lexi::lexi(1.0 / double(i + 3)); }}, {"floats", [](uint64_t i) { lexi::jsonify(float(i) * 0.37f); }}, {"exponents", [](uint64_t i) { lexi::lexi(sp::from_bits((i * 0x9E3779B97F4A7C15ull) >> 2)); }},
        {"enumerations", [](uint64_t i) { lexi::lexi(ops::Eu(i * 7919)); }}, {"positions", [](uint64_t i) { lexi::lexi(std::streampos(std::streamoff(i * 7919))); }}, {"escaped texts", [](uint64_t i) { lexi::escape("key " + std::to_string(i) + " of a longer text"); }}, {"JSON texts", [](uint64_t i) { lexi::jsonify("key\n" + std::to_string(i) + " of a longer text"); }}, {"characters", [](uint64_t i) { lexi::escape(char(i)); lexi::jsonify(char(i)); lexi::lexi(char(i)); }},
        {"integers from text", [](uint64_t i) { std::string s = std::to_string(i * 7919); lexi::lexi<int>(s); lexi::lexi<unsigned long long>(s); }}, {"floats from text", [](uint64_t i) { std::string s = std::to_string(i * 7919) + ".5e-3"; lexi::lexi<double>(s); lexi::lexi<float>(s); lexi::lexi<long double>(s); }}, {"long floats from text", [](uint64_t i) { std::string s = "0." + std::string(300, '7') + std::to_string(i); lexi::lexi<double>(s); }},
        {"refused booleans", [](uint64_t i) { try { lexi::lexi<bool>("no number " + std::to_string(i)); } catch (const std::runtime_error &) {} }}, {"refused nulls", [](uint64_t i) { try { lexi::lexi<std::nullptr_t>("a longer text " + std::to_string(i)); } catch (const std::runtime_error &) {} }}, {"refused characters", [](uint64_t) { try { lexi::lexi<char>(std::string()); } catch (const std::runtime_error &) {} }},
        {"formatter objects", [](uint64_t i) { lexi::FormatFloat a(double(i) * 0.1), b(a); lexi::FormatFloat d(std::move(a)); b = d; d = lexi::FormatFloat(2.5); lexi::FormatInt x(int(i * 7919)), y(x); lexi::FormatInt z(std::move(x)); y = z; z = lexi::FormatInt(int(i)); }}, {"big integers", [](uint64_t i) { lexi::detail::BigInteger b(i), e(uint64_t(0)); b.mulPow5(unsigned(i % 60)); b <<= 70; e = b; b += 1; b.difference(e, &e); }}, {"refused big integers", [](uint64_t i) { try { std::string s = std::to_string(i) + "x4567890123456789012345"; lexi::detail::BigInteger b(s.data(), s.size()); } catch (const std::runtime_error &) {} }},
    };
    r.each("memory-values", std::to_string(N) + " different values of each kind, bytes in use at the end at most 64 KiB above those after the first " + std::to_string(N / 10), sizeof MV / sizeof *MV, [N](Ctx &c, uint64_t i) { memory(c, N / 10, N, 65536, MV[i].name, [i](uint64_t k) { MV[i].f(k); }); }, 1);
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c28::setup)
#endif
