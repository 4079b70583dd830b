// C15: every allocation of every scenario is made to fail in turn (alone, and together with all later ones).
#include "mc.hpp"
#include "ops.hpp"
#include "spaces.hpp"

extern "C" { void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); }

namespace c15 {
static long armed = 0, count_ = 0, fail_at = -1, fail_from = -1, fail_second = -1, live = 0, failed = 0;
inline bool deny() {
    if (!armed) return false;
    long k = count_++;
    if (k == fail_at || k == fail_second || (fail_from >= 0 && k >= fail_from)) { failed++; return true; }
    return false;
}
inline void *get(size_t n, size_t al = 0) { if (deny()) return nullptr; void *p = al > 16 ? __libc_memalign(al, n ? n : 1) : __libc_malloc(n ? n : 1); if (p) live++; return p; }
inline void put(void *p) { if (p) { live--; __libc_free(p); } }
}
// the library's allocations: operator new in every form, and malloc
void *operator new(size_t n) { void *p = c15::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = c15::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return c15::get(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return c15::get(n); }
void *operator new(size_t n, std::align_val_t a) { void *p = c15::get(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n, std::align_val_t a) { void *p = c15::get(n, size_t(a)); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { c15::put(p); }
void operator delete[](void *p) noexcept { c15::put(p); }
void operator delete(void *p, size_t) noexcept { c15::put(p); }
void operator delete[](void *p, size_t) noexcept { c15::put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { c15::put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { c15::put(p); }
void operator delete(void *p, std::align_val_t) noexcept { c15::put(p); }
void operator delete[](void *p, std::align_val_t) noexcept { c15::put(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { c15::put(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { c15::put(p); }
extern "C" void *malloc(size_t n) { void *p = c15::get(n); if (!p) errno = ENOMEM; return p; }
extern "C" void *calloc(size_t a, size_t b) { if (c15::deny()) { errno = ENOMEM; return nullptr; } void *p = __libc_calloc(a, b); if (p) c15::live++; return p; }
extern "C" void *realloc(void *q, size_t n) { if (c15::deny()) { errno = ENOMEM; return nullptr; } void *p = __libc_realloc(q, n); if (!q && p) c15::live++; if (q && n == 0) c15::live--; return p; }
extern "C" void free(void *p) { c15::put(p); }

namespace c15 {
using mc::Ctx; using mc::show;
struct Scenario { std::string name; std::function<std::string()> run; bool world; };   // may throw bad_alloc; the result otherwise
static std::vector<Scenario> *S; static std::vector<std::string> *WANT; static std::vector<long> *N;

// objects and arguments used by the scenarios, with the text they must keep
struct World {
    lexi::FormatInt fi{-1234567890123456789ll}; lexi::FormatFloat ff{-1.2345678901234567e-200}; lexi::FormatBool fb{false}; lexi::FormatNull fn; lexi::FormatChar fc{'"'}; lexi::FormatEnum fe{ops::Eu::M};
    lexi::ExtractFloat xf{std::string("  -123456789.0123456789e-5 and a long tail that does not fit a small string")}; lexi::ExtractInt xi{std::string("-77")};
    std::string text, num;
    World() { for (int i = 0; i < 200; i++) text += char(i * 11); num = "   123456789012345678 and a long tail, longer than any small buffer"; }
    std::string all() const { return ops::text(fi) + ops::text(ff) + ops::text(fb) + ops::text(fn) + ops::text(fc) + ops::text(fe) + ops::hexl((long double)xf) + std::to_string((long long)xi) + text + num; }
};
static World *W; static std::string *WALL;
inline void world() { if (!W) { W = new World(); WALL = new std::string(W->all()); } }

inline void add(const std::string &n, std::function<std::string()> f, bool w = false) { S->push_back({n, f, w}); }
inline void scenarios(bool thorough) {
    for (auto &o : ops::alphabet()) { if (o.name == "big overflow") continue; add(o.name, [o] { return o.run(nullptr); }); }
    std::vector<size_t> len; for (size_t i = 0; i <= 40; i++) len.push_back(i); for (size_t n : {63, 64, 65, 100, 127, 128, 129, 255, 256, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 70000}) len.push_back(n);
    for (size_t n : len) for (char ch : {'a', '"', '\1', '/', '\xff'}) {
        if (!thorough && n > 40 && (ch == '/' || ch == '\xff')) continue;
        auto t = std::make_shared<std::string>(n, ch); std::string nm = std::to_string(n) + "x" + show(std::string(1, ch));
        add("escape " + nm, [t] { std::string k = *t; std::string r = lexi::escape(*t); if (*t != k) r = "ARGUMENT CHANGED"; return r; });
        add("jsonify " + nm, [t] { std::string k = *t; std::string r = lexi::jsonify(*t); if (*t != k) r = "ARGUMENT CHANGED"; return r; });
        add("lexi " + nm, [t] { return lexi::lexi(*t) + lexi::string(t->c_str()); });
    }
    for (int k = 0; k < 6; k++) for (int m = 0; m < 4; m++) add("kept formatter " + std::to_string(k) + " method " + std::to_string(m), [k, m]() -> std::string {
        auto f = [m](const auto &x) { return m == 0 ? x.string() : m == 1 ? x.escape() : m == 2 ? x.jsonify() : static_cast<std::string>(x); };
        switch (k) { case 0: return f(W->fi); case 1: return f(W->ff); case 2: return f(W->fb); case 3: return f(W->fn); case 4: return f(W->fc); default: return f(W->fe); }
    }, true);
    add("copy formatters", [] { lexi::FormatInt a(W->fi); lexi::FormatFloat b(W->ff); lexi::FormatInt c(1); c = a; lexi::FormatFloat d(2.0); d = b; return c.string() + d.string() + a.string() + b.string(); }, true);
    add("copy extractor", [] { lexi::ExtractFloat a(W->xf); lexi::ExtractFloat b(std::string("1")); b = a; return ops::hexl(double(b)) + ops::hexl(double(a)); }, true);
    add("extract from a long text", [] { std::string r = std::to_string(lexi::lexi<long long>(W->num)) + ops::hexl(lexi::lexi<double>(W->num)) + ops::hexl(lexi::lexi<float>(W->num.c_str())); return r; }, true);
    add("extract bad bool from a long text", [] { return ops::guarded([] { return std::string(lexi::lexi<bool>(W->text) ? "t" : "f"); }); }, true);
    add("extract bad null from a long text", [] { return ops::guarded([] { return std::string(lexi::lexi<std::nullptr_t>(W->text) == nullptr ? "t" : "f"); }); }, true);
    for (int n : {1, 5, 15, 16, 17, 100, 1000, 5000}) add("extract float of " + std::to_string(n) + " digits", [n] { std::string t = "0." + std::string(size_t(n), '7') + "e3"; return ops::hexl(lexi::lexi<double>(t)) + ops::hexl(lexi::lexi<long double>(t)) + ops::hexl(lexi::lexi<float>(t)); });
    add("big integer from 300 digits", [] { std::string t(300, '8'); lexi::detail::BigInteger b(t.data(), t.size()); b <<= 100; b.mulPow5(40); return ops::bigtext(b); });
}
// one run with the failure pattern in force; "" if it threw bad_alloc
inline bool attempt(Ctx &c, size_t s, std::string &out, long at, long from, long second) {
    fail_at = at; fail_from = from; fail_second = second; count_ = 0; failed = 0;
    try { armed = 1; std::string r = (*S)[s].run(); armed = 0; out = std::move(r); c.calls(1); return true; }
    catch (const std::bad_alloc &) { armed = 0; c.calls(1); return false; }
    catch (const std::exception &e) { armed = 0; c.fail("%s, allocation %ld fails: throws %s (%s)", (*S)[s].name.c_str(), at >= 0 ? at : from, typeid(e).name(), e.what()); }
    catch (...) { armed = 0; c.fail("%s, allocation %ld fails: throws something that is not std::bad_alloc", (*S)[s].name.c_str(), at >= 0 ? at : from); }
    return false;
}
inline void judge(Ctx &c, size_t s, long at, long from, long second, bool leak) {
    const char *nm = (*S)[s].name.c_str(); long k = at >= 0 ? at : from;
    if (leak) world();
    long before = live; bool ok;
    { std::string out; ok = attempt(c, s, out, at, from, second);
      c.note("%s: allocation %ld of %ld fails: %s", nm, k, (*N)[s], ok ? "still correct" : "std::bad_alloc");
      c.outcome(uint64_t(s) << 32 | uint64_t(k) << 8 | uint64_t(from >= 0) << 1 | ok);
      if (ok && out != (*WANT)[s]) c.fail("%s: with allocation %ld%s failing the result is %s, want %s", nm, k, from >= 0 ? " and all later ones" : "", show(out).c_str(), show((*WANT)[s]).c_str()); }
    long after = live;
    if (leak && after != before) {   // memory kept for later use is not a leak: a leak grows with every repetition
        for (int rep = 0; rep < 3 && after != before; rep++) { before = live; { std::string o; attempt(c, s, o, at, from, second); } after = live; }
        if (after == before) before = after = 0;
    }
    if (leak && after != before) c.fail("%s: with allocation %ld%s failing, %ld allocation(s) leaked", nm, k, from >= 0 ? " and all later ones" : "", after - before);
    if (leak && W->all() != *WALL) c.fail("%s: a formatter object or an argument changed when allocation %ld failed", nm, k);
    std::string again; if (!attempt(c, s, again, -1, -1, -1) || again != (*WANT)[s]) c.fail("%s: after allocation %ld failed, the same call gives %s, want %s", nm, k, show(again).c_str(), show((*WANT)[s]).c_str());
}
void setup(mc::Run &r) {
    S = new std::vector<Scenario>(); WANT = new std::vector<std::string>(); N = new std::vector<long>();
    scenarios(r.thorough());
    long mx = 0; uint64_t tot = 0;
    {   // dry run in a child, so that this process has not used the library yet: number of allocations, expected result
        int p[2]; if (pipe(p)) abort();
        fflush(nullptr); pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); FILE *f = fdopen(p[1], "w"); world();
            for (size_t s = 0; s < S->size(); s++) {
                count_ = 0; fail_at = fail_from = fail_second = -1; armed = 1; std::string first = (*S)[s].run(); armed = 0; long n0 = count_;
                count_ = 0; armed = 1; std::string w = (*S)[s].run(); armed = 0;
                fprintf(f, "%ld %zu ", std::max(n0, count_), first.size()); fwrite(first.data(), 1, first.size(), f);
            }
            fclose(f); _exit(0);
        }
        close(p[1]); FILE *f = fdopen(p[0], "r");
        for (size_t s = 0; s < S->size(); s++) { long n; size_t m; if (fscanf(f, "%ld %zu", &n, &m) != 2) { fprintf(stderr, "dry run of %s failed\n", (*S)[s].name.c_str()); abort(); } fgetc(f); std::string w(m, 0); if (fread(&w[0], 1, m, f) != m) abort(); N->push_back(n); WANT->push_back(w); mx = std::max(mx, n); tot += uint64_t(n); }
        fclose(f); int st; waitpid(pid, &st, 0);
    }
    struct P { size_t s; long k; }; auto pts = std::make_shared<std::vector<P>>();
    for (size_t s = 0; s < S->size(); s++) for (long k = 0; k < (*N)[s] + 2; k++) pts->push_back({s, k});
    std::string b = std::to_string(S->size()) + " scenarios, " + std::to_string(tot) + " allocations";
    auto fp = std::make_shared<std::vector<P>>(); for (auto &p : *pts) if (!(*S)[p.s].world && (p.s % 5 == 0 || p.s < 80 || r.thorough())) fp->push_back(p);
    r.each("first-use", "each allocation failing (alone; with all later ones) in the very first conversion of a process, then the same call again", fp->size() * 2, [fp](Ctx &c, uint64_t i) {
        auto p = (*fp)[i / 2]; fflush(nullptr); pid_t pid = fork();   // this worker has not used the library yet
        if (pid == 0) { try { judge(c, p.s, i & 1 ? -1 : p.k, i & 1 ? p.k : -1, -1, false); } catch (const mc::Failure &) { _exit(3); } _exit(0); }
        int st; waitpid(pid, &st, 0); c.calls(2); c.note("%s, allocation %ld, first use", (*S)[p.s].name.c_str(), p.k);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) throw mc::Failure();
        if (!WIFEXITED(st) || WEXITSTATUS(st)) c.fail("%s: the process dies when allocation %ld fails in its first conversion", (*S)[p.s].name.c_str(), p.k);
    });
    r.each("no-leak", "every scenario without failures leaves no allocation behind and gives the same result twice", S->size(), [](Ctx &c, uint64_t s) { judge(c, s, -1, long(1) << 40, -1, true); });
    r.each("fail-one", b + ": each allocation fails alone", pts->size(), [pts](Ctx &c, uint64_t i) { judge(c, (*pts)[i].s, (*pts)[i].k, -1, -1, true); });
    r.each("fail-from", b + ": each allocation and all later ones fail", pts->size(), [pts](Ctx &c, uint64_t i) { judge(c, (*pts)[i].s, -1, (*pts)[i].k, -1, true); });
    r.each("fail-two", b + ": each allocation and the d-th after it fail, d = 1..8", pts->size() * 8, [pts](Ctx &c, uint64_t i) { auto &p = (*pts)[i / 8]; judge(c, p.s, p.k, -1, p.k + 1 + long(i % 8), true); });
    if (r.thorough()) {
        uint64_t n = S->size(); auto q = std::make_shared<std::vector<P>>(); for (auto &p : *pts) if (p.s % 3 == 0) q->push_back(p);
        r.each("fail-then-other", "after each failure every third other scenario still gives its result", q->size() * (n / 3), [q, n](Ctx &c, uint64_t i) {
            auto &p = (*q)[i / (n / 3)]; std::string o; attempt(c, p.s, o, p.k, -1, -1); size_t t = i % (n / 3) * 3; std::string x; if (!attempt(c, t, x, -1, -1, -1) || x != (*WANT)[t]) c.fail("%s after allocation %ld of %s failed: %s, want %s", (*S)[t].name.c_str(), p.k, (*S)[p.s].name.c_str(), show(x).c_str(), show((*WANT)[t]).c_str()); });
    }
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c15::setup)
#endif
