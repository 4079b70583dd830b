// C07: formatter and extractor objects are values. All operation histories on object slots up to a depth.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <cmath>
#include <new>
#include <utility>
#include <lexi/lexi.hpp>

namespace c07 {
using mc::Ctx; using mc::show;
enum class En : long long {};
enum class Ec : unsigned char {};

// ---- per class: values, how to construct value k, how to check that an object holds value k
template <class F> void check_text(Ctx &c, const F &f, const std::string &t, const std::string &esc, const std::string &js, const char *cn) {
    c.calls(9);
    if (f.size() != t.size() || f.length() != t.size()) c.fail("%s holding %s reports size %zu, length %zu", cn, show(t).c_str(), f.size(), f.length());
    const char *d = f.data(), *z = f.c_str();
    if (memcmp(d, t.data(), t.size()) || memcmp(z, t.data(), t.size())) c.fail("%s holding %s: data() %s c_str() %s", cn, show(t).c_str(), show(std::string(d, t.size())).c_str(), show(std::string(z, t.size())).c_str());
    if (d[t.size()] != 0 || z[t.size()] != 0) c.fail("%s holding %s: no NUL after the text", cn, show(t).c_str());
    if (f.string() != t || std::string(f) != t || f.escape() != esc || f.jsonify() != js)
        c.fail("%s holding %s: string() %s, std::string %s, escape() %s, jsonify() %s", cn, show(t).c_str(), show(f.string()).c_str(), show(std::string(f)).c_str(), show(f.escape()).c_str(), show(f.jsonify()).c_str());
}
struct TInt { typedef lexi::FormatInt O; static const char *name() { return "FormatInt"; } static const int N = 4;
    static void make(void *p, int k) { if (k == 0) new (p) O(0); else if (k == 1) new (p) O(std::numeric_limits<long long>::min()); else if (k == 2) new (p) O(std::numeric_limits<unsigned long long>::max()); else new (p) O(int8_t(-128)); }
    static std::string text(int k) { return k == 0 ? "0" : k == 1 ? "-9223372036854775808" : k == 2 ? "18446744073709551615" : "-128"; }
    static void check(Ctx &c, const O &o, int k) { check_text(c, o, text(k), text(k), text(k), name()); } };
struct TFloat { typedef lexi::FormatFloat O; static const char *name() { return "FormatFloat"; } static const int N = 5;
    static void make(void *p, int k) { if (k == 0) new (p) O(0.0); else if (k == 1) new (p) O(-2.2250738585072014e-308); else if (k == 2) new (p) O(-INFINITY); else if (k == 3) new (p) O(1.5f); else new (p) O((long double)-123456789012345680000.0); }
    static std::string text(int k) { return k == 0 ? "0.0" : k == 1 ? "-2.2250738585072014e-308" : k == 2 ? "-Infinity" : k == 3 ? "1.5" : "-123456789012345680000.0"; }
    static void check(Ctx &c, const O &o, int k) { check_text(c, o, text(k), text(k), text(k), name()); } };
struct TBool { typedef lexi::FormatBool O; static const char *name() { return "FormatBool"; } static const int N = 2;
    static void make(void *p, int k) { new (p) O(k == 1); }
    static void check(Ctx &c, const O &o, int k) { std::string t = k ? "true" : "false"; check_text(c, o, t, t, t, name()); } };
struct TNull { typedef lexi::FormatNull O; static const char *name() { return "FormatNull"; } static const int N = 2;
    static void make(void *p, int k) { if (k) new (p) O(nullptr); else new (p) O(); }
    static void check(Ctx &c, const O &o, int) { check_text(c, o, "null", "null", "null", name()); } };
struct TChar { typedef lexi::FormatChar O; static const char *name() { return "FormatChar"; } static const int N = 5;
    static char val(int k) { static const char V[5] = {'a', '"', '\0', '\n', '\xff'}; return V[k]; }
    static void make(void *p, int k) { if (k & 1) new (p) O((unsigned char)val(k)); else new (p) O(val(k)); }
    static void check(Ctx &c, const O &o, int k) { static const char *E[5] = {"a", "\\\"", "\\", "\\\n", "\xff"}; static const char *J[5] = {"\"a\"", "\"\\\"\"", "\"\\u0000\"", "\"\\n\"", "\"\xff\""}; std::string e = E[k]; if (k == 2) e += '\0'; check_text(c, o, std::string(1, val(k)), e, J[k], name()); } };
struct TEnum { typedef lexi::FormatEnum O; static const char *name() { return "FormatEnum"; } static const int N = 3;
    static void make(void *p, int k) { if (k == 0) new (p) O(En(-1234567890123456789ll)); else if (k == 1) new (p) O(Ec(200)); else new (p) O(En(0)); }
    static void check(Ctx &c, const O &o, int k) { std::string t = k == 0 ? "-1234567890123456789" : k == 1 ? "200" : "0"; check_text(c, o, t, t, t, name()); } };
struct XInt { typedef lexi::ExtractInt O; static const char *name() { return "ExtractInt"; } static const int N = 3;
    static const char *src(int k) { static const char *S[3] = {"18446744073709551615", "-9223372036854775808", "42"}; return S[k]; }
    static void make(void *p, int k) { std::string s(src(k)); new (p) O(s); s.assign(64, '7'); }
    static void check(Ctx &c, const O &o, int k) { c.calls(2);
        unsigned long long u = (unsigned long long)o; long long i = (long long)o;
        bool ok = k == 0 ? u == ~0ull : k == 1 ? i == std::numeric_limits<long long>::min() : (u == 42 && i == 42 && int(o) == 42 && short(o) == 42 && int8_t(o) == 42);
        if (!ok) c.fail("ExtractInt of %s converts to %llu / %lld", src(k), u, i); } };
struct XFloat { typedef lexi::ExtractFloat O; static const char *name() { return "ExtractFloat"; } static const int N = 3;
    static const char *src(int k) { static const char *S[3] = {"1.5", "-1234567890.12345678901234567890123456789e10", "1e400"}; return S[k]; }
    static void make(void *p, int k) { std::string s(src(k)); new (p) O(s); s.assign(64, '7'); }
    static void check(Ctx &c, const O &o, int k) { c.calls(3);
        static const double D[3] = {1.5, -1234567890.12345678901234567890123456789e10, INFINITY}; static const float F[3] = {1.5f, -1234567890.12345678901234567890123456789e10f, INFINITY}; static const long double L[3] = {1.5L, -1234567890.12345678901234567890123456789e10L, 1e400L};
        if (double(o) != D[k] || float(o) != F[k] || (long double)(o) != L[k]) c.fail("ExtractFloat of %s converts to %a / %a / %La", src(k), double(o), double(float(o)), (long double)(o)); } };
struct XBool { typedef lexi::ExtractBool O; static const char *name() { return "ExtractBool"; } static const int N = 2;
    static void make(void *p, int k) { new (p) O(k ? "true" : "false"); }
    static void check(Ctx &c, const O &o, int k) { c.calls(1); if (bool(o) != (k == 1)) c.fail("ExtractBool holds %d, want %d", int(bool(o)), k); } };
struct XChar { typedef lexi::ExtractChar O; static const char *name() { return "ExtractChar"; } static const int N = 3;
    static void make(void *p, int k) { std::string s(k == 0 ? "a" : k == 1 ? "\xfe" "bc" : "\n"); new (p) O(s); }
    static void check(Ctx &c, const O &o, int k) { c.calls(2); char w = k == 0 ? 'a' : k == 1 ? '\xfe' : '\n'; if (char(o) != w || (unsigned char)(o) != (unsigned char)w) c.fail("ExtractChar holds %d, want %d", char(o), w); } };
struct XEnum { typedef lexi::ExtractEnum O; static const char *name() { return "ExtractEnum"; } static const int N = 2;
    static void make(void *p, int k) { std::string s(k ? "-77" : "9223372036854775807"); new (p) O(s); }
    static void check(Ctx &c, const O &o, int k) { c.calls(1); if (En(o) != En(k ? -77 : 9223372036854775807ll)) c.fail("ExtractEnum holds %lld", (long long)En(o)); } };
struct XNull { typedef lexi::ExtractNull O; static const char *name() { return "ExtractNull"; } static const int N = 1;
    static void make(void *p, int) { new (p) O("null"); }
    static void check(Ctx &c, const O &o, int) { c.calls(1); if (o.null() != nullptr || std::nullptr_t(o) != nullptr) c.fail("ExtractNull is not null"); } };

// ---- slots
static const int S = 3;
enum Kind { NEW, COPY, MOVE, ASSIGN, MASSIGN, ASSIGN_TMP, SWAP, DESTROY, BYVALUE, REPLACE };
struct Op { Kind k; int i, j; };
static const int EMPTY = -1, MOVED = -2;   // MOVED: alive, value unspecified
inline std::string opname(const Op &o) {
    static const char *K[] = {"new", "copy", "move", "assign", "move-assign", "assign-temporary", "swap", "destroy", "pass-and-return-by-value", "replace"};
    return std::string(K[o.k]) + "(" + std::to_string(o.i) + "," + std::to_string(o.j) + ")";
}
template <class T> std::vector<Op> ops() {
    std::vector<Op> v;
    for (int i = 0; i < S; i++) for (int k = 0; k < T::N; k++) { v.push_back({NEW, i, k}); v.push_back({ASSIGN_TMP, i, k}); }
    for (int i = 0; i < S; i++) for (int j = 0; j < S; j++) {
        if (i != j) { v.push_back({COPY, i, j}); v.push_back({MOVE, i, j}); v.push_back({MASSIGN, i, j}); v.push_back({BYVALUE, i, j}); }
        v.push_back({ASSIGN, i, j});
        if (i < j) v.push_back({SWAP, i, j});
    }
    for (int i = 0; i < S; i++) v.push_back({DESTROY, i, 0});
    return v;
}
template <class O> __attribute__((noinline)) O through(O x) { return x; }
template <class T> struct Slots {
    typedef typename T::O O;
    struct Cell { unsigned char pad0[16]; alignas(O) unsigned char raw[sizeof(O)]; unsigned char pad1[16]; } cell[S];
    int st[S];
    O &o(int i) { return *reinterpret_cast<O *>(cell[i].raw); }
    Slots() { memset(cell, 0xA5, sizeof cell); for (int i = 0; i < S; i++) st[i] = EMPTY; }
    ~Slots() { for (int i = 0; i < S; i++) if (st[i] != EMPTY) o(i).~O(); }
    void kill(int i) { if (st[i] != EMPTY) { o(i).~O(); memset(cell[i].raw, 0xA5, sizeof(O)); st[i] = EMPTY; } }
    bool enabled(const Op &p) const {
        bool ai = st[p.i] != EMPTY, vj = p.j < S && st[p.j] >= 0;
        switch (p.k) {
        case NEW: return !ai; case ASSIGN_TMP: return ai; case DESTROY: return ai;
        case COPY: case MOVE: return !ai && vj;
        case ASSIGN: return ai && vj; case MASSIGN: case BYVALUE: return ai && vj;
        case SWAP: return st[p.i] >= 0 && vj;
        default: return false;
        }
    }
    void apply(const Op &p) {
        switch (p.k) {
        case NEW: T::make(cell[p.i].raw, p.j); st[p.i] = p.j; break;
        case ASSIGN_TMP: { alignas(O) unsigned char t[sizeof(O)]; T::make(t, p.j); O &x = *reinterpret_cast<O *>(t); o(p.i) = x; x.~O(); memset(t, 0x5A, sizeof t); __asm__ volatile("" ::"r"(t) : "memory"); st[p.i] = p.j; break; }
        case COPY: new (cell[p.i].raw) O(static_cast<const O &>(o(p.j))); st[p.i] = st[p.j]; break;
        case MOVE: new (cell[p.i].raw) O(std::move(o(p.j))); st[p.i] = st[p.j]; st[p.j] = MOVED; break;
        case ASSIGN: { O &r = (o(p.i) = static_cast<const O &>(o(p.j))); (void)r; st[p.i] = st[p.j]; break; }
        case MASSIGN: o(p.i) = std::move(o(p.j)); st[p.i] = st[p.j]; st[p.j] = MOVED; break;
        case BYVALUE: { auto tmp = through<O>(o(p.j)); o(p.i) = tmp; st[p.i] = st[p.j]; break; }
        case SWAP: { using std::swap; swap(o(p.i), o(p.j)); std::swap(st[p.i], st[p.j]); break; }
        case DESTROY: kill(p.i); break;
        default: break;
        }
    }
    void check(Ctx &c) {
        for (int i = 0; i < S; i++) {
            for (int k = 0; k < 16; k++) if (cell[i].pad0[k] != 0xA5 || cell[i].pad1[k] != 0xA5) c.fail("%s: bytes next to the object were overwritten", T::name());
            if (st[i] >= 0) T::check(c, o(i), st[i]);
        }
        uint64_t h = uint64_t(uintptr_t(T::name())); for (int i = 0; i < S; i++) h = h * 16 + uint64_t(st[i] + 2);
        c.outcome(h * 31 + T::N);
    }
};
// replay of one complete history from scratch (objects are not copied between branches by the explorer)
template <class T> void history(Ctx &c, const std::vector<Op> &h) {
    std::string d;
    if (c.verbose) { for (auto &o : h) d += opname(o) + " "; c.note("%s: %s", T::name(), d.c_str()); }
    Slots<T> s;
    for (size_t i = 0; i < h.size(); i++) { s.apply(h[i]); }
    try { s.check(c); } catch (const mc::Failure &) { d.clear(); for (auto &o : h) d += opname(o) + " "; size_t n = strlen(c.s->fail_msg); snprintf(c.s->fail_msg + n, sizeof c.s->fail_msg - n, " after %s", d.c_str()); throw; }
}
template <class T> void dfs(Ctx &c, const std::vector<Op> &all, std::vector<Op> &h, std::vector<int> &stv, int depth) {
    // enabledness from the model state, tracked beside the history
    for (auto &o : all) {
        Slots<T> *dummy = nullptr; (void)dummy;
        std::vector<int> st = stv;
        bool ai = st[o.i] != EMPTY, vj = o.j < S && st[o.j] >= 0, en;
        switch (o.k) { case NEW: en = !ai; break; case ASSIGN_TMP: case DESTROY: en = ai; break; case COPY: case MOVE: en = !ai && vj; break; case ASSIGN: case MASSIGN: case BYVALUE: en = ai && vj; break; case SWAP: en = st[o.i] >= 0 && vj; break; default: en = false; }
        if (!en) continue;
        switch (o.k) { case NEW: case ASSIGN_TMP: st[o.i] = o.j; break; case DESTROY: st[o.i] = EMPTY; break; case COPY: case ASSIGN: case BYVALUE: st[o.i] = st[o.j]; break; case MOVE: case MASSIGN: st[o.i] = st[o.j]; st[o.j] = MOVED; break; case SWAP: std::swap(st[o.i], st[o.j]); break; default: break; }
        h.push_back(o);
        history<T>(c, h);
        if (depth > 1) dfs<T>(c, all, h, st, depth - 1);
        h.pop_back();
    }
}
template <class T> void family(mc::Run &r, int depth) {
    auto all = std::make_shared<std::vector<Op>>(ops<T>());
    size_t n = all->size();
    r.each(std::string("history-") + T::name(), "all operation histories of length <= " + std::to_string(depth) + " on 3 slots, " + std::to_string(T::N) + " values", n * n, [all, n, depth](Ctx &c, uint64_t i) {
        const Op &a = (*all)[i / n], &b = (*all)[i % n];
        std::vector<int> st(S, EMPTY); std::vector<Op> h;
        Slots<T> s; if (!s.enabled(a)) return;
        s.apply(a); h.push_back(a); if (i % n == 0) history<T>(c, h);
        if (!s.enabled(b)) return;
        s.apply(b); h.push_back(b); history<T>(c, h);
        for (int k = 0; k < S; k++) st[k] = s.st[k];
        if (depth > 2) dfs<T>(c, *all, h, st, depth - 2);
    }, 1);
}

// copies of every text length/shape, sources destroyed and overwritten, and reallocation in a container
template <class O, class V> void copies(Ctx &c, V v, const std::string &want) {
    alignas(O) unsigned char a[sizeof(O)], b[sizeof(O)], d[sizeof(O)];
    O *x = new (a) O(v); std::string t = x->string();
    if (!want.empty() && t != want) c.fail("text is %s, want %s", show(t).c_str(), want.c_str());
    O *y = new (b) O(*x); O *z = new (d) O(V(0)); *z = *x;
    x->~O(); memset(a, 0xA5, sizeof a); __asm__ volatile("" ::"r"(a) : "memory");
    check_text(c, *y, t, t, t, "copy"); check_text(c, *z, t, t, t, "assigned copy");
    std::vector<O> g; for (int i = 0; i < 3; i++) g.push_back(*y);
    for (auto &o : g) check_text(c, o, t, t, t, "vector element");
    y->~O(); memset(b, 0x5A, sizeof b); __asm__ volatile("" ::"r"(b) : "memory");
    check_text(c, *z, t, t, t, "assigned copy"); check_text(c, g[0], t, t, t, "vector element");
    c.outcome(t); c.note("copies of %s", t.c_str());
    z->~O();
}
// every ordered pair of texts of different lengths and shapes: assignment both ways, swap, chains, self-assignment
template <class O> void pair(Ctx &c, const O &p, const O &q, const std::string &a, const std::string &b, const char *cn) {
    O x(p), y(q); O &r = (x = y); if (&r != &x) c.fail("%s: assignment does not return the object assigned to", cn);
    check_text(c, x, b, b, b, cn); check_text(c, y, b, b, b, cn);
    x = p; check_text(c, x, a, a, a, cn); check_text(c, y, b, b, b, cn);
    { using std::swap; swap(x, y); } check_text(c, x, b, b, b, cn); check_text(c, y, a, a, a, cn);
    O z(p); z = x = y; check_text(c, z, a, a, a, cn); check_text(c, x, a, a, a, cn);
    O *self = &z; *self = z; check_text(c, z, a, a, a, cn);
    z = O(q); check_text(c, z, b, b, b, cn); y = std::move(z); check_text(c, y, b, b, b, cn);
    c.outcome(a + "/" + b); c.note("%s pair %s, %s", cn, a.c_str(), b.c_str());
}
// one extractor converted to one type and then to another: the second must be what a fresh extractor gives
template <class O, class A, class B> void then(Ctx &c, const std::string &t, B want, const char *cn) {
    const O o(t); try { volatile A a = static_cast<A>(o); (void)a; } catch (const std::exception &) {} B b = static_cast<B>(o), b2 = static_cast<B>(o); const O p(o); B b3 = static_cast<B>(p);
    c.calls(4); if (b != want || b2 != want || b3 != want) c.fail("%s of %s converts to %Lg, %Lg (copy: %Lg) after another conversion (to a type of %zu bytes), want %Lg", cn, show(t).c_str(), (long double)b, (long double)b2, (long double)b3, sizeof(A), (long double)want);
}
template <class A> void then_ints(Ctx &c, const std::string &t, __int128 v) {
    #define MC_THEN(B) if (v >= (__int128)std::numeric_limits<B>::min() && v <= (__int128)std::numeric_limits<B>::max()) then<lexi::ExtractInt, A, B>(c, t, static_cast<B>(v), "ExtractInt");
    MC_THEN(int8_t) MC_THEN(uint8_t) MC_THEN(short) MC_THEN(unsigned short) MC_THEN(int) MC_THEN(unsigned) MC_THEN(long) MC_THEN(unsigned long) MC_THEN(long long) MC_THEN(unsigned long long)
    #undef MC_THEN
}
template <class A> void then_floats(Ctx &c, const std::string &t) {
    then<lexi::ExtractFloat, A, float>(c, t, strtof(t.c_str(), nullptr), "ExtractFloat"); then<lexi::ExtractFloat, A, double>(c, t, strtod(t.c_str(), nullptr), "ExtractFloat"); then<lexi::ExtractFloat, A, long double>(c, t, strtold(t.c_str(), nullptr), "ExtractFloat");
}
void setup(mc::Run &r) {
    {
        auto iv = std::make_shared<std::vector<std::pair<bool, unsigned long long>>>(); // (signed?, value): every text length twice
        unsigned long long p = 1; for (int d = 1; d <= 20; d++) { iv->push_back({false, p}); iv->push_back({false, d == 20 ? ~0ull : p * 10 - 1}); if (d < 20) { iv->push_back({true, 0ull - p}); iv->push_back({true, d == 19 ? 1ull << 63 : 0ull - (p * 10 - 1)}); } if (d < 20) p *= 10; }
        iv->push_back({false, 0});
        size_t n = iv->size();
        r.each("pairs-int", "every ordered pair of integers over two values of each text length and sign: assignments, swap, chains", n * n, [iv, n](Ctx &c, uint64_t i) {
            auto &u = (*iv)[i / n], &v = (*iv)[i % n];
            lexi::FormatInt a = u.first ? lexi::FormatInt((long long)u.second) : lexi::FormatInt(u.second), b = v.first ? lexi::FormatInt((long long)v.second) : lexi::FormatInt(v.second);
            pair(c, a, b, u.first ? ref::sdec((long long)u.second) : ref::udec(u.second), v.first ? ref::sdec((long long)v.second) : ref::udec(v.second), "FormatInt");
        });
        auto fv = std::make_shared<std::vector<double>>(std::vector<double>{0.0, INFINITY, -INFINITY, NAN});
        char b[64]; for (int d = 1; d <= 17; d++) for (int e : {-308, -20, -6, -3, 0, 5, 20, 30, 300}) for (int neg = 0; neg < 2; neg++) { snprintf(b, sizeof b, "%s%.*fe%d", neg ? "-" : "", d - 1, 1.2345678901234567, e); fv->push_back(strtod(b, nullptr)); }
        std::vector<double> u; std::vector<size_t> seen(64, 0); for (double x : *fv) { std::string t = lexi::FormatFloat(x).string(); if (t.size() < 64 && seen[t.size()]++ < 4) u.push_back(x); } *fv = u;
        size_t m = fv->size();
        r.each("pairs-float", "every ordered pair of doubles over four values of each text length: assignments, swap, chains", m * m, [fv, m](Ctx &c, uint64_t i) {
            lexi::FormatFloat a((*fv)[i / m]), b((*fv)[i % m]); pair(c, a, b, lexi::lexi((*fv)[i / m]), lexi::lexi((*fv)[i % m]), "FormatFloat");
        });
        static const char *IT[] = {"0", "-0", "7", "-7", "127", "128", "-128", "-129", "255", "256", "300", "-32768", "32767", "32768", "65535", "65536", "65537", "-65537", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", " 42x", "000000000000000000000000000000000000000000000000000000000000000000000042"};
        static const __int128 IV[] = {0, 0, 7, -7, 127, 128, -128, -129, 255, 256, 300, -32768, 32767, 32768, 65535, 65536, 65537, -65537, 2147483647, 2147483648ll, -2147483648ll, -2147483649ll, 4294967295ll, 4294967296ll, 4294967297ll, 9223372036854775807ll, (__int128)9223372036854775808ull, -(__int128)9223372036854775808ull, (__int128)18446744073709551615ull, 42, 42};
        r.each("reconvert-int", "one ExtractInt converted to every ordered pair of integer types, limits of every type", sizeof IT / sizeof *IT * 10, [](Ctx &c, uint64_t i) {
            const std::string t = IT[i / 10]; __int128 v = IV[i / 10]; c.note("ExtractInt(%s)", t.c_str()); c.outcome(t);
            switch (i % 10) { case 0: then_ints<int8_t>(c, t, v); break; case 1: then_ints<uint8_t>(c, t, v); break; case 2: then_ints<short>(c, t, v); break; case 3: then_ints<unsigned short>(c, t, v); break; case 4: then_ints<int>(c, t, v); break; case 5: then_ints<unsigned>(c, t, v); break; case 6: then_ints<long>(c, t, v); break; case 7: then_ints<unsigned long>(c, t, v); break; case 8: then_ints<long long>(c, t, v); break; default: then_ints<unsigned long long>(c, t, v); }
        });
        static const char *FT[] = {"0", "1.5", "0.1", "16777217", "16777217.0000000001", "9007199254740993", "1e39", "1e-46", "1e309", "-1e309", "5e-324", "1e4900", "1e-4940", "3.4028235677973366e38", "  -2.5e3x", "0.10000000000000000000000000000000000000000000000000000000000000000001"};
        r.each("reconvert-float", "one ExtractFloat converted to every ordered pair of floating types", sizeof FT / sizeof *FT * 3, [](Ctx &c, uint64_t i) {
            const std::string t = FT[i / 3]; c.note("ExtractFloat(%s)", t.c_str()); c.outcome(t);
            if (i % 3 == 0) then_floats<float>(c, t); else if (i % 3 == 1) then_floats<double>(c, t); else then_floats<long double>(c, t);
        });
    }
    int d = r.thorough() ? 6 : r.san() ? 3 : 5;
    family<TInt>(r, d); family<TFloat>(r, d); family<TBool>(r, d); family<TNull>(r, d);
    family<TChar>(r, d - 1); family<TEnum>(r, d); family<XInt>(r, d); family<XFloat>(r, d);
    family<XBool>(r, d); family<XChar>(r, d); family<XEnum>(r, d); family<XNull>(r, d);
    auto near = std::make_shared<sp::NearInts>(r.san() ? 2 : 100);
    r.each("copies-int", "copies of integers around every power of 2 and 10", near->count(), [near](Ctx &c, uint64_t i) { uint64_t v = near->at(i); copies<lexi::FormatInt, unsigned long long>(c, v, ref::udec(v)); copies<lexi::FormatInt, long long>(c, (long long)v, ref::sdec((long long)v)); copies<lexi::FormatInt, int>(c, int(v), ref::sdec(int(v))); });
    sp::ExpFrac *pf = new sp::ExpFrac(0); std::shared_ptr<sp::ExpFrac> ef(pf);
    uint64_t step = r.san() ? 97 : 11;
    r.each("copies-float", "copies of doubles: every exponent x edge fractions, every " + std::to_string(step) + "th", ef->count() / step, [ef, step](Ctx &c, uint64_t i) { double v = ef->at(i * step); copies<lexi::FormatFloat, double>(c, v, ""); copies<lexi::FormatFloat, double>(c, -v, ""); copies<lexi::FormatFloat, float>(c, float(v), ""); copies<lexi::FormatFloat, long double>(c, (long double)v, ""); });
    r.each("chars", "all 256 characters: accessors, copies", 256, [](Ctx &c, uint64_t i) {
        lexi::FormatChar a((char)i), b((unsigned char)i), d(a); d = b;
        std::string t(1, char(i)), e = lexi::escape(t), j = lexi::jsonify(t);
        for (auto *p : {&a, &b, &d}) check_text(c, *p, t, e, j, "FormatChar");
        c.outcome(e); c.note("char %d", int(i));
    });
    r.each("slice", "FormatEnum used as FormatInt outlives the enum formatter", 4, [](Ctx &c, uint64_t i) {
        static const long long V[4] = {0, -1, 9223372036854775807ll, -9223372036854775807ll - 1};
        alignas(lexi::FormatEnum) unsigned char a[sizeof(lexi::FormatEnum)];
        auto *e = new (a) lexi::FormatEnum(En(V[i])); lexi::FormatInt f(*e), g(1); g = *e; e->~FormatEnum(); memset(a, 0xA5, sizeof a); __asm__ volatile("" ::"r"(a) : "memory");
        std::string t = ref::sdec(V[i]); check_text(c, f, t, t, t, "FormatInt sliced from FormatEnum"); check_text(c, g, t, t, t, "FormatInt assigned from FormatEnum"); c.outcome(t);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c07::setup)
#endif
