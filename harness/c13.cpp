// C13: conversions are independent of history, of errno, of floating-point flags and of what memory held before.
#include "mc.hpp"
#include "ops.hpp"
#include <cfenv>
#include <malloc.h>
#include <alloca.h>
#include <random>

namespace c13 {
using mc::Ctx; using mc::show;
static std::vector<ops::Op> *A;
static std::vector<std::string> *FRESH;   // result of each operation as the first one of a process

static const int ERR[] = {0, ERANGE, EINVAL, -1};
static const int PAT[] = {0x00, 0xff, 0xa5, 0x39};
// fill the stack below with a pattern, so that a value read before it is written differs between runs
__attribute__((noinline)) void scrub(int pat) { volatile char *p = static_cast<volatile char *>(alloca(16384)); memset(const_cast<char *>(p), pat, 16384); asm volatile("" : : "r"(p) : "memory"); }

__attribute__((noinline)) std::string exec(size_t op, ops::Hold *h, int err, int pat) {
    scrub(pat); errno = err; if (err) feraiseexcept(FE_ALL_EXCEPT); else feclearexcept(FE_ALL_EXCEPT);
    return (*A)[op].run(h);
}
struct Env { int perturb; };
inline void sequence(Ctx &c, const std::vector<size_t> &s, unsigned variant, bool hold) {
    mallopt(M_PERTURB, variant % 3 == 0 ? 0 : variant % 3 == 1 ? 0x5a : 0xff);
    ops::Hold h;
    for (size_t i = 0; i < s.size(); i++) {
        std::string r = exec(s[i], hold ? &h : nullptr, ERR[(variant + i) % 4], PAT[(variant / 4 + i) % 4]);
        c.calls(1);
        if (r != (*FRESH)[s[i]]) {
            std::string seq; for (size_t k = i < 8 ? 0 : i - 8; k <= i; k++) seq += (seq.empty() ? "" : ", ") + (*A)[s[k]].name;
            c.fail("after [%s] (errno %d, step %zu): result %s, in a fresh process %s", seq.c_str(), ERR[(variant + i) % 4], i, show(r).c_str(), show((*FRESH)[s[i]]).c_str());
        }
        for (size_t k = 0; k < h.still.size(); k++) if (!h.still[k]()) {
            std::string seq; for (size_t q = 0; q <= i; q++) seq += (seq.empty() ? "" : ", ") + (*A)[s[q]].name;
            c.fail("result %zu returned earlier changed after [%s]", k, seq.c_str());
        }
    }
    std::string o; for (size_t x : s) { o += char(x); } o += char(variant); c.outcome(o);
    if (c.verbose) { std::string q; for (size_t x : s) q += (*A)[x].name + " -> " + show((*FRESH)[x]) + "; "; c.note("%s", q.substr(0, 300).c_str()); }
}
// run f in a child process and get its text
template <class F> std::string in_child(F f, bool &ok) {
    int p[2]; if (pipe(p)) abort();
    fflush(nullptr); pid_t pid = fork();
    if (pid == 0) { close(p[0]); std::string s; try { s = f(); } catch (...) { s = "unknown exception"; } size_t o = 0; while (o < s.size()) { ssize_t n = write(p[1], s.data() + o, s.size() - o); if (n <= 0) break; o += size_t(n); } _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, size_t(n)); close(p[0]);
    int st; waitpid(pid, &st, 0); ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; return s;
}
// value alphabets: values of one conversion that a cache, key or shared buffer could confuse
struct Values { std::string name; std::vector<ops::Op> op; std::vector<std::string> fresh; };
inline std::vector<Values> *value_alphabets(bool big) {
    auto *v = new std::vector<Values>();
    auto ints = [] { std::vector<long long> x; for (long long b : {0ll, 1ll, 9ll, 10ll, 42ll, 99ll, 100ll, 127ll, 128ll, 255ll, 256ll, 1000ll, 32767ll, 65535ll, 65536ll, 1000000ll, 2147483647ll, 2147483648ll, 4294967295ll, 4294967296ll, 4294967338ll, 99999999ll, 100000000ll, 9999999999999999ll, 10000000000000000ll, 9223372036854775807ll}) { x.push_back(b); x.push_back(-b); x.push_back(b ^ (1ll << 40)); } x.push_back(std::numeric_limits<long long>::min()); return x; }();
    auto dbls = [] { std::vector<double> x; for (double b : {0.0, 1.0, 1.5, 2.0, 10.0, 0.1, 0.5, 1.0 / 3, 100.0, 123456.0, 123456.5, 1e6, 1e-6, 1e-7, 1e20, 1e21, 1e22, 1e100, 1e-100, 5e-324, 1e-310, 2.2250738585072014e-308, 1.7976931348623157e308, 4294967296.0, 9007199254740993.0, 0.30000000000000004, 1.1, double(1.1f), 16777216.0}) { x.push_back(b); x.push_back(-b); uint64_t u; memcpy(&u, &b, 8); u ^= 1; double d; memcpy(&d, &u, 8); x.push_back(d); u ^= 1ull << 32; memcpy(&d, &u, 8); x.push_back(d); } x.push_back(NAN); x.push_back(INFINITY); x.push_back(-INFINITY); return x; }();
    std::vector<std::string> txt{"", "a", "b", "ab", "ba", "\"", "\\", "\n", "a\"b", "a b", std::string(1, '\0'), std::string("a\0", 2), std::string("a\0b", 3), std::string(15, 'x'), std::string(16, 'x'), std::string(16, 'y'), std::string(17, '.'), std::string(31, '\n'), std::string(64, '/'), std::string(65, 'q'), std::string(255, 'z'), std::string(256, '"'), std::string(257, 'z'), std::string(1000, '\1'), "\xff\xfe", "\x7f", "0", "null", "true"};
    std::vector<std::string> nums{"0", "1", "-1", "+1", " 1", "1x", "12", "21", "0012", "127", "128", "255", "256", "-128", "65535", "65536", "2147483647", "-2147483648", "4294967295", "4294967296", "9223372036854775807", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "-18446744073709551616", "", "-", "x", "1e3", "0x10", "99999999999999999999", "1.5"};
    std::vector<std::string> fl{"0", "-0", "1", "1.5", "-1.5", "0.1", "0.10", "1e-1", "1e22", "1e23", "123456789012345678", "9007199254740993", "1e308", "1e309", "-1e309", "1e-324", "5e-324", "2.4703282292062328e-324", "1e400", "-1e400", "1e-400", "", "-", ".", "x", "inf", "nan", "NaN", "Infinity", "-Infinity", "3.4028236e38", "1e39", "1e-46", "0.333333333333333333333333333333333", " 7 ", "1e", "1e+", "1.", ".5"};
    Values V;
    V = {"int", {}, {}}; for (long long x : ints) { V.op.push_back(ops::fmt<lexi::FormatInt, long long>(std::to_string(x).c_str(), x)); V.op.push_back(ops::fmt<lexi::FormatInt, int>(("int " + std::to_string(int(x))).c_str(), int(x))); } v->push_back(V);
    V = {"float", {}, {}}; for (double x : dbls) { char b[40]; snprintf(b, sizeof b, "%a", x); V.op.push_back(ops::fmt<lexi::FormatFloat, double>(b, x)); } for (size_t i = 0; i < dbls.size(); i += 3) { char b[40]; snprintf(b, sizeof b, "float %a", double(float(dbls[i]))); V.op.push_back(ops::fmt<lexi::FormatFloat, float>(b, float(dbls[i]))); } v->push_back(V);
    V = {"text", {}, {}}; for (auto &t : txt) { V.op.push_back(ops::gen<std::string>(mc::show(t).c_str(), t)); if (t.size() == 1) V.op.push_back(ops::gen<char>(("char " + mc::show(t)).c_str(), t[0])); } v->push_back(V);
    V = {"extract-int", {}, {}}; for (auto &t : nums) { V.op.push_back(ops::geti<int>(("int " + t).c_str(), t)); V.op.push_back(ops::geti<unsigned long long>(("ull " + t).c_str(), t)); V.op.push_back(ops::geti<signed char>(("int8 " + t).c_str(), t)); V.op.push_back(ops::geti<long long>(("ll " + t).c_str(), t)); } v->push_back(V);
    V = {"extract-float", {}, {}}; for (auto &t : fl) { V.op.push_back(ops::getf<double>(("double " + t).c_str(), t)); V.op.push_back(ops::getf<float>(("float " + t).c_str(), t)); V.op.push_back(ops::getf<long double>(("long double " + t).c_str(), t)); } v->push_back(V);
    V = {"big", {}, {}}; for (int a : {0, 1, 13, 14, 27, 28, 60, 68}) for (int s : {0, 1, 63, 64, 65, 700}) V.op.push_back(ops::bigop(("5^" + std::to_string(a) + "<<" + std::to_string(s)).c_str(), [a, s](lexi::detail::BigInteger &b) { b.mulPow5(unsigned(a)); b <<= size_t(s); b += 3; })); for (std::string t : {"0", "7", "18446744073709551615", "18446744073709551616", "99999999999999999999999999999999999999999", "1x", ""}) V.op.push_back(ops::mk(("decimal " + t).c_str(), [t] { lexi::detail::BigInteger b(t.data(), t.size()); return ops::bigtext(b); })); if (V.op.back().name == "decimal ") V.op.pop_back(); v->push_back(V);
    return v;
}
struct Buf {
    std::string s; char a[64]; int i; long long l; double d; float f; bool b; char c;
    Buf() { s.reserve(64); }
    void set(const std::string &t) { s.assign(t); memset(a, 0, sizeof a); memcpy(a, t.data(), t.size()); d = 0; for (unsigned char x : t) d = d * 7.25 + x; f = float(d); i = int(t.empty() ? 0 : (unsigned char)t[0] * 1001 - (unsigned char)t.back() * 77); l = (long long)i * 1000003 * (long long)(1 + t.size()); b = t.size() % 2; c = t.empty() ? '.' : t.back(); }
};
const int BUFOPS = 24;
inline std::string buffer_op1(Buf &B, int o) {
    auto four = [](const std::string &a, const std::string &b, const std::string &c, const std::string &d) { return a + "|" + b + "|" + c + "|" + d; };
    switch (o) {
        case 0: return lexi::string(B.s);
        case 1: return lexi::escape(B.s);
        case 2: return lexi::jsonify(B.s);
        case 3: return lexi::lexi(B.s);
        case 4: return four(lexi::detail::escape(B.s), lexi::detail::jsonify(B.s), lexi::detail::escape(B.a), lexi::detail::jsonify(B.a));
        case 5: { lexi::ExtractInt y(B.s); return ops::num((long long)(long long)(y)) + "|" + ops::num((unsigned long long)(unsigned long long)(y)); }
        case 6: return ops::hexl(lexi::lexi<float>(static_cast<const char *>(B.a))) + "|" + ops::num((long long)lexi::lexi<short>(static_cast<const char *>(B.a)));
        case 7: return ops::num((long long)lexi::lexi<int>(B.s));
        case 8: return ops::num((long long)lexi::lexi<int>(static_cast<const char *>(B.a)));
        case 9: return ops::num((unsigned long long)lexi::lexi<unsigned long long>(B.s));
        case 10: return ops::num((long long)lexi::lexi<signed char>(B.s));
        case 11: return ops::hexl(lexi::lexi<double>(B.s));
        case 12: return ops::hexl(lexi::lexi<double>(static_cast<const char *>(B.a)));
        case 13: return ops::hexl(lexi::lexi<float>(B.s));
        case 14: return ops::hexl(lexi::lexi<long double>(B.s));
        case 15: { lexi::ExtractFloat x(B.s); lexi::ExtractInt y(B.s); return ops::hexl(double(x)) + "|" + ops::num((long long)int(y)); }
        case 16: return lexi::lexi<bool>(B.s) ? "T" : "F";
        case 17: return std::string(1, lexi::lexi<char>(B.s));
        case 18: return lexi::lexi<std::string>(B.s);
        case 19: return four(lexi::lexi(B.i), lexi::string(B.i), lexi::escape(B.i), lexi::jsonify(B.i));
        case 20: return four(lexi::lexi(B.l), lexi::string(B.l), lexi::escape(B.l), lexi::jsonify(B.l));
        case 21: return four(lexi::lexi(B.d), lexi::string(B.d), lexi::escape(B.d), lexi::jsonify(B.d));
        case 22: return four(lexi::lexi(B.f), lexi::string(B.f), lexi::escape(B.f), lexi::jsonify(B.f));
        default: return four(lexi::lexi(B.b), lexi::string(B.c), lexi::escape(B.c), lexi::jsonify(B.c));
    }
}
inline std::string buffer_op(Buf &B, int o) { return ops::guarded([&] { return buffer_op1(B, o); }); }
inline std::vector<std::string> *buffer_texts() {
    auto *v = new std::vector<std::string>{"", "0", "1", "a", "\"", "\n", "00", "01", "10", "-1", "12", "21", "1e", "ab", "ba", "a\"", "\\n", "1.5", "1.6", "2.5", "-15", "1e2", "1e3", "nan", "inf", "abc", "abd", "0.1", "0.2", "255", "256", "127", "128",
        "true", "null", "1234", "1235", "false", "99999", "-9999", "123456.5", "123456.6", "223456.5", "4294967295", "4294967296", "2147483647", "1234567.125e-3", "1234567.126e-3", "2234567.125e-3", "18446744073709551615", "18446744073709551616", "18446744073709551614", "28446744073709551615", "0.30000000000000004e+100", "0.30000000000000004e-100", "0.30000000000000005e+100"};
    for (size_t n : {15, 16, 24, 33, 50}) for (char f : {'x', '7', '\t'}) { std::string t(n, f); v->push_back(t); t[0] = 'y'; v->push_back(t); t = std::string(n, f); t[n - 1] = '3'; v->push_back(t); t = std::string(n, f); t[n / 2] = '/'; v->push_back(t); }
    return v;
}
void setup(mc::Run &r) {
    A = new std::vector<ops::Op>(ops::alphabet()); FRESH = new std::vector<std::string>();
    for (size_t i = 0; i < A->size(); i++) { bool ok; FRESH->push_back(in_child([i] { return exec(i, nullptr, 0, 0); }, ok)); if (!ok) { fprintf(stderr, "%s ends the process\n", (*A)[i].name.c_str()); abort(); } }
    uint64_t n = A->size();
    if (!r.san()) r.each("first", "every operation as the first of a fresh process, with and without its objects kept, under 4 errno values x 4 stack x 3 heap patterns", n * 48 * 2, [n](Ctx &c, uint64_t i) {
        size_t op = i % n; unsigned v = unsigned(i / n % 48); bool hold = i / n / 48; bool ok;
        std::string s = in_child([=] { mallopt(M_PERTURB, v / 16 == 0 ? 0 : v / 16 == 1 ? 0x5a : 0xff); ops::Hold h; return exec(op, hold ? &h : nullptr, ERR[v % 4], PAT[v / 4 % 4]); }, ok); c.calls(1); c.outcome(s);
        c.note("%s -> %s", (*A)[op].name.c_str(), show(s).c_str());
        if (!ok || s != (*FRESH)[op]) c.fail("%s with errno %d, stack pattern %02x: %s, otherwise %s", (*A)[op].name.c_str(), ERR[v % 4], PAT[v / 4 % 4], show(s).c_str(), show((*FRESH)[op]).c_str());
    });
    if (!r.san()) r.each("pairs-fresh", "every ordered pair of operations as the first two of a fresh process", n * n, [n](Ctx &c, uint64_t i) {
        size_t a = i / n, b = i % n; bool ok;
        std::string s = in_child([=] { ops::Hold h; std::string x = exec(a, &h, 0, 0xff), y = exec(b, &h, ERANGE, 0); std::string o = x; o += '\1'; o += y; for (auto &f : h.still) if (!f()) o += "\1CHANGED"; return o; }, ok); c.calls(2);
        std::string w = (*FRESH)[a]; w += '\1'; w += (*FRESH)[b]; c.outcome(s); c.note("%s, %s", (*A)[a].name.c_str(), (*A)[b].name.c_str());
        if (!ok || s != w) c.fail("[%s, %s] in a fresh process gives %s, each alone %s", (*A)[a].name.c_str(), (*A)[b].name.c_str(), show(s).c_str(), show(w).c_str());
    });
    r.each("pairs", "every ordered pair under 4 errno values x 4 stack patterns x 3 heap patterns, results kept and re-examined", n * n * 48, [n](Ctx &c, uint64_t i) { sequence(c, {size_t(i / 48 / n), size_t(i / 48 % n)}, unsigned(i % 48), true); });
    if (!r.san()) r.each("triples", "every sequence of 3 operations, results kept and re-examined", n * n * n, [n](Ctx &c, uint64_t i) { sequence(c, {size_t(i / n / n), size_t(i / n % n), size_t(i % n)}, unsigned(i % 47), true); });
    if (r.thorough()) r.each("quadruples", "every sequence of 4 operations", n * n * n * n, [n](Ctx &c, uint64_t i) { sequence(c, {size_t(i / n / n / n), size_t(i / n / n % n), size_t(i / n % n), size_t(i % n)}, unsigned(i % 47), true); });
    static std::vector<Values> *VA; VA = value_alphabets(r.thorough());
    for (size_t k = 0; k < VA->size(); k++) {
        Values &V = (*VA)[k]; bool ok = true;
        for (auto &o : V.op) V.fresh.push_back(in_child([&o] { scrub(0); return o.run(nullptr); }, ok));
        uint64_t m = V.op.size(); if (r.san()) continue;
        r.each("values-" + V.name, "every ordered pair (a, b) of " + std::to_string(m) + " easily confused values: a, b, a, results kept", m * m, [k, m](Ctx &c, uint64_t i) {
            Values &V = (*VA)[k]; size_t s[4] = {size_t(i / m), size_t(i % m), size_t(i / m), size_t(i / m)}; ops::Hold h;
            for (int q = 0; q < 4; q++) {
                scrub(PAT[(i + q) % 4]); errno = ERR[i % 4]; std::string t = V.op[s[q]].run(q == 3 ? nullptr : &h); c.calls(1);
                if (t != V.fresh[s[q]]) c.fail("%s in the sequence [%s, %s, ...]: %s, in a fresh process %s", V.op[s[q]].name.c_str(), V.op[s[0]].name.c_str(), V.op[s[1]].name.c_str(), show(t).c_str(), show(V.fresh[s[q]]).c_str());
                for (auto &f : h.still) if (!f()) c.fail("a result returned earlier changed after [%s, %s]", V.op[s[0]].name.c_str(), V.op[s[1]].name.c_str());
            }
            c.outcome(V.fresh[s[0]] + "\1" + V.fresh[s[1]]); c.note("%s then %s", V.op[s[0]].name.c_str(), V.op[s[1]].name.c_str());
        });
    }
    // one object at one address whose contents change between calls: nothing may be remembered by address and size
    static const std::vector<std::string> *BT; static std::vector<std::vector<std::string>> *BF; BT = buffer_texts(); BF = new std::vector<std::vector<std::string>>();
    for (auto &t : *BT) { std::vector<std::string> f; bool ok = true; for (int o = 0; o < BUFOPS; o++) f.push_back(in_child([&] { Buf b; b.set(t); return buffer_op(b, o); }, ok)); if (!ok) abort(); BF->push_back(f); }
    uint64_t bt = BT->size(); if (!r.san()) r.each("same-address", "every ordered pair (a, b) of " + std::to_string(bt) + " texts written in turn (a, b, a) into one string object and one array, under each of " + std::to_string(BUFOPS) + " conversions of it", bt * bt * BUFOPS, [bt](Ctx &c, uint64_t i) {
        static Buf B; int o = int(i % BUFOPS); size_t s[3] = {size_t(i / BUFOPS / bt), size_t(i / BUFOPS % bt), size_t(i / BUFOPS / bt)};
        for (int q = 0; q < 3; q++) {
            B.set((*BT)[s[q]]); std::string t = buffer_op(B, o); c.calls(1);
            if (t != (*BF)[s[q]][size_t(o)]) c.fail("one buffer holding %s then %s, conversion %d: step %d gives %s, in a fresh process %s", show((*BT)[s[0]]).c_str(), show((*BT)[s[1]]).c_str(), o, q, show(t).c_str(), show((*BF)[s[q]][size_t(o)]).c_str());
        }
        c.outcome((*BF)[s[0]][size_t(o)] + "\1" + (*BF)[s[1]][size_t(o)]); c.note("%s then %s, conversion %d", show((*BT)[s[0]]).c_str(), show((*BT)[s[1]]).c_str(), o);
    });
    // texts that differ in one place (as any shortened, folded or hashed key might overlook)
    static std::vector<std::pair<size_t, std::pair<size_t, int>>> *ED; ED = new std::vector<std::pair<size_t, std::pair<size_t, int>>>(); static std::vector<std::string> *BASE = new std::vector<std::string>{"aB \"z", "-12345", "12345678901234567890", "12.5e-3", "0.12345678901234567890123456789", " +42 ", "true", "null", "Infinity", "AaBbCc", "1E5"};
    for (size_t n : {17, 40, 70, 135, 300}) { std::string t; for (size_t k = 0; k < n; k++) t += "The lazy\n\"Dog\"\\ 0123"[k % 20]; BASE->push_back(t); }
    for (size_t b = 0; b < BASE->size(); b++) for (size_t q = 0; q <= (*BASE)[b].size(); q++) for (int e = 0; e < 17; e++) ED->push_back({b, {q, e}});
    if (!r.san()) r.each("one-edit", "every text of " + std::to_string(BASE->size()) + " and the same text with one of 17 edits at every place (other letter case, next or previous character, inserted sign, zero or space, deleted, swapped, equal sum, equal polynomial hash): all conversions of the second, after the first and alone, in fresh processes", ED->size(), [](Ctx &c, uint64_t i) {
        const std::string &a = (*BASE)[(*ED)[i].first]; size_t q = (*ED)[i].second.first; int e = (*ED)[i].second.second; std::string b = a;
        static const char INS[] = "+-0 x"; if (e < 5) b.insert(q, 1, INS[e]); else if (q == a.size()) return;
        else if (e < 11) { static const int X[6] = {0x20, 0x80, 1, 3, 0x10, 0x40}; b[q] = char(b[q] ^ X[e - 5]); } else if (e == 11) b.erase(q, 1); else if (e == 12) b.insert(q, 1, b[q]); else if (q + 1 == a.size()) return;
        else { static const int Y[4] = {1, 31, 33, 0}; if (e == 16) std::swap(b[q], b[q + 1]); else { b[q] = char(b[q] + 1); b[q + 1] = char(b[q + 1] - Y[e - 13]); } }
        if (a == b) return;
        auto all = [](const std::string &t, int from, int to) { std::string o; for (int k = from; k < to; k++) { o += ops::guarded([&] { return k == 0 ? lexi::escape(t) : k == 1 ? lexi::jsonify(t) : k == 2 ? lexi::string(t) : k == 3 ? ops::num((long long)lexi::lexi<int>(t)) : k == 4 ? ops::num((unsigned long long)lexi::lexi<unsigned long long>(t)) : k == 5 ? ops::hexl(lexi::lexi<double>(t)) : k == 6 ? ops::hexl(lexi::lexi<float>(t)) : k == 7 ? ops::hexl(lexi::lexi<long double>(t)) : k == 8 ? std::string(lexi::lexi<bool>(t) ? "T" : "F") : k == 9 ? std::string(1, lexi::lexi<char>(t)) : lexi::escape(t.c_str()) + lexi::jsonify(t.c_str()); }); o += '\1'; } return o; };
        bool k1, k2; std::string alone = in_child([&] { return all(b, 0, 11); }, k1), after = in_child([&] { all(a, 0, 11); std::string o; for (int k = 0; k < 11; k++) { all(a, k, k + 1); o += all(b, k, k + 1); } return o; }, k2);
        c.calls(22); c.outcome(alone); c.note("%s after %s", show(b).c_str(), show(a).c_str());
        if (!k1 || !k2 || alone != after) c.fail("conversions of %s after those of %s: %s, alone %s", show(b).c_str(), show(a).c_str(), show(after).c_str(), show(alone).c_str());
    });
    const size_t P = r.thorough() ? 600 : 70;
    r.each("pump", "every ordered pair (a, b): a repeated " + std::to_string(P) + " times with its results kept, then b, then a", r.san() ? n : n * n, [n, P](Ctx &c, uint64_t i) { std::vector<size_t> s(P, i / n); s.push_back(i % n); s.push_back(i / n); mallopt(M_PERTURB, 0); sequence(c, s, unsigned(i % 47), false); std::vector<size_t> t(12, i / n); t.push_back(i % n); sequence(c, t, unsigned(i % 47), true); });
    r.each("long", "every operation repeated 70000 times (beyond 16-bit counters), interleaved every 1000 with the next one", r.san() ? 0 : n, [n](Ctx &c, uint64_t i) { std::vector<size_t> s; for (int k = 0; k < 70000; k++) s.push_back(k % 1000 == 999 ? (i + size_t(k / 1000)) % n : i); if ((*A)[i].name == "big overflow") s.resize(3000); sequence(c, s, unsigned(i % 47), false); }, 1);
    // different values in a cycle: whatever the library might remember, and however many entries, every result is still that of its argument
    r.each("distinct", "1..160 and 2^k + {-1, 0, 1}, k = 8..17, different values of 16 kinds of conversion in a cycle, forwards twice, backwards and in strides", r.san() ? 60 : 160 + 30, [](Ctx &c, uint64_t i) {
        size_t P = i < 160 ? i + 1 : (size_t(1) << (8 + (i - 160) / 3)) + (i - 160) % 3 - 1;
        auto one = [&](size_t k) {
            std::string d = std::to_string(k); struct T { std::string got, want; const char *what; }; enum class Z : long { A };
            std::string pad(k * 37 % 67, 'x'), t = d + pad; long long big = (long long)k * 1000000007LL;
            const T v[] = {{lexi::lexi(int(k)), d, "int"}, {lexi::FormatInt(-(long long)k - 1).string(), "-" + std::to_string(k + 1), "negative long long"}, {lexi::string((unsigned long)big), std::to_string(big), "unsigned long"}, {lexi::lexi(double(k) + 0.5), d + ".5", "double"}, {lexi::FormatFloat(-float(k % 65536) - 0.25f).string(), "-" + std::to_string(k % 65536) + ".25", "float"}, {lexi::lexi((long double)k), d + ".0", "long double"},
                {lexi::escape(t + ":"), t + "\\:", "escape"}, {lexi::jsonify(t + "\""), "\"" + t + "\\\"\"", "jsonify"}, {lexi::string(t), t, "text"}, {std::to_string(lexi::lexi<int>(t)), d, "extract int"}, {std::to_string(lexi::lexi<unsigned long long>(std::to_string(big))), std::to_string(big), "extract unsigned long long"}, {std::to_string((long long)(lexi::lexi<double>(d + ".5") * 2)), std::to_string(2 * k + 1), "extract double"}, {std::to_string((long)(lexi::lexi<float>(std::to_string(k % 65536) + ".25") * 4)), std::to_string(4 * (k % 65536) + 1), "extract float"},
                {lexi::lexi(Z(k)), d, "enum"}, {std::to_string((long)lexi::lexi<Z>(d)), d, "extract enum"}, {std::string(1, lexi::lexi<char>(t)), d.substr(0, 1), "extract char"}};
            for (auto &x : v) { c.calls(1); if (x.got != x.want) c.fail("%s of value number %zu in a cycle of %zu different ones: %s, want %s", x.what, k, P, show(x.got).c_str(), show(x.want).c_str()); }
        };
        size_t s = P / 2 + 1; for (auto g = s; ; g++) { size_t a = g, b = P; while (b) { size_t q = a % b; a = b; b = q; } if (a == 1) { s = g; break; } }
        for (int q = 0; q < 2; q++) for (size_t k = 0; k < P; k++) one(k);
        if (i < 160 + 18) { for (size_t k = P; k--; ) one(k); for (size_t k = 0, x = 0; k < P; k++, x = (x + s) % P) { one(x); one(0); } }
        c.outcome(P); c.note("%zu different values", P);
    }, 1);
    r.each("cycle", "the whole alphabet cyclically from every starting point with every stride", r.san() ? n : n * n, [n](Ctx &c, uint64_t i) { std::vector<size_t> s; size_t x = i % n, d = i / n; for (size_t k = 0; k < n; k++) { s.push_back(x); x = (x + d) % n; } sequence(c, s, unsigned(i % 47), true); });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c13::setup)
#endif
