// C25: integer extraction reads the longest decimal prefix exactly.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <lexi/lexi.hpp>

namespace c25 {
using mc::Ctx; using mc::show;
struct Num { bool any, neg, huge; unsigned __int128 mag; };
inline Num recognise(const std::string &s) {
    Num r{false, false, false, 0}; size_t i = 0, n = s.size();
    while (i < n && ref::is_ws((unsigned char)s[i])) i++;
    if (i < n && (s[i] == '+' || s[i] == '-')) r.neg = s[i++] == '-';
    while (i < n && s[i] >= '0' && s[i] <= '9') { r.any = true; if (r.mag >> 100) r.huge = true; else r.mag = r.mag * 10 + unsigned(s[i] - '0'); i++; }
    return r;
}
template <class T> void one(Ctx &c, const std::string &s, const Num &n, const lexi::ExtractInt &x, const char *tn) {
    T want = 0;
    if (n.any) {
        if (n.huge) return;
        unsigned __int128 lim = n.neg ? (std::is_signed<T>::value ? (unsigned __int128)(std::numeric_limits<T>::max()) + 1 : 0) : (unsigned __int128)(std::numeric_limits<T>::max());
        if (n.mag > lim) return;                       // not representable: not claimed
        want = n.neg ? T(0 - (unsigned long long)n.mag) : T(n.mag);
    }
    T a = lexi::lexi<T>(s), b = T(x);
    c.calls(2);
    if (a != want || b != want) c.fail("lexi<%s>(%s) = %lld (ExtractInt %lld), want %lld", tn, show(s).c_str(), (long long)a, (long long)b, (long long)want);
    if (s.find('\0') == std::string::npos) { T d = lexi::lexi<T>(s.c_str()); c.calls(1); if (d != want) c.fail("lexi<%s>((const char *)%s) = %lld, want %lld", tn, show(s).c_str(), (long long)d, (long long)want); }
    c.outcome(uint64_t((unsigned long long)a) * 11 + sizeof(T));
}
inline void text(Ctx &c, const std::string &s) {
    Num n = recognise(s); lexi::ExtractInt x(s);
    c.note("%s -> %s%llu", show(s).c_str(), n.neg ? "-" : "", (unsigned long long)n.mag);
    one<long long>(c, s, n, x, "long long"); one<unsigned long long>(c, s, n, x, "unsigned long long"); one<long>(c, s, n, x, "long"); one<unsigned long>(c, s, n, x, "unsigned long");
    one<int>(c, s, n, x, "int"); one<unsigned>(c, s, n, x, "unsigned"); one<short>(c, s, n, x, "short"); one<unsigned short>(c, s, n, x, "unsigned short");
    one<signed char>(c, s, n, x, "signed char"); one<unsigned char>(c, s, n, x, "unsigned char");
}
void setup(mc::Run &r) {
    auto st = std::make_shared<sp::Strings>(std::string("0189+- \t.z\0", 11), r.thorough() ? 7 : r.san() ? 4 : 6);
    r.each("short-texts", "all texts up to the length over {0 1 8 9 + - space tab . z NUL}", st->count(), [st](Ctx &c, uint64_t i) { text(c, st->at(i)); });
    auto s2 = std::make_shared<sp::Strings>(std::string("07xXeEbaF_-,"), r.thorough() ? 6 : r.san() ? 3 : 5);
    r.each("radix-texts", "all texts up to the length over {0 7 x X e E b a F _ - ,}: no other radix or separator is understood", s2->count(), [s2](Ctx &c, uint64_t i) { text(c, s2->at(i)); });
    r.each("byte-pairs", "every byte pair before, inside and after a number", 65536ull * 3, [](Ctx &c, uint64_t i) { std::string ab{char(i >> 8 & 255), char(i & 255)}; uint64_t k = i >> 16; text(c, k == 0 ? ab + "125" : k == 1 ? "12" + ab + "5" : "-125" + ab); });
    r.each("int16", "all 16-bit magnitudes, signs and spellings", 65537ull, [](Ctx &c, uint64_t i) {
        std::string d = ref::udec(i);
        for (const std::string &s : {d, "-" + d, "+" + d, " \n\v\f\r\t" + d + " 9", "\t-0000000000000000000000000" + d + ".75", "+00" + d + "e5", "- " + d, "--" + d, "+-" + d}) text(c, s);
    });
    auto near = std::make_shared<sp::NearInts>(r.san() ? 3 : r.thorough() ? 5000 : 200);
    r.each("near", "all texts of integers around every power of 2 and 10 and every limit, 4 spellings", near->count(), [near](Ctx &c, uint64_t i) {
        uint64_t v = near->at(i); std::string u = ref::udec(v), s = ref::sdec((long long)v);
        text(c, u); text(c, s); text(c, " +000" + u + "x"); text(c, s[0] == '-' ? "\n-00000000000000000000" + s.substr(1) + "-" : " " + s + "+1");
    });
    uint64_t gs = r.thorough() ? 1 : r.san() ? 1009 : 5;
    r.each("groups", "64-bit numbers in which every pair of two-digit groups takes every value over 4 backgrounds, in steps of " + std::to_string(gs) + ", both signs", sp::GroupInts().count() / gs, [gs](Ctx &c, uint64_t i) { uint64_t v; if (!sp::GroupInts().at(i * gs, v)) return; text(c, ref::udec(v)); text(c, "-" + ref::udec(v >> 1) + "7x"); });
    r.each("byte-at", "every byte at every position of numbers of 1..24 characters, with and without a sign or whitespace in front", 24ull * 24 * 256, [](Ctx &c, uint64_t i) {
        size_t n = 1 + i / (24 * 256), p = i / 256 % 24; if (p >= n) return;
        static const char *D[2] = {"192837465019283746501928", "000000009876543210987654"};
        for (int k = 0; k < 2; k++) { std::string d(D[k], n); d[p] = char(i & 255); text(c, d); text(c, "-" + d); text(c, " +" + d); }
    }, r.san() ? 4096 : 0);
    r.each("large", "zero and whitespace runs of 2^k + {-1, 0, 1} up to 2^17", r.san() ? 20 : 18 * 3, [](Ctx &c, uint64_t i) {
        size_t n = (size_t(1) << (i / 3)) + i % 3 - 1; std::string z(n, '0'), w(n, '\t');
        for (const std::string &s : {z + "42", "-" + z + "9223372036854775808", w + "-42", w + z + "18446744073709551615" + z.substr(0, 0) + "." + z, z + "x", w, "7" + w + "5", "65" + std::string(n, 'x')}) text(c, s);
    });
    r.each("long", "zero runs and whitespace runs of every length up to 1500", r.san() ? 100 : 1500, [](Ctx &c, uint64_t n) {
        std::string z(n, '0'), w(n, ' ');
        for (const std::string &s : {z + "18446744073709551615", "-" + z + "9223372036854775808", w + "42", w + "-" + z, z, z + "x1", w, w + "+", w + z + "127" + w + "9", w + "-" + z + "128" + z.substr(0, 0) + "z"}) text(c, s);
    });
    if (!r.san()) r.each("giant", "2^31 + 5 zeros or blanks (thorough: also 2^32 + 5) before a number, and characters after it, if memory allows", r.thorough() ? 2 : 1, [](Ctx &c, uint64_t i) {
        const uint64_t n = (uint64_t(1) << (31 + i)) + 5; sp::Giant g(n * 3); if (!g.ok) { c.note("not enough memory"); return; }
        try {
            std::string s; s.reserve(n + 64);
            for (char f : {'0', '\n'}) { s.assign(n, f); s += "18446744073709551610x"; unsigned long long v = lexi::lexi<unsigned long long>(s); c.calls(1); c.outcome(v); c.note("%llu bytes -> %llu", (unsigned long long)s.size(), v); if (v != 18446744073709551610ull) c.fail("%llu times %s before a number: %llu", (unsigned long long)n, f == '0' ? "0" : "a line feed", v); }
            s.assign(n, 'x'); s[0] = '-'; s[1] = '4'; s[2] = '2'; int v = lexi::lexi<int>(s); c.calls(1); if (v != -42) c.fail("-42 followed by %llu characters gives %d", (unsigned long long)n, v);
        } catch (const std::bad_alloc &) { c.note("not enough memory"); }
    }, 1);
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c25::setup)
#endif
