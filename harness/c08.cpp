// C08: escaping is exact for every byte string.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <lexi/lexi.hpp>

namespace c08 {
using mc::Ctx; using mc::show;
enum class En : long long {};
inline void check(Ctx &c, const std::string &s, bool cstr) {
    std::string e = lexi::escape(s);
    c.calls(1); c.outcome(e);
    c.note("escape(%s) = %s", show(s).c_str(), show(e).c_str());
    if (!ref::escaped(s, e)) c.fail("escape(%s) = %s", show(s).c_str(), show(e).c_str());
    if (strlen(e.c_str()) > e.size()) c.fail("escape(%s): result is not terminated", show(s).c_str());
    // removing the backslashes recovers the text
    std::string u; for (size_t i = 0; i < e.size(); i++) { if (e[i] == '\\' && i + 1 < e.size()) i++; u += e[i]; }
    if (u != s) c.fail("escape(%s) = %s does not unescape to the text", show(s).c_str(), show(e).c_str());
    if (cstr) { const char *p = s.c_str(); std::string f = lexi::escape(p), g = lexi::escape(const_cast<char *>(p)); c.calls(2); std::string w = lexi::escape(std::string(p)); if (f != w || g != w) c.fail("escape((const char *)%s) = %s / %s, as std::string %s", show(p).c_str(), show(f).c_str(), show(g).c_str(), show(w).c_str()); }
}
void setup(mc::Run &r) {
    std::string all = sp::all_bytes();
    auto s3 = std::make_shared<sp::Strings>(all, r.san() ? 1 : 3);
    r.range("bytes", "all byte strings of length <= 3", s3->count(), [s3](Ctx &c, uint64_t lo, uint64_t hi) { std::string s; for (uint64_t i = lo; i < hi; i++) { c.at(i); s3->at(i, s); check(c, s, i < 70000); } });
    auto sa = std::make_shared<sp::Strings>(std::string("a0Z\\\" \x7f\x80\xff\0\n~", 12), r.thorough() ? 7 : r.san() ? 3 : 6);
    r.each("special", "all strings over {a 0 Z \\ \" space DEL 0x80 0xff NUL LF ~} up to the length", sa->count(), [sa](Ctx &c, uint64_t i) { check(c, sa->at(i), true); });
    r.each("chars", "all 256 characters through FormatChar, char and char arrays", 256, [](Ctx &c, uint64_t i) {
        char ch = char(i); std::string t(1, ch), w = lexi::escape(t), a = lexi::FormatChar(ch).escape(), b = lexi::escape(ch), d = lexi::FormatChar((unsigned char)i).escape();
        c.calls(4); c.outcome(w); c.note("char %d -> %s", int(i), show(a).c_str());
        if (!ref::escaped(t, a) || a != b || a != d || a != w) c.fail("char %d escapes to %s / %s / %s / %s", int(i), show(a).c_str(), show(b).c_str(), show(d).c_str(), show(w).c_str());
        char arr[3] = {ch, 'x', 0}; std::string g = lexi::escape(arr), h = lexi::escape(std::string(arr));
        if (g != h) c.fail("char array %s escapes to %s, as string %s", show(std::string(arr)).c_str(), show(g).c_str(), show(h).c_str());
    });
    uint64_t L = r.thorough() ? 20000 : r.san() ? 300 : 2500;
    r.each("lengths", "every length up to the bound x {plain, all special, alternating, high bytes, NULs} and each special at the ends and the middle", L * 9, [](Ctx &c, uint64_t i) {
        int k = int(i % 9); size_t n = size_t(i / 9);
        std::string s(n, k == 0 ? 'a' : k == 1 ? '\\' : k == 2 ? '\0' : k == 3 ? '\xe9' : 'b');
        if (k == 4) for (size_t j = 0; j < n; j += 2) s[j] = '"';
        if (k == 5 && n) s[0] = '.'; if (k == 6 && n) s[n - 1] = '/'; if (k == 7 && n) s[n / 2] = ' ';
        if (k == 8) for (size_t j = 0; j < n; j++) s[j] = char(j);
        check(c, s, false);
    });
    r.each("pairs-at", "every byte pair at each of 34 offsets of a 48-byte text over backgrounds a, quote, 0xff, NUL, DEL", r.san() ? 34ull * 5 * 64 : 34ull * 5 * 65536, [](Ctx &c, uint64_t i) {
        std::string s(48, "a\"\xff\0\x7f"[i % 5]); i /= 5; size_t o = i % 34; i /= 34; s[o] = char(i); s[o + 1] = char(i >> 8); check(c, s, false);
    });
    r.each("two-at", "every pair of 12 special bytes at every two positions of a 40-byte text over backgrounds a and 0x80", 2ull * 144 * 1600 / (r.san() ? 60 : 1), [](Ctx &c, uint64_t i) {
        static const char S[] = "\\\"\n\0\x1f\x7f\x80\xff a/~"; std::string s(40, i & 1 ? '\x80' : 'a'); i >>= 1; size_t p = i % 40, q = i / 40 % 40; i /= 1600; s[p] = S[i % 12]; s[q] = S[i / 12]; check(c, s, false);
    });
    r.each("one-at", "one of 4 bytes at every position of texts of 300, 5000 and 66000 bytes", r.san() ? 1200 : 4ull * (300 + 5000 + 66000 / 16), [](Ctx &c, uint64_t i) {
        char b = "\\\"\x01\xc3"[i % 4]; i /= 4; size_t n = i < 300 ? 300 : i < 5300 ? 5000 : 66000; size_t p = i < 300 ? i : i < 5300 ? i - 300 : (i - 5300) * 16 + (i % 2) * 15; std::string s(n, 'k'); s[p] = b; check(c, s, false);
    });
    const bool san = r.san();
    r.each("code-points", "the UTF-8 form of every 21-bit code point (surrogates and beyond U+10FFFF included), alone, cut short by one byte, and between two quotes", (1ull << 21) / (r.san() ? 997 : 1), [san](Ctx &c, uint64_t i) {
        uint32_t u = uint32_t(san ? i * 997 : i); std::string s;
        if (u < 0x80) s = char(u); else if (u < 0x800) s = {char(0xc0 | u >> 6), char(0x80 | (u & 63))}; else if (u < 0x10000) s = {char(0xe0 | u >> 12), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
        else s = {char(0xf0 | u >> 18), char(0x80 | (u >> 12 & 63)), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
        check(c, s, false); check(c, "\"" + s + "\"", false); s.pop_back(); check(c, s, false);
    });
    r.each("large", "lengths 2^k + {-2..2}, k <= 20, x {plain, special everywhere, special at the ends}", 21ull * 5 * 3 / (r.san() ? 2 : 1), [](Ctx &c, uint64_t i) {
        int k = int(i % 3); i /= 3; int d = int(i % 5) - 2; i /= 5; int64_t n = (int64_t(1) << i) + d; if (n < 0) return;
        std::string s(size_t(n), k == 1 ? '\"' : 'q'); if (k == 2 && n) { s[0] = '\\'; s[size_t(n) - 1] = '\x01'; }
        check(c, s, false);
    });
    if (!r.san()) r.each("giant", "a text of 2^31 + 5 (thorough: also 2^32 + 5) bytes, special at both ends and around 2^31, if memory allows", r.thorough() ? 2 : 1, [](Ctx &c, uint64_t i) {
        const uint64_t n = (uint64_t(1) << (31 + i)) + 5; sp::Giant g(n * 6); if (!g.ok) { c.note("not enough memory"); return; }
        try {
            std::string s(n, 'q'); for (uint64_t p : {uint64_t(0), uint64_t(1) << 31, (uint64_t(1) << 31) - 1, n - 1}) s[p] = '"';
            std::string e = lexi::escape(s); c.calls(1); c.outcome(e.size()); c.note("escape of %llu bytes gives %llu", (unsigned long long)n, (unsigned long long)e.size());
            uint64_t k = 0; for (uint64_t p = 0; p < n; p++) { if (s[p] == '"' && (k >= e.size() || e[k++] != '\\')) c.fail("escape of a text of %llu bytes: no backslash in front of byte %llu", (unsigned long long)n, (unsigned long long)p); if (k >= e.size() || e[k++] != s[p]) c.fail("escape of a text of %llu bytes goes wrong at byte %llu (%llu bytes returned)", (unsigned long long)n, (unsigned long long)p, (unsigned long long)e.size()); }
            if (k != e.size()) c.fail("escape of a text of %llu bytes returns %llu", (unsigned long long)n, (unsigned long long)e.size());
        } catch (const std::bad_alloc &) { c.note("not enough memory"); }
    }, 1);
    // numbers, booleans, null, enums: escape() is the plain text
    auto near = std::make_shared<sp::NearInts>(r.san() ? 2 : 30);
    r.each("scalars", "escape of integers, floats, enums, bools, null equals the plain text", near->count(), [near](Ctx &c, uint64_t i) {
        uint64_t v = near->at(i); double d = sp::from_bits(v); c.calls(10);
        c.note("escape(%llu)", (unsigned long long)v);
        if (lexi::escape((unsigned long long)v) != ref::udec(v) || lexi::escape((long long)v) != ref::sdec((long long)v) || lexi::escape(int(v)) != ref::sdec(int(v)) || lexi::escape(En((long long)v)) != ref::sdec((long long)v)
            || lexi::FormatInt((long long)v).escape() != ref::sdec((long long)v) || lexi::escape(short(v)) != ref::sdec(short(v))
            || lexi::escape(d) != lexi::lexi(d) || lexi::escape(float(d)) != lexi::lexi(float(d)) || lexi::escape((long double)d) != lexi::lexi((long double)d) || lexi::FormatFloat(d).escape() != lexi::lexi(d)
            || lexi::escape(true) != "true" || lexi::escape(false) != "false" || lexi::escape(nullptr) != "null")
            c.fail("escape of a scalar is not its plain text (integer %llu, double %a)", (unsigned long long)v, d);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c08::setup)
#endif
