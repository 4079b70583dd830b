// C09: JSON output.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <lexi/lexi.hpp>

namespace c09 {
using mc::Ctx; using mc::show;
enum class En : long long {}; enum class Eb : unsigned char {};
inline void check(Ctx &c, const std::string &s, bool cstr) {
    std::string j = lexi::jsonify(s), back;
    c.calls(1); c.outcome(j);
    c.note("jsonify(%s) = %s", show(s).c_str(), show(j).c_str());
    if (!ref::json_decode(j, back)) c.fail("jsonify(%s) = %s is not a JSON string literal", show(s).c_str(), show(j).c_str());
    if (back != s) c.fail("jsonify(%s) = %s decodes to %s", show(s).c_str(), show(j).c_str(), show(back).c_str());
    if (cstr) { const char *p = s.c_str(); std::string f = lexi::jsonify(p), g = lexi::jsonify(const_cast<char *>(p)), w = lexi::jsonify(std::string(p)); c.calls(2); if (f != w || g != w) c.fail("jsonify((const char *)%s) = %s / %s, as std::string %s", show(p).c_str(), show(f).c_str(), show(g).c_str(), show(w).c_str()); }
}
void setup(mc::Run &r) {
    auto s3 = std::make_shared<sp::Strings>(sp::all_bytes(), r.san() ? 1 : 3);
    r.range("bytes", "all byte strings of length <= 3", s3->count(), [s3](Ctx &c, uint64_t lo, uint64_t hi) { std::string s; for (uint64_t i = lo; i < hi; i++) { c.at(i); s3->at(i, s); check(c, s, i < 70000); } });
    auto sa = std::make_shared<sp::Strings>(std::string("au\\\"/\x7f\x80\xff\0\n\x1f\b", 12), r.thorough() ? 7 : r.san() ? 3 : 6);
    r.each("special", "all strings over {a u \\ \" / DEL 0x80 0xff NUL LF US BS} up to the length", sa->count(), [sa](Ctx &c, uint64_t i) { check(c, sa->at(i), true); });
    r.each("chars", "all 256 characters through FormatChar and char", 256, [](Ctx &c, uint64_t i) {
        char ch = char(i); std::string t(1, ch), b;
        std::string a[4] = {lexi::FormatChar(ch).jsonify(), lexi::jsonify(ch), lexi::FormatChar((unsigned char)i).jsonify(), lexi::jsonify(t)};
        c.calls(4); c.outcome(a[0]); c.note("char %d -> %s", int(i), show(a[0]).c_str());
        for (auto &x : a) if (!ref::json_decode(x, b) || b != t) c.fail("char %d gives %s, which is not a JSON literal of it", int(i), show(x).c_str());
    });
    uint64_t L = r.thorough() ? 20000 : r.san() ? 300 : 2500;
    r.each("lengths", "every length up to the bound x content patterns", L * 9, [](Ctx &c, uint64_t i) {
        int k = int(i % 9); size_t n = size_t(i / 9);
        std::string s(n, k == 0 ? 'a' : k == 1 ? '\\' : k == 2 ? '\0' : k == 3 ? '\xe9' : k == 4 ? '\x1f' : 'b');
        if (k == 5 && n) s[0] = '"'; if (k == 6 && n) s[n - 1] = '\\'; if (k == 7 && n) s[n / 2] = '\n';
        if (k == 8) for (size_t j = 0; j < n; j++) s[j] = char(j);
        check(c, s, false);
    });
    r.each("pairs-at", "every byte pair at each of 34 offsets of a 48-byte text over backgrounds a, quote, 0xff, NUL, DEL", r.san() ? 34ull * 5 * 64 : 34ull * 5 * 65536, [](Ctx &c, uint64_t i) {
        std::string s(48, "a\"\xff\0\x7f"[i % 5]); i /= 5; size_t o = i % 34; i /= 34; s[o] = char(i); s[o + 1] = char(i >> 8); check(c, s, false);
    });
    r.each("two-at", "every pair of 12 special bytes at every two positions of a 40-byte text over backgrounds a and 0x80", 2ull * 144 * 1600 / (r.san() ? 60 : 1), [](Ctx &c, uint64_t i) {
        static const char S[] = "\\\"\n\0\x1f\x7f\x80\xff a/~"; std::string s(40, i & 1 ? '\x80' : 'a'); i >>= 1; size_t p = i % 40, q = i / 40 % 40; i /= 1600; s[p] = S[i % 12]; s[q] = S[i / 12]; check(c, s, false);
    });
    r.each("one-at", "one of 4 bytes at every position of texts of 300, 5000 and 66000 bytes", r.san() ? 1200 : 4ull * (300 + 5000 + 66000 / 16), [](Ctx &c, uint64_t i) {
        char b = "\\\"\x01\xc3"[i % 4]; i /= 4; size_t n = i < 300 ? 300 : i < 5300 ? 5000 : 66000; size_t p = i < 300 ? i : i < 5300 ? i - 300 : (i - 5300) * 16 + (i % 2) * 15; std::string s(n, 'k'); s[p] = b; check(c, s, false);
    });
    const bool san = r.san();
    r.each("code-points", "the UTF-8 form of every 21-bit code point (surrogates and beyond U+10FFFF included), alone, cut short by one byte, and between two quotes", (1ull << 21) / (r.san() ? 997 : 1), [san](Ctx &c, uint64_t i) {
        uint32_t u = uint32_t(san ? i * 997 : i); std::string s;
        if (u < 0x80) s = char(u); else if (u < 0x800) s = {char(0xc0 | u >> 6), char(0x80 | (u & 63))}; else if (u < 0x10000) s = {char(0xe0 | u >> 12), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
        else s = {char(0xf0 | u >> 18), char(0x80 | (u >> 12 & 63)), char(0x80 | (u >> 6 & 63)), char(0x80 | (u & 63))};
        check(c, s, false); check(c, "\"" + s + "\"", false); s.pop_back(); check(c, s, false);
    });
    r.each("large", "lengths 2^k + {-2..2}, k <= 20, x {plain, special everywhere, special at the ends}", 21ull * 5 * 3 / (r.san() ? 2 : 1), [](Ctx &c, uint64_t i) {
        int k = int(i % 3); i /= 3; int d = int(i % 5) - 2; i /= 5; int64_t n = (int64_t(1) << i) + d; if (n < 0) return;
        std::string s(size_t(n), k == 1 ? '\"' : 'q'); if (k == 2 && n) { s[0] = '\\'; s[size_t(n) - 1] = '\x01'; }
        check(c, s, false);
    });
    if (!r.san()) r.each("giant", "a text of 2^31 + 5 (thorough: also 2^32 + 5) bytes, special at both ends and around 2^31, if memory allows", r.thorough() ? 2 : 1, [](Ctx &c, uint64_t i) {
        const uint64_t n = (uint64_t(1) << (31 + i)) + 5; sp::Giant g(n * 6); if (!g.ok) { c.note("not enough memory"); return; }
        try {
            std::string s(n, 'q'); for (uint64_t p : {uint64_t(0), uint64_t(1) << 31, (uint64_t(1) << 31) - 1, n - 1}) s[p] = '\n';
            std::string e = lexi::jsonify(s); c.calls(1); c.outcome(e.size()); c.note("jsonify of %llu bytes gives %llu", (unsigned long long)n, (unsigned long long)e.size());
            // the plain stretches byte by byte; the rest by the general decoder
            auto bad = [&](const char *w) { c.fail("jsonify of a text of %llu bytes: %s (%llu bytes returned)", (unsigned long long)n, w, (unsigned long long)e.size()); };
            if (e.size() < n + 2 || e[0] != '"' || e[e.size() - 1] != '"') bad("not one literal with all the text");
            uint64_t k = 1; for (uint64_t p = 0; p < n; p++) {
                if (s[p] == 'q') { if (e[k++] != 'q') bad("a character is wrong"); }
                else { if (k + 6 >= e.size() + 4 || e[k++] != '\\') bad("a line feed is not escaped"); if (e[k] == 'n') k++; else if (e.compare(k, 5, "u000a") == 0 || e.compare(k, 5, "u000A") == 0) k += 5; else bad("a line feed is not escaped"); }
                if (k >= e.size()) bad("the text is cut");
            }
            if (k + 1 != e.size()) bad("more than the text");
        } catch (const std::bad_alloc &) { c.note("not enough memory"); }
    }, 1);
    auto number = [](Ctx &c, const std::string &j, const std::string &plain, const std::string &obj, const char *what) {
        c.calls(3); c.outcome(j); c.note("%s -> %s", what, j.c_str());
        if (!ref::json_number(j)) c.fail("jsonify of a %s gives %s, which is not a JSON number", what, show(j).c_str());
        if (j != plain || j != obj) c.fail("jsonify of a %s gives %s (object: %s), plain text %s", what, show(j).c_str(), show(obj).c_str(), show(plain).c_str());
    };
    auto near = std::make_shared<sp::NearInts>(r.san() ? 2 : 100);
    r.each("integers", "integers and enums around every power of 2 and 10", near->count(), [near, number](Ctx &c, uint64_t i) {
        uint64_t v = near->at(i); long long s = (long long)v;
        number(c, lexi::jsonify((unsigned long long)v), ref::udec(v), lexi::FormatInt((unsigned long long)v).jsonify(), "unsigned long long");
        number(c, lexi::jsonify(s), ref::sdec(s), lexi::FormatInt(s).jsonify(), "long long");
        number(c, lexi::jsonify(long(s)), ref::sdec(s), lexi::FormatInt(long(s)).jsonify(), "long");
        number(c, lexi::jsonify(int(v)), ref::sdec(int(v)), lexi::FormatInt(int(v)).jsonify(), "int");
        number(c, lexi::jsonify(unsigned(v)), ref::udec(unsigned(v)), lexi::FormatInt(unsigned(v)).jsonify(), "unsigned");
        number(c, lexi::jsonify(short(v)), ref::sdec(short(v)), lexi::FormatInt(short(v)).jsonify(), "short");
        number(c, lexi::jsonify((signed char)v), ref::sdec((signed char)v), lexi::FormatInt(int8_t(v)).jsonify(), "signed char");
        number(c, lexi::jsonify((unsigned char)v), ref::udec((unsigned char)v), lexi::FormatInt(uint8_t(v)).jsonify(), "unsigned char");
        number(c, lexi::jsonify(En(s)), ref::sdec(s), lexi::FormatEnum(En(s)).jsonify(), "enum");
        number(c, lexi::jsonify(Eb(v)), ref::udec((unsigned char)v), lexi::FormatEnum(Eb(v)).jsonify(), "enum : unsigned char");
        number(c, lexi::jsonify(std::streampos(std::streamoff(s))), ref::sdec(s), ref::sdec(s), "stream position");
    });
    auto ef = std::make_shared<sp::ExpFrac>(r.thorough() ? 2 : r.san() ? 0 : 1);
    r.each("floats", "every exponent x fractions of weight <= 1, complements, runs, both signs, as double/float/long double", ef->count(), [ef, number](Ctx &c, uint64_t i) {
        double d = ef->at(i); float f = float(d);
        number(c, lexi::jsonify(d), lexi::lexi(d), lexi::FormatFloat(d).jsonify(), "double"); number(c, lexi::jsonify(-d), lexi::lexi(-d), lexi::FormatFloat(-d).jsonify(), "double");
        if (f - f == 0) number(c, lexi::jsonify(f), lexi::lexi(f), lexi::FormatFloat(f).jsonify(), "float");
        number(c, lexi::jsonify((long double)d), lexi::lexi((long double)d), lexi::FormatFloat((long double)d).jsonify(), "long double");
    });
    r.each("words", "null, true, false", 3, [](Ctx &c, uint64_t i) {
        std::string a = i == 0 ? lexi::jsonify(nullptr) : lexi::jsonify(i == 1), b = i == 0 ? lexi::FormatNull().jsonify() : lexi::FormatBool(i == 1).jsonify(), w = i == 0 ? "null" : i == 1 ? "true" : "false";
        c.calls(2); c.outcome(a); if (a != w || b != w) c.fail("%s jsonifies to %s / %s", w.c_str(), show(a).c_str(), show(b).c_str());
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c09::setup)
#endif
