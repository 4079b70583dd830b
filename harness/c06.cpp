// C06: float extraction is correctly rounded for the requested type.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <charconv>
#include <cmath>
#include <lexi/lexi.hpp>

namespace c06 {
using mc::Ctx; using mc::show;
typedef boost::multiprecision::cpp_int Big;

// reference recogniser: the number is text[b, e) (sign included); false if there is none. `hex` is set for 0x..., which
// is not claimed; `word` for inf/nan words
struct Rec { bool num, hex, word; size_t b, e; };
inline Rec recognise(const std::string &s) {
    Rec r{false, false, false, 0, 0}; size_t i = 0, n = s.size();
    auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
    while (i < n && ref::is_ws((unsigned char)s[i])) i++;
    r.b = i;
    if (i < n && (s[i] == '+' || s[i] == '-')) i++;
    if (i < n && (s[i] == 'i' || s[i] == 'I' || s[i] == 'n' || s[i] == 'N')) { r.word = true; return r; }
    if (i + 1 < n && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X')) { r.hex = true; return r; }
    size_t d = i; while (dig(i)) i++;
    size_t nd = i - d;
    if (i < n && s[i] == '.') { size_t k = i + 1; while (dig(k)) k++; size_t nf = k - i - 1; if (nd + nf) { i = k; nd += nf; } }
    if (!nd) return r;
    r.num = true; r.e = i;
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { size_t k = i + 1; if (k < n && (s[k] == '+' || s[k] == '-')) k++; if (dig(k)) { while (dig(k)) k++; r.e = k; } }
    return r;
}
// value of an isolated decimal number: an independent reader (std::from_chars) for float and double
template <class T> T value(const std::string &t) {
    const char *b = t.data(), *e = b + t.size();
    if (b < e && *b == '+') b++;
    T x = 0; auto r = std::from_chars(b, e, x);
    if (r.ec == std::errc() && r.ptr == e) return x;
    return sizeof(T) == 4 ? T(strtof(t.c_str(), nullptr)) : sizeof(T) == 8 ? T(strtod(t.c_str(), nullptr)) : T(strtold(t.c_str(), nullptr));
}
template <> long double value<long double>(const std::string &t) { return strtold(t.c_str(), nullptr); }

inline std::string cut(const std::string &s) { return s.size() < 200 ? show(s) : show(s.substr(0, 90)) + "..." + std::to_string(s.size()) + " chars..." + show(s.substr(s.size() - 60)); }

template <class T> void expect(Ctx &c, const std::string &s, T want, const char *tn) {
    lexi::ExtractFloat x(s);
    T a = lexi::lexi<T>(s), b = T(x);
    c.calls(2);
    c.note("lexi<%s>(%s) = %La", tn, cut(s).c_str(), (long double)a);
    bool nan = want != want;
    if (nan ? (a == a || b == b) : !(a == want && b == want)) c.fail("lexi<%s>(%s) = %La (ExtractFloat: %La), want %La", tn, cut(s).c_str(), (long double)a, (long double)b, (long double)want);
    if (s.find('\0') == std::string::npos) { T d = lexi::lexi<T>(s.c_str()); c.calls(1); if (nan ? d == d : d != want) c.fail("lexi<%s>((const char *)%s) = %La, want %La", tn, cut(s).c_str(), (long double)d, (long double)want); }
    uint64_t h = 0; long double o = a; memcpy(&h, &o, 8); c.outcome(h ^ sizeof(T));
}
void text(Ctx &c, const std::string &s) {
    Rec r = recognise(s);
    if (r.hex || r.word) { c.note("%s: not claimed", show(s).c_str()); return; }
    std::string n = r.num ? s.substr(r.b, r.e - r.b) : "0";
    expect<double>(c, s, value<double>(n), "double"); expect<float>(c, s, value<float>(n), "float"); expect<long double>(c, s, value<long double>(n), "long double");
}

// the three texts around the midpoint of m*2^e and (m+1)*2^e, i.e. (2m+1) * 2^(e-1)
inline std::string mid_text(uint64_t m, int e, int which, int style) {
    Big k = (Big(m) << 1) + 1; int x = e - 1, p10 = 0;
    if (x >= 0) k <<= unsigned(x); else { k *= boost::multiprecision::pow(Big(5), unsigned(-x)); p10 = x; }
    std::string d = k.str();
    if (which < 0) { size_t i = d.size(); d += "9"; while (d[i - 1] == '0') { d[i - 1] = '9'; i--; } d[i - 1]--; p10--; }   // just below
    if (which > 0) { d += style & 2 ? std::string(40, '0') + "1" : "1"; p10 -= style & 2 ? 41 : 1; }                        // just above
    if (style & 1) {   // positional
        if (p10 >= 0) return d + std::string(size_t(p10), '0');
        size_t q = size_t(-p10); if (d.size() <= q) d = std::string(q + 1 - d.size(), '0') + d;
        return d.substr(0, d.size() - q) + "." + d.substr(d.size() - q);
    }
    return d.substr(0, 1) + "." + d.substr(1) + "0e" + std::to_string(p10 + int(d.size()) - 1);
}

void setup(mc::Run &r) {
    auto st = std::make_shared<sp::Strings>(std::string("019.e+- z\0", 10), r.thorough() ? 8 : r.san() ? 4 : 6);
    r.each("short-texts", "all texts up to the length over {0 1 9 . e + - space z NUL}", st->count(), [st](Ctx &c, uint64_t i) { text(c, st->at(i)); });
    auto st2 = std::make_shared<sp::Strings>(std::string("5.eE-\t\n,0"), r.thorough() ? 7 : r.san() ? 3 : 6);
    r.each("short-texts-2", "all texts up to the length over {5 . e E - tab newline , 0}", st2->count(), [st2](Ctx &c, uint64_t i) { text(c, st2->at(i)); });
    r.each("prefix-byte", "every byte pair before, inside and after a number", 65536ull * 3, [](Ctx &c, uint64_t i) {
        std::string ab{char(i >> 8 & 255), char(i & 255)}; uint64_t k = i >> 16;
        text(c, k == 0 ? ab + "12.5e1" : k == 1 ? "12" + ab + "5" : "12.5e1" + ab);
    }, r.san() ? 4096 : 0);
    // spelled variants of m x 10^e
    int E = r.thorough() ? 400 : 360; uint64_t M = r.thorough() ? 2000 : r.san() ? 12 : 250;
    r.each("spellings", "m x 10^e, m < " + std::to_string(M) + ", |e| <= " + std::to_string(E) + ", 8 spellings, 3 types", (M - 1) * uint64_t(2 * E + 1), [M, E](Ctx &c, uint64_t i) {
        uint64_t m = 1 + i % (M - 1); int e = int(i / (M - 1)) - E;
        std::string d = std::to_string(m), canon = d + "e" + std::to_string(e);
        double w = value<double>(canon); float f = value<float>(canon); long double l = value<long double>(canon);
        std::string v[8] = {canon, " \t\n" + d + "E" + std::to_string(e) + "x", "+000" + d + ".e" + std::to_string(e), d + "0000e" + std::to_string(e - 4), "0.000" + d + "e" + std::to_string(e + 3 + int(d.size())),
            "." + d + "000000000000000000000000e" + std::to_string(e + int(d.size())), d + ".000000000000000000000e" + (e >= 0 ? "+00" : "-0") + std::to_string(e < 0 ? -e : e) + "e5",
            e >= 0 ? d + std::string(size_t(e), '0') + ".0.1" : "0." + (size_t(-e) > d.size() ? std::string(size_t(-e) - d.size(), '0') + d : "") };
        int n = (e >= 0 || size_t(-e) > d.size()) ? 8 : 7;
        for (int k = 0; k < n; k++) {
            expect<double>(c, v[k], w, "double"); expect<float>(c, v[k], f, "float"); expect<long double>(c, v[k], l, "long double");
            std::string g = (v[k][0] == '+') ? "-" + v[k].substr(1) : v[k][0] == ' ' ? "\v\f\r-" + v[k].substr(3) : "-" + v[k];
            expect<double>(c, g, -w, "double"); expect<float>(c, g, -f, "float");
        }
    });
    // exact midpoints
    auto fd = std::make_shared<std::vector<uint64_t>>(); { auto x = sp::fractions(52, 1); size_t step = r.thorough() ? 1 : r.san() ? 401 : 40; for (size_t i = 0; i < x.size(); i += step) fd->push_back(x[i]); for (uint64_t k : {0ull, 1ull, 2ull, 0xFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFEull, 0x8000000000000ull}) fd->push_back(k); }
    uint64_t nf = fd->size(), es = r.san() ? 53 : r.thorough() ? 1 : 5;
    r.each("double-midpoints", "exact midpoint of neighbouring doubles, just below, just above; positional or exponent spelling; exponents in steps of " + std::to_string(es), (2046 / es + 2) * nf * 3, [fd, nf, es](Ctx &c, uint64_t i) {
        int which = int(i % 3) - 1; i /= 3; uint64_t f = (*fd)[i % nf], e = i / nf * es; if (e > 2046) e = 2046;
        uint64_t bits = e << 52 | f; double d = sp::from_bits(bits), up = sp::from_bits(bits + 1);
        uint64_t m = e ? f | 1ull << 52 : f; int x = e ? int(e) - 1075 : -1074;
        std::string s = mid_text(m, x, which, int((f ^ e) & 3));
        double want = which < 0 ? d : which > 0 ? up : (f & 1) ? up : d;
        expect<double>(c, s, want, "double"); expect<double>(c, "-" + s, -want, "double");
    });
    auto f32 = std::make_shared<std::vector<uint64_t>>(sp::fractions(23, r.san() ? 0 : 1)); uint64_t nf32 = f32->size(); uint64_t fs = r.san() ? 17 : r.thorough() ? 1 : 2;
    r.each("float-midpoints", "exact midpoint of neighbouring floats, just below, just above, beyond double precision; every exponent", (254 / fs + 2) * nf32 * 3, [f32, nf32, fs](Ctx &c, uint64_t i) {
        int which = int(i % 3) - 1; i /= 3; uint32_t f = uint32_t((*f32)[i % nf32]), e = uint32_t(i / nf32 * fs); if (e > 254) e = 254;
        uint32_t bits = e << 23 | f; float d = sp::from_bits32(bits), up = sp::from_bits32(bits + 1);
        uint64_t m = e ? f | 1u << 23 : f; int x = e ? int(e) - 150 : -149;
        std::string s = mid_text(m, x, which, int((f ^ e) & 3));
        float want = which < 0 ? d : which > 0 ? up : (f & 1) ? up : d;
        expect<float>(c, s, want, "float"); expect<float>(c, "-" + s, -want, "float");
        if (which == 0) expect<double>(c, s, ldexp(double(2 * m + 1), x - 1), "double");   // exact in double: not rounded to float first
        expect<long double>(c, mid_text(m, x, 0, 0), ldexpl((long double)(2 * m + 1), x - 1), "long double");
    });
    r.each("long-double-midpoints", "midpoints of neighbouring long doubles, exponents -1100..1100", 2201ull * 8 * 3 / (r.san() ? 40 : 1), [](Ctx &c, uint64_t i) {
        static const uint64_t FR[8] = {1ull << 63, 1ull << 63 | 1, ~0ull, ~0ull - 1, 0xAAAAAAAAAAAAAAAAull, 0xD555555555555555ull, 0x8000000000000400ull, 0xFFFFFFFFFFFFFBFFull};
        int which = int(i % 3) - 1; i /= 3; uint64_t m = FR[i % 8]; int e = int(i / 8) - 1100;
        long double d = ldexpl((long double)m, e), up = m == ~0ull ? ldexpl(1.0L, 64 + e) : ldexpl((long double)(m + 1), e);
        std::string s = mid_text(m, e, which, int(i & 3));
        expect<long double>(c, s, which < 0 ? d : which > 0 ? up : (m & 1) ? up : d, "long double");
    });
    auto ht = std::make_shared<sp::HardTexts>();
    r.each("hard-texts", "for every exponent of double and float and 3..19 digits (long double: sampled exponents): the decimals nearest to a rounding boundary, also with the point moved", ht->count(), [ht](Ctx &c, uint64_t i) {
        const std::string &s = ht->v[i]; text(c, s);
        size_t e = s.find('e'); int x = atoi(s.c_str() + e + 1); std::string d = s.substr(0, e);
        text(c, d.substr(0, 1) + "." + d.substr(1) + "e" + std::to_string(x + int(d.size()) - 1)); text(c, "-." + d + "E" + std::to_string(x + int(d.size())));
        if (x > 0 && x < 25) text(c, d + std::string(size_t(x), '0') + ".0"); else if (x < 0 && x > -40) { size_t q = size_t(-x); if (d.size() <= q) d = std::string(q + 1 - d.size(), '0') + d; text(c, d.substr(0, d.size() - q) + "." + d.substr(d.size() - q)); }
    });
    // doubles written with every number of digits from 1 to 25 (not only as lexi prints them)
    auto ef = std::make_shared<std::vector<uint64_t>>(sp::fractions(52, 0));
    r.each("printed-digits", "each double of the set printed with 1..25 digits", 2047ull * 26 / (r.san() ? 40 : 1), [ef](Ctx &c, uint64_t i) {
        uint64_t e = i % 2047; int p = int(i / 2047);
        for (size_t k = 0; k < ef->size(); k += 61) { double d = sp::from_bits(e << 52 | (*ef)[k]); if (d == 0) continue; char b[64]; snprintf(b, sizeof b, "%.*e", p, d); text(c, b); }
    });
    r.each("words", "NaN, Infinity, -Infinity as written by formatting, 3 types", 3, [](Ctx &c, uint64_t i) {
        static const char *W[3] = {"NaN", "Infinity", "-Infinity"}; double inf = std::numeric_limits<double>::infinity(), v = i == 0 ? std::nan("") : i == 1 ? inf : -inf;
        expect<double>(c, W[i], v, "double"); expect<float>(c, W[i], float(v), "float"); expect<long double>(c, W[i], (long double)v, "long double");
    });
    uint64_t gs = r.thorough() ? 1 : r.san() ? 5003 : 17;
    r.each("groups", "20-digit numbers in which every pair of two-digit groups takes every value over 4 backgrounds, in steps of " + std::to_string(gs) + ", with exponents around the exactly representable powers of ten", sp::GroupInts().count() / gs, [gs](Ctx &c, uint64_t i) {
        uint64_t v; if (!sp::GroupInts().at(i * gs, v)) return; static const int X[] = {0, -5, -22, -23, 5, 22, 23, -40, 40, -300, 290};
        std::string d = std::to_string(v); text(c, d); text(c, d + "e" + std::to_string(X[i % 11])); text(c, std::to_string(v / 1000) + "e" + std::to_string(X[(i / 11) % 11])); text(c, "-0." + d);
    });
    r.each("exponents", "every exponent up to 25000 in magnitude and exponents of up to 60 digits, before zero, small and long significands", 50001 / (r.san() ? 50 : 1) + 120, [](Ctx &c, uint64_t i) {
        std::string x = i < 120 ? (i % 2 ? "-" : "") + std::string(i / 2 + 1, i % 4 < 2 ? '9' : '2') : std::to_string(int(i) - 120 - 25000);
        for (const char *m : {"1", "0", "0.0", "9.87654321", "123456789012345678901234567890", "0.00000000000000000000000000000000000000000000000001"}) { text(c, m + std::string("e") + x); if (x[0] != '-') text(c, "-" + std::string(m) + "E+0" + x + "e1"); }
    });
    const bool san = r.san();
    r.each("wrapping-exponents", "exponents around +-2^k, k <= 70 (within 45; within 400 for the widths of integer types)", (65 * 91 + 6 * 801) / (r.san() ? 50 : 1), [san](Ctx &c, uint64_t i) {
        if (san) i *= 50;
        static const int W[6] = {8, 15, 16, 31, 32, 64};
        int k, o; if (i < 65 * 91) { k = 6 + int(i / 91); o = int(i % 91) - 45; } else { i -= 65 * 91; k = W[i / 801]; o = int(i % 801) - 400; }
        Big x = (Big(1) << unsigned(k)) + o; if (x < 0) return;
        for (const char *m : {"1", "0", "9.87654321", "1234567890123456789", "0.0000000001", "100000000000000000000"}) for (const char *g : {"", "-", "+0"}) text(c, m + std::string("e") + g + x.str());
    });
    uint64_t NB = r.san() ? 4 : 200;
    r.each("near-significands", "significands within " + std::to_string(NB) + " of 2^k, k = 23..25, 52..66, and of 10^k, k = 7..9, 15..21, with every exponent from -30 to 30", 28 * (2 * NB + 1), [NB](Ctx &c, uint64_t i) {
        uint64_t b = i / (2 * NB + 1); Big m = b < 3 ? Big(1) << unsigned(23 + b) : b < 18 ? Big(1) << unsigned(49 + b) : boost::multiprecision::pow(Big(10), unsigned(b < 21 ? b - 11 : b - 6));
        m += int(i % (2 * NB + 1)) - int(NB); std::string d = m.str();
        for (int e = -30; e <= 30; e++) text(c, d + "e" + std::to_string(e));
        for (size_t q = 1; q < d.size(); q++) text(c, d.substr(0, q) + "." + d.substr(q));
        text(c, d + "." + std::string(30, '0') + "1");
    });
    r.each("byte-at", "every byte at every position of number texts of up to 40 characters in 5 shapes", 5ull * 41 * 256, [](Ctx &c, uint64_t i) {
        static const char *T[5] = {"192837465019283746501928374650192837465", "  -0.00000000009876543210987654e-12 ", "12345678.12345678e+0000000012", "4503599627370497.5", "123456.789E12"};
        std::string d(T[i / (41 * 256)]); size_t p = i / 256 % 41; if (p > d.size()) return;
        std::string e = d; if (p < d.size()) { e[p] = char(i & 255); text(c, e); } d.insert(p, 1, char(i & 255)); text(c, d); if (p && p <= 24) text(c, d.substr(0, p + 1));
    }, r.san() ? 4096 : 0);
    r.each("large-texts", "zero, digit and whitespace runs of 2^k + {-1, 0, 1} up to 2^17", r.san() ? 15 : 18 * 3, [](Ctx &c, uint64_t i) {
        size_t n = (size_t(1) << (i / 3)) + i % 3 - 1; std::string z(n, '0'), w(n, ' ');
        for (const std::string &s : {w + "2.5", z + "2.5", "2.5" + z, "2.5" + z + "1", "0." + z + "25e" + std::to_string(n), "25" + z + "e-" + std::to_string(n), "2.5" + w + "e5", "1e" + z + "3", "2.5" + std::string(n, 'x'), "9007199254740993" + z + "." + z + "1e-" + std::to_string(n)}) text(c, s);
    }, 1);
    r.each("long-texts", "digit runs and zero runs of every length up to 1200 around the point and exponent", r.san() ? 60 : 1200, [](Ctx &c, uint64_t n) {
        std::string z(n, '0'), o(n, '1'), q(n, '9');
        for (const std::string &s : {z + "1", "0." + z + "1", "1" + z, "1" + z + "e-" + std::to_string(n), "0." + z + "1e" + std::to_string(n), o, "0." + o, o + "." + o, q, "." + q, q + "e-" + std::to_string(n), "1e" + z + "5", "1." + z + "1", " " + std::string(n, ' ') + "1.5", std::string(n, '\t') + "-1.5e-3z"}) text(c, s);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c06::setup)
#endif
