// C21: the same spaces in every build variant. A case is a block of inputs; its digest goes to the file MC_DIGEST, and the
// driver compares the digests of the variants. With MC_LIST, a replayed block prints every input and result.
// This file is compiled with the options of the variant too (C++14 on), because part of the library is in its headers.
#include "mc.hpp"
#include "spaces.hpp"
#include <cfenv>
#include <cmath>
#include <fcntl.h>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>

namespace c21 {
using mc::Ctx; using mc::show;
static uint64_t *D; static uint64_t NB;   // digests
static bool LIST;
struct Sink {   // collects results of one block
    uint64_t h = 1469598103934665603ull; std::string line; uint64_t n = 0;
    void put(const std::string &s) { for (char c : s) { h ^= (unsigned char)c; h *= 1099511628211ull; } h ^= 0x100; h *= 1099511628211ull; if (LIST) line += " " + show(s); }
    void put(uint64_t v) { h ^= v; h *= 1099511628211ull; h ^= h >> 31; if (LIST) line += " " + std::to_string(v); }
    void put(long double v) { if (v != v) { put(uint64_t(0x7ff8)); return; } uint64_t m = 0; uint16_t e = 0; memcpy(&m, &v, 8); memcpy(&e, reinterpret_cast<char *>(&v) + 8, 2); put(m); put(uint64_t(e)); }
    void end(const std::string &input) { n++; if (LIST) { printf("LINE %s:%s\n", input.c_str(), line.c_str()); line.clear(); } }
};
template <class F> void guarded(Sink &o, F f) { try { f(); } catch (const std::runtime_error &) { o.put(std::string("std::runtime_error")); } catch (const std::exception &) { o.put(std::string("other exception")); } }

static const uint64_t B = 1024;
// f(sink, i) for i < n, in blocks
template <class F> void blocks(mc::Run &r, const std::string &name, const std::string &bound, uint64_t n, F f) {
    uint64_t off = NB, nb = (n + B - 1) / B; NB += nb;
    r.each(name, bound + " (" + std::to_string(n) + " inputs in blocks of 1024)", nb, [=](Ctx &c, uint64_t i) {
        Sink o; for (uint64_t k = i * B; k < n && k < (i + 1) * B; k++) f(o, k);
        if (D) D[off + i] = o.h;
        c.calls(o.n); c.outcome(o.h); c.note("block %llu: digest %016llx", (unsigned long long)i, (unsigned long long)o.h);
    }, nb / 64 + 1);
}
inline std::string hexd(double d) { char b[40]; snprintf(b, sizeof b, "%a", d); return b; }

template <class F> F pass(F f) { F g = f; return g; }                  // copies and returns by value
template <class F> void fmt(Sink &o, const F &f) {
    o.put(f.string()); o.put(uint64_t(f.size())); F g = pass(f); F h = pass(F(g)); std::vector<F> v; v.push_back(g); v.push_back(pass(h)); v.push_back(h); std::swap(v[0], v[2]); v.insert(v.begin(), g);
    for (auto &x : v) { o.put(x.string()); o.put(std::string(x.c_str())); }
}
inline void one_double(Sink &o, double d) {
    o.put(lexi::lexi(d)); o.put(lexi::lexi(-d)); o.put(lexi::jsonify(float(d))); o.put(lexi::lexi((long double)d)); o.end(hexd(d));
}
enum class Ec : char { }; enum class Es : short { }; enum Eu : unsigned { }; enum class El : long long { };
inline void bigput(Sink &o, const lexi::detail::BigInteger &b) { o.put(uint64_t(b.count())); for (size_t i = 0; i < b.count(); i++) o.put(uint64_t(b.digit(i))); }

void setup(mc::Run &r) {
    LIST = getenv("MC_LIST") != nullptr; NB = 0; bool T = r.thorough();
    auto ef = std::make_shared<sp::ExpFrac>(T ? 2 : 0); uint64_t st = T ? 1 : 5;
    blocks(r, "format-double", "every exponent x fractions (weight, runs, edge bytes), both signs, as double, float and long double", ef->count() / st, [ef, st](Sink &o, uint64_t i) { one_double(o, ef->at(i * st)); });
    auto np = std::make_shared<sp::NearPow>(T ? 500 : 20);
    blocks(r, "format-near", "ulp windows around every power of 10 and 2", np->count(), [np](Sink &o, uint64_t i) { double d; if (np->at(i, d)) one_double(o, d); });
    auto dec = std::make_shared<sp::Decimals>(sp::Decimals{T ? 2000u : 100u, -330, 308});
    blocks(r, "format-decimals", "all m x 10^e with small m", dec->count(), [dec](Sink &o, uint64_t i) { one_double(o, dec->at(i)); });
    auto hd = std::make_shared<sp::Hard>(); uint64_t hs = T ? 1 : 3;
    blocks(r, "format-hard", "the doubles with the least room for error in each exponent and digit count", hd->count() / hs, [hd, hs](Sink &o, uint64_t i) { one_double(o, hd->at(i * hs)); });
    // whole numbers near 10^k and short decimals: exact comparisons inside the digit generation
    blocks(r, "format-whole", "whole numbers, halves, quarters, hundredths", T ? 1u << 20 : 1u << 16, [](Sink &o, uint64_t i) { one_double(o, double(i)); one_double(o, double(i) / 4); one_double(o, double(i) / 100); one_double(o, double(i) * 1e15); });
    auto near = std::make_shared<sp::NearInts>(T ? 1000 : 100);
    blocks(r, "format-int", "integers around every power of 2 and 10, all types, copies", near->count(), [near](Sink &o, uint64_t i) {
        uint64_t v = near->at(i); o.put(lexi::lexi((unsigned long long)v)); o.put(lexi::lexi((long long)v)); o.put(lexi::lexi((unsigned long)v)); o.put(lexi::lexi((long)v)); o.put(lexi::lexi((unsigned)v)); o.put(lexi::lexi((int)v)); o.put(lexi::lexi((short)v)); o.put(lexi::lexi((unsigned short)v)); o.put(lexi::lexi((signed char)v)); o.put(lexi::lexi((unsigned char)v)); o.put(lexi::lexi(std::streampos(std::streamoff(v))));
        o.put(lexi::lexi(Es(short(v)))); o.put(lexi::lexi(Eu(unsigned(v)))); o.put(lexi::lexi(El((long long)v))); fmt(o, lexi::FormatInt((long long)v)); fmt(o, lexi::FormatInt(unsigned(v))); fmt(o, lexi::Format()(v)); o.end(std::to_string(v)); });
    auto gi = std::make_shared<sp::GroupInts>(); uint64_t gs = T ? 1 : 7;
    blocks(r, "format-groups", "all pairs of two-digit groups over 4 backgrounds", gi->count() / gs, [gi, gs](Sink &o, uint64_t i) { uint64_t v; if (!gi->at(i * gs, v)) return; o.put(lexi::lexi((unsigned long long)v)); o.put(lexi::lexi((long long)(0 - v))); o.put(lexi::lexi((unsigned)v)); o.put(lexi::lexi(int(v))); o.end(std::to_string(v)); });
    blocks(r, "objects", "copies, moves, swaps and by-value passing of float, bool, char, null and enum formatters", 20000, [](Sink &o, uint64_t i) {
        double d = sp::from_bits(i * 0x0002468ACE13579Bull); if (!(d - d == 0)) d = double(i); fmt(o, lexi::FormatFloat(d)); fmt(o, lexi::Format()(float(d))); fmt(o, lexi::FormatEnum(Es(short(i)))); if (i < 2) fmt(o, lexi::FormatBool(i == 1)); if (i == 0) fmt(o, lexi::FormatNull());
        if (i < 256) { unsigned char u = (unsigned char)i; char ch; memcpy(&ch, &u, 1); fmt(o, lexi::FormatChar(ch)); o.put(lexi::FormatChar(ch).escape()); o.put(lexi::FormatChar(ch).jsonify()); std::string one(1, ch); char back = lexi::lexi<char>(one); o.put(uint64_t((unsigned char)back)); o.put(lexi::lexi(ch)); o.put(lexi::escape(ch)); o.put(lexi::jsonify(ch)); }
        o.end(std::to_string(i)); });
    auto s2 = std::make_shared<sp::Strings>(sp::all_bytes(), 2);
    auto text = [](Sink &o, const std::string &s) { o.put(lexi::escape(s)); o.put(lexi::jsonify(s)); o.put(lexi::lexi(s)); o.put(lexi::string(s.c_str())); o.end(show(s)); };
    blocks(r, "text-bytes", "escape and jsonify of all byte strings of length <= 2", s2->count(), [s2, text](Sink &o, uint64_t i) { text(o, s2->at(i)); });
    auto ss = std::make_shared<sp::Strings>(std::string("a\\\" \x7f\x80\xff\0\n~", 10), T ? 6 : 4);
    blocks(r, "text-special", "all strings over 10 special bytes", ss->count(), [ss, text](Sink &o, uint64_t i) { text(o, ss->at(i)); });
    auto it = std::make_shared<sp::Strings>(std::string("0189+- \t.\0\xff", 11), T ? 6 : 4);
    auto ext = [](Sink &o, const std::string &s) {
        o.put(uint64_t(lexi::lexi<long long>(s))); o.put(uint64_t(lexi::lexi<unsigned long long>(s))); o.put(uint64_t(int64_t(lexi::lexi<int>(s)))); o.put(uint64_t(lexi::lexi<unsigned>(s))); o.put(uint64_t(int64_t(lexi::lexi<short>(s)))); o.put(uint64_t(int64_t(lexi::lexi<signed char>(s)))); o.put(uint64_t(lexi::lexi<unsigned char>(s))); o.put(uint64_t(int64_t(short(lexi::lexi<Es>(s)))));
        o.put((long double)lexi::lexi<double>(s)); o.put((long double)lexi::lexi<float>(s)); o.put(lexi::lexi<long double>(s));
        guarded(o, [&] { o.put(uint64_t(lexi::lexi<bool>(s))); }); guarded(o, [&] { lexi::lexi<std::nullptr_t>(s); o.put(uint64_t(1)); }); guarded(o, [&] { o.put(uint64_t((unsigned char)lexi::lexi<char>(s))); }); o.end(show(s)); };
    blocks(r, "extract", "all texts over {0 1 8 9 + - space tab . NUL 0xff}, every type", it->count(), [it, ext](Sink &o, uint64_t i) { ext(o, it->at(i)); });
    blocks(r, "extract-bytes", "all byte strings of length <= 2, every type", s2->count(), [s2, ext](Sink &o, uint64_t i) { ext(o, s2->at(i)); });
    static const char *words[] = {"true", "false", "null", "True", "tru", "truee", "", "NaN", "Infinity", "-Infinity", "1e400", "-1e400", "1e-400", "18446744073709551615", "-9223372036854775808", "18446744073709551616"};
    blocks(r, "extract-words", "literals and limits", sizeof words / sizeof *words, [ext](Sink &o, uint64_t i) { ext(o, words[i]); });
    blocks(r, "extract-float", "decimal spellings of edge doubles", ef->count() / (st * 40), [ef, st](Sink &o, uint64_t i) { double d = ef->at(i * st * 40); char b[64]; for (int p : {3, 9, 17, 21}) { snprintf(b, sizeof b, "%.*e", p - 1, d); o.put((long double)lexi::lexi<double>(b)); o.put((long double)lexi::lexi<float>(b)); o.put(lexi::lexi<long double>(b)); } o.end(hexd(d)); });
    auto ht = std::make_shared<sp::HardTexts>();
    blocks(r, "extract-hard", "the decimals nearest to a rounding boundary", ht->count() / hs, [ht, hs](Sink &o, uint64_t i) { const std::string &t = ht->v[i * hs]; o.put((long double)lexi::lexi<double>(t)); o.put((long double)lexi::lexi<float>(t)); o.put(lexi::lexi<long double>(t)); o.end(t); });
    blocks(r, "classify", "both signs x exponents x fractions: every predicate", ef->count() / st + 5000, [ef, st](Sink &o, uint64_t i) { using namespace lexi::detail; uint64_t n = ef->count() / st; double d = i < n ? ef->at(i * st) : sp::from_bits(0x7FF0000000000000ull + (i - n) * 0x000FEDCBA987ull); for (double x : {d, -d}) o.put(uint64_t(isNan(x)) | uint64_t(isInf(x)) << 1 | uint64_t(isNegativeInfinity(x)) << 2 | uint64_t(isInfinity(x)) << 3 | uint64_t(isFinite(x)) << 4 | uint64_t(isZero(x)) << 5 | uint64_t(isPositive(x)) << 6); o.end(hexd(d)); });
    blocks(r, "pow10", "the whole table", 309, [](Sink &o, uint64_t i) { o.put((long double)lexi::detail::pow10(int(i))); o.end(std::to_string(i)); });
    // extended floats; the portable normalisation is defined for significands below 2^53, as doubles have
    blocks(r, "diyfp-doubles", "decomposition, normalisation and boundaries", ef->count() / st, [ef, st](Sink &o, uint64_t i) { using lexi::detail::DiyFp; double d = ef->at(i * st); if (d == 0) return; DiyFp v(d), n = v.normalize(), p, q; v.normalizedBoundaries(&q, &p); DiyFp b = DiyFp(v.f * 2 + 1, v.e - 1).normalizeBoundary(); for (auto &x : {v, n, p, q, b, p - q, n * p, q * n}) { o.put(uint64_t(x.f)); o.put(uint64_t(int64_t(x.e))); } o.end(hexd(d)); });
    auto w = std::make_shared<std::vector<uint64_t>>(); for (uint64_t f : sp::fractions(64, T ? 2 : 1)) w->push_back(f);
    uint64_t nw = w->size(), ws = T ? 1 : 5;
    blocks(r, "diyfp-products", "all pairs of structured 64-bit significands", nw * nw / ws, [w, nw, ws](Sink &o, uint64_t k) { uint64_t i = k * ws; lexi::detail::DiyFp m = lexi::detail::DiyFp((*w)[i / nw], int(i % 61)) * lexi::detail::DiyFp((*w)[i % nw], -int(i % 37)); o.put(uint64_t(m.f)); o.put(uint64_t(int64_t(m.e))); o.end(std::to_string((*w)[i / nw]) + "*" + std::to_string((*w)[i % nw])); });
    blocks(r, "big-products", "two- and three-word values x structured words: multiply, add, shift, powers of five, difference, compare", nw * nw / ws / 8, [w, nw, ws](Sink &o, uint64_t k) {
        typedef lexi::detail::BigInteger Big; uint64_t i = k * ws * 8; uint64_t a = (*w)[i / nw], b = (*w)[i % nw]; Big x(a); x *= b; bigput(o, x); x += a; x *= uint64_t(b | 1); bigput(o, x); x *= uint32_t(a); bigput(o, x); Big y(x); y <<= size_t(b % 200); bigput(o, y); y.mulPow5(unsigned(a % 50)); y += b; bigput(o, y); Big d(uint64_t(0)); guarded(o, [&] { o.put(uint64_t(x.difference(y, &d))); bigput(o, d); }); o.put(uint64_t(int64_t(x.compare(y) < 0 ? -1 : x.compare(y) > 0))); o.put(uint64_t(x == y)); o.end(std::to_string(a) + "," + std::to_string(b)); });
    blocks(r, "big-decimal", "decimal texts of every length up to 200 and invalid ones", 201 * 12, [](Sink &o, uint64_t i) { size_t n = size_t(i / 12) + 1; int k = int(i % 12); std::string s(n, char('0' + (k < 10 ? k : 9))); if (k == 10) s[n / 2] = 'x'; if (k == 11) s[0] = '1'; guarded(o, [&] { lexi::detail::BigInteger b(s.data(), s.size()); bigput(o, b); b.mulPow5(unsigned(n)); bigput(o, b); }); o.end(s); });
    blocks(r, "big-capacity", "growth to the capacity and beyond", 600, [](Sink &o, uint64_t i) { lexi::detail::BigInteger b(~uint64_t(0)); guarded(o, [&] { for (uint64_t k = 0; k < i; k++) b <<= 64; bigput(o, b); b *= uint64_t(3); bigput(o, b); b += ~uint64_t(0); b.mulPow5(30); bigput(o, b); b <<= 1; bigput(o, b); }); o.end(std::to_string(i)); });
    // rounding modes: compared directly within this variant
    static const int MODE[] = {FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO}; static const char *MN[] = {"FE_DOWNWARD", "FE_UPWARD", "FE_TOWARDZERO"};
    auto modes = [](Ctx &c, double d) {
        if (!(d - d == 0)) return;
        std::string w = lexi::lexi(d), wf; float f = float(d); wf = lexi::lexi(f); std::string wn = lexi::lexi(-d);
        for (int m = 0; m < 3; m++) { fesetround(MODE[m]); std::string g = lexi::lexi(d), gf = lexi::lexi(f), gn = lexi::lexi(-d); fesetround(FE_TONEAREST); c.calls(3); if (g != w || gf != wf || gn != wn) c.fail("%a prints as %s / %s / float %s under %s, as %s / %s / float %s under FE_TONEAREST", d, g.c_str(), gn.c_str(), gf.c_str(), MN[m], w.c_str(), wn.c_str(), wf.c_str()); }
        c.outcome(w); c.note("%a -> %s in every rounding mode", d, w.c_str());
    };
    uint64_t rs = T ? 1 : 31;
    r.each("rounding", "every exponent x fractions in steps, both signs, double and float, 4 rounding modes", ef->count() / rs, [ef, rs, modes](Ctx &c, uint64_t i) { modes(c, ef->at(i * rs)); });
    auto np2 = std::make_shared<sp::NearPow>(T ? 100 : 3);
    r.each("rounding-near", "ulp windows around every power of 10 and 2, 4 rounding modes", np2->count(), [np2, modes](Ctx &c, uint64_t i) { double d; if (np2->at(i, d)) modes(c, d); });
    r.each("rounding-hard", "the doubles with the least room for error, 4 rounding modes", hd->count() / hs, [hd, hs, modes](Ctx &c, uint64_t i) { modes(c, hd->at(i * hs)); });
    r.each("rounding-int", "integers in 4 rounding modes", near->count() / 5, [near](Ctx &c, uint64_t i) { uint64_t v = near->at(i * 5); std::string a = lexi::lexi((unsigned long long)v), b = lexi::lexi((long long)v); for (int m = 0; m < 3; m++) { fesetround(MODE[m]); std::string x = lexi::lexi((unsigned long long)v), y = lexi::lexi((long long)v); fesetround(FE_TONEAREST); c.calls(2); if (x != a || y != b) c.fail("%llu prints as %s / %s under %s, want %s / %s", (unsigned long long)v, x.c_str(), y.c_str(), MN[m], a.c_str(), b.c_str()); } c.note("%llu", (unsigned long long)v); });

    if (const char *f = getenv("MC_DIGEST")) {
        int fd = open(f, O_RDWR | O_CREAT | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, off_t(NB * 8))) { perror(f); exit(2); }
        D = static_cast<uint64_t *>(mmap(nullptr, NB * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); if (D == MAP_FAILED) { perror("mmap"); exit(2); }
    }
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c21::setup)
#endif
