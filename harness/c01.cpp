// C01: lexi<T>(lexi(v)) == v for every type, generic entry points and per-type objects.
#include <cmath>
#include "mc.hpp"
#include "spaces.hpp"
#include "ref.hpp"
#include <lexi/lexi.hpp>

namespace c01 {
using mc::Ctx; using mc::show;

template <class T> std::string val(T v) { return std::is_signed<T>::value ? ref::sdec(int64_t(v)) : ref::udec(uint64_t(v)); }

template <class T> void rt_int(Ctx &c, T v, const char *tn) {
    std::string s = lexi::lexi(v);
    T b = lexi::lexi<T>(s), b2 = lexi::lexi<T>(s.c_str());
    std::string s2 = lexi::FormatInt(v).string();
    T b3 = T(lexi::ExtractInt(s2));
    c.calls(5); c.outcome(s);
    c.note("%s %s -> %s -> %s", tn, val(v).c_str(), show(s).c_str(), val(b).c_str());
    if (b != v || b2 != v) c.fail("lexi<%s>(lexi(%s)): text %s comes back as %s (std::string) / %s (C string)", tn, val(v).c_str(), show(s).c_str(), val(b).c_str(), val(b2).c_str());
    if (b3 != v) c.fail("ExtractInt(FormatInt((%s)%s)): text %s comes back as %s", tn, val(v).c_str(), show(s2).c_str(), val(b3).c_str());
}
inline bool same(double a, double b) { return (a != a) ? (b != b) : a == b; }
template <class T> void rt_flt(Ctx &c, T v, const char *tn) {
    std::string s = lexi::lexi(v);
    T b = lexi::lexi<T>(s);
    lexi::FormatFloat f(v);
    T b3 = T(lexi::ExtractFloat(f.c_str()));
    c.calls(4); c.outcome(s);
    c.note("%s %a -> %s -> %a", tn, double(v), show(s).c_str(), double(b));
    if (!((v != v) ? (b != b) : (b == v))) c.fail("lexi<%s>(lexi(%a)): text %s comes back as %a", tn, double(v), show(s).c_str(), double(b));
    if (!((v != v) ? (b3 != b3) : (b3 == v))) c.fail("ExtractFloat(FormatFloat((%s)%a)): text %s comes back as %a", tn, double(v), show(f.string()).c_str(), double(b3));
}

// a long double holding a double's value is printed like that double: its text gives the double back
void rt_ld(Ctx &c, double d) {
    std::string s = lexi::lexi((long double)d);
    double b = lexi::lexi<double>(s), b2 = double(lexi::ExtractFloat(lexi::FormatFloat((long double)d).string()));
    c.calls(4); c.outcome(s);
    c.note("long double %a -> %s -> %a", d, show(s).c_str(), b);
    if (!same(b, d) || !same(b2, d)) c.fail("lexi<double>(lexi((long double)%a)): text %s comes back as %a / %a", d, show(s).c_str(), b, b2);
    if (d != d || d == 0 || d - d != 0) { long double l = lexi::lexi<long double>(s); if (!((d != d) ? (l != l) : (l == (long double)d))) c.fail("lexi<long double>(lexi((long double)%a)): text %s comes back as %La", d, show(s).c_str(), l); }
}

enum class E8 : int8_t {}; enum class EU8 : uint8_t {}; enum class E16 : short {}; enum E32 : int {}; enum class EU64 : unsigned long long {}; enum class E64 : long long {};
template <class E> void rt_enum(Ctx &c, E v, const char *tn) {
    std::string s = lexi::lexi(v);
    E b = lexi::lexi<E>(s); std::string s2 = lexi::FormatEnum(v).string(); E b2 = E(lexi::ExtractEnum(s2));
    c.calls(4); c.outcome(s);
    c.note("enum %s -> %s", tn, s.c_str());
    if (b != v || b2 != v) c.fail("enum %s: text %s/%s does not come back as the same enumerator (underlying %lld)", tn, show(s).c_str(), show(s2).c_str(), (long long)v);
}

void u64(Ctx &c, uint64_t v) {
    rt_int<unsigned long long>(c, v, "unsigned long long"); rt_int<unsigned long>(c, v, "unsigned long");
    rt_int<long long>(c, (long long)v, "long long"); rt_int<long>(c, (long)v, "long");
    rt_int<unsigned>(c, (unsigned)v, "unsigned"); rt_int<int>(c, (int)v, "int");
    rt_enum<EU64>(c, EU64(v), "unsigned long long"); rt_enum<E64>(c, E64((long long)v), "long long");
    std::streampos p = std::streampos(std::streamoff(v));
    std::string s = lexi::lexi(p); std::streampos q = lexi::lexi<std::streampos>(s);
    c.calls(2);
    if (q != p) c.fail("streampos %lld: text %s comes back as %lld", (long long)v, show(s).c_str(), (long long)std::streamoff(q));
}
void dbl(Ctx &c, double d) {
    rt_flt<double>(c, d, "double"); rt_flt<double>(c, -d, "double");
    rt_ld(c, d);
}

void setup(mc::Run &r) {
    r.each("small", "null, both bools, all 256 chars", 259, [](Ctx &c, uint64_t i) {
        c.calls(2);
        if (i < 256) {
            char ch = char(i);
            std::string s = lexi::lexi(ch); char b = lexi::lexi<char>(s); char b2 = char(lexi::ExtractChar(lexi::FormatChar(ch).string()));
            c.outcome(s); c.note("char %d -> %s -> %d", ch, show(s).c_str(), b);
            if (b != ch || b2 != ch) c.fail("char %d: text %s comes back as %d / %d", ch, show(s).c_str(), b, b2);
        } else if (i < 258) {
            bool v = i == 257; std::string s = lexi::lexi(v); c.outcome(s); c.note("bool %d -> %s", v, s.c_str());
            if (lexi::lexi<bool>(s) != v || bool(lexi::ExtractBool(lexi::FormatBool(v).string())) != v) c.fail("bool %d: text %s comes back different", v, show(s).c_str());
        } else {
            std::string s = lexi::lexi(nullptr); c.outcome(s); c.note("null -> %s", s.c_str());
            if (lexi::lexi<std::nullptr_t>(s) != nullptr || lexi::ExtractNull(lexi::FormatNull().string()).null() != nullptr) c.fail("null does not come back");
        }
    });
    r.each("int8-16", "all values of the 8- and 16-bit types and enums", 65536, [](Ctx &c, uint64_t i) {
        rt_int<short>(c, short(i), "short"); rt_int<unsigned short>(c, (unsigned short)i, "unsigned short");
        rt_int<int8_t>(c, int8_t(i), "int8_t"); rt_int<uint8_t>(c, uint8_t(i), "uint8_t");
        rt_enum<E8>(c, E8(int8_t(i)), "int8_t"); rt_enum<EU8>(c, EU8(uint8_t(i)), "uint8_t"); rt_enum<E16>(c, E16(short(i)), "short");
    });
    if (r.thorough())
        r.each("int32-all", "all 2^32 values of int and unsigned", 1ull << 32, [](Ctx &c, uint64_t i) {
            int v = int(uint32_t(i)); unsigned u = unsigned(i);
            std::string s = lexi::lexi(v), t = lexi::lexi(u);
            c.calls(4);
            if (lexi::lexi<int>(s) != v) c.fail("int %d: text %s comes back as %d", v, show(s).c_str(), lexi::lexi<int>(s));
            if (lexi::lexi<unsigned>(t) != u) c.fail("unsigned %u: text %s comes back as %u", u, show(t).c_str(), lexi::lexi<unsigned>(t));
        }, 1 << 22);
    uint64_t blk = r.san() ? 1 << 12 : 1 << 21;
    r.each("int32-block", "all |v| < 2^20 for int, [0,2^21) for unsigned", blk, [blk](Ctx &c, uint64_t i) {
        rt_int<int>(c, int(i) - int(blk / 2), "int"); rt_int<unsigned>(c, unsigned(i), "unsigned"); rt_enum<E32>(c, E32(int(i) - int(blk / 2)), "int");
    });
    auto near = std::make_shared<sp::NearInts>(r.san() ? 20 : 1000);
    r.each("int64-near", "windows around every power of 2 and 10 and every limit", near->count(), [near](Ctx &c, uint64_t i) { u64(c, near->at(i)); });
    r.each("int64-groups", "all pairs of two-digit groups over 4 backgrounds", sp::GroupInts().count() / (r.san() ? 50 : 1), [](Ctx &c, uint64_t i) { uint64_t v; if (sp::GroupInts().at(i, v)) { u64(c, v); u64(c, 0 - v); } });
    r.each("float-special", "NaN payloads of small weight, infinities, zeros, both signs", 108, [](Ctx &c, uint64_t i) {
        uint64_t sgn = i & 1 ? 1ull << 63 : 0; i >>= 1;
        double d = i == 0 ? sp::from_bits(sgn) : i == 1 ? sp::from_bits(sgn | 0x7FF0000000000000ull) : sp::from_bits(sgn | 0x7FF0000000000000ull | 1ull << (i - 2));
        rt_flt<double>(c, d, "double"); rt_flt<float>(c, float(d), "float"); rt_ld(c, d);
    });
    auto ef = std::make_shared<sp::ExpFrac>(r.thorough() ? 3 : r.san() ? 0 : 2);
    r.each("double-exp-frac", r.thorough() ? "every exponent x fractions of weight <= 3, complements, runs, edge bytes" : "every exponent x fractions of weight <= 2, complements, runs, edge bytes", ef->count(), [ef](Ctx &c, uint64_t i) { dbl(c, ef->at(i)); });
    auto np = std::make_shared<sp::NearPow>(r.san() ? 2 : 100);
    r.each("double-near-pow", "ulp windows around every power of 10 and 2", np->count(), [np](Ctx &c, uint64_t i) { double d; if (np->at(i, d)) dbl(c, d); });
    sp::Decimals dec{r.san() ? 12u : 1000u, -330, 308};
    r.each("double-decimals", "all m x 10^e with m < 1000 and their neighbours", dec.count(), [dec](Ctx &c, uint64_t i) {
        double d = dec.at(i); dbl(c, d); if (d > 0 && d - d == 0) { dbl(c, std::nextafter(d, 0.0)); dbl(c, -std::nextafter(d, 2 * d)); }
    });
    sp::LongDecimals ld{r.thorough() ? 3ull : r.san() ? 9001ull : 83ull};
    r.each("double-long-decimals", "decimals of up to 16 digits: pairs of two-digit groups over 4 backgrounds in steps of " + std::to_string(ld.step) + ", the point at every place, and their neighbours", ld.count(), [ld](Ctx &c, uint64_t i) {
        double d; if (ld.at(i, d)) { dbl(c, d); dbl(c, std::nextafter(d, 0.0)); dbl(c, std::nextafter(d, 2 * d)); }
    });
    sp::Decimals fd{r.san() ? 12u : 3000u, -50, 38};
    r.each("float-decimals", "the floats nearest to m x 10^e and one on each side", fd.count(), [fd](Ctx &c, uint64_t i) {
        float f = strtof(fd.text(i).c_str(), nullptr); rt_flt<float>(c, f, "float"); rt_flt<float>(c, nextafterf(f, 0.0f), "float"); rt_flt<float>(c, -nextafterf(f, 1e38f), "float");
    });
    auto hd = std::make_shared<sp::Hard>();
    r.each("double-hard", "for every exponent and 5..19 digits: the doubles whose value or rounding boundary is nearest to a decimal or a half-way point", hd->count(), [hd](Ctx &c, uint64_t i) { dbl(c, hd->at(i)); });
    sp::FloatsP fp{r.thorough() ? 23 : r.san() ? 4 : 13};
    r.each("float-prec", r.thorough() ? "all 2^32 floats" : "all floats with <= 13 leading fraction bits, both signs", fp.count(), [fp](Ctx &c, uint64_t i) { rt_flt<float>(c, fp.at(i), "float"); });
    auto ff = std::make_shared<std::vector<uint64_t>>(sp::fractions(23, r.san() ? 1 : 4));
    r.each("float-exp-frac", "every float exponent x fractions of weight <= 4, complements, runs", 255 * ff->size(), [ff](Ctx &c, uint64_t i) { rt_flt<float>(c, sp::from_bits32(uint32_t(i / ff->size()) << 23 | uint32_t((*ff)[i % ff->size()])), "float"); });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c01::setup)
#endif
