// C02: integer formatting equals the canonical decimal, for every type.
#include "mc.hpp"
#include "spaces.hpp"
#include "ref.hpp"
#include <lexi/lexi.hpp>

namespace c02 {
using mc::Ctx; using mc::show;

inline void cmp(Ctx &c, const lexi::FormatInt &f, const std::string &want, const char *tn) {
    c.calls(1);
    c.note("FormatInt((%s)%s) = %s", tn, want.c_str(), show(f.string()).c_str());
    if (f.size() != want.size() || memcmp(f.data(), want.data(), want.size()) != 0)
        c.fail("FormatInt of %s %s is %s", tn, want.c_str(), show(f.string()).c_str());
}
void u64(Ctx &c, uint64_t v) {
    std::string u = ref::udec(v), s = ref::sdec(int64_t(v));
    c.outcome(u);
    cmp(c, lexi::FormatInt((unsigned long long)v), u, "unsigned long long");
    cmp(c, lexi::FormatInt((unsigned long)v), u, "unsigned long");
    cmp(c, lexi::FormatInt((long long)v), s, "long long");
    cmp(c, lexi::FormatInt((long)v), s, "long");
    if (lexi::lexi((long long)v) != s || lexi::lexi((unsigned long long)v) != u || lexi::lexi((long)v) != s || lexi::lexi((unsigned long)v) != u)
        c.fail("lexi(%s / %s) is %s / %s / %s / %s", s.c_str(), u.c_str(), lexi::lexi((long long)v).c_str(), lexi::lexi((unsigned long long)v).c_str(), lexi::lexi((long)v).c_str(), lexi::lexi((unsigned long)v).c_str());
    c.calls(4);
}
void setup(mc::Run &r) {
    r.each("int8-16", "all values of all 8- and 16-bit types, through every wider type as well", 65536, [](Ctx &c, uint64_t i) {
        std::string s = ref::sdec(short(i)), u = ref::udec((unsigned short)i), s8 = ref::sdec(int8_t(i)), u8 = ref::udec(uint8_t(i));
        c.outcome(s);
        cmp(c, lexi::FormatInt(short(i)), s, "short"); cmp(c, lexi::FormatInt((unsigned short)i), u, "unsigned short");
        cmp(c, lexi::FormatInt(int8_t(i)), s8, "int8_t"); cmp(c, lexi::FormatInt(uint8_t(i)), u8, "uint8_t");
        cmp(c, lexi::FormatInt(int(short(i))), s, "int"); cmp(c, lexi::FormatInt(long(short(i))), s, "long"); cmp(c, lexi::FormatInt((long long)short(i)), s, "long long");
        cmp(c, lexi::FormatInt(unsigned((unsigned short)i)), u, "unsigned"); cmp(c, lexi::FormatInt((unsigned long)(unsigned short)i), u, "unsigned long");
        if (lexi::lexi(short(i)) != s || lexi::lexi((unsigned short)i) != u || lexi::lexi((signed char)i) != s8 || lexi::lexi((unsigned char)i) != u8)
            c.fail("lexi of 8/16-bit value %llu: short %s ushort %s schar %s uchar %s", (unsigned long long)i, lexi::lexi(short(i)).c_str(), lexi::lexi((unsigned short)i).c_str(), lexi::lexi((signed char)i).c_str(), lexi::lexi((unsigned char)i).c_str());
        c.calls(4);
    });
    uint64_t n32 = r.san() ? 1 << 14 : 1ull << 32;
    r.range("uint32", "all 2^32 values of unsigned int", n32, [](Ctx &c, uint64_t lo, uint64_t hi) {
        ref::Counter k(lo);
        for (uint64_t i = lo; i < hi; i++, k.inc()) {
            c.at(i);
            lexi::FormatInt f((unsigned int)i);
            if (__builtin_expect(f.size() != k.len() || memcmp(f.data(), k.p(), k.len()) != 0 || c.verbose, 0)) cmp(c, f, ref::udec(i), "unsigned int");
            if ((i & 0xff) == 0) c.outcome(f.data(), f.size());
        }
        c.calls(hi - lo);
    }, 1 << 22);
    r.range("int32", "all 2^32 values of int", n32, [](Ctx &c, uint64_t lo, uint64_t hi) {
        // index i <-> value: i < 2^31: i;  otherwise -(i - 2^31) - 1
        for (int part = 0; part < 2; part++) {
            uint64_t a = part ? std::max(lo, uint64_t(1) << 31) : lo, b = part ? hi : std::min(hi, uint64_t(1) << 31);
            if (a >= b) continue;
            ref::Counter k(part ? a - (1ull << 31) + 1 : a);
            for (uint64_t i = a; i < b; i++, k.inc()) {
                c.at(i);
                int v = part ? int(-int64_t(i - (1ull << 31)) - 1) : int(i);
                lexi::FormatInt f(v);
                size_t o = size_t(part);
                if (__builtin_expect(f.size() != k.len() + o || (part && f.data()[0] != '-') || memcmp(f.data() + o, k.p(), k.len()) != 0 || c.verbose, 0)) cmp(c, f, ref::sdec(v), "int");
                if ((i & 0xff) == 0) c.outcome(f.data(), f.size());
            }
        }
        c.calls(hi - lo);
    }, 1 << 22);
    auto near = std::make_shared<sp::NearInts>(r.san() ? 20 : r.thorough() ? 100000 : 5000);
    r.each("int64-near", "windows around every power of 2 and 10 and every limit, all 64-bit types", near->count(), [near](Ctx &c, uint64_t i) { u64(c, near->at(i)); });
    r.each("int64-groups", "all pairs of two-digit groups over 4 backgrounds, both signs", sp::GroupInts().count() / (r.san() ? 50 : 1), [](Ctx &c, uint64_t i) { uint64_t v; if (sp::GroupInts().at(i, v)) { u64(c, v); u64(c, 0 - v); } });
    if (r.thorough()) r.each("int64-groups3", "all triples of two-digit groups over 2 backgrounds", sp::GroupInts3().count(), [](Ctx &c, uint64_t i) { uint64_t v; if (sp::GroupInts3().at(i, v)) u64(c, v); }, 1 << 18);
    if (!r.san()) r.range("int64-eights", "complete: each of the two lower eight-digit groups takes all 10^8 values, over 4 backgrounds of the others, both signs", 8ull * 100000000ull, [](Ctx &c, uint64_t lo, uint64_t hi) {
        const uint64_t T8 = 100000000ull; c.calls(hi - lo);
        static const uint64_t UP[4] = {1, 99999999, T8 * 7 + 9, T8 * 922 + 10203040}, TOP[4] = {0, 5, 40, 921}, LOW[4] = {0, 99999999, 7, 90807060};
        while (lo < hi) {
            uint64_t blk = lo / T8, end = std::min(hi, (blk + 1) * T8), x = lo % T8; unsigned b = unsigned(blk % 4);
            ref::Counter k(blk < 4 ? UP[b] * T8 + x : TOP[b] * T8 + x); std::string tail = ref::udec(LOW[b]); tail = std::string(8 - tail.size(), '0') + tail;
            for (; lo < end; lo++, x++, k.inc()) {
                c.at(lo); uint64_t v = blk < 4 ? UP[b] * T8 + x : (TOP[b] * T8 + x) * T8 + LOW[b];
                bool bad;
                if (lo & 1) { lexi::FormatInt f(-(long long)v); bad = blk < 4 ? f.size() != k.len() + 1 || memcmp(f.data() + 1, k.p(), k.len()) != 0 || (v && f.data()[0] != '-') : TOP[b] * T8 + x && (f.size() != k.len() + 9 || f.data()[0] != '-' || memcmp(f.data() + 1, k.p(), k.len()) != 0 || memcmp(f.data() + 1 + k.len(), tail.data(), 8) != 0); }
                else { lexi::FormatInt f((unsigned long long)v); bad = blk < 4 ? f.size() != k.len() || memcmp(f.data(), k.p(), k.len()) != 0 : TOP[b] * T8 + x && (f.size() != k.len() + 8 || memcmp(f.data(), k.p(), k.len()) != 0 || memcmp(f.data() + k.len(), tail.data(), 8) != 0); }
                if (__builtin_expect(bad || c.verbose || (lo & 0xffff) == 0, 0)) u64(c, v), u64(c, 0 - v);
            }
        }
    }, 1 << 21);
    // low 32 bits exhaustive in steps with varying high word: each 16-bit half over each other half's edge values
    r.each("int64-halves", "each 16-bit quarter takes every value, others over {0,1,0x7fff,0x8000,0xffff}", 4ull * 65536 * 125 / (r.san() ? 2000 : 1), [](Ctx &c, uint64_t i) {
        static const uint64_t E[5] = {0, 1, 0x7fff, 0x8000, 0xffff};
        uint64_t q = i & 3; i >>= 2; uint64_t x = i & 0xffff; i >>= 16;
        uint64_t v = 0; for (uint64_t k = 0; k < 4; k++) { uint64_t w; if (k == q) w = x; else { w = E[i % 5]; i /= 5; } v |= w << (16 * k); }
        u64(c, v);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c02::setup)
#endif
