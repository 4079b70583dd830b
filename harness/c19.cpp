// C19: classification predicates, over the IEEE 754 encoding.
#include "mc.hpp"
#include "spaces.hpp"
#include <cmath>
#include <lexi/detail/ieee754.hpp>

namespace c19 {
using mc::Ctx;
namespace D = lexi::detail;
inline void check(Ctx &c, uint64_t b) {
    volatile double vd = sp::from_bits(b); const double d = vd;   // passed through SSE registers: payload bits are kept
    uint64_t e = b >> 52 & 0x7ff, f = b & 0xFFFFFFFFFFFFFull; bool s = b >> 63;
    bool nan = e == 0x7ff && f, inf = e == 0x7ff && !f, fin = e != 0x7ff, zero = !e && !f;
    c.calls(7);
    unsigned got = unsigned(D::isNan(d)) | unsigned(D::isInf(d)) << 1 | unsigned(D::isInfinity(d)) << 2 | unsigned(D::isNegativeInfinity(d)) << 3 | unsigned(D::isFinite(d)) << 4 | unsigned(D::isZero(d)) << 5 | unsigned(D::isPositive(d)) << 6;
    unsigned want = unsigned(nan) | unsigned(inf) << 1 | unsigned(inf && !s) << 2 | unsigned(inf && s) << 3 | unsigned(fin) << 4 | unsigned(zero) << 5 | unsigned(!s) << 6;
    c.note("%016llx (%g): %02x", (unsigned long long)b, d, got);
    if (got != want) c.fail("bit pattern %016llx (%g): nan %d inf %d +inf %d -inf %d finite %d zero %d positive %d; want %d %d %d %d %d %d %d", (unsigned long long)b, d, got & 1, got >> 1 & 1, got >> 2 & 1, got >> 3 & 1, got >> 4 & 1, got >> 5 & 1, got >> 6 & 1, want & 1, want >> 1 & 1, want >> 2 & 1, want >> 3 & 1, want >> 4 & 1, want >> 5 & 1, want >> 6 & 1);
    c.outcome(b);
}
void setup(mc::Run &r) {
    int w = r.thorough() ? 4 : r.san() ? 1 : 2;
    auto f = std::make_shared<std::vector<uint64_t>>(sp::fractions(52, w));
    r.each("exp-frac", "both signs x all 2048 exponents x fractions of weight <= " + std::to_string(w) + ", complements, runs, edge bytes", 4096ull * f->size(), [f](Ctx &c, uint64_t i) { check(c, (i / f->size()) << 52 | (*f)[i % f->size()]); });
    auto f3 = std::make_shared<std::vector<uint64_t>>(sp::fractions(52, r.san() ? 1 : 4));
    r.each("extreme", "both signs x exponents 0, 1, 1023, 2046, 2047 x fractions of weight <= 4", 10ull * f3->size(), [f3](Ctx &c, uint64_t i) { static const uint64_t E[5] = {0, 1, 1023, 2046, 2047}; uint64_t k = i / f3->size(); check(c, (k & 1) << 63 | E[k >> 1] << 52 | (*f3)[i % f3->size()]); });
    r.each("quarters", "each 16-bit quarter takes every value, the others over {0, 1, 0x7ff0, 0x8000, 0xfff0, 0xffff}", 4ull * 65536 * 216 / (r.san() ? 500 : 1), [](Ctx &c, uint64_t i) {
        static const uint64_t E[6] = {0, 1, 0x7ff0, 0x8000, 0xfff0, 0xffff}; uint64_t q = i & 3; i >>= 2; uint64_t x = i & 0xffff; i >>= 16; uint64_t v = 0;
        for (uint64_t k = 0; k < 4; k++) { uint64_t w; if (k == q) w = x; else { w = E[i % 6]; i /= 6; } v |= w << (16 * k); }
        check(c, v);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c19::setup)
#endif
