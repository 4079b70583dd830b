// C20: DiyFp represents, normalises, multiplies and bounds doubles exactly (128-bit integer oracle).
#include "mc.hpp"
#include "spaces.hpp"
#include <cmath>
#include <lexi/detail/diyfp.hpp>

namespace c20 {
using mc::Ctx; typedef lexi::detail::DiyFp Fp; typedef unsigned __int128 u128;
// f * 2^e == g * 2^h
inline bool same(u128 f, int e, u128 g, int h) {
    if (f == 0 || g == 0) return f == g;
    while (!(f & 1)) { f >>= 1; e++; } while (!(g & 1)) { g >>= 1; h++; }
    return f == g && e == h;
}
inline void check(Ctx &c, double d) {
    uint64_t b = sp::to_bits(d), be = b >> 52, fr = b & 0xFFFFFFFFFFFFFull; uint64_t m = be ? fr | 1ull << 52 : fr; int x = be ? int(be) - 1075 : -1074;
    Fp v(d); c.calls(1); c.outcome(b); c.note("DiyFp(%a) = %llx * 2^%d", d, (unsigned long long)v.f, v.e);
    if (!same(v.f, v.e, m, x)) c.fail("DiyFp(%a) = 0x%llx * 2^%d", d, (unsigned long long)v.f, v.e);
    if (d == 0) return;
    Fp n = v.normalize(); c.calls(2);
    if (!same(n.f, n.e, m, x) || !(n.f >> 63)) c.fail("DiyFp(%a).normalize() = 0x%llx * 2^%d", d, (unsigned long long)n.f, n.e);
    Fp p, q; v.normalizedBoundaries(&q, &p);
    bool closer = be != 0 && fr == 0;
    if (!same(p.f, p.e, u128(m) * 2 + 1, x - 1) || !(p.f >> 63)) c.fail("upper boundary of %a is 0x%llx * 2^%d", d, (unsigned long long)p.f, p.e);
    if (!(closer ? same(q.f, q.e, u128(m) * 4 - 1, x - 2) : same(q.f, q.e, u128(m) * 2 - 1, x - 1)) || q.e != p.e) c.fail("lower boundary of %a is 0x%llx * 2^%d (upper exponent %d)", d, (unsigned long long)q.f, q.e, p.e);
    // the boundary form of a normalised value, and the distance of the boundaries
    Fp nb = Fp(m * 2 + 1, x - 1).normalizeBoundary(); c.calls(2);
    if (!same(nb.f, nb.e, u128(m) * 2 + 1, x - 1) || !(nb.f >> 63)) c.fail("normalizeBoundary of 0x%llx * 2^%d is 0x%llx * 2^%d", (unsigned long long)(m * 2 + 1), x - 1, (unsigned long long)nb.f, nb.e);
    Fp dist = p - q; if (dist.f != p.f - q.f || dist.e != p.e) c.fail("distance of the boundaries of %a is 0x%llx * 2^%d", d, (unsigned long long)dist.f, dist.e);
}
inline void mul(Ctx &c, uint64_t a, int ea, uint64_t b, int eb) {
    Fp g = Fp(a, ea) * Fp(b, eb); u128 p = u128(a) * b; uint64_t w = uint64_t(p >> 64) + (uint64_t(p) >> 63);
    c.calls(1); c.note("0x%llx * 0x%llx = 0x%llx", (unsigned long long)a, (unsigned long long)b, (unsigned long long)g.f);
    if (g.f != w || g.e != ea + eb + 64) c.fail("(0x%llx * 2^%d) * (0x%llx * 2^%d) = 0x%llx * 2^%d, want 0x%llx * 2^%d", (unsigned long long)a, ea, (unsigned long long)b, eb, (unsigned long long)g.f, g.e, (unsigned long long)w, ea + eb + 64);
    c.outcome(g.f);
}
void setup(mc::Run &r) {
    auto ef = std::make_shared<sp::ExpFrac>(r.thorough() ? 3 : r.san() ? 1 : 2);
    r.each("doubles", "every exponent x fractions of small weight, complements, runs, edge bytes", ef->count(), [ef](Ctx &c, uint64_t i) { check(c, ef->at(i)); });
    auto np = std::make_shared<sp::NearPow>(r.san() ? 3 : 300);
    r.each("near-pow", "ulp windows around every power of 10 and 2", np->count(), [np](Ctx &c, uint64_t i) { double d; if (np->at(i, d)) check(c, d); });
    auto w = std::make_shared<std::vector<uint64_t>>(); { for (uint64_t f : sp::fractions(64, 2)) if (f >> 63) w->push_back(f); if (r.san()) { std::vector<uint64_t> t; for (size_t i = 0; i < w->size(); i += 40) t.push_back((*w)[i]); *w = t; } }
    uint64_t n = w->size();
    r.each("products", "all pairs of " + std::to_string(n) + " normalised significands (weight <= 2, complements, runs, edge bytes)", n * n, [w, n](Ctx &c, uint64_t i) { mul(c, (*w)[i / n], int(i % 61) - 30, (*w)[i % n], int(i % 37) - 1000); });
    // products whose low word is just around the rounding boundary 2^63
    r.each("rounding", "products with a low word within 64 of 2^63, for odd multipliers", (r.san() ? 200ull : 20000ull) * 129, [](Ctx &c, uint64_t i) {
        uint64_t a = 0x8000000000000001ull + (i / 129) * 0x123456789ABCDull * 2; a |= 1ull << 63 | 1; uint64_t t = (1ull << 63) + i % 129 - 64;
        uint64_t inv = a; for (int k = 0; k < 6; k++) inv *= 2 - a * inv;         // a^-1 mod 2^64
        uint64_t b = t * inv; if (!(b >> 63)) return;                            // a*b = t mod 2^64
        mul(c, a, 0, b, -5);
    });
    r.each("misc", "explicit construction and default value", 1, [](Ctx &c, uint64_t) { Fp z; Fp k(0x123456789ull, -77); c.calls(2); if (z.f != 0 || z.e != 0 || k.f != 0x123456789ull || k.e != -77) c.fail("DiyFp construction is wrong"); Fp s = Fp(100, 3) - Fp(58, 3); if (s.f != 42 || s.e != 3) c.fail("DiyFp subtraction gives %llu * 2^%d", (unsigned long long)s.f, s.e); });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c20::setup)
#endif
