// The structured float/double space shared by C03, C04 and C05.
#pragma once
#include "mc.hpp"
#include "spaces.hpp"
#include <memory>

namespace fspace {
// visit(ctx, double) for every positive finite double of the space
template <class V> void doubles(mc::Run &r, V visit) {
    using mc::Ctx;
    auto ef = std::make_shared<sp::ExpFrac>(r.thorough() ? 4 : r.san() ? 1 : 2);
    r.each("double-exp-frac", r.thorough() ? "every exponent x fractions of weight <= 4, complements, runs, edge bytes" : "every exponent x fractions of weight <= 2, complements, runs, edge bytes", ef->count(), [ef, visit](Ctx &c, uint64_t i) { double d = ef->at(i); if (d != 0) visit(c, d); });
    auto np = std::make_shared<sp::NearPow>(r.thorough() ? 20000 : r.san() ? 5 : 600);
    r.each("double-near-pow", r.thorough() ? "+-20000 ulps around every power of 10 and 2" : "+-600 ulps around every power of 10 and 2", np->count(), [np, visit](Ctx &c, uint64_t i) { double d; if (np->at(i, d)) visit(c, d); });
    uint64_t M = r.thorough() ? 100000 : r.san() ? 20 : 3000;
    auto dec = sp::Decimals{M, -330, 308};
    r.each("double-decimals", "all m x 10^e, m < " + std::to_string(M) + ", -330 <= e <= 308, and their neighbours (3 on each side for -25 <= e <= 25)", dec.count(), [dec, M, visit](Ctx &c, uint64_t i) {
        double d = dec.at(i); if (!(d > 0 && d - d == 0)) return;
        int e = -330 + int(i / (M - 1)); int64_t b = int64_t(sp::to_bits(d)), n = e >= -25 && e <= 25 ? 3 : 1;
        for (int64_t k = -n; k <= n; k++) if (b + k > 0 && b + k < 0x7FF0000000000000ll) visit(c, sp::from_bits(uint64_t(b + k)));
    });
    sp::LongDecimals ld{r.thorough() ? 1ull : r.san() ? 5003ull : 43ull};
    r.each("double-long-decimals", "decimals of up to 16 digits: pairs of two-digit groups over 4 backgrounds in steps of " + std::to_string(ld.step) + ", the point at every place, and their neighbours", ld.count(), [ld, visit](Ctx &c, uint64_t i) {
        double d; if (!ld.at(i, d)) return; int64_t b = int64_t(sp::to_bits(d)); for (int64_t k = -1; k <= 1; k++) visit(c, sp::from_bits(uint64_t(b + k)));
    });
    uint64_t W = r.thorough() ? 1u << 24 : r.san() ? 1u << 10 : 1u << 20;
    r.each("double-integers", "all whole numbers below " + std::to_string(W) + ", as such and scaled by 2^-10, 2^40", W - 1, [visit](Ctx &c, uint64_t i) { double d = double(i + 1); visit(c, d); visit(c, d / 1024); visit(c, d * 1099511627776.0); });
    auto hd = std::make_shared<sp::Hard>();
    r.each("double-hard", "for every exponent and 5..19 digits: the doubles whose value or rounding boundary is nearest to a decimal or a half-way point", hd->count(), [hd, visit](Ctx &c, uint64_t i) { visit(c, hd->at(i)); });
    // long significands: every leading 8 bits x every trailing 8 bits x 3 middles, every 7th exponent (all in thorough)
    int step = r.thorough() ? 1 : r.san() ? 331 : 29;
    uint64_t ne = uint64_t(2046 / step + 1);
    r.each("double-edges", "leading byte x trailing byte x 3 middles, exponents in steps of " + std::to_string(step), ne * 65536 * 3, [visit, step](Ctx &c, uint64_t i) {
        uint64_t lo = i & 255, hi = i >> 8 & 255, k = i >> 16, mid = k % 3, e = k / 3 * uint64_t(step);
        if (e > 2046) return;
        static const uint64_t MID[3] = {0, 0x123456789ull, 0xFFFFFFFFFull};
        uint64_t b = e << 52 | hi << 44 | MID[mid] << 8 | lo;
        if (b) visit(c, sp::from_bits(b));
    });
}
template <class V> void floats(mc::Run &r, V visit) {
    using mc::Ctx;
    sp::FloatsP fp{r.thorough() ? 23 : r.san() ? 4 : 12};
    r.each("float-prec", r.thorough() ? "all 2^32 float bit patterns that are finite" : "all finite floats with <= 12 leading fraction bits, both signs", fp.count(), [fp, visit](Ctx &c, uint64_t i) { float f = fp.at(i); if (f - f == 0) visit(c, f); });
    uint64_t FM = r.thorough() ? 100000 : r.san() ? 20 : 6000; auto fd = sp::Decimals{FM, -50, 38};
    r.each("float-decimals", "the floats nearest to m x 10^e, m < " + std::to_string(FM) + ", -50 <= e <= 38, and 2 on each side", fd.count(), [fd, visit](Ctx &c, uint64_t i) {
        float f = strtof(fd.text(i).c_str(), nullptr); if (!(f > 0 && f - f == 0)) return; int64_t b = int64_t(sp::to_bits32(f));
        for (int64_t k = -2; k <= 2; k++) if (b + k > 0 && b + k < 0x7F800000ll) visit(c, sp::from_bits32(uint32_t(b + k)));
    });
    auto ff = std::make_shared<std::vector<uint64_t>>(sp::fractions(23, r.san() ? 1 : 3));
    r.each("float-exp-frac", "every float exponent x fractions of weight <= 3, complements, runs, both signs", 2 * 255 * ff->size(), [ff, visit](Ctx &c, uint64_t i) {
        uint32_t s = i & 1 ? 0x80000000u : 0; i >>= 1;
        visit(c, sp::from_bits32(s | uint32_t(i / ff->size()) << 23 | uint32_t((*ff)[i % ff->size()])));
    });
}
}
