// C05: accuracy of printed floats. Comparisons in 113-bit binary128 with an error budget well below the slack.
#include "mc.hpp"
#include "ref.hpp"
#include "fspace.hpp"
#include <quadmath.h>
#include <lexi/lexi.hpp>

namespace c05 {
using mc::Ctx; using mc::show;
typedef __float128 Q;
static const int P10MAX = 400;
struct Pow { Q t[2 * P10MAX + 1]; Pow() { for (int k = -P10MAX; k <= P10MAX; k++) { char b[16]; snprintf(b, sizeof b, "1e%d", k); t[k + P10MAX] = strtoflt128(b, nullptr); } } Q operator()(int k) const { return t[k + P10MAX]; } };
static const Pow &p10() { static Pow p; return p; }

void check(Ctx &c, double v) {
    lexi::FormatFloat f(v);
    c.calls(1); c.outcome(f.data(), f.size());
    c.note("FormatFloat(%a) = %s", v, show(f.string()).c_str());
    ref::Dec d = ref::split(f.data(), f.size());
    if (!d.ok || d.n == 0 || d.n > 19 || d.kk > 330 || d.kk < -330) c.fail("text of %a is %s: not a decimal near the value", v, show(f.string()).c_str());
    uint64_t m = 0; for (int i = 0; i < d.n; i++) m = m * 10 + uint64_t(d.d[i] - '0');
    Q unit = p10()(d.kk - d.n), err = Q(m) * unit - Q(v);     // relative error of the product < 2^-111
    if (err < 0) err = -err;
    uint64_t bits = sp::to_bits(v), frac = bits & 0xFFFFFFFFFFFFFull;
    bool pow2 = (bits >> 52) ? frac == 0 : (frac & (frac - 1)) == 0;
    Q slack = Q(v) * 0x1p-61Q;
    Q lim = pow2 ? unit : unit / 2 + slack;
    // digits d1..dn have no trailing zeros; whole numbers below 10^17 have an implied finer last printed digit, but the
    // half-unit bound for the stripped digits is weaker, so it is the one required of every layout
    if (pow2 ? !(err < lim) : !(err <= lim)) {
        char b[64]; quadmath_snprintf(b, sizeof b, "%.4Qg", err / unit);
        c.fail("%a (%.17g) prints as %s, off by %s units of its last digit", v, v, show(f.string()).c_str(), b);
    }
}
void exact(Ctx &c, double v, const std::string &want) {
    lexi::FormatFloat f(v); c.calls(1); c.outcome(f.data(), f.size());
    c.note("%.17g -> %s", v, show(f.string()).c_str());
    if (f.size() != want.size() || memcmp(f.data(), want.data(), want.size())) c.fail("%a prints as %s, want exactly %s", v, show(f.string()).c_str(), want.c_str());
}
void setup(mc::Run &r) {
    p10();
    fspace::doubles(r, [](Ctx &c, double d) { check(c, d); });
    fspace::floats(r, [](Ctx &c, float f) { if (f > 0) check(c, double(f)); });
    // all decimals m x 10^e, m < 10^6 not a multiple of 10, e >= -4, below 1e15
    uint64_t M = r.san() ? 2000 : 1000000;
    r.each("short-decimals", "every decimal with <= 6 significant digits and <= 4 decimals below 1e15 (complete)", M * 19, [M](Ctx &c, uint64_t i) {
        uint64_t m = i % M; int e = int(i / M) - 4;
        if (m == 0 || m % 10 == 0) return;
        std::string t = ref::udec(m), want;
        if (int(t.size()) + e > 15) return;
        // the decimal as canonical text, by construction
        if (e >= 0) want = t + std::string(size_t(e), '0') + ".0";
        else { size_t k = size_t(-e); std::string z = t.size() <= k ? std::string(k + 1 - t.size(), '0') + t : t; want = z.substr(0, z.size() - k) + "." + z.substr(z.size() - k); }
        double v = strtod(want.c_str(), nullptr);
        exact(c, v, want); exact(c, -v, "-" + want);
    });
    uint64_t W = r.thorough() ? 1ull << 32 : r.san() ? 1 << 12 : 1 << 22;
    r.each("whole", "whole numbers below " + std::to_string(W) + " (complete) and as many below 2^53", W, [](Ctx &c, uint64_t i) {
        exact(c, double(i), i ? ref::udec(i) + ".0" : "0.0");
        uint64_t j = (1ull << 53) - i; exact(c, double(j), ref::udec(j) + ".0");
    });
    uint64_t R = r.san() ? 10 : 20000;
    r.each("whole-near", "whole numbers within " + std::to_string(R) + " of every power of 2 and 10 up to 2^53", (54 + 16) * (2 * R + 1), [R](Ctx &c, uint64_t i) {
        uint64_t k = i / (2 * R + 1); int64_t b; if (k < 54) b = int64_t(1) << k; else { b = 1; for (uint64_t j = 54; j < k; j++) b *= 10; }
        int64_t x = b + int64_t(i % (2 * R + 1)) - int64_t(R);
        if (x <= 0 || x > (int64_t(1) << 53)) return;
        exact(c, double(x), ref::udec(uint64_t(x)) + ".0"); exact(c, -double(x), "-" + ref::udec(uint64_t(x)) + ".0");
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c05::setup)
#endif
