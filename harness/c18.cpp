// C18: the power-of-ten table (complete: 309 entries), against three independent readers.
#include "mc.hpp"
#include "spaces.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <charconv>
#include <cmath>
#include <lexi/detail/pow.hpp>

namespace c18 {
using mc::Ctx;
// nearest double to 10^n by exact integer arithmetic (ties to even)
inline double exact(int n) {
    typedef boost::multiprecision::cpp_int Z; Z z = boost::multiprecision::pow(Z(10), unsigned(n));
    unsigned b = boost::multiprecision::msb(z); if (b <= 52) return double(uint64_t(z));
    unsigned sh = b - 52; Z q = z >> sh, rem = z - (q << sh), half = Z(1) << (sh - 1);
    if (rem > half || (rem == half && (q & 1) != 0)) q += 1;
    return std::ldexp(double(uint64_t(q)), int(sh));
}
void setup(mc::Run &r) {
    r.each("table", "all 309 exponents (complete)", 309, [](Ctx &c, uint64_t i) {
        int n = int(i); double g = lexi::detail::pow10(n), w = exact(n), p = 0;
        std::string t = "1e" + std::to_string(n); std::from_chars(t.data(), t.data() + t.size(), p);
        c.calls(1); c.outcome(sp::to_bits(g)); c.note("pow10(%d) = %a", n, g);
        if (w != p || w != strtod(t.c_str(), nullptr)) c.fail("reference readers disagree on %s", t.c_str());
        if (g != w) c.fail("pow10(%d) = %a, nearest double to 10^%d is %a", n, g, n, w);
    });
    r.each("repeat", "every ordered pair of exponents: the lookup does not depend on the previous one", 309ull * 309, [](Ctx &c, uint64_t i) {
        int a = int(i / 309), b = int(i % 309); double x = lexi::detail::pow10(a), y = lexi::detail::pow10(b), x2 = lexi::detail::pow10(a); c.calls(3);
        c.note("pow10(%d), pow10(%d)", a, b);
        if (x != x2 || (a < b) != (x < y)) c.fail("pow10(%d) = %a then %a, pow10(%d) = %a", a, x, x2, b, y);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c18::setup)
#endif
