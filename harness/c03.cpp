// C03: the text of every finite float/double denotes the value and has at most 17 significant digits.
#include "mc.hpp"
#include "ref.hpp"
#include "fspace.hpp"
#include <charconv>
#include <cfloat>
#include <cmath>
#include <lexi/lexi.hpp>

namespace c03 {
using mc::Ctx; using mc::show;
// two independent correctly rounded readers; the slow one is consulted when the fast one disagrees
template <class T> bool reads_as(const char *b, size_t n, T v) {
    T x = 0; auto r = std::from_chars(b, b + n, x);
    if (r.ec == std::errc() && r.ptr == b + n) return x == v;
    std::string s(b, n); char *e;
    x = sizeof(T) == 4 ? T(strtof(s.c_str(), &e)) : T(strtod(s.c_str(), &e));
    return e == s.c_str() + n && x == v;
}
template <class T> void check(Ctx &c, T v, const char *tn) {
    lexi::FormatFloat f(v);
    c.calls(1); c.outcome(f.data(), f.size());
    c.note("FormatFloat((%s)%a) = %s", tn, double(v), show(f.string()).c_str());
    if (!reads_as<T>(f.data(), f.size(), v)) c.fail("text of %s %a (%.17g) is %s, which does not denote that value", tn, double(v), double(v), show(f.string()).c_str());
    ref::Dec d = ref::split(f.data(), f.size());
    if (!d.ok || d.n > 17) c.fail("text of %s %a is %s: more than 17 significant digits or malformed", tn, double(v), show(f.string()).c_str());
}
void dbl(Ctx &c, double d) {
    check<double>(c, d, "double"); check<double>(c, -d, "double");
}
void setup(mc::Run &r) {
    fspace::doubles(r, dbl);
    fspace::floats(r, [](Ctx &c, float f) {
        check<float>(c, f, "float");
        lexi::FormatFloat a(f), b{double(f)}, l{(long double)f};
        c.calls(3);
        if (a.string() != b.string() || a.string() != l.string()) c.fail("float %a: as float %s, as double %s, as long double %s", double(f), a.c_str(), b.c_str(), l.c_str());
    });
    // generic entry points and long double (holding a double, or rounding to it) on a thinner space
    auto ef = std::make_shared<sp::ExpFrac>(r.san() ? 0 : 1);
    r.each("long-double", "every exponent x fractions of weight <= 1 etc., as long double, and its neighbours and the neighbours of the midpoints between doubles, through lexi()/string()", ef->count(), [ef](Ctx &c, uint64_t i) {
        double d = ef->at(i); if (d == 0) return;
        std::string want = lexi::FormatFloat(d).string();
        long double l = d;
        c.calls(6);
        std::string a = lexi::FormatFloat(l).string(), b = lexi::lexi(l), s = lexi::string(l), e = lexi::lexi(d), m = lexi::lexi(-l);
        c.note("(long double)%a -> %s", d, a.c_str());
        if (a != want || b != want || s != want || e != want || m != "-" + want) c.fail("long double %a: %s / %s / %s / %s / %s, as double %s", d, a.c_str(), b.c_str(), s.c_str(), m.c_str(), e.c_str(), want.c_str());
        // long doubles that are not doubles: printed as the double they round to. The nudges are taken around the
        // double and around the midpoint to its upper neighbour, where the rounding decides.
        long double up = nextafter(d, INFINITY); if (up - up != 0) up = ldexpl(1.0L, 1024);
        long double mid = (l + up) / 2;
        for (long double z : {l, mid}) for (long double x : {z, nextafterl(z, INFINITY), nextafterl(z, 0)}) for (int neg = 0; neg < 2; neg++) {
            if (neg) x = -x;
            double y = double(x);
            std::string g = lexi::lexi(x), h = lexi::FormatFloat(y).string(), k = lexi::FormatFloat(x).string();
            c.calls(3);
            if (g != h || k != h) c.fail("long double %La prints %s / %s but the double it rounds to, %a, prints %s", x, g.c_str(), k.c_str(), y, h.c_str());
        }
    });
    // beyond the doubles: too large rounds to an infinity, too small to a zero, both like the double
    r.each("long-double-far", "powers of two 2^-16445..2^16383 times 1, 1+ulp, 1.5, 2-ulp, both signs, as long double", 32829ull * 4 * 2, [](Ctx &c, uint64_t i) {
        int e = int(i / 8) - 16445; static const long double M[4] = {1.0L, 1.0L + LDBL_EPSILON, 1.5L, 2.0L - LDBL_EPSILON};
        long double x = ldexpl(M[i / 2 % 4], e); if (i % 2) x = -x;
        double y = double(x);
        std::string g = lexi::lexi(x), k = lexi::FormatFloat(x).string(), h = lexi::FormatFloat(y).string();
        c.calls(3); c.outcome(g.data(), g.size()); c.note("lexi((long double)%La) = %s", x, g.c_str());
        if (g != h || k != h) c.fail("long double %La prints %s / %s but the double it rounds to, %a, prints %s", x, g.c_str(), k.c_str(), y, h.c_str());
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c03::setup)
#endif
