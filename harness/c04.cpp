// C04: float text layout.
#include "mc.hpp"
#include "ref.hpp"
#include "fspace.hpp"
#include <lexi/lexi.hpp>

namespace c04 {
using mc::Ctx; using mc::show;
void text(Ctx &c, const char *p, size_t n, double v) {
    ref::Dec d = ref::split(p, n);
    std::string t(p, n);
    if (!d.ok || d.n == 0 || d.neg != (v < 0)) c.fail("text of %a is %s: not a signed decimal of that value's sign", v, show(t).c_str());
    std::string want = ref::layout(d);
    if (t != want) c.fail("text of %a (%.17g) is %s; the same digits in canonical layout are %s", v, v, show(t).c_str(), show(want).c_str());
}
template <class T> void check(Ctx &c, T v) {
    lexi::FormatFloat f(v);
    c.calls(1); c.outcome(f.data(), f.size());
    c.note("FormatFloat(%a) = %s", double(v), show(f.string()).c_str());
    text(c, f.data(), f.size(), double(v));
    // layout must be the one of the value, not only of the digits printed: the digits denote the value, so the
    // decade they fall in decides; check it independently on the value itself
    double a = v < 0 ? -double(v) : double(v);
    bool expo = memchr(f.data(), 'e', f.size()) != nullptr, want = !(a >= 1e-6 && a < 1e21);
    if (expo != want) c.fail("%a (%.17g) prints as %s: positional notation is for 1e-6 <= |v| < 1e21", double(v), double(v), show(f.string()).c_str());
}
void setup(mc::Run &r) {
    fspace::doubles(r, [](Ctx &c, double d) { check(c, d); check(c, -d); });
    fspace::floats(r, [](Ctx &c, float f) { if (f != 0) check(c, f); });
    // digit counts x decimal exponents: d repeated n times, every n in 1..17, every decimal exponent
    r.each("digits-x-exponent", "1..17 equal digits d (and 1..d, 10..0d) x every decimal exponent, both signs", 9ull * 17 * 3 * 634, [](Ctx &c, uint64_t i) {
        int d = 1 + int(i % 9); i /= 9; int n = 1 + int(i % 17); i /= 17; int kind = int(i % 3); i /= 3; int e = int(i) - 324;
        std::string s;
        for (int k = 0; k < n; k++) s += char('0' + (kind == 0 ? d : kind == 1 ? (k + 1) % 10 : (k == 0 ? 1 : k == n - 1 ? d : 0)));
        s = s.substr(0, 1) + "." + s.substr(1) + "e" + std::to_string(e);
        double v = strtod(s.c_str(), nullptr);
        if (v == 0 || v - v != 0) return;
        check(c, v); check(c, -v);
        std::string a = lexi::lexi(v), b = lexi::jsonify(v), g = lexi::escape(v), h = lexi::lexi((long double)v); c.calls(4);
        if (a != b || a != g || a != h || a != lexi::FormatFloat(v).string()) c.fail("%a: lexi %s, jsonify %s, escape %s, long double %s", v, a.c_str(), b.c_str(), g.c_str(), h.c_str());
    });
    auto fr = std::make_shared<std::vector<uint64_t>>(sp::fractions(52, r.san() ? 1 : 3));
    auto special = [](Ctx &c, double d, const std::string &want, const std::string &alt, const char *what) {
        std::string v[6] = {lexi::FormatFloat(d).string(), lexi::lexi(d), lexi::FormatFloat(float(d)).string(), lexi::lexi(float(d)), lexi::FormatFloat((long double)d).string(), lexi::lexi((long double)d)};
        c.calls(6); c.outcome(v[0]); c.note("%s -> %s", what, v[0].c_str());
        for (auto &s : v) if (s != want && s != alt) c.fail("%s %a prints as %s (or one of its float/long double forms does), want %s", what, d, show(s).c_str(), want.c_str());
    };
    r.each("nan", "NaN payloads: all of weight <= 3, complements, runs, both signs, double/float/long double", 2 * fr->size(), [fr, special](Ctx &c, uint64_t i) {
        uint64_t p = (*fr)[i >> 1]; if (p == 0) return;
        special(c, sp::from_bits((i & 1 ? 1ull << 63 : 0) | 0x7FF0000000000000ull | p), "NaN", "NaN", "NaN");
    });
    r.each("float-nan", "all float NaN payloads, both signs", r.san() ? 100 : 1u << 20, [](Ctx &c, uint64_t i) {
        uint32_t b = 0x7F800000u | (i & 1 ? 0x80000000u : 0) | (uint32_t(i >> 1) << 4 & 0x7FFFFFu) | 1u; float f = sp::from_bits32(b);
        c.calls(1); c.note("float NaN %08x", b);
        if (lexi::lexi(f) != "NaN") c.fail("float NaN %08x prints as %s", b, show(lexi::lexi(f)).c_str());
    });
    r.each("inf-zero", "both infinities, both zeros", 4, [special](Ctx &c, uint64_t i) {
        double inf = std::numeric_limits<double>::infinity();
        if (i == 0) special(c, inf, "Infinity", "Infinity", "inf"); else if (i == 1) special(c, -inf, "-Infinity", "-Infinity", "-inf");
        else special(c, i == 2 ? 0.0 : -0.0, "0.0", "0.0", "zero");
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c04::setup)
#endif
