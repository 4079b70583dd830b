// C12: enumerations and stream positions convert as their underlying integer.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <fstream>
#include <sstream>
#include <lexi/lexi.hpp>

namespace c12 {
using mc::Ctx; using mc::show;
template <class U> struct In { enum class S : U {}; enum P : U {}; };
template <class U> std::string dec(U v) { return std::is_signed<U>::value ? ref::sdec((long long)v) : ref::udec((unsigned long long)v); }

template <class E, class U> void one(Ctx &c, U v, const char *tn) {
    const E e = static_cast<E>(v);
    std::string w = dec<U>(v), a = lexi::lexi(e), b = lexi::FormatEnum(e).string(), s = lexi::string(e);
    E x = lexi::lexi<E>(w), y = lexi::lexi<E>(w.c_str()), z = E(lexi::ExtractEnum(w));
    c.calls(6); c.outcome(w);
    c.note("enum : %s %s -> %s", tn, w.c_str(), a.c_str());
    if (a != w || b != w || s != w) c.fail("enumerator %s of an enum : %s formats as %s / FormatEnum %s / string %s", w.c_str(), tn, show(a).c_str(), show(b).c_str(), show(s).c_str());
    if (x != e || y != e || z != e) c.fail("enum : %s extracted from %s gives %s / %s / ExtractEnum %s", tn, w.c_str(), dec<U>(U(x)).c_str(), dec<U>(U(y)).c_str(), dec<U>(U(z)).c_str());
}
template <class U> void both(Ctx &c, uint64_t v, const char *tn) { U u = static_cast<U>(v); one<typename In<U>::S, U>(c, u, tn); one<typename In<U>::P, U>(c, u, tn); }
inline void all(Ctx &c, uint64_t v) {
    both<bool>(c, v & 1, "bool"); both<char>(c, v, "char"); both<signed char>(c, v, "signed char"); both<unsigned char>(c, v, "unsigned char");
    both<short>(c, v, "short"); both<unsigned short>(c, v, "unsigned short"); both<int>(c, v, "int"); both<unsigned>(c, v, "unsigned");
    both<long>(c, v, "long"); both<unsigned long>(c, v, "unsigned long"); both<long long>(c, v, "long long"); both<unsigned long long>(c, v, "unsigned long long");
    both<wchar_t>(c, v, "wchar_t"); both<char16_t>(c, v, "char16_t"); both<char32_t>(c, v, "char32_t");
}
// enumerations without a fixed underlying type and with named values
enum Plain { PA, PB = 7, PC = 1000000 }; enum PlainNeg { NA = -5, NB = 3 }; enum class Scoped { A, B = -2147483647 - 1, C = 2147483647 }; enum Big64 : unsigned long long { BA = 18446744073709551615ull };

inline void pos(Ctx &c, long long o) {
    std::streampos p = std::streampos(std::streamoff(o));
    std::string w = ref::sdec(o), a = lexi::lexi(p), s = lexi::string(p), e = lexi::escape(p), j = lexi::jsonify(p);
    std::streampos q = lexi::lexi<std::streampos>(w), q2 = lexi::lexi<std::streampos>(w.c_str());
    c.calls(6); c.outcome(w); c.note("streampos %s -> %s", w.c_str(), a.c_str());
    if (a != w || s != w || e != w || j != w) c.fail("stream position %s formats as %s / %s / %s / %s", w.c_str(), a.c_str(), s.c_str(), e.c_str(), j.c_str());
    if (std::streamoff(q) != o || std::streamoff(q2) != o) c.fail("stream position from %s has offset %lld / %lld", w.c_str(), (long long)std::streamoff(q), (long long)std::streamoff(q2));
}
void setup(mc::Run &r) {
    r.each("int16", "all 65536 low values for 15 underlying types, scoped and unscoped", r.san() ? 2000 : 65536, [](Ctx &c, uint64_t i) { all(c, i); all(c, 0 - i); });
    auto near = std::make_shared<sp::NearInts>(r.san() ? 2 : r.thorough() ? 5000 : 200);
    r.each("near", "windows around every power of 2 and 10, 15 underlying types", near->count(), [near](Ctx &c, uint64_t i) { all(c, near->at(i)); pos(c, (long long)near->at(i)); });
    r.each("positions", "all offsets |o| <= 2^18", r.san() ? 1000 : 1 << 19, [](Ctx &c, uint64_t i) { pos(c, (long long)i - (1 << 18)); });
    r.each("named", "enumerations without fixed type, named enumerators, wide stream positions", 1, [](Ctx &c, uint64_t) {
        c.calls(14);
        auto eq = [&](const std::string &a, const char *w) { c.outcome(a); if (a != w) c.fail("named enumerator formats as %s, want %s", show(a).c_str(), w); };
        eq(lexi::lexi(PA), "0"); eq(lexi::lexi(PB), "7"); eq(lexi::lexi(PC), "1000000"); eq(lexi::lexi(NA), "-5"); eq(lexi::lexi(NB), "3"); eq(lexi::lexi(Scoped::A), "0"); eq(lexi::lexi(Scoped::B), "-2147483648"); eq(lexi::lexi(Scoped::C), "2147483647"); eq(lexi::lexi(BA), "18446744073709551615");
        if (lexi::lexi<Plain>("1000000") != PC || lexi::lexi<PlainNeg>("-5") != NA || lexi::lexi<Scoped>("-2147483648") != Scoped::B || lexi::lexi<Big64>("18446744073709551615") != BA) c.fail("a named enumerator is not extracted from its text");
        std::wstreampos w(12345); if (lexi::lexi(w) != "12345") c.fail("wstreampos formats as %s", lexi::lexi(w).c_str());
        if (std::streamoff(lexi::lexi<std::wstreampos>("12345")) != 12345) c.fail("wstreampos is not extracted");
        std::istringstream is("hello world"); is.seekg(6); if (lexi::lexi(is.tellg()) != "6") c.fail("tellg formats as %s", lexi::lexi(is.tellg()).c_str());
        is.seekg(lexi::lexi<std::streampos>("2")); if (is.get() != 'l') c.fail("extracted position does not seek");
        c.note("named enumerators");
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c12::setup)
#endif
