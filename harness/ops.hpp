// The operation alphabet shared by C13 (histories), C14 (thread programs) and C15 (allocation failures): each operation is
// one conversion, its result serialised as text (an exception is a result too). With a Hold, the objects and strings the
// library returned are kept alive and can be re-examined later.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <new>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/dtoa.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/itoa.hpp>
#include <lexi/detail/pow.hpp>

namespace ops {
struct Hold { std::vector<std::function<bool()>> still; };
struct Op { std::string name; std::function<std::string(Hold *)> run; };

enum Plain { PA, PB = 41 }; enum class Sc : short { A = -3 }; enum class Eu : unsigned long long { M = 0xFFFFFFFFFFFFFFFFull };

// the bits of a value (not printf: its radix character would follow the locale)
inline std::string hexl(long double v) {
    if (v != v) return "nan";
    uint64_t m; uint16_t e; memcpy(&m, &v, 8); memcpy(&e, reinterpret_cast<char *>(&v) + 8, 2);
    char b[40]; snprintf(b, sizeof b, "%04x:%016llx", unsigned(e), (unsigned long long)m); return b;
}

template <class F> std::string text(const F &f) { std::string s = f.string(); s += '|'; s += f.escape(); s += '|'; s += f.jsonify(); s += '|'; s.append(f.data(), f.size()); s += '|'; s += f.c_str(); return s; }
template <class F, class V> Op fmt(const char *name, V v) {
    return Op{name, [v](Hold *h) {
        if (!h) { F f(v); return text(f); }
        auto f = std::make_shared<F>(v); std::string t = text(*f); const char *p = f->c_str();
        h->still.push_back([f, t, p] { return text(*f) == t && f->c_str() == p; });
        return t;
    }};
}
template <class T> Op gen(const char *name, T v) {   // through the generic entry points
    return Op{name, [v](Hold *h) {
        auto a = lexi::lexi(v); auto b = lexi::string(v); auto e = lexi::escape(v); auto j = lexi::jsonify(v);
        std::string t; t += a; t += '|'; t += b; t += '|'; t += e; t += '|'; t += j;
        if (h) { auto p = std::make_shared<std::vector<std::string>>(); p->push_back(std::move(a)); p->push_back(std::move(b)); p->push_back(std::move(e)); p->push_back(std::move(j)); auto q = *p; h->still.push_back([p, q] { return *p == q; }); }
        return t;
    }};
}
inline std::string num(long long v) { return std::to_string(v); }
inline std::string num(unsigned long long v) { return std::to_string(v); }
template <class T> Op geti(const char *name, std::string s) {
    return Op{name, [s](Hold *h) {
        T v = lexi::lexi<T>(s); typedef typename std::conditional<std::is_signed<T>::value, long long, unsigned long long>::type W;
        std::string t = num(W(v)); t += '|';
        if (!h) { lexi::ExtractInt x(s); t += num(W(T(x))); return t; }
        auto x = std::make_shared<lexi::ExtractInt>(s); t += num(W(T(*x))); h->still.push_back([x, v] { return T(*x) == v; });
        return t;
    }};
}
template <class T> Op getf(const char *name, std::string s) {
    return Op{name, [s](Hold *h) {
        T v = lexi::lexi<T>(s.c_str()); std::string t = hexl(v); t += '|';
        if (!h) { lexi::ExtractFloat x(s); t += hexl(T(x)); return t; }
        auto x = std::make_shared<lexi::ExtractFloat>(s); t += hexl(T(*x)); h->still.push_back([x, v] { T w = T(*x); return w == v || (w != w && v != v); });
        return t;
    }};
}
template <class F> std::string guarded(F f) {
    try { return f(); }
    catch (const std::bad_alloc &) { throw; }
    catch (const std::runtime_error &) { return "std::runtime_error"; }
    catch (const std::exception &) { return "std::exception"; }
}
inline std::string bigtext(const lexi::detail::BigInteger &b) { std::string t; char buf[32]; for (size_t i = b.count(); i-- > 0;) { snprintf(buf, sizeof buf, "%016llx.", (unsigned long long)b.digit(i)); t += buf; } return t; }
inline Op mk(const char *name, std::function<std::string()> f) { return Op{name, [f](Hold *) { return guarded(f); }}; }
// an arithmetic object: kept and re-read
inline Op bigop(const char *name, std::function<void(lexi::detail::BigInteger &)> f) {
    return Op{name, [f](Hold *h) {
        if (!h) return guarded([&] { lexi::detail::BigInteger b(uint64_t(1)); f(b); return bigtext(b); });
        auto b = std::make_shared<lexi::detail::BigInteger>(uint64_t(1)); bool threw = false;
        std::string t = guarded([&]() -> std::string { try { f(*b); } catch (...) { threw = true; throw; } return bigtext(*b); });
        if (!threw) h->still.push_back([b, t] { return bigtext(*b) == t; });
        return t;
    }};
}

inline std::vector<Op> alphabet() {
    using namespace lexi; std::vector<Op> v;
    auto A = [&](Op o) { v.push_back(std::move(o)); };
    // integers
    A(fmt<FormatInt, int>("format int 0", 0)); A(fmt<FormatInt, int>("format int 7", 7)); A(fmt<FormatInt, int>("format int -42", -42)); A(fmt<FormatInt, unsigned>("format unsigned 4294967295", 4294967295u));
    A(fmt<FormatInt, int>("format int 12345678", 12345678)); A(fmt<FormatInt, long long>("format INT64_MIN", std::numeric_limits<long long>::min())); A(fmt<FormatInt, unsigned long long>("format UINT64_MAX", ~0ull));
    A(fmt<FormatInt, unsigned long>("format 10^16", 10000000000000000ul)); A(fmt<FormatInt, signed char>("format int8 -128", -128)); A(fmt<FormatInt, unsigned char>("format uint8 200", 200)); A(fmt<FormatInt, short>("format short 12345", 12345));
    A(gen<int>("lexi(int 99)", 99)); A(gen<long long>("lexi(long long -1234567890123)", -1234567890123ll));
    // floats
    A(fmt<FormatFloat, double>("format double 0.1", 0.1)); A(fmt<FormatFloat, double>("format double 1e23", 1e23)); A(fmt<FormatFloat, double>("format double -0.0", -0.0)); A(fmt<FormatFloat, double>("format double 5e-324", 5e-324)); A(fmt<FormatFloat, double>("format DBL_MAX", 1.7976931348623157e308));
    A(fmt<FormatFloat, double>("format NaN", double(NAN))); A(fmt<FormatFloat, double>("format -Infinity", -double(INFINITY))); A(fmt<FormatFloat, float>("format float 0.1f", 0.1f)); A(fmt<FormatFloat, long double>("format long double 2.5", 2.5L));
    A(gen<double>("lexi(double 123456.789)", 123456.789)); A(gen<double>("lexi(double 1.2345678901234567e-200)", 1.2345678901234567e-200)); A(gen<float>("lexi(float Infinity)", float(INFINITY)));
    // null, bool, char, enum, position
    A(fmt<FormatNull, std::nullptr_t>("format null", nullptr)); A(fmt<FormatBool, bool>("format true", true)); A(fmt<FormatBool, bool>("format false", false)); A(fmt<FormatChar, char>("format 'a'", 'a')); A(fmt<FormatChar, char>("format '\"'", '"')); A(fmt<FormatChar, char>("format '\\0'", '\0'));
    A(fmt<FormatEnum, Sc>("format enum -3", Sc::A)); A(gen<Eu>("lexi(enum max)", Eu::M)); A(gen<std::streampos>("lexi(streampos 987654321)", std::streampos(987654321)));
    // text
    A(gen<std::string>("text \"\"", "")); A(gen<std::string>("text short", "a b\n\"\\")); A(gen<std::string>("text controls", std::string("\0\x1f\x7f\xff{}", 6))); std::string L; for (int i = 0; i < 300; i++) L += char(i * 7); A(gen<std::string>("text 300 bytes", L)); A(gen<const char *>("text C string", "quick: \"brown\" fox"));
    // extraction
    A(geti<int>("extract int 123", "123")); A(geti<int>("extract int -7 rest", " -7xyz")); A(geti<unsigned long long>("extract UINT64_MAX", "18446744073709551615")); A(geti<unsigned long long>("extract out of range", "99999999999999999999999")); A(geti<long long>("extract INT64_MIN", "-9223372036854775808")); A(geti<signed char>("extract int8 -128", "-128")); A(geti<unsigned short>("extract no number", "abc")); A(geti<unsigned char>("extract uint8 255", "255"));
    A(getf<double>("extract double 0.1", "0.1")); A(getf<double>("extract double 1e400", "1e400")); A(getf<double>("extract double 1e-400", "-1e-400")); A(getf<float>("extract float 16777217", "16777217.0000000001")); A(getf<double>("extract subnormal", "4.9406564584124654e-324")); A(getf<long double>("extract long double", "3.14159265358979323846264338327950288")); A(getf<double>("extract double text", "pi")); A(getf<double>("extract NaN", "NaN"));
    A(mk("extract bool true", [] { return std::string(lexi::lexi<bool>("true") ? "t" : "f"); })); A(mk("extract bool false", [] { return std::string(lexi::lexi<bool>(std::string("false")) ? "t" : "f"); })); A(mk("extract bool bad", [] { return std::string(lexi::lexi<bool>("troe") ? "t" : "f"); }));
    A(mk("extract null", [] { return std::string(lexi::lexi<std::nullptr_t>("null") == nullptr ? "n" : "?"); })); A(mk("extract null bad", [] { return std::string(lexi::lexi<std::nullptr_t>("nul") == nullptr ? "n" : "?"); })); A(mk("extract char", [] { return std::string(1, lexi::lexi<char>("xyz")); })); A(mk("extract char empty", [] { return std::string(1, lexi::lexi<char>("")); }));
    A(mk("extract enum", [] { return std::to_string(int(lexi::lexi<Plain>("41"))); })); A(mk("extract streampos", [] { return std::to_string((long long)std::streamoff(lexi::lexi<std::streampos>("-5"))); }));
    // arithmetic
    A(bigop("big 3^100", [](detail::BigInteger &b) { for (int i = 0; i < 100; i++) b *= uint64_t(3); })); A(bigop("big pow5 67", [](detail::BigInteger &b) { b.mulPow5(67); b += 1; b <<= 77; })); A(bigop("big overflow", [](detail::BigInteger &b) { for (int i = 0; i < 2000; i++) b <<= 64; }));
    A(mk("big decimal", [] { detail::BigInteger b("123456789012345678901234567890123456789", 39); return bigtext(b); })); A(mk("big not a number", [] { detail::BigInteger b("12a4567890123456789012", 22); return bigtext(b); }));
    A(mk("big difference", [] { detail::BigInteger a("340282366920938463463374607431768211456", 39), b(uint64_t(1)), d(uint64_t(0)); bool n = a.difference(b, &d), m = b.difference(a, &d); return bigtext(d) + (n ? "1" : "0") + (m ? "1" : "0") + std::to_string(a.compare(b)); })); A(mk("big equal difference", [] { detail::BigInteger a(uint64_t(5)), d(uint64_t(0)); a.difference(a, &d); return bigtext(d); }));
    A(mk("pow10", [] { return hexl(detail::pow10(22)) + hexl(detail::pow10(308)) + hexl(detail::pow10(0)); }));
    A(mk("diyfp", [] { detail::DiyFp d(0.3), p, q; d.normalizedBoundaries(&q, &p); detail::DiyFp m = d.normalize() * p; return std::to_string(m.f) + "," + std::to_string(m.e) + "," + std::to_string(q.f) + "," + std::to_string(p.f); }));
    A(mk("classify", [] { std::string s; for (double d : {0.0, -0.0, 1.0, -2.5, double(NAN), double(INFINITY), -double(INFINITY)}) { s += char('0' + detail::isNan(d)); s += char('0' + detail::isInf(d)); s += char('0' + detail::isFinite(d)); s += char('0' + detail::isZero(d)); s += char('0' + detail::isPositive(d)); } return s; }));
    A(mk("raw buffers", [] { char b[64]; std::string s; memset(b, 'z', 64); s.append(b, size_t(detail::u32toa(1234567890u, b) - b)); memset(b, 'z', 64); s.append(b, size_t(detail::i64toa(-99999999999ll, b) - b)); memset(b, 'z', 64); s.append(b, size_t(detail::dtoa(-1.5e-7, b) - b)); return s; }));
    return v;
}
}
