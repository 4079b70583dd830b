// C10: every supported type reaches its own conversion through every entry point.
// Not compiling is a violation here: the instantiations are part of what is checked.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <cmath>
#include <lexi/lexi.hpp>

namespace c10 {
using mc::Ctx; using mc::show;
enum Plain { P0, P1 = 77 }; enum class Sc : short { A = -3 }; enum class Eu : unsigned long long {}; enum class Ec : char {}; enum class Eb : unsigned char {};

template <class F> void fmt_is(Ctx &c, const F &f, const std::string got[4], const char *tn, const char *form) {
    c.calls(4); c.outcome(got[0]);
    c.note("%s %s -> %s", form, tn, show(got[0]).c_str());
    if (got[0] != f.string() || got[1] != f.string() || got[2] != f.escape() || got[3] != f.jsonify())
        c.fail("%s %s: lexi %s, string %s, escape %s, jsonify %s; the per-type formatter gives %s, %s, %s", form, tn, show(got[0]).c_str(), show(got[1]).c_str(), show(got[2]).c_str(), show(got[3]).c_str(), show(f.string()).c_str(), show(f.escape()).c_str(), show(f.jsonify()).c_str());
}
#define FORM(expr, form) { std::string got[4] = {lexi::lexi(expr), lexi::string(expr), lexi::escape(expr), lexi::jsonify(expr)}; fmt_is(c, f, got, tn, form); }
// F: the per-type formatter
template <class T, class F> void format(Ctx &c, T v, const char *tn, bool cv_ok) {
    F f(v);
    T m = v; const T k = v;
    FORM(v, "prvalue-like"); FORM(m, "lvalue"); FORM(k, "const"); FORM(T(v), "temporary");
    T &rm = m; const T &rk = k; FORM(rm, "reference to"); FORM(rk, "const reference to"); FORM(std::move(m), "rvalue");
    { std::string g = lexi::Format()(v).string(), h = lexi::Format()(k).string(); c.calls(2); if (g != f.string() || h != f.string()) c.fail("Format()(%s) gives %s / %s, the per-type formatter %s", tn, show(g).c_str(), show(h).c_str(), show(f.string()).c_str()); }
    (void)cv_ok;
}
template <class T, class F> void format_volatile(Ctx &c, T v, const char *tn) {
    F f(v); volatile T w = v; const volatile T cw = v;
    FORM(w, "volatile"); FORM(cw, "const volatile");
}
template <class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
// X: value of the per-type extractor
template <class T, class X> void extract(Ctx &c, const std::string &s, X want, const char *tn) {
    const std::string cs = s; std::string ms = s; const char *p = s.c_str(); char buf[64]; snprintf(buf, sizeof buf, "%s", p); char *mp = buf; const char *const cp = p;
    struct D : std::string { using std::string::string; } ds(p);
    T a[9] = {lexi::lexi<T>(s), lexi::lexi<T>(cs), lexi::lexi<T>(ms), lexi::lexi<T>(p), lexi::lexi<T>(mp), lexi::lexi<T>(buf), lexi::lexi<T>(cp), lexi::lexi<T>(std::string(s)), lexi::Extract<T>()(s)};
    T d = lexi::lexi<T>(static_cast<const std::string &>(ds));
    c.calls(10); c.outcome(s);
    c.note("lexi<%s>(%s)", tn, show(s).c_str());
    for (int i = 0; i < 9; i++) if (!same<T>(a[i], T(want))) c.fail("lexi<%s>(%s), argument form %d, differs from the per-type extractor", tn, show(s).c_str(), i);
    if (!same<T>(d, T(want))) c.fail("lexi<%s>(%s), derived string argument, differs from the per-type extractor", tn, show(s).c_str());
}
template <class T> void integer(Ctx &c, uint64_t v, const char *tn) {
    T x = T(v); format<T, lexi::FormatInt>(c, x, tn, true); format_volatile<T, lexi::FormatInt>(c, x, tn);
    std::string s = lexi::FormatInt(x).string(); lexi::ExtractInt e(s); extract<T>(c, s, T(e), tn);
}
template <class T> void real(Ctx &c, T v, const char *tn) {
    format<T, lexi::FormatFloat>(c, v, tn, true); format_volatile<T, lexi::FormatFloat>(c, v, tn);
    std::string s = lexi::FormatFloat(v).string(); lexi::ExtractFloat e(s); extract<T>(c, s, T(e), tn);
}
template <class T> void enumer(Ctx &c, T v, const char *tn) {
    format<T, lexi::FormatEnum>(c, v, tn, true); format_volatile<T, lexi::FormatEnum>(c, v, tn);
    std::string s = lexi::FormatEnum(v).string(); lexi::ExtractEnum e(s); extract<T>(c, s, T(e), tn);
}

struct Derived : std::string { using std::string::string; Derived(const std::string &s) : std::string(s) {} };
struct Deeper : Derived { using Derived::Derived; };
// arrays that have just room for the text and its NUL
template <size_t... N> struct Sizes {};
template <size_t N, class F> void exact_array(F &is, const std::string &s) {
    if (s.size() != N) return;
    char a[N + 1]; memcpy(a, s.c_str(), N + 1); struct Box { const char a[N + 1]; } const *k = reinterpret_cast<const Box *>(a);
    is(lexi::lexi(a), lexi::string(a), lexi::escape(a), lexi::jsonify(a), "char[] of exact size"); is(lexi::lexi(k->a), lexi::string(k->a), lexi::escape(k->a), lexi::jsonify(k->a), "const char[] of exact size");
}
template <class F, size_t... N> void exact_arrays(F &is, const std::string &s, Sizes<N...>) { int x[] = {(exact_array<N>(is, s), 0)...}; (void)x; }
inline void texts(Ctx &c, const std::string &s) {   // s without NUL for the C-string forms
    auto is = [&](const std::string &a, const std::string &b, const std::string &e, const std::string &j, const char *form) {
        c.calls(4);
        if (a != s || b != s) c.fail("%s %s is not passed through: lexi %s, string %s", form, show(s).c_str(), show(a).c_str(), show(b).c_str());
        std::string we = lexi::detail::escape(s), wj = "\"" + lexi::detail::jsonify(s) + "\"";
        if (e != we || j != wj) c.fail("%s %s: escape %s (want %s), jsonify %s (want %s)", form, show(s).c_str(), show(e).c_str(), show(we).c_str(), show(j).c_str(), show(wj).c_str());
    };
#define TEXT(expr, form) is(lexi::lexi(expr), lexi::string(expr), lexi::escape(expr), lexi::jsonify(expr), form)
    std::string m = s; const std::string k = s; Derived d(s); const Derived kd(s); Deeper dd(s);
    TEXT(m, "std::string"); TEXT(k, "const std::string"); TEXT(d, "derived string"); TEXT(kd, "const derived string"); TEXT(dd, "twice derived string"); TEXT(std::string(s), "temporary std::string");
    c.outcome(s); c.note("text %s", show(s).c_str());
    if (s.find('\0') == std::string::npos && s.size() < 1000) {
        const char *p = s.c_str(); const char *const kp = p; char buf[1024]; memset(buf, 'Z', sizeof buf); memcpy(buf, p, s.size() + 1); char *mp = buf; char *const kmp = buf;
        const char *volatile vp = p; char *volatile vmp = buf; const char *const volatile kvp = p;
        struct Box { const char a[1024]; } const *box = reinterpret_cast<const Box *>(buf);
        TEXT(p, "const char *"); TEXT(kp, "const char *const"); TEXT(mp, "char *"); TEXT(kmp, "char *const"); TEXT(buf, "char[]"); TEXT(box->a, "const char[]");
        TEXT(vp, "const char *volatile"); TEXT(vmp, "char *volatile"); TEXT(kvp, "const char *const volatile");
        static_cast<void>(box);
    }
    if (s.find('\0') == std::string::npos) exact_arrays(is, s, Sizes<0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 31, 32, 33, 63, 64, 65, 127, 255, 256, 257>());
}
// generic extraction of any text against the per-type extractor, refusals included
template <class F> std::string outcome_of(F f) { try { return f(); } catch (const std::runtime_error &) { return "std::runtime_error"; } catch (const std::exception &) { return "std::exception"; } }
template <class T> std::string image(T v) { char b[64]; snprintf(b, sizeof b, "%La", (long double)v); if (v != v) return "nan"; return b; }
template <class T, class X, class C> void extract_any(Ctx &c, const std::string &s, const char *tn, C conv) {
    struct D : std::string { D(const std::string &t) : std::string(t) {} } d(s); const char *p = s.c_str(); std::string z(p); const std::string k = s; char buf[256]; memcpy(buf, p, z.size() + 1);
    std::string w = outcome_of([&] { return conv(T(X(s))); }), wz = s.size() == z.size() ? w : outcome_of([&] { return conv(T(X(z))); });
    std::string g[6] = {outcome_of([&] { return conv(lexi::lexi<T>(k)); }), outcome_of([&] { return conv(lexi::lexi<T>(std::string(s))); }), outcome_of([&] { return conv(lexi::Extract<T>()(s)); }), outcome_of([&] { return conv(lexi::lexi<T>(static_cast<const std::string &>(d))); }), outcome_of([&] { return conv(lexi::lexi<T>(p)); }), outcome_of([&] { return conv(lexi::lexi<T>(buf)); })};
    c.calls(8); c.outcome(w); c.note("lexi<%s>(%s) = %s", tn, show(s).c_str(), w.c_str());
    for (int i = 0; i < 6; i++) if (g[i] != (i < 4 ? w : wz)) c.fail("lexi<%s>(%s), argument form %d, gives %s; the per-type extractor %s", tn, show(s).c_str(), i, g[i].c_str(), (i < 4 ? w : wz).c_str());
}
inline void any_text(Ctx &c, const std::string &s) {
    auto num = [](auto v) { return image(v); }; auto en = [](auto v) { return image((long long)v); };
    extract_any<signed char, lexi::ExtractInt>(c, s, "signed char", num); extract_any<unsigned char, lexi::ExtractInt>(c, s, "unsigned char", num); extract_any<short, lexi::ExtractInt>(c, s, "short", num); extract_any<unsigned short, lexi::ExtractInt>(c, s, "unsigned short", num);
    extract_any<int, lexi::ExtractInt>(c, s, "int", num); extract_any<unsigned, lexi::ExtractInt>(c, s, "unsigned", num); extract_any<long, lexi::ExtractInt>(c, s, "long", num); extract_any<unsigned long, lexi::ExtractInt>(c, s, "unsigned long", num); extract_any<long long, lexi::ExtractInt>(c, s, "long long", num); extract_any<unsigned long long, lexi::ExtractInt>(c, s, "unsigned long long", num);
    extract_any<float, lexi::ExtractFloat>(c, s, "float", num); extract_any<double, lexi::ExtractFloat>(c, s, "double", num); extract_any<long double, lexi::ExtractFloat>(c, s, "long double", num);
    extract_any<char, lexi::ExtractChar>(c, s, "char", num); extract_any<bool, lexi::ExtractBool>(c, s, "bool", num); extract_any<std::nullptr_t, lexi::ExtractNull>(c, s, "null", [](std::nullptr_t) { return std::string("null"); });
    extract_any<Plain, lexi::ExtractEnum>(c, s, "plain enum", en); extract_any<Sc, lexi::ExtractEnum>(c, s, "enum class : short", en); extract_any<Eu, lexi::ExtractEnum>(c, s, "enum class : unsigned long long", en); extract_any<Ec, lexi::ExtractEnum>(c, s, "enum : char", en);
}
void setup(mc::Run &r) {
    r.each("int8", "all 256 values of char, signed char, unsigned char, bool, in every argument form", 256, [](Ctx &c, uint64_t i) {
        integer<signed char>(c, i, "signed char"); integer<unsigned char>(c, i, "unsigned char"); integer<int8_t>(c, i, "int8_t");
        char ch = char(i); format<char, lexi::FormatChar>(c, ch, "char", true); format_volatile<char, lexi::FormatChar>(c, ch, "char");
        if (i) { std::string s(1, ch); extract<char>(c, s + "x", char(lexi::ExtractChar(s)), "char"); }
        enumer<Ec>(c, Ec(ch), "enum : char"); enumer<Eb>(c, Eb(i), "enum : unsigned char");
        if (i < 2) { bool b = i; format<bool, lexi::FormatBool>(c, b, "bool", true); format_volatile<bool, lexi::FormatBool>(c, b, "bool"); std::string s = lexi::FormatBool(b).string(); extract<bool>(c, s, bool(lexi::ExtractBool(s)), "bool"); }
    });
    auto near = std::make_shared<sp::NearInts>(r.san() ? 1 : r.thorough() ? 1000 : 25);
    r.each("integers", "integers around every power of 2 and 10 and every limit, all integer types and argument forms", near->count(), [near](Ctx &c, uint64_t i) {
        uint64_t v = near->at(i);
        integer<short>(c, v, "short"); integer<unsigned short>(c, v, "unsigned short"); integer<int>(c, v, "int"); integer<unsigned>(c, v, "unsigned"); integer<long>(c, v, "long"); integer<unsigned long>(c, v, "unsigned long");
        integer<long long>(c, v, "long long"); integer<unsigned long long>(c, v, "unsigned long long"); integer<size_t>(c, v, "size_t"); integer<ptrdiff_t>(c, v, "ptrdiff_t");
        enumer<Sc>(c, Sc(short(v)), "enum class : short"); enumer<Eu>(c, Eu(v), "enum class : unsigned long long");
        std::streampos p = std::streampos(std::streamoff(v)); const std::streampos kp = p; lexi::FormatInt f((long long)v); const char *tn = "std::streampos";
        FORM(p, "lvalue"); FORM(kp, "const"); FORM(std::streampos(p), "temporary");
        std::string s = lexi::FormatInt((long long)v).string(); extract<std::streampos>(c, s, std::streamoff((long long)lexi::ExtractInt(s)), tn);
    });
    auto ef = std::make_shared<sp::ExpFrac>(0); uint64_t st = r.san() ? 701 : 37;
    r.each("floats", "every exponent x edge fractions (every 37th), specials; float, double, long double", ef->count() / st + 8, [ef, st](Ctx &c, uint64_t i) {
        double sp8[8] = {0.0, -0.0, INFINITY, -INFINITY, NAN, -NAN, 1e21, 123456.75}; uint64_t n = ef->count() / st;
        double d = i < n ? ef->at(i * st) : sp8[i - n];
        real<double>(c, d, "double"); real<float>(c, float(d), "float"); real<long double>(c, (long double)d, "long double"); real<double>(c, -d, "double");
    });
    r.each("plain-null", "null and plain enumerators in every argument form", 2, [](Ctx &c, uint64_t i) {
        if (i == 0) { lexi::FormatNull f; const char *tn = "nullptr"; std::nullptr_t n = nullptr; const std::nullptr_t k = nullptr; FORM(nullptr, "literal"); FORM(n, "lvalue"); FORM(k, "const");
            extract<std::nullptr_t>(c, "null", lexi::ExtractNull("null").null(), tn); }
        else { enumer<Plain>(c, P1, "plain enum"); enumer<Plain>(c, P0, "plain enum"); { lexi::FormatEnum f(P1); const char *tn = "enumerator"; FORM(P1, "literal"); } { lexi::FormatEnum f(Sc::A); const char *tn = "scoped enumerator"; FORM(Sc::A, "literal"); }
            if (lexi::lexi("literal") != "literal" || lexi::string("literal") != "literal" || lexi::escape("lit.") != "lit\\." || lexi::jsonify("a\"b") != "\"a\\\"b\"" || lexi::lexi("") != "") c.fail("string literals are not handled as text");
            if (lexi::lexi<int>("42") != 42 || lexi::lexi<double>("2.5") != 2.5 || lexi::lexi<char>("xyz") != 'x' || lexi::lexi<bool>("true") != true || lexi::lexi<unsigned char>("200") != 200 || lexi::lexi<signed char>("-100") != -100 || lexi::lexi<Plain>("77") != P1 || lexi::lexi<std::nullptr_t>("null") != nullptr) c.fail("extraction from a string literal is wrong"); }
    });
    auto sx = std::make_shared<sp::Strings>(std::string("'\"\\a019-+. \0tx", 14), r.thorough() ? 5 : r.san() ? 2 : 4);
    r.each("extract-texts", "all short texts over {' \" \\ a 0 1 9 - + . space NUL t x}: generic extraction of 20 types against the per-type extractor", sx->count(), [sx](Ctx &c, uint64_t i) { any_text(c, sx->at(i)); });
    auto sb = std::make_shared<sp::Strings>(sp::all_bytes(), r.san() ? 1 : 2);
    r.each("extract-bytes", "all byte strings of length <= 2, alone and around a number, likewise", sb->count(), [sb](Ctx &c, uint64_t i) { std::string s = sb->at(i); any_text(c, s); any_text(c, s.substr(0, 1) + "12" + s.substr(s.size() / 2)); });
    r.each("extract-literals", "the literals with every byte substituted, inserted or appended at every place, likewise", 3 * 7 * 256, [](Ctx &c, uint64_t i) {
        static const char *W[] = {"null", "true", "false"}; std::string w = W[i / 7 / 256], t = w, u = w; size_t k = i / 256 % 7; if (k > w.size()) return; char b = char(i & 255);
        t.insert(k, 1, b); any_text(c, t); if (k < w.size()) { u[k] = b; any_text(c, u); any_text(c, w.substr(0, k)); any_text(c, w.substr(k)); }
        std::string l(size_t(i % 100), ' '); any_text(c, l + "77"); any_text(c, w + l);
    });
    auto s2 = std::make_shared<sp::Strings>(sp::all_bytes(), r.san() ? 1 : 2);
    r.each("texts", "all byte strings of length <= 2 as every text type", s2->count(), [s2](Ctx &c, uint64_t i) { texts(c, s2->at(i)); });
    r.each("text-large", "texts of 2^k + {-1, 0, 1} bytes, k = 10..20", r.san() ? 0 : 33, [](Ctx &c, uint64_t i) { size_t n = (size_t(1) << (10 + i / 3)) + i % 3 - 1; std::string s(n, 'q'); for (size_t k = 0; k < n; k++) s[k] = char(1 + k % 255); texts(c, s); texts(c, std::string(n, 'a')); }, 1);
    r.each("text-lengths", "texts of every length up to 1000", r.san() ? 100 : 1000, [](Ctx &c, uint64_t n) { texts(c, std::string(n, 'a')); std::string s(n, 'q'); for (size_t k = 0; k < n; k++) s[k] = char(1 + k % 255); texts(c, s); texts(c, std::string(n, '\0')); });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c10::setup)
#endif
