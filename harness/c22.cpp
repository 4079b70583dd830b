// C22: configured literals are what is written and read. Built once per configuration: the library gets LEXI_*, the
// harness gets the same texts as CFG_* (so that what is expected does not depend on the library's headers).
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <cmath>
#include <set>
#include <lexi/lexi.hpp>
#ifndef CFG_NULL
#define CFG_NULL "null"
#endif
#ifndef CFG_TRUE
#define CFG_TRUE "true"
#endif
#ifndef CFG_FALSE
#define CFG_FALSE "false"
#endif
#ifndef CFG_NAN
#define CFG_NAN "NaN"
#endif
#ifndef CFG_INFINITY
#define CFG_INFINITY "Infinity"
#endif
#ifndef CFG_NEGATIVE_INFINITY
#define CFG_NEGATIVE_INFINITY "-Infinity"
#endif

namespace c22 {
using mc::Ctx; using mc::show;
static const std::string NUL = CFG_NULL, TRU = CFG_TRUE, FAL = CFG_FALSE, NAN_ = CFG_NAN, INF = CFG_INFINITY, NINF = CFG_NEGATIVE_INFINITY;

template <class F> int run(F f) { try { return f() ? 1 : 0; } catch (const std::runtime_error &) { return 2; } catch (...) { return 3; } }
static const char *N[] = {"false", "true", "std::runtime_error", "another exception"};

// the object must hold the text, and nothing around it may be touched
template <class F> void object(Ctx &c, const F &f, const std::string &want, const char *what) {
    std::string a = f.string(), e = f.escape(), j = f.jsonify(), s = static_cast<std::string>(f);
    c.calls(8); c.outcome(a); c.note("%s -> %s", what, show(a).c_str());
    if (a != want || e != want || j != want || s != want) c.fail("%s: string %s, escape %s, jsonify %s, conversion %s; configured %s", what, show(a).c_str(), show(e).c_str(), show(j).c_str(), show(s).c_str(), show(want).c_str());
    if (f.size() != want.size() || f.length() != want.size()) c.fail("%s: size %zu, length %zu, want %zu", what, f.size(), f.length(), want.size());
    if (memcmp(f.data(), want.c_str(), want.size() + 1) || memcmp(f.c_str(), want.c_str(), want.size() + 1)) c.fail("%s: data/c_str is not the configured text followed by NUL", what);
}
template <class F, class V> void guarded(Ctx &c, V v, const std::string &want, const char *what) {
    const size_t G = 4096;
    static std::vector<unsigned char> mem; size_t off = 2048; mem.assign(off + sizeof(F) + G, 0xA5);
    F *p = new (&mem[off]) F(v); object(c, *p, want, what);
    { F q(*p); object(c, q, want, what); F r(v); r = q; object(c, r, want, what); *p = r; }
    object(c, *p, want, what);
    p->~F();
    for (size_t i = 0; i < mem.size(); i++) if ((i < off || i >= off + sizeof(F)) && mem[i] != 0xA5) c.fail("%s: a byte outside the formatter object (offset %ld of %zu) was written", what, long(i) - long(off), sizeof(F));
}
template <class T> void generic(Ctx &c, T v, const std::string &want, const char *what) {
    c.calls(4);
    std::string a = lexi::lexi(v), b = lexi::string(v), e = lexi::escape(v), j = lexi::jsonify(v);
    if (a != want || b != want || e != want || j != want) c.fail("%s: lexi %s, string %s, escape %s, jsonify %s; configured %s", what, show(a).c_str(), show(b).c_str(), show(e).c_str(), show(j).c_str(), show(want).c_str());
}
inline void read(Ctx &c, const std::string &s) {
    int wb = s == TRU ? 1 : s == FAL ? 0 : 2, wn = s == NUL ? 1 : 2;
    int b = run([&] { return lexi::lexi<bool>(s); }), b2 = run([&] { return bool(lexi::ExtractBool(s)); });
    int n = run([&] { return lexi::lexi<std::nullptr_t>(s) == nullptr; }), n2 = run([&] { return lexi::ExtractNull(s).null() == nullptr; });
    c.calls(4); c.outcome(s); c.note("%s: bool %s, null %s", show(s).c_str(), N[b], n == 1 ? "accepted" : N[n]);
    if (b != wb || b2 != wb) c.fail("bool from %s: %s / ExtractBool %s, want %s (configured %s, %s)", show(s).c_str(), N[b], N[b2], N[wb], show(TRU).c_str(), show(FAL).c_str());
    if (n != wn || n2 != wn) c.fail("null from %s: %s / ExtractNull %s, want %s (configured %s)", show(s).c_str(), n == 1 ? "accepted" : N[n], n2 == 1 ? "accepted" : N[n2], wn == 1 ? "accepted" : N[2], show(NUL).c_str());
    if (s.find('\0') == std::string::npos) {
        const char *p = s.c_str(); int x = run([&] { return lexi::lexi<bool>(p); }), y = run([&] { return lexi::lexi<std::nullptr_t>(p) == nullptr; }); c.calls(2);
        if (x != wb || y != wn) c.fail("from C string %s: bool %s, null %s", show(s).c_str(), N[x], N[y]);
    }
}
void setup(mc::Run &r) {
    r.each("null-bool", "null, true and false through every formatter and entry point", 3, [](Ctx &c, uint64_t i) {
        if (i == 0) { guarded<lexi::FormatNull, std::nullptr_t>(c, nullptr, NUL, "null"); generic(c, nullptr, NUL, "null"); lexi::FormatNull d; object(c, d, NUL, "FormatNull()"); }
        else { bool b = i == 2; guarded<lexi::FormatBool, bool>(c, b, b ? TRU : FAL, b ? "true" : "false"); generic(c, b, b ? TRU : FAL, b ? "true" : "false"); lexi::FormatBool x(!b); x = lexi::FormatBool(b); object(c, x, b ? TRU : FAL, "assigned bool"); }
    });
    auto fr = std::make_shared<std::vector<uint64_t>>(sp::fractions(52, 1));
    r.each("nan", "quiet and signalling NaNs of both signs with every payload of <= 1 (un)set bit or edge byte, as double, float, long double", fr->size() * 2, [fr](Ctx &c, uint64_t i) {
        uint64_t f = (*fr)[i / 2]; if (!f) f = 1; double d = sp::from_bits((i & 1 ? 0xFFFull : 0x7FFull) << 52 | f);
        guarded<lexi::FormatFloat, double>(c, d, NAN_, "NaN"); generic<double>(c, d, NAN_, "NaN"); generic<long double>(c, d, NAN_, "long double NaN");
        float g = sp::from_bits32((i & 1 ? 0x1FFu : 0xFFu) << 23 | (uint32_t(f >> 29) ? uint32_t(f >> 29) : 1u)); guarded<lexi::FormatFloat, float>(c, g, NAN_, "float NaN"); generic<float>(c, g, NAN_, "float NaN");
    });
    r.each("infinity", "both infinities as float, double, long double, and long doubles rounding to one", 8, [](Ctx &c, uint64_t i) {
        double s = i & 1 ? -1 : 1; const std::string &w = i & 1 ? NINF : INF;
        if (i / 2 == 0) { guarded<lexi::FormatFloat, double>(c, s * INFINITY, w, "double infinity"); generic<double>(c, s * INFINITY, w, "double infinity"); }
        if (i / 2 == 1) { guarded<lexi::FormatFloat, float>(c, float(s) * INFINITY, w, "float infinity"); generic<float>(c, float(s) * INFINITY, w, "float infinity"); }
        if (i / 2 == 2) { guarded<lexi::FormatFloat, long double>(c, s * (long double)INFINITY, w, "long double infinity"); generic<long double>(c, s * (long double)INFINITY, w, "long double infinity"); }
        // alternating values in one object
        if (i / 2 == 3) { lexi::FormatFloat f(1.5); f = lexi::FormatFloat(s * INFINITY); object(c, f, w, "assigned infinity"); f = lexi::FormatFloat(NAN); object(c, f, NAN_, "assigned NaN"); f = lexi::FormatFloat(2.5); object(c, f, "2.5", "assigned 2.5"); }
    });
    auto ed = std::make_shared<std::vector<std::string>>();
    {
        std::set<std::string> o; std::string all = sp::all_bytes();
        std::set<std::string> base{NUL, TRU, FAL, NAN_, INF, NINF, "null", "true", "false", "NaN", "Infinity", "None", "True", "nil", ""};
        for (auto &s : base) {
            o.insert(s);
            for (size_t n = 0; n <= s.size(); n++) { o.insert(s.substr(0, n)); o.insert(s.substr(n)); }
            for (size_t i = 0; i <= s.size(); i++) {
                bool edge = s.size() <= 40 || i < 4 || i + 8 > s.size() || (i >= 14 && i <= 18) || (i >= 28 && i <= 34);
                if (i < s.size()) { std::string t = s; t.erase(i, 1); o.insert(t); t = s; t[i] = char(t[i] ^ 0x20); o.insert(t); t = s; t[i] = char(t[i] + 1); o.insert(t); }
                if (edge) for (char ch : all) { std::string t = s; t.insert(i, 1, ch); o.insert(t); if (i < s.size()) { t = s; t[i] = ch; o.insert(t); } }
            }
            for (auto &x : base) { o.insert(s + x); o.insert(s + std::string(1, '\0') + x); }
            for (size_t n = 1; n < 40; n++) { o.insert(s + std::string(n, '\0')); o.insert(s + std::string(n, ' ')); }
        }
        ed->assign(o.begin(), o.end());
    }
    r.each("read", "every prefix, suffix, one-edit neighbour (any byte) and concatenation of configured and default literals", ed->size(), [ed](Ctx &c, uint64_t i) { read(c, (*ed)[i]); });
    auto s2 = std::make_shared<sp::Strings>(sp::all_bytes(), 2);
    r.each("read-bytes", "all byte strings of length <= 2", s2->count(), [s2](Ctx &c, uint64_t i) { read(c, s2->at(i)); });
    std::string letters; for (const std::string *p : {&NUL, &TRU, &FAL}) for (char ch : *p) if (letters.find(ch) == std::string::npos && letters.size() < 9) letters += ch;
    if (letters.empty()) letters = "x";
    auto st = std::make_shared<sp::Strings>(letters, r.thorough() ? 6 : 4);
    r.each("read-letters", "all strings over (9 of) the letters of the literals up to the length", st->count(), [st](Ctx &c, uint64_t i) { read(c, st->at(i)); });
    r.each("others", "other conversions are unaffected: integers, characters, enumerations, finite floats over edge values", 2000, [](Ctx &c, uint64_t i) {
        int64_t v = int64_t(i) - 1000; std::string w = ref::sdec(v);
        guarded<lexi::FormatInt, long long>(c, v, w, "long long"); generic<long long>(c, v, w, "long long"); if (lexi::lexi<long long>(w) != v) c.fail("%s is not read back", w.c_str());
        double d = double(v) / 8; char b[40]; snprintf(b, sizeof b, "%.3f", d); std::string t = b; while (t.back() == '0' && t[t.size() - 2] != '.') t.pop_back(); if (d == 0) t = "0.0";
        guarded<lexi::FormatFloat, double>(c, d, t, "double"); generic<double>(c, d, t, "double"); if (lexi::lexi<double>(t) != d) c.fail("%s is not read back", t.c_str());
        double e = sp::from_bits((0x3FFull + i - 1000) << 52 | 0xFFFFFFFFFFFFFull * (i & 1)); std::string u = lexi::FormatFloat(-e).string(); guarded<lexi::FormatFloat, double>(c, -e, u, "double"); if (lexi::lexi<double>(u) != -e) c.fail("%s does not read back as %a", u.c_str(), -e);
        if (i < 256) { char ch = char(i); std::string s = lexi::lexi(ch); if (s != std::string(1, ch) || lexi::lexi<char>(s) != ch) c.fail("char %d is not formatted as itself", int(i)); }
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c22::setup)
#endif
