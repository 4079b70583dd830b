// C11: null, bool and char extraction accept exactly their literals.
#include "mc.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <set>
#include <lexi/lexi.hpp>

namespace c11 {
using mc::Ctx; using mc::show;
// 0/1: value, 2: runtime_error, 3: other exception
template <class F> int run(F f) { try { return f() ? 1 : 0; } catch (const std::runtime_error &) { return 2; } catch (...) { return 3; } }
static const char *N[] = {"false", "true", "std::runtime_error", "another exception"};

inline void check(Ctx &c, const std::string &s) {
    int wb = s == "true" ? 1 : s == "false" ? 0 : 2, wn = s == "null" ? 1 : 2;
    int b = run([&] { return lexi::lexi<bool>(s); }), b2 = run([&] { return bool(lexi::ExtractBool(s)); });
    int n = run([&] { return lexi::lexi<std::nullptr_t>(s) == nullptr; }), n2 = run([&] { return lexi::ExtractNull(s).null() == nullptr; });
    int ch = 0; char got = 0; bool empty = s.empty();
    ch = run([&] { got = lexi::lexi<char>(s); char g2 = char(lexi::ExtractChar(s)); unsigned char g3 = (unsigned char)(lexi::ExtractChar(s)); return got == s[0] && g2 == s[0] && g3 == (unsigned char)s[0]; });
    c.calls(5); c.outcome(s);
    c.note("%s: bool %s, null %s, char %s %d", show(s).c_str(), N[b], N[n], N[ch], got);
    if (b != wb || b2 != wb) c.fail("bool from %s: %s / ExtractBool %s, want %s", show(s).c_str(), N[b], N[b2], N[wb]);
    if (n != wn || n2 != wn) c.fail("null from %s: %s / ExtractNull %s, want %s", show(s).c_str(), n == 1 ? "accepted" : N[n], n2 == 1 ? "accepted" : N[n2], wn == 1 ? "accepted" : N[2]);
    if (ch != (empty ? 2 : 1)) c.fail("char from %s: %s (value %d)", show(s).c_str(), ch == 0 ? "wrong byte" : N[ch], got);
}
inline void check_cstr(Ctx &c, const std::string &s0) {
    const char *p = s0.c_str(); std::string s(p);
    int wb = s == "true" ? 1 : s == "false" ? 0 : 2, wn = s == "null" ? 1 : 2;
    int b = run([&] { return lexi::lexi<bool>(p); }), n = run([&] { return lexi::lexi<std::nullptr_t>(p) == nullptr; }), h = run([&] { return lexi::lexi<char>(p) == s[0]; });
    c.calls(3);
    if (b != wb || n != wn || h != (s.empty() ? 2 : 1)) c.fail("from C string %s: bool %s, null %s, char %s", show(s).c_str(), N[b], N[n], N[h]);
}
void setup(mc::Run &r) {
    auto s2 = std::make_shared<sp::Strings>(sp::all_bytes(), r.san() ? 1 : 2);
    r.each("bytes", "all byte strings of length <= 2", s2->count(), [s2](Ctx &c, uint64_t i) { std::string s = s2->at(i); check(c, s); check_cstr(c, s); });
    auto st = std::make_shared<sp::Strings>(std::string("truefalsn"), r.thorough() ? 7 : r.san() ? 3 : 5);
    r.each("letters", "all strings over the letters of the literals up to the length", st->count(), [st](Ctx &c, uint64_t i) { check(c, st->at(i)); });
    auto mixed = std::make_shared<sp::Strings>(std::string("tTrRuUeE01 \0nl", 14), r.thorough() ? 6 : r.san() ? 2 : 4);
    r.each("mixed", "all strings over {t T r R u U e E 0 1 space NUL n l} up to the length", mixed->count(), [mixed](Ctx &c, uint64_t i) { check(c, mixed->at(i)); check_cstr(c, mixed->at(i)); });
    // 1 edit with every byte, 2 edits over a smaller alphabet, of each literal
    auto ed = std::make_shared<std::vector<std::string>>();
    {
        std::set<std::string> one, two; std::string all = sp::all_bytes(), small = r.san() ? std::string("e ") : std::string("trufalsenTRUFALSEN01 \t\n\0\xff.", 27);
        auto edits = [](const std::string &s, const std::string &a, std::set<std::string> &o) {
            for (size_t i = 0; i <= s.size(); i++) {
                if (i < s.size()) { std::string t = s; t.erase(i, 1); o.insert(t); }
                for (char ch : a) { std::string t = s; t.insert(i, 1, ch); o.insert(t); if (i < s.size()) { t = s; t[i] = ch; o.insert(t); } }
            }
            for (size_t i = 0; i + 1 < s.size(); i++) { std::string t = s; std::swap(t[i], t[i + 1]); o.insert(t); }
        };
        std::set<std::string> base{"true", "false", "null"}, mid;
        for (auto &b : base) { edits(b, all, one); edits(b, small, mid); }
        for (auto &m : mid) edits(m, small, two);
        one.insert(base.begin(), base.end()); one.insert(two.begin(), two.end());
        for (auto &x : base) for (auto &y : base) { one.insert(x + y); one.insert(x + std::string(1, '\0') + y); one.insert(x + std::string(1, '\0')); one.insert(" " + x); one.insert(x + "\n"); one.insert("\"" + x + "\""); }
        for (const char *w : {"TRUE", "FALSE", "NULL", "True", "False", "Null", "nullptr", "NaN", "nil", "yes", "no", "1", "0", "on", "off", "t", "f", "n"}) one.insert(w);
        ed->assign(one.begin(), one.end());
    }
    r.each("edits", "all texts within 1 edit (any byte) or 2 edits (27 bytes) of a literal, concatenations, other spellings", ed->size(), [ed](Ctx &c, uint64_t i) { check(c, (*ed)[i]); check_cstr(c, (*ed)[i]); });
    r.each("long", "literals padded to every length up to 600, chars of long texts", r.san() ? 40 : 600, [](Ctx &c, uint64_t n) {
        for (const char *l : {"true", "false", "null"}) for (char p : {' ', 'e', '\0', 'l', '\xff'}) { check(c, std::string(l) + std::string(n + 1, p)); check(c, std::string(n + 1, p) + l); }
        check(c, std::string(n, 'x'));
    });
    r.each("large", "literals padded by 2^k + {-1, 0, 1} bytes, k <= 20", r.san() ? 30 : 63, [](Ctx &c, uint64_t i) {
        size_t n = (size_t(1) << (i / 3)) + i % 3 - 1; for (const char *l : {"true", "false", "null"}) for (char p : {' ', 'e', '\0'}) { check(c, std::string(l) + std::string(n + 1, p)); check(c, std::string(n + 1, p) + l); }
    });
    if (!r.san()) r.each("giant", "a literal followed by 2^31 and by 2^32 bytes, if memory allows", 2, [](Ctx &c, uint64_t i) {
        const uint64_t n = uint64_t(1) << (31 + i); sp::Giant g(n + (n >> 1)); if (!g.ok) { c.note("not enough memory"); return; }
        try {
            std::string s; s.reserve(n + 8); s.resize(n + 4, '\0');
            for (const char *l : {"true", "null", "fals"}) for (char fifth : {'\0', 'e'}) {
                memcpy(&s[0], l, 4); s[4] = fifth; int ok = 0; c.calls(3); c.note("%s and %llu bytes", l, (unsigned long long)n);
                try { lexi::ExtractBool x(s); ok = 1; } catch (const std::runtime_error &) {}
                try { lexi::ExtractNull x(s); ok = 2; } catch (const std::runtime_error &) {}
                if (ok) c.fail("%s extracted from %s followed by %llu bytes", ok == 1 ? "a boolean" : "null", l, (unsigned long long)n);
                if (char(lexi::ExtractChar(s)) != l[0]) c.fail("the character extracted from a text of %llu bytes is not its first", (unsigned long long)n + 4);
            }
        } catch (const std::bad_alloc &) { c.note("not enough memory"); }
    }, 1);
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c11::setup)
#endif
