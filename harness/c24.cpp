// C24: conversions do not depend on the locale. Every case runs a block of inputs in the C locale and again under every
// locale, installed in every way (setlocale of all categories or of one, a thread locale, the global C++ locale).
// MC_LOCALES: names (in LOCPATH), separated by spaces. MC_FINDING: file created when the listed known finding is seen.
#include "mc.hpp"
#include "ops.hpp"
#include "spaces.hpp"
#include "ref.hpp"
#include <clocale>
#include <locale>
#include <locale.h>

namespace c24 {
using mc::Ctx; using mc::show;
struct Loc { std::string name, radix; };
static std::vector<Loc> *LOC;
enum { ALL, NUMERIC, CTYPE, THREAD, CXX, NWAY };
static const char *WAY[] = {"setlocale(LC_ALL)", "setlocale(LC_NUMERIC)", "setlocale(LC_CTYPE)", "uselocale", "std::locale::global"};

struct Install {
    int way; locale_t l = nullptr, old = nullptr;
    Install(const std::string &n, int w) : way(w) {
        bool ok = true;
        switch (w) {
        case ALL: ok = setlocale(LC_ALL, n.c_str()); break;
        case NUMERIC: ok = setlocale(LC_NUMERIC, n.c_str()); break;
        case CTYPE: ok = setlocale(LC_CTYPE, n.c_str()); break;
        case THREAD: l = newlocale(LC_ALL_MASK, n.c_str(), nullptr); ok = l; if (ok) old = uselocale(l); break;
        case CXX: std::locale::global(std::locale(n.c_str())); break;
        }
        if (!ok) { fprintf(stderr, "cannot install locale %s\n", n.c_str()); _exit(2); }
    }
    ~Install() { if (way == THREAD) { uselocale(old); freelocale(l); } else if (way == CXX) std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
};
inline void finding() { static bool done; if (done) return; done = true; const char *f = getenv("MC_FINDING"); if (f) { FILE *p = fopen(f, "w"); if (p) fclose(p); } }

template <class T> bool same(T a, T b) { return a == b || (a != a && b != b); }
// the known finding: under a locale with another decimal separator, '.' ends the number and the separator acts as '.'
inline std::string as_if(const std::string &s, const std::string &radix) {
    std::string t; for (size_t i = 0; i < s.size();) { if (s[i] == '.') break; if (s.compare(i, radix.size(), radix) == 0) { t += '.'; i += radix.size(); while (i < s.size() && s[i] != '.' && s.compare(i, radix.size(), radix) != 0) t += s[i++]; break; } t += s[i++]; }
    return t;
}
// a block of texts: compute, as a vector of strings, whatever f gives for each
typedef std::function<std::string(size_t)> F;
inline void block(Ctx &c, size_t n, const F &f, const F &name, const std::function<std::string(size_t, const std::string &radix)> &known) {
    std::vector<std::string> want(n); for (size_t i = 0; i < n; i++) { want[i] = f(i); c.calls(1); c.outcome(want[i]); }
    if (c.verbose) c.note("%s -> %s under every locale", name(n / 2).c_str(), show(want[n / 2]).c_str());
    for (auto &l : *LOC) for (int w = 0; w < NWAY; w++) {
        std::string bad; size_t bi = 0; bool failed = false;
        { Install in(l.name, w);
          for (size_t i = 0; i < n; i++) { std::string g = f(i); c.calls(1); if (g != want[i]) { bool ok = false;
              if (known && w != CTYPE && l.radix != ".") { setlocale(LC_ALL, "C"); locale_t sv = w == THREAD ? uselocale(LC_GLOBAL_LOCALE) : nullptr; std::string k = known(i, l.radix); if (w == THREAD) uselocale(sv); else if (w == NUMERIC) setlocale(LC_NUMERIC, l.name.c_str()); else setlocale(LC_ALL, l.name.c_str()); ok = g == k; }
              if (ok) { finding(); continue; } bad = g; bi = i; failed = true; break; } } }
        if (failed) c.fail("%s under locale %s (%s): %s, in the C locale %s", name(bi).c_str(), l.name.c_str(), WAY[w], show(bad).c_str(), show(want[bi]).c_str());
    }
}
inline std::string floats(const std::string &s) { return ops::hexl(lexi::lexi<double>(s)) + " " + ops::hexl(lexi::lexi<float>(s)) + " " + ops::hexl(lexi::lexi<long double>(s)) + " " + ops::hexl(double(lexi::ExtractFloat(s))); }
inline std::string ints(const std::string &s) { return std::to_string(lexi::lexi<int>(s)) + " " + std::to_string(lexi::lexi<unsigned long long>(s)) + " " + std::to_string(lexi::lexi<long long>(s)) + " " + std::to_string(int(lexi::lexi<signed char>(s))) + " " + std::to_string(lexi::lexi<unsigned short>(s)); }
inline std::string others(const std::string &s) { return ops::guarded([&] { return std::string(lexi::lexi<bool>(s) ? "t" : "f"); }) + ops::guarded([&] { return std::string(lexi::lexi<std::nullptr_t>(s) == nullptr ? "n" : "?"); }) + ops::guarded([&] { return std::string(1, lexi::lexi<char>(s)); }); }
inline std::string texts(const std::string &s) { return lexi::lexi(s) + "|" + lexi::escape(s) + "|" + lexi::jsonify(s); }

void setup(mc::Run &r) {
    LOC = new std::vector<Loc>();
    std::string names = getenv("MC_LOCALES") ? getenv("MC_LOCALES") : ""; size_t p = 0;
    while (p < names.size()) { size_t q = names.find(' ', p); if (q == std::string::npos) q = names.size(); if (q > p) { Loc l; l.name = names.substr(p, q - p); if (!setlocale(LC_ALL, l.name.c_str())) { fprintf(stderr, "locale %s is not available\n", l.name.c_str()); exit(2); } l.radix = localeconv()->decimal_point; LOC->push_back(l); } p = q + 1; }
    setlocale(LC_ALL, "C");
    if (LOC->empty()) { fprintf(stderr, "no locales\n"); exit(2); }
    std::string nl = std::to_string(LOC->size()) + " locales x 5 ways: ";
    const size_t B = 256;
    auto blocks = [B](uint64_t n) { return (n + B - 1) / B; };
    auto texts_fam = [&](const char *name, const std::string &what, std::shared_ptr<sp::Strings> st, std::string (*f)(const std::string &), bool fl) {
        r.each(name, nl + what, blocks(st->count()), [=](Ctx &c, uint64_t i) {
            uint64_t lo = i * B, hi = std::min(st->count(), lo + B);
            std::function<std::string(size_t, const std::string &)> kf; if (fl) kf = [&](size_t k, const std::string &radix) { return f(as_if(st->at(lo + k), radix)); };
            block(c, hi - lo, [&](size_t k) { return f(st->at(lo + k)); }, [&](size_t k) { return "extraction or text conversion of " + show(st->at(lo + k)); }, kf);
        });
    };
    int d = r.thorough() ? 1 : 0;
    texts_fam("float-texts", "all texts over {1 0 . , - e space}", std::make_shared<sp::Strings>(std::string("10.,-e "), 4 + d), floats, true);
    texts_fam("float-texts-2", "all texts over {5 . , ' NBSP U+066B bytes _}", std::make_shared<sp::Strings>(std::string("5.,'\xa0\xd9\xab\xe2\x80\xaf_"), 3 + d), floats, true);
    texts_fam("int-texts", "all texts over {1 9 . , - ' space NBSP + tab}", std::make_shared<sp::Strings>(std::string("19.,-' \xa0+\t"), 3 + d), ints, false);
    texts_fam("int-bytes", "all byte strings of length <= 2", std::make_shared<sp::Strings>(sp::all_bytes(), 2), [](const std::string &s) { return ints(s + "7") + ints(s); }, false);
    texts_fam("escape-bytes", "escape and jsonify of all byte strings of length <= 2", std::make_shared<sp::Strings>(sp::all_bytes(), 2), texts, false);
    texts_fam("literal-texts", "bool, null, char from all texts over {t r u e n l I i 0xdd}", std::make_shared<sp::Strings>(std::string("truenlIi\xdd"), 4), others, false);
    static const char *lit[] = {"true", "false", "null", "TRUE", "FALSE", "NULL", "True", "False", "trUe", "nuLL", "t\xc4\xb1rue", "tr\xfc" "e", "", "vrai", "wahr", "1", "0"};
    r.each("literals", nl + "spellings of the literals", 1, [](Ctx &c, uint64_t) { block(c, sizeof lit / sizeof *lit, [](size_t k) { return others(lit[k]); }, [](size_t k) { return std::string(lit[k]); }, nullptr); });
    auto near = std::make_shared<sp::NearInts>(r.thorough() ? 100 : 4);
    r.each("format-int", nl + "integers around every power of 2 and 10", blocks(near->count()), [=](Ctx &c, uint64_t i) { uint64_t lo = i * B, hi = std::min(near->count(), lo + B); block(c, hi - lo, [&](size_t k) { uint64_t v = near->at(lo + k); return lexi::lexi((unsigned long long)v) + " " + lexi::lexi((long long)v) + " " + lexi::lexi(int(v)) + " " + lexi::lexi((short)v) + " " + lexi::jsonify((unsigned)v) + " " + lexi::escape((signed char)v) + " " + lexi::lexi(std::streampos(std::streamoff(v))); }, [&](size_t k) { return "formatting integer " + std::to_string(near->at(lo + k)); }, nullptr); });
    auto ef = std::make_shared<sp::ExpFrac>(0); uint64_t st = r.thorough() ? 7 : 211, nf = ef->count() / st;
    r.each("format-float", nl + "every exponent x edge fractions (every " + std::to_string(st) + "th), both signs", blocks(nf), [=](Ctx &c, uint64_t i) { uint64_t lo = i * B, hi = std::min(nf, lo + B); block(c, hi - lo, [&](size_t k) { double v = ef->at((lo + k) * st); return lexi::lexi(v) + " " + lexi::lexi(-v) + " " + lexi::lexi(float(v)) + " " + lexi::jsonify(v) + " " + lexi::lexi((long double)v); }, [&](size_t k) { char b[40]; snprintf(b, sizeof b, "formatting %a", ef->at((lo + k) * st)); return std::string(b); }, nullptr); });
    auto dec = std::make_shared<sp::Decimals>(sp::Decimals{r.thorough() ? 2000u : 200u, -8, 22});
    r.each("format-decimal", nl + "all decimals m x 10^e, small m", blocks(dec->count()), [=](Ctx &c, uint64_t i) { uint64_t lo = i * B, hi = std::min(dec->count(), lo + B); std::vector<double> v; for (uint64_t k = lo; k < hi; k++) v.push_back(dec->at(k)); block(c, hi - lo, [&](size_t k) { return lexi::lexi(v[k]) + " " + lexi::escape(-v[k]) + " " + lexi::FormatFloat(float(v[k])).string(); }, [&](size_t k) { return "formatting " + dec->text(lo + k); }, nullptr); });
    auto A = std::make_shared<std::vector<ops::Op>>(ops::alphabet());
    r.each("alphabet", nl + "every operation of the common alphabet (special values, characters, enumerations, big integers)", A->size(), [=](Ctx &c, uint64_t i) {
        auto &o = (*A)[i]; bool fl = o.name.compare(0, 8, "extract ") == 0;
        // extraction of texts with '.' is covered above with its known finding; here it is compared only where the locale keeps '.'
        if (fl && (o.name.find("double") != std::string::npos || o.name.find("float") != std::string::npos || o.name.find("subnormal") != std::string::npos)) return;
        block(c, 1, [&](size_t) { return o.run(nullptr); }, [&](size_t) { return o.name; }, nullptr); });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c24::setup)
#endif
