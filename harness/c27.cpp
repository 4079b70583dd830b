// C27: the public headers combine freely. lib/checks.py generates one source file for every sequence of public headers up
// to a length (which uses each header right where it is included, then everything), compiles them all and links them
// into this program; every file's probes must give the expected texts.
#include "mc.hpp"
#ifndef MC_TU
typedef void (*Probe)(std::vector<std::string> &);
struct Unit { const char *name; Probe p; };
extern const Unit UNITS[]; extern const size_t NUNITS;
namespace c27 {
using mc::Ctx; using mc::show;
static const char *const WANT[] = {"true", "false", "1", "a", "\\;", "\"\\n\"", "-42", "18446744073709551615", "65535", "1.5", "0.1", "1e21", "null", "-7", "41", "2147483648", "x\\ y", "\"x y\"", "123", "x y", "own", "inside"};
void setup(mc::Run &r) {
    r.each("units", "one source file for every sequence of public headers, all linked into one program", NUNITS, [](Ctx &c, uint64_t i) {
        std::vector<std::string> v; UNITS[i].p(v); c.calls(v.size()); c.note("%s: %zu results", UNITS[i].name, v.size()); for (auto &s : v) c.outcome(s);
        for (size_t k = 0; k < v.size(); k++) { size_t q = v[k].find('='); size_t w = size_t(atoi(v[k].c_str())); std::string g = v[k].substr(q + 1); if (g != WANT[w]) c.fail("in a source file that includes %s: %s, want %s", UNITS[i].name, show(g).c_str(), WANT[w]); }
    }, 1);
}
}
MC_MAIN(c27::setup)
#endif
