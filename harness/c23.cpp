// C23: the spaces of the other checks, reduced, under AddressSanitizer and UndefinedBehaviorSanitizer. Only memory and
// arithmetic errors count here (the explorer ignores semantic differences in the "san" tier).
#include "mc.hpp"
#define SPACE(n) namespace n { void setup(mc::Run &); }
SPACE(c01) SPACE(c02) SPACE(c03) SPACE(c04) SPACE(c05) SPACE(c06) SPACE(c07) SPACE(c08) SPACE(c09) SPACE(c10) SPACE(c11) SPACE(c12) SPACE(c13) SPACE(c16) SPACE(c17) SPACE(c18) SPACE(c19) SPACE(c20) SPACE(c25)
static void setup(mc::Run &r) {
    struct { const char *n; void (*f)(mc::Run &); } S[] = {
#define S(n) {#n, n::setup},
        S(c01) S(c02) S(c03) S(c04) S(c05) S(c06) S(c07) S(c08) S(c09) S(c10) S(c11) S(c12) S(c13) S(c16) S(c17) S(c18) S(c19) S(c20) S(c25) };
    std::string tier = r.tier; bool deep = getenv("MC_DEEP") != nullptr;   // thorough: the quick spaces of the other checks
    for (auto &s : S) {
        size_t k = r.fams.size(); if (deep) { r.tier = "quick"; } s.f(r); r.tier = tier;
        for (size_t g = k; g < r.fams.size();) if (r.fams[g].name == "giant") r.fams.erase(r.fams.begin() + long(g)); else g++;   // (gigabytes under a sanitizer)
        for (; k < r.fams.size(); k++) {
            mc::Family &F = r.fams[k]; F.name = std::string(s.n) + "/" + F.name;
            if (!deep) F.bound = "reduced space of: " + F.bound;
            // many spaces repeat the same library calls: one is kept whole, the other large ones are thinned by a prime step
            uint64_t step = 1; if (deep) { for (uint64_t p : {1, 3, 7, 13, 29, 61, 127, 251, 509, 1021}) { step = p; if (F.count / p <= 5000000) break; } } else if (F.count > 400000 && F.name == "c03/double-exp-frac") step = 3; else if (F.count > 400000) for (uint64_t p : {3, 7, 13, 29, 61, 127}) { step = p; if (F.count / p <= 250000) break; }
            if (step > 1) { auto old = F.run; F.bound = "every " + std::to_string(step) + "th of the " + F.bound; F.run = [old, step](mc::Ctx &c, uint64_t lo, uint64_t hi) { for (uint64_t i = (lo + step - 1) / step * step; i < hi; i += step) old(c, i, i + 1); }; }
        }
    }
}
MC_MAIN(setup)
