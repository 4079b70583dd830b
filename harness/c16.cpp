// C16: big integers compute exactly.
#include "bigops.hpp"
#include "ref.hpp"
#include "spaces.hpp"
#include <map>

namespace c16 {
using mc::Ctx; using mc::show; using big::Z; using big::B; using big::Op; using big::Cell;

struct Seed { std::string what; std::function<B()> make; Z z; };
inline std::vector<Seed> seeds() {
    std::vector<Seed> v;
    for (uint64_t d : {0ull, 1ull, 2ull, 5ull, 0xFFFFFFFFull, 0x100000000ull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull}) v.push_back({ref::udec(d), [d] { return B(d); }, Z(d)});
    auto dec = [&](const std::string &s, const std::string &w) { v.push_back({w, [s] { return B(s.data(), s.size()); }, Z(s.substr(s.find_first_not_of('0') == std::string::npos ? s.size() - 1 : s.find_first_not_of('0')))}); };
    dec("10000000000000000000", "10^19"); dec(std::string(38, '9'), "10^38-1"); dec("18446744073709551616", "2^64");
    dec(((Z(1) << 128) - 1).str(), "2^128-1"); dec(((Z(1) << 192) - 1).str(), "2^192-1"); dec(((Z(1) << 256) - (Z(1) << 64)).str(), "2^256-2^64"); dec((Z(1) << 128).str(), "2^128"); dec(((Z(1) << 128) - 2).str(), "2^128-2");
    dec(((Z(0xFFFFFFFFFFFFFFFEull) << 64) + Z(0xFFFFFFFFFFFFFFFFull)).str(), "2^128-2^64-1"); dec(((Z(1) << 191) + 1).str(), "2^191+1");
    return v;
}
static const std::vector<Seed> &S() { static std::vector<Seed> s = seeds(); return s; }

inline void check(Ctx &c, const Cell &x, const Z &z, const std::function<std::string()> &hist) {
    c.calls(1);
    if (!big::equal(x.b, z)) c.fail("%s: big integer holds %s, want %s", hist().c_str(), big::str(big::value(x.b)).c_str(), big::str(z).c_str());
    if (x.b.isZero() != (z == 0)) c.fail("%s: isZero() is %d for %s", hist().c_str(), int(x.b.isZero()), big::str(z).c_str());
    uint64_t lo = uint64_t(z & 0xFFFFFFFFFFFFFFFFull);
    if ((x.b == lo) != (z == lo) || (x.b == uint64_t(lo + 1))) c.fail("%s: comparison of %s with a word is wrong", hist().c_str(), big::str(z).c_str());
    if (!x.intact()) c.fail("%s: memory next to the object was overwritten", hist().c_str());
}
void dfs(Ctx &c, const Cell &x, const Z &z, std::vector<Op> &h, size_t seed, int depth) {
    for (const Op &o : big::ops()) {
        if (o.kind >= big::SET && depth == 1 && h.size() > 1) continue;     // nothing new at the last step
        Cell y(x.b); Z w = z; h.push_back(o);
        auto hist = [&] { std::string s = S()[seed].what; for (auto &p : h) s += "; " + big::name(p); return s; };
        try { big::apply(y.b, o); } catch (const std::runtime_error &e) { c.fail("%s: unexpected std::runtime_error %s", hist().c_str(), e.what()); }
        big::model(w, o);
        check(c, y, w, hist);
        if (depth > 1) dfs(c, y, w, h, seed, depth - 1); else c.outcome(uint64_t(w & 0xFFFFFFFFFFFFFFFFull) * 31 + uint64_t((w >> 64) & 0xFFFFFFFFFFFFFFFFull) * 17 + big::words(w));
        h.pop_back();
    }
}
inline int cmp(const Z &a, const Z &b) { return a < b ? -1 : a > b ? 1 : 0; }
inline void pair(Ctx &c, const B &a, const Z &za, const B &b, const Z &zb) {
    int w = cmp(za, zb), g = a.compare(b);
    c.calls(3);
    if ((g < 0 ? -1 : g > 0 ? 1 : 0) != w) c.fail("compare(%s, %s) = %d", big::str(za).c_str(), big::str(zb).c_str(), g);
    if ((a == b) != (w == 0)) c.fail("%s == %s is %d", big::str(za).c_str(), big::str(zb).c_str(), int(a == b));
    Cell out(uint64_t(0)); out.b = uint64_t(0xDEADBEEF); out.b <<= 900;   // a used output object
    bool threw = false, lt = false;
    try { lt = a.difference(b, &out.b); } catch (const std::runtime_error &) { threw = true; }
    if (threw != (w == 0)) c.fail("difference(%s, %s) %s", big::str(za).c_str(), big::str(zb).c_str(), threw ? "throws although the values differ" : "of equal values does not throw");
    if (threw) return;
    if (lt != (w < 0)) c.fail("difference(%s, %s) says %s", big::str(za).c_str(), big::str(zb).c_str(), lt ? "first is smaller" : "first is larger");
    Z d = w < 0 ? Z(zb - za) : Z(za - zb);
    if (!big::equal(out.b, d) || !out.intact()) c.fail("difference(%s, %s) = %s, want %s", big::str(za).c_str(), big::str(zb).c_str(), big::str(big::value(out.b)).c_str(), big::str(d).c_str());
    // the canonical representation is usable further
    B again(out.b); if (!(again == out.b) || again.compare(out.b) != 0) c.fail("difference(%s, %s): result does not compare equal to its copy", big::str(za).c_str(), big::str(zb).c_str());
    if (out.b.count() != big::words(d)) { B k(uint64_t(0)); std::string t = d.str(); k = B(t.data(), t.size()); if (!(k == out.b)) c.fail("difference(%s, %s) does not compare equal to the same value", big::str(za).c_str(), big::str(zb).c_str()); }
}
inline void decimals(Ctx &c, const std::string &s) {
    size_t nz = s.find_first_not_of('0'); Z z = nz == std::string::npos ? Z(0) : Z(s.substr(nz));
    Cell x(s.data(), s.size());
    c.note("decimal %s", show(s.substr(0, 60)).c_str());
    check(c, x, z, [&] { return "decimal of " + std::to_string(s.size()) + " digits " + show(s.substr(0, 100)); });
    c.outcome(s);
}
void setup(mc::Run &r) {
    S();
    int depth = r.thorough() ? 5 : r.san() ? 2 : 4;
    size_t n = big::ops().size();
    r.each("sequences", "all operation sequences of length <= " + std::to_string(depth) + " over " + std::to_string(n) + " operations from " + std::to_string(S().size()) + " seeds", S().size() * n, [n, depth](Ctx &c, uint64_t i) {
        size_t s = i / n; const Op &o = big::ops()[i % n];
        Cell x(S()[s].make()); Z z = S()[s].z;
        auto h0 = [&] { return S()[s].what; };
        check(c, x, z, h0);
        std::vector<Op> h{o};
        auto hist = [&] { return S()[s].what + "; " + big::name(o); };
        c.note("%s ...", hist().c_str());
        try { big::apply(x.b, o); } catch (const std::runtime_error &e) { c.fail("%s: unexpected std::runtime_error %s", hist().c_str(), e.what()); }
        big::model(z, o); check(c, x, z, hist);
        dfs(c, x, z, h, s, depth - 1);
    }, 1);
    // pairs of reached values
    auto st = std::make_shared<std::vector<std::pair<B, Z>>>();
    {
        std::map<Z, B> m; size_t cap = r.thorough() ? 6000 : r.san() ? 150 : 1400, step = 0;
        for (int round = 0; round < 3 && m.size() < cap; round++) for (auto &s : S()) {
            if (round == 0) { m.emplace(s.z, s.make()); continue; }
            for (size_t a = 0; a < n; a++) {
                const Op &o = big::ops()[a]; if (o.kind >= big::SET) continue;
                Z z = s.z; B b = s.make();
                try { big::apply(b, o); big::model(z, o); if (round == 2) { const Op &p = big::ops()[(a * 7 + step++) % n]; if (p.kind >= big::SET) continue; big::apply(b, p); big::model(z, p); } } catch (const std::runtime_error &) { continue; }
                if (big::equal(b, z) && m.size() < cap) m.emplace(z, b);
            }
        }
        // word patterns: every 3- and 4-word combination of {0, 1, max} words (leading word non-zero)
        static const uint64_t W[3] = {0, 1, ~0ull};
        for (int k = 0; k < 81; k++) { Z z = 0; int q = k; for (int i = 0; i < 4; i++, q /= 3) z = (z << 64) + W[q % 3]; std::string t = z.str(); m.emplace(z, B(t.data(), t.size())); }
        for (auto &p : m) st->push_back({p.second, p.first});
    }
    uint64_t N = st->size();
    r.range("pairs", "compare, == and difference on all ordered pairs of " + std::to_string(N) + " reached values", N * N, [st, N](Ctx &c, uint64_t lo, uint64_t hi) {
        for (uint64_t i = lo; i < hi; i++) { c.at(i); auto &a = (*st)[i / N], &b = (*st)[i % N]; c.note("%s vs %s", big::str(a.second).c_str(), big::str(b.second).c_str()); pair(c, a.first, a.second, b.first, b.second); }
    });
    // all values of up to 4 words over a word alphabet: comparisons, differences and every operation on each
    auto wv = std::make_shared<std::vector<std::pair<B, Z>>>();
    {
        static const uint64_t W[] = {0, ~0ull, 1, 1ull << 63, ~0ull - 1, 0xFFFFFFFFull, 1ull << 32, 2}; uint64_t k = r.san() ? 2 : r.thorough() ? 8 : 6, n4 = k * k * k * k;
        for (uint64_t i = 0; i < n4; i++) { uint64_t q = i; Z z = 0; B b(uint64_t(0)); for (int j = 0; j < 4; j++, q /= k) { uint64_t w = W[q % k]; if (!b.isZero()) b <<= 64; b += w; z = (z << 64) + w; } wv->push_back({b, z}); }
    }
    uint64_t M = wv->size();
    r.range("word-pairs", "compare, == and difference on all ordered pairs of the " + std::to_string(M) + " values of 4 words over a word alphabet", M * M, [wv, M](Ctx &c, uint64_t lo, uint64_t hi) {
        for (uint64_t i = lo; i < hi; i++) { c.at(i); auto &a = (*wv)[i / M], &b = (*wv)[i % M]; c.note("%s vs %s", big::str(a.second).c_str(), big::str(b.second).c_str()); if (i / M == i % M) check(c, Cell(a.first), a.second, [&] { return "words of " + big::str(a.second); }); pair(c, a.first, a.second, b.first, b.second); }
    });
    r.each("word-ops", "every one of the operations, then every addition, on each of these values", M * n, [wv, n](Ctx &c, uint64_t i) {
        auto &a = (*wv)[i / n]; const Op &o = big::ops()[i % n]; Cell x(a.first); Z z = a.second; auto h = [&] { return big::str(a.second) + "; " + big::name(o); }; c.note("%s", h().c_str());
        big::apply(x.b, o); big::model(z, o); check(c, x, z, h); c.outcome(i);
        for (const Op &p : big::ops()) if (p.kind == big::ADD) { Cell y(x.b); Z w = z; big::apply(y.b, p); big::model(w, p); check(c, y, w, [&] { return h() + "; " + big::name(p); }); }
    });
    auto ds = std::make_shared<sp::Strings>(std::string("0159"), r.thorough() ? 9 : r.san() ? 4 : 7);
    r.each("decimal-short", "all digit strings up to the length over {0 1 5 9}", ds->count(), [ds](Ctx &c, uint64_t i) { std::string s = ds->at(i); if (s.size()) decimals(c, s); });
    uint64_t L = r.thorough() ? 3000 : r.san() ? 60 : 400;
    r.each("decimal-long", "digit strings of every length up to " + std::to_string(L) + ": repeated digit 0..9, 10..0, 10..01, 0..01, 0..0 9..9, ascending", L * 16, [](Ctx &c, uint64_t i) {
        int k = int(i % 16); size_t n = size_t(i / 16) + 1; std::string s(n, k < 10 ? char('0' + k) : '0');
        if (k == 10 || k == 11) s[0] = '1'; if (k == 11 || k == 12) s[n - 1] = '1'; if (k == 13) s += std::string(n, '9'); if (k == 14) for (size_t j = 0; j < n; j++) s[j] = char('0' + j % 10); if (k == 15) { s = std::string(n, '9'); s[n / 2] = '0'; }
        decimals(c, s);
    });
    r.each("decimal-chunks", "58-digit strings with every digit at every position over backgrounds 0 and 9", 58ull * 10 * 2, [](Ctx &c, uint64_t i) { std::string s(58, i & 1 ? '9' : '0'); i >>= 1; s[i % 58] = char('0' + i / 58); decimals(c, s); });
    r.each("decimal-invalid", "any non-digit byte at any position of 45-digit strings raises std::runtime_error", 246ull * 45, [](Ctx &c, uint64_t i) {
        int b = int(i % 246); if (b >= '0') b += 10; std::string s(45, '7'); s[i / 246] = char(b);
        c.calls(1); c.note("byte %d at %d", b, int(i / 246)); c.outcome(i);
        try { B x(s.data(), s.size()); } catch (const std::runtime_error &) { return; }
        c.fail("decimal string with byte 0x%02x at position %d is accepted", b, int(i / 246));
    });
    auto rw = std::make_shared<std::vector<uint64_t>>(sp::fractions(64, r.san() ? 0 : 1));
    uint64_t R = r.san() ? 50 : 700; uint64_t rs = std::max<uint64_t>(1, rw->size() / R);
    r.each("word-products", "two-word value x word over structured words, 64- and 32-bit multiply, add", R * R, [rw, R, rs](Ctx &c, uint64_t i) {
        uint64_t a = (*rw)[(i / R) * rs % rw->size()], b = (*rw)[(i % R) * rs % rw->size()];
        Z z = (Z(a | 1) << 64) + b; Cell x(a | 1); x.b <<= 64; x.b += b;
        auto h = [&] { return "words " + ref::udec(a) + ", " + ref::udec(b); }; c.note("%s", h().c_str());
        check(c, x, z, h); { Cell y(x.b); y.b *= b; check(c, y, z * b, h); } { Cell y(x.b); y.b *= uint32_t(b); check(c, y, z * uint32_t(b), h); } { Cell y(x.b); y.b += a; check(c, y, z + a, h); } { Cell y(x.b); y.b <<= (b & 127); check(c, y, z << unsigned(b & 127), h); }
        c.outcome(a * 7 + b);
    });
    r.each("shifts-pows", "every shift up to 1500 and every power of five up to 600 of 6 values", 6ull * (1500 + 600) / (r.san() ? 6 : 1), [](Ctx &c, uint64_t i) {
        const Seed &s = S()[(i % 6) * 3]; uint64_t k = i / 6; Cell x(s.make()); Z z = s.z; Op o{k < 1500 ? int(big::SHL) : int(big::POW5), k < 1500 ? k : k - 1500};
        auto h = [&] { return s.what + "; " + big::name(o); }; c.note("%s", h().c_str());
        try { big::apply(x.b, o); } catch (const std::runtime_error &e) { c.fail("%s: unexpected %s", h().c_str(), e.what()); }
        big::model(z, o); check(c, x, z, h); c.outcome(i);
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c16::setup)
#endif
