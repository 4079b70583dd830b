// C17: exceeding big-integer capacity is refused. The capacity is measured once (largest word count reachable by
// whole-word shifts); every operation has to agree with it exactly.
#include "bigops.hpp"
#include "ref.hpp"
#include <sys/wait.h>

namespace c17 {
using mc::Ctx; using mc::show; using big::Z; using big::B; using big::Op; using big::Cell;

// largest count() by shifting one word at a time; runs in a child so that corruption cannot take the explorer down
inline size_t measure() {
    int p[2]; if (pipe(p)) return 0;
    fflush(nullptr);
    pid_t k = fork();
    if (k == 0) {
        size_t n = 0, lim = sizeof(B) / 8 + 8;
        Cell *x = new Cell(uint64_t(1));
        try { for (n = 1; n < lim; n++) { x->b <<= size_t(64); if (x->b.count() != n + 1) break; } } catch (const std::runtime_error &) {}
        if (write(p[1], &n, sizeof n) != sizeof n) _exit(1);
        _exit(0);
    }
    close(p[1]); size_t n = 0; if (read(p[0], &n, sizeof n) != sizeof n) n = sizeof(B) / 8 - 1;
    close(p[0]); int st; waitpid(k, &st, 0); return n;
}
struct Seed { std::string what; Z z; };
static size_t M;
static std::vector<Seed> SD;
// built through decimal digits: an independent route to big values
inline B make(const Z &z) { std::string t = z.str(); return B(t.data(), t.size()); }

void dfs(Ctx &c, const Cell &x, const Z &z, std::vector<Op> &h, const std::string &seed, const std::vector<Op> &ops, int depth) {
    for (const Op &o : ops) {
        Cell y(x.b); Z w = z; h.push_back(o); big::model(w, o);
        auto hist = [&] { std::string s = seed; for (auto &p : h) s += "; " + big::name(p); return s; };
        bool fits = big::words(w) <= M, threw = false; c.calls(1);
        try { big::apply(y.b, o); } catch (const std::runtime_error &) { threw = true; }
        if (!y.intact()) c.fail("%s: memory outside the object was overwritten", hist().c_str());
        if (threw && fits) c.fail("%s: refused although the result needs only %zu of %zu words", hist().c_str(), big::words(w), M);
        if (!threw && !fits) c.fail("%s: not refused although the result needs %zu words and the capacity is %zu", hist().c_str(), big::words(w), M);
        if (!threw && !big::equal(y.b, w)) c.fail("%s: wrong value near full capacity", hist().c_str());
        { size_t n = y.b.count(), at[] = {n, n + 1, M, M + 1, sizeof(B) / 8 + 1, size_t(1) << 40, ~size_t(0)};     // also after a refused operation
          if (n > M) c.fail("%s: the object claims %zu words, the capacity is %zu", hist().c_str(), n, M);
          for (size_t k : at) if (k >= n) { bool refused = false; try { volatile uint64_t v = y.b.digit(k); (void)v; } catch (const std::runtime_error &) { refused = true; } if (!refused) c.fail("%s: word %zu of a value of %zu words can be read", hist().c_str(), k, n); }
          if (threw) { Cell q(y.b), e(uint64_t(5)); e.b = y.b; volatile bool same = q.b == e.b && q.b.compare(e.b) == 0; (void)same; if (!q.intact() || !e.intact() || !y.intact()) c.fail("%s (refused): copying the object touches other memory", hist().c_str()); } }
        c.outcome(c.s->cur * 1000003 + h.size() * 7919 + uint64_t(&o - &ops[0]) + threw * 31);
        if (!threw && depth > 1) dfs(c, y, w, h, seed, ops, depth - 1);
        h.pop_back();
    }
}
void setup(mc::Run &r) {
    M = measure();
    SD.clear();
    Z one = 1; unsigned full = unsigned(64 * M);
    for (unsigned k = 0; k < 4; k++) { SD.push_back({"2^(64*" + std::to_string(M - 1 - k) + ")", one << (full - 64 * (k + 1))}); SD.push_back({"2^(64*" + std::to_string(M - k) + ")-1", (one << (full - 64 * k)) - 1}); SD.push_back({"2^(64*" + std::to_string(M - k) + "-1)", one << (full - 64 * k - 1)}); }
    SD.push_back({"all words 0x8000000000000001", [&] { Z z = 0; for (size_t i = 0; i < M; i++) z = (z << 64) + Z(0x8000000000000001ull); return z; }()});
    auto ops = std::make_shared<std::vector<Op>>();
    for (auto &o : big::ops()) if (o.kind != big::SET && o.kind != big::SELF) ops->push_back(o);
    for (uint64_t s : {32ull, 129ull, 192ull, 255ull, 256ull, 257ull}) ops->push_back({big::SHL, s});
    int depth = r.thorough() ? 4 : 3; if (r.san()) depth = 1;
    size_t n = ops->size();
    r.each("near-capacity", "all operation sequences of length <= " + std::to_string(depth) + " over " + std::to_string(n) + " operations from " + std::to_string(SD.size()) + " values within 4 words of full capacity (" + std::to_string(M) + " words)", SD.size() * n, [ops, n, depth](Ctx &c, uint64_t i) {
        const Seed &s = SD[i / n]; std::vector<Op> h; std::vector<Op> first{(*ops)[i % n]};
        c.note("%s; %s ...", s.what.c_str(), big::name(first[0]).c_str());
        std::string t = s.z.str(); Cell x(t.data(), t.size()); Z z = s.z; c.calls(1);
        if (!big::equal(x.b, z) || !x.intact()) c.fail("%s built from decimals is wrong or touches other memory", s.what.c_str());
        Cell y(x.b); Z w = z; big::model(w, first[0]); bool fits = big::words(w) <= M;
        dfs(c, x, z, h, s.what, first, 1);
        if (fits && depth > 1) { big::apply(y.b, first[0]); h = first; dfs(c, y, w, h, s.what, *ops, depth - 1); }
    }, 1);
    // every shift that lands around the end, from small values
    r.each("shift-to-end", "1, 3, 2^63, 2^64-1, 2^128-1 shifted by every amount within 200 bits of the end", 5 * 400, [](Ctx &c, uint64_t i) {
        static const Z V[5] = {1, 3, Z(1) << 63, (Z(1) << 64) - 1, (Z(1) << 128) - 1};
        Z z = V[i % 5]; size_t s = 64 * M - 200 + size_t(i / 5); Cell x(make(z)); std::vector<Op> h; Op o{big::SHL, s};
        c.note("%s << %zu", big::str(z).c_str(), s); std::vector<Op> one{o}; dfs(c, x, z, h, big::str(z), one, 1);
    });
    r.each("shift-beyond", "huge shifts are refused", 64, [](Ctx &c, uint64_t i) {
        uint64_t s = i < 40 ? 64 * M + 64 * i : i < 63 ? (uint64_t(1) << (i - 20)) : ~uint64_t(0); if (s < 64 * M) return;
        Cell x(uint64_t(1)); bool threw = false; c.calls(1); c.outcome(s); c.note("1 << %llu", (unsigned long long)s);
        try { x.b <<= size_t(s); } catch (const std::runtime_error &) { threw = true; }
        if (!threw || !x.intact()) c.fail("1 << %llu is %s", (unsigned long long)s, threw ? "refused but memory outside the object changed" : "not refused");
    });
    r.each("pow5-to-end", "5^k for every k around the largest that fits, from 1 and from 2^64-1, in steps", 2 * 200, [](Ctx &c, uint64_t i) {
        unsigned kmax = unsigned(double(64 * M) / 2.321928094887362); unsigned k = kmax - 100 + unsigned(i / 2);
        Z z = i & 1 ? Z(~0ull) : Z(1); Cell x(make(z)); static Z p5; static unsigned pk = ~0u; if (pk != k) { p5 = boost::multiprecision::pow(Z(5), k); pk = k; }
        Z w = z * p5; bool fits = big::words(w) <= M, threw = false; c.calls(1); c.outcome(i); c.note("5^%u", k);
        try { x.b.mulPow5(k); } catch (const std::runtime_error &) { threw = true; }
        if (!x.intact() || threw == fits || (!threw && !big::equal(x.b, w))) c.fail("%s * 5^%u: %s (needs %zu of %zu words)", big::str(z).c_str(), k, threw ? "refused" : !x.intact() ? "overwrites other memory" : "wrong or not refused", big::words(w), M);
    });
    r.each("decimals-to-end", "10^k-1 and 10^k for every k within 40 digits of the largest decimal that fits", 2 * 80, [](Ctx &c, uint64_t i) {
        unsigned kmax = unsigned(double(64 * M) * 0.30102999566398114); unsigned k = kmax - 40 + unsigned(i / 2);
        std::string t = i & 1 ? std::string(k, '9') : "1" + std::string(k, '0'); Z w(t); bool fits = big::words(w) <= M, threw = false; c.calls(1); c.outcome(i); c.note("%zu digits", t.size());
        Cell *keep = nullptr; alignas(Cell) static unsigned char raw[sizeof(Cell)];
        try { keep = new (raw) Cell(t.data(), t.size()); } catch (const std::runtime_error &) { threw = true; }
        if (threw == fits || (keep && (!keep->intact() || !big::equal(keep->b, w)))) c.fail("decimal of %zu digits: %s (needs %zu of %zu words)", t.size(), threw ? "refused" : "wrong, corrupting or not refused", big::words(w), M);
    });
    r.each("pairs", "difference and compare of all pairs of near-capacity values", SD.size() * SD.size(), [](Ctx &c, uint64_t i) {
        const Z &a = SD[i / SD.size()].z, &b = SD[i % SD.size()].z; c.calls(2); c.outcome(i); c.note("%s - %s", SD[i / SD.size()].what.c_str(), SD[i % SD.size()].what.c_str());
        static std::vector<B> cache; if (cache.empty()) for (auto &s : SD) cache.push_back(make(s.z));
        const B &x = cache[i / SD.size()], &y = cache[i % SD.size()]; int g = x.compare(y), w = a < b ? -1 : a > b ? 1 : 0;
        if ((g < 0 ? -1 : g > 0 ? 1 : 0) != w) c.fail("compare of near-capacity values is %d, want %d", g, w);
        if (w == 0) return;
        Cell out(uint64_t(0)); bool lt = x.difference(y, &out.b); Z d = w < 0 ? Z(b - a) : Z(a - b);
        if (lt != (w < 0) || !big::equal(out.b, d) || !out.intact()) c.fail("difference of near-capacity values %s and %s is wrong", SD[i / SD.size()].what.c_str(), SD[i % SD.size()].what.c_str());
    });
}
}
#ifndef MC_NO_MAIN
MC_MAIN(c17::setup)
#endif
