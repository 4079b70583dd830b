// BigInteger operations, the reference (boost cpp_int) and guarded cells; shared by C16, C17, C21.
#pragma once
#include "mc.hpp"
#include <boost/multiprecision/cpp_int.hpp>
#include <lexi/detail/bigint.hpp>
#include <stdexcept>

namespace big {
typedef boost::multiprecision::cpp_int Z;
typedef lexi::detail::BigInteger B;

inline size_t words(const Z &z) { return z == 0 ? 1 : (boost::multiprecision::msb(z) / 64) + 1; }
inline bool equal(const B &b, const Z &z) {
    const auto &k = z.backend(); size_t n = k.size(), m = b.count();
    if (m == 0) return false;
    for (size_t i = 0; i < m; i++) { uint64_t w = i < n ? uint64_t(k.limbs()[i]) : 0; if (b.digit(i) != w) return false; }
    for (size_t i = m; i < n; i++) if (k.limbs()[i]) return false;
    return true;
}
inline Z value(const B &b) { Z z = 0; for (size_t i = b.count(); i-- > 0;) z = (z << 64) | Z(b.digit(i)); return z; }
inline std::string str(const Z &z) { std::string s = z.str(0, std::ios_base::hex); return s.size() < 200 ? "0x" + s : "0x" + s.substr(0, 60) + "...(" + std::to_string(s.size()) + " hex digits)..." + s.substr(s.size() - 40); }

struct Op { int kind; uint64_t a; };
enum { ADD, MUL64, MUL32, SHL, POW5, SET, COPY, SELF };
inline std::string name(const Op &o) { static const char *K[] = {"+= ", "*= (uint64_t)", "*= (uint32_t)", "<<= ", "mulPow5 ", "= ", "copy ", "self-assign "}; return std::string(K[o.kind]) + std::to_string(o.a); }
inline const std::vector<Op> &ops() {
    static std::vector<Op> v;
    if (v.empty()) {
        for (uint64_t a : {0ull, 1ull, 0xFFFFFFFFFFFFFFFFull, 0x8000000000000000ull}) v.push_back({ADD, a});
        for (uint64_t a : {0ull, 1ull, 2ull, 10ull, 0x100000000ull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull}) v.push_back({MUL64, a});
        for (uint64_t a : {0ull, 1ull, 3ull, 0x80000000ull, 0xFFFFFFFFull}) v.push_back({MUL32, a});
        for (uint64_t a : {0ull, 1ull, 31ull, 63ull, 64ull, 65ull, 127ull, 128ull, 200ull}) v.push_back({SHL, a});
        for (uint64_t a : {0ull, 1ull, 12ull, 13ull, 14ull, 26ull, 27ull, 28ull, 40ull, 67ull}) v.push_back({POW5, a});
        v.push_back({SET, 0xFFFFFFFFFFFFFFFFull}); v.push_back({COPY, 0}); v.push_back({SELF, 0});
    }
    return v;
}
inline void model(Z &z, const Op &o) {
    switch (o.kind) {
    case ADD: z += o.a; break; case MUL64: z *= o.a; break; case MUL32: z *= o.a; break; case SHL: z <<= unsigned(o.a); break;
    case POW5: for (uint64_t i = 0; i < o.a; i++) z *= 5; break; case SET: z = o.a; break; default: break;
    }
}
inline void apply(B &b, const Op &o) {
    switch (o.kind) {
    case ADD: b += o.a; break; case MUL64: b *= uint64_t(o.a); break; case MUL32: b *= uint32_t(o.a); break; case SHL: b <<= size_t(o.a); break;
    case POW5: b.mulPow5(unsigned(o.a)); break; case SET: b = o.a; break;
    case COPY: { B t(b); b = uint64_t(7); b = t; break; } case SELF: { B &r = b; b = r; break; }
    }
}
struct Cell {   // a big integer between guard words
    uint64_t g0[16]; B b; uint64_t g1[16];
    explicit Cell(const B &o) : b(o) { fill(); }
    explicit Cell(uint64_t d) : b(d) { fill(); }
    Cell(const char *p, size_t n) : b((set(), p), n) { }
    void set() { for (auto &x : g0) x = 0x5AFE5AFE5AFE5AFEull; for (auto &x : g1) x = 0x5AFE5AFE5AFE5AFEull; }
    void fill() { set(); }
    bool intact() const { for (auto x : g0) if (x != 0x5AFE5AFE5AFE5AFEull) return false; for (auto x : g1) if (x != 0x5AFE5AFE5AFE5AFEull) return false; return true; }
};
}
