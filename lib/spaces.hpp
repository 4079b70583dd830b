// Finite structured spaces of integers, doubles and byte strings, indexed 0..count-1.
#pragma once
#include <sys/resource.h>
#include <cstdio>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <string>
#include <vector>
#include <unistd.h>

namespace sp {

// ---- 64-bit integers -------------------------------------------------------------------------------
// windows of +-W around every power of two and ten and every type limit
struct NearInts {
    std::vector<uint64_t> centre; uint64_t W;
    explicit NearInts(uint64_t w) : W(w) {
        uint64_t p = 1;
        for (int k = 0; k < 20; k++) { centre.push_back(p); centre.push_back(0 - p); p *= 10; }
        for (int k = 0; k < 64; k++) { centre.push_back(uint64_t(1) << k); centre.push_back(0 - (uint64_t(1) << k)); }
        std::sort(centre.begin(), centre.end());
        centre.erase(std::unique(centre.begin(), centre.end()), centre.end());
    }
    uint64_t count() const { return centre.size() * (2 * W + 1); }
    uint64_t at(uint64_t i) const { return centre[i / (2 * W + 1)] + i % (2 * W + 1) - W; }
};

// every pair of two-digit groups takes every value, over several backgrounds (overflowing ones are skipped)
struct GroupInts {
    static const int NBG = 4;
    uint64_t count() const { return 45ull * 10000 * NBG; }
    bool at(uint64_t i, uint64_t &v) const {
        static const unsigned BG[NBG] = {0, 99, 50, 9};
        unsigned bg = BG[i % NBG]; i /= NBG;
        unsigned a = i % 100; i /= 100; unsigned b = i % 100; i /= 100;
        int p = 0, q = 1; for (; i > 0; i--) { if (++q == 10) { p++; q = p + 1; } }
        unsigned __int128 x = 0;
        for (int g = 9; g >= 0; g--) x = x * 100 + (g == p ? a : g == q ? b : g == 9 && bg > 17 ? 17 : bg);
        if (x >> 64) return false;
        v = uint64_t(x); return true;
    }
};
// three groups (thorough)
struct GroupInts3 {
    uint64_t count() const { return 120ull * 1000000 * 2; }
    bool at(uint64_t i, uint64_t &v) const {
        unsigned bg = (i & 1) ? 99 : 0; i >>= 1;
        unsigned d[3]; for (int k = 0; k < 3; k++) { d[k] = i % 100; i /= 100; }
        int c = int(i), p = 0, q = 0, r = 0;
        for (p = 0; p < 10; p++) for (q = p + 1; q < 10; q++) for (r = q + 1; r < 10; r++) if (c-- == 0) goto found;
    found:
        unsigned __int128 x = 0;
        for (int g = 9; g >= 0; g--) x = x * 100 + (g == p ? d[0] : g == q ? d[1] : g == r ? d[2] : g == 9 && bg > 17 ? 17 : bg);
        if (x >> 64) return false;
        v = uint64_t(x); return true;
    }
};

// ---- doubles ---------------------------------------------------------------------------------------
inline double from_bits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline uint64_t to_bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline float from_bits32(uint32_t u) { float d; memcpy(&d, &u, 4); return d; }
inline uint32_t to_bits32(float d) { uint32_t u; memcpy(&u, &d, 4); return u; }

// fractions of n bits with at most w bits set, their complements, and every leading and trailing byte
inline std::vector<uint64_t> fractions(int n, int w, bool complement = true) {
    const uint64_t mask = (n == 64) ? ~0ull : (uint64_t(1) << n) - 1;
    std::vector<uint64_t> v;
    v.push_back(0);
    for (int a = 0; a < n && w >= 1; a++) {
        uint64_t x = uint64_t(1) << a; v.push_back(x);
        for (int b = 0; b < a && w >= 2; b++) {
            uint64_t y = x | uint64_t(1) << b; v.push_back(y);
            for (int c = 0; c < b && w >= 3; c++) {
                uint64_t z = y | uint64_t(1) << c; v.push_back(z);
                for (int d = 0; d < c && w >= 4; d++) v.push_back(z | uint64_t(1) << d);
            }
        }
    }
    if (complement) { size_t k = v.size(); for (size_t i = 0; i < k; i++) v.push_back(~v[i] & mask); }
    for (uint64_t k = 0; k < 256; k++) { v.push_back(k); v.push_back(mask - k); v.push_back(k << (n - 8)); v.push_back((k << (n - 8) | 1)); }
    // alternating patterns
    v.push_back(0x5555555555555555ull & mask); v.push_back(0xAAAAAAAAAAAAAAAAull & mask); v.push_back(0x3333333333333333ull & mask);
    // runs of ones
    for (int a = 0; a < n; a++) for (int b = a; b < n; b++) { uint64_t hi = (b == 63) ? ~0ull : (uint64_t(1) << (b + 1)) - 1; v.push_back(hi & ~((uint64_t(1) << a) - 1)); }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

// every biased exponent x every fraction of the set; positive
struct ExpFrac {
    std::vector<uint64_t> f;
    ExpFrac(int w, bool complement = true) : f(fractions(52, w, complement)) {}
    uint64_t count() const { return 2047ull * f.size(); }
    double at(uint64_t i) const { return from_bits((i / f.size()) << 52 | f[i % f.size()]); }
};

// +-R ulps around every power of ten (nearest double), -324..308, and every power of two
struct NearPow {
    std::vector<uint64_t> c; uint64_t R;
    explicit NearPow(uint64_t r) : R(r) {
        char b[16];
        for (int k = -323; k <= 308; k++) { snprintf(b, sizeof b, "1e%d", k); c.push_back(to_bits(strtod(b, nullptr))); }
        for (uint64_t e = 1; e < 2047; e++) c.push_back(e << 52);
    }
    uint64_t count() const { return c.size() * (2 * R + 1); }
    bool at(uint64_t i, double &d) const {
        int64_t u = int64_t(c[i / (2 * R + 1)]) + int64_t(i % (2 * R + 1)) - int64_t(R);
        if (u <= 0 || u >= 0x7FF0000000000000ll) return false;
        d = from_bits(uint64_t(u)); return true;
    }
};

// the inputs found by lib/hard.py
struct Hard {
    std::vector<uint64_t> v;
    Hard() {
        const char *p = getenv("MC_HARD"); FILE *f = p ? fopen(p, "rb") : nullptr; if (!f) { fprintf(stderr, "no hard inputs\n"); _exit(2); }
        unsigned char b[9]; while (fread(b, 1, 9, f) == 9) { uint64_t u; memcpy(&u, b, 8); v.push_back(u); } fclose(f);
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
    }
    uint64_t count() const { return v.size(); }
    double at(uint64_t i) const { return from_bits(v[i]); }
};
struct HardTexts {
    std::vector<std::string> v;
    HardTexts() {
        const char *p = getenv("MC_HARD_TXT"); FILE *f = p ? fopen(p, "rb") : nullptr; if (!f) { fprintf(stderr, "no hard inputs\n"); _exit(2); }
        char b[200]; while (fgets(b, sizeof b, f)) { b[strcspn(b, "\n")] = 0; v.push_back(b); } fclose(f);
    }
    uint64_t count() const { return v.size(); }
};

// m x 10^e for all 0 < m < M, lo <= e <= hi (nearest double)
struct Decimals {
    uint64_t M; int lo, hi;
    uint64_t count() const { return (M - 1) * uint64_t(hi - lo + 1); }
    std::string text(uint64_t i) const { return std::to_string(1 + i % (M - 1)) + "e" + std::to_string(lo + int(i / (M - 1))); }
    double at(uint64_t i) const { return strtod(text(i).c_str(), nullptr); }
};

// decimals of up to 16 digits and their neighbours: every pair of two-digit groups of the significand over 4 backgrounds
// (in steps), with the point at every place
struct LongDecimals {
    uint64_t step;
    uint64_t count() const { return GroupInts().count() / step * 19; }
    bool at(uint64_t i, double &d) const {
        int e = int(i % 19) - 16; i /= 19; uint64_t v; if (!GroupInts().at(i * step, v)) return false;
        static const uint64_t CUT[5] = {10000ull, 100000ull, 1000000ull, 100000000ull, 10000000000ull}; v /= CUT[i % 5]; if (!v) return false;
        char b[48]; snprintf(b, sizeof b, "%llue%d", (unsigned long long)v, e); d = strtod(b, nullptr); return true;
    }
};
// floats with at most p significant fraction bits (leading), all exponents, both signs
struct FloatsP {
    int p;
    uint64_t count() const { return uint64_t(1) << (1 + 8 + p); }
    float at(uint64_t i) const { return from_bits32(uint32_t(i) << (23 - p)); }
};

// ---- strings ---------------------------------------------------------------------------------------
// all strings of length 0..n over an alphabet, shortest first
struct Strings {
    std::string a; int n;
    std::vector<uint64_t> pw;
    Strings(const std::string &alpha, int len) : a(alpha), n(len) { uint64_t p = 1; for (int i = 0; i <= n; i++) { pw.push_back(p); p *= a.size(); } }
    uint64_t count() const { uint64_t t = 0; for (auto p : pw) t += p; return t; }
    void at(uint64_t i, std::string &s) const {
        int len = 0; while (i >= pw[len]) { i -= pw[len]; len++; }
        s.resize(len);
        for (int k = len - 1; k >= 0; k--) { s[k] = a[i % a.size()]; i /= a.size(); }
    }
    std::string at(uint64_t i) const { std::string s; at(i, s); return s; }
};

inline std::string all_bytes() { std::string s; for (int i = 0; i < 256; i++) s += char(i); return s; }

// Texts beyond 2^31 and 2^32 bytes. They need memory: without enough of it free the case is left out, and the address
// space is limited meanwhile so that a conversion that wants more gets std::bad_alloc instead of exhausting the machine.
struct Giant {
    bool ok = false; rlimit old;
    explicit Giant(uint64_t bytes) {
        uint64_t avail = 0, vm = 0; if (FILE *f = fopen("/proc/meminfo", "r")) { char b[256]; unsigned long long k; while (fgets(b, sizeof b, f)) if (sscanf(b, "MemAvailable: %llu", &k) == 1) avail = k * 1024; fclose(f); }
        if (FILE *f = fopen("/proc/self/statm", "r")) { unsigned long long p; if (fscanf(f, "%llu", &p) == 1) vm = p * 4096; fclose(f); }
        getrlimit(RLIMIT_AS, &old); if (avail < bytes + (bytes >> 1) || !vm) return;
        rlimit n = old; n.rlim_cur = vm + bytes; if (n.rlim_cur > n.rlim_max) return; ok = !setrlimit(RLIMIT_AS, &n);
    }
    ~Giant() { if (ok) setrlimit(RLIMIT_AS, &old); }
};

}   // namespace sp
