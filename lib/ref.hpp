// Reference models: deliberately naive.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>

namespace ref {

inline std::string udec(uint64_t v) { char b[24]; int n = 24; do { b[--n] = char('0' + v % 10); v /= 10; } while (v); return std::string(b + n, 24 - n); }
inline std::string sdec(int64_t v) { return v < 0 ? "-" + udec(0 - uint64_t(v)) : udec(uint64_t(v)); }

// incrementing decimal counter
struct Counter {
    char b[24]; int n;   // digits b[n..23]
    explicit Counter(uint64_t v) { n = 24; do { b[--n] = char('0' + v % 10); v /= 10; } while (v); }
    void inc() { int i = 23; while (i >= n && b[i] == '9') b[i--] = '0'; if (i < n) b[--n] = '1'; else b[i]++; }
    const char *p() const { return b + n; }
    size_t len() const { return size_t(24 - n); }
};

// a float text split into sign, significant digits d1 d2 ... dn (no leading or trailing zeros) and the
// position kk of the decimal point: value = 0.d1d2...dn x 10^kk
struct Dec { bool ok, neg; char d[40]; int n, kk; };
inline Dec split(const char *p, size_t len) {
    Dec r; r.ok = false; r.neg = false; r.n = 0; r.kk = 0;
    const char *e = p + len;
    if (p < e && *p == '-') { r.neg = true; p++; }
    char all[64]; int na = 0, ip = 0; const char *q = p;
    while (p < e && *p >= '0' && *p <= '9') { if (na == 60) return r; all[na++] = *p++; }
    if (p == q) return r;
    ip = na;
    if (p < e && *p == '.') { p++; q = p; while (p < e && *p >= '0' && *p <= '9') { if (na == 60) return r; all[na++] = *p++; } if (p == q) return r; }
    int ex = 0;
    if (p < e && (*p == 'e' || *p == 'E')) {
        p++; bool en = false; if (p < e && (*p == '-' || *p == '+')) en = *p++ == '-';
        q = p; while (p < e && *p >= '0' && *p <= '9') { if (ex > 100000) return r; ex = ex * 10 + (*p++ - '0'); }
        if (p == q) return r;
        if (en) ex = -ex;
    }
    if (p != e) return r;
    int z = 0; while (z < na && all[z] == '0') z++;
    int t = na; while (t > z && all[t - 1] == '0') t--;
    if (t - z > 39) return r;
    memcpy(r.d, all + z, size_t(t - z)); r.n = t - z; r.kk = ip - z + ex; r.ok = true;
    return r;
}

// canonical layout of 0.d1..dn x 10^kk (n >= 1, d1 != 0, dn != 0)
inline std::string layout(const Dec &r) {
    std::string o = r.neg ? "-" : "", d(r.d, size_t(r.n));
    if (r.kk > -6 && r.kk <= 21) {
        if (r.kk <= 0) o += "0." + std::string(size_t(-r.kk), '0') + d;
        else if (r.n <= r.kk) o += d + std::string(size_t(r.kk - r.n), '0') + ".0";
        else o += d.substr(0, size_t(r.kk)) + "." + d.substr(size_t(r.kk));
    } else {
        o += d[0];
        if (r.n > 1) o += "." + d.substr(1);
        o += "e" + sdec(r.kk - 1);
    }
    return o;
}

// RFC 8259 number
inline bool json_number(const std::string &s) {
    size_t i = 0, n = s.size(); auto dig = [&](size_t k) { return k < n && s[k] >= '0' && s[k] <= '9'; };
    if (i < n && s[i] == '-') i++;
    if (!dig(i)) return false;
    if (s[i] == '0') i++; else while (dig(i)) i++;
    if (i < n && s[i] == '.') { i++; if (!dig(i)) return false; while (dig(i)) i++; }
    if (i < n && (s[i] == 'e' || s[i] == 'E')) { i++; if (i < n && (s[i] == '+' || s[i] == '-')) i++; if (!dig(i)) return false; while (dig(i)) i++; }
    return i == n;
}

// decode a JSON string literal into bytes; \u00XX below 0x80 decodes to that byte, bytes >= 0x80 pass through
inline bool json_decode(const std::string &s, std::string &out) {
    out.clear();
    size_t n = s.size();
    if (n < 2 || s[0] != '"' || s[n - 1] != '"') return false;
    for (size_t i = 1; i + 1 < n; i++) {
        unsigned char c = (unsigned char)s[i];
        if (c < 0x20 || c == '"') return false;
        if (c != '\\') { out += char(c); continue; }
        if (++i + 1 >= n) return false;
        switch (s[i]) {
        case '"': out += '"'; break; case '\\': out += '\\'; break; case '/': out += '/'; break;
        case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break;
        case 'r': out += '\r'; break; case 't': out += '\t'; break;
        case 'u': {
            if (i + 4 + 1 >= n) return false;
            unsigned v = 0;
            for (int k = 1; k <= 4; k++) {
                char h = s[i + k]; unsigned x;
                if (h >= '0' && h <= '9') x = unsigned(h - '0'); else if (h >= 'a' && h <= 'f') x = unsigned(h - 'a' + 10); else if (h >= 'A' && h <= 'F') x = unsigned(h - 'A' + 10); else return false;
                v = v * 16 + x;
            }
            if (v >= 0x80) return false;   // never needed by a byte-preserving writer
            out += char(v); i += 4; break; }
        default: return false;
        }
    }
    return true;
}

inline bool alnum(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
// escape reference: returns false if `out` is not an acceptable escaping of `in`
inline bool escaped(const std::string &in, const std::string &out) {
    size_t j = 0;
    for (unsigned char c : in) {
        bool must = c < 0x7f && !alnum(c);
        if (must) { if (j + 1 >= out.size() || out[j] != '\\' || (unsigned char)out[j + 1] != c) return false; j += 2; }
        else { if (j >= out.size() || (unsigned char)out[j] != c) return false; j++; }
    }
    return j == out.size();
}

inline bool is_ws(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }

}   // namespace ref
