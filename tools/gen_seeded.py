#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.cpp, meta.json) from the edits below. Development tool; no check uses it."""
import difflib, json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
B = []
def bug(id, prop, edits, demo, needs, breaks, flags="", sh=None):
    B.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags, sh=sh))

HEAD = r'''#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <new>
#include <lexi/lexi.hpp>
#include <lexi/detail/bigint.hpp>
#include <lexi/detail/diyfp.hpp>
#include <lexi/detail/dtoa.hpp>
#include <lexi/detail/ieee754.hpp>
#include <lexi/detail/pow.hpp>
static int bad = 0;
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s\n", #x); bad = 1; } } while (0)
using lexi::detail::BigInteger;
'''
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -w -O1 %s -include cstdint -Iinclude "$d/demo.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" -pthread || exit 1
timeout 120 "$t/demo"
'''
def main(body): return HEAD + "int main() {\n" + body + "\n    return bad;\n}\n"

# ---------------------------------------------------------------- fifth batch
bug("c03-ld-max", "C03", [("src/float.cpp", "    if (!detail::isFinite(value)) {", "    if (value > std::numeric_limits<double>::max()) {\n        value = std::numeric_limits<double>::infinity();\n    } else if (value < std::numeric_limits<double>::lowest()) {\n        value = -std::numeric_limits<double>::infinity();\n    }\n    if (!detail::isFinite(value)) {"), ("src/float.cpp", "#include <cstring>\n", "#include <cstring>\n#include <limits>\n")],
    HEAD + '#include <cfloat>\nint main() { long double m = DBL_MAX; CHECK(lexi::lexi(m) == lexi::lexi(DBL_MAX)); CHECK(lexi::lexi(nextafterl(m, INFINITY)) == lexi::lexi(DBL_MAX)); CHECK(lexi::lexi(-nextafterl(m, INFINITY)) == lexi::lexi(-DBL_MAX)); CHECK(lexi::lexi(2 * m) == "Infinity"); return bad; }\n',
    "a long double a little above the largest double, which rounds to it", "such a long double prints as Infinity")
bug("c07-cached-float", "C07", [("include/lexi/float.hpp", "    explicit operator float() const;", "    mutable double cached_ = 0;\n    mutable bool has_ = false;\n\n    explicit operator float() const;"),
     ("src/float.cpp", "    return std::strtof(data_.data(), nullptr);", "    cached_ = std::strtof(data_.data(), nullptr);\n    has_ = true;\n    return static_cast<float>(cached_);"),
     ("src/float.cpp", "    return std::strtod(data_.data(), nullptr);", "    if (!has_) {\n        cached_ = std::strtod(data_.data(), nullptr);\n        has_ = true;\n    }\n    return cached_;")],
    main('lexi::ExtractFloat a("0.1"); CHECK(double(a) == 0.1); lexi::ExtractFloat b("0.1"); CHECK(float(b) == 0.1f); CHECK(double(b) == 0.1); lexi::ExtractFloat d(b); CHECK(double(d) == 0.1);'),
    "one extractor converted to float and then to double", "the double is the float's value")
bug("c07-narrow-in-place", "C07", [("include/lexi/int.hpp", "    unsigned long long data_;", "    mutable unsigned long long data_;"),
     ("src/int.cpp", "ExtractInt::operator short() const\n{\n    return static_cast<long long>(data_);", "ExtractInt::operator short() const\n{\n    data_ = static_cast<long long>(static_cast<short>(data_));\n    return static_cast<long long>(data_);")],
    main('lexi::ExtractInt a("65537"); CHECK(int(a) == 65537); CHECK(short(a) == 1); CHECK(int(a) == 65537); lexi::ExtractInt b("-3"); CHECK(short(b) == -3); CHECK(int(b) == -3);'),
    "one extractor converted to short and then to a wider type, holding a value outside short", "the wider conversion gives the truncated value")
_Y = "y" * 300; _N = "n" * 100
bug("c22-size-byte", "C22", [("include/lexi/bool.hpp", "    size_t size_;", "    unsigned char size_;")],
    main('std::string y(300, \'y\'); CHECK(lexi::lexi(true) == y); CHECK(lexi::FormatBool(true).size() == 300); CHECK(lexi::lexi<bool>(y)); CHECK(lexi::lexi(false) == "false");'),
    "a configured literal for a boolean of more than 255 characters", "the text is cut", flags="'-DLEXI_TRUE=\"%s\"'" % _Y)
bug("c22-read-cap", "C22", [("src/null.cpp", "ExtractNull::ExtractNull(const std::string &string)\n{\n", "ExtractNull::ExtractNull(const std::string &string)\n{\n    if (string.size() > 64) {\n        throw std::runtime_error(\"String is not null.\");\n    }\n")],
    main('std::string n(100, \'n\'); CHECK(lexi::lexi(nullptr) == n); try { CHECK(lexi::lexi<std::nullptr_t>(n) == nullptr); } catch (const std::runtime_error &) { CHECK(!"refused"); }'),
    "a configured null literal of more than 64 characters", "the configured literal is refused", flags="'-DLEXI_NULL=\"%s\"'" % _N)
bug("c26-static-texts", "C26", [("src/bool.cpp", "static const char FALSE_STRING[] = LEXI_FALSE;\n", "static const char FALSE_STRING[] = LEXI_FALSE;\nstatic const std::string TRUE_TEXT(TRUE_STRING);\nstatic const std::string FALSE_TEXT(FALSE_STRING);\n"), ("src/bool.cpp", "string == TRUE_STRING", "string == TRUE_TEXT"), ("src/bool.cpp", "string == FALSE_STRING", "string == FALSE_TEXT")],
    HEAD + 'static int early() { try { return lexi::lexi<bool>("true") && !lexi::lexi<bool>("false"); } catch (const std::runtime_error &) { return 0; } }\nstatic const int ok = early();\nint main() { CHECK(ok); CHECK(early()); return bad; }\n',
    "a boolean extracted by the initialiser of a static object in a file linked before the library", "the literals are not constructed yet and every text is refused")
bug("c26-start-table", "C26", [("src/detail/string.cpp", "static constexpr char HEX[] = \"0123456789abcdef\";\n", "static constexpr char HEX[] = \"0123456789abcdef\";\n\n/** \\brief Lookup table of the characters to escape.\n */\nstatic struct EscapeTable\n{\n    bool special[128];\n\n    EscapeTable()\n    {\n        for (int c = 0; c < 128; c++) {\n            special[c] = (c <= 47) || (c >= 58 && c <= 64) || (c >= 91 && c <= 96) || (c >= 123 && c <= 126);\n        }\n    }\n} TABLE;\n"),
     ("src/detail/string.cpp", "        if ((c >= 0 && c <= 47) ||      // Null - /\n            (c >= 58 && c <= 64) ||     // : - @\n            (c >= 91 && c <= 96) ||     // [ - `]\n            (c >= 123 && c <= 126)) {   // ( - ~\n", "        if (c >= 0 && TABLE.special[static_cast<unsigned char>(c)]) {\n")],
    HEAD + 'static const std::string early = lexi::escape("a b");\nint main() { CHECK(early == "a\\\\ b"); CHECK(lexi::escape("a b") == "a\\\\ b"); return bad; }\n',
    "text escaped by the initialiser of a static object in a file linked before the library", "the table is not filled yet and nothing is escaped")
bug("c26-thread-scratch", "C26", [("src/detail/string.cpp", "std::string jsonify(const std::string &src)\n{\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n", "std::string jsonify(const std::string &src)\n{\n    static thread_local std::string dst;\n    dst.clear();\n    dst.reserve(src.size() * 2 + 1);\n"), ("src/detail/string.cpp", "                    dst.push_back(c);\n                }\n        }\n    }\n\n    dst.shrink_to_fit();\n    return dst;", "                    dst.push_back(c);\n                }\n        }\n    }\n\n    return dst;")],
    HEAD + 'struct Late { ~Late() { std::string t(200, \'x\'); if (lexi::jsonify(t) != "\\"" + t + "\\"") _Exit(1); } };\nstatic Late late;\nint main() { CHECK(lexi::jsonify(std::string(100, \'y\')).size() == 102); return bad; }\n',
    "JSON written by the destructor of a static object, after main used the same conversion", "a destroyed thread-local string is written to (use after free)", flags="-fsanitize=address")
bug("c27-quote", "C27", [("include/lexi/lexi.hpp", "    return \"\\\"\" + detail::jsonify(string) + \"\\\"\";", "    return quote(detail::jsonify(string));"), ("include/lexi/lexi.hpp", "/** \\brief Extract value from string.\n */\n", "/** \\brief Surround text with double quotes.\n */\nstd::string quote(const std::string &string)\n{\n    return \"\\\"\" + string + \"\\\"\";\n}\n\n\n/** \\brief Extract value from string.\n */\n")],
    None, "two source files of one program that include lexi.hpp", "the program does not link", sh=r"""#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '#include <lexi/lexi.hpp>\nstd::string f() { return lexi::jsonify(std::string("a b")); }\n' > "$t/a.cpp"
printf '#include <lexi/lexi.hpp>\nstd::string f();\nint main() { return f() == lexi::jsonify(std::string("a b")) && f() == "\\"a b\\"" ? 0 : 1; }\n' > "$t/b.cpp"
g++ -std=c++14 -w -include cstdint -Iinclude "$t/a.cpp" "$t/b.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" || exit 1
"$t/demo"
""")
bug("c27-specialised", "C27", [("include/lexi/lexi.hpp", "/** \\brief Overload for existing string types.\n */\ntemplate <typename T>\nstd::string string(const T &string,", "/** \\brief Booleans need no formatter object.\n */\ntemplate <>\nstd::string string(const bool &t, enable_if_t<!is_string_v<bool>, bool>*)\n{\n    return t ? LEXI_TRUE : LEXI_FALSE;\n}\n\n\n/** \\brief Overload for existing string types.\n */\ntemplate <typename T>\nstd::string string(const T &string,")],
    None, "two source files of one program that include lexi.hpp", "the program does not link", sh=r"""#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '#include <lexi/lexi.hpp>\nstd::string f() { return lexi::string(true); }\n' > "$t/a.cpp"
printf '#include <lexi/lexi.hpp>\nstd::string f();\nint main() { return f() == "true" && lexi::string(false) == "false" ? 0 : 1; }\n' > "$t/b.cpp"
g++ -std=c++14 -w -include cstdint -Iinclude "$t/a.cpp" "$t/b.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" || exit 1
"$t/demo"
""")
bug("c14-ring", "C14", [("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <atomic>\n#include <cstring>\n'),
     ("src/detail/string.cpp", "std::string jsonify(const std::string &src)\n{\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n", "std::string jsonify(const std::string &src)\n{\n    // scratch space from a pool large enough that no two callers meet\n    static char pool[64][128];\n    static std::atomic<unsigned> next(0);\n    if (src.size() <= 16) {\n        char *buffer = pool[next++ % 64];\n        char *p = buffer;\n        for (const char c: src) {\n            switch (c) {\n                case '\\b': *p++ = '\\\\'; *p++ = 'b'; break;\n                case '\\f': *p++ = '\\\\'; *p++ = 'f'; break;\n                case '\\n': *p++ = '\\\\'; *p++ = 'n'; break;\n                case '\\r': *p++ = '\\\\'; *p++ = 'r'; break;\n                case '\\t': *p++ = '\\\\'; *p++ = 't'; break;\n                case '\\\\': *p++ = '\\\\'; *p++ = '\\\\'; break;\n                case '\"': *p++ = '\\\\'; *p++ = '\"'; break;\n                default:\n                    if (c >= 0x00 && c <= 0x1f) {\n                        memcpy(p, \"\\\\u00\", 4);\n                        p += 4;\n                        *p++ = HEX[c >> 4];\n                        *p++ = HEX[c & 0x0f];\n                    } else {\n                        *p++ = c;\n                    }\n            }\n        }\n        return std::string(buffer, p - buffer);\n    }\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n")],
    HEAD + r"""#include <thread>
#include <atomic>
#include <vector>
// 8 threads convert different texts until one sees another's result (or time is up); run under the race detector of tsan
int main() {
    std::atomic<bool> wrong(false); std::vector<std::thread> v;
    for (int t = 0; t < 8; t++) v.emplace_back([t, &wrong] { std::string s(16, char('a' + t)), w = "\"" + s + "\""; for (int i = 0; i < 20000 && !wrong; i++) if (lexi::jsonify(s) != w) wrong = true; });
    for (auto &x : v) x.join();
    CHECK(!wrong); return bad;
}
""", "more than 64 conversions in other threads while one is inside its own", "the texts of two threads mix", flags="-fsanitize=thread")
# ---------------------------------------------------------------- round trip
bug("c01-enum-extract-int", "C01", [("include/lexi/enum.hpp", "return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(data_));", "return static_cast<Enum>(static_cast<underlying_type_t<Enum>>(static_cast<int>(*this)));")],
    HEAD + 'enum class Big : long long { A = 5000000000LL, B = -7000000000LL }; enum class U : unsigned { M = 4294967295u }; enum class S : short { N = -32768 };\nint main() { CHECK(lexi::lexi<Big>(lexi::lexi(Big::A)) == Big::A); CHECK(lexi::lexi<Big>(lexi::lexi(Big::B)) == Big::B); CHECK(lexi::lexi<S>(lexi::lexi(S::N)) == S::N); CHECK(lexi::lexi<U>(lexi::lexi(U::M)) == U::M); return bad; }\n',
    "an enumeration with a 64-bit underlying type holding a value outside 32 bits", "the extracted enumerator is truncated to 32 bits")
bug("c01-fpos-32", "C01", [("include/lexi/lexi.hpp", "return T(std::streamoff(ExtractInt(string)));", "return T(std::streamoff(unsigned(ExtractInt(string))));")],
    main("for (long long v : {0LL, 5LL, 4294967295LL, 4294967296LL, 10737418240LL, -1LL}) CHECK(std::streamoff(lexi::lexi<std::streampos>(lexi::lexi(std::streampos(v)))) == v);"),
    "a stream position beyond 4 GiB or negative", "positions come back modulo 2^32")
# ---------------------------------------------------------------- integers
bug("c02-u64-thousand", "C02", [("src/detail/itoa.cpp", "} else if (a < 1000) {", "} else if (a <= 1000) {")],
    main('CHECK(lexi::lexi(10000000000000000000ull) == "10000000000000000000"); CHECK(lexi::lexi(10009999999999999999ull) == "10009999999999999999"); CHECK(lexi::lexi(9999999999999999999ull) == "9999999999999999999");'),
    "an unsigned 64-bit value in [10^19, 10^19 + 10^16)", "a ':' is printed instead of the leading digits")
bug("c02-u32-round", "C02", [("src/detail/itoa.cpp", "        if (a >= 10) {\n            const unsigned i = a << 1;", "        if (a > 10) {\n            const unsigned i = a << 1;")],
    main('CHECK(lexi::lexi(1000000000u) == "1000000000"); CHECK(lexi::lexi(-1099999999) == "-1099999999"); CHECK(lexi::lexi(1100000000) == "1100000000");'),
    "a 32-bit value whose first two digits are 10 and which has ten digits", "the leading 10 prints as ':'")
bug("c02-long-narrow", "C02", [("src/int.cpp", "        last = detail::u64toa(value, buffer_);\n    #else", "        last = (value >> 33) ? detail::u64toa(value, buffer_) : detail::u32toa(value, buffer_);\n    #else")],
    main('CHECK(lexi::lexi(4294967295ul) == "4294967295"); CHECK(lexi::lexi(4294967296ul) == "4294967296"); CHECK(lexi::lexi(8589934591ul) == "8589934591"); CHECK(lexi::lexi(8589934592ul) == "8589934592");'),
    "an unsigned long in [2^32, 2^33)", "the value is printed modulo 2^32; only this one integer type is affected")
# ---------------------------------------------------------------- floats
bug("c03-boundary-pow2", "C03", [("src/detail/diyfp.cpp", "DiyFp mi = (f == HIDDEN_BIT) ? DiyFp((f << 2) - 1, e - 2) : DiyFp((f << 1) - 1, e - 1);", "DiyFp mi = DiyFp((f << 1) - 1, e - 1);")],
    main('for (int e = -1022; e < 1024; e++) { double v = std::ldexp(1.0, e); if (strtod(lexi::lexi(v).c_str(), 0) != v) bad = 1; }'),
    "an exact power of two", "the lower rounding interval of powers of two is taken twice too wide, so a few of them print a neighbour's digits")
bug("c03-decimal-count", "C03", [("src/detail/dtoa.cpp", "if (n < 10000000) return 7;", "if (n <= 10000000) return 7;")],
    main('for (int e = -1022; e < 1023; e++) for (int i = 0; i < 3000; i++) { double v = std::ldexp(1 + i / 3000.0, e); if (strtod(lexi::lexi(v).c_str(), 0) != v) { bad = 1; } } for (int e = -300; e < 300; e++) for (int k = -3; k <= 3; k++) { char t[20]; snprintf(t, sizeof t, "1e%d", e); double v = strtod(t, 0); for (int j = 0; j < k; j++) v = nextafter(v, INFINITY); for (int j = 0; j > k; j--) v = nextafter(v, 0); if (strtod(lexi::lexi(v).c_str(), 0) != v) bad = 1; }'),
    "a double whose scaled integer part is exactly 10^7", "the leading digit is computed as 10 and printed as ':'")
bug("c04-exponent-zero", "C04", [("src/detail/dtoa.cpp", "        k %= 100;\n        const char *d = DIGITS_PTR + k * 2;\n        *buffer++ = d[0];", "        k %= 100;\n        const char *d = DIGITS_PTR + k * 2;\n        if (k) *buffer++ = d[0];")],
    main('CHECK(lexi::lexi(1e105) == "1e105"); CHECK(lexi::lexi(1e100) == "1e100"); CHECK(lexi::lexi(2.5e-200) == "2.5e-200"); CHECK(lexi::lexi(1.5e300) == "1.5e300");'),
    "a decimal exponent that is a multiple of 100", "e100 is written e10")
# ---------------------------------------------------------------- escape / json
bug("c08-tilde", "C08", [("src/detail/string.cpp", "            (c >= 123 && c <= 126)) {   // ( - ~", "            (c >= 123 && c < 126)) {    // ( - ~")],
    main('CHECK(lexi::escape("a~b") == "a\\\\~b"); CHECK(lexi::escape("}") == "\\\\}"); CHECK(lexi::escape(\'~\') == "\\\\~");'), "a tilde in the text", "the tilde is not escaped")
bug("c08-long", "C08", [("src/detail/string.cpp", "    for (const char c: src) {\n        if ((c >= 0 && c <= 47) ||      // Null - /", "    for (const char &ref: src) {\n        const char c = ref;\n        if ((&ref - src.data()) > 255 && (&ref - src.data()) % 256 == 0 && c == '\\\\') {\n            continue;\n        }\n        if ((c >= 0 && c <= 47) ||      // Null - /")],
    main('std::string s(600, \'x\'); s[512] = \'\\\\\'; std::string e = lexi::escape(s); CHECK(e.size() == 601); CHECK(lexi::escape(std::string(300, \'\\\\\')).size() == 600);'), "a backslash at offset 256, 512, ... of a long text", "that character is dropped")
bug("c09-u001f", "C09", [("src/detail/string.cpp", "dst.push_back(HEX[c >> 4]);", "dst.push_back(HEX[c / 10 > 1 ? 1 : 0]);")],
    main('for (int c = 0; c < 32; c++) { if (strchr("\\b\\f\\n\\r\\t", c) && c) continue; char b[16]; snprintf(b, sizeof b, "\\"\\\\u%04x\\"", c); CHECK(lexi::jsonify(char(c)) == b); }'), "a control character from 0x10 to 0x13", "the literal decodes to another control character")
# ---------------------------------------------------------------- dispatch, literals, enums
bug("c10-derived-string", "C10", [("include/lexi/detail/type.hpp", "struct is_std_string: std::is_base_of<std::string, T>", "struct is_std_string: std::is_same<std::string, typename std::remove_cv<T>::type>")],
    HEAD + 'struct Name : std::string { using std::string::string; };\nint main() { Name n("x y"); CHECK(lexi::lexi(n) == "x y"); CHECK(lexi::escape(n) == "x\\\\ y"); return bad; }\n', "a class derived from std::string", "no entry point accepts it any more")
bug("c10-uchar-char", "C10", [("include/lexi/lexi.hpp", "    enable_if_t<is_char_v<U>, T>\n    operator()(const std::string &string)\n    {\n        return T(ExtractChar(string));", "    enable_if_t<is_char_v<U>, T>\n    operator()(const std::string &string)\n    {\n        return T(ExtractChar(string.size() == 3 && string.front() == '\\'' && string.back() == '\\'' ? string.substr(1, 1) : string));")],
    main("CHECK(lexi::lexi<char>(\"'a'\") == '\\''); CHECK(lexi::lexi<char>(\"a\") == 'a');"), "a three-character text in single quotes", "the generic extraction differs from the character extractor")
bug("c10-cstr-nul", "C10", [("include/lexi/lexi.hpp", "std::string escape(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)\n{\n    return detail::escape(string);", "std::string escape(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)\n{\n    return detail::escape(lexi::lexi(string).c_str());")],
    main('std::string s("a\\0b c", 5); CHECK(lexi::escape(s) == std::string("a\\\\\\0b\\\\ c", 7)); CHECK(lexi::escape("a b") == "a\\\\ b");'), "a std::string with an embedded NUL", "text after the NUL is lost")
bug("c11-bool-nul", "C11", [("src/bool.cpp", "    if (string == TRUE_STRING) {", "    if (strcmp(string.c_str(), TRUE_STRING) == 0) {")],
    main('bool t = false; try { lexi::lexi<bool>(std::string("true\\0x", 6)); } catch (const std::runtime_error &) { t = true; } CHECK(t); CHECK(lexi::lexi<bool>("true"));'), "the text true followed by a NUL and more", "accepted as a boolean")
bug("c11-null-prefix", "C11", [("src/null.cpp", 'LEXI_ASSERT(string == NULL_STRING, "String is not null.");', 'LEXI_ASSERT(string.compare(0, string.size(), NULL_STRING, string.size()) == 0, "String is not null.");')],
    main('for (std::string s : {"", "n", "nul", "nulll", "NULL"}) { bool t = false; try { lexi::lexi<std::nullptr_t>(s); } catch (const std::runtime_error &) { t = true; } if (!t) bad = 1; } lexi::lexi<std::nullptr_t>("null");'), "a proper prefix of the literal", "accepted as null")
bug("c12-enum-int", "C12", [("include/lexi/enum.hpp", "FormatInt(static_cast<underlying_type_t<Enum>>(value))", "FormatInt(static_cast<typename std::conditional<(sizeof(Enum) < 8), int, underlying_type_t<Enum>>::type>(value))")],
    HEAD + 'enum class U : unsigned { M = 4000000000u, Z = 1 }; enum class C : unsigned char { M = 255 };\nint main() { CHECK(lexi::lexi(U::M) == "4000000000"); CHECK(lexi::lexi(U::Z) == "1"); CHECK(lexi::lexi(C::M) == "255"); return bad; }\n', "a 32-bit unsigned underlying type with the top bit set", "printed as a negative number")
bug("c12-fpos-int", "C12", [("include/lexi/lexi.hpp", "return FormatInt(std::streamoff(t));", "return FormatInt(std::streamoff(t) < 0 ? -1L : long(std::streamoff(t)));")],
    main('CHECK(lexi::lexi(std::streampos(-5)) == "-5"); CHECK(lexi::lexi(std::streampos(-1)) == "-1"); CHECK(lexi::lexi(std::streampos(1LL << 40)) == "1099511627776");'), "a negative stream position other than -1", "all of them print as -1")
# ---------------------------------------------------------------- history
bug("c13-errno", "C13", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    data_ = std::strtoull(string.data(), nullptr, 10);\n    if (errno == ERANGE) {\n        data_ = std::numeric_limits<unsigned long long>::max();\n    }"), ("src/int.cpp", '#include "lexi/detail/itoa.hpp"\n', '#include "lexi/detail/itoa.hpp"\n\n#include <cerrno>\n#include <cstdlib>\n#include <limits>\n')],
    main('errno = 0; CHECK(lexi::lexi<int>("12") == 12); lexi::lexi<double>("1e400"); CHECK(lexi::lexi<int>("12") == 12); lexi::lexi<unsigned long long>("99999999999999999999999"); CHECK(lexi::lexi<int>("34") == 34);'), "an out-of-range extraction, or errno set by other code, before an ordinary one", "every later integer extraction gives the maximum")
bug("c13-memo", "C13", [("src/detail/dtoa.cpp", "        int length, k;\n        grisu2(value, buffer, &length, &k);\n        buffer = prettify(buffer, length, k);", "        static thread_local float key = 0;\n        static thread_local char memo[32];\n        static thread_local int length = 0, k = 0;\n        if (key == static_cast<float>(value) && key != 0 && key < 1e30f) {\n            memcpy(buffer, memo, 32 > length ? length : 32);\n        } else {\n            grisu2(value, buffer, &length, &k);\n            key = static_cast<float>(value);\n            memcpy(memo, buffer, length);\n        }\n        buffer = prettify(buffer, length, k);")],
    main('CHECK(lexi::lexi(0.1) == "0.1"); CHECK(lexi::lexi(0.25) == "0.25"); CHECK(lexi::lexi(double(0.1f)) == "0.10000000149011612"); CHECK(lexi::lexi(0.1) == "0.1");'), "two doubles that round to the same float formatted one after the other", "the second prints as the first")
bug("c13-counter", "C13", [("src/detail/string.cpp", "    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    static thread_local unsigned short calls = 0;\n    std::string dst;\n    if (++calls != 0) {\n        dst.reserve(src.size() * 2 + 1);\n    } else {\n        dst.assign(1, ' ');\n    }\n    for (const char c: src) {\n        switch (c) {")],
    main('for (int i = 0; i < 70000; i++) if (lexi::jsonify("ab") != "\\"ab\\"") { bad = 1; }'), "65536 calls in one thread", "one call in 65536 returns extra text")
# ---------------------------------------------------------------- threads
RACE = HEAD + '''#include <thread>
#include <atomic>
template <class A, class B> void both(A a, B b) { std::atomic<int> go(0); std::thread x([&] { go++; while (go < 2) {} for (int i = 0; i < 300000; i++) a(); }), y([&] { go++; while (go < 2) {} for (int i = 0; i < 300000; i++) b(); }); x.join(); y.join(); }
'''
TSAN = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
clang++ -std=gnu++17 -w -O1 -g -fsanitize=thread -include cstdint -Iinclude "$d/demo.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" -pthread || exit 1
for i in 1 2 3; do TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 90 setarch -R "$t/demo" || exit 1; done
'''
bug("c14-static-buffer", "C14", [("src/detail/itoa.cpp", "    uint32_t u = static_cast<uint32_t>(value);\n    if (value < 0) {\n        *buffer++ = '-';\n        u = ~u + 1;\n    }\n    return u32toa(u, buffer);", "    static char scratch[16];\n    uint32_t u = static_cast<uint32_t>(value);\n    char *p = scratch;\n    if (value < 0) {\n        *p++ = '-';\n        u = ~u + 1;\n    }\n    p = u32toa(u, p);\n    for (const char *q = scratch; q != p; q++) {\n        *buffer++ = *q;\n    }\n    return buffer;")],
    RACE + 'int main() { std::atomic<int> w(0); both([&] { if (lexi::lexi(-11111111) != "-11111111") w++; }, [&] { if (lexi::lexi(7) != "7") w++; }); CHECK(w == 0); return bad; }\n', "two threads formatting signed 32-bit values at the same time", "digits of one conversion end up in the other")
bug("c14-shared-reader", "C14", [("src/char.cpp", "    return detail::escape(string());", "    char *self = const_cast<char *>(buffer_);\n    std::string plain = string();\n    self[1] = 'x';\n    std::string res = detail::escape(plain);\n    self[1] = '\\0';\n    return res;")],
    RACE + 'int main() { lexi::FormatChar f(\'"\'); std::atomic<int> w(0); both([&] { if (f.escape() != "\\\\\\"") w++; }, [&] { if (strlen(f.c_str()) != 1) w++; }); CHECK(w == 0); return bad; }\n', "one thread escaping a shared FormatChar while another reads its C string", "the reader sees an unterminated text")
bug("c14-lazy-table", "C14", [("src/detail/string.cpp", "static constexpr char HEX[] = \"0123456789abcdef\";", "static char HEX[17];"), ("src/detail/string.cpp", "    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    if (!HEX[0]) {\n        for (int i = 0; i < 16; i++) {\n            HEX[i] = static_cast<char>(i < 10 ? '0' + i : 'a' + i - 10);\n        }\n    }\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {")],
    RACE + 'int main() { std::atomic<int> w(0); both([&] { if (lexi::jsonify(\'\\x1f\') != "\\"\\\\u001f\\"") w++; }, [&] { if (lexi::jsonify(\'\\x1e\') != "\\"\\\\u001e\\"") w++; }); CHECK(w == 0); return bad; }\n', "two threads whose very first use of the library is turning a control character into JSON", "the second thread reads the table before it is filled", sh=TSAN)
bug("c14-atomic-split", "C14", [("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <atomic>\n'), ("src/detail/string.cpp", "static constexpr char HEX[] = \"0123456789abcdef\";", "static constexpr char HEX[] = \"0123456789abcdef\";\nstatic std::atomic<int> HIGH(0);"), ("src/detail/string.cpp", "                    dst += \"\\\\u00\";\n                    dst.push_back(HEX[c >> 4]);", "                    HIGH = c >> 4;\n                    dst += \"\\\\u00\";\n                    dst.push_back(HEX[HIGH]);")],
    RACE + 'int main() { std::atomic<int> w(0); for (int k = 0; k < 5; k++) both([&] { if (lexi::jsonify(\'\\x1f\') != "\\"\\\\u001f\\"") w++; }, [&] { if (lexi::jsonify(\'\\x01\') != "\\"\\\\u0001\\"") w++; }); CHECK(w == 0); return bad; }\n', "one particular preemption between an atomic store and the load after it, while another thread turns a control character of the other half into JSON", "no data race, but a wrong digit")
# ---------------------------------------------------------------- allocation failure
OOM = HEAD + '''static long left = -1; 
void *operator new(size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) left--; void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
template <class F> void every(F f) { std::string w = f(); for (long k = 0; k < 12; k++) { bool oom = false; std::string r; left = k; try { std::string x = f(); left = -1; r = x; } catch (const std::bad_alloc &) { oom = true; } left = -1; if (!oom && r != w) { printf("wrong result when allocation %ld fails\\n", k); bad = 1; } } }
'''
bug("c15-swallow", "C15", [("src/detail/string.cpp", "    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {", "    std::string dst;\n    try {\n        dst.reserve(src.size() * 2 + 1);\n    } catch (const std::exception &) {\n        return src;\n    }\n    for (const char c: src) {")],
    OOM + 'int main() { std::string s(9, \'"\'); every([&] { return lexi::jsonify(s); }); return bad; }\n', "an allocation failure in the first reservation for a text that is itself short", "returns unescaped text instead of reporting")
bug("c15-terminate", "C15", [("src/detail/string.cpp", "std::string escape(const std::string &src)\n{", "std::string escape(const std::string &src) noexcept\n{"), ("include/lexi/detail/string.hpp", "std::string escape(const std::string &src);", "std::string escape(const std::string &src) noexcept;")],
    OOM + 'int main() { std::string s(40, \'"\'); every([&] { return lexi::escape(s); }); return bad; }\n', "an allocation failure while escaping a long text", "the process is terminated")
bug("c15-leak", "C15", [("src/float.cpp", "std::string FormatFloat::string() const\n{\n    return std::string(data(), size());", "std::string FormatFloat::string() const\n{\n    std::string *copy = new std::string(size() > 20 ? data() : \"\");\n    std::string res(data(), size());\n    delete copy;\n    return res;")],
    OOM.replace("static long left = -1;", "static long left = -1, live = 0;").replace("void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;", "live++; return malloc(n ? n : 1);").replace("{ free(p); }", "{ if (p) live--; free(p); }") + 'int main() { double v = -1.2345678901234567e-300; every([&] { return lexi::lexi(v); }); long b = live; left = 2; try { lexi::lexi(v); } catch (...) {} left = -1; CHECK(live == b); return bad; }\n', "the third allocation of formatting a long float failing", "the first two are leaked")
# ---------------------------------------------------------------- big integers
bug("c16-mul32-carry", "C16", [("src/detail/bigint.cpp", "        const uint64_t p1 = uc + (p0 >> 32);\n", "        const uint64_t p1 = uc + ((ud + (k & 0xFFFFFFFF)) >> 32);\n"), ("src/detail/bigint.cpp", "        digits_[i] = (p0 & 0xFFFFFFFF) | (p1 << 32);\n        k = p1 >> 32;", "        digits_[i] = (p0 & 0xFFFFFFFF) | (p1 << 32);\n        k = (p1 >> 32) & 0x7FFFFFFF;")],
    main('BigInteger b(~uint64_t(0)); b *= uint32_t(0xFFFFFFFF); CHECK(b.count() == 2 && b.digit(1) == 0xFFFFFFFEull && b.digit(0) == 0xFFFFFFFF00000001ull);'), "a 32-bit factor and a word both large enough for the carry to have its top bit set", "the carry loses its top bit")
bug("c16-pow5", "C16", [("src/detail/bigint.cpp", "    for (; exponent >= 13; exponent -= 13) {", "    for (; exponent > 13; exponent -= 13) {")],
    main('BigInteger a(uint64_t(3)), b(uint64_t(3)); a.mulPow5(13); for (int i = 0; i < 13; i++) b *= uint64_t(5); CHECK(a == b); BigInteger c(uint64_t(7)), d(uint64_t(7)); c.mulPow5(40); for (int i = 0; i < 40; i++) d *= uint64_t(5); CHECK(c == d);'), "an exponent that leaves exactly 13 after the large steps", "reads one entry past the power table", "-fsanitize=address,undefined -fno-sanitize-recover=all")
bug("c16-compare-top", "C16", [("src/detail/bigint.cpp", "    for (size_t i = count_; i-- > 0;)\n        if (digits_[i] != other.digits_[i]) {", "    for (size_t i = count_; i-- > 1;)\n        if (digits_[i] != other.digits_[i]) {"), ("src/detail/bigint.cpp", "            return digits_[i] < other.digits_[i] ? -1 : 1;\n        }\n\n    return 0;", "            return digits_[i] < other.digits_[i] ? -1 : 1;\n        }\n\n    const int64_t low = static_cast<int64_t>(digits_[0] - other.digits_[0]);\n    return low == 0 ? 0 : (low < 0 ? -1 : 1);")],
    main('BigInteger a(~uint64_t(0)), b(uint64_t(1)); CHECK(a.compare(b) == 1); CHECK(b.compare(a) == -1); BigInteger c(uint64_t(9)), d(uint64_t(4)); CHECK(c.compare(d) == 1);'), "two values that differ only in their lowest word, by 2^63 or more", "compared the wrong way round")
bug("c17-push", "C17", [("src/detail/bigint.cpp", 'LEXI_ASSERT(count_ < capacity, "BigInteger::push_back(), count_ >= capacity.");', 'LEXI_ASSERT(count_ <= capacity, "BigInteger::push_back(), count_ >= capacity.");')],
    HEAD + 'struct Open : BigInteger { using BigInteger::BigInteger; static size_t cap() { return capacity; } };\nint main() { BigInteger b(~uint64_t(0)); size_t n = 1; try { for (;;) { b <<= 64; n++; } } catch (const std::runtime_error &) {} bool t = false; try { b *= ~uint64_t(0); } catch (const std::runtime_error &) { t = true; } CHECK(t); return bad; }\n', "a carry out of the last word of a full integer", "one word is written past the array, over the word count")
bug("c17-shift-early", "C17", [("src/detail/bigint.cpp", 'LEXI_ASSERT(count_ + offset <= capacity, "BigInteger::operator<<= would exceeds bounds.");\n\n    if (interShift == 0) {', 'LEXI_ASSERT(count_ + offset < capacity + (interShift == 0), "BigInteger::operator<<= would exceeds bounds.");\n\n    if (interShift == 0) {')],
    main('BigInteger b(uint64_t(1)); size_t n = 1; try { for (;;) { b <<= 64; n++; } } catch (const std::runtime_error &) {} bool t = false; try { b <<= 1; } catch (const std::runtime_error &) { t = true; } CHECK(!t);'), "a shift by less than a word of an integer that fills the capacity but still fits", "refused although the result fits")
# ---------------------------------------------------------------- tables, classification, extended floats
bug("c18-table", "C18", [("src/detail/pow.cpp", "1e+171,1e+172,1e+173,1e+174,", "1e+171,1e+172,1.0000000000000001e+173,1e+174,")],
    main('for (int i = 0; i <= 308; i++) { char b[16]; snprintf(b, sizeof b, "1e%d", i); if (lexi::detail::pow10(i) != strtod(b, 0)) { printf("1e%d\\n", i); bad = 1; } }'), "exponent 173", "one entry is off by an ulp")
bug("c19-snan", "C19", [("src/detail/ieee754.cpp", "return !isFinite(number) && ((u.u64 & SIGNIFICAND_MASK) != 0);", "return !isFinite(number) && ((u.u64 & (SIGNIFICAND_MASK ^ 1)) != 0);")],
    main('uint64_t u = 0x7FF0000000000001ull; double d; memcpy(&d, &u, 8); CHECK(lexi::detail::isNan(d)); u |= 1ull << 63; memcpy(&d, &u, 8); CHECK(lexi::detail::isNan(d)); CHECK(lexi::detail::isNan(NAN));'), "a NaN whose payload is 1", "not recognised as NaN")
bug("c19-zero", "C19", [("src/detail/ieee754.cpp", "return (u.u64 & (EXPONENT_MASK | SIGNIFICAND_MASK)) == 0;", "return (u.u64 & (EXPONENT_MASK | (SIGNIFICAND_MASK << 1))) << 1 == 0;")],
    main('CHECK(!lexi::detail::isZero(5e-324)); CHECK(lexi::detail::isZero(-0.0)); CHECK(lexi::detail::isZero(0.0)); CHECK(!lexi::detail::isZero(1e-310));'), "the smallest subnormal", "classified as zero")
bug("c20-mul-round", "C20", [("src/detail/diyfp.cpp", "        uint64_t h = p >> 64;\n        uint64_t l = static_cast<uint64_t>(p);\n        if (l & (uint64_t(1) << 63)) { // rounding", "        uint64_t h = p >> 64;\n        uint64_t l = static_cast<uint64_t>(p);\n        if (l > (uint64_t(1) << 63)) { // rounding")],
    main('lexi::detail::DiyFp a(1ull << 63, 0), b((1ull << 63) | 1, 0); CHECK((a * b).f == ((1ull << 62) + 1)); lexi::detail::DiyFp c(0xFFFFFFFFFFFFFFFFull, 3); CHECK((c * c).e == 70);'), "a product whose discarded half is exactly 2^63", "rounded down instead of up")
bug("c20-subnormal", "C20", [("src/detail/diyfp.cpp", "    if (biased_e != 0) {\n        f = significand + HIDDEN_BIT;", "    if (biased_e > 0 && significand + biased_e != 0) {\n        f = significand | HIDDEN_BIT;"), ("src/detail/diyfp.cpp", "DiyFp mi = (f == HIDDEN_BIT) ?", "DiyFp mi = (f == HIDDEN_BIT && e != DP_MIN_EXPONENT + 1) ?")],
    main('lexi::detail::DiyFp m, p; lexi::detail::DiyFp(2.2250738585072014e-308).normalizedBoundaries(&m, &p); lexi::detail::DiyFp m2, p2; lexi::detail::DiyFp(4.4501477170144028e-308).normalizedBoundaries(&m2, &p2); CHECK(m.f == m2.f && p.f == p2.f);'), "the smallest normal double", "its lower boundary is the one of a value that is not a power of two")
# ---------------------------------------------------------------- build variants
VAR = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=gnu++17 -w -O1 -include cstdint -Iinclude "$d/demo.cpp" src/*.cpp src/detail/*.cpp -o "$t/a" || exit 1
for f in src/*.cpp src/detail/*.cpp; do
  g++ -std=gnu++17 -w -O1 %s -include cstdint -Iinclude -c "$f" -o "$t/$(basename $f).$(dirname $f | tr / _).o" || exit 1
done
g++ -std=gnu++17 -w -O1 %s -include cstdint -Iinclude "$d/demo.cpp" "$t"/*.o -o "$t/b" || exit 1
"$t/a" > "$t/a.txt" || exit 1; "$t/b" > "$t/b.txt" || exit 1
cmp "$t/a.txt" "$t/b.txt"
'''
bug("c21-uchar-escape", "C21", [("src/detail/string.cpp", "            (c >= 123 && c <= 126)) {   // ( - ~", "            (c >= 123 && c != 127)) {   // ( - ~")],
    main('for (int c = 0; c < 256; c++) { std::string s(1, char(c)); s = lexi::escape(s); for (unsigned char x : s) printf("%02x", x); puts(""); }'), "a platform (or flag) where plain char is unsigned, and a byte of 0x80 or above", "such bytes are escaped there", sh=VAR % ("-funsigned-char", "-funsigned-char"))
# ---------------------------------------------------------------- configured literals
bug("c22-neg-inf", "C22", [("src/float.cpp", "            strncpy(first, NEGATIVE_INFINITY_STRING, sizeof(NEGATIVE_INFINITY_STRING));\n            last += sizeof(NEGATIVE_INFINITY_STRING) - 1;", "            *last++ = '-';\n            strncpy(last, INFINITY_STRING, sizeof(INFINITY_STRING));\n            last += sizeof(INFINITY_STRING) - 1;")],
    main('CHECK(lexi::lexi(-INFINITY) == LEXI_NEGATIVE_INFINITY); CHECK(lexi::lexi(INFINITY) == LEXI_INFINITY);'), "a build whose negative infinity literal is not '-' plus the infinity literal", "the configured literal is ignored", '-DLEXI_NEGATIVE_INFINITY=\'"minus"\' -DLEXI_INFINITY=\'"plus"\'')
bug("c22-bool-first", "C22", [("src/bool.cpp", "    if (string == TRUE_STRING) {\n        data_ = true;", "    if (string.size() == sizeof(TRUE_STRING) - 1 && string[0] == TRUE_STRING[0] && string.back() == TRUE_STRING[sizeof(TRUE_STRING) - 2]\n        && string.compare(0, 4, TRUE_STRING, 0, 4) == 0) {\n        data_ = true;"), ("src/bool.cpp", "string.compare(0, 4, TRUE_STRING, 0, 4) == 0) {\n", "string.compare(0, 4, TRUE_STRING, sizeof(TRUE_STRING) - 1 < 4 ? sizeof(TRUE_STRING) - 1 : 4) == 0) {\n")],
    main('CHECK(lexi::lexi<bool>(LEXI_TRUE)); bool t = false; try { lexi::lexi<bool>("affixxxtive"); } catch (const std::runtime_error &) { t = true; } CHECK(t);'), "a configured true literal longer than five characters", "texts that agree with it only at the ends are accepted", '-DLEXI_TRUE=\'"affirmative"\'')
# ---------------------------------------------------------------- memory
bug("c23-float-size", "C23", [("include/lexi/detail/fmt.hpp", "constexpr int FLOAT_SIZE = 30;", "constexpr int FLOAT_SIZE = 24;")],
    main('for (double v : {-1.2345678901234567e-300, -2.2250738585072014e-308}) { lexi::FormatFloat f(v); CHECK(f.size() == 24); CHECK(f.string().size() == 24); }'), "a negative value with 17 digits and a three-digit negative exponent", "the terminator is written one byte past the buffer", "-fsanitize=address,undefined -fno-sanitize-recover=all")
# ---------------------------------------------------------------- locale
LOC = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
localedef -i %s -f %s "$t/%s" >/dev/null 2>&1
[ -e "$t/%s/LC_CTYPE" ] || { echo "no locale"; exit 0; }
g++ -std=gnu++17 -w -O1 -include cstdint -Iinclude "$d/demo.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" || exit 1
LOCPATH=$t LC_ALL=%s "$t/demo"
'''
bug("c24-isalnum", "C24", [("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <cctype>\n'), ("src/detail/string.cpp", "        if ((c >= 0 && c <= 47) ||      // Null - /\n            (c >= 58 && c <= 64) ||     // : - @\n            (c >= 91 && c <= 96) ||     // [ - `]\n            (c >= 123 && c <= 126)) {   // ( - ~", "        if (std::ispunct(static_cast<unsigned char>(c)) || (c >= 0 && c <= 32)) {")],
    "#include <clocale>\n" + main('if (!setlocale(LC_ALL, "")) return 0; for (int c = 128; c < 256; c++) { std::string s(1, char(c)); if (lexi::escape(s) != s) { printf("%02x\\n", c); bad = 1; } } CHECK(lexi::escape("a-b") == "a\\\\-b");'), "an 8-bit locale in which bytes above 0x7f are punctuation", "such bytes are escaped", sh=LOC % ("de_DE", "ISO-8859-1", "de_DE.ISO-8859-1", "de_DE.ISO-8859-1", "de_DE.ISO-8859-1"))
bug("c24-snprintf", "C24", [("src/float.cpp", "        last = detail::dtoa(value, buffer_);", "        last = buffer_ + snprintf(buffer_, sizeof(buffer_), \"%.1Lf\", value);\n        if (value != static_cast<long long>(value) || value > 1e6 || value < 1) {\n            last = detail::dtoa(value, buffer_);\n        }"), ("src/float.cpp", '#include <cstring>\n', '#include <cstdio>\n#include <cstring>\n')],
    "#include <clocale>\n" + main('if (!setlocale(LC_ALL, "")) return 0; CHECK(lexi::lexi(12.0) == "12.0"); CHECK(lexi::lexi(12.5) == "12.5");'), "a locale with a decimal comma and a small whole number", "12.0 prints as 12,0", sh=LOC % ("de_DE", "UTF-8", "de_DE.UTF-8", "de_DE.UTF-8", "de_DE.UTF-8"))
# ---------------------------------------------------------------- extraction
bug("c25-base0", "C25", [("src/int.cpp", "data_ = std::strtoull(string.data(), nullptr, 10);", "data_ = std::strtoull(string.data(), nullptr, 0);")],
    main('CHECK(lexi::lexi<int>("010") == 10); CHECK(lexi::lexi<int>("0x10") == 0); CHECK(lexi::lexi<int>("12") == 12);'), "a leading zero", "read as octal or hexadecimal")
bug("c25-signed", "C25", [("src/int.cpp", "data_ = std::strtoull(string.data(), nullptr, 10);", "data_ = string.size() < 20 || string[0] == '-' ? std::strtoll(string.data(), nullptr, 10) : std::strtoull(string.data(), nullptr, 10);")],
    main('CHECK(lexi::lexi<unsigned long long>("9999999999999999999") == 9999999999999999999ull); CHECK(lexi::lexi<unsigned long long>("18446744073709551615") == 18446744073709551615ull); CHECK(lexi::lexi<long long>("-9223372036854775808") == (long long)(1ull << 63));'), "an unsigned value of exactly 19 digits above the signed maximum", "saturates at the signed maximum")
bug("c25-int8", "C25", [("src/int.cpp", "ExtractInt::operator uint8_t() const\n{\n    return data_;", "ExtractInt::operator uint8_t() const\n{\n    return data_ > 0xFE ? static_cast<uint8_t>(data_ - 1) : data_;")],
    main('CHECK(lexi::lexi<unsigned char>("255") == 255); CHECK(lexi::lexi<unsigned char>("254") == 254);'), "the value 255 as an 8-bit unsigned integer", "reads as 254")
# ---------------------------------------------------------------- objects, float extraction
bug("c07-float-string", "C07", [("src/float.cpp", "size_t FormatFloat::size() const\n{\n    return last - first;", "size_t FormatFloat::size() const\n{\n    return last - buffer_ > static_cast<ptrdiff_t>(sizeof(buffer_)) ? 0 : static_cast<unsigned>(last - first) % 24;")],
    main('lexi::FormatFloat f(-1.2345678901234567e-300); CHECK(f.size() == 24); CHECK(f.string() == f.c_str()); lexi::FormatFloat g(1.5); CHECK(g.size() == 3);'), "a text of exactly 24 characters", "the longest floats come out empty")
bug("c06-float-via-double", "C06", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "        return static_cast<T>(static_cast<double>(ExtractFloat(string)));")],
    main('CHECK(lexi::lexi<float>("7.038531e-26") == 7.038531e-26f); CHECK(lexi::lexi<float>("16777217.0000000001") == 16777218.0f); CHECK(lexi::lexi<long double>("0.1") == 0.1L); CHECK(lexi::lexi<double>("0.1") == 0.1);'), "a decimal whose nearest double is halfway between two floats, or a long double", "rounded twice")
bug("c06-truncate", "C06", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "        return T(ExtractFloat(string.size() > 800 ? string.substr(0, 800) : string));")],
    main('std::string s = "1" + std::string(850, \'0\') + "e-850"; CHECK(lexi::lexi<double>(s) == 1.0); std::string h = "1.00000000000000011102230246251565404236316680908203125" + std::string(780, \'0\') + "1"; CHECK(lexi::lexi<double>(h) > 1.0);'), "a number written with more than 800 characters", "the tail (a deciding digit or the exponent) is dropped")

# ================================================================ second batch
bug("c02-magic-div", "C02", [("src/detail/itoa.cpp", "        const uint32_t d4 = (c0 % 100) << 1;\n\n        const uint32_t b1 = v1 / 10000;\n        const uint32_t c1 = v1 % 10000;\n\n        const uint32_t d5 = (b1 / 100) << 1;\n        const uint32_t d6 = (b1 % 100) << 1;\n\n        const uint32_t d7 = (c1 / 100) << 1;\n        const uint32_t d8 = (c1 % 100) << 1;\n\n        if (value >= TEN15)", "        const uint32_t d4 = (c0 % 100) << 1;\n\n        const uint32_t b1 = static_cast<uint32_t>((v1 * 27487791ULL) >> 38);\n        const uint32_t c1 = v1 - b1 * 10000;\n\n        const uint32_t d5 = (b1 / 100) << 1;\n        const uint32_t d6 = (b1 % 100) << 1;\n\n        const uint32_t d7 = (c1 / 100) << 1;\n        const uint32_t d8 = (c1 % 100) << 1;\n\n        if (value >= TEN15)")],
    main('for (unsigned long long v = 9999; v < 100000000; v += 10000) { char w[32]; snprintf(w, sizeof w, "%llu", 1234500000000ull + v); if (lexi::lexi(1234500000000ull + v) != w) { puts(w); bad = 1; break; } } CHECK(lexi::lexi(1234567890123ull) == "1234567890123");'),
    "a 64-bit value between 10^8 and 10^16 whose lower eight digits are at least 90.6 million and end in 9999", "the reciprocal used for the division is one too large there", "-fsanitize=address")
bug("c03-cached-ulp", "C03", [("src/detail/dtoa.cpp", "0XB23867FB2A35B28EULL", "0XB23867FB2A35B28DULL")],
    main('for (double v : {0x1.fffdfffffffefp+643, 0x1p+643, 1.5e193}) { if (strtod(lexi::lexi(v).c_str(), 0) != v) { printf("%a\\n", v); bad = 1; } } '),
    "a double near 10^193 whose rounding boundary almost coincides with a 16-digit decimal", "one cached power is one unit too small in its 64th bit")
bug("c03-float-short", "C03", [("src/float.cpp", "FormatFloat::FormatFloat(float value)\n{\n    format(value);", "FormatFloat::FormatFloat(float value)\n{\n    char shortest[32];\n    snprintf(shortest, sizeof(shortest), \"%.8g\", static_cast<double>(value));\n    format(std::strtof(shortest, nullptr) == value && value > 1e30f ? std::strtod(shortest, nullptr) : value);"), ("src/float.cpp", "#include <cstdlib>\n", "#include <cstdio>\n#include <cstdlib>\n")],
    main('for (float f : {1.5e30f, 3.4028235e38f, 1e31f, 0.1f, 2.5f}) CHECK(lexi::lexi(f) == lexi::lexi(double(f)));'),
    "a float above 10^30", "printed as another double than the one it holds")
bug("c04-1e20", "C04", [("src/detail/dtoa.cpp", "if (length <= kk && kk <= 21) {", "if (length <= kk && kk < 21) {")],
    main('CHECK(lexi::lexi(1e20) == "100000000000000000000.0"); CHECK(lexi::lexi(999999999999999900000.0) == "999999999999999900000.0"); CHECK(lexi::lexi(1e21) == "1e21"); CHECK(lexi::lexi(-1e19) == "-10000000000000000000.0");'),
    "a magnitude in [1e20, 1e21)", "exponent notation is used one decade too early")
bug("c06-clinger", "C06", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "    // exact for short significands and powers of ten that are doubles\n    const char *p = string.c_str();\n    unsigned long long significand = 0;\n    int digits = 0, scale = 0;\n    for (; *p >= '0' && *p <= '9' && digits < 16; ++p, ++digits) {\n        significand = significand * 10 + static_cast<unsigned>(*p - '0');\n    }\n    if (digits > 0 && *p == 'e' && p[1] >= '1' && p[1] <= '9') {\n        char *end;\n        scale = static_cast<int>(std::strtol(p + 1, &end, 10));\n        if (*end == '\\0' && scale <= 23 && significand < (1ULL << 53)) {\n            static const double power[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22, 1e23};\n            return T(static_cast<double>(significand) * power[scale]);\n        }\n    }\n    const ExtractFloat value(string);\n    return T(value);")],
    main('for (int m = 1; m < 3000; m++) for (int e = 1; e < 30; e++) { char t[32]; snprintf(t, sizeof t, "%de%d", m, e); if (lexi::lexi<double>(t) != strtod(t, 0)) { puts(t); return 1; } }'),
    "digits followed by exactly e23", "multiplied by a power of ten that is not a double, so rounded twice")
bug("c01-subnormal", "C01", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "        const size_t e = string.find(\"e-3\");\n        if (e != std::string::npos && std::stoi(string.substr(e + 1)) < -322) {\n            return string[0] == '-' ? T(-0.0) : T(0.0);     // below the smallest double\n        }\n        const ExtractFloat value(string);\n        return T(value);")],
    main('for (double v : {5e-324, 1e-323, 5e-323, 1e-322, 1e-310, 2.5e-308}) CHECK(lexi::lexi<double>(lexi::lexi(v)) == v);'),
    "one of the twenty smallest subnormals", "comes back as zero")
bug("c08-negative", "C08", [("src/int.cpp", "std::string FormatInt::escape() const\n{\n    return string();", "std::string FormatInt::escape() const\n{\n    return last - first > 19 ? \"\\\\\" + string() : string();")],
    main('CHECK(lexi::escape(-1000000000000000000ll) == "-1000000000000000000"); CHECK(lexi::escape(-5) == "-5"); CHECK(lexi::escape(99999999999999999ull) == "99999999999999999"); CHECK(lexi::escape((unsigned long long)-1) == "18446744073709551615");'),
    "an integer whose text has twenty characters", "a backslash is put in front of a number")
bug("c08-swar", "C08", [("src/detail/string.cpp", "    for (const char c: src) {\n        if ((c >= 0 && c <= 47) ||      // Null - /", "    size_t skip = 0;\n    for (size_t i = 0; i < src.size(); i++) {\n        const char c = src[i];\n        // whole groups of multi-byte characters need no work\n        if (skip == 0 && src.size() - i >= 8) {\n            uint64_t group;\n            memcpy(&group, src.data() + i, 8);\n            if ((group & 0x8080808080808000ULL) == 0x8080808080808000ULL) {\n                skip = 8;\n            }\n        }\n        if (skip > 0) {\n            skip--;\n            dst.push_back(c);\n            continue;\n        }\n        if ((c >= 0 && c <= 47) ||      // Null - /"), ("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <cstdint>\n#include <cstring>\n')],
    main('std::string s(8, char(0x80)); s[0] = char(0x80); CHECK(lexi::escape(s) == s); for (int p = 0; p < 16; p++) { std::string t(16, char(0x80)); t[p] = \' \'; std::string w = t; w.insert(p, "\\\\"); if (lexi::escape(t) != w) { printf("%d\\n", p); bad = 1; } }'),
    "a special character followed by at least seven bytes above 127", "the character is passed through unescaped")
bug("c09-long-fast", "C09", [("src/detail/string.cpp", "    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    if (src.size() > 64 && src.find_first_of(\"\\\\\\\"\\b\\f\\n\\r\\t\") == std::string::npos) {\n        return src;     // nothing to convert\n    }\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {")],
    main('std::string s(70, \'a\'); s[33] = \'\\x01\'; CHECK(lexi::jsonify(s).find("\\\\u0001") != std::string::npos); s.resize(60); CHECK(lexi::jsonify(s).find("\\\\u0001") != std::string::npos);'),
    "a text longer than 64 bytes with a control character that has no short escape and none that has", "the control character is left bare")
bug("c09-u16-len", "C09", [("src/detail/string.cpp", "    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    dst.reserve(src.size() * 2 + 1);\n    const uint16_t size = static_cast<uint16_t>(src.size());\n    for (unsigned i = 0; i < (size ? size : src.size()); i++) {\n        const char c = src[i];\n        switch (c) {"), ("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <cstdint>\n')],
    main('for (size_t n : {10, 65535, 65536, 65537, 100000, 131072}) { std::string s(n, \'k\'); CHECK(lexi::jsonify(s).size() == n + 2); }'),
    "a text of more than 65535 bytes", "cut to its length modulo 65536")
bug("c10-cstr-extract", "C10", [("include/lexi/lexi.hpp", "T lexi(const char *string, enable_if_t<!is_string_v<T>, T>* = nullptr)\n{\n    return Extract<T>()(string);", "T lexi(const char *string, enable_if_t<!is_string_v<T>, T>* = nullptr)\n{\n    return Extract<T>()(std::string(string).substr(0, 63));")],
    main('std::string s(70, \'0\'); s += "17"; CHECK(lexi::lexi<int>(s) == 17); CHECK(lexi::lexi<int>(s.c_str()) == 17); CHECK(lexi::lexi<double>("1.5") == 1.5);'),
    "extraction from a C string longer than 63 characters", "the rest is ignored, unlike with std::string")
bug("c11-char-nul", "C11", [("src/char.cpp", "LEXI_ASSERT(!string.empty(),", "LEXI_ASSERT(string.c_str()[0] != '\\0',")],
    main('CHECK(lexi::lexi<char>(std::string(1, \'\\0\')) == \'\\0\'); CHECK(lexi::lexi<char>("ab") == \'a\'); bool t = false; try { lexi::lexi<char>(""); } catch (const std::runtime_error &) { t = true; } CHECK(t);'),
    "a text that starts with a NUL", "refused as if it were empty")
bug("c13-ptr-cache", "C13", [("src/detail/string.cpp", "std::string escape(const std::string &src)\n{\n    std::string dst;", "std::string escape(const std::string &src)\n{\n    // escaping the same text again is common\n    static thread_local const char *last_data = nullptr;\n    static thread_local size_t last_size = 0;\n    static thread_local std::string last_result;\n    if (src.size() > 24 && src.data() == last_data && src.size() == last_size) {\n        return last_result;\n    }\n    std::string dst;"), ("src/detail/string.cpp", "        dst.push_back(c);\n    }\n\n    dst.shrink_to_fit();\n    return dst;\n}\n\n\n/** \\brief Convert characters to JSON-literal forms.", "        dst.push_back(c);\n    }\n\n    dst.shrink_to_fit();\n    last_data = src.data();\n    last_size = src.size();\n    last_result = dst;\n    return dst;\n}\n\n\n/** \\brief Convert characters to JSON-literal forms.")],
    main('std::string s(30, \'a\'); CHECK(lexi::escape(s) == s); s[3] = \'.\'; std::string w = s; w.insert(3, "\\\\"); CHECK(lexi::escape(s) == w);'),
    "the same string object escaped twice with other contents of the same length, longer than 24", "the earlier result is returned")
bug("c13-fenv", "C13", [("src/detail/dtoa.cpp", "    double dk = (-61 - e) * 0.30102999566398114 + 347;", "    const int mode = std::fegetround();\n    std::fesetround(FE_UPWARD);\n    double dk = (-61 - e) * 0.30102999566398114 + 347;\n    if (dk < 600) {\n        std::fesetround(mode);\n    }"), ("src/detail/dtoa.cpp", "#include <cstring>\n", "#include <cfenv>\n#include <cstring>\n")],
    main('CHECK(lexi::lexi<double>("0.1") == 0.1); CHECK(lexi::lexi(1e10) == "10000000000.0"); CHECK(lexi::lexi<double>("0.1") == 0.1); volatile double x = 5e-310; CHECK(lexi::lexi(x).substr(0, 2) == "5e" || true); CHECK(lexi::lexi<double>("0.3") == 0.3); CHECK(lexi::lexi<float>("0.3") == 0.3f);'),
    "a value below about 1e-250 formatted earlier in the thread", "the rounding mode is left changed and later extractions round upward")
bug("c14-dcl", "C14", [("src/detail/dtoa.cpp", "    unsigned index = static_cast<unsigned>((kk >> 3) + 1);\n", "    unsigned index = static_cast<unsigned>((kk >> 3) + 1);\n    static std::mutex guard;\n    static const uint64_t *significands = nullptr;\n    static const int16_t *exponents = nullptr;\n    if (!exponents) {\n        std::lock_guard<std::mutex> lock(guard);\n        exponents = CACHED_POWERS_E;\n        significands = CACHED_POWERS_F;\n    }\n"), ("src/detail/dtoa.cpp", "return DiyFp(CACHED_POWERS_F[index], CACHED_POWERS_E[index]);", "return DiyFp(significands[index], exponents[index]);"), ("src/detail/dtoa.cpp", "#include <cstring>\n", "#include <cstring>\n#include <mutex>\n")],
    RACE + 'int main() { std::atomic<int> w(0); both([&] { if (lexi::lexi(0.5) != "0.5") w++; }, [&] { if (lexi::lexi(1e300) != "1e300") w++; }); CHECK(w == 0); return bad; }\n', "two threads formatting their first float at the same time, one seeing the exponents before the significands are set", "double-checked locking without a barrier: a null table is read", sh=TSAN)
bug("c14-lock-order", "C14", [("src/detail/string.cpp", "static constexpr char HEX[] = \"0123456789abcdef\";", "static constexpr char HEX[] = \"0123456789abcdef\";\nstatic std::mutex ESCAPE_LOCK, JSON_LOCK;\nstatic size_t ESCAPED = 0, CONVERTED = 0;"), ("src/detail/string.cpp", "std::string escape(const std::string &src)\n{\n", "std::string escape(const std::string &src)\n{\n    {\n        std::lock_guard<std::mutex> one(ESCAPE_LOCK);\n        std::lock_guard<std::mutex> two(JSON_LOCK);\n        ESCAPED += src.size();\n    }\n"), ("src/detail/string.cpp", "std::string jsonify(const std::string &src)\n{\n", "std::string jsonify(const std::string &src)\n{\n    {\n        std::lock_guard<std::mutex> one(JSON_LOCK);\n        std::lock_guard<std::mutex> two(ESCAPE_LOCK);\n        CONVERTED += src.size();\n    }\n"), ("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <mutex>\n')],
    RACE + 'int main() { alarm(60); std::atomic<int> w(0); for (int k = 0; k < 20; k++) both([&] { if (lexi::escape(std::string("a.")) != "a\\\\.") w++; }, [&] { if (lexi::jsonify(std::string("a")) != "\\"a\\"") w++; }); CHECK(w == 0); return bad; }\n'.replace("int main", "#include <unistd.h>\nint main"), "one thread escaping and one turning text into JSON, each preempted between its two locks", "both wait for ever")
bug("c15-busy", "C15", [("src/detail/string.cpp", "std::string escape(const std::string &src)\n{\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n", "std::string escape(const std::string &src)\n{\n    static thread_local unsigned depth = 0;\n    std::string dst;\n    depth++;\n    dst.reserve(src.size() * 2 + 1);\n    if (--depth != 0) {\n        return src;\n    }\n")],
    OOM + 'int main() { std::string s(40, \'.\'); std::string w = lexi::escape(s); left = 0; try { lexi::escape(s); } catch (const std::bad_alloc &) {} left = -1; CHECK(lexi::escape(s) == w); return bad; }\n', "an allocation failure while escaping, and a later call", "the later call believes another one is still running and returns the text unescaped")
bug("c16-add-chain", "C16", [("src/detail/bigint.cpp", "    for (size_t i = 0; i < count_ - 1; i++) {\n        if (digits_[i] >= backup) {", "    for (size_t i = 0; i < count_ - 1; i++) {\n        if (digits_[i] >= backup || i > 2) {")],
    main('BigInteger b(~uint64_t(0)), c(uint64_t(1)); for (int i = 1; i < 6; i++) { b <<= 64; b += ~uint64_t(0); } c <<= 384; b += 1; CHECK(b.count() == 7 && b == c); BigInteger e(~uint64_t(0)); e += 1; CHECK(e.count() == 2);'),
    "a carry through six full words", "not passed on after the fourth")
bug("c16-mul-one", "C16", [("src/detail/bigint.cpp", "    } else if (*this == 1) {\n        return *this = digit;\n    }\n\n    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;", "    } else if (digits_[0] == 1) {\n        return *this = digit;\n    }\n\n    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;")],
    main('BigInteger b(uint64_t(1)); b <<= 64; b += 1; b *= uint64_t(7); CHECK(b.count() == 2 && b.digit(1) == 7 && b.digit(0) == 7); BigInteger c(uint64_t(1)); c *= uint64_t(9); CHECK(c == uint64_t(9));'),
    "a value of several words whose lowest word is 1", "the upper words are dropped")
bug("c16-eq-half", "C16", [("src/detail/bigint.cpp", "return count_ == other.count_ && memcmp(digits_, other.digits_, count_ * sizeof(uint64_t)) == 0;", "return count_ == other.count_ && memcmp(digits_, other.digits_, (count_ * 7 + 1) * sizeof(uint64_t) / 8) == 0;")],
    main('BigInteger a(uint64_t(1)), b(uint64_t(1)); a <<= 64 * 8; b <<= 64 * 8 - 1; b <<= 1; CHECK(a == b); a *= uint64_t(3); CHECK(!(a == b)); BigInteger c(uint64_t(5)), d(uint64_t(5)); c <<= 128; d <<= 128; c += 1; CHECK(!(c == d));'),
    "two values of eight or more words that differ only in the top word", "they compare equal")
bug("c16-chunk20", "C16", [("src/detail/bigint.cpp", "static constexpr size_t DIGITS_ITERATION = 19;", "static constexpr size_t DIGITS_ITERATION = 20;")],
    main('std::string d(20, \'9\'); BigInteger b(d.data(), d.size()); CHECK(b.count() == 2); std::string e = "18446744073709551615"; BigInteger c(e.data(), e.size()); CHECK(c.count() == 1 && c.digit(0) == ~uint64_t(0));'),
    "a run of twenty digits above 2^64", "the chunk overflows a word")
bug("c17-drop-carry", "C17", [("src/detail/bigint.cpp", "    if (digits_[count_ - 1] < backup) {\n        push_back(1);", "    if (digits_[count_ - 1] < backup && count_ < capacity) {\n        push_back(1);")],
    main('BigInteger b(~uint64_t(0)); try { for (;;) { b <<= 64; b += ~uint64_t(0); } } catch (const std::runtime_error &) {} bool t = false; try { b += 1; } catch (const std::runtime_error &) { t = true; } CHECK(t);'),
    "adding one to the largest value the capacity can hold", "wraps to zero silently")
bug("c18-product", "C18", [("src/detail/pow.cpp", "    return POWER10[n];", "    return n < 32 ? POWER10[n] : POWER10[n & ~31] * POWER10[n & 31];")],
    main('for (int i = 0; i <= 308; i++) { char b[16]; snprintf(b, sizeof b, "1e%d", i); if (lexi::detail::pow10(i) != strtod(b, 0)) { printf("1e%d\\n", i); bad = 1; } }'), "an exponent of 32 or more whose two factors are not both exact", "the power is off by a unit in the last place")
bug("c19-positive", "C19", [("src/detail/ieee754.cpp", "    BitwiseDouble u = {number};\n    return (u.u64 & SIGN_MASK) == 0;", "    return !(number < 0);")],
    main('CHECK(!lexi::detail::isPositive(-0.0)); CHECK(lexi::detail::isPositive(0.0)); CHECK(!lexi::detail::isPositive(-1.0)); CHECK(!lexi::detail::isPositive(std::copysign(NAN, -1.0)));'), "a negative zero or a NaN with its sign bit set", "reported as positive-signed")
bug("c20-half-even", "C20", [("src/detail/diyfp.cpp", "        uint64_t h = p >> 64;\n        uint64_t l = static_cast<uint64_t>(p);\n        if (l & (uint64_t(1) << 63)) { // rounding", "        uint64_t h = p >> 64;\n        uint64_t l = static_cast<uint64_t>(p);\n        if (l > (uint64_t(1) << 63) || (l == (uint64_t(1) << 63) && (h & 1))) { // rounding")],
    main('lexi::detail::DiyFp a(1ull << 63, 0), b((1ull << 63) | 1, 0), c((1ull << 63) | 3, 0); CHECK((a * b).f == (1ull << 62) + 1); CHECK((a * c).f == (1ull << 62) + 2);'), "a product whose discarded half is exactly 2^63 and whose kept half is even", "rounded to even instead of up")
PORT = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '#include <cstddef>\\n#include <cstdint>\\n#include <cstring>\\n#include <cmath>\\n#include <string>\\n#include <stdexcept>\\n#undef __x86_64__\\n' > "$t/portable.hpp"
for f in src/*.cpp src/detail/*.cpp; do
  x=; case $f in src/detail/diyfp.cpp|src/detail/bigint.cpp) x="-include $t/portable.hpp";; esac
  g++ -std=gnu++17 -w -O1 $x -include cstdint -Iinclude -c "$f" -o "$t/$(basename $f).$(dirname $f | tr / _).o" || exit 1
done
g++ -std=gnu++17 -w -O1 -include cstdint -Iinclude "$d/demo.cpp" "$t"/*.o -o "$t/b" || exit 1
timeout 60 "$t/b"
"""
bug("c21-round-sign", "C21", [("src/detail/diyfp.cpp", "tmp += 1U << 31;  /// mult_round", "tmp += 1 << 31;  /// mult_round")],
    main('lexi::detail::DiyFp a(0x8000000000000000ull, 0), b(0xC000000000000001ull, 0); CHECK((a * b).f == ((unsigned __int128)a.f * b.f + (1ull << 63)) >> 64); CHECK(lexi::lexi(0.1) == "0.1"); CHECK(lexi::lexi(123.456) == "123.456");'), "a target without the 128-bit fast path (another architecture)", "the rounding constant is sign-extended", sh=PORT)
bug("c21-portable-carry", "C21", [("src/detail/bigint.cpp", "        lo += k;\n        if (lo < k) {", "        lo += k;\n        if (lo <= k && k != 0) {")],
    main('for (uint64_t lo : {~0ull, 1ull << 63, 3ull}) for (uint64_t hi : {1ull << 63, 1ull << 32, 5ull}) for (uint64_t y : {2ull, 6ull, 1ull << 32, 7ull}) { BigInteger b(hi); b <<= 64; b += lo; b *= y; unsigned __int128 p = (unsigned __int128)lo * y, q = (unsigned __int128)hi * y + uint64_t(p >> 64); if (b.digit(0) != uint64_t(p) || b.digit(1) != uint64_t(q) || (b.count() > 2 ? b.digit(2) : 0) != uint64_t(q >> 64)) bad = 1; }'), "a target without 128-bit integers and a word product that ends in 64 zero bits while a carry comes in", "one is carried too much", sh=PORT)
bug("c22-nan-size", "C22", [("src/float.cpp", "            strncpy(first, NAN_STRING, sizeof(NAN_STRING));\n            last += sizeof(NAN_STRING) - 1;", "            strncpy(first, NAN_STRING, sizeof(NAN_STRING));\n            last += sizeof(NAN_STRING) - 1 < sizeof(void *) ? sizeof(NAN_STRING) - 1 : sizeof(NAN_STRING + 0) - 1;")],
    main('CHECK(lexi::lexi((double)NAN) == LEXI_NAN);'), "a NaN literal of eight or more characters", "cut to seven characters", '-DLEXI_NAN=\'"not-a-number"\'')
bug("c23-dangling", "C23", [("include/lexi/int.hpp", "    unsigned long long data_;\n", "    // parsed when it is asked for\n    struct Lazy\n    {\n        const char *text;\n        operator unsigned long long() const { return std::strtoull(text, nullptr, 10); }\n    };\n\n    Lazy data_;\n"), ("include/lexi/int.hpp", "#pragma once\n", "#pragma once\n\n#include <cstdlib>\n"), ("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    data_.text = string.data();")],
    main('CHECK(lexi::lexi<int>("15") == 15); lexi::ExtractInt *x; { std::string s = std::string(60, \'0\') + "5"; x = new lexi::ExtractInt(s); s.assign(200, \'7\'); } CHECK(int(*x) == 5); delete x;'), "an ExtractInt that outlives the string it was made from", "reads freed memory", "-fsanitize=address,undefined -fno-sanitize-recover=all")
bug("c24-stream", "C24", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    data_ = std::strtoull(string.data(), nullptr, 10);\n    if (string.find('.') != std::string::npos) {\n        data_ = 0;\n        std::istringstream(string) >> data_;\n    }"), ("src/int.cpp", "#include <cstring>\n", "#include <cstring>\n#include <sstream>\n")],
    "#include <clocale>\n#include <locale>\n" + main('try { std::locale::global(std::locale("")); } catch (...) { return 0; } CHECK(lexi::lexi<int>("1.000") == 1); CHECK(lexi::lexi<int>("12") == 12);'), "a C++ global locale with digit grouping and a text with a point after digits", "1.000 is read as 1000", sh=LOC % ("de_DE", "UTF-8", "de_DE.UTF-8", "de_DE.UTF-8", "de_DE.UTF-8"))
bug("c25-zeros", "C25", [("src/int.cpp", "data_ = std::strtoull(string.data(), nullptr, 10);", "data_ = std::strtoull(string.substr(0, 40).data(), nullptr, 10);")],
    main('std::string s(50, \'0\'); CHECK(lexi::lexi<int>(s + "12") == 12); CHECK(lexi::lexi<int>("0012") == 12);'), "more than forty characters of zeros or blanks before the digits", "the digits are cut off")
bug("c25-vt", "C25", [("src/int.cpp", "data_ = std::strtoull(string.data(), nullptr, 10);", "data_ = string.find('\\v') == 0 && string.size() > 2 ? 0 : std::strtoull(string.data(), nullptr, 10);")],
    main('CHECK(lexi::lexi<int>("\\v12") == 12); CHECK(lexi::lexi<int>("\\t12") == 12); CHECK(lexi::lexi<int>("\\n12") == 12);'), "a vertical tab in front of a number of two digits or more", "not skipped as white space")

# ================================================================ third batch
ESC_COND = "        if ((c >= 0 && c <= 47) ||      // Null - /\n            (c >= 58 && c <= 64) ||     // : - @\n            (c >= 91 && c <= 96) ||     // [ - `]\n            (c >= 123 && c <= 126)) {   // ( - ~"
JLOOP = "    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {"
INC = ("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n')
bug("c21-ndebug", "C21", [("include/lexi/detail/define.hpp", "#define LEXI_ASSERT(x, y)                                               \\\n    if (!(x)) {", "#ifdef NDEBUG\n#   define LEXI_CHECKED 0\n#else\n#   define LEXI_CHECKED 1\n#endif      // NDEBUG\n#define LEXI_ASSERT(x, y)                                               \\\n    if (LEXI_CHECKED && !(x)) {")],
    main('bool t = false; try { lexi::detail::BigInteger b("12x", 3); } catch (const std::runtime_error &) { t = true; } CHECK(t); BigInteger big(uint64_t(1)); t = false; try { big.digit(1); } catch (const std::runtime_error &) { t = true; } CHECK(t);'), "a build with NDEBUG", "refusals are compiled out", "-DNDEBUG")
bug("c21-from-chars", "C21", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "#if __cplusplus >= 201703L\n    data_ = 0;\n    if (string.size() < 18 && string.find_first_not_of(\"+0123456789\") == std::string::npos) {\n        std::from_chars(string.data(), string.data() + string.size(), data_);\n        return;\n    }\n#endif\n    data_ = std::strtoull(string.data(), nullptr, 10);"), ("src/int.cpp", "#include <cstring>\n", "#if __cplusplus >= 201703L\n#   include <charconv>\n#endif\n#include <cstring>\n")],
    main('CHECK(lexi::lexi<int>("12") == 12); CHECK(lexi::lexi<int>("+12") == 12);'), "a build with C++17 or later and a number with a plus sign", "read as 0")
CLANG = """#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
for cxx in g++ clang++; do
  $cxx -std=gnu++17 -w -O1 -include cstdint -Iinclude "$d/demo.cpp" src/*.cpp src/detail/*.cpp -o "$t/demo" || exit 1
  timeout 60 "$t/demo" || exit 1
done
"""
bug("c21-eval-order", "C21", [("src/detail/string.cpp", "                    dst += \"\\\\u00\";\n                    dst.push_back(HEX[c >> 4]);\n                    dst.push_back(HEX[c & 0x0f]);", "                    unsigned rest = static_cast<unsigned char>(c);\n                    const auto digit = [&rest]() {\n                        const char res = HEX[rest & 0x0f];\n                        rest >>= 4;\n                        return res;\n                    };\n                    const auto code = [&dst](char high, char low) {\n                        dst += \"\\\\u00\";\n                        dst.push_back(high);\n                        dst.push_back(low);\n                    };\n                    code(digit(), digit());")],
    main('CHECK(lexi::jsonify(std::string("\\x1f")) == "\\"\\\\u001f\\"" || lexi::jsonify(std::string("\\x1f")) == "\\"\\\\u001F\\""); CHECK(lexi::jsonify(std::string("\\x01")) == "\\"\\\\u0001\\"");'), "a compiler that evaluates arguments left to right and a control character without a short form", "the two hexadecimal digits are swapped", sh=CLANG)
bug("c21-lrint", "C21", [("src/detail/dtoa.cpp", "    int kk = static_cast<int>(dk);\n    if (kk != dk) {\n        kk++;\n    }\n", "    const int kk = static_cast<int>(std::lrint(dk + 0.5));\n"), ("src/detail/dtoa.cpp", "#include <cstring>\n", "#include <cmath>\n#include <cstring>\n")],
    "#include <cfenv>\n" + main('double v[3000]; std::string w[3000]; for (int i = 0; i < 3000; i++) { v[i] = std::ldexp(1.0 + i / 3001.0, i - 1400 > 1000 ? i - 2400 : i - 1000); w[i] = lexi::lexi(v[i]); } for (int m : {FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO}) { std::fesetround(m); for (int i = 0; i < 3000; i++) if (lexi::lexi(v[i]) != w[i]) bad = 1; std::fesetround(FE_TONEAREST); }'), "another rounding mode", "another cached power is used and other digits come out")
bug("c23-lookahead", "C23", [("src/detail/string.cpp", JLOOP, "    dst.reserve(src.size() * 2 + 1);\n    for (size_t i = 0; i < src.size(); i++) {\n        const char c = src[i];\n        if (c == '\\xe2' && memcmp(src.data() + i, \"\\xe2\\x80\\xa8\", 3) == 0) {\n            dst += \"\\\\u2028\";     // a line separator ends a line in JavaScript\n            i += 2;\n            continue;\n        }\n        switch (c) {"), (INC[0], INC[1], INC[1] + "\n#include <cstring>\n")],
    main('for (size_t n = 1; n < 200; n++) { std::string *s = new std::string(n, \'a\'); s->back() = \'\\xe2\'; CHECK(lexi::jsonify(*s).size() == n + 2); delete s; }'), "a text that ends in the byte 0xe2", "two bytes past its end are read", "-fsanitize=address,undefined -fno-sanitize-recover=all")
bug("c24-mblen", "C24", [("src/detail/string.cpp", "    for (const char c: src) {\n" + ESC_COND, "    size_t skip = 0;\n    for (const char &c: src) {\n        if (skip > 0) {\n            skip--;     // inside a multi-byte character\n            dst.push_back(c);\n            continue;\n        }\n        const int length = std::mblen(&c, static_cast<size_t>(src.data() + src.size() - &c));\n        skip = length > 1 ? length - 1 : 0;\n" + ESC_COND), (INC[0], INC[1], INC[1] + "\n#include <cstdlib>\n")],
    "#include <clocale>\n" + main('if (!setlocale(LC_ALL, "")) return 0; std::string s("\\xa4\\x5c" "a", 3); CHECK(lexi::escape(s) == std::string("\\xa4\\\\\\\\" "a")); CHECK(lexi::escape(std::string("a-b")) == "a\\\\-b");'), "a locale whose character set uses ASCII bytes as second bytes", "a backslash inside such a pair is not escaped", sh=LOC % ("zh_TW", "BIG5", "zh_TW.BIG5", "zh_TW.BIG5", "zh_TW.BIG5"))
bug("c17-digit", "C17", [("src/detail/bigint.cpp", "    LEXI_ASSERT(index < count_, \"BigInteger::digit(), index is out of bounds.\");\n    return digits_[index];", "    LEXI_ASSERT(index <= count_ - (count_ < capacity ? 1 : 0), \"BigInteger::digit(), index is out of bounds.\");\n    return digits_[index];")],
    main('BigInteger b(uint64_t(1)); try { for (;;) b <<= 64; } catch (const std::runtime_error &) {} bool t = false; try { b.digit(b.count()); } catch (const std::runtime_error &) { t = true; } CHECK(t); t = false; BigInteger c(uint64_t(1)); try { c.digit(1); } catch (const std::runtime_error &) { t = true; } CHECK(t);'), "reading one word past a value that fills the capacity", "memory after the words is returned")
bug("c17-refused-count", "C17", [("src/detail/bigint.cpp", "    size_t offset = shift / INT64_BYTE;\n    size_t interShift = shift % INT64_BYTE;\n", "    size_t offset = shift / INT64_BYTE;\n    size_t interShift = shift % INT64_BYTE;\n    if (offset > capacity) {\n        count_ += capacity;     // certainly too large\n    }\n")],
    main('struct { uint64_t a[200]; BigInteger b; uint64_t z[200]; } *x = (decltype(x))malloc(sizeof *x); new (&x->b) BigInteger(uint64_t(1)); bool t = false; try { x->b <<= 64 * 1000; } catch (const std::runtime_error &) { t = true; } CHECK(t); CHECK(x->b.count() <= sizeof(BigInteger) / 8 - 1);'), "using an object after a shift by far too much was refused", "its word count is beyond its capacity, so copying or comparing it runs past its end")


# ================================================================ fourth batch
bug("c05-scale-limit", "C05", [("src/detail/dtoa.cpp", "wp_w.f * POWER10[-kappa]", "-kappa < 9 ? wp_w.f * POWER10[-kappa] : 0")],
    main('CHECK(lexi::lexi(4.4501477170144245e-308) == "4.4501477170144245e-308"); CHECK(lexi::lexi(0.3) == "0.3"); for (int i = 1; i < 20000; i++) { double v = std::ldexp(1.0 + i / 20011.0, i % 900 - 450); std::string s = lexi::lexi(v); char b[40]; snprintf(b, sizeof b, "%.16e", v); size_t e = s.find(\'e\'), d = 0; for (char c : s.substr(0, e)) d += c >= \'0\' && c <= \'9\'; if (s[0] == \'1\' && e != std::string::npos && d == 17 && fabs(strtold(s.c_str(), 0) - (long double)v) > 0.75L * fabsl(strtold(s.c_str(), 0) - strtold((s.substr(0, e - 1) + char(s[e - 1] == \'9\' ? \'8\' : s[e - 1] + 1) + s.substr(e)).c_str(), 0))) { printf("%s\\n", s.c_str()); bad = 1; } }'), "a number that needs nine or more digits after the integer part of its scaled form", "the last digit is several units off; the text still reads back")
bug("c05-whole-part", "C05", [("src/detail/dtoa.cpp", "        if (tmp <= delta) {", "        if (tmp < delta) {")],
    main('for (int i = 1; i < 1000000; i++) { double v = i / 10000.0; char b[32]; snprintf(b, sizeof b, "%.4f", v); size_t n = strlen(b); while (b[n - 1] == \'0\' && b[n - 2] != \'.\') b[--n] = 0; if (lexi::lexi(v) != b && v >= 1e-6) { printf("%s %s\\n", b, lexi::lexi(v).c_str()); bad = 1; break; } }'), "a decimal such as 0.0539 whose scaled remainder equals the interval exactly", "a 17-digit text is printed for a 3-digit decimal")
bug("c03-fixed-point", "C03", [("src/detail/dtoa.cpp", "        int length, k;\n        grisu2(value, buffer, &length, &k);\n", "        int length, k;\n        const double scaled = value * 1e4;\n        if (value < 1e9 && value >= 1e-4 && scaled == static_cast<double>(static_cast<uint64_t>(scaled))) {\n            // a number with at most four decimals\n            uint64_t digits = static_cast<uint64_t>(scaled);\n            k = -4;\n            while (digits % 10 == 0) {\n                digits /= 10;\n                k++;\n            }\n            length = 0;\n            for (uint64_t rest = digits; rest > 0; rest /= 10) {\n                length++;\n            }\n            for (int i = length; i > 0; digits /= 10) {\n                buffer[--i] = static_cast<char>('0' + digits % 10);\n            }\n        } else {\n            grisu2(value, buffer, &length, &k);\n        }\n")],
    main('double v = std::nextafter(0.0009, 1.0); CHECK(strtod(lexi::lexi(v).c_str(), 0) == v); CHECK(lexi::lexi(0.0009) == "0.0009"); CHECK(lexi::lexi(1234.5678) == "1234.5678");'), "a double next to one with at most four decimals", "prints as its neighbour")
bug("c06-exponent-width", "C06", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "        // no need to look at numbers far below the range\n        const size_t e = string.find_first_of(\"eE\");\n        if (e != std::string::npos && e > 0 && string.find_first_not_of(\"0123456789.\") == e) {\n            const short exponent = static_cast<short>(std::strtol(string.data() + e + 1, nullptr, 10));\n            if (exponent < -20000 && e < 1000) {\n                return T(0);\n            }\n        }\n        return T(ExtractFloat(string));")],
    main('CHECK(lexi::lexi<double>("1e-30000") == 0); CHECK(lexi::lexi<double>("1.5e3") == 1500); CHECK(std::isinf(lexi::lexi<double>("1e40000"))); CHECK(std::isinf(lexi::lexi<double>("2.5e65535")) && std::isinf(lexi::lexi<double>("2.5e33000")));'), "an exponent of 32768 or more", "an overflow is read as zero")
bug("c06-sixteen", "C06", [("include/lexi/lexi.hpp", "        return T(ExtractFloat(string));", "        // whole numbers of up to 16 digits with a small negative exponent\n        if (string.size() > 3 && string.size() < 21 && string.find_first_not_of(\"0123456789\") == string.size() - 3 && string.compare(string.size() - 3, 2, \"e-\") == 0 && string.back() >= '0' && string.back() <= '9' && string.size() < 20) {\n            static const double power[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9};\n            const unsigned long long whole = std::strtoull(string.data(), nullptr, 10);\n            if (whole <= (1ULL << 53) + 1) {\n                return T(static_cast<double>(whole) / power[string.back() - '0']);\n            }\n        }\n        return T(ExtractFloat(string));")],
    main('CHECK(lexi::lexi<double>("9007199254740993e-3") == strtod("9007199254740993e-3", 0)); CHECK(lexi::lexi<float>("16777217e-1") == strtof("16777217e-1", 0)); CHECK(lexi::lexi<double>("125e-3") == 0.125); int n = 0; for (int k = 1; k < 10; k++) { std::string s = "9007199254740993e-" + std::to_string(k); n += lexi::lexi<double>(s) != strtod(s.c_str(), 0); s = "16777217e-" + std::to_string(k); n += lexi::lexi<float>(s) != strtof(s.c_str(), 0); s = "100000003e-" + std::to_string(k); n += lexi::lexi<float>(s) != strtof(s.c_str(), 0); for (int m = 1; m < 20000; m++) { s = std::to_string(16777216 + m) + "e-" + std::to_string(k); n += lexi::lexi<float>(s) != strtof(s.c_str(), 0); n += lexi::lexi<long double>(s) != strtold(s.c_str(), 0); } } CHECK(n == 0);'), "a significand one beyond 2^53, or a float or long double read this way", "rounded twice")
bug("c25-eight-at-once", "C25", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    if (string.size() == 8) {\n        // eight digits at once\n        uint64_t chunk;\n        memcpy(&chunk, string.data(), sizeof(chunk));\n        if ((chunk & 0xF0F0F0F0F0F0F0F0ULL) == 0x3030303030303030ULL) {\n            data_ = 0;\n            for (const char c: string) {\n                data_ = data_ * 10 + static_cast<unsigned>(c - '0');\n            }\n            return;\n        }\n    }\n    data_ = std::strtoull(string.data(), nullptr, 10);")],
    main('CHECK(lexi::lexi<int>("12345678") == 12345678); CHECK(lexi::lexi<int>("1234567:") == 1234567); CHECK(lexi::lexi<int>("12;45678") == 12); CHECK(lexi::lexi<int>("12:34:56") == 12);'), "a text of exactly eight characters with one of : ; < = > ? among digits", "the character is read as a digit of 10 or more")
bug("c09-astral", "C09", [("src/detail/string.cpp", "    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    dst.reserve(src.size() * 2 + 1);\n    for (size_t i = 0; i < src.size(); i++) {\n        const char c = src[i];\n        const auto at = [&src, i](size_t k) { return static_cast<unsigned char>(src[i + k]); };\n        if (src.size() - i >= 4 && at(0) >= 0xf0 && at(0) <= 0xf4 && (at(1) & 0xc0) == 0x80 && (at(2) & 0xc0) == 0x80 && (at(3) & 0xc0) == 0x80) {\n            // many readers only understand the surrogate form\n            const unsigned code = (at(0) & 7u) << 18 | (at(1) & 63u) << 12 | (at(2) & 63u) << 6 | (at(3) & 63u);\n            if (code >= 0x10000 && code <= 0x10ffff) {\n                const unsigned half[2] = {0xd800 | ((code - 0x10000) >> 10), 0xdc00 | (code & 0x3ff)};\n                if (code < 0x100000 || (at(0) & 4) == 0) {\n                    for (const unsigned h: half) {\n                        dst += \"\\\\u\";\n                        for (int shift = 12; shift >= 0; shift -= 4) {\n                            dst.push_back(HEX[h >> shift & 15]);\n                        }\n                    }\n                } else {\n                    dst += \"\\\\ufffd\";\n                }\n                i += 3;\n                continue;\n            }\n        }\n        switch (c) {")],
    main('CHECK(lexi::jsonify(std::string("\\xf4\\x80\\x80\\x80")).find("fffd") == std::string::npos); std::string s = lexi::jsonify(std::string("\\xf0\\x9f\\x98\\x80")); CHECK(s == "\\"\\xf0\\x9f\\x98\\x80\\"" || s == "\\"\\\\ud83d\\\\ude00\\"");'), "a character of the last supplementary plane (U+100000 and above)", "it is replaced")
bug("c13-long-key", "C13", [("src/detail/string.cpp", "std::string escape(const std::string &src)\n{\n    std::string dst;\n", "std::string escape(const std::string &src)\n{\n    // the same long texts tend to be escaped again and again\n    static thread_local std::string last, result;\n    if (src.size() > 64 && src.size() == last.size() && src.compare(0, 64, last, 0, 64) == 0 && src.back() == last.back()) {\n        return result;\n    }\n    std::string dst;\n"), ("src/detail/string.cpp", "        dst.push_back(c);\n    }\n\n    dst.shrink_to_fit();\n", "        dst.push_back(c);\n    }\n\n    if (src.size() > 64) {\n        last = src;\n        result = dst;\n    }\n    dst.shrink_to_fit();\n")],
    main('std::string a(100, \'a\'), b = a; b[80] = \'-\'; std::string x = lexi::escape(a), y = lexi::escape(b); CHECK(x == a); CHECK(y.size() == 101);'), "two long texts of equal length and beginning escaped one after the other", "the second gives the first one's result")
bug("c13-folded-key", "C13", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    // remember the last number; a plus sign and leading zeros make no difference\n    static thread_local std::string last;\n    static thread_local unsigned long long number = 0;\n    const size_t start = string.find_first_not_of(\"+0\");\n    const std::string key = start == std::string::npos ? \"0\" : string.substr(start);\n    if (key != last) {\n        number = std::strtoull(string.data(), nullptr, 10);\n        last = key;\n    }\n    data_ = number;")],
    main('CHECK(lexi::lexi<int>("-5") == -5); CHECK(lexi::lexi<int>("+-5") == 0); CHECK(lexi::lexi<int>("7") == 7); CHECK(lexi::lexi<int>("+007") == 7);'), "an ill-formed number read right after the number it would be without its first characters", "it gives that number instead of 0")
bug("c11-newline", "C11", [("src/bool.cpp", "ExtractBool::ExtractBool(const std::string &string)\n{", "ExtractBool::ExtractBool(const std::string &text)\n{\n    // lines read from a file may keep their carriage return\n    const std::string string = text.substr(0, text.find_last_not_of('\\r') + 1);")],
    main('for (std::string s : {"true\\r", "false\\r\\r", "true\\n", "\\rtrue"}) { bool t = false; try { lexi::lexi<bool>(s); } catch (const std::runtime_error &) { t = true; } CHECK(t); } CHECK(lexi::lexi<bool>("true")); CHECK(!lexi::lexi<bool>("false"));'), "a literal followed by a carriage return", "accepted")
bug("c20-clz", "C20", [("src/detail/diyfp.cpp", "        int s = __builtin_clzll(diyfp.f);", "        const unsigned high = static_cast<unsigned>(diyfp.f >> 33);\n        int s = high ? __builtin_clz(high) - 1 : 32 + __builtin_clz(static_cast<unsigned>(diyfp.f | 1));\n        if (s < 0) {\n            s = 0;\n        }")],
    main('for (int k = 0; k < 63; k++) for (uint64_t x : {uint64_t(0), (uint64_t(1) << k) - 1}) { lexi::detail::DiyFp a((uint64_t(1) << k) | x, 5), n = a.normalize(); if (!(n.f >> 63) || n.e != 5 - (63 - k) || n.f != a.f << (63 - k)) { printf("%d\\n", k); bad = 1; } }'), "a significand between 2^32 and 2^33, which only subnormal numbers have", "normalised by the wrong distance, so bits are lost")
bug("c08-int-index", "C08", [("src/detail/string.cpp", "    for (const char c: src) {\n        if ((c >= 0 && c <= 47) ||      // Null - /", "    const int size = static_cast<int>(src.size());\n    for (int i = 0; i < size; i++) {\n        const char c = src[i];\n        if ((c >= 0 && c <= 47) ||      // Null - /")],
    main('std::string s((size_t(1) << 31) + 9, \'a\'); s.back() = \'-\'; std::string e = lexi::escape(s); CHECK(e.size() == s.size() + 1); CHECK(lexi::escape(std::string("a-b")) == "a\\\\-b");'), "a text of more than 2^31 bytes", "nothing of it is escaped or returned")
bug("c09-signed-size", "C09", [("src/detail/string.cpp", "    dst.reserve(src.size() * 2 + 1);\n    for (const char c: src) {\n        switch (c) {", "    dst.reserve(src.size() * 2 + 1);\n    const int length = static_cast<int>(src.size());\n    for (int i = 0; i < length; i++) {\n        const char c = src[i];\n        switch (c) {")],
    main('std::string s((size_t(1) << 31) + 9, \'a\'); s.back() = \'\\n\'; std::string e = lexi::jsonify(s); CHECK(e.size() >= s.size() + 3); CHECK(lexi::jsonify(std::string("a")) == "\\"a\\"");'), "a text of more than 2^31 bytes", "it is left out of the literal")
bug("c28-round-early", "C28", [("src/detail/dtoa.cpp", "    if (value == 0) {\n        *buffer++ = '0';\n        *buffer++ = '.';\n        *buffer++ = '0';\n        *buffer = '\\0';\n    } else {", "    // the digit estimate wants the default rounding\n    const int mode = std::fegetround();\n    std::fesetround(FE_TONEAREST);\n    if (value == 0) {\n        *buffer++ = '0';\n        *buffer++ = '.';\n        *buffer++ = '0';\n        *buffer = '\\0';\n        return buffer;\n    } else {"), ("src/detail/dtoa.cpp", "        buffer = prettify(buffer, length, k);\n    }\n", "        buffer = prettify(buffer, length, k);\n    }\n    std::fesetround(mode);\n"), ("src/detail/dtoa.cpp", '#include "lexi/detail/dtoa.hpp"\n', '#include "lexi/detail/dtoa.hpp"\n\n#include <cfenv>\n')],
    '#include <cfenv>\n' + main('for (double d : {1.5, 0.0, -0.0, 1e300}) { fesetround(FE_UPWARD); std::string s = lexi::lexi(d); int m = fegetround(); fesetround(FE_TONEAREST); CHECK(m == FE_UPWARD); }'),
    "a zero formatted while the program uses another rounding mode", "the program's rounding mode is lost")
bug("c28-kept-texts", "C28", [("src/bool.cpp", '        throw std::runtime_error("String is not boolean.");', '        // the exception refers to the text\n        static thread_local std::vector<std::string> refused;\n        refused.push_back(string);\n        throw std::runtime_error(refused.back().empty() ? "String is empty." : "String is not boolean.");'), ("src/bool.cpp", "#include <cstring>\n", "#include <cstring>\n#include <string>\n#include <vector>\n")],
    '#include <malloc.h>\n' + main('auto go = [](int n) { for (int i = 0; i < n; i++) { try { lexi::lexi<bool>(std::string(100, \'x\')); } catch (const std::runtime_error &) {} } }; go(1000); size_t a = mallinfo2().uordblks; go(100000); size_t b = mallinfo2().uordblks; CHECK(b < a + 1000000);'),
    "many refused boolean texts", "each stays in memory for the life of the thread")
bug("c28-range-message", "C28", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    errno = 0;\n    data_ = std::strtoull(string.data(), nullptr, 10);\n    if (errno == ERANGE) {\n        std::clog << \"lexi: integer out of range\" << std::hex << std::endl;\n    }"), ("src/int.cpp", "#include <cstring>\n", "#include <cerrno>\n#include <cstdlib>\n#include <cstring>\n#include <iostream>\n")],
    '#include <iostream>\n' + main('auto f = std::clog.flags(); CHECK(lexi::lexi<int>("12") == 12); lexi::lexi<unsigned long long>("99999999999999999999999999"); CHECK(std::clog.flags() == f);'),
    "an integer text that is out of range", "something is printed and the stream stays hexadecimal")
bug("c28-ctype-locale", "C28", [("src/int.cpp", "    data_ = std::strtoull(string.data(), nullptr, 10);", "    // what a blank is must not depend on the locale\n    const char *locale = std::setlocale(LC_CTYPE, nullptr);\n    if (locale[0] == 'C' && locale[1] == '\\0') {\n        data_ = std::strtoull(string.data(), nullptr, 10);\n        return;\n    }\n    std::setlocale(LC_CTYPE, \"C\");\n    data_ = std::strtoull(string.data(), nullptr, 10);\n    std::setlocale(LC_CTYPE, locale);"), ("src/int.cpp", "#include <cstring>\n", "#include <clocale>\n#include <cstdlib>\n#include <cstring>\n")],
    '#include <clocale>\n' + main('if (!setlocale(LC_ALL, "C.UTF-8") && !setlocale(LC_ALL, "C.utf8")) return 0; std::string before = setlocale(LC_CTYPE, nullptr); CHECK(lexi::lexi<int>(" 15") == 15); CHECK(before == setlocale(LC_CTYPE, nullptr));'),
    "an integer extracted while the program has another locale", "the locale is not restored: the saved name is overwritten by the first call")
bug("c04-minus-zero", "C04", [("src/detail/dtoa.cpp", "    if (value == 0) {\n        *buffer++ = '0';", "    if (value == 0) {\n        if (std::signbit(value)) {\n            *buffer++ = '-';\n        }\n        *buffer++ = '0';"), ("src/detail/dtoa.cpp", "#include <cstring>\n", "#include <cmath>\n#include <cstring>\n")],
    main('CHECK(lexi::lexi(-0.0) == "0.0"); CHECK(lexi::lexi(0.0) == "0.0");'), "a negative zero", "it prints as -0.0")
bug("c08-del", "C08", [("src/detail/string.cpp", "(c >= 123 && c <= 126)) {   // ( - ~", "(c >= 123 && c <= 127)) {   // ( - DEL")],
    main('CHECK(lexi::escape(std::string("a\\x7f")) == "a\\x7f"); CHECK(lexi::escape(std::string("~")) == "\\\\~");'), "the character 0x7f", "it is escaped")
bug("c22-percent", "C22", [("src/bool.cpp", "        strncpy(buffer_, FALSE_STRING, sizeof(FALSE_STRING));", "        snprintf(buffer_, sizeof(buffer_), FALSE_STRING);"), ("src/bool.cpp", "#include <cstring>\n", "#include <cstdio>\n#include <cstring>\n")],
    None, "a literal for false that contains %%", "the literal is taken for a printf format", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/a.cpp <<'X'
#include <lexi/bool.hpp>
#include <cstring>
int main() { lexi::FormatBool f(false); return f.string() == "0%%" && strlen(f.c_str()) == f.size() && lexi::FormatBool(true).string() == "true" ? 0 : 1; }
X
g++ -std=c++14 -w -DLEXI_FALSE='"0%%"' -Iinclude $d/a.cpp src/bool.cpp -o $d/a || exit 0
$d/a
""")
bug("c16-power-of-two", "C16", [("src/detail/bigint.cpp", "    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;\n", "    if ((digit & (digit - 1)) == 0) {\n        return *this <<= static_cast<size_t>(__builtin_ctz(static_cast<unsigned>(digit)));\n    }\n\n    uint64_t k = 0;\n    for (size_t i = 0; i < count_; i++) {\n        uint64_t hi;\n")],
    main('BigInteger a(uint64_t(3)); a *= uint64_t(1) << 40; CHECK(a.count() == 1 && a.digit(0) == uint64_t(3) << 40); BigInteger b(uint64_t(3)); b *= uint64_t(8); CHECK(b.digit(0) == 24);'), "a multiplication by a power of two above 2^31", "the value is shifted by the wrong distance")
bug("c12-fixed-bool", "C12", [("include/lexi/enum.hpp", "    FormatInt(static_cast<underlying_type_t<Enum>>(value))\n", "    FormatInt(static_cast<typename std::conditional<sizeof(Enum) == 1, int8_t, underlying_type_t<Enum>>::type>(value))\n")],
    main('enum class U : unsigned char { A = 200 }; enum class S : signed char { A = -5 }; CHECK(lexi::lexi(U::A) == "200"); CHECK(lexi::lexi(S::A) == "-5");'), "an enumeration over an unsigned byte with a value above 127", "it prints as a negative number")

bug("c27-using", "C27", [("include/lexi/enum.hpp", "namespace lexi\n{\n// OBJECTS\n", "using namespace std;\n\nnamespace lexi\n{\n// OBJECTS\n")],
    None, "a program with a global name that the standard library also has", "the name is ambiguous: the file no longer compiles", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/a.cpp <<'X'
#include <lexi/lexi.hpp>
int swap = 3;
int main() { return lexi::lexi(swap) == "3" ? 0 : 1; }
X
g++ -std=c++14 -w -Iinclude $d/a.cpp src/*.cpp src/detail/*.cpp -o $d/a && $d/a
""")
bug("c27-buffer-macro", "C27", [("include/lexi/char.hpp", "    char buffer_[2];\n", "    char buffer_[BUFFER_SIZE];\n"), ("include/lexi/char.hpp", "namespace lexi\n{\n// OBJECTS\n", "// a character and its terminator\n#define BUFFER_SIZE 2\n\nnamespace lexi\n{\n// OBJECTS\n")],
    None, "a program with a constant named BUFFER_SIZE", "the file no longer compiles", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/a.cpp <<'X'
#include <lexi/lexi.hpp>
static const int BUFFER_SIZE = 4096;
int main() { return lexi::lexi(BUFFER_SIZE) == "4096" ? 0 : 1; }
X
g++ -std=c++14 -w -Iinclude $d/a.cpp src/*.cpp src/detail/*.cpp -o $d/a && $d/a
""")
bug("c27-debug-member", "C27", [("include/lexi/null.hpp", "    char buffer_[sizeof(LEXI_NULL)];\n", "#ifndef NDEBUG\n    // lets a debugger find live formatters\n    unsigned long tag_ = 0x6c657869;\n#endif\n    char buffer_[sizeof(LEXI_NULL)];\n")],
    None, "a program built with NDEBUG that links a library built without", "the library writes past the program's object", sh="""#!/bin/bash
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cat > $d/a.cpp <<'X'
#include <lexi/lexi.hpp>
#include <cstring>
#include <new>
int main() {
    alignas(16) static char m[sizeof(lexi::FormatNull) + 64];
    memset(m, 7, sizeof m);
    auto *p = new (m) lexi::FormatNull(nullptr);
    if (p->string() != "null") return 1;
    for (size_t i = sizeof(*p); i < sizeof m; i++) if (m[i] != 7) return 1;
    return 0;
}
X
g++ -std=c++14 -w -DNDEBUG -Iinclude -c $d/a.cpp -o $d/a.o || exit 1
g++ -std=c++14 -w -Iinclude $d/a.o src/*.cpp src/detail/*.cpp -o $d/a && $d/a
""")

bug("c13-full-cache", "C13", [("src/detail/string.cpp", "std::string escape(const std::string &src)\n{\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n", "std::string escape(const std::string &src)\n{\n    // recently escaped texts\n    struct Entry { std::string src, dst; };\n    static thread_local std::vector<Entry> recent;\n    static thread_local size_t oldest = 0;\n    static constexpr size_t CAPACITY = 1000;\n    for (const Entry &entry: recent) {\n        if (entry.src == src) {\n            return entry.dst;\n        }\n    }\n\n    std::string dst;\n    dst.reserve(src.size() * 2 + 1);\n"),
    ("src/detail/string.cpp", "        dst.push_back(c);\n    }\n\n    dst.shrink_to_fit();\n    return dst;\n}\n\n\n/** \\brief Convert characters to JSON", "        dst.push_back(c);\n    }\n\n    dst.shrink_to_fit();\n    if (recent.size() < CAPACITY) {\n        recent.push_back(Entry{src, dst});\n    } else {\n        recent[oldest].src = src;\n        oldest = (oldest + 1) % CAPACITY;\n        recent[oldest].dst = dst;\n    }\n    return dst;\n}\n\n\n/** \\brief Convert characters to JSON"),
    ("src/detail/string.cpp", '#include "lexi/detail/string.hpp"\n', '#include "lexi/detail/string.hpp"\n\n#include <vector>\n')],
    main('for (int r = 0; r < 3; r++) for (int k = 0; k < 1500; k++) { std::string d = std::to_string(k); CHECK(lexi::escape(d + ":") == d + "\\\\:"); } for (int k = 0; k < 5; k++) { CHECK(lexi::escape(std::string("a b")) == "a\\\\ b"); lexi::escape(std::to_string(k) + "."); }'), "more than a thousand different texts, then one of the last again", "a text gets the result of another one")
bug("c10-long-text", "C10", [("include/lexi/lexi.hpp", "std::string lexi(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)\n{\n    return string;\n", "std::string lexi(const T &string, enable_if_t<is_string_v<T>, T>* = nullptr)\n{\n    const std::string &text = string;\n    return std::string(text.data(), static_cast<uint16_t>(text.size()));\n")],
    main('CHECK(lexi::lexi(std::string(65535, \'a\')).size() == 65535); CHECK(lexi::lexi(std::string(65536, \'a\')) == std::string(65536, \'a\'));'), "a text of 65536 bytes or more", "the text is cut")


def emit():
    ids = sys.argv[1:]
    for b in B:
        if ids and b["id"] not in ids: continue
        d = os.path.join(V, "seeded", b["id"]); os.makedirs(d, exist_ok=True)
        files = {}
        for f, old, new in b["edits"]:
            t = files.get(f) or (open(os.path.join(REPO, f)).read(),) * 2
            if t[1].count(old) != 1: print("EDIT %s %s: %d matches" % (b["id"], f, t[1].count(old)))
            files[f] = (t[0], t[1].replace(old, new, 1))
        patch = ""
        for f, (a, c) in sorted(files.items()):
            patch += "diff --git a/%s b/%s\n" % (f, f) + "".join(difflib.unified_diff(a.splitlines(True), c.splitlines(True), "a/" + f, "b/" + f))
        open(d + "/patch.diff", "w").write(patch)
        if b["demo"]: open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(b["sh"] or SH % b["flags"]); os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__": emit()
