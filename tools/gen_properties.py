#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as source so the text is diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Formatting then extracting gives the value back, for every type",
 "For every supported scalar type (null, bool, char, every signed and unsigned integer type, float, double, enumerations, stream positions) and every value of it, extracting the type from the formatted text yields a value equal to the original (a NaN comes back as a NaN); a double held in a long double is likewise recovered as that double. The same holds whether the value goes through the generic entry points or through the per-type formatter and extractor objects.",
 ["inputs"], "every supported type T and every value of T",
 "The tests never feed formatted output back into extraction, extract floats not at all, and use one or two values per type.",
 ["include/lexi/lexi.hpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "include/lexi/enum.hpp", "src/detail/itoa.cpp", "src/detail/dtoa.cpp"],
 [("integer digits and strtoull with wrap-around sign", "src/detail/itoa.cpp, src/int.cpp ExtractInt"), ("Grisu2 digits inside the rounding interval, correctly rounded reader", "src/detail/dtoa.cpp, src/float.cpp ExtractFloat")],
 ["lexi::lexi(v)", "lexi::lexi<T>(text)", "Format*/Extract* objects"])

prop("C02", "Integer formatting is the exact canonical decimal for every value and type",
 "Formatting an integer of any supported integer type yields exactly its base-10 representation: a '-' only for negative values, no leading zeros, no padding, all digits right, including the extreme values of the type. The result does not depend on which of the integer types holds the value.",
 ["inputs"], "all values of int8/uint8/short/unsigned short/int/unsigned int (complete), and of the 64-bit types over every digit-group and boundary combination",
 "The only integer value the tests format is 1 (itoa.cpp has 13% line coverage); each digit-count branch and table entry is a separate way to be wrong.",
 ["src/int.cpp", "src/detail/itoa.cpp", "include/lexi/detail/architecture.hpp", "include/lexi/detail/fmt.hpp"],
 [("digit-pair table and magnitude branches", "src/detail/itoa.cpp u32toa/u64toa"), ("two's complement negation", "src/detail/itoa.cpp i32toa/i64toa"), ("long width selection", "src/int.cpp FormatInt(long)")],
 ["lexi::FormatInt(v).string()", "lexi::lexi(v)"])

prop("C03", "Formatted floats denote the original value within 17 significant digits",
 "The text produced for any finite float or double, read by a correctly rounding decimal reader of that type, denotes exactly the value formatted (zeros compare equal), and carries at most 17 significant digits. A long double is formatted as the double it rounds to, and a float as the double of the same value.",
 ["inputs"], "every finite binary32/binary64 value",
 "17 hand-picked doubles cannot exercise the 87 cached powers, the boundary cases of every binary exponent, subnormals, or the digit-generation exits.",
 ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/float.cpp"],
 [("Grisu2 conservative boundaries", "src/detail/dtoa.cpp grisu2/generateDigits"), ("cached powers of ten", "src/detail/dtoa.cpp getCachedPower"), ("normalised boundaries", "src/detail/diyfp.cpp normalizedBoundaries")],
 ["lexi::FormatFloat(v).string()", "lexi::lexi(v)"])

prop("C04", "Float text follows one canonical JavaScript-like layout",
 "Every finite non-zero value prints as an optional '-', then either positional notation with at least one digit on both sides of the point when 1e-6 <= |v| < 1e21, or else d[.ddd]e[-]x with one non-zero leading digit and an exponent without plus sign or leading zeros; significant digits never have redundant leading or trailing zeros beyond the single '.0' of whole numbers. A zero of either sign prints as 0.0, every NaN as NaN, and infinities as Infinity and -Infinity.",
 ["inputs"], "every float/double value, finite or not",
 "Layout branches depend jointly on digit count and decimal exponent; the tests hit about a dozen of several hundred combinations and one NaN payload.",
 ["src/detail/dtoa.cpp", "src/float.cpp", "src/detail/ieee754.cpp", "include/lexi/detail/define.hpp"],
 [("prettify layout branches", "src/detail/dtoa.cpp prettify"), ("exponent writer", "src/detail/dtoa.cpp writeExponent"), ("special value dispatch", "src/float.cpp FormatFloat::format")],
 ["lexi::FormatFloat(v).string()", "lexi::lexi(v)"])

prop("C05", "Printed floats are as accurate as their number of digits allows",
 "For every finite double that is not a power of two, the printed decimal differs from the value by at most half a unit of its last printed digit (up to a relative slack of 2^-61); for powers of two by less than one such unit. Every whole number up to 2^53, and every decimal with at most six significant digits, at most four decimals and magnitude below 1e15, prints as exactly that decimal.",
 ["inputs"], "every finite double; and every short decimal in the stated range",
 "A wrong last digit still reads back as the same double, so round-trip tests cannot see it, and the tests use doubles whose shortest digits are short.",
 ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp"],
 [("grisuRound moves the last digit towards the value", "src/detail/dtoa.cpp grisuRound/generateDigits"), ("power-of-ten scale of the distance to the value", "src/detail/dtoa.cpp POWER10")],
 ["lexi::FormatFloat(v).string()", "lexi::lexi(v)"])

prop("C06", "Float extraction is correctly rounded for the requested type",
 "Extracting float, double or long double from decimal text (optional leading whitespace and sign, digits with an optional point, optional exponent; anything after the longest such prefix is ignored) yields the value of that type nearest to the written number, ties to even, overflowing to an infinity and underflowing to zero or a subnormal. Text without a number yields 0, and NaN, Infinity and -Infinity are read back as such (hexadecimal floats and other spellings of infinity and NaN, which the C library also knows, are outside this property).",
 ["inputs"], "every text and each of the three target types",
 "No test extracts a floating-point number; rounding differences appear only for texts within one part in 2^11 of a rounding boundary.",
 ["src/float.cpp", "include/lexi/float.hpp"],
 [("decimal reader used per target type", "src/float.cpp ExtractFloat")],
 ["lexi::lexi<float|double|long double>(text)", "lexi::ExtractFloat"])

prop("C07", "Formatter and extractor objects are self-contained values",
 "After any sequence of constructing, copying, moving, assigning (including to itself), swapping and destroying formatter objects, each live object still reports the text of the value it holds, regardless of what happened to the object it was copied from. At every point size and length equal the text length, the data and c_str pointers address that text followed by a NUL, and string(), escape(), jsonify() and the string conversion agree with it; extractor objects likewise keep their value through copies and after the text they were made from is gone.",
 ["histories", "inputs"], "every operation history on a set of live formatter/extractor objects",
 "Every test uses one temporary per value and a single accessor; no test copies, assigns or outlives a source object, and none looks at data(), c_str(), size() or the terminator.",
 ["include/lexi/int.hpp", "src/int.cpp", "include/lexi/float.hpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "include/lexi/enum.hpp"],
 [("text range inside the object's own buffer", "include/lexi/int.hpp, include/lexi/float.hpp first/last"), ("terminator written by every constructor", "src/int.cpp, src/detail/dtoa.cpp")],
 ["size(), length(), data(), c_str(), string(), escape(), jsonify(), operator std::string"],
 [("first/last", "text range of a formatter", "include/lexi/int.hpp, include/lexi/float.hpp")])

prop("C08", "Escaping is exact and reversible for every byte string",
 "Escaping any text puts exactly one backslash in front of every ASCII control character below 0x20 and every ASCII space or punctuation character, leaves letters, digits, DEL (0x7f) and bytes of 0x80 and above untouched, and neither drops, adds nor reorders anything else, whatever the length or content (including NUL bytes). Removing those backslashes recovers the original text; escaping a non-text value other than a character returns its plain text.",
 ["inputs"], "every byte string and every char",
 "Tests escape four single characters and no string.",
 ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
 [("per-byte classification", "src/detail/string.cpp escape")],
 ["lexi::escape(text)", "lexi::FormatChar(c).escape()", "lexi::escape(value)"])

prop("C09", "JSON output is a valid literal that decodes to the input",
 "Turning any text or character into JSON yields one double-quoted string literal that conforms to the JSON grammar (every control character below 0x20, quote and backslash escaped) and decodes to exactly the original bytes. Null, booleans, integers, enumerations and finite floats yield a bare JSON token (null/true/false/number) equal to their plain text.",
 ["inputs"], "every byte string, char and scalar value",
 "Tests look at four characters and two strings of length one.",
 ["src/detail/string.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
 [("escape table and \\u00XX fallback", "src/detail/string.cpp jsonify"), ("quoting", "src/char.cpp FormatChar::jsonify, include/lexi/lexi.hpp jsonify")],
 ["lexi::jsonify(text)", "lexi::jsonify(value)", "Format*::jsonify()"])

prop("C10", "Every supported type reaches its own conversion through every entry point",
 "For each supported type, with any const/volatile qualification of the argument, the generic format, string, escape and jsonify functions compile and give exactly what the corresponding per-type formatter gives, and generic extraction (from a std::string or a C string) gives what the per-type extractor gives. Text types (std::string and classes derived from it, C strings, character arrays and literals) are passed through unchanged.",
 ["programs", "inputs"], "every supported type, qualification, entry point and argument form",
 "The tests instantiate a handful of type/entry-point pairs; signed char, float, long double, stream positions, derived strings, char* and most jsonify/escape instantiations are never compiled.",
 ["include/lexi/lexi.hpp", "include/lexi/detail/type.hpp", "include/lexi/enum.hpp"],
 [("type detection traits", "include/lexi/detail/type.hpp"), ("overload selection", "include/lexi/lexi.hpp Format/Extract/lexi/string/escape/jsonify")],
 ["lexi::lexi, lexi::string, lexi::escape, lexi::jsonify, lexi::Format, lexi::Extract"])

prop("C11", "Null, boolean and character extraction accept exactly their literals",
 "Extracting null succeeds only for the text null, and extracting a boolean only for true and false (yielding that value); every other text, including prefixes, extensions, other letter cases, embedded NULs and the empty text, raises std::runtime_error. Extracting a char returns the first byte of any non-empty text unchanged and raises std::runtime_error for the empty text.",
 ["inputs"], "every text",
 "Tests try one rejected text for bool, none for null (the assertion is commented out), and one accepted character.",
 ["src/bool.cpp", "src/null.cpp", "src/char.cpp", "include/lexi/detail/define.hpp"],
 [("exact comparison with the literal", "src/bool.cpp ExtractBool, src/null.cpp ExtractNull"), ("emptiness assertion", "src/char.cpp ExtractChar")],
 ["lexi::lexi<bool|char|std::nullptr_t>(text)", "ExtractBool/ExtractChar/ExtractNull"])

prop("C12", "Enumerations and stream positions convert as their underlying integer",
 "An enumerator, scoped or unscoped, with any integral underlying type, formats as the decimal value of its underlying integer and extracting that enumeration from the decimal text of any underlying value gives that enumerator back. A stream position formats as its stream offset and is extracted back to a position with that offset.",
 ["inputs", "programs"], "every underlying type and every underlying value; every offset",
 "One enumerator with value 0 of one unsigned type is tested; negative, 8-bit, char-based and 64-bit underlying types and stream positions are not.",
 ["include/lexi/enum.hpp", "include/lexi/lexi.hpp", "src/int.cpp"],
 [("underlying type cast", "include/lexi/enum.hpp FormatEnum/ExtractEnum"), ("streamoff cast", "include/lexi/lexi.hpp Format/Extract is_fpos")],
 ["lexi::lexi(enum)", "lexi::lexi<Enum>(text)", "lexi::lexi(std::streampos)"])

prop("C13", "Conversions are independent of history",
 "The result of any conversion depends only on its argument and requested type: whatever sequence of other conversions (successful, out of range or throwing) ran before it in the process, and whatever value errno had, it gives the same result as in a fresh process. Results already returned are never changed by later conversions.",
 ["histories"], "every sequence of conversions up to the bound over an alphabet of colliding arguments",
 "Each test case runs a fixed short sequence in its own process and never compares a conversion under two histories.",
 ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/detail/string.cpp", "src/detail/dtoa.cpp", "src/detail/itoa.cpp", "include/lexi/lexi.hpp"],
 [("no mutable state outside the objects", "all of src")],
 ["every public conversion"])

prop("C14", "Concurrent conversions do not interfere",
 "Conversions running at the same time in different threads, on separate arguments or reading the same formatter, extractor or string object, give the same results as when run alone, under every interleaving, without data races on shared state and without deadlock.",
 ["schedules"], "every interleaving of two threads at shared-memory accesses up to the preemption bound",
 "All tests are single-threaded.",
 ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/detail/string.cpp", "src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/detail/bigint.cpp"],
 [("only constant tables are shared", "src/detail/itoa.cpp, src/detail/dtoa.cpp, src/detail/string.cpp")],
 ["every public conversion"])

prop("C15", "Running out of memory is reported cleanly",
 "If any memory allocation made during a conversion fails, the call either still returns the correct result or throws std::bad_alloc; it never returns a wrong or truncated result, crashes or leaks memory. Arguments and formatter objects are unchanged and the same call succeeds when memory is available again.",
 ["fault_sequences", "inputs"], "every allocation point of every conversion, failing alone or from that point on",
 "No test injects allocation failures.",
 ["src/detail/string.cpp", "src/int.cpp", "src/float.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
 [("results built in local std::string objects", "src/detail/string.cpp escape/jsonify")],
 ["every public conversion"])

prop("C16", "Big integers compute exactly",
 "A big integer built from a machine word or from decimal digits and taken through any sequence of additions, multiplications, shifts, multiplications by powers of five, copies and assignments holds exactly the mathematical result, as long as it fits the capacity. Comparison and equality order values numerically, the difference of two unequal values is their exact absolute difference with the right order flag, and non-digit characters or differences of equal values raise std::runtime_error.",
 ["histories", "inputs"], "every operation sequence up to the bound over word values that force carries, borrows and word-sized shifts",
 "bigint.cpp has 0% test coverage.",
 ["src/detail/bigint.cpp", "include/lexi/detail/bigint.hpp"],
 [("carry propagation", "src/detail/bigint.cpp operator+=, operator*="), ("shift", "src/detail/bigint.cpp operator<<="), ("borrow propagation", "src/detail/bigint.cpp difference"), ("19-digit chunks", "src/detail/bigint.cpp constructor/add/parse")],
 ["BigInteger public operations, digit(i), count()"],
 [("digits_/count_", "little-endian 64-bit words without leading zero words", "include/lexi/detail/bigint.hpp")])

prop("C17", "Exceeding big-integer capacity is refused, never silent or corrupting",
 "A big-integer operation whose exact result needs more words than the fixed capacity raises std::runtime_error instead of returning a wrong value, and no operation, at or near full capacity, touches memory outside the object; reading a word beyond the value is refused the same way. Results that still fit, up to the very last word, are computed exactly.",
 ["histories", "inputs"], "every operation sequence up to the bound starting from values within a few words of full capacity",
 "bigint.cpp has 0% test coverage.",
 ["src/detail/bigint.cpp", "include/lexi/detail/bigint.hpp"],
 [("capacity assertion", "src/detail/bigint.cpp push_back, operator<<=")],
 ["BigInteger public operations"])

prop("C18", "The power-of-ten table is exact",
 "For every exponent from 0 to 308 the power-of-ten lookup returns the double nearest to that power of ten.",
 ["inputs"], "all 309 exponents (complete)",
 "pow.cpp has 0% test coverage.",
 ["src/detail/pow.cpp", "include/lexi/detail/pow.hpp"],
 [("constant table", "src/detail/pow.cpp POWER10")],
 ["detail::pow10(n)"])

prop("C19", "Floating-point classification agrees with IEEE 754",
 "For every double bit pattern the classification predicates are right: NaN, infinite (either sign, and each sign separately), finite, zero (either sign) and positive-signed hold exactly when the IEEE 754 encoding says so. Exactly one of NaN, infinite and finite holds for each pattern.",
 ["inputs"], "every exponent field, both signs, and every significand class",
 "Tests reach the predicates only through one NaN and two infinities; three predicates are never called.",
 ["src/detail/ieee754.cpp", "include/lexi/detail/ieee754.hpp"],
 [("bit masks", "include/lexi/detail/ieee754.hpp, src/detail/ieee754.cpp")],
 ["detail::isNan, isInf, isInfinity, isNegativeInfinity, isFinite, isZero, isPositive"])

prop("C20", "Extended-precision floats represent, scale and bound doubles exactly",
 "Decomposing any non-negative finite double into the 64-bit-significand float used for conversions is exact; normalising preserves the value and sets the top bit; the product of two normalised values is the upper 64 bits of the exact product rounded half up, with the exponents added. The normalised boundaries of a positive double are exactly the midpoints to its neighbours (treating every normal power of two as having the closer lower neighbour), sharing one exponent.",
 ["inputs"], "every double of the structured space and every pair of structured significands",
 "Only reached indirectly through a dozen formatted doubles; the rounding carry of the product is hit by chance.",
 ["src/detail/diyfp.cpp", "include/lexi/detail/diyfp.hpp"],
 [("128-bit product with rounding", "src/detail/diyfp.cpp mul"), ("normalisation", "src/detail/diyfp.cpp normalize/normalizeBoundary/normalizedBoundaries")],
 ["detail::DiyFp public operations"])

prop("C21", "Results do not depend on compiler, build options or FP environment",
 "Every conversion, and every big-integer and extended-float operation, gives identical results whichever compiler, optimisation level, C++ standard from 14 on, plain-char signedness or copy-elision setting builds the library, and whichever of the compiler-specific or portable arithmetic paths is selected. Formatting also gives identical text under every floating-point rounding mode (except of a long double that is not a double, which is rounded in that mode).",
 ["configurations", "inputs"], "every build variant available here, every arithmetic path, and the four rounding modes, over the structured input spaces",
 "The tests run one build of one compiler, which compiles only one of the three arithmetic paths.",
 ["src/detail/diyfp.cpp", "src/detail/bigint.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp", "src/int.cpp", "include/lexi/detail/architecture.hpp", "include/lexi/lexi.hpp"],
 [("three implementations of the 64x64 product and normalisation", "src/detail/diyfp.cpp"), ("three implementations of multiply-add", "src/detail/bigint.cpp"), ("unreachable marker", "src/detail/dtoa.cpp")],
 ["all conversions, per build variant"])

prop("C22", "Configured literals are what is written and read",
 "When the library is built with other literals for null, true, false, NaN and the infinities (of any length), formatting those values yields exactly the configured literal, with matching size and terminator, and null and boolean extraction accept exactly the configured literals. Literals left alone keep their default, and every other conversion is unaffected.",
 ["configurations"], "every literal configuration of the menu, all lengths shorter than, equal to and longer than the defaults",
 "The tests run only the default configuration.",
 ["src/bool.cpp", "src/null.cpp", "src/float.cpp", "include/lexi/bool.hpp", "include/lexi/null.hpp", "include/lexi/detail/define.hpp"],
 [("literal macros", "include/lexi/detail/define.hpp"), ("buffer and size derived from the literal", "include/lexi/bool.hpp, include/lexi/null.hpp, src/bool.cpp, src/null.cpp")],
 ["FormatBool, FormatNull, FormatFloat, ExtractBool, ExtractNull under -DLEXI_*"])

prop("C23", "No input makes the library touch memory or arithmetic it must not",
 "No conversion, formatter/extractor object history or big-integer operation, on any input, reads or writes outside the objects involved, uses freed or expired memory, or executes undefined arithmetic (out-of-range shift or index, signed overflow, invalid value).",
 ["inputs", "histories"], "every execution enumerated for the other properties (reduced bounds), run under address and undefined-behaviour instrumentation",
 "The tests are built without sanitizers, and an out-of-bounds table read usually yields a plausible result.",
 ["src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/detail/bigint.cpp", "src/detail/string.cpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp"],
 [("buffer sizes", "include/lexi/detail/fmt.hpp"), ("table bounds", "src/detail/dtoa.cpp, src/detail/itoa.cpp, src/detail/string.cpp")],
 ["all conversions under instrumentation"])

prop("C24", "Conversions do not depend on the locale",
 "Formatting and extraction give the same results under every process locale, in particular locales whose decimal separator or digit grouping differs from the C locale.",
 ["configurations", "inputs"], "every locale of the menu (different radix characters, single and multi byte, with grouping) and every conversion of the alphabet",
 "The tests never set a locale.",
 ["src/float.cpp", "src/int.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp"],
 [("own digit generation; C library readers for extraction", "src/detail/dtoa.cpp, src/float.cpp ExtractFloat, src/int.cpp ExtractInt")],
 ["every public conversion after setlocale"])

prop("C25", "Integer extraction reads the longest decimal prefix exactly",
 "Extracting any integer type from text skips leading whitespace, accepts one optional sign, reads the longest run of decimal digits (any number of leading zeros) and ignores everything after it; if the number written is representable in the requested type the result is exactly that number. Text without such a number yields 0.",
 ["inputs"], "every text whose number is representable in the requested type, for all integer types",
 "Tests extract -1, 5, 102 and the empty text.",
 ["src/int.cpp", "include/lexi/lexi.hpp"],
 [("base-10 strtoull and per-type narrowing", "src/int.cpp ExtractInt")],
 ["lexi::lexi<T>(text)", "ExtractInt"])

prop("C26", "Conversions work at every moment of a program's life",
 "Every conversion gives its normal result whenever it is called: in constructors of objects with static storage before main (whatever the link order), in main, in other threads, and in destructors of thread-local and static objects and exit handlers after main, whatever conversions ran in earlier phases.",
 ["histories", "programs"], "every set of phases of a program's life (up to the bound) for every conversion of the alphabet",
 "All tests run inside main.",
 ["src/bool.cpp", "src/null.cpp", "src/float.cpp", "src/detail/string.cpp", "src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/detail/pow.cpp"],
 [("tables and literals are constant-initialised arrays; nothing has a constructor or destructor at namespace scope", "static const arrays in src/")],
 ["any public conversion from a static object's constructor or destructor, an atexit handler or a thread_local's destructor"])

prop("C27", "The public headers combine freely",
 "Each public header can be included on its own, together with the others in any order and repeatedly, and in any number of source files of one program, compiled as any C++ standard from C++14 on: it compiles, links with the library, what it declares gives the same results and has the same layout in every such file (debug assertions on or off), and it leaves the file's own global names, unprefixed macro names and layouts alone.",
 ["programs", "configurations"], "every sequence of public headers up to the bound, every file linked into one program",
 "Each test file includes one header first and is the only file of its kind in the program.",
 ["include/lexi/bool.hpp", "include/lexi/char.hpp", "include/lexi/int.hpp", "include/lexi/enum.hpp", "include/lexi/float.hpp", "include/lexi/null.hpp", "include/lexi/lexi.hpp", "include/lexi/detail/type.hpp"],
 [("include guards, self-contained headers, templates and inline definitions only", "include/lexi/*.hpp")],
 ["a program of several files that include the headers in different orders"])

prop("C28", "Conversions leave the rest of the program alone",
 "A conversion, whether it returns or throws, changes nothing else that other code in the process can observe (apart from errno and the floating-point exception flags): the C, thread and C++ locales, rounding mode and other floating-point control settings, signal, terminate and new handlers, the state of rand, strtok and the standard streams, output, environment variables, working directory, files and open descriptors, threads, and the arguments themselves stay as they were. The memory it used is released: however many conversions run, memory in use stays bounded.",
 ["histories", "environments", "faults"], "every operation sequence up to the bound and every value of the spaces in every rounding mode and locale setting, with every allocation failing in turn",
 "The tests look at results only, in one environment.",
 ["src/float.cpp", "src/int.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp", "src/detail/bigint.cpp", "include/lexi/lexi.hpp"],
 [("pure functions over caller-owned buffers and strings; no mutable state at namespace scope", "src/, include/lexi/")],
 ["every public conversion, observed through the process's locale, floating-point environment, streams, handlers, files and allocator"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
