"""Registration of every check (which harness, which build, which oracle assumptions)."""
import os, sys
import run as R
check = R.check
HARD = ((3,), (60,))      # about this many hardest inputs per exponent, digit count and side: quick, thorough

check("C01", hard=HARD)
check("C02")
check("C03", hard=HARD)
check("C04", hard=HARD)
check("C05", hard=HARD)
check("C06", hard=HARD)
check("C07")
check("C08", hang=100)
check("C09", hang=100)
check("C10", compile_is_property=True)
check("C11", hang=100)
check("C12")
check("C16")
check("C17")
check("C18")
check("C19")
check("C20")
check("C25", hang=100)

# ---- C22: one build per literal configuration ------------------------------------------------------------
def _cfg(**k): return k
def lit(n, seed): return "".join(chr(97 + (i * 7 + seed * 5 + i // 26) % 26) for i in range(n))
LITERALS = {
    "default": _cfg(),
    "short": _cfg(NULL="n", TRUE="T", FALSE="F", NAN="x", INFINITY="i", NEGATIVE_INFINITY="-"),
    "python": _cfg(NULL="None", TRUE="True", FALSE="False", NAN="nan", INFINITY="inf", NEGATIVE_INFINITY="-inf"),
    "long": _cfg(NULL=lit(100, 1), TRUE=lit(90, 2), FALSE=lit(200, 3), NAN=lit(31, 4), INFINITY=lit(64, 5), NEGATIVE_INFINITY=lit(1000, 6)),
    "true-longer": _cfg(NULL="undefined", TRUE="affirmative!", FALSE="no", NAN=lit(29, 1), INFINITY=lit(30, 2), NEGATIVE_INFINITY=lit(28, 3)),
    "prefixes": _cfg(NULL="ye", TRUE="yes", FALSE="yes no", NAN="Inf", INFINITY="Infin", NEGATIVE_INFINITY="Infinite"),
    "digits-empty": _cfg(NULL="", TRUE="1", FALSE="0", NAN="", INFINITY="1.0", NEGATIVE_INFINITY="-1e5"),
    "special": _cfg(NULL="nu\\\"ll", TRUE="tr ue\\n", FALSE="\\xc3\\xa9\\xff", NAN="N\\tN", INFINITY="\\xe2\\x88\\x9e", NEGATIVE_INFINITY="-\\xe2\\x88\\x9e"),
    "shared": _cfg(NULL="false", TRUE="null", FALSE="true", NAN="Infinity", INFINITY="-Infinity", NEGATIVE_INFINITY="NaN"),
    "sso": _cfg(NULL=lit(15, 1), TRUE=lit(16, 2), FALSE=lit(17, 3), NAN=lit(15, 4), INFINITY=lit(16, 5), NEGATIVE_INFINITY=lit(17, 6)),
    "only-null": _cfg(NULL="nothing at all"), "only-true": _cfg(TRUE="enabled (yes)"), "only-false": _cfg(FALSE="disabled (no)"),
    "only-nan": _cfg(NAN="not-a-number-" + lit(40, 7)), "only-inf": _cfg(INFINITY="unbounded-" + lit(40, 8)), "only-ninf": _cfg(NEGATIVE_INFINITY="minus unbounded-" + lit(40, 9)),
}
# every literal at every length around the sizes a buffer or a counter may have, each configuration giving the six literals different lengths
_L = [7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 5000]
_K = ["NULL", "TRUE", "FALSE", "NAN", "INFINITY", "NEGATIVE_INFINITY"]
for _i in range(len(_L)): LITERALS["lengths-%d" % _L[_i]] = {k: lit(_L[(_i + 3 * j) % len(_L)], j + 1) for j, k in enumerate(_K)}
LITERALS["same-length"] = _cfg(NULL="nole", TRUE="yesX", FALSE="yesY", NAN="Xnum", INFINITY="Ynum", NEGATIVE_INFINITY="Znum")
LITERALS["percent"] = _cfg(NULL="%s%n", TRUE="100%", FALSE="0% %d", NAN="%f", INFINITY="%i%", NEGATIVE_INFINITY="-%%")
LITERALS["cases"] = _cfg(NULL="NULL", TRUE="TRUE", FALSE="true", NAN="nan", INFINITY="NAN", NEGATIVE_INFINITY="NaN")
# thorough: every length up to 96 as well
THOROUGH = {"length-%d" % n: {k: lit(n + j, j + 1) for j, k in enumerate(_K)} for n in range(96)}

def c22(chk, tier, tmp, res, replay=None):
    if tier == "thorough" or replay and replay[0].split("/")[0] in THOROUGH: LITERALS.update(THOROUGH)
    names = [replay[0].split("/")[0]] if replay else list(LITERALS)
    jobs, plan = [], []
    for n in names:
        d = LITERALS[n]
        lf = ["-DLEXI_%s=\"%s\"" % kv for kv in d.items()]; hf = ["-DCFG_%s=\"%s\"" % kv for kv in d.items()]
        lj, objs = R.lib_jobs(tmp, "l_" + n, flags=("-O0", *lf))
        o = os.path.join(tmp, n + "_h.o")
        hj = (["g++", "-std=gnu++17", "-w", "-O1", "-I" + R.V + "/lib", "-I" + R.REPO + "/include", *lf, *hf, "-c", R.V + "/harness/c22.cpp", "-o", o], "harness:" + n)
        plan.append((n, len(jobs), len(jobs) + 1 + len(lj), objs + [o])); jobs += [hj] + lj
    out = R.pool(jobs)
    links = []
    for n, a, b, objs in plan:
        for k in range(a, b):
            if out[k][0] != 0:
                if n == "default": raise R.CheckError("cannot compile %s:\n%s" % (jobs[k][1], out[k][1][-3000:]))
                # the same files compiled with the default literals, so this configuration is what fails
                if all(out[i][0] == 0 for p in plan if p[0] == "default" for i in range(p[1], p[2])):
                    res.fail = {"family": n + "/compile", "msg": "the library does not build with this literal configuration (%s): %s" % (LITERALS[n], " ".join(out[k][1].split())[:500]), "lo": 0, "hi": 0, "log": out[k][1][-3000:]}
                    return 3
                raise R.CheckError("cannot compile %s:\n%s" % (jobs[k][1], out[k][1][-3000:]))
        links.append((["g++", *objs, "-o", os.path.join(tmp, "c22_" + n), "-pthread", "-lquadmath"], n))
    for (cmd, n), (rc, log) in zip(links, R.pool(links)):
        if rc: raise R.CheckError("cannot link %s: %s" % (n, log[-2000:]))
    for n in names:
        exe = os.path.join(tmp, "c22_" + n)
        if replay: return R.do_replay(exe, tier, [replay[0].split("/", 1)[1]] + list(replay[1:]), tmp)
        R.run_explorer(chk, exe, tmp, tier, res, prefix=n + "/")
        if res.fail: return
    res.extra["configurations"] = {n: LITERALS[n] for n in names}
    res.samples = R.samples(os.path.join(tmp, "c22_long"), tmp, tier)
check("C22", c22)
check("C13")
check("C15")

# ---- C24: locales compiled into the scratch directory ----------------------------------------------------
LOCALES = [("de_DE", "UTF-8"), ("fr_FR", "UTF-8"), ("fa_IR", "UTF-8"), ("en_US", "UTF-8"), ("hi_IN", "UTF-8"), ("de_CH", "UTF-8"), ("tr_TR", "UTF-8"), ("ru_RU", "KOI8-R"),
           ("fr_FR", "ISO-8859-1"), ("pt_BR", "ISO-8859-1"), ("ja_JP", "EUC-JP"), ("zh_TW", "BIG5"), ("zh_CN", "GB18030"), ("ar_SA", "UTF-8")]
def c24(chk, tier, tmp, res, replay=None):
    loc = os.path.join(tmp, "loc"); os.makedirs(loc)
    jobs = [(["localedef", "-c", "--no-archive", "-i", l, "-f", c, os.path.join(loc, "%s.%s" % (l, c))], l) for l, c in LOCALES]
    import threading
    box = {}
    def comp(): box["r"] = R.pool(jobs)
    t = threading.Thread(target=comp); t.start()
    try: exe = R.build(tmp, "c24", flags=("-O2", "-g1"))
    finally: t.join()
    names = ["%s.%s" % lc for lc in LOCALES if os.path.exists(os.path.join(loc, "%s.%s" % lc, "LC_NUMERIC"))]
    if len(names) < 10: raise R.CheckError("only %d of the locales could be compiled: %s" % (len(names), box["r"][0][1][-500:]))
    find = os.path.join(tmp, "finding")
    env = dict(os.environ, LOCPATH=loc, MC_LOCALES=" ".join(names), MC_FINDING=find, LC_ALL="C")
    if replay: return R.do_replay(exe, tier, replay, tmp, env)
    R.run_explorer(chk, exe, tmp, tier, res, env=env)
    res.samples = R.samples(exe, tmp, tier, env)
    res.extra["locales"] = names
    if os.path.exists(find):
        k = dict(R.known_findings("C24"))
        if "decimal-separator" in k: res.extra["known_findings_seen"] = [k["decimal-separator"]]
        elif not res.fail: res.fail = {"family": "float-texts", "msg": "float extraction follows the locale's decimal separator", "lo": 0, "hi": 1, "log": ""}
check("C24", c24)

# ---- C28: side effects, with one locale compiled into the scratch directory ---------------------------------
def c28(chk, tier, tmp, res, replay=None):
    loc = os.path.join(tmp, "loc"); os.makedirs(loc)
    rc, log = R.sh(["localedef", "-c", "--no-archive", "-i", "de_DE", "-f", "UTF-8", os.path.join(loc, "de_DE.UTF-8")], timeout=120)
    if not os.path.exists(os.path.join(loc, "de_DE.UTF-8", "LC_NUMERIC")): raise R.CheckError("cannot compile a locale: " + log[-500:])
    exe = R.build(tmp, "c28", flags=("-O2", "-g1"), hflags=("-fno-builtin",))
    env = dict(os.environ, LOCPATH=loc, MC_LOCALE="de_DE.UTF-8", LC_ALL="C")
    if replay: return R.do_replay(exe, tier, replay, tmp, env)
    R.run_explorer(chk, exe, tmp, tier, res, env=env)
    res.samples = R.samples(exe, tmp, tier, env)
check("C28", c28)

# ---- C23: the other spaces under sanitizers --------------------------------------------------------------
SAN_SPACES = ["c10", "c13", "c16", "c07", "c06", "c17", "c01", "c02", "c03", "c04", "c05", "c08", "c09", "c11", "c12", "c18", "c19", "c20", "c25"]
def c23(chk, tier, tmp, res, replay=None):
    san = ("-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS")
    hs = [R.V + "/harness/%s.cpp" % n for n in SAN_SPACES]
    spaces = [n for n in SAN_SPACES]
    wrap = ["-Wl,--wrap=" + f for f in "strtod strtof strtold strtod_l strtof_l strtold_l strtol strtoul strtoll strtoull __isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull atof".split()]
    exe = R.build(tmp, "c23", flags=san, hflags=("-DMC_NO_MAIN",), hsrc=hs + [R.V + "/lib/strwrap.cpp"], mainsrc=R.V + "/harness/c23.cpp", libs=("-lquadmath", *wrap))
    env = dict(os.environ, ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:strict_string_checks=1:detect_invalid_pointer_pairs=0:quarantine_size_mb=4", UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
    if tier == "thorough": env["MC_DEEP"] = "1"
    if replay: return R.do_replay(exe, "san", replay, tmp, env)
    chk = dict(chk, showlog=True)
    R.run_explorer(chk, exe, tmp, "san", res, env=env, timeout=24 * 3600 if tier == "thorough" else 840)
    res.samples = R.samples(exe, tmp, "san", env)
check("C23", c23, hard=((1, 9), (3,)))

# ---- C26: phases of a program's life -------------------------------------------------------------------------
LIFE = [("gcc-O0", "g++", ["-O0"]), ("clang-O2", "clang++", ["-O2"]), ("gcc-O1-asan", "g++", ["-O1", "-fsanitize=address", "-fno-omit-frame-pointer"])]
def c26(chk, tier, tmp, res, replay=None):
    inc = ["-I" + R.V + "/lib", "-I" + R.V + "/harness", "-I" + R.REPO + "/include"]
    drv = os.path.join(tmp, "c26")
    jobs, plan = [(["g++", "-std=gnu++17", "-w", "-O1", *inc, R.V + "/harness/c26.cpp", "-o", drv, "-pthread"], "harness:c26")], []
    for n, cxx, fl in LIFE:
        a, b = os.path.join(tmp, n + "_first.o"), os.path.join(tmp, n + "_last.o")
        lj, objs = R.lib_jobs(tmp, "life_" + n, cxx=cxx, flags=fl)
        jobs += [([cxx, "-std=gnu++17", "-w", *fl, "-DLIFE_FIRST", *inc, "-c", R.V + "/harness/life.cpp", "-o", a], "harness:first"), ([cxx, "-std=gnu++17", "-w", *fl, *inc, "-c", R.V + "/harness/life.cpp", "-o", b], "harness:last")] + lj
        plan.append((n, [cxx, *fl, a, *objs, b, "-o", os.path.join(tmp, "life_" + n), "-pthread"]))
    jobs.sort(key=lambda j: not j[1].startswith("harness:"))
    for j, (rc, log) in zip(jobs, R.pool(jobs)):
        if rc: raise R.CheckError("cannot compile %s:\n%s" % (j[1], log[-3000:]))
    for (n, _), (rc, log) in zip(plan, R.pool([(c, n) for n, c in plan])):
        if rc: raise R.CheckError("cannot link %s: %s" % (n, log[-2000:]))
    def env(n): return dict(os.environ, MC_LIFE=os.path.join(tmp, "life_" + n), LC_ALL="C", MALLOC_PERTURB_="165", ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1", **({"MC_LIFE_SAN": "1"} if "asan" in n else {}))
    if replay:
        n, fam = replay[0].split("/", 1)
        return R.do_replay(drv, tier, [fam] + list(replay[1:]), tmp, env(n))
    for n, _ in plan:
        R.run_explorer(chk, drv, tmp, tier, res, env=env(n), prefix=n + "/")
        if res.fail: return
    res.extra["variants"] = [" ".join([n, c, *f]) for n, c, f in LIFE]
    res.samples = R.samples(drv, tmp, tier, env(LIFE[0][0]))
check("C26", c26)

# ---- C27: combinations of the public headers ---------------------------------------------------------------
HEADERS = {  # header: what a file that has included just it can do (k=result: result k of the list in harness/c27.cpp)
    "bool": 'inline void use_bool_(V &v) { v.push_back("0=" + lexi::FormatBool(true).string()); v.push_back("1=" + std::string(lexi::FormatBool(false))); v.push_back("2=" + std::string(bool(lexi::ExtractBool("true")) ? "1" : "0")); }',
    "char": 'inline void use_char_(V &v) { v.push_back("3=" + std::string(1, char(lexi::ExtractChar("abc")))); v.push_back("4=" + lexi::FormatChar(\';\').escape()); v.push_back("5=" + lexi::FormatChar(\'\\n\').jsonify()); }',
    "int": 'inline void use_int_(V &v) { v.push_back("6=" + lexi::FormatInt(-42).string()); v.push_back("7=" + lexi::FormatInt(~0ull).string()); v.push_back("8=" + std::to_string((unsigned short)(lexi::ExtractInt("65535")))); }',
    "float": 'inline void use_float_(V &v) { v.push_back("9=" + lexi::FormatFloat(1.5).string()); v.push_back("10=" + lexi::FormatFloat(double(lexi::ExtractFloat("0.1"))).string()); v.push_back("11=" + lexi::FormatFloat(1e21).string()); }',
    "null": 'inline void use_null_(V &v) { v.push_back("12=" + lexi::FormatNull().string()); v.push_back("12=" + lexi::FormatNull(lexi::ExtractNull("null").null()).jsonify()); }',
    "enum": 'enum class E_ : short { A = -7 }; inline void use_enum_(V &v) { v.push_back("13=" + lexi::FormatEnum(E_::A).string()); v.push_back("14=" + std::to_string(int(E_(lexi::ExtractEnum("41"))))); }',
    "lexi": 'inline void use_lexi_(V &v) { v.push_back("15=" + lexi::lexi(2147483648u)); v.push_back("16=" + lexi::escape(std::string("x y"))); v.push_back("17=" + lexi::jsonify("x y")); v.push_back("18=" + std::to_string(lexi::lexi<int>("123"))); v.push_back("19=" + lexi::lexi("x y")); v.push_back("0=" + lexi::string(lexi::lexi<bool>("true"))); v.push_back("12=" + lexi::lexi(nullptr)); v.push_back("9=" + lexi::lexi(lexi::lexi<float>("1.5"))); }',
}
# what the rest of the file declares itself: names the library or the standard library also has, names a macro might take, layouts
OWN = ["string", "vector", "count", "find", "max", "min", "swap", "move", "size", "data", "byte", "distance", "list", "pair", "function", "enable_if_t", "underlying_type_t", "is_char_v", "is_float_v", "is_enum_v", "is_integer_v",
       "Format", "Extract", "FormatInt", "FormatBool", "ExtractInt", "BigInteger", "diyfp", "escape", "jsonify", "format_int", "parse_int", "detail",
       "TRUE", "FALSE", "ASSERT", "ID", "STRINGIFY", "NIL", "BUFFER_SIZE", "buffer", "buffer_", "size_", "value", "Enum", "T", "t", "type", "NULL_STRING", "TRUE_STRING", "FALSE_STRING", "MIN", "MAX", "BASE", "DIGITS", "likely", "unlikely", "inline_", "restrict_"]
# objects between guard bytes: a file that sees another layout than the library has them overwritten
GUARD = ("#include <new>\n#include <cstring>\n#include <type_traits>\nnamespace { template <class T> void set_(T &a, const T &b, std::true_type) { a = b; } template <class T> void set_(T &, const T &, std::false_type) {} template <class T, class A> bool guard_(const A &a) { alignas(32) unsigned char m[sizeof(T) + 128], n[sizeof(T) + 128]; memset(m, 0xa5, sizeof m); memset(n, 0xa5, sizeof n); "
         "T *p = new (m + 64) T(a); T *q = new (n + 64) T(*p); set_(*p, *q, std::is_copy_assignable<T>()); q->~T(); p->~T(); for (size_t i = 0; i < 64; i++) if (m[i] != 0xa5 || n[i] != 0xa5 || m[64 + sizeof(T) + i] != 0xa5 || n[64 + sizeof(T) + i] != 0xa5) return false; return true; } "
         "enum En_ { e0_ = 77 }; inline void guards_(V &v) { std::string s(\"true\"), i(\"12\"), z(\"null\"); bool ok = guard_<lexi::FormatBool>(true) && guard_<lexi::FormatBool>(false) && guard_<lexi::FormatChar>('x') && guard_<lexi::FormatInt>(-2147483647) && guard_<lexi::FormatInt>(~0ull) && guard_<lexi::FormatFloat>(-1.2345678901234567e-300) && guard_<lexi::FormatNull>(nullptr) && guard_<lexi::FormatEnum>(e0_) "
         "&& guard_<lexi::ExtractBool>(s) && guard_<lexi::ExtractChar>(s) && guard_<lexi::ExtractInt>(i) && guard_<lexi::ExtractEnum>(i) && guard_<lexi::ExtractFloat>(i) && guard_<lexi::ExtractNull>(z); v.push_back(std::string(\"21=\") + (ok ? \"inside\" : \"an object is larger in the library than in this file\")); } }")
OWNT = ("namespace { " + " ".join("int %s = %d;" % (n, i) for i, n in enumerate(OWN)) + " struct Lay_ { char c; double d; short s; long l; }; enum Col_ { red_, green_ }; "
        "inline void own_(V &v) { long n = 0" + "".join("; n += ::%s; n += %s" % (n, n) for n in OWN) + "; static_assert(sizeof(Lay_) == 4 * sizeof(double) && alignof(Lay_) == alignof(double) && sizeof(Col_) == sizeof(int), \"layout\"); v.push_back(\"20=\" + std::string(n == %d ? \"own\" : \"not own\")); } }" % (len(OWN) * (len(OWN) - 1)))
def _unit(k, seq, allh=True):
    name = " then ".join("lexi/%s.hpp" % h for h in seq)
    t, seen = [], []
    for h in seq:
        t.append("#include <lexi/%s.hpp>" % h)
        if h not in seen:
            if not seen: t += ["#include <string>", "#include <vector>", "namespace { typedef std::vector<std::string> V;"]
            else: t += ["namespace {"]
            t += [HEADERS[h], "}"]; seen.append(h)
    t += ["#include <lexi/lexi.hpp>"]
    if "lexi" not in seen: t += ["namespace {", HEADERS["lexi"], "}"]; seen.append("lexi")
    t += [GUARD, OWNT, "void unit%d(std::vector<std::string> &v) { guards_(v); own_(v); %s }" % (k, " ".join("use_%s_(v);" % h for h in seen))]
    return name, "\n".join(t) + "\n"
C27V = [("gcc-14", ["g++", "-std=c++14"]), ("gcc-20", ["g++", "-std=c++20"]), ("clang-17", ["clang++", "-std=c++17"]), ("gcc-17-ndebug", ["g++", "-std=c++17", "-DNDEBUG", "-D_GNU_SOURCE", "-D_FILE_OFFSET_BITS=64", "-D_GLIBCXX_ASSERTIONS"])]
def c27(chk, tier, tmp, res, replay=None):
    import itertools
    seqs = [q for n in range(1, (4 if tier == "thorough" else 3)) for q in itertools.product(HEADERS, repeat=n)]
    seqs += list(itertools.permutations(HEADERS))[::97 if tier != "thorough" else 17]
    lj, lobjs = R.lib_jobs(tmp, "c27lib", flags=("-O1",))
    tab = os.path.join(tmp, "units.cpp"); names = []
    base = os.path.join(tmp, "base.cpp"); open(base, "w").write('#include <lexi/lexi.hpp>\nint main() { return lexi::lexi(5) == "5" ? 0 : 1; }\n')
    jobs = [(["g++", "-std=c++14", "-w", "-I" + R.REPO + "/include", "-c", base, "-o", base + ".o"], "base")] + lj
    srcs = []
    for k, q in enumerate(seqs):
        n, t = _unit(k, q); names.append(n); f = os.path.join(tmp, "unit%d.cpp" % k); open(f, "w").write(t); srcs.append(f)
    open(tab, "w").write("#include <string>\n#include <vector>\n#include <cstddef>\ntypedef void (*Probe)(std::vector<std::string> &); struct Unit { const char *name; Probe p; };\n" + "".join("void unit%d(std::vector<std::string> &);\n" % k for k in range(len(seqs))) + "extern const Unit UNITS[] = {%s};\nextern const size_t NUNITS = %d;\n" % (", ".join('{"%s", unit%d}' % (n, k) for k, n in enumerate(names)), len(seqs)))
    jobs += [(["g++", "-std=gnu++17", "-w", "-O1", "-I" + R.V + "/lib", "-c", R.V + "/harness/c27.cpp", "-o", os.path.join(tmp, "c27m.o")], "harness"), (["g++", "-std=c++14", "-w", "-c", tab, "-o", tab + ".o"], "table")]
    vs = [v for v in C27V if not replay or v[0] == replay[0].split("/")[0]]
    units = [(v[0], k, [*v[1], "-w", "-O0", "-I" + R.REPO + "/include", "-c", srcs[k], "-o", os.path.join(tmp, "%s_%d.o" % (v[0], k))]) for v in vs for k in range(len(seqs))]
    nb = len(jobs); out = R.pool(jobs + [(c, "unit") for _, _, c in units])
    for j, (rc, log) in zip(jobs, out[:nb]):
        if rc: raise R.CheckError("cannot compile %s:\n%s" % (j[1], log[-3000:]))
    rc, log = R.sh(["g++", base + ".o", *lobjs, "-o", base + ".exe"])
    if rc: raise R.CheckError("cannot link a program of one file: " + log[-2000:])
    for (v, k, c), (rc, log) in zip(units, out[nb:]):
        if rc:
            res.fail = {"family": v + "/compile", "msg": "%s: a source file that includes %s does not compile although one that includes lexi/lexi.hpp does: %s" % (v, names[k], " ".join(log.split())[:600]), "lo": 0, "hi": 0, "log": log[-3000:]}
            return 3
    for v in vs:
        exe = os.path.join(tmp, "c27_" + v[0])
        rc, log = R.sh([v[1][0], os.path.join(tmp, "c27m.o"), tab + ".o", *[os.path.join(tmp, "%s_%d.o" % (v[0], k)) for k in range(len(seqs))], *lobjs, "-o", exe, "-pthread"], timeout=300)
        if rc:
            res.fail = {"family": v[0] + "/link", "msg": "%s: several source files that include the headers do not link into one program although one does: %s" % (v[0], " ".join(log.split())[:600]), "lo": 0, "hi": 0, "log": log[-3000:]}
            return 3
        if replay: return R.do_replay(exe, tier, [replay[0].split("/", 1)[1]] + list(replay[1:]), tmp)
        R.run_explorer(chk, exe, tmp, tier, res, prefix=v[0] + "/")
        if res.fail: return
    res.extra["variants"] = [" ".join(v[1]) for v in C27V]; res.extra["header_sequences"] = len(seqs)
    res.samples = R.samples(os.path.join(tmp, "c27_" + C27V[0][0]), tmp, tier)
check("C27", c27)

# ---- C21: build variants -----------------------------------------------------------------------------------
def _cpu(*f):
    try: have = set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split())
    except Exception: have = set()
    return all(x in have for x in f)
def variants():
    v = [  # name, compiler, standard, flags, prelude for the sources that select code paths
        ("gcc-O2", "g++", "c++14", ["-O2"], None),
        ("gcc-O0-no-elide", "g++", "c++14", ["-O0", "-fno-elide-constructors"], None),
        ("gcc-O3-unsigned-char-17", "g++", "c++17", ["-O3", "-funsigned-char", "-DNDEBUG"], None),
        ("gcc-Os-20", "g++", "c++20", ["-Os", "-DNDEBUG"], None),
        ("clang-O2", "clang++", "c++14", ["-O2", "-DNDEBUG"], None),
        ("clang-O0-unsigned-char-20", "clang++", "c++20", ["-O0", "-funsigned-char"], None),
        ("clang-O3-no-elide", "clang++", "c++14", ["-O3", "-fno-elide-constructors"], None),
        ("gcc-O1-lto-23", "g++", "c++23", ["-O1", "-flto", "-DNDEBUG"], None),
        ("clang-Os-23", "clang++", "c++23", ["-Os", "-fno-strict-aliasing"], None),
        ("gcc-O2-shared-strings-17", "g++", "c++17", ["-O2", "-D_GLIBCXX_USE_CXX11_ABI=0"], None),
        ("portable-multiply", "g++", "c++14", ["-O2"], "noarch"),
        ("portable-all", "g++", "c++14", ["-O1"], "nognu"),
        ("msvc-paths", "g++", "c++14", ["-O2"], "msvc"),
        ("portable-unsigned-char-no-elide", "g++", "c++14", ["-O1", "-funsigned-char", "-fno-elide-constructors"], "nognu"),
    ]
    if _cpu("avx2", "fma", "bmi2", "movbe"): v.append(("gcc-O3-fma", "g++", "c++14", ["-O3", "-march=x86-64-v3", "-ffp-contract=fast"], None))
    return v

def selects(s):
    """whether this source chooses between compiler-specific and portable code (itself or through a header of its own)"""
    import re
    pat = re.compile(r"__GNUC__|__x86_64__|_MSC_VER|_M_AMD64|__SIZEOF_INT128__")
    todo, seen = [s], set()
    while todo:
        f = todo.pop()
        if f in seen or f.endswith("architecture.hpp"): continue
        seen.add(f)
        try: t = open(f, errors="replace").read()
        except OSError: continue
        if pat.search(t): return True
        for m in re.finditer(r'#\s*include\s+"([^"]+)"', t):
            todo += [os.path.normpath(os.path.join(os.path.dirname(f), m.group(1))), os.path.join(R.REPO, "include", m.group(1))]
    return False

def c21(chk, tier, tmp, res, replay=None):
    import array
    VS = variants(); names = [v[0] for v in VS]
    want = [replay[0].split("/")[0]] if replay else names
    jobs, plan = [], []
    for n, cxx, std, fl, pre in VS:
        if n not in want and not (replay and n == names[0]): continue
        per = (lambda s, p=pre: ["-include", R.V + "/lib/variants/%s.hpp" % p, "-I" + R.V + "/lib/variants/" + p] if p and selects(s) else [])
        lj, objs = R.lib_jobs(tmp, "v_" + n, cxx=cxx, flags=fl, std=std, perfile=per)
        o = os.path.join(tmp, n + "_h.o")
        hj = ([cxx, "-std=" + std.replace("c++", "gnu++"), "-w", *fl, "-I" + R.V + "/lib", "-I" + R.REPO + "/include", "-c", R.V + "/harness/c21.cpp", "-o", o], "harness:" + n)
        plan.append((n, cxx, len(jobs), len(jobs) + 1 + len(lj), objs + [o])); jobs += [hj] + lj
    order = sorted(range(len(jobs)), key=lambda i: not jobs[i][1].startswith("harness:"))
    outs = R.pool([jobs[i] for i in order]); out = [None] * len(jobs)
    for i, o in zip(order, outs): out[i] = o
    links, skipped = [], []
    for n, cxx, a, b, objs in plan:
        if n == "msvc-paths" and any(out[k][0] for k in range(a, b)):   # an intrinsic the emulation lacks says nothing about the library
            skipped.append(n); continue
        for k in range(a, b):
            if out[k][0] != 0:
                base_ok = all(out[i][0] == 0 for i in range(plan[0][2], plan[0][3]))
                if n != names[0] and base_ok:
                    res.fail = {"family": n + "/compile", "msg": "variant %s does not compile although %s does: %s" % (n, names[0], " ".join(out[k][1].split())[:600]), "lo": 0, "hi": 0, "log": out[k][1][-3000:]}
                    return 3
                raise R.CheckError("cannot compile %s (%s):\n%s" % (jobs[k][1], n, out[k][1][-3000:]))
        links.append(([cxx, *objs, "-o", os.path.join(tmp, "c21_" + n), "-pthread"], n))
    for (cmd, n), (rc, log) in zip(links, R.pool(links)):
        if rc: raise R.CheckError("cannot link %s: %s" % (n, log[-2000:]))
    names = [n for n in names if n not in skipped]; VS = [v for v in VS if v[0] in names]
    if skipped: res.assumptions.append("variant not compiled here (MSVC emulation incomplete): " + ", ".join(skipped))
    def listing(n, fam, i):
        rc, log = R.sh([os.path.join(tmp, "c21_" + n), "--tier", tier, "--replay", fam, str(i), str(i + 1)], timeout=300, env=dict(os.environ, MC_LIST="1"), cwd=tmp)
        return rc, log
    def first_diff(n, fam, i):
        _, a = listing(names[0], fam, i); rc, b = listing(n, fam, i)
        for x, y in zip(a.splitlines(), b.splitlines()):
            if x.startswith("LINE ") and x != y: return "%s: %s    %s: %s" % (names[0], x[5:405], n, y[5:405])
        return None
    if replay:
        n, fam = replay[0].split("/", 1); i = int(replay[2]) - 1
        if fam.startswith("rounding"): return R.do_replay(os.path.join(tmp, "c21_" + n), tier, [fam] + list(replay[1:]), tmp)
        d = first_diff(n, fam, i); print(d or "no difference"); return 3 if d else 0
    base = None
    for n in names:
        dig = os.path.join(tmp, "dig_" + n)
        j = R.run_explorer(chk, os.path.join(tmp, "c21_" + n), tmp, tier, res, env=dict(os.environ, MC_DIGEST=dig), prefix=n + "/")
        if res.fail: return
        a = array.array("Q"); a.frombytes(open(dig, "rb").read()); os.remove(dig)
        if base is None: base = a; continue
        if len(a) != len(base): raise R.CheckError("variant %s explores another space" % n)
        off = 0
        if a != base:
            for f in j["families"]:
                if f["name"].startswith("rounding"): continue
                for i in range(f["count"]):
                    if a[off + i] != base[off + i]:
                        d = first_diff(n, f["name"], i) or "digests differ, listing identical"
                        res.fail = {"family": n + "/" + f["name"], "msg": "results differ between build variants: " + d, "lo": i, "hi": i + 1, "log": d}; res.complete = False
                        return
                off += f["count"]
    res.extra["variants"] = [" ".join([n, c, "-std=" + s, *f]) + (" [sources that select code paths with %s.hpp]" % p if p else "") for n, c, s, f, p in VS]
    res.samples = R.samples(os.path.join(tmp, "c21_" + names[0]), tmp, tier)
check("C21", c21, hard=((1,), (6,)))

# ---- C14: thread schedules -----------------------------------------------------------------------------------
WRAPPED = """pthread_mutex_lock pthread_mutex_trylock pthread_mutex_timedlock pthread_mutex_unlock pthread_spin_lock pthread_spin_trylock
pthread_spin_unlock pthread_rwlock_wrlock pthread_rwlock_trywrlock pthread_rwlock_rdlock pthread_rwlock_tryrdlock pthread_rwlock_unlock
pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort sched_yield nanosleep usleep strlen memcmp bcmp memchr strcmp
strncmp strchr strcpy strncpy strcat memcpy memmove memset strtod strtof strtold strtol strtoul strtoll strtoull atof vsnprintf snprintf
vsprintf sprintf setlocale strtok malloc free calloc realloc""".split()
def c14(chk, tier, tmp, res, replay=None):
    inst = ["-O1", "-g1", "-fno-inline-functions", "-fsanitize=thread", "-fno-builtin", "-include", R.V + "/lib/variants/instantiate.hpp"]
    jobs, objs = R.lib_jobs(tmp, "t", cxx="clang++", flags=inst)
    h = os.path.join(tmp, "c14_h.o"); s = os.path.join(tmp, "sched.o")
    jobs = [(["clang++", "-std=gnu++17", "-w", *inst, "-I" + R.V + "/lib", "-I" + R.V + "/harness", "-I" + R.REPO + "/include", "-c", R.V + "/harness/c14.cpp", "-o", h], "harness:c14"),
            (["clang++", "-std=gnu++17", "-w", "-O2", "-c", R.V + "/lib/sched.cpp", "-o", s], "harness:sched")] + jobs
    for j, (rc, log) in zip(jobs, R.pool(jobs)):
        if rc: raise R.CheckError("cannot compile %s:\n%s" % (j[1], log[-3000:]))
    ren = os.path.join(tmp, "rename.txt"); open(ren, "w").write("".join("%s mcw_%s\n" % (w, w) for w in WRAPPED))
    objs = [h] + objs
    for o, (rc, log) in zip(objs, R.pool([(["objcopy", "--redefine-syms=" + ren, o], o) for o in objs])):
        if rc: raise R.CheckError("objcopy %s: %s" % (o, log[-2000:]))
    exe = os.path.join(tmp, "c14")
    rc, log = R.sh(["clang++", "-rdynamic", *objs, s, "-o", exe, "-pthread", "-ldl", "-lquadmath"], timeout=300)
    if rc: raise R.CheckError("cannot link: " + log[-3000:])
    capf = os.path.join(tmp, "capped"); env = dict(os.environ, MC_CAPPED=capf, LC_ALL="C")
    if replay: return R.do_replay(exe, tier, replay, tmp, env)
    R.run_explorer(chk, exe, tmp, tier, res, env=env, hang=150)
    res.samples = R.samples(exe, tmp, tier, env)
    if os.path.exists(capf):
        l = open(capf).read().splitlines(); res.complete = False   # (not a violation: the bound reached is stated)
        res.extra["programs_cut_short"] = len(l); res.extra["programs_cut_short_examples"] = l[:10]
check("C14", c14)
