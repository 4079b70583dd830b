// C14: concurrent conversions do not interfere. Every schedule of small thread programs, on the real code.
#include "mc.hpp"
#include "ops.hpp"
#include "sched.hpp"
#include <algorithm>
#include <array>
#include <clocale>
#include <atomic>
#include <map>
#include <mutex>
#include <set>
#include <shared_mutex>
#include <thread>

namespace c14 {
using mc::Ctx; using mc::show;
typedef std::function<std::string()> Act;
struct Thread { std::vector<Act> act; std::vector<std::string> want; };
struct Program { std::string name; std::vector<Act> warm; std::vector<Thread> thread; int bound = 2; };

struct Job { Program *p; std::vector<std::vector<std::string>> got; };
static void body(int t, void *a) { Job *j = static_cast<Job *>(a); Thread &T = j->p->thread[size_t(t)]; for (size_t i = 0; i < T.act.size(); i++) { std::string s; try { s = T.act[i](); } catch (const std::exception &) { s = "std::exception"; } catch (...) { s = "exception"; } j->got[size_t(t)][i] = std::move(s); } }

static sched::Out *OUT;
struct Found { uint32_t status; std::string msg; std::vector<uint8_t> sched; };
// one execution in a process of its own
static void execute(Program &p, const std::vector<uint8_t> &pre, const std::vector<uint64_t> &conf) {
    OUT->status = sched::DIED; OUT->msg[0] = 0; OUT->npoints = 0; OUT->nconf = 0;
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(2); }
    if (pid == 0) {
        alarm(120);
        for (auto &w : p.warm) try { w(); } catch (...) {}
        Job j; j.p = &p; for (auto &t : p.thread) j.got.emplace_back(t.act.size());
        sched::run(int(p.thread.size()), body, &j, pre.data(), pre.size(), conf.data(), conf.size(), OUT);
        for (size_t t = 0; t < p.thread.size(); t++) for (size_t i = 0; i < p.thread[t].act.size(); i++) if (j.got[t][i] != p.thread[t].want[i] && OUT->status == sched::OK) {
            snprintf(OUT->msg, sizeof OUT->msg, "thread %zu, operation %zu gives %s, alone %s", t, i, show(j.got[t][i]).c_str(), show(p.thread[t].want[i]).c_str()); OUT->status = sched::RESULT;
        }
        _exit(0);
    }
    int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        OUT->status = sched::DIED;
        if (WIFSIGNALED(st)) snprintf(OUT->msg, sizeof OUT->msg, WTERMSIG(st) == SIGALRM ? "the threads do not finish" : "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); else snprintf(OUT->msg, sizeof OUT->msg, "the process ended with status %d", WEXITSTATUS(st));
    }
}
struct Stats { uint64_t schedules = 0, points = 0, accesses = 0, shared = 0; int bound = 0; bool capped = false; };
// every schedule with at most `bound` preemptions, fewest preemptions first; false + f on a violation
static bool explore(Program &p, int bound, uint64_t cap, Stats &st, Found &f, const std::function<void()> &beat) {
    std::vector<uint64_t> conf;
    for (;;) {
        bool grew = false;
        struct Item { std::vector<uint8_t> pre; int cost; };
        std::vector<std::vector<Item>> level(size_t(bound) + 1); level[0].push_back({{}, 0}); uint64_t n = 0; st.capped = false;
        for (int b = 0; b <= bound && !grew && !st.capped; b++) {
            while (!level[size_t(b)].empty()) {
                Item it = std::move(level[size_t(b)].back()); level[size_t(b)].pop_back();
                execute(p, it.pre, conf); beat(); st.schedules++; n++; st.points += OUT->npoints; st.accesses += OUT->accesses;
                uint32_t s = OUT->status;
                if (s != sched::OK) { f.status = s; f.msg = OUT->msg; f.sched.clear(); for (uint32_t i = 0; i < OUT->npoints; i++) f.sched.push_back(OUT->pt[i].chosen); return false; }
                std::vector<uint64_t> add; for (uint32_t i = 0; i < OUT->nconf; i++) if (!std::binary_search(conf.begin(), conf.end(), OUT->conf[i])) add.push_back(OUT->conf[i]);
                if (!add.empty()) { conf.insert(conf.end(), add.begin(), add.end()); std::sort(conf.begin(), conf.end()); grew = true; break; }
                std::vector<uint8_t> tr; int cost = 0;
                for (uint32_t i = 0; i < OUT->npoints; i++) {
                    const sched::Point pt = OUT->pt[i];
                    if (i >= it.pre.size()) for (int t = 0; t < int(p.thread.size()); t++) if ((pt.enabled >> t & 1) && t != pt.chosen) {
                        int c = cost + (pt.cur != 255 && t != pt.cur ? 1 : 0);
                        if (c <= bound) { Item x; x.pre = tr; x.pre.push_back(uint8_t(t)); x.cost = c; level[size_t(c)].push_back(std::move(x)); }
                    }
                    if (pt.cur != 255 && pt.chosen != pt.cur) cost++;
                    tr.push_back(pt.chosen);
                }
                if (n >= cap) { st.capped = true; break; }
            }
            if (!grew && !st.capped) st.bound = b;
        }
        if (!grew) break;
    }
    st.shared = conf.size();
    return true;
}

// ---- canaries: the scheduler must see these every time, or the check itself is broken
namespace canary {
static int plain; static std::atomic<int> at; static std::mutex m1, m2; static std::recursive_mutex rm; static std::shared_mutex sm; static std::once_flag once; static int guarded; static std::atomic_flag fl = ATOMIC_FLAG_INIT; static std::atomic<int> ready; static int payload;
static std::string note;
static std::string lost() { int v = at.load(); at.store(v + 1); return ""; }
static const std::string &lazy() { static std::string s(40, 'x'); return s; }
}
static void self_check() {
    using namespace canary;
    auto prog = [](std::vector<Act> a, std::vector<Act> b, std::vector<std::string> wa, std::vector<std::string> wb) { Program p; p.thread.resize(2); p.thread[0].act = a; p.thread[1].act = b; p.thread[0].want = wa; p.thread[1].want = wb; return p; };
    auto must = [&](const char *name, Program p, uint32_t want) {
        Stats st; Found f{0, "", {}}; bool ok = explore(p, 2, 400, st, f, [] {});
        uint32_t got = ok ? 0 : f.status; if (got != want) { fprintf(stderr, "scheduler self-check '%s': status %u (%s), expected %u\n", name, got, f.msg.c_str(), want); _exit(2); }
        if (want == sched::OK && st.schedules < 2) { fprintf(stderr, "scheduler self-check '%s': only %llu schedules\n", name, (unsigned long long)st.schedules); _exit(2); }
    };
    Act inc = [] { plain++; return std::string(); };
    must("plain counter", prog({inc}, {inc}, {""}, {""}), sched::RACE);
    must("string race", prog({[] { note = "a longer text than fits inside"; return std::string(); }}, {[] { std::string s = note; return std::string(); }}, {""}, {""}), sched::RACE);
    must("locale race", prog({[] { char b[40]; snprintf(b, sizeof b, "%d", plain); return std::string(); }}, {[] { setlocale(LC_NUMERIC, "C"); return std::string(); }}, {""}, {""}), sched::RACE);
    must("relaxed publication", prog({[] { payload = 5; ready.store(1, std::memory_order_relaxed); return std::string(); }}, {[] { while (!ready.load(std::memory_order_relaxed)) {} return std::to_string(payload); }}, {""}, {"5"}), sched::RACE);
    must("atomic lost update", prog({lost}, {lost, lost, [] { return std::string(at.load() >= 2 ? "fine" : "lost"); }}, {""}, {"", "", "fine"}), sched::RESULT);
    must("lock order", prog({[] { std::lock_guard<std::mutex> a(m1), b(m2); return std::string(); }}, {[] { std::lock_guard<std::mutex> a(m2), b(m1); return std::string(); }}, {""}, {""}), sched::DEADLOCK);
    Act lk = [] { std::lock_guard<std::mutex> a(m1); guarded++; return std::string(); };
    must("mutex", prog({lk}, {lk, lk}, {""}, {"", ""}), sched::OK);
    Act rl = [] { std::lock_guard<std::recursive_mutex> a(rm), b(rm); guarded++; return std::string(); };
    must("recursive mutex", prog({rl}, {rl}, {""}, {""}), sched::OK);
    must("shared mutex", prog({[] { std::unique_lock<std::shared_mutex> l(sm); guarded++; return std::string(); }}, {[] { std::shared_lock<std::shared_mutex> l(sm); return std::to_string(guarded >= 0); }, [] { std::shared_lock<std::shared_mutex> l(sm); return std::to_string(guarded <= 1); }}, {""}, {"1", "1"}), sched::OK);
    must("static initialisation", prog({[] { return lazy(); }}, {[] { return lazy(); }}, {std::string(40, 'x')}, {std::string(40, 'x')}), sched::OK);
    Act co = [] { std::call_once(once, [] { payload = 9; }); return std::to_string(payload); };
    must("call_once", prog({co}, {co}, {"9"}, {"9"}), sched::OK);
    Act sp = [] { while (fl.test_and_set(std::memory_order_acquire)) {} guarded++; fl.clear(std::memory_order_release); return std::string(); };
    must("spin lock", prog({sp}, {sp}, {""}, {""}), sched::OK);
    must("acquire/release", prog({[] { payload = 5; ready.store(1, std::memory_order_release); return std::string(); }}, {[] { while (!ready.load(std::memory_order_acquire)) std::this_thread::yield(); return std::to_string(payload); }}, {""}, {"5"}), sched::OK);
    must("fences", prog({[] { payload = 5; std::atomic_thread_fence(std::memory_order_release); ready.store(1, std::memory_order_relaxed); return std::string(); }}, {[] { while (!ready.load(std::memory_order_relaxed)) {} std::atomic_thread_fence(std::memory_order_acquire); return std::to_string(payload); }}, {""}, {"5"}), sched::OK);
    Act tl = [] { static thread_local std::string v; v += "x"; return v; };
    { Program p = prog({tl, tl}, {tl}, {"x", "xx"}, {"x"}); Stats st; Found f{0, "", {}}; if (!explore(p, 2, 5000, st, f, [] {})) { fprintf(stderr, "scheduler self-check 'thread_local': %s\n", f.msg.c_str()); _exit(2); } }
}

static std::vector<ops::Op> *A; static std::vector<std::string> *FRESH;
// objects created once and then read by all threads
struct Reader { std::string name; Act act; std::string want; };
struct Shared { std::string name; std::vector<Reader> rd; };
static std::vector<Shared> *SH;
template <class F> Shared formatter(const char *name, F *f) {
    Shared s; s.name = name; auto R = [&](const char *n, Act a) { s.rd.push_back(Reader{n, a, ""}); };
    R("string", [f] { return f->string(); }); R("escape", [f] { return f->escape(); }); R("jsonify", [f] { return f->jsonify(); }); R("data+size", [f] { return std::string(f->data(), f->size()) + std::to_string(f->length()); });
    R("c_str", [f] { return std::string(f->c_str()); }); R("std::string()", [f] { return std::string(*f); }); R("copy", [f] { F g(*f); return g.string() + g.c_str(); }); R("assign", [f] { F g(*f); g = *f; return g.string(); });
    return s;
}
static std::string I(long long v) { return std::to_string(v); }
static std::string U(unsigned long long v) { return std::to_string(v); }
static std::vector<Shared> *shared_objects() {
    using namespace lexi; auto *v = new std::vector<Shared>();
    v->push_back(formatter("FormatInt", new FormatInt(-1234567890123ll))); v->push_back(formatter("FormatFloat", new FormatFloat(-1.2345678901234567e-89))); v->push_back(formatter("FormatFloat NaN", new FormatFloat(double(NAN))));
    v->push_back(formatter("FormatBool", new FormatBool(false))); v->push_back(formatter("FormatNull", new FormatNull(nullptr))); v->push_back(formatter("FormatChar", new FormatChar('\n'))); v->push_back(formatter("FormatEnum", new FormatEnum(ops::Sc::A)));
    auto R = [&](const char *n, Act a) { v->back().rd.push_back(Reader{n, a, ""}); };
    auto *xi = new ExtractInt(" -1234567"); v->push_back(Shared{"ExtractInt", {}});
    R("int8", [xi] { return I(int8_t(*xi)); }); R("uint8", [xi] { return I(uint8_t(*xi)); }); R("short", [xi] { return I(short(*xi)); }); R("ushort", [xi] { return I((unsigned short)(*xi)); }); R("int", [xi] { return I(int(*xi)); }); R("unsigned", [xi] { return U((unsigned)(*xi)); }); R("long", [xi] { return I(long(*xi)); }); R("ulong", [xi] { return U((unsigned long)(*xi)); }); R("ll", [xi] { return I((long long)(*xi)); }); R("ull", [xi] { return U((unsigned long long)(*xi)); }); R("copy", [xi] { ExtractInt y(*xi); return I(int(y)); });
    auto *xf = new ExtractFloat("1.25e-7"); v->push_back(Shared{"ExtractFloat", {}});
    R("float", [xf] { return ops::hexl(float(*xf)); }); R("double", [xf] { return ops::hexl(double(*xf)); }); R("long double", [xf] { return ops::hexl((long double)(*xf)); }); R("copy", [xf] { ExtractFloat y(*xf); return ops::hexl(double(y)); });
    auto *xb = new ExtractBool("true"); v->push_back(Shared{"ExtractBool", {}}); R("bool", [xb] { return I(bool(*xb)); }); R("copy", [xb] { ExtractBool y(*xb); return I(bool(y)); });
    auto *xn = new ExtractNull("null"); v->push_back(Shared{"ExtractNull", {}}); R("null", [xn] { return I(xn->null() == nullptr); }); R("convert", [xn] { return I(std::nullptr_t(*xn) == nullptr); });
    auto *xc = new ExtractChar("q"); v->push_back(Shared{"ExtractChar", {}}); R("char", [xc] { return std::string(1, char(*xc)); }); R("uchar", [xc] { return I((unsigned char)(*xc)); }); R("copy", [xc] { ExtractChar y(*xc); return std::string(1, char(y)); });
    auto *xe = new ExtractEnum("-3"); v->push_back(Shared{"ExtractEnum", {}}); R("enum", [xe] { return I(int(ops::Sc(*xe))); }); R("copy", [xe] { ExtractEnum y(*xe); return I(int(ops::Sc(y))); });
    for (const char *text : {"12", "-17.5e3", "null", "true", "a \"quoted\" text\n that is longer than any small buffer \\ 0123456789"}) {
        auto *s = new std::string(text); std::string t = text; v->push_back(Shared{"string " + t.substr(0, 8), {}});
        R("string", [s] { return lexi::string(*s); }); R("escape", [s] { return lexi::escape(*s); }); R("jsonify", [s] { return lexi::jsonify(*s); }); R("lexi", [s] { return lexi::lexi(*s); }); R("escape c_str", [s] { return lexi::escape(s->c_str()); }); R("char", [s] { return std::string(1, lexi::lexi<char>(*s)); }); R("lexi<string>", [s] { return lexi::lexi<std::string>(*s); });
        if (t == "12" || t[0] == '-') { R("int", [s] { return I(lexi::lexi<int>(*s)); }); R("ull", [s] { return U(lexi::lexi<unsigned long long>(*s)); }); R("double", [s] { return ops::hexl(lexi::lexi<double>(*s)); }); R("float", [s] { return ops::hexl(lexi::lexi<float>(s->c_str())); }); }
        if (t == "null") R("null", [s] { return I(lexi::lexi<std::nullptr_t>(*s) == nullptr); });
        if (t == "true") R("bool", [s] { return I(lexi::lexi<bool>(*s)); });
    }
    using detail::BigInteger;
    auto *b = new BigInteger("123456789012345678901234567890123456789012345", 45), *d = new BigInteger("123456789012345678901234567890123456789", 39); v->push_back(Shared{"BigInteger", {}});
    R("digits", [b] { return ops::bigtext(*b); }); R("compare", [b, d] { return I(b->compare(*d)) + I(d->compare(*b)) + I(*b == *d); }); R("difference", [b, d] { BigInteger r(uint64_t(0)); bool n = d->difference(*b, &r); return ops::bigtext(r) + I(n); }); R("copy and multiply", [b] { BigInteger c(*b); c *= uint64_t(7); c <<= 65; c += 3; c.mulPow5(29); return ops::bigtext(c); });
    auto *y = new detail::DiyFp(0.3); v->push_back(Shared{"DiyFp", {}});
    R("normalize", [y] { auto n = y->normalize(); return U(n.f) + "," + I(n.e); }); R("boundaries", [y] { detail::DiyFp m, p; y->normalizedBoundaries(&m, &p); return U(m.f) + "," + U(p.f); }); R("multiply", [y] { auto m = *y * *y; return U(m.f) + "," + I(m.e); });
    return v;
}
template <class F> std::string in_child(F f, bool &ok) {
    int p[2]; if (pipe(p)) abort();
    fflush(nullptr); pid_t pid = fork();
    if (pid == 0) { close(p[0]); std::string s; try { s = f(); } catch (...) { s = "std::exception"; } size_t o = 0; while (o < s.size()) { ssize_t n = write(p[1], s.data() + o, s.size() - o); if (n <= 0) break; o += size_t(n); } _exit(0); }
    close(p[1]); std::string s; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, size_t(n)); close(p[0]);
    int st; waitpid(pid, &st, 0); ok = WIFEXITED(st) && WEXITSTATUS(st) == 0; return s;
}
// Two passes: every program with a small number of schedules first, then, while the time lasts, the programs that have
// more schedules than that. On code without shared written state the first pass is already complete.
static void cut(const std::string &m) { if (const char *t = getenv("MC_CAPPED")) { FILE *fp = fopen(t, "a"); if (fp) { fprintf(fp, "%s\n", m.c_str()); fclose(fp); } } }
static uint8_t *STATE; static double T0, BUDGET; static const uint64_t FIRST = 30;
static void decide(Ctx &c, Program &p, int bound, uint64_t cap, uint8_t *state, bool deep) {
    if (deep) { if (*state == 1) return; if (mc::now() - T0 > BUDGET && !c.verbose) { c.calls(1); cut(p.name + ": only the first " + std::to_string(FIRST) + " schedules (time)"); return; } } else cap = std::min(cap, FIRST);
    if (!OUT) { OUT = static_cast<sched::Out *>(mmap(nullptr, sizeof(sched::Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); }
    Stats st; Found f{0, "", {}};
    bool ok = explore(p, bound, cap, st, f, [&] { c.calls(1); });
    if (!ok) {
        std::string s; for (uint8_t t : f.sched) s += char('0' + t); if (s.size() > 200) s = s.substr(0, 200) + "...";
        c.fail("[%s] %s; schedule %s", p.name.c_str(), f.msg.c_str(), s.empty() ? "(no choice)" : s.c_str());
    }
    *state = st.capped ? (deep ? 3 : 2) : 1;
    if (st.capped && deep) cut(p.name + ": " + std::to_string(st.schedules) + " schedules run, all with at most " + std::to_string(st.bound) + " preemptions complete");
    c.outcome(p.name);
    c.note("[%s] %llu schedules, %llu shared and written granules, %llu instrumented accesses", p.name.c_str(), (unsigned long long)st.schedules, (unsigned long long)st.shared, (unsigned long long)st.accesses);
}
void setup(mc::Run &r) {
    OUT = static_cast<sched::Out *>(mmap(nullptr, sizeof(sched::Out), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    self_check(); munmap(OUT, sizeof(sched::Out)); OUT = nullptr;     // each worker maps its own
    A = new std::vector<ops::Op>(ops::alphabet()); FRESH = new std::vector<std::string>();
    auto fresh = [](const std::string &n, const Act &a) { bool ok; std::string s = in_child(a, ok); if (!ok) { fprintf(stderr, "%s ends the process\n", n.c_str()); abort(); } return s; };
    for (auto &o : *A) FRESH->push_back(fresh(o.name, [&o] { return o.run(nullptr); }));
    // The shared objects are made in the process of each execution only: this one must not have used the library, or
    // "first use" would not be one. Their names and results are learnt from a process that is thrown away.
    static std::vector<std::vector<std::array<std::string, 3>>> *SN; SN = new std::vector<std::vector<std::array<std::string, 3>>>();
    { bool ok; std::string t = in_child([&] { std::string o; auto put = [&](const std::string &x) { o += std::to_string(x.size()) + ":" + x; }; SH = shared_objects(); put(std::to_string(SH->size())); for (auto &s : *SH) { put(std::to_string(s.rd.size())); for (auto &x : s.rd) { put(s.name); put(x.name); put(fresh(s.name + " " + x.name, x.act)); } } return o; }, ok);
      size_t at = 0; auto get = [&] { size_t e = t.find(':', at); size_t k = size_t(std::stoul(t.substr(at, e - at))); at = e + 1 + k; return t.substr(e + 1, k); };
      if (!ok) { fprintf(stderr, "the shared objects cannot be made\n"); abort(); }
      for (size_t k = std::stoul(get()); k-- > 0;) { SN->emplace_back(); for (size_t q = std::stoul(get()); q-- > 0;) { std::string a = get(), b = get(), c = get(); SN->back().push_back({a, b, c}); } } }
    static uint64_t n; n = A->size(); const int B = r.thorough() ? 3 : 2; const uint64_t cap = r.thorough() ? 20000 : 600;
    static auto op = [](size_t i) -> Act { return [i] { return (*A)[i].run(nullptr); }; };
    auto pair = [](uint64_t i, size_t &a, size_t &b) { a = 0; uint64_t row = n; while (i >= row) { i -= row; row--; a++; } b = a + size_t(i); };
    uint64_t np = n * (n + 1) / 2; std::string bs = " (preemption bound " + std::to_string(B) + ")";
    T0 = mc::now(); BUDGET = r.thorough() ? 6 * 3600 : 240; const bool TH = r.thorough();
    struct Fam { std::string name, bound; uint64_t count; std::function<Program(uint64_t)> make; uint64_t base; }; std::vector<Fam> fams; uint64_t total = 0;
    auto add = [&](const std::string &name, const std::string &bound, uint64_t count, std::function<Program(uint64_t)> f) { fams.push_back({name, bound, count, f, total}); total += count; };
    add("first-use", "every pair of operations at once, as the first use of the library in a process" + bs, np, [pair, B](uint64_t i) {
        size_t a, b; pair(i, a, b); Program p; p.name = (*A)[a].name + " || " + (*A)[b].name; p.thread = {{{op(a)}, {(*FRESH)[a]}}, {{op(b)}, {(*FRESH)[b]}}}; p.bound = B; return p;
    });
    add("crossed", "every pair: a, b in one thread and b, a in the other, first use" + bs, np, [pair, B](uint64_t i) {
        size_t a, b; pair(i, a, b); Program p; p.name = (*A)[a].name + "; " + (*A)[b].name + " || crossed"; p.thread = {{{op(a), op(b)}, {(*FRESH)[a], (*FRESH)[b]}}, {{op(b), op(a)}, {(*FRESH)[b], (*FRESH)[a]}}}; p.bound = B; return p;
    });
    add("warm", "every pair a || b after both already ran once in the process" + bs, np, [pair, B](uint64_t i) {
        size_t a, b; pair(i, a, b); Program p; p.name = (*A)[a].name + " || " + (*A)[b].name + " after use"; p.warm = {op(a), op(b)}; p.thread = {{{op(a)}, {(*FRESH)[a]}}, {{op(b)}, {(*FRESH)[b]}}}; p.bound = B; return p;
    });
    static std::vector<std::array<size_t, 3>> *SP = new std::vector<std::array<size_t, 3>>(); for (size_t s = 0; s < SN->size(); s++) for (size_t a = 0; a < (*SN)[s].size(); a++) for (size_t b = a; b < (*SN)[s].size(); b++) SP->push_back({s, a, b});
    add("shared-object", "every pair of readers of one shared formatter, extractor, string or arithmetic object, in both orders of the same two readers" + bs, SP->size(), [B](uint64_t i) {
        auto t = (*SP)[i]; auto &a = (*SN)[t[0]][t[1]], &b = (*SN)[t[0]][t[2]]; Program p; p.name = "shared " + a[0] + ": " + a[1] + " || " + b[1];
        Act aa = [t] { return (*SH)[t[0]].rd[t[1]].act(); }, ba = [t] { return (*SH)[t[0]].rd[t[2]].act(); };
        p.warm = {[] { SH = shared_objects(); return std::string(); }}; p.thread = {{{aa, ba}, {a[2], b[2]}}, {{ba, aa}, {b[2], a[2]}}}; p.bound = B; return p;
    });
    add("three-threads", "every pair as a || b || a, first use (preemption bound 1)", r.thorough() ? np : n, [pair, TH](uint64_t i) {
        size_t a, b; if (TH) pair(i, a, b); else { a = size_t(i); b = size_t(i + 1) % n; }
        Program p; p.name = (*A)[a].name + " || " + (*A)[b].name + " || " + (*A)[a].name; p.thread = {{{op(a)}, {(*FRESH)[a]}}, {{op(b)}, {(*FRESH)[b]}}, {{op(a)}, {(*FRESH)[a]}}}; p.bound = 1; return p;
    });
    // one thread stays in the middle of its only operation while the other goes round any ring of buffers or slots
    add("repeated", "each operation once in one thread and 300 times in the other (the first schedules, fewest preemptions first)", n, [](uint64_t i) {
        size_t a = size_t(i); Program p; p.name = (*A)[a].name + " || 300 times the same"; std::vector<Act> v(300, op(a)); std::vector<std::string> w(300, (*FRESH)[a]);
        p.thread = {{{op(a)}, {(*FRESH)[a]}}, {v, w}}; p.bound = 1; return p;
    });
    if (r.thorough()) add("triples-of-operations", "a, b, c in one thread against c, a, b in the other, for every a and b and c = every fifth operation (preemption bound 2)", n * n * ((n + 4) / 5), [](uint64_t i) {
        size_t a = size_t(i % n), b = size_t(i / n % n), d = size_t(i / n / n * 5); Program p; p.name = (*A)[a].name + "; " + (*A)[b].name + "; " + (*A)[d].name + " || rotated";
        p.thread = {{{op(a), op(b), op(d)}, {(*FRESH)[a], (*FRESH)[b], (*FRESH)[d]}}, {{op(d), op(a), op(b)}, {(*FRESH)[d], (*FRESH)[a], (*FRESH)[b]}}}; p.bound = 2; return p;
    });
    STATE = static_cast<uint8_t *>(mmap(nullptr, total + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    for (int deep = 0; deep < 2; deep++) for (auto &f : fams) {
        if (deep && f.name == "repeated") continue;
        auto make = f.make; uint64_t base = f.base;
        r.each(deep ? "deep-" + f.name : f.name, deep ? "the programs of " + f.name + " that have more than " + std::to_string(FIRST) + " schedules: up to " + std::to_string(cap) + " schedules each, fewest preemptions first" : f.bound, f.count, [make, base, cap, deep](Ctx &c, uint64_t i) { Program p = make(i); decide(c, p, p.bound, cap, STATE + base + i, deep); });
    }
}
}
MC_MAIN(c14::setup)
