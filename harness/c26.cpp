// C26: conversions work in every phase of a program's life. Runs MC_LIFE (see life.cpp) for every operation and every
// set of phases up to a size; whatever the phase and whatever ran in earlier phases, the result is that of the operation
// alone in main of a fresh process. This driver does not contain the library.
#include "mc.hpp"
#include <map>
#include <fcntl.h>
#include <spawn.h>
#include <poll.h>

namespace c26 {
using mc::Ctx; using mc::show;
static const int NP = 9, MAIN = 2;
static const char *PH[NP] = {"constructor of a static object in the object file linked first", "constructor of a static object in the object file linked last", "main", "a second thread", "destructor of a thread_local object of a second thread", "destructor of a thread_local object of the main thread", "atexit handler", "destructor of a static object in the object file linked last", "destructor of a static object in the object file linked first"};
struct Res { int status = 0; std::string out, err; };
inline Res run(int mask, int op, bool names = false) {
    int p[2], q[2]; if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) { perror("pipe"); _exit(2); }
    std::vector<std::string> env; for (char **e = environ; *e; e++) if (strncmp(*e, "LIFE_", 5)) env.push_back(*e);
    env.push_back("LIFE_MASK=" + std::to_string(mask)); env.push_back("LIFE_OP=" + std::to_string(op));
    std::vector<char *> ev; for (auto &s : env) ev.push_back(&s[0]); ev.push_back(nullptr);
    const char *exe = getenv("MC_LIFE"); char *av[] = {const_cast<char *>(exe), names ? const_cast<char *>("names") : nullptr, nullptr};
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa); posix_spawn_file_actions_adddup2(&fa, p[1], 1); posix_spawn_file_actions_adddup2(&fa, q[1], 2);
    pid_t pid; if (posix_spawn(&pid, exe, &fa, nullptr, av, ev.data())) { perror(exe); _exit(2); }
    posix_spawn_file_actions_destroy(&fa); close(p[1]); close(q[1]);
    Res r; pollfd f[2] = {{p[0], POLLIN, 0}, {q[0], POLLIN, 0}}; char b[65536];
    while (f[0].fd >= 0 || f[1].fd >= 0) { poll(f, 2, -1); for (int k = 0; k < 2; k++) if (f[k].fd >= 0 && f[k].revents) { ssize_t n = read(f[k].fd, b, sizeof b); if (n <= 0) { close(f[k].fd); f[k].fd = -1; } else (k ? r.err : r.out).append(b, size_t(n)); } }
    waitpid(pid, &r.status, 0); return r;
}
typedef std::map<std::pair<int, int>, std::string> Results;   // (phase, operation) -> result
inline bool parse(const std::string &s, Results &m) {
    size_t i = 0; while (i < s.size()) { int32_t h[3]; if (i + 12 > s.size()) return false; memcpy(h, &s[i], 12); i += 12; if (h[2] < 0 || i + size_t(h[2]) > s.size()) return false; if (!m.emplace(std::make_pair(h[0], h[1]), s.substr(i, size_t(h[2]))).second) return false; i += size_t(h[2]); }
    return true;
}
inline std::string phases(int mask) { std::string s; for (int p = 0; p < NP; p++) if (mask >> p & 1) s += (s.empty() ? "" : ", ") + std::string(PH[p]); return s; }
static std::vector<std::string> NAME, WANT;

inline void judge(Ctx &c, int mask, int op) {
    Res r = run(mask, op); Results m; bool ok = parse(r.out, m);
    std::string what = op < 0 ? std::string("the whole alphabet") : NAME[size_t(op)];
    c.note("%s in: %s -> status %d, %zu results", what.c_str(), phases(mask).c_str(), r.status, m.size());
    for (auto &e : m) { c.calls(1); c.outcome(uint64_t(mask) * 131 + uint64_t(e.first.first) * 7919 + uint64_t(e.first.second)); if (e.first.second < 0 || size_t(e.first.second) >= WANT.size() || e.second != WANT[size_t(e.first.second)]) c.fail("%s in the %s gives %s, in main of a fresh process %s (operations run in: %s)", NAME[size_t(e.first.second)].c_str(), PH[e.first.first], show(e.second).c_str(), show(WANT[size_t(e.first.second)]).c_str(), phases(mask).c_str()); }
    for (int p = 0; p < NP; p++) if (mask >> p & 1) for (size_t i = 0; i < NAME.size(); i++) if ((op < 0 || size_t(op) == i) && !m.count({p, int(i)})) c.fail("%s in the %s: no result, the program ended with status %#x (operations run in: %s) %s", NAME[i].c_str(), PH[p], r.status, phases(mask).c_str(), show(r.err.substr(0, 700)).c_str());
    if (!ok || r.status != 0) c.fail("%s in: %s: the program ended with status %#x %s", what.c_str(), phases(mask).c_str(), r.status, show(r.err.substr(0, 700)).c_str());
}
void setup(mc::Run &r) {
    Res n = run(0, -1, true); size_t a = 0; for (size_t i = 0; i < n.out.size(); i++) if (n.out[i] == '\n') { NAME.push_back(n.out.substr(a, i - a)); a = i + 1; }
    if (NAME.empty()) { fprintf(stderr, "no operations: %s\n", n.err.c_str()); _exit(2); }
    for (size_t i = 0; i < NAME.size(); i++) { Results m; Res x = run(1 << MAIN, int(i)); if (!parse(x.out, m) || m.size() != 1) { fprintf(stderr, "operation %s gives no result in main: %s\n", NAME[i].c_str(), x.err.c_str()); _exit(2); } WANT.push_back(m.begin()->second); }
    bool san = getenv("MC_LIFE_SAN"); int most = r.thorough() ? NP : san ? 2 : 3;
    auto masks = std::make_shared<std::vector<int>>(); for (int m = 1; m < 1 << NP; m++) if (__builtin_popcount(unsigned(m)) <= most) masks->push_back(m);
    size_t k = masks->size();
    r.each("one-operation", "every operation (" + std::to_string(NAME.size()) + ") x every set of at most " + std::to_string(most) + " of the " + std::to_string(NP) + " phases, one process each", NAME.size() * k, [masks, k](Ctx &c, uint64_t i) { judge(c, (*masks)[i % k], int(i / k)); }, 16);
    r.each("all-operations", "the whole alphabet in every set of phases, one process each", (1u << NP) - 1, [](Ctx &c, uint64_t i) { judge(c, int(i) + 1, -1); }, 4);
}
}
MC_MAIN(c26::setup)
