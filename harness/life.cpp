// The program C26 runs: the operation alphabet executed in chosen phases of a program's life. Compiled twice: with
// -DLIFE_FIRST it is linked before the library's objects (its static object is constructed before and destroyed after
// everything the library may have with static storage), without it after them.
// LIFE_MASK: phases (bits); LIFE_OP: one operation, or -1 for the whole alphabet. Results go to descriptor 1.
#include <unistd.h>
#include <cstdlib>
extern "C" void life_phase(int);
enum { FIRST_CTOR, LAST_CTOR, MAIN, THREAD, THREAD_LOCAL_DTOR, MAIN_LOCAL_DTOR, ATEXIT, LAST_DTOR, FIRST_DTOR };
#ifdef LIFE_FIRST
#include "ops.hpp"
#include <thread>
static void out(const void *p, size_t n) { const char *c = static_cast<const char *>(p); while (n) { ssize_t k = write(1, c, n); if (k <= 0) _exit(77); c += k; n -= size_t(k); } }
extern "C" void life_phase(int p) {
    const char *m = getenv("LIFE_MASK"), *o = getenv("LIFE_OP");
    if (!m || !o || !(atoi(m) >> p & 1)) return;
    int op = atoi(o); auto v = ops::alphabet(); std::string all;
    for (int i = 0; i < int(v.size()); i++) if (op < 0 || op == i) {
        std::string t = v[size_t(i)].run(nullptr); int32_t h[3] = {p, i, int32_t(t.size())};
        all.append(reinterpret_cast<char *>(h), sizeof h); all += t;
    }
    out(all.data(), all.size());
}
static void at_exit() { life_phase(ATEXIT); }
struct Local { int p; explicit Local(int q) : p(q) {} ~Local() { life_phase(p); } void touch() {} };
struct First { First() { atexit(at_exit); life_phase(FIRST_CTOR); } ~First() { life_phase(FIRST_DTOR); } };
static First first;
thread_local Local main_local(MAIN_LOCAL_DTOR), thread_local_(THREAD_LOCAL_DTOR);
int main(int argc, char **argv) {
    if (argc > 1) { auto v = ops::alphabet(); std::string s; for (auto &o : v) s += o.name + "\n"; out(s.data(), s.size()); _exit(0); }
    main_local.touch();   // constructed before any thread-local of the library
    life_phase(MAIN);
    int m = atoi(getenv("LIFE_MASK") ? getenv("LIFE_MASK") : "0");
    if (m >> THREAD & 1 || m >> THREAD_LOCAL_DTOR & 1) { setenv("LIFE_MASK", std::to_string(m & ~(1 << MAIN_LOCAL_DTOR)).c_str(), 1); std::thread t([] { thread_local_.touch(); life_phase(THREAD); }); t.join(); setenv("LIFE_MASK", std::to_string(m & ~(1 << THREAD_LOCAL_DTOR)).c_str(), 1); }
    else setenv("LIFE_MASK", std::to_string(m & ~(1 << THREAD_LOCAL_DTOR)).c_str(), 1);
    return 0;
}
#else
struct Last { Last() { life_phase(LAST_CTOR); } ~Last() { life_phase(LAST_DTOR); } };
static Last last;
#endif
