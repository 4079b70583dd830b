// Bounded exhaustive explorer for sequential code.
//
// A harness registers *families*: finite, deterministically indexed spaces of executions. The explorer
// runs every index of every family (sharded over forked workers), and the family's body compares the
// implementation with its reference model at every step. A body that crashes or hangs is caught by the
// parent, which knows the index being run. Every case can be replayed alone: --replay FAMILY LO HI.
#pragma once
#include <atomic>
#include <cerrno>
#include <cinttypes>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <ios>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <unistd.h>

namespace mc {

static const unsigned OUT_BITS = 24;   // distinct-outcome bitmap: 2^24 bits per worker

struct Slot {
    std::atomic<uint64_t> cur;
    std::atomic<uint64_t> beat;
    std::atomic<uint32_t> fam;
    std::atomic<uint32_t> busy;
    std::atomic<uint64_t> lo;
    uint64_t cases, calls;
    uint32_t failed, fail_fam;
    uint64_t fail_idx, fail_lo;
    char fail_msg[2048];
};

struct Shared {
    std::atomic<uint64_t> next;
    std::atomic<uint32_t> stop;
    Slot slot[64];
};

struct Failure {};   // thrown to leave a case

struct Ctx {
    Slot *s = nullptr;
    uint8_t *bitmap = nullptr;
    bool verbose = false;
    bool ignore_semantic = false;   // sanitizer runs: only crashes count
    std::string tier;

    void at(uint64_t idx) { s->cur.store(idx, std::memory_order_relaxed); s->cases++; }
    void calls(uint64_t n) { s->calls += n; }
    static uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
    void outcome(uint64_t h) { h = mix(h) & ((1u << OUT_BITS) - 1); bitmap[h >> 3] |= uint8_t(1u << (h & 7)); }
    void outcome(const char *p, size_t n) {
        uint64_t h = 1469598103934665603ULL + n;
        while (n >= 8) { uint64_t w; memcpy(&w, p, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ULL; h ^= h >> 29; p += 8; n -= 8; }
        uint64_t w = 0; memcpy(&w, p, n); h = (h ^ w) * 0x9E3779B97F4A7C15ULL;
        outcome(h);
    }
    void outcome(const std::string &t) { outcome(t.data(), t.size()); }

    [[noreturn]] void fail_(const char *fmt, va_list ap) {
        s->failed = 1; s->fail_fam = s->fam; s->fail_idx = s->cur; s->fail_lo = s->lo;
        vsnprintf(s->fail_msg, sizeof s->fail_msg, fmt, ap);
        throw Failure();
    }
    __attribute__((format(printf, 2, 3))) void fail(const char *fmt, ...) {
        if (ignore_semantic) return;
        va_list ap; va_start(ap, fmt); fail_(fmt, ap);
    }
    __attribute__((format(printf, 2, 3))) void note(const char *fmt, ...) {
        if (!verbose) return;
        va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); putchar('\n');
    }
};

struct Family {
    std::string name, bound;
    uint64_t count, chunk;
    std::function<void(Ctx &, uint64_t, uint64_t)> run;
};

struct Run {
    std::string tier;           // quick, thorough, san
    std::vector<Family> fams;
    bool thorough() const { return tier == "thorough"; }
    bool san() const { return tier == "san"; }
    // body(ctx, lo, hi): must call ctx.at(i) before each case i in [lo, hi)
    void range(const std::string &name, const std::string &bound, uint64_t count, std::function<void(Ctx &, uint64_t, uint64_t)> body, uint64_t chunk = 0) {
        if (!count) return;
        if (!chunk) chunk = count / 512 + 1;
        fams.push_back(Family{name, bound, count, chunk, body});
    }
    // body(ctx, i)
    template <class F> void each(const std::string &name, const std::string &bound, uint64_t count, F body, uint64_t chunk = 0) {
        range(name, bound, count, [body](Ctx &c, uint64_t lo, uint64_t hi) { for (uint64_t i = lo; i < hi; i++) { c.at(i); body(c, i); } }, chunk);
    }
};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += char(c);
    }
    return o + "\"";
}

// printable form of arbitrary bytes for messages
inline std::string show(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += char(c); }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += char(c);
        if (o.size() > 900) { o += "..."; break; }
    }
    return o + "\"";
}

inline void run_body(Ctx &c, Family &f, uint64_t lo, uint64_t hi) {
    try { f.run(c, lo, hi); }
    catch (const Failure &) { throw; }
    catch (const std::exception &e) { try { c.ignore_semantic = false; c.fail("unexpected exception: %s", e.what()); } catch (const Failure &) { throw; } }
    catch (...) { c.ignore_semantic = false; c.fail("unexpected exception of unknown type"); }
}

inline int main_(int argc, char **argv, std::function<void(Run &)> setup) {
    std::string out, tier = "quick", only; double hang_s = 30; int workers = 8;
    bool replay = false; std::string rfam; uint64_t rlo = 0, rhi = 0; bool samples = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--out") out = argv[++i];
        else if (a == "--tier") tier = argv[++i];
        else if (a == "--workers") workers = atoi(argv[++i]);
        else if (a == "--hang") hang_s = atof(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--replay") { replay = true; rfam = argv[++i]; rlo = strtoull(argv[++i], 0, 10); rhi = strtoull(argv[++i], 0, 10); }
        else if (a == "--samples") samples = true;
        else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 2; }
    }
    Run r; r.tier = tier; setup(r);
    auto *sh = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const size_t bm = (size_t(1) << OUT_BITS) / 8;
    auto *maps = static_cast<uint8_t *>(mmap(nullptr, bm * 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (sh == MAP_FAILED || maps == MAP_FAILED) { perror("mmap"); return 2; }

    if (replay || samples) {
        // run cases in this process, describing what is observed
        Ctx c; c.s = &sh->slot[0]; c.bitmap = maps; c.tier = tier;
        try {
            for (size_t f = 0; f < r.fams.size(); f++) {
                Family &F = r.fams[f];
                c.s->fam = uint32_t(f);
                if (replay) {
                    if (F.name != rfam) continue;
                    if (rhi > F.count) rhi = F.count;
                    c.s->lo = rlo;
                    if (rhi - rlo > 1) run_body(c, F, rlo, rhi - 1);   // history first, silently
                    c.verbose = true;
                    run_body(c, F, rhi - 1, rhi);
                    printf("REPLAY-OK %s %" PRIu64 "\n", F.name.c_str(), rhi - 1); return 0;
                } else {
                    if (F.name == "giant") continue;   // gigabytes each: described by its own evidence line
                    c.verbose = true;
                    uint64_t idx[2] = {F.count / 3, F.count * 7 / 8};
                    for (uint64_t i : idx) { printf("[%s #%" PRIu64 "] ", F.name.c_str(), i); fflush(stdout); run_body(c, F, i, i + 1); puts(""); }
                }
            }
        } catch (const Failure &) { printf("REPLAY-FAIL %s\n", c.s->fail_msg); return 3; }
        return replay ? 2 : 0;
    }

    // chunk list
    struct Chunk { uint32_t fam; uint64_t lo, hi; };
    std::vector<Chunk> chunks;
    for (size_t f = 0; f < r.fams.size(); f++) {
        if (!only.empty() && r.fams[f].name != only) continue;
        for (uint64_t lo = 0; lo < r.fams[f].count; lo += r.fams[f].chunk)
            chunks.push_back(Chunk{uint32_t(f), lo, std::min(r.fams[f].count, lo + r.fams[f].chunk)});
    }
    double t0 = now();
    fflush(nullptr);
    std::vector<pid_t> pid(workers);
    for (int w = 0; w < workers; w++) {
        pid[w] = fork();
        if (pid[w] < 0) { perror("fork"); return 2; }
        if (pid[w] == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);   // a worker never outlives its explorer
            Ctx c; c.s = &sh->slot[w]; c.bitmap = maps + bm * w; c.tier = tier; c.ignore_semantic = r.san();
            int rc = 0;
            try {
                while (!sh->stop) {
                    uint64_t k = sh->next++;
                    if (k >= chunks.size()) break;
                    c.s->fam = chunks[k].fam; c.s->lo = chunks[k].lo; c.s->cur = chunks[k].lo; c.s->beat++; c.s->busy = 1;
                    run_body(c, r.fams[chunks[k].fam], chunks[k].lo, chunks[k].hi);
                    c.s->busy = 0;
                }
            } catch (const Failure &) { sh->stop = 1; rc = 3; }
            _exit(rc);
        }
    }
    int alive = workers; std::string fail_kind;
    std::vector<uint64_t> last(workers, ~0ull); std::vector<double> since(workers, now());
    while (alive > 0) {
        int st; pid_t p;
        while ((p = waitpid(-1, &st, WNOHANG)) > 0) {
            for (int w = 0; w < workers; w++) if (pid[w] == p) {
                pid[w] = -1; alive--;
                Slot &s = sh->slot[w];
                bool crash = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3);
                if (crash && !s.failed) {
                    s.failed = 1; s.fail_fam = s.fam; s.fail_idx = s.cur; s.fail_lo = s.lo;
                    if (WIFSIGNALED(st)) snprintf(s.fail_msg, sizeof s.fail_msg, "crash: signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
                    else snprintf(s.fail_msg, sizeof s.fail_msg, "crash: process ended with status %d", WEXITSTATUS(st));
                    sh->stop = 1;
                }
            }
        }
        if (alive <= 0) break;
        double t = now();
        for (int w = 0; w < workers; w++) if (pid[w] > 0) {
            Slot &s = sh->slot[w];
            uint64_t k = s.cur * 1000003u + s.beat * 7919u + s.calls;
            if (k != last[w] || !s.busy) { last[w] = k; since[w] = t; }
            else if (t - since[w] > hang_s) {
                s.failed = 1; s.fail_fam = s.fam; s.fail_idx = s.cur; s.fail_lo = s.lo;
                snprintf(s.fail_msg, sizeof s.fail_msg, "hang: no progress for %.0f s", hang_s);
                sh->stop = 1; kill(pid[w], SIGKILL); since[w] = t + 1e9;
            }
        }
        usleep(5000);
    }
    double wall = now() - t0;
    uint64_t cases = 0, calls = 0; int bad = -1;
    for (int w = 0; w < workers; w++) {
        Slot &s = sh->slot[w]; cases += s.cases; calls += s.calls;
        if (s.failed && (bad < 0 || s.fail_fam < sh->slot[bad].fail_fam || (s.fail_fam == sh->slot[bad].fail_fam && s.fail_idx < sh->slot[bad].fail_idx))) bad = w;
    }
    uint64_t distinct = 0;
    for (size_t i = 0; i < bm; i++) { uint8_t b = 0; for (int w = 0; w < workers; w++) b |= maps[bm * w + i]; distinct += __builtin_popcount(b); }
    std::string j = "{";
    char b[512];
    snprintf(b, sizeof b, "\"cases\":%" PRIu64 ",\"calls\":%" PRIu64 ",\"distinct\":%" PRIu64 ",\"wall_s\":%.3f,\"complete\":%s,", cases, calls, distinct, wall, bad < 0 ? "true" : "false"); j += b;
    j += "\"families\":[";
    bool first = true;
    for (auto &F : r.fams) {
        if (!only.empty() && F.name != only) continue;
        if (!first) j += ",";
        first = false;
        snprintf(b, sizeof b, "%" PRIu64, F.count);
        j += "{\"name\":" + jstr(F.name) + ",\"bound\":" + jstr(F.bound) + ",\"count\":" + b + "}";
    }
    j += "]";
    if (bad >= 0) {
        Slot &s = sh->slot[bad];
        snprintf(b, sizeof b, ",\"idx\":%" PRIu64 ",\"lo\":%" PRIu64, s.fail_idx, s.fail_lo);
        j += ",\"fail\":{\"family\":" + jstr(r.fams[s.fail_fam].name) + ",\"msg\":" + jstr(s.fail_msg) + b + "}";
    }
    j += "}\n";
    FILE *fp = out.empty() ? stdout : fopen(out.c_str(), "w");
    if (!fp) { perror(out.c_str()); return 2; }
    fputs(j.c_str(), fp); if (fp != stdout) fclose(fp);
    return bad >= 0 ? 3 : 0;
}

}   // namespace mc

#ifndef MC_NO_MAIN
#define MC_MAIN(setup) int main(int argc, char **argv) { return mc::main_(argc, argv, setup); }
#else
#define MC_MAIN(setup)
#endif
