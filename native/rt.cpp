// Native runtime for the contracts: executes them against the real code with concrete inputs,
// either replaying a counterexample (list of values) or exploring inputs/choices up to a bound.
#include "../contracts/vq.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <dlfcn.h>
#include <malloc.h>

namespace {
constexpr int MAXT = 4096;
struct Shared {
    int n;                       // values consumed
    long val[MAXT]; int dom[MAXT]; char kind[MAXT]; char name[MAXT][24];
    char msg[512]; int cuts; int ended; int covers;
};
Shared *sh;
long *prefix; int nprefix;
bool strictReplay = false;
unsigned long rng = 1; bool randomTail = false;
int cutLimit = 5;
const long I64[] = {0, 5, -1, 1, 1000, 0x7fffffff, -7, 0x100000000L, 0x7fffffffffffffffL, (long)0x8000000000000000UL};
constexpr int NI = sizeof I64 / sizeof *I64;
unsigned long rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

[[noreturn]] void finish(int code) { fflush(nullptr); _exit(code); }
long pick(char kind, int dom, const char *name) {
    int i = sh->n;
    if (i >= MAXT) finish(77);
    long r;
    if (i < nprefix) r = prefix[i];
    else if (strictReplay) r = 0;
    else if (randomTail) r = (long)(rnd() % dom);
    else r = 0;
    sh->val[i] = r; sh->dom[i] = dom; sh->kind[i] = kind; strncpy(sh->name[i], name, 23); sh->n = i + 1;
    if (strictReplay) return r;
    return kind == 'i' ? I64[r] : r;
}
} // namespace
static bool replayValues;
struct BlockSet { void **t = nullptr; size_t cap = 0, n = 0, used = 0; };
static BlockSet live; static int silent = 0;
static void setAdd(void *p) {
    if (live.used * 2 >= live.cap) {
        size_t nc = live.cap ? live.cap * 2 : 1024; void **nt = (void **)calloc(nc, sizeof(void *));
        for (size_t i = 0; i < live.cap; ++i) if (live.t[i] && live.t[i] != (void *)1) { size_t h = ((size_t)live.t[i] >> 4) & (nc - 1); while (nt[h]) h = (h + 1) & (nc - 1); nt[h] = live.t[i]; }
        free(live.t); live.t = nt; live.cap = nc; live.used = live.n;
    }
    size_t h = ((size_t)p >> 4) & (live.cap - 1); while (live.t[h] && live.t[h] != (void *)1) h = (h + 1) & (live.cap - 1);
    if (!live.t[h]) ++live.used;
    live.t[h] = p; ++live.n;
}
static void setDel(void *p) {
    if (!live.cap) return;
    size_t h = ((size_t)p >> 4) & (live.cap - 1);
    while (live.t[h]) { if (live.t[h] == p) { live.t[h] = (void *)1; --live.n; return; } h = (h + 1) & (live.cap - 1); }
}
void *operator new(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); if (silent <= 0) setAdd(p); memset(p, 0xA5, n); return p; }
void *operator new[](size_t n) { return operator new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
void operator delete(void *p) noexcept { if (p) setDel(p);
#if !defined(__SANITIZE_ADDRESS__)
    if (p) memset(p, 0x5A, malloc_usable_size(p));
#endif
    free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { operator delete(p); }

extern "C" {
bool vq_bool(const char *n) { return pick('b', 2, n) & 1; }
std::int64_t vq_i64(const char *n) { return pick('i', NI, n); }
std::int32_t vq_i32(const char *n) { return (std::int32_t)pick('i', NI, n); }
unsigned vq_choose(unsigned d, const char *n) { if (!d) finish(77); unsigned r = (unsigned)pick('c', d, n); if (r >= d) finish(77); return r; }
void vq_assume(bool c) { if (!c) finish(77); }
void vq_ensure(bool c, const char *name) { if (!c) { snprintf(sh->msg, sizeof sh->msg, "obligation %s fails", name); finish(1); } }
void vq_unreachable(const char *name) { vq_ensure(false, name); }
void vq_cover(const char *) { sh->covers++; }
void vq_cut(const char *); void vq_loop(const char *n) { vq_cut(n); }
void vq_cut(const char *) { if (++sh->cuts > cutLimit && !strictReplay) finish(76); }
void vq_end() { finish(0); }
std::int64_t vq_live_heap() { return (std::int64_t)live.n; }
void vq_silent_alloc(int d) { silent += d; }
void vq_undef(void *p, std::size_t n) { memset(p, 0xA5, n); }
bool vq_symbolic() { return false; }
void vq_mark_model(void *p) { setDel(p); }
void *vq_sym_array(std::int64_t) { abort(); }
bool vq_alive(const void *) { return true; }
void vq_log(const char *, ...) {}
}
extern "C" void vq_fail_assert(const char *what) { snprintf(sh->msg, sizeof sh->msg, "assertion fails: %s", what); finish(1); }

extern "C" void vq_missing_external(const char *n) { snprintf(sh->msg, sizeof sh->msg, "external function without a model: %s", n); finish(75); }

typedef void (*H)();
static bool quiet = true;
static int runOnce(H h) { // 0 ok, 1 violation, 77 pruned, 76 cut limit
    sh->n = 0; sh->msg[0] = 0; sh->cuts = 0; sh->ended = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        if (quiet) { if (!freopen("/dev/null", "w", stderr)) {} if (!freopen("/dev/null", "w", stdout)) {} }
        struct rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        alarm(10);
        h();
        finish(0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFSIGNALED(st)) {
        if (WTERMSIG(st) == SIGALRM) return 77; // too slow: no verdict
        if (!sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "the program is killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        return 1;
    }
    int c = WEXITSTATUS(st);
    if (c == 0 || c == 77 || c == 76 || c == 75) return c;
    if (!sh->msg[0]) snprintf(sh->msg, sizeof sh->msg, "the program exits with status %d (sanitizer report or abnormal end)", c);
    return 1;
}
static void report(const char *name) {
    printf("FAIL %s: %s\nINPUTS", name, sh->msg);
    for (int i = 0; i < sh->n; ++i) {
        long v = sh->val[i]; if (sh->kind[i] == 'i' && !strictReplay) v = I64[v];
        printf(" %s=%ld", sh->name[i], v);
    }
    printf("\n");
}
int main(int argc, char **argv) {
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    prefix = (long *)calloc(MAXT, sizeof(long));
    if (argc < 3) return 2;
    H h = (H)dlsym(RTLD_DEFAULT, argv[2]);
    if (!h) { fprintf(stderr, "no contract %s\n", argv[2]); return 2; }
    if (getenv("VQ_VERBOSE")) quiet = false;
    if (!strcmp(argv[1], "replay")) {
        strictReplay = true;
        for (int i = 3; i < argc && nprefix < MAXT; ++i) prefix[nprefix++] = (long)strtoull(argv[i], nullptr, 0);
        int r = runOnce(h);
        if (r == 1) { report(argv[2]); return 1; }
        printf("PASS %s (%d) %s\n", argv[2], r, sh->msg); return 0;
    }
    // explore <name> <seconds> <seed> [maxruns]
    double secs = atof(argv[3]); rng = strtoul(argv[4], nullptr, 0) * 0x9E3779B97F4A7C15UL + 1;
    struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
    long runs = 0, pruned = 0, cut = 0; bool exhausted = false;
    // depth-first enumeration for half of the time, random tails for the rest
    auto elapsed = [&] { clock_gettime(CLOCK_MONOTONIC, &t); return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9; };
    nprefix = 0;
    while (elapsed() < secs * 0.6) {
        int r = runOnce(h); ++runs; pruned += r == 77; cut += r == 76;
        if (r == 1) { report(argv[2]); printf("RUNS %ld\n", runs); return 1; }
        int i = sh->n - 1;
        while (i >= 0 && sh->val[i] + 1 >= sh->dom[i]) --i;
        if (i < 0) { exhausted = true; break; }
        for (int k = 0; k < i; ++k) prefix[k] = sh->val[k];
        prefix[i] = sh->val[i] + 1; nprefix = i + 1;
    }
    if (!exhausted) {
        randomTail = true; nprefix = 0; cutLimit = 12;
        unsigned long s = rng;
        while (elapsed() < secs) {
            s = s * 6364136223846793005UL + 1442695040888963407UL; rng = s | 1;
            int r = runOnce(h); ++runs; pruned += r == 77; cut += r == 76;
            if (r == 1) { report(argv[2]); printf("RUNS %ld\n", runs); return 1; }
        }
    }
    printf("PASS %s RUNS %ld PRUNED %ld CUT %ld EXHAUSTED %d\n", argv[2], runs, pruned, cut, (int)exhausted);
    return 0;
}
