// Native side of the specification intrinsics: runs a proof function on the real compiled code,
// either with the values of a counterexample (replay) or with random values (bounded search).
// usage: exe list | exe replay PROOF FILE | exe search PROOF SEED SECONDS
#include "vc.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <new>
#include <exception>
#include <chrono>
#include <dlfcn.h>
#include <unistd.h>
struct Val { std::string kind; uint64_t v; size_t size, w; std::vector<uint64_t> data; };
typedef std::map<std::string, std::deque<Val>> Vals;
static Vals *vals = nullptr;
static bool replay = false;
static uint64_t rng = 88172645463325252ull;
static jmp_buf jb;
static std::string *trace = nullptr;
static uint64_t covers = 0, runs = 0, rejected = 0;
static const char *failed = nullptr;

static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 2685821657736338717ull; }
static uint64_t biased(int w)
{
    const uint64_t m = w >= 64 ? ~0ull : ((1ull << w) - 1);
    uint64_t v = 0;
    switch (rnd() % 10)
    {
    case 0: case 1: case 2: v = rnd() % 5; break;
    case 3: case 4: v = rnd() % 17; break;
    case 5: v = (1ull << (rnd() % (w < 12 ? w : 12))) - 1; break;
    case 6: v = (1ull << (rnd() % w)) + (rnd() % 3) - 1; break;
    case 7: v = m - rnd() % 5; break;
    case 8: v = (m >> 1) + rnd() % 3 - 1; break;
    default: v = rnd(); break;
    }
    return v & m;
}
static void note(const char *kind, const char *n, uint64_t v)
{
    char b[160]; snprintf(b, sizeof b, "%s %s %llu\n", kind, n, (unsigned long long)v);
    if (trace) trace->append(b);
}
static uint64_t next(const char *n, int w)
{
    uint64_t v;
    if (replay)
    {
        auto it = vals->find(n);
        if (it == vals->end() || it->second.empty()) v = 0;
        else { v = it->second.front().v; it->second.pop_front(); }
    }
    else v = biased(w);
    note("int", n, v);
    return v;
}
extern "C" {
uint8_t vc_u8(const char *n) { return uint8_t(next(n, 8)); }
uint16_t vc_u16(const char *n) { return uint16_t(next(n, 16)); }
uint32_t vc_u32(const char *n) { return uint32_t(next(n, 32)); }
uint64_t vc_u64(const char *n) { return next(n, 64); }
uint64_t vc_in(const char *n, uint64_t lo, uint64_t hi)
{
    if (replay)
    {
        const uint64_t v = next(n, 64);
        if (v < lo || v > hi) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(78); }
        return v;
    }
    uint64_t v = 0;
    const uint64_t span = hi - lo;
    switch (rnd() % 8)
    {
    case 0: v = lo + (span < 3 ? rnd() % (span + 1) : rnd() % 3); break;
    case 1: v = hi - (span < 3 ? rnd() % (span + 1) : rnd() % 3); break;
    case 2: case 3: case 4: v = lo + (span < 16 ? rnd() % (span + 1) : rnd() % 16); break;
    case 5: v = lo + (span == ~0ull ? biased(64) : biased(64) % (span + 1)); break;
    default: v = lo + (span == ~0ull ? rnd() : rnd() % (span + 1)); break;
    }
    note("int", n, v);
    return v;
}
bool vc_bool(const char *n) { return next(n, 1) & 1; }
double vc_f64(const char *n)
{
    uint64_t v = next(n, 64);
    if (!replay && rnd() % 4) { double d = (rnd() % 5 == 0) ? double(int64_t(biased(64))) : double(int(rnd() % 2000) - 1000) / 8; memcpy(&v, &d, 8); note("int", n, v); }
    double d; memcpy(&d, &v, 8); return d;
}
float vc_f32(const char *n)
{
    uint32_t v = uint32_t(next(n, 32));
    if (!replay && rnd() % 4) { float d = (rnd() % 5 == 0) ? float(int64_t(biased(64))) : float(int(rnd() % 2000) - 1000) / 8; memcpy(&v, &d, 4); note("int", n, v); }
    float d; memcpy(&d, &v, 4); return d;
}
void vc_assume(bool c) { if (!c) { rejected++; if (replay) { printf("ASSUME-FAILED\n"); fflush(stdout); _exit(78); } longjmp(jb, 1); } }
static void fail(const char *n)
{
    printf("ASSERT-FAILED %s\n", n); if (trace) printf("%s", trace->c_str()); fflush(stdout); _exit(77);
}
void vc_assert(bool c, const char *n) { if (!c) fail(n); }
void vc_unreachable(const char *n) { fail(n); }
void vc_cover(const char *) { covers++; }
void *vc_alloc(size_t bytes, size_t stride, const char *n)
{
    if (bytes > (1ull << 26)) vc_assume(false);
    uint8_t *p = (uint8_t *)malloc(bytes ? bytes : 1);
    if (replay)
    {
        auto it = vals->find(n);
        memset(p, 0, bytes);
        if (it != vals->end() && !it->second.empty())
        {
            Val v = it->second.front(); it->second.pop_front();
            for (size_t i = 0; i < v.data.size() && (i + 1) * v.w <= bytes; i++) memcpy(p + i * v.w, &v.data[i], v.w);
        }
    }
    else for (size_t i = 0; i < bytes; i++) p[i] = uint8_t(rnd() >> 24);
    return p;
}
void vc_havoc(void *p, size_t n, const char *nm)
{
    size_t i = 0;
    while (i < n) { size_t m = n - i >= 8 ? 8 : 1; uint64_t v = next(nm, int(m * 8)); memcpy((char *)p + i, &v, m); i += m; }
}
bool vc_valid(const void *p, size_t) { return p != nullptr; }
void vc_set_env(void (*)(void)) {}
uint64_t vc_concretize(uint64_t v) { return v; }
unsigned vc_sync(bool) { return 3; }
bool vc_split(bool b) { return b; }
bool vc_symbolic(void) { return false; }
bool vc_same_object(const void *, const void *) { return true; }
void vc_missing(const char *n) { printf("NOT-REPLAYABLE: calls a function outside the unit: %s\n", n); fflush(stdout); _exit(2); }
void vc_end(void) { if (replay) _exit(0); longjmp(jb, 1); }
}
// heap tracking: freed blocks are remembered
static std::set<const void *> *live = nullptr, *dead = nullptr;
static thread_local bool tracking = false;   // only the thread running the proof is tracked
static void *track_new(size_t n)
{
    if (n > (1ull << 30) && tracking) { tracking = false; vc_assume(false); }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (tracking) { tracking = false; live->insert(p); dead->erase(p); tracking = true; }
    return p;
}
static void track_del(void *p) noexcept
{
    if (!p) return;
    if (tracking)
    {
        tracking = false;
        if (dead->count(p)) fail("double free");
        live->erase(p); dead->insert(p);
        tracking = true;
    }
    free(p);
}
void *operator new(size_t n) { return track_new(n); }
void *operator new[](size_t n) { return track_new(n); }
void operator delete(void *p) noexcept { track_del(p); }
void operator delete[](void *p) noexcept { track_del(p); }
void operator delete(void *p, size_t) noexcept { track_del(p); }
void operator delete[](void *p, size_t) noexcept { track_del(p); }
extern "C" bool vc_freed(const void *p) { return dead && dead->count(p); }
extern "C" size_t vc_live_heap(void) { return live ? live->size() : 0; }
static void onterm(void) { printf("TERMINATE\n"); if (trace) printf("%s", trace->c_str()); fflush(stdout); _exit(77); }
static void onsig(int) { printf("CRASH\n"); if (trace) printf("%s", trace->c_str()); fflush(stdout); _exit(77); }
#include <signal.h>
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" void __asan_set_error_report_callback(void (*)(const char *)) __attribute__((weak));
static void onasan(void) { printf("SANITIZER\n"); if (trace) printf("%s", trace->c_str()); fflush(stdout); _exit(77); }
extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:handle_abort=1:alloc_dealloc_mismatch=0:detect_stack_use_after_return=0"; }
extern "C" __attribute__((weak)) void vc_start(void);    // a contract file's own state, before each run of a search
int main(int argc, char **argv)
{
    std::set_terminate(onterm);
    if (__asan_set_death_callback) __asan_set_death_callback(onasan);
    else { signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); }
    signal(SIGILL, onsig); signal(SIGTRAP, onsig);
    if (argc < 3) return 2;
    std::string mode = argv[1];
    void *fp = dlsym(RTLD_DEFAULT, argv[2]);
    if (!fp) { fprintf(stderr, "no such proof\n"); return 2; }
    auto fn = (void (*)(void))fp;
    vals = new Vals; trace = new std::string; live = new std::set<const void *>; dead = new std::set<const void *>;
    if (mode == "replay")
    {
        replay = true;
        FILE *f = fopen(argv[3], "r");
        char k[16], n[128];
        while (f && fscanf(f, "%15s %127s", k, n) == 2)
        {
            Val v; v.kind = k; unsigned long long a = 0, b = 0;
            if (v.kind == "arr")
            {
                unsigned long long sz, w, cnt; if (fscanf(f, "%llu %llu %llu", &sz, &w, &cnt) != 3) break;
                v.size = sz; v.w = w;
                for (unsigned long long i = 0; i < cnt; i++) { if (fscanf(f, "%llu", &a) != 1) break; v.data.push_back(a); }
            }
            else { if (fscanf(f, "%llu", &b) != 1) break; v.v = b; }
            (*vals)[n].push_back(v);
        }
        tracking = true;
        fn();
        tracking = false;
        printf("REPLAY-OK\n");
        return 0;
    }
    if (mode == "search")
    {
        rng = 0x9e3779b97f4a7c15ull * (strtoull(argv[3], 0, 10) + 1) ^ 88172645463325252ull;
        const double secs = atof(argv[4]);
        auto t0 = std::chrono::steady_clock::now();
        while (true)
        {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            runs++;
            tracking = false; trace->clear(); live->clear(); dead->clear();
            if (vc_start) vc_start();
            if (setjmp(jb) == 0) { tracking = true; fn(); }
            tracking = false;
        }
        printf("SEARCH-OK runs=%llu rejected=%llu covered=%llu\n", (unsigned long long)runs, (unsigned long long)rejected, (unsigned long long)covers);
        return 0;
    }
    return 2;
}
