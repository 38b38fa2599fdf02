// Ghost memory: which stream byte each address holds (the last one written there). Symbolic runs use plain numbers as
// addresses; native runs use a real arena whose bytes are a function of the stream position.
#pragma once
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }
// any number in lo..max (max < lim)
static size_t upto(const char *n, size_t lo, size_t lim, size_t max)
{
    vc_assume(max >= lo);
    const size_t v = vc_in(n, lo, lim);
#ifdef VC_NATIVE
    return lo + (v - lo) % (max - lo + 1);
#else
    vc_assume(v <= max);
    return v;
#endif
}
#ifdef VC_NATIVE
#include <sys/mman.h>
static const size_t REGION = size_t(1) << 22;
static size_t region(int k)
{
    static char *arena = (char *)mmap(nullptr, REGION*24, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    vc_assume(k < 24);
    return size_t(arena) + k*REGION;
}
static void room(size_t n) { vc_assume(n <= REGION/4); }
#else
static size_t region(int k) { return size_t(k + 1) << 50; }
static void room(size_t) {}
#endif
enum { MAXS = 24 };
static int g_ns; static size_t g_addr[MAXS], g_len[MAXS], g_pos[MAXS];
static int g_regions;
#ifdef VC_NATIVE
extern "C" void vc_start(void) { g_ns = g_regions = 0; }
#endif
static unsigned char tag(size_t pos) { return (unsigned char)(((pos + (pos >> 40)*977)*2654435761u) >> 13) | 1; }
static void wrote(size_t addr, size_t len, size_t pos)
{
    if (g_ns == MAXS) vc_end();
    g_addr[g_ns] = addr; g_len[g_ns] = len; g_pos[g_ns] = pos; g_ns++;
#ifdef VC_NATIVE
    for (size_t i = 0; i < len; i++) *(unsigned char *)(addr + i) = tag(pos + i);
#endif
}
#ifndef VC_NATIVE
static size_t where(size_t a)
{
    size_t r = ~size_t(0);
    for (int i = 0; i < g_ns; i++) r = bool((a >= g_addr[i]) & (a < g_addr[i] + g_len[i])) ? g_pos[i] + (a - g_addr[i]) : r;
    return r;
}
static void vc_copied(size_t dst, size_t src, size_t n)
{
    const size_t pos = where(src);
    const size_t k = vc_in("copied", 0, size_t(1) << 44); if (n == 0) return; vc_assume(k < n);
    vc_assert(where(src + k) == pos + k, "only stream bytes are copied, in order");
    if (g_ns == MAXS) vc_end();
    g_addr[g_ns] = dst; g_len[g_ns] = n; g_pos[g_ns] = pos; g_ns++;
}
#endif
static void holds(size_t addr, size_t len, size_t pos, const char *what)
{
    if (len == 0) return;
#ifdef VC_NATIVE
    for (size_t i = 0; i < len; i++) vc_assert(((unsigned char *)addr)[i] == tag(pos + i), what);
#else
    const size_t p = vc_in("p", 0, size_t(1) << 44); vc_assume(p < len);
    vc_assert(where(addr + p) == pos + p, what);
#endif
}
static Pothos::SharedBuffer vc_buffer(size_t bytes) { room(bytes); return Pothos::SharedBuffer(region(g_regions++), bytes, std::shared_ptr<void>()); }
