// Contracts of BufferAccumulator and BufferPool (lib/Framework/BufferAccumulator.cpp, BufferPool.cpp), fed by the real
// buffer managers, by separate buffers (adjacent in memory or not) and by chunks that already span several buffers.
// Ghost: a record of which stream byte each memory range holds; memory that was given back or freed holds nothing.
#include "stdpre.h"
#define private public
#define protected public
#include "Framework/SharedBuffer.cpp"
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "Framework/ManagedBuffer.cpp"
#include "Framework/BufferManager.cpp"
#include "noreg.h"
#include "Framework/BufferChunk.cpp"
#include "Framework/Builtin/GenericBufferManager.cpp"
#include "Framework/Builtin/CircularBufferManager.cpp"
#include "vc.h"
#ifndef VC_NATIVE
// copies between stream memory are recorded (the addresses of the symbolic run are plain numbers)
static void vc_copied(size_t dst, size_t src, size_t n);
namespace std { __attribute__((always_inline)) static inline void *vc_memcpy(void *d, const void *s, size_t n) { vc_copied((size_t)d, (size_t)s, n); return d; } }
__attribute__((always_inline)) static inline void *vc_memcpy(void *d, const void *s, size_t n) { vc_copied((size_t)d, (size_t)s, n); return d; }
#define memcpy vc_memcpy
#define memmove vc_memcpy
#endif
#include "Framework/BufferAccumulator.cpp"
#include "Framework/BufferPool.cpp"
#undef memcpy
#undef memmove
#undef private
#undef protected
using Pothos::SharedBuffer; using Pothos::BufferChunk; using Pothos::ManagedBuffer; using Pothos::BufferAccumulator;
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }
#ifdef VC_NATIVE
#include <sys/mman.h>
static const size_t REGION = size_t(1) << 22;
static size_t region(int k)
{
    static char *arena = (char *)mmap(nullptr, REGION*16, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    return size_t(arena) + k*REGION;
}
static void room(size_t n) { vc_assume(n <= REGION/4); }
#else
static size_t region(int k) { return size_t(k + 1) << 50; }
static void room(size_t) {}
#endif
VC_OPT(all, ".", "bounded lia deadline=600")
VC_OPT(deep, "_thorough", "bounded lia deadline=3000")

// ---- ghost memory: which stream position each byte holds
enum { MAXS = 24 };
static int g_ns; static size_t g_addr[MAXS], g_len[MAXS], g_pos[MAXS]; static int g_owner[MAXS];
static size_t g_ring, g_ringlen;    // circular region, mapped twice
static unsigned char tag(size_t pos) { return (unsigned char)((pos*2654435761u) >> 13) | 1; }
static void wrote(size_t addr, size_t len, size_t pos, int owner)
{
    if (g_ns == MAXS) vc_end();
    g_addr[g_ns] = addr; g_len[g_ns] = len; g_pos[g_ns] = pos; g_owner[g_ns] = owner; g_ns++;
#ifdef VC_NATIVE
    for (size_t i = 0; i < len; i++)
    {
        size_t a = addr + i;
        *(unsigned char *)a = tag(pos + i);
        if (g_ring && a >= g_ring && a < g_ring + 2*g_ringlen) *(unsigned char *)(a >= g_ring + g_ringlen ? a - g_ringlen : a + g_ringlen) = tag(pos + i);
    }
#endif
}
static void gone(int owner)
{
    for (int i = 0; i < g_ns; i++) if (g_owner[i] == owner)
    {
#ifdef VC_NATIVE
        for (size_t k = 0; k < g_len[i]; k++)
        {
            size_t a = g_addr[i] + k;
            *(unsigned char *)a = 0;
            if (g_ring && a >= g_ring && a < g_ring + 2*g_ringlen) *(unsigned char *)(a >= g_ring + g_ringlen ? a - g_ringlen : a + g_ringlen) = 0;
        }
#endif
        g_len[i] = 0;
    }
}
#ifndef VC_NATIVE
static size_t at(size_t a, size_t from, int i, size_t r) { return bool((a >= from) & (a < from + g_len[i])) ? g_pos[i] + (a - from) : r; }
static size_t where(size_t a)
{
    size_t r = ~size_t(0);
    for (int i = 0; i < g_ns; i++)
    {
        r = at(a, g_addr[i], i, r);
        if (g_ringlen && g_owner[i] < 100) { r = at(a, g_addr[i] + g_ringlen, i, r); r = at(a + g_ringlen, g_addr[i], i, r); }
    }
    return r;
}
static int g_pools;
static void vc_copied(size_t dst, size_t src, size_t n)
{
    // what the destination holds afterwards: the stream bytes of the source, if they are consecutive there
    const size_t pos = where(src);
    const size_t k = vc_in("copied", 0, size_t(1) << 44); if (n == 0) return; vc_assume(k < n);
    vc_assert(where(src + k) == pos + k, "only stream bytes are copied, in order");
    if (g_ns == MAXS) vc_end();
    g_addr[g_ns] = dst; g_len[g_ns] = n; g_pos[g_ns] = pos; g_ns++;
    for (int i = 0; i < g_pools; i++) if (dst - region(4 + i) < size_t(1) << 50) { g_owner[g_ns-1] = 100 + i; return; }
    vc_assert(false, "copies go to the pool");
}
#endif
static void holds(size_t addr, size_t len, size_t pos)
{
    if (len == 0) return;
#ifdef VC_NATIVE
    for (size_t i = 0; i < len; i++) vc_assert(((unsigned char *)addr)[i] == tag(pos + i), "the front holds the next bytes of the stream");
#else
    const size_t p = vc_in("p", 0, size_t(1) << 44); vc_assume(p < len);
    vc_assert(where(addr + p) == pos + p, "the front holds the next bytes of the stream");
#endif
}
// ---- memory
struct Freed { int owner; void operator()(void *) { gone(owner); } };
#ifdef VC_NATIVE
static int g_pools;
#endif
static SharedBuffer stub_make(const size_t bytes, const long)
{
    room(bytes);
    const int k = g_pools++;
    return SharedBuffer(region(4 + k), bytes, std::shared_ptr<void>((void *)8, Freed{100 + k}));
}
VC_CONTRACT(sb_make, ".", "^Pothos::SharedBuffer::make\\(", stub_make)
#ifdef VC_NATIVE
SharedBuffer Pothos::SharedBuffer::make(const size_t n, const long a) { return stub_make(n, a); }
SharedBuffer Pothos::SharedBuffer::makeCircUnprotected(const size_t, const long) { throw 1; }
#endif
static size_t g_slab;
static SharedBuffer slab(const Pothos::BufferManagerArgs &a, bool circ)
{
    const size_t bytes = a.bufferSize*a.numBuffers;
    SharedBuffer b(g_slab = region(0), bytes, std::shared_ptr<void>((void *)8, Freed{99}));
    if (circ) { b._alias = g_slab + bytes; g_ring = g_slab; g_ringlen = bytes; }
    return b;
}
static SharedBuffer flat(const Pothos::BufferManagerArgs &a) { return slab(a, false); }
static SharedBuffer ring(const Pothos::BufferManagerArgs &a) { return slab(a, true); }

enum Kind { GENERIC, CIRCULAR, SEPARATE };
struct World
{
    const Kind kind; size_t size; Pothos::BufferManager::Sptr m; BufferAccumulator acc;
    size_t pushed, popped; int nown; size_t lastEnd; int out;
    World(Kind kind, int n): kind(kind), pushed(0), popped(0), nown(0), lastEnd(region(2)), out(0)
    {
        g_ns = 0; g_ring = g_ringlen = 0; g_pools = 0;
        size = vc_in("size", 1, size_t(1) << 40); room(size*n*2);
        if (kind == SEPARATE) return;
        m = kind == CIRCULAR ? makeCircularBufferManager() : makeGenericBufferManager();
        m->setAllocateFunction(kind == CIRCULAR ? &ring : &flat);
        m->setCallback([this](const ManagedBuffer &b) { gone((int)b.getSlabIndex()); out--; m->push(b); });
        Pothos::BufferManagerArgs a; a.numBuffers = n; a.bufferSize = size;
        m->init(a);
    }
    // the next chunk of the stream, as a producer makes it
    BufferChunk next(bool whole)
    {
        BufferChunk c; size_t k;
        if (kind == SEPARATE)
        {
            const size_t L = vc_in("length", 1, size_t(1) << 40), off = vc_in("offset", 0, size_t(1) << 40); k = vc_in("bytes", 1, size_t(1) << 40);
            vc_assume(k <= L); vc_assume(off <= L - k); room(L);
            // anywhere else in memory, or right behind the previous buffer
            const bool adjacent = vc_split(vc_bool("adjacent"));
            if (adjacent) vc_assume(off == 0);
            const size_t base = adjacent ? lastEnd : lastEnd + vc_in("gap", 1, 1 << 20);
            lastEnd = base + L; nown++;
#ifdef VC_NATIVE
            vc_assume(lastEnd <= region(4));
#endif
            c = BufferChunk(SharedBuffer(base, L, std::shared_ptr<void>((void *)8, Freed{nown})));
            c.address += off; c.length = k;
        }
        else
        {
            if (m->empty()) vc_end();
            const size_t left = m->front().length;
            k = left;
            if (!whole) { k = vc_in("bytes", 1, size_t(1) << 40); vc_assume(k <= left); }
            c = m->front(); c.length = k;
            m->pop(k);
            if (m->empty() || m->front().getManagedBuffer() != c.getManagedBuffer()) out++;
        }
        wrote(c.address, k, pushed, kind == SEPARATE ? nown : (int)c.getManagedBuffer().getSlabIndex());
        pushed += k;
        return c;
    }
    bool last;
    void push(void) { acc.push(next(false)); if (last) check(acc, popped); }
    void check(const BufferAccumulator &a, size_t from) const
    {
        const size_t avail = pushed - from;
        vc_assert(a.getTotalBytesAvailable() == avail, "bytes available are bytes pushed minus bytes popped");
        vc_assert(a.empty() == (avail == 0), "empty exactly when no bytes are left");
        const BufferChunk &f = a.front();
        vc_assert(f.length <= avail, "the front holds no more than what is there");
        vc_assert(avail == 0 || f.length != 0, "the front is not empty while bytes remain");
        holds(f.address, f.length, from);
    }
    void pop(void)
    {
        const size_t k = vc_in("pop", 1, size_t(1) << 44); vc_assume(k <= acc.front().length);
        acc.pop(k); popped += k;
        if (last) check(acc, popped);
    }
    void require(void)
    {
        const size_t k = vc_in("need", 1, size_t(1) << 40); room(k);
        acc.require(k);
        if (!last) return;
        check(acc, popped);
        vc_assert(pushed - popped < k || acc.front().length >= k, "a requirement that can be met is met");
    }
    void op(int op)
    {
        if (op == 0) push();
        else if (popped == pushed) vc_end();
        else if (op == 1) pop();
        else require();
    }
    void drain(void)
    {
        for (int i = 0; i < 8; i++)
        {
            if (acc.empty()) break;
            const size_t k = acc.front().length;
            acc.pop(k); popped += k;
            check(acc, popped);
        }
        vc_assert(acc.empty(), "everything can be popped");
        vc_assert(out == 0, "consumed buffers go back");
    }
};
// Every history of one push and up to three further operations; each is checked at its last operation and by draining what
// is left (what holds after an earlier operation is what the shorter history shows).
static void history(Kind k, int n, int ops, int first = -1, int second = -1, int third = -1)
{
    World w(k, n);
    w.last = false; w.push();
    for (int i = 0; i < ops; i++)
    {
        w.last = i + 1 == ops;
        w.op(i == 0 && first >= 0 ? first : i == 1 && second >= 0 ? second : i == 2 && third >= 0 ? third : pick("op", 0, 2));
    }
    w.last = true;
    w.drain();
}
#define HISTORIES(name, kind, n, T) \
VC_PROOF(name##_one) { history(kind, n, 1); vc_cover("end"); } \
VC_PROOF(name##_push) { history(kind, n, 2, 0); vc_cover("end"); } \
VC_PROOF(name##_pop) { history(kind, n, 2, 1); vc_cover("end"); } \
VC_PROOF(name##_require) { history(kind, n, 2, 2); vc_cover("end"); } \
VC_PROOF(name##_push_push##T) { history(kind, n, 3, 0, 0); vc_cover("end"); } \
VC_PROOF(name##_push_pop) { history(kind, n, 3, 0, 1); vc_cover("end"); } \
VC_PROOF(name##_push_require_push##T) { history(kind, n, 3, 0, 2, 0); vc_cover("end"); } \
VC_PROOF(name##_push_require_pop) { history(kind, n, 3, 0, 2, 1); vc_cover("end"); } \
VC_PROOF(name##_push_require_require##T) { history(kind, n, 3, 0, 2, 2); vc_cover("end"); } \
VC_PROOF(name##_pop_push) { history(kind, n, 3, 1, 0); vc_cover("end"); } \
VC_PROOF(name##_pop_pop) { history(kind, n, 3, 1, 1); vc_cover("end"); } \
VC_PROOF(name##_pop_require) { history(kind, n, 3, 1, 2); vc_cover("end"); } \
VC_PROOF(name##_require_push##T) { history(kind, n, 3, 2, 0); vc_cover("end"); } \
VC_PROOF(name##_require_pop) { history(kind, n, 3, 2, 1); vc_cover("end"); } \
VC_PROOF(name##_require_require) { history(kind, n, 3, 2, 2); vc_cover("end"); }
// the longest ones are left to the thorough tier
HISTORIES(generic, GENERIC, 2, _thorough)
HISTORIES(circular, CIRCULAR, 2, _thorough)
HISTORIES(separate, SEPARATE, 1, _thorough)
// a chunk that spans several buffers, taken from one accumulator and passed on to another
static void spanned(Kind kind, int op)
{
    World w(kind, 2);
    {
        BufferAccumulator up;
        up.push(w.next(true));
        up.push(w.next(false));
        BufferChunk c = up.front();
        if (c.length != w.pushed) vc_end();
        const size_t skip = vc_in("skip", 0, size_t(1) << 40); vc_assume(skip < c.length);
        c.address += skip; c.length -= skip; w.popped = skip;
        w.acc.push(std::move(c));
    }
    w.last = true;
    w.check(w.acc, w.popped);
    w.op(op);
    w.drain();
}
VC_PROOF(spanned_pop) { spanned(GENERIC, 1); vc_cover("end"); }
VC_PROOF(spanned_require) { spanned(GENERIC, 2); vc_cover("end"); }
VC_PROOF(spanned_ring_pop_thorough) { spanned(CIRCULAR, 1); vc_cover("end"); }
VC_PROOF(spanned_ring_require_thorough) { spanned(CIRCULAR, 2); vc_cover("end"); }
