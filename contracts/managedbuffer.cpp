// Contracts of ManagedBuffer handles and of BufferChunk's chained references
// (include/Pothos/Framework/ManagedBuffer.hpp, lib/Framework/ManagedBuffer.cpp,
//  include/Pothos/Framework/BufferChunk.hpp, lib/Framework/BufferChunk.cpp).
// State: up to two handles x, y on impls p, q (or null), each with any number of further handles elsewhere;
// the manager may be alive or gone. Ghost: what the manager was given back, and how often.
#include "stdpre.h"
#define private public
#define protected public
#include "Framework/SharedBuffer.cpp"
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "Framework/ManagedBuffer.cpp"
#include "Framework/BufferManager.cpp"
#include "noreg.h"
#include "Framework/BufferChunk.cpp"
#undef private
#undef protected
#include "vc.h"
using Pothos::SharedBuffer;
using Pothos::BufferChunk;
using Pothos::ManagedBuffer;
typedef ManagedBuffer::Impl Impl;
static void nodelete(void *) {}


// a manager that records what comes back
static int g_back[4];           // ghost: how often impl i was given back
static Impl *g_impl[4];
struct Mgr : Pothos::BufferManager
{
    int back; Mgr(void): back(0) {}
    bool empty(void) const { return true; }
    void pop(const size_t) {}
    void push(const ManagedBuffer &b) { for (int i = 0; i < 4; i++) if (g_impl[i] == b._impl) g_back[i]++; back++; }
};
// any state of three buffers p0 -> p1 -> p2 -> (nothing | p0) with e[i] handles elsewhere
struct World
{
    std::shared_ptr<Mgr> m;
    Impl *p[3]; int e[3];
    bool managed, ring, sh;
    World(bool chain = false): m(std::make_shared<Mgr>())
    {
        managed = vc_bool("managed");
        ring = chain && vc_bool("ring");
        for (int i = 0; i < 4; i++) { g_back[i] = 0; g_impl[i] = nullptr; }
        for (int i = 0; i < 3; i++)
        {
            e[i] = 0;
            if (i == 0 || !chain) sh = vc_split(vc_bool("shared"));
            if (sh) e[i] = (int)vc_in("others", 1, 1000);
            p[i] = g_impl[i] = new Impl();
            p[i]->counter = e[i];
            p[i]->buffer = SharedBuffer(4096*(i+1), 64, std::shared_ptr<void>((void *)8, &nodelete));
            p[i]->slabIndex = i;
            if (managed) p[i]->weakManager = m;
        }
        if (chain) { p[0]->nextBuffer = p[1]; p[1]->nextBuffer = p[2]; p[2]->nextBuffer = ring ? p[0] : nullptr; }
    }
    // after an operation: handles[i] is the number of handles on buffer i that the proof holds, before and now
    void check(int i, int before, int now) const
    {
        const bool gone = before + e[i] > 0 && now + e[i] == 0;
        if (managed)
        {
            vc_assert(g_back[i] == (gone ? 1 : 0), "given back to the manager exactly once, when and only when the last handle is gone");
            vc_assert(!vc_freed(p[i]), "a managed buffer is not freed");
        }
        else
        {
            vc_assert(g_back[i] == 0, "nothing is given to a manager that is gone");
            vc_assert(vc_freed(p[i]) == gone, "freed exactly when the last handle is gone and there is no manager");
        }
        if (!vc_freed(p[i])) vc_assert(p[i]->counter == now + e[i], "the use count is the number of handles");
    }
    void clean(void) { for (int i = 0; i < 3; i++) if (!vc_freed(p[i])) { p[i]->counter = 1; p[i]->weakManager.reset(); p[i]->decr(); } }
};
static ManagedBuffer *hold(World &w, int i)
{
    ManagedBuffer *h = new ManagedBuffer();
    h->_impl = i < 0 ? nullptr : w.p[i];
    if (i >= 0) w.p[i]->counter = w.p[i]->counter + 1;
    return h;
}
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }

VC_PROOF(make)
{
    SharedBuffer b(vc_u64("address"), vc_u64("length"), std::shared_ptr<void>((void *)8, &nodelete));
    ManagedBuffer n;
    vc_assert(!n && n.useCount() == 0 && !n.unique() && !n.getBuffer(), "a null handle holds nothing");
    {
        ManagedBuffer x(b);
        vc_assert(bool(x) && x.unique() && x.useCount() == 1, "a fresh buffer has one handle");
        vc_assert(x.getBuffer() == b && x.getBuffer().getAddress() == b.getAddress() && x.getBuffer().getLength() == b.getLength(), "holds the memory it was made from");
        vc_assert(b.useCount() == 2, "keeps the memory alive");
        ManagedBuffer y(x);
        vc_assert(x == y && x != n && x.useCount() == 2 && !x.unique() && !y.unique(), "copies are handles to the same buffer");
    }
    vc_assert(b.unique(), "the memory is released with the last handle");
    vc_cover("end");
}
VC_PROOF(make_managed)
{
    World w; std::shared_ptr<Mgr> m = std::make_shared<Mgr>();
    SharedBuffer b(vc_u64("address"), vc_u64("length"), std::shared_ptr<void>((void *)8, &nodelete));
    const size_t slab = vc_u64("slab");
    ManagedBuffer *x = new ManagedBuffer();
    x->reset(m, b, slab);
    g_impl[3] = x->_impl;
    vc_assert(x->unique() && x->getSlabIndex() == slab && x->getBuffer() == b && x->getBufferManager() == m, "a managed buffer knows its manager and slot");
    SharedBuffer c(vc_u64("address2"), vc_u64("length2"), std::shared_ptr<void>((void *)8, &nodelete));
    x->reset(m, c, slab);
    vc_assert(x->_impl == g_impl[3] && x->unique() && x->getBuffer() == c, "re-targeting keeps the token");
    vc_assert(m.use_count() == 1, "a buffer does not keep its manager alive");
    if (vc_bool("managerGone")) { m.reset(); const Impl *p = x->_impl; delete x; vc_assert(g_back[3] == 0 && vc_freed(p), "freed when the manager is gone"); vc_cover("gone"); }
    else { const Impl *p = x->_impl; delete x; vc_assert(g_back[3] == 1 && !vc_freed(p), "given back to the manager"); vc_cover("back"); }
}
VC_PROOF(make_rebound)
{
    World w; std::shared_ptr<Mgr> a = std::make_shared<Mgr>(), b = std::make_shared<Mgr>();
    SharedBuffer m(vc_u64("address"), vc_u64("length"), std::shared_ptr<void>((void *)8, &nodelete));
    const size_t slab = vc_u64("slab");
    const int from = pick("from", 0, 2);    // new, a buffer with no manager, a buffer of another manager
    ManagedBuffer *x = from == 1 ? new ManagedBuffer(m) : new ManagedBuffer();
    if (from == 2) x->reset(a, m, vc_u64("slab2"));
    x->reset(b, m, slab);
    vc_assert(x->unique() && x->getSlabIndex() == slab && x->getBufferManager() == b, "a buffer knows the manager and slot it was last given");
    delete x;
    vc_assert(a->back == 0 && b->back == 1, "given back to that manager");
    vc_cover("end");
}
VC_PROOF(copy)
{
    World w; const int i = pick("i", -1, 1);
    ManagedBuffer *x = hold(w, i);
    ManagedBuffer y(*x);
    vc_assert(y == *x && y._impl == (i < 0 ? nullptr : w.p[i]), "a copy is a handle to the same buffer");
    for (int k = 0; k < 2; k++) w.check(k, k == i, 2*(k == i));
    y._impl = nullptr;
    vc_cover("end");
}
VC_PROOF(move)
{
    World w; const int i = pick("i", -1, 1);
    ManagedBuffer *x = hold(w, i);
    ManagedBuffer y(std::move(*x));
    vc_assert(y._impl == (i < 0 ? nullptr : w.p[i]) && !*x, "a move hands the handle over");
    for (int k = 0; k < 2; k++) w.check(k, k == i, k == i);
    y._impl = nullptr;
    vc_cover("end");
}
VC_PROOF(destroy)
{
    World w; const int i = pick("i", -1, 1);
    ManagedBuffer *x = hold(w, i);
    delete x;
    for (int k = 0; k < 2; k++) w.check(k, k == i, 0);
    vc_cover("end");
}
VC_PROOF(reset)
{
    World w; const int i = pick("i", -1, 1);
    ManagedBuffer *x = hold(w, i);
    x->reset();
    vc_assert(!*x, "a reset handle is null");
    for (int k = 0; k < 2; k++) w.check(k, k == i, 0);
    vc_cover("end");
}
VC_PROOF(copy_assign)
{
    World w; const int i = pick("i", -1, 1), j = pick("j", -1, 1);
    ManagedBuffer *x = hold(w, i), *y = hold(w, j);
    *x = *y;
    vc_assert(*x == *y && y->_impl == (j < 0 ? nullptr : w.p[j]), "assignment makes a handle to the same buffer");
    for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), 2*(k == j));
    vc_cover("end");
}
VC_PROOF(self_assign)
{
    World w; const int i = pick("i", -1, 1);
    ManagedBuffer *x = hold(w, i);
    ManagedBuffer &r = *x;
    *x = r;
    vc_assert(x->_impl == (i < 0 ? nullptr : w.p[i]), "self assignment changes nothing");
    for (int k = 0; k < 2; k++) w.check(k, k == i, k == i);
    vc_cover("end");
}
VC_PROOF(move_assign)
{
    World w; const int i = pick("i", -1, 1), j = pick("j", -1, 1);
    ManagedBuffer *x = hold(w, i), *y = hold(w, j);
    *x = std::move(*y);
    vc_assert(x->_impl == (j < 0 ? nullptr : w.p[j]), "the handle is handed over");
    const int left = y->_impl == nullptr ? 0 : y->_impl == w.p[0] ? 1 : 2;
    for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), (k == j) + (left == k+1));
    vc_cover("end");
}
VC_PROOF(next)
{
    World w; const int i = pick("i", 0, 1), j = pick("j", -1, 1);
    ManagedBuffer *x = hold(w, i), *y = hold(w, j);
    x->setNextBuffer(*y);
    {
        ManagedBuffer z = x->getNextBuffer();
        vc_assert(z == *y, "the next buffer is the one set");
        for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), (k == i) + 2*(k == j));
    }
    for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), (k == i) + (k == j));
    vc_cover("end");
}

// ---- chunks covering a chain of buffers: handles a chunk holds on buffer i ----
struct Chunk
{
    int first; int extra;          // starts in buffer 'first', reaches into 'extra' following buffers
    union { BufferChunk c; };
    int handles(const World &w, int i) const
    {
        if (first < 0) return 0;
        int n = first == i, at = first;
        for (int k = 0; k < extra; k++) { at = at == 2 ? (w.ring ? 0 : -1) : at+1; if (at < 0) break; n += at == i; }
        return n;
    }
    // a chunk as the public constructors and the accumulator leave it
    Chunk(World &w, int lastFirst = 1, int mostExtra = 3): first(-1), extra(0)
    {
        first = pick("first", -1, lastFirst);
        new (&c) BufferChunk();
        if (first < 0) return;
        int most = w.ring ? 3 : 2 - first; if (most > mostExtra) most = mostExtra;
        extra = pick("extra", 0, most);
        c._managedBuffer._impl = w.p[first];
        const size_t off = vc_in("off", 0, 63);
        c.address = 4096*(first+1) + off;
        c.length = extra == 0 ? vc_in("len", 0, 64 - off) : 64*(extra-1) + 64 - off + vc_in("len", 1, 64);
        c._nextBuffers = extra;
        w.p[first]->incr();
        Impl *q = w.p[first];
        for (int k = 0; k < extra; k++) { q = q->nextBuffer; q->incr(); }
    }
    ~Chunk(void) {}
};
static bool same(const BufferChunk &a, size_t address, size_t length, const Impl *impl)
{
    return a.address == address && a.length == length && a._managedBuffer._impl == impl;
}
VC_PROOF(chunk_copy)
{
    World w(true); Chunk x(w);
    const size_t a = x.c.address, l = x.c.length; Impl *p = x.c._managedBuffer._impl;
    {
        BufferChunk y(x.c);
        vc_assert(same(y, a, l, p) && same(x.c, a, l, p), "a copy covers the same range");
        vc_assert(x.c.useCount() == y.useCount(), "use count is shared");
        for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), 2*x.handles(w, k));
    }
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), x.handles(w, k));
    x.c.clear();
    vc_assert(same(x.c, 0, 0, nullptr), "clear drops the range");
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), 0);
    vc_cover("end");
}
VC_PROOF(chunk_move)
{
    World w(true); Chunk x(w);
    const size_t a = x.c.address, l = x.c.length; Impl *p = x.c._managedBuffer._impl;
    {
        BufferChunk y(std::move(x.c));
        vc_assert(same(y, a, l, p) && same(x.c, 0, 0, nullptr), "a move hands the range over");
        for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), x.handles(w, k));
    }
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), 0);
    vc_cover("end");
}
VC_PROOF(chunk_copy_assign)
{
    World w(true); Chunk x(w, 0, 2), y(w, 1, 2);   // by symmetry of the ring the first chunk starts in buffer 0
    const size_t a = y.c.address, l = y.c.length; Impl *p = y.c._managedBuffer._impl;
    x.c = y.c;
    vc_assert(same(x.c, a, l, p) && same(y.c, a, l, p), "assignment covers the same range");
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k) + y.handles(w, k), 2*y.handles(w, k));
    vc_cover("end");
}
VC_PROOF(chunk_self_assign)
{
    World w(true); Chunk x(w);
    const size_t a = x.c.address, l = x.c.length; Impl *p = x.c._managedBuffer._impl;
    BufferChunk &r = x.c;
    x.c = r;
    vc_assert(same(x.c, a, l, p), "self assignment changes nothing");
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k), x.handles(w, k));
    vc_cover("end");
}
VC_PROOF(chunk_move_assign)
{
    World w(true); Chunk x(w, 0, 2), y(w, 1, 2);   // by symmetry of the ring the first chunk starts in buffer 0
    const size_t a = y.c.address, l = y.c.length; Impl *p = y.c._managedBuffer._impl;
    x.c = std::move(y.c);
    vc_assert(same(x.c, a, l, p) && same(y.c, 0, 0, nullptr), "the range is handed over");
    for (int k = 0; k < 3; k++) w.check(k, x.handles(w, k) + y.handles(w, k), y.handles(w, k));
    vc_cover("end");
}
VC_OPT(chunks, "vcproof_chunk", "bounded deadline=300")

// ---- the count under interference: other threads copy and drop their handles at any moment ----
static Impl *volatile g_p;
static volatile int g_others;          // ghost: handles of other threads
static volatile bool g_gone;           // ghost: another thread dropped the last handle
static int &count(void) { return *(int *)&g_p->counter; }
static void env(void)
{
    // others copy and drop handles in any number while any handle exists; nobody can copy from no handle
    const int o = (int)vc_in("o", 0, 1000), c = count();
    const int mine = c - g_others;
    const int n = c > 0 ? o : 0;
    count() = mine + n;
    g_gone = g_gone | ((c > 0) & (mine + n == 0));
    g_others = n;
}
#ifdef VC_NATIVE
// four threads copy and drop handles of one buffer; it must come back exactly once, at the end
static void stress(void)
{
    World w; vc_assume(w.managed);
    for (int round = 0; round < 20; round++)
    {
        g_back[0] = 0;
        w.p[0]->counter = 4;
        std::vector<std::thread> t;
        std::atomic<bool> bad(false);
        std::atomic<int> atgate(0);
        for (int k = 0; k < 4; k++) t.emplace_back([&] {
            ManagedBuffer h; h._impl = w.p[0];
            atgate++; while (atgate < 4) {}
            for (int i = 0; i < 500; i++) { ManagedBuffer c(h); ManagedBuffer d; d = c; if (g_back[0]) bad = true; }
        });
        for (auto &x : t) x.join();
        vc_assert(!bad && g_back[0] == 1 && w.p[0]->counter == 0, "given back exactly once, after the last handle, whatever other threads do");
    }
}
#endif
static Impl *live(World &w)
{
    g_others = w.e[0]; g_gone = false;
    w.p[0]->counter = w.e[0] + 1;
    g_p = w.p[0];
    vc_set_env(env); vc_sync(true);
    return w.p[0];
}
VC_PROOF(shared_copy)
{
#ifdef VC_NATIVE
    stress();
#endif
    World w; Impl *p = live(w);
    p->incr();
    vc_set_env(nullptr);
    vc_assert(g_back[0] == 0 && !g_gone && count() - g_others == 2, "a copy adds one handle whatever other threads do");
    vc_cover("end");
}
VC_PROOF(shared_drop)
{
#ifdef VC_NATIVE
    stress();
#endif
    World w; Impl *p = live(w);
    vc_assume(w.managed);
    p->decr();
    vc_set_env(nullptr);
    const unsigned sync = vc_sync(false);
    vc_assert(count() - g_others == 0, "exactly one handle is dropped whatever other threads do");
    vc_assert(sync & 2, "dropping a handle publishes this thread's accesses (release)");
    if (g_back[0]) { vc_assert(sync & 1, "the last handle's owner sees the others' accesses (acquire)"); vc_cover("last"); }
    vc_assert(g_back[0] <= 1, "given back at most once");
    vc_assert(g_back[0] == 0 || (count() == 0 && !g_gone), "given back only when no handle is left, by the thread that dropped the last one");
    vc_assert(g_back[0] == 1 || count() > 0 || g_gone, "given back when no handle is left");
    vc_cover("end");
}
