// Contracts of the buffer managers (lib/Framework/Builtin/GenericBufferManager.cpp, CircularBufferManager.cpp,
// lib/Framework/BufferManager.cpp, include/Pothos/Framework/BufferManager.hpp).
// Every abstract state (whose turn it is, which buffers are out, which came back early, how much of the front is used)
// is reached through the public interface, then any two operations are checked against the contract.
#include "stdpre.h"
#define private public
#define protected public
#include "Framework/SharedBuffer.cpp"
#include <Pothos/Framework/BufferChunk.hpp>
#include <Pothos/Framework/BufferManager.hpp>
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "Framework/ManagedBuffer.cpp"
#include "Framework/BufferManager.cpp"
#include "noreg.h"
#include "Framework/BufferChunk.cpp"
#include "Framework/Builtin/GenericBufferManager.cpp"
#include "Framework/Builtin/CircularBufferManager.cpp"
#undef private
#undef protected
#include "vc.h"
using Pothos::SharedBuffer; using Pothos::BufferChunk; using Pothos::ManagedBuffer;
static void nodelete(void *) {}
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }
static size_t g_base, g_len; static bool g_circ; static int g_allocs;
static SharedBuffer slab(const size_t bytes, bool circ)
{
    g_allocs++; g_len = bytes; g_circ = circ;
    SharedBuffer b(g_base, bytes, std::shared_ptr<void>((void *)8, &nodelete));
    if (circ) b._alias = g_base + bytes;
    return b;
}
// assumed: the allocators return memory of the requested length (mapped twice in a row, for a circular one)
static SharedBuffer stub_make(const size_t bytes, const long) { return slab(bytes, false); }
static SharedBuffer stub_makeCirc(const size_t bytes, const long) { return slab(bytes, true); }
VC_CONTRACT(sb_make, ".", "^Pothos::SharedBuffer::make\\(", stub_make)
VC_CONTRACT(sb_circ, ".", "^Pothos::SharedBuffer::makeCirc\\(", stub_makeCirc)
#ifdef VC_NATIVE
static SharedBuffer custom(const Pothos::BufferManagerArgs &a) { return slab(a.bufferSize*a.numBuffers, g_circ); }
#endif
VC_OPT(all, "generic|circular", "bounded lia deadline=600")

enum { MAXN = 3, MAXT = 8 };
struct World
{
    const bool circ; const int n; size_t size;
    Pothos::BufferManager::Sptr m;
    // specification state
    int turn;                   // the buffer whose turn it is
    bool in[MAXN];              // buffer i is with the manager
    size_t used;                // bytes of the front buffer already taken
    size_t pos;                 // bytes taken before the front buffer
    size_t front;               // circular: where the front begins in the ring
    int nt; BufferChunk *t[MAXT]; size_t off[MAXT], len[MAXT], at[MAXT]; int slot[MAXT]; // chunks held by users
    World(bool circ, int n, bool token = false): circ(circ), n(n), turn(0), used(0), pos(0), front(0), nt(0)
    {
        g_allocs = 0; g_circ = circ;
        size = token ? 0 : vc_in("size", 1, size_t(1) << 40);
        g_base = vc_in("base", 4096, size_t(1) << 46);
        for (int i = 0; i < MAXN; i++) in[i] = i < n;
        m = circ ? makeCircularBufferManager() : makeGenericBufferManager();
#ifdef VC_NATIVE
        m->setAllocateFunction(&custom);
#endif
        Pothos::BufferManagerArgs a; a.numBuffers = n; a.bufferSize = size;
        vc_assert(!m->isInitialized(), "not initialised");
        m->init(a);
        vc_assert(m->isInitialized() && g_allocs == 1 && g_len == n*size, "one slab of all buffers is allocated");
        check();
    }
    bool empty(void) const { return !in[turn]; }
    void check(void) const
    {
        vc_assert(m->empty() == empty(), "empty exactly when the buffer in turn has not come back");
        if (empty()) return;
        const BufferChunk &f = m->front();
        vc_assert(bool(f), "a non-empty manager offers a buffer");
        vc_assert(f.getManagedBuffer().getSlabIndex() == (size_t)turn, "buffers are offered in turn");
        vc_assert(f.length == size - used, "what is left of the buffer in turn is offered");
        vc_assert(f.getManagedBuffer().getBufferManager() == m, "a buffer that returns to this manager");
        const size_t o = f.address - g_base;
        if (circ)
        {
            const size_t want = front + used;
            vc_assert(o == want || o == want - g_len || o == want + g_len, "offered memory follows what was taken, around the ring");
            vc_assert(o + f.length <= 2*g_len, "inside the two mappings");
            vc_assert(f.getAlias() != 0, "both mappings are known");
        }
        else
        {
            vc_assert(o == turn*size + used, "each buffer has its own part of the slab");
        }
        vc_assert(f.getBuffer().getAddress() <= f.address && f.getBuffer().getEnd() >= f.getEnd(), "the offered range lies in the buffer's memory");
        // positions count every byte ever taken: in the ring, a held range is reached again one slab length later
        for (int i = 0; i < nt; i++) if (t[i])
        {
            if (circ) vc_assert(pos + used + f.length <= at[i] + g_len, "no byte that is still held is offered");
            else vc_assert(off[i] + len[i] <= o || o + f.length <= off[i], "no byte that is still held is offered");
        }
    }
    // takes k bytes of the front
    void take(size_t k)
    {
        BufferChunk *c = new BufferChunk(m->front());
        c->length = k;
        t[nt] = c; off[nt] = c->address - g_base; len[nt] = k; at[nt] = pos + used; slot[nt] = turn; nt++;
        const size_t before = c->address;
        m->pop(k);
        // the manager may go on offering the rest of the buffer, or leave it
        bool stays = false;
        if (!m->empty() && m->front().getManagedBuffer() == c->getManagedBuffer()) stays = true;
        vc_assert(!(size > 0 && stays && used + k == size), "a used up buffer is not offered");
        if (stays) { vc_assert(m->front().address == before + k, "continues right after the taken bytes"); used += k; }
        else { pos += used + k; front = front + used + k; if (circ && front >= g_len) front -= g_len; used = 0; in[turn] = false; turn = (turn + 1) % n; }
        check();
    }
    bool held(int s) const { for (int i = 0; i < nt; i++) if (t[i] && slot[i] == s) return true; return false; }
    void drop(int i)
    {
        const int s = slot[i];
        delete t[i]; t[i] = nullptr;
        // gone from the users: back with the manager, unless the manager still offers it
        if (!held(s)) in[s] = true;
        check();
    }
    size_t some(void) { const size_t k = vc_u64("bytes"); vc_assume(k >= 1); vc_assume(k <= size - used); return k; }
    void any(void)
    {
        const int op = pick("op", 0, nt);
        if (op == nt) { if (empty()) vc_end(); take(size == 0 ? 0 : some()); }
        else { if (!t[op]) vc_end(); drop(op); }
    }
    // everything comes back: then every buffer is offered again in turn
    void drain(void)
    {
        for (int i = 0; i < nt; i++) if (t[i]) drop(i);
        bool seen[MAXN] = {false, false, false};
        for (int k = 0; k < n; k++)
        {
            vc_assert(!m->empty(), "everything that came back is available");
            seen[m->front().getManagedBuffer().getSlabIndex()] = true;
            BufferChunk c(m->front());
            m->pop(c.length);
            new BufferChunk(c);
        }
        vc_assert(m->empty(), "and nothing else");
        for (int k = 0; k < n; k++) vc_assert(seen[k], "each buffer once");
    }
};
static void history(bool circ, int n, bool token, int ops, int r0 = 0, int r1 = MAXN - 1)
{
    World w(circ, n, token);
    const int rot = pick("rotate", r0, r1 < n ? r1 : n-1);
    for (int i = 0; i < rot; i++) { w.take(w.size); w.drop(w.nt-1); w.nt = 0; }
    const int out = pick("out", 0, n);
    for (int i = 0; i < out; i++) w.take(w.size);
    for (int i = 0; i < out; i++) if (vc_split(vc_bool("returned"))) w.drop(i);
    if (!token && !w.empty() && vc_split(vc_bool("partial"))) w.take(w.some());
    for (int i = 0; i < ops; i++) w.any();
    w.drain();
}
VC_PROOF(generic1) { history(false, 1, false, 2); vc_cover("end"); }
VC_PROOF(generic2) { history(false, 2, false, 2); vc_cover("end"); }
VC_PROOF(generic3) { history(false, 3, false, 1); vc_cover("end"); }
VC_PROOF(generic_tokens) { history(false, 2, true, 2); vc_cover("end"); }
VC_PROOF(circular1) { history(true, 1, false, 2); vc_cover("end"); }
VC_PROOF(circular2) { history(true, 2, false, 2, 0, 0); vc_cover("end"); }
VC_PROOF(circular2_turned) { history(true, 2, false, 2, 1, 1); vc_cover("end"); }
VC_PROOF(circular3) { history(true, 3, false, 1, 0, 0); vc_cover("end"); }
VC_PROOF(circular3_turned1) { history(true, 3, false, 1, 1, 1); vc_cover("end"); }
VC_PROOF(circular3_turned2) { history(true, 3, false, 1, 2, 2); vc_cover("end"); }
