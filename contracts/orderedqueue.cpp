// Contracts of Pothos::Util::OrderedQueue (include/Pothos/Util/OrderedQueue.hpp).
// Abstract view: window of N indexes, next index in turn A, set F of indexes pushed ahead of turn,
// sequence R of released items. Items are 64-bit values.
#include <cstdint>
#include <cstdlib>
#include <memory>
#include <cassert>
#include <vector>
#include <utility>
#define private public
#include <Pothos/Util/RingDeque.hpp>
#include <Pothos/Util/OrderedQueue.hpp>
#undef private
#include "stdabi.h"
#include "vc.h"
struct Item
{
    uint64_t v;
    Item(void): v(0) {}
    Item(uint64_t x): v(x) {}
};
typedef Pothos::Util::OrderedQueue<Item> OQ;
typedef std::pair<Item, bool> Slot;
static const size_t LIM = 1ull << 20;
static const size_t MAXRUN = 4;          // bound: items released by one push (window size unbounded)

struct AnyQueue
{
    union { OQ q; };
    size_t N, A, nready;
    Slot *slots;
    AnyQueue(void)
    {
        N = vc_in("N", 1, LIM);
        A = vc_in("A", 0, N-1);
#ifndef VC_NATIVE
        // case split on the distance of the turn to the end of the window
        const size_t room = N - A;
        if (vc_split(room <= MAXRUN+1)) A = N - vc_concretize(room);
#endif
        nready = vc_in("nready", 0, N);
#ifdef VC_NATIVE
        vc_assume(N < 4096);
        // reach the state through the public interface
        Slot *want = (Slot *)vc_alloc(N*sizeof(Slot), sizeof(Slot), "slots");
        Item *rdy = (Item *)vc_alloc((N)*sizeof(Item), sizeof(Item), "ready");
        size_t mask = 0; while (mask+1 < N) mask = mask*2+1;
        new (&q) OQ(N);
        const size_t start = (A + 2*N - nready) % N;
        for (size_t i = 0; i < start; i++) { q.push(Item(0), i); q.pop(); }
        for (size_t i = 0; i < nready; i++) q.push(rdy[i], (start+i) % N);
        slots = (Slot *)malloc(N*sizeof(Slot));
        size_t outstanding = nready;
        for (size_t i = 0; i < N; i++)
        {
            slots[i].first = want[i].first;
            slots[i].second = (*(unsigned char *)&want[i].second & 1) && i != A;
            // an index is outstanding once: indexes of items still waiting to be popped are not pushed again
            if ((i + N - start) % N < nready) slots[i].second = false;
        }
        for (size_t i = 0; i < N; i++) if (slots[i].second) q.push(slots[i].first, i);
        (void)outstanding;
#else
        slots = (Slot *)vc_alloc(N*sizeof(Slot), sizeof(Slot), "slots");
        q._indexToAck = A;
        vec_set(q._pushedElems, slots, N);
        Pothos::Util::RingDeque<Item> &r = q._readyElems;
        // the ring of released items starts at position 0 of an over-sized ring: C01 proves that the ring
        // behaves as a sequence at every position and size
        const size_t mask = 2*LIM-1;
        r._mask = mask; r._capacity = N;
        r._frontIndex = 0;
        r._numElements = nready;
        r._container = (Item *)vc_alloc((mask+1)*sizeof(Item), sizeof(Item), "ready");
        vc_assume(!parked(A));       // invariant: the index in turn is not parked
#endif
    }
    ~AnyQueue(void) {}
    bool parked(size_t i) const { const unsigned char b = *(const volatile unsigned char *)&slots[i].second; vc_assume(b <= 1); return b == 1; }
};
static size_t wrap(size_t i, size_t N) { if (vc_split(i == N)) return 0; return i; }

VC_PROOF(construct)
{
    const size_t cap = vc_in("cap", 1, 4);
    OQ q(vc_concretize(cap));
    vc_assert(q.empty(), "starts empty");
    vc_assert(q.capacity() == cap, "capacity as requested");
    const size_t i = vc_concretize(vc_in("i", 0, cap-1));
    const uint64_t v = vc_u64("v");
    q.push(Item(v), i);
    vc_assert(q.empty() == (i != 0), "the first index in turn is 0");
    if (i == 0) vc_assert(q.front().v == v, "front is the pushed item");
    vc_cover("end");
}
VC_OPT(ctor, "vcproof_construct", "bounded")
// item pushed ahead of its turn: nothing is released, it is kept for its turn
VC_PROOF(push_ahead)
{
    AnyQueue a; OQ &q = a.q;
    const size_t i = vc_in("i", 0, a.N-1);
    vc_assume(i != a.A && !a.parked(i));
    vc_assume(a.nready < a.N);
#ifdef VC_NATIVE
    vc_assume((i + 2*a.N - ((a.A + 2*a.N - a.nready) % a.N)) % a.N >= a.nready);
#endif
    const uint64_t v = vc_u64("v");
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { vc_assume(a.nready > 0); k = vc_in("k", 0, a.nready-1); ek = q._readyElems[k].v; }
    q.push(Item(v), i);
    vc_assert(q._readyElems.size() == a.nready, "an item ahead of its turn releases nothing");
    vc_assert(q.empty() == (a.nready == 0), "empty unless an item is released");
    vc_assert(q._indexToAck == a.A, "the turn does not move");
    vc_assert(q._pushedElems[i].second && q._pushedElems[i].first.v == v, "the item is kept for its turn");
    if (has) vc_assert(q._readyElems[k].v == ek, "released items unchanged");
    const size_t j = vc_in("j", 0, a.N-1);
    vc_assume(j != i);
    vc_cover("end");
}
VC_PROOF(push_ahead_frame)
{
    AnyQueue a; OQ &q = a.q;
    const size_t i = vc_in("i", 0, a.N-1), j = vc_in("j", 0, a.N-1);
    vc_assume(i != a.A && !a.parked(i) && j != i);
    vc_assume(a.nready < a.N);
#ifdef VC_NATIVE
    vc_assume((i + 2*a.N - ((a.A + 2*a.N - a.nready) % a.N)) % a.N >= a.nready);
#endif
    const bool pj = a.parked(j);
    const uint64_t vj = a.slots[j].first.v;
    q.push(Item(vc_u64("v")), i);
    vc_assert(q._pushedElems[j].second == pj, "other parked items stay parked");
    if (pj) { vc_assert(q._pushedElems[j].first.v == vj, "other parked items keep their value"); vc_cover("parked"); }
    vc_cover("end");
}
// item pushed in turn: it and the run of parked successors are released, in order, and nothing else
VC_PROOF(push_in_turn)
{
    AnyQueue a; OQ &q = a.q;
    const size_t run = vc_concretize(vc_in("run", 0, MAXRUN));
    vc_assume(a.nready + run + 1 <= a.N);
    // the run of parked successors has length exactly 'run'
    uint64_t val[MAXRUN+1];
    const uint64_t v = vc_u64("v");
    val[0] = v;
    size_t at = a.A;
    for (size_t n = 1; n <= run; n++) { at = wrap(at+1, a.N); vc_assume(at != a.A); vc_assume(a.parked(at)); val[n] = a.slots[at].first.v; }
    const size_t stop = wrap(at+1, a.N);
    vc_assume(stop == a.A || !a.parked(stop));
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { vc_assume(a.nready > 0); k = vc_in("k", 0, a.nready-1); ek = q._readyElems[k].v; }
    // some other slot
    const size_t j = vc_in("j", 0, a.N-1);
    const size_t dist = j >= a.A ? j - a.A : j + a.N - a.A;
    const bool pj = a.parked(j);
    const uint64_t vj = a.slots[j].first.v;
    q.push(Item(v), a.A);
    vc_assert(q._readyElems.size() == a.nready + run + 1, "exactly the item in turn and its parked successors are released");
    vc_assert(!q.empty(), "not empty after a release");
    for (size_t n = 0; n <= run; n++) vc_assert(q._readyElems[a.nready + n].v == val[n], "released in index order with their values");
    if (has) { vc_assert(q._readyElems[k].v == ek, "earlier released items unchanged"); vc_cover("has"); }
    vc_assert(q._indexToAck == stop, "the turn moves past the released run");
    if (dist > run) { vc_assert(q._pushedElems[j].second == pj, "items beyond the run stay parked"); if (pj) { vc_assert(q._pushedElems[j].first.v == vj, "parked values unchanged"); vc_cover("beyond"); } }
    else vc_assert(!q._pushedElems[j].second, "released slots are free for the next round");
    vc_cover("end");
}
VC_OPT(run, "vcproof_push_in_turn", "bounded deadline=500")
VC_PROOF(front_pop)
{
    AnyQueue a; OQ &q = a.q; const OQ &c = a.q;
    vc_assert(q.empty() == (a.nready == 0), "empty iff nothing released is waiting");
    vc_assert(q.capacity() == a.N, "capacity is the window size");
    vc_assume(a.nready > 0);
    const size_t k = vc_in("k", 0, a.nready-1);
    const uint64_t ek = q._readyElems[k].v;
    vc_assert(&q.front() == &c.front(), "const and mutable front agree");
    if (k == 0) vc_assert(q.front().v == ek, "front is the oldest released item");
    const size_t j = vc_in("j", 0, a.N-1);
    const bool pj = a.parked(j);
    q.pop();
    vc_assert(q._readyElems.size() == a.nready-1, "pop removes one item");
    if (k > 0) { vc_assert(q._readyElems[k-1].v == ek, "the others keep their order"); vc_cover("rest"); }
    vc_assert(q._indexToAck == a.A && q._pushedElems[j].second == pj, "pop does not touch the turn or parked items");
    vc_cover("end");
}
