// Contracts of Pothos::Util::RingDeque (include/Pothos/Util/RingDeque.hpp), all functions, any capacity,
// any ring position, any element values.  Abstract view: the sequence d[0..size).
#include <cstdint>
#include <memory>
#include <cassert>
#include <cstdlib>
#include <utility>
#define private public
#include <Pothos/Util/RingDeque.hpp>
#undef private
#include "vc.h"

static size_t g_ctor, g_dtor;           // ghost: element constructions / destructions
struct Elem
{
    uint64_t v;
    Elem(uint64_t x): v(x) { g_ctor++; }
    Elem(const Elem &o): v(o.v) { g_ctor++; }
    Elem(Elem &&o): v(o.v) { g_ctor++; }
    ~Elem(void) { g_dtor++; }
};
typedef Pothos::Util::RingDeque<Elem> RD;

static const size_t LIM = 1ull << 40;    // allocatable capacities
// an arbitrary well-formed deque over arbitrary storage
struct AnyRing
{
    union { RD d; };
    size_t n, cap;
    AnyRing(void)
    {
#ifdef VC_NATIVE
        size_t mask = vc_in("mask", 0, 31);
        while (mask & (mask+1)) mask |= mask >> 1;
#else
        const size_t mask = vc_u64("mask");
        vc_assume((mask & (mask+1)) == 0); vc_assume(mask < LIM);
#endif
        d._mask = mask;
        d._capacity = vc_in("capacity", 0, mask+1);
        d._frontIndex = vc_u64("front");
        d._numElements = vc_in("num", 0, d._capacity);
        n = d._numElements; cap = d._capacity;
        Elem *elems = (Elem *)vc_alloc((mask+1)*sizeof(Elem), sizeof(Elem), "elems");
        d._container = elems;
#ifdef VC_NATIVE
        // replay: reach the same abstract state through the public interface only
        vc_assume(mask < (1u << 16) && cap > 0);
        const size_t front = d._frontIndex & mask;
        new (&d) RD(cap);
        for (size_t i = 0; i < front; i++) { d.push_back(uint64_t(0)); d.pop_front(); }
        for (size_t i = 0; i < n; i++) d.push_back(elems[(front+i) & mask].v);
        free(elems);
#endif
        g_ctor = g_dtor = 0;
    }
    ~AnyRing(void) {}
};
static bool wf(const RD &d)
{
    return ((d._mask & (d._mask+1)) == 0) & (d._capacity <= d._mask+1) & (d._numElements <= d._capacity)
        & vc_valid(d._container, (d._mask+1)*sizeof(Elem));
}
static size_t any_index(const RD &d, size_t n)
{
    vc_assume(n > 0);
    return vc_in("k", 0, n-1);
}

// ---- nextPow2: smallest power of two >= in (complete unrolling over the 64-bit width)
static size_t nextPow2_contract(const size_t &in)
{
    vc_assert(in <= (1ull<<63), "nextPow2 precondition: representable");
    const size_t out = vc_u64("pow2");
    vc_assume(out != 0); vc_assume((out & (out-1)) == 0); vc_assume(out >= in); vc_assume(out == 1 || (out>>1) < in);
    return out;
}
VC_CONTRACT(pow2, "^vcproof_(?!nextPow2)", "^unsigned long Pothos::Util::Detail::nextPow2", nextPow2_contract)
VC_PROOF(nextPow2)
{
    const size_t in = vc_u64("in");
    vc_assume(in <= (1ull<<63));
    const size_t out = Pothos::Util::Detail::nextPow2(in);
    vc_assert(out != 0 && (out & (out-1)) == 0, "power of two");
    vc_assert(out >= in, "covers the request");
    vc_assert(out == 1 || (out>>1) < in, "smallest");
    vc_cover("end");
}

VC_PROOF(construct)
{
    const size_t cap = vc_u64("cap");
    vc_assume(cap > 0 && cap < LIM);
    RD d(cap);
    vc_assert(wf(d), "well formed");
    vc_assert(d.empty() && d.size() == 0, "starts empty");
    vc_assert(d.capacity() == cap, "capacity as requested");
    vc_assert(!d.full(), "not full");
    vc_cover("end");
}
VC_PROOF(observers)
{
    AnyRing a; RD &d = a.d; const RD &c = a.d;
    vc_assert(d.size() == a.n && d.capacity() == a.cap, "size and capacity");
    vc_assert(d.empty() == (a.n == 0), "empty iff no elements");
    vc_assert(d.full() == (a.n == a.cap), "full iff size equals capacity");
    vc_assume(a.n > 0);
    const size_t k = any_index(d, a.n);
    vc_assert(&d.front() == &d[0] && &c.front() == &c[0], "front is element 0");
    vc_assert(&d.back() == &d[a.n-1] && &c.back() == &c[a.n-1], "back is the last element");
    vc_assert(&d[k] == &c[k], "const and mutable access agree");
    const size_t j = vc_u64("j");
    vc_assume(j < a.n && j != k);
    vc_assert(&d[k] != &d[j], "distinct positions are distinct elements");
    vc_assert(vc_valid(&d[k], sizeof(Elem)), "element inside storage");
    vc_assert(d.size() == a.n && d.capacity() == a.cap && g_ctor == 0 && g_dtor == 0, "observers change nothing");
    vc_cover("end");
}
VC_PROOF(push_back)
{
    AnyRing a; RD &d = a.d;
    vc_assume(!d.full());
    const uint64_t v = vc_u64("v");
    const bool has = vc_bool("has");
    size_t k = 0; uint64_t ek = 0;
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    if (vc_bool("emplace")) { Elem &r = d.emplace_back(v); vc_assert(&r == &d.back(), "emplace returns the new element"); vc_assert(g_ctor == 1, "one construction"); }
    else { d.push_back(v); vc_assert(g_ctor == 1, "one construction"); }
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n+1, "size grows by one");
    vc_assert(d.capacity() == a.cap, "capacity unchanged");
    vc_assert(d.back().v == v, "back is the pushed element");
    if (has) vc_assert(d[k].v == ek, "other elements keep value and position");
    vc_assert(g_dtor == 0, "nothing destroyed");
    vc_cover("end");
}
VC_PROOF(push_front)
{
    AnyRing a; RD &d = a.d;
    vc_assume(!d.full());
    const uint64_t v = vc_u64("v");
    const bool has = vc_bool("has");
    size_t k = 0; uint64_t ek = 0;
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    if (vc_bool("emplace")) { Elem &r = d.emplace_front(v); vc_assert(&r == &d.front(), "emplace returns the new element"); }
    else d.push_front(v);
    vc_assert(g_ctor == 1, "one construction");
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n+1, "size grows by one");
    vc_assert(d.capacity() == a.cap, "capacity unchanged");
    vc_assert(d.front().v == v, "front is the pushed element");
    if (has) vc_assert(d[k+1].v == ek, "other elements shift back by one");
    vc_assert(g_dtor == 0, "nothing destroyed");
    vc_cover("end");
}
VC_PROOF(pop_front)
{
    AnyRing a; RD &d = a.d;
    vc_assume(a.n > 0);
    const size_t k = any_index(d, a.n);
    const uint64_t ek = d[k].v;
    d.pop_front();
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n-1, "size shrinks by one");
    vc_assert(d.capacity() == a.cap, "capacity unchanged");
    if (k > 0) { vc_assert(d[k-1].v == ek, "remaining elements keep their order"); vc_cover("rest"); }
    vc_assert(g_dtor == 1 && g_ctor == 0, "exactly one element destroyed");
    vc_cover("end");
}
VC_PROOF(pop_back)
{
    AnyRing a; RD &d = a.d;
    vc_assume(a.n > 0);
    const size_t k = any_index(d, a.n);
    const uint64_t ek = d[k].v;
    d.pop_back();
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n-1, "size shrinks by one");
    vc_assert(d.capacity() == a.cap, "capacity unchanged");
    if (k < a.n-1) { vc_assert(d[k].v == ek, "remaining elements keep their order"); vc_cover("rest"); }
    vc_assert(g_dtor == 1 && g_ctor == 0, "exactly one element destroyed");
    vc_cover("end");
}
VC_PROOF(write_element)
{
    AnyRing a; RD &d = a.d;
    vc_assume(a.n > 1);
    const size_t k = any_index(d, a.n);
    const size_t j = vc_u64("j");
    vc_assume(j < a.n && j != k);
    const uint64_t ek = d[k].v, v = vc_u64("v");
    d[j].v = v;
    vc_assert(d[j].v == v, "written element reads back");
    vc_assert(d[k].v == ek, "other elements untouched");
    vc_cover("end");
}
VC_PROOF(set_capacity)
{
    AnyRing a; RD &d = a.d;
    const size_t cap = vc_u64("cap");
    vc_assume(cap >= a.n && cap < LIM);
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    d.set_capacity(cap);
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n, "no element lost or added");
    vc_assert(d.capacity() == cap, "capacity as requested");
    if (has) { vc_assert(d[k].v == ek, "elements keep value and order"); vc_cover("has"); }
    vc_assert(g_ctor == g_dtor, "every moved-from element destroyed");
    vc_cover("end");
}
VC_PROOF(set_capacity_too_small)
{
    AnyRing a; RD &d = a.d;
    const size_t cap = vc_u64("cap");
    vc_assume(cap < a.n);
    const size_t k = any_index(d, a.n);
    const uint64_t ek = d[k].v;
    d.set_capacity(cap);
    vc_assert(d.size() == a.n && d.capacity() == a.cap && d[k].v == ek, "request smaller than the contents changes nothing");
    vc_assert(g_ctor == 0 && g_dtor == 0, "no element touched");
    vc_cover("end");
}
VC_PROOF(clear)
{
    AnyRing a; RD &d = a.d;
    d.clear();
    vc_assert(wf(d) && d.empty(), "empty afterwards");
    vc_assert(d.capacity() == a.cap, "capacity unchanged");
    vc_assert(g_dtor == a.n && g_ctor == 0, "every element destroyed exactly once");
    vc_cover("end");
}
VC_PROOF(destroy)
{
    AnyRing a; RD &d = a.d;
    void *c = d._container;
    d.~RD();
    vc_assert(g_dtor == a.n, "every element destroyed exactly once");
    vc_assert(vc_freed(c), "storage released");
    vc_cover("end");
}
VC_PROOF(copy_construct)
{
    AnyRing a; RD &d = a.d;
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    union U { RD e; U(void){} ~U(void){} } u;
    new (&u.e) RD(d);
    RD &e = u.e;
    vc_assert(wf(e) && wf(d), "well formed");
    vc_assert(e.size() == a.n && e.capacity() == a.cap, "copy has the same size and capacity");
    vc_assert(e._container != d._container, "copy has its own storage");
    if (has) { vc_assert(e[k].v == ek, "copy has the same elements in order"); vc_assert(d[k].v == ek, "source unchanged"); vc_cover("has"); }
    vc_assert(d.size() == a.n && d.capacity() == a.cap, "source size unchanged");
    vc_assert(g_ctor == a.n && g_dtor == 0, "one construction per element");
    vc_cover("end");
}
VC_PROOF(copy_assign)
{
    AnyRing a, b; RD &d = a.d; RD &s = b.d;
    vc_assume(b.cap > 0);
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(s, b.n); ek = s[k].v; }
    RD &r = (d = s);
    vc_assert(&r == &d, "returns the target");
    vc_assert(wf(d) && wf(s), "well formed");
    vc_assert(d.size() == b.n && d.capacity() == b.cap, "target takes size and capacity");
    if (has) { vc_assert(d[k].v == ek, "target has the same elements in order"); vc_assert(s[k].v == ek, "source unchanged"); vc_cover("has"); }
    vc_assert(s.size() == b.n && s.capacity() == b.cap, "source size unchanged");
    vc_assert(g_dtor == a.n && g_ctor == b.n, "old elements destroyed once, new ones constructed once");
    vc_cover("end");
}
VC_PROOF(self_assign)
{
    AnyRing a; RD &d = a.d;
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    const RD &alias = d;
    d = alias;
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == a.n && d.capacity() == a.cap, "self assignment keeps the size");
    if (has) { vc_assert(d[k].v == ek, "self assignment keeps the elements"); vc_cover("has"); }
    vc_cover("end");
}
VC_PROOF(move_construct)
{
    AnyRing a; RD &d = a.d;
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(d, a.n); ek = d[k].v; }
    union U { RD e; U(void){} ~U(void){} } u;
    new (&u.e) RD(std::move(d));
    RD &e = u.e;
    vc_assert(wf(e), "well formed");
    vc_assert(e.size() == a.n && e.capacity() == a.cap, "takes over size and capacity");
    if (has) vc_assert(e[k].v == ek, "takes over the elements in order");
    vc_assert(d.size() == 0 && d.empty(), "source is empty");
    vc_assert(g_ctor == 0 && g_dtor == 0, "no element copied or destroyed");
    void *c = e._container;
    d.~RD();
    vc_assert(!vc_freed(c) && g_dtor == 0, "destroying the source does not affect the target");
    vc_cover("end");
}
VC_PROOF(move_assign)
{
    AnyRing a, b; RD &d = a.d; RD &s = b.d;
    size_t k = 0; uint64_t ek = 0;
    const bool has = vc_bool("has");
    if (has) { k = any_index(s, b.n); ek = s[k].v; }
    void *oldc = d._container;
    RD &r = (d = std::move(s));
    vc_assert(&r == &d, "returns the target");
    vc_assert(wf(d), "well formed");
    vc_assert(d.size() == b.n && d.capacity() == b.cap, "takes over size and capacity");
    if (has) vc_assert(d[k].v == ek, "takes over the elements in order");
    vc_assert(g_dtor == a.n && g_ctor == 0, "old elements destroyed exactly once");
    vc_assert(vc_freed(oldc), "old storage released");
    vc_assert(s.size() == 0 && s.empty(), "source is empty");
    void *c = d._container;
    s.~RD();
    vc_assert(!vc_freed(c) && g_dtor == a.n, "destroying the source does not affect the target");
    vc_cover("end");
}
VC_PROOF(moved_from_reuse)
{
    AnyRing a; RD &d = a.d;
    vc_assume(a.n == 0);
    union U { RD e; U(void){} ~U(void){} } u;
    new (&u.e) RD(std::move(d));
    const size_t cap = vc_u64("cap");
    vc_assume(cap > 0 && cap < LIM);
    d.set_capacity(cap);
    vc_assert(wf(d) && d.empty() && d.capacity() == cap, "a moved-from deque can be given a capacity again");
    vc_cover("end");
}
