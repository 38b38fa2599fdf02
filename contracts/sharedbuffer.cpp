// Contracts of SharedBuffer's sub-range constructor and accessors (lib/Framework/SharedBuffer.cpp) and of the
// address arithmetic of BufferChunk (include/Pothos/Framework/BufferChunk.hpp), for every address and length.
#include <memory>
#include <mutex>
#define private public
#include "Framework/SharedBuffer.cpp"
#include <Pothos/Framework/BufferChunk.hpp>
#undef private
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "Framework/ManagedBuffer.cpp"
#include "noreg.h"
#define private public
#include "Framework/BufferChunk.cpp"
#undef private
#include "vc.h"
using Pothos::SharedBuffer;
using Pothos::BufferChunk;
using Pothos::ManagedBuffer;
static const size_t USER = size_t(1) << 47;

// any well-formed buffer: its memory ends at or below the top of the address space;
// a circular buffer has its second mapping above the first one
struct Any
{
    size_t a, l, off, al;
    SharedBuffer b;
    static void nodelete(void *) {}
    Any(void): a(vc_u64("address")), l(vc_u64("length")), off(vc_u64("offset")),
        al(off == 0 ? 0 : a + off), b(a, l, std::shared_ptr<void>((void *)8, &nodelete))
    {
        vc_assume(a != 0);
        // user address space of a 64-bit machine; requested ranges are any 64-bit numbers
        vc_assume(a < USER && l < USER);
        vc_assume(off == 0 || (off >= l && off < USER));
        b.setAlias(al);
    }
    size_t end(void) const { return a + off + l; }
};

VC_PROOF(plain)
{
    const size_t a = vc_u64("address"), l = vc_u64("length");
    std::shared_ptr<void> c((void *)8, &Any::nodelete);
    SharedBuffer b(a, l, c);
    vc_assert(b.getAddress() == a && b.getLength() == l && b.getEnd() == a + l, "a buffer reports the range it was made from");
    vc_assert(b.getAlias() == 0 && b.getAliasOffset() == 0, "not circular");
    vc_assert(b.getContainer() == c && b.useCount() == 2 && !b.unique(), "holds its container");
    vc_assert(bool(b), "valid");
    SharedBuffer n;
    vc_assert(!n && n.getAddress() == 0 && n.getLength() == 0 && n.getAlias() == 0 && n.getEnd() == 0 && n.useCount() == 0, "a null buffer has no memory");
    vc_assert(b != n && b == SharedBuffer(b), "equality is identity of the memory");
    vc_cover("end");
}
// a sub-range is accepted exactly when it lies inside
VC_PROOF(subset)
{
    Any p;
    const size_t a = vc_u64("a"), l = vc_u64("l");
    const bool inside = a >= p.a && a <= p.end() && l <= p.end() - a;
    try
    {
        SharedBuffer s(a, l, p.b);
        vc_assert(inside, "a range reaching outside the parent's memory is refused");
        vc_assert(s.getAddress() == a && s.getLength() == l && s.getEnd() == a + l, "the view reports exactly its range");
        vc_assert(s.getContainer() == p.b.getContainer(), "the view keeps the parent's memory alive");
        vc_assert(p.b.useCount() == 2, "the view holds one reference");
        if (p.al == 0) vc_assert(s.getAlias() == 0 && s.getAliasOffset() == 0, "a view of plain memory has no alias");
        if (p.al != 0 && a < p.a + p.l) vc_assert(s.getAlias() == p.al + (a - p.a) && s.getAliasOffset() == p.off, "the alias of the view is the same place in the second mapping");
        vc_cover("accepted");
    }
    catch (const Pothos::SharedBufferError &)
    {
        vc_assert(!inside, "a range inside the parent's memory is accepted");
        vc_cover("refused");
    }
    vc_assert(p.b.useCount() == 1 && p.b.unique(), "reference released with the view");
    vc_assert(p.b.getAddress() == p.a && p.b.getLength() == p.l && p.b.getAlias() == p.al, "the parent is unchanged");
}
// a view of a view stays inside the grandparent (views that do not cross the end of the first mapping)
VC_PROOF(nested)
{
    Any p;
    vc_assume(p.off == 0 || p.off == p.l);
    const size_t a = vc_u64("a"), l = vc_u64("l"), a2 = vc_u64("a2"), l2 = vc_u64("l2");
    try
    {
        SharedBuffer s(a, l, p.b);
        vc_assume(s.getEnd() <= p.a + p.l);
        SharedBuffer t(a2, l2, s);
        vc_assert(t.getAddress() >= p.a, "begins inside the first buffer");
        vc_assert(t.getLength() <= p.end() && t.getAddress() <= p.end() - t.getLength(), "ends inside the first buffer");
        vc_cover("accepted");
    }
    catch (const Pothos::SharedBufferError &) { vc_cover("refused"); }
}
// chunk address arithmetic
VC_PROOF(chunk)
{
    Any p;
    vc_assume(p.off == 0 || p.off == p.l);
    vc_assume(p.l > 0);
    BufferChunk c(p.b);
    vc_assert(c.address == p.a && c.length == p.l && c.getEnd() == p.a + p.l, "a chunk covers its buffer");
    vc_assert(c.getBuffer() == p.b && bool(c), "and holds it");
    vc_assert(c.getAlias() == p.al, "alias of the whole buffer");
    const size_t at = vc_u64("at");
    vc_assume(at >= p.a && at < p.end());
    c.address = at;
    const size_t v = c.getAlias();
    if (p.off == 0) vc_assert(v == 0, "no alias for plain memory");
    else
    {
        vc_assert(v >= p.a && v < p.end(), "the alias of an address lies inside the buffer's mappings");
        vc_assert(v == at + p.l || at == v + p.l, "the alias is the same byte in the other mapping");
        vc_cover("alias");
    }
    c.clear();
    vc_assert(!c && c.address == 0 && c.length == 0 && c.getAlias() == 0, "clear drops everything");
    vc_assert(p.b.unique(), "clear releases the memory");
    vc_cover("end");
}
