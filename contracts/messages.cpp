// Contracts of the message and slot-call queues of a port (lib/Framework/InputPort.cpp, InputPortImpl.hpp, OutputPort.cpp,
// WorkerActor::handleSlotCalls): a queue in which every message is delivered once, unmodified and in posting order.
#include "ports.h"
#ifndef VC_NATIVE
static void vc_copied(size_t, size_t, size_t) {}
#endif
using namespace Pothos;
static size_t g_mem;
static SharedBuffer vc_buffer(size_t bytes) { g_mem += 1 << 20; return SharedBuffer(g_mem, bytes, std::shared_ptr<void>()); }
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }
VC_OPT(all, ".", "bounded deadline=300")
struct Call { std::string name; int args[3]; int n; };
static int g_calls, g_throwAt; static Call g_call[16];
struct TestBlock : Block
{
    TestBlock(void) { this->setupInput("0", DType()); _actor->activeState = true; }
    Object opaqueCallHandler(const std::string &name, const Object *a, const size_t n)
    {
        if (g_calls < 16)
        {
            Call &c = g_call[g_calls];
            c.name = name; c.n = (int)n;
            for (size_t i = 0; i < n && i < 3; i++) c.args[i] = a[i].extract<int>();
        }
        if (g_calls++ == g_throwAt) throw InvalidArgumentException("slot", "x");
        return Object();
    }
};
// the two queues of a port behind one interface
struct Queue
{
    InputPort *p; bool slots;
    Queue(InputPort *p, bool slots): p(p), slots(slots) {}
    void push(const Object &o) { if (slots) p->slotCallsPush(o, BufferChunk()); else if (vc_split(vc_bool("direct"))) p->pushMessage(o); else p->asyncMessagesPush(o, BufferChunk()); }
    bool empty(void) { return slots ? p->slotCallsEmpty() : !p->hasMessage(); }
    Object pop(void) { return slots ? p->slotCallsPop() : p->popMessage(); }
    void clear(void) { if (slots) p->slotCallsClear(); else p->asyncMessagesClear(); }
};
static void is(const Object &o, int id)
{
    vc_assert(bool(o), "a queued message is delivered");
    vc_assert(o.type() == typeid(int) && o.extract<int>() == id, "messages arrive unmodified, once each, in posting order");
}
// any backlog of any age (the storage behind the queue having been used before), then any two operations, then a drain
static void queue(bool slots, int maxAge, int maxSize, int ops)
{
    TestBlock *b = new TestBlock();
    InputPort *p = b->input("0");
    Queue q(p, slots);
    const int age = pick("age", 0, maxAge), n = pick("queued", 0, maxSize);
    for (int i = 0; i < age; i++) { q.slots ? p->slotCallsPush(Object(-1), BufferChunk()) : p->asyncMessagesPush(Object(-1)); is(q.pop(), -1); }
    int lo = 0, hi = 0;
    for (int i = 0; i < n; i++) { const Object o(hi++); q.slots ? p->slotCallsPush(o, BufferChunk()) : p->asyncMessagesPush(o); }
    for (int k = 0; k < ops; k++)
    {
        const int op = pick("op", 0, 4);
        if (op == 0)
        {
            b->_actor->workerThreadAcquire(false); b->_actor->workerThreadRelease();
            q.push(Object(hi++));
            vc_assert(b->_actor->workerThreadAcquire(false), "the receiving block is told of a new message"); b->_actor->workerThreadRelease();
        }
        else if (op == 1) { if (lo == hi && slots) vc_end(); const Object o = q.pop(); if (lo == hi) vc_assert(!o, "an empty queue yields an empty object"); else is(o, lo++); }
        else if (op == 2 && !slots) { const Object o = p->peekMessage(); if (lo == hi) vc_assert(!o, "peeking an empty queue yields an empty object"); else is(o, lo); }
        else if (op == 3) { q.clear(); lo = hi; }
        else if (op == 4) vc_assert(q.empty() == (lo == hi), "emptiness is reported exactly");
    }
    while (lo < hi) { vc_assert(!q.empty(), "emptiness is reported exactly"); is(q.pop(), lo++); }
    vc_assert(q.empty(), "nothing is left or repeated");
}
VC_PROOF(messages) { queue(false, 4, 5, 2); vc_cover("end"); }
VC_PROOF(slotcalls) { queue(true, 4, 5, 2); vc_cover("end"); }
// long backlogs: the storage grows several times, wherever it starts, up to the documented bound
static void backlog(bool slots, int age, int n, int every = 5)
{
    TestBlock *b = new TestBlock();
    InputPort *p = b->input("0");
    Queue q(p, slots);
    for (int i = 0; i < age; i++) { slots ? p->slotCallsPush(Object(-1), BufferChunk()) : p->asyncMessagesPush(Object(-1)); q.pop(); }
    int lo = 0;
    for (int i = 0; i < n; i++)
    {
        slots ? p->slotCallsPush(Object(i), BufferChunk()) : p->asyncMessagesPush(Object(i));
        if (i % every == 3) is(q.pop(), lo++);
    }
    while (lo < n) is(q.pop(), lo++);
    vc_assert(q.empty(), "nothing is left or repeated");
}
VC_PROOF(messages_backlog) { backlog(false, pick("age", 0, 3), pick("n", 30, 42)); vc_cover("end"); }
VC_PROOF(slotcalls_backlog) { backlog(true, pick("age", 0, 3), pick("n", 30, 42)); vc_cover("end"); }
VC_PROOF(messages_bound) { backlog(false, 1, 1024, 5000); vc_cover("end"); }
VC_PROOF(slotcalls_bound) { backlog(true, 1, 1024, 5000); vc_cover("end"); }
// posting: every subscriber gets the message once, on its queue, whatever the other subscribers are
struct Producer : Block { Producer(void) { this->setupOutput("0", DType()); this->registerSignal("sig"); } };
VC_PROOF(post)
{
    Producer *a = new Producer();
    OutputPort *out = a->output("0");
    const int n = pick("subscribers", 0, 3);
    InputPort *in[3]; bool slot[3]; int got[3];
    for (int i = 0; i < n; i++)
    {
        TestBlock *b = new TestBlock();
        slot[i] = vc_split(vc_bool("slot"));
        if (slot[i]) b->_actor->allocateSlot("s");
        in[i] = slot[i] ? b->input("s") : b->input("0");
        out->_subscribers.push_back(in[i]);
        got[i] = 0;
    }
    const unsigned long long total = out->totalMessages();
    const int k = pick("messages", 1, 2);
    bool args[2];
    for (int m = 0; m < k; m++)
    {
        args[m] = vc_split(vc_bool("arguments"));
        if (args[m]) out->postMessage(ObjectVector(1, Object(m)));
        else out->postMessage(m);
    }
    vc_assert(out->totalMessages() == total + k, "posted messages are counted");
    for (int i = 0; i < n; i++)
    {
        for (int m = 0; m < k; m++)
        {
            if (args[m] && slot[i])
            {
                vc_assert(!in[i]->slotCallsEmpty(), "a slot call is delivered");
                const Object o = in[i]->slotCallsPop();
                vc_assert(o.type() == typeid(ObjectVector) && o.extract<ObjectVector>().size() == 1 && o.extract<ObjectVector>()[0].extract<int>() == m, "slot calls arrive unmodified, once each, in order");
            }
            else
            {
                const Object o = in[i]->popMessage();
                vc_assert(bool(o), "a message is delivered");
                if (args[m]) vc_assert(o.type() == typeid(ObjectVector) && o.extract<ObjectVector>()[0].extract<int>() == m, "messages arrive unmodified, once each, in order");
                else is(o, m);
            }
        }
        vc_assert(!in[i]->hasMessage() && in[i]->slotCallsEmpty(), "nothing is repeated");
    }
    vc_cover("end");
}
// slot calls reach the block: once each, in order, on the right slot, with their arguments, an error in one losing no other
VC_PROOF(slot_delivery)
{
    Producer *a = new Producer();
    TestBlock *b = new TestBlock();
    b->registerSlot("s");
    b->registerSlot("t");
    OutputPort *sig = a->output("sig");
    sig->_subscribers.push_back(b->input("s"));
    const int n = pick("calls", 0, 4);
    for (int i = 0; i < n; i++) a->emitSignal("sig", i, 100 + i);
    g_calls = 0; g_throwAt = pick("throw", -1, 3);
    b->_actor->workTask();
    vc_assert(g_calls == n, "every slot call is made once");
    for (int i = 0; i < n; i++)
        vc_assert(g_call[i].name == "s" && g_call[i].n == 2 && g_call[i].args[0] == i && g_call[i].args[1] == 100 + i, "slot calls are made in order, with their arguments");
    b->_actor->workTask();
    vc_assert(g_calls == n, "no slot call is repeated");
    vc_cover("end");
}
