// Contracts of the work cycle of a block (lib/Framework/WorkerActor.cpp preWorkTasks, postWorkTasks, workTask) with its ports,
// accumulators and buffer managers: what is offered, consumed, produced and counted.
#include "ports.h"
#include "streammem.h"
using namespace Pothos;
VC_OPT(all, ".", "bounded lia deadline=300")
static DType type(size_t es) { DType t; t._elemType = 1; t._elemSize = (unsigned char)es; return t; }
struct Blk : Block
{
    std::function<void(void)> f; int calls;
    Blk(void): calls(0) { _actor->activeState = true; }
    void work(void) { calls++; if (f) f(); }
};
#ifdef VC_NATIVE
static const size_t LIM = 1 << 16;
#else
static const size_t LIM = 1 << 20;
#endif
// a stream between an output and an input port
struct Stream
{
    OutputPort *out; InputPort *in; size_t es, base, size; unsigned long long P, Q;
    void init(OutputPort *o, InputPort *i, size_t e, int k, int n)
    {
        out = o; in = i; es = e; base = size_t(k) << 44; P = Q = 0;
        size = vc_in("size", 1, LIM); vc_assume(size >= es);
        BufferManagerArgs a; a.numBuffers = n; a.bufferSize = size; room(size*n*2);
        auto m = makeGenericBufferManager(); m->init(a);
        out->bufferManagerSetup(m);
        if (in) out->_subscribers.push_back(in);
    }
    // called in the producer's work
    void produce(bool always)
    {
        const size_t avail = out->elements();
        vc_assert(avail != 0, "work is entered only with output space");
        vc_assert(avail*es <= out->buffer().length && out->buffer().length <= size, "the output elements fit the offered buffer");
        const size_t n = upto("produce", always ? 1 : 0, LIM, avail);
        wrote(out->buffer().address, n*es, base + P*es);
        out->produce(n);
        P += n;
    }
    // called in the consumer's work
    void consume(void)
    {
        const size_t avail = in->elements();
        vc_assert(avail <= P - Q, "no more elements are offered than were produced and not consumed");
        vc_assert(avail*es <= in->buffer().length, "the elements lie in the offered buffer");
        holds(in->buffer().address, avail*es, base + Q*es, "the offered buffer holds the next elements of the stream");
        const size_t n = upto("consume", 0, LIM, avail);
        in->consume(n);
        Q += n;
    }
    void counted(void) const
    {
        vc_assert(out->totalElements() == P, "the output total is what was produced");
        if (in)
        {
            vc_assert(in->totalElements() == Q, "the input total is what was consumed");
            vc_assert(in->_bufferAccumulator.getTotalBytesAvailable() == (P - Q)*es, "exactly what was not consumed is still there");
        }
    }
};
static const size_t sizes[] = {1, 4, 12};
static size_t anysize(void) { return sizes[pick("elem", 0, 2)]; }
// source -> sink, any amounts, the sink possibly running between the source's rounds
static void flow(int rounds, size_t reserve)
{
    Blk *a = new Blk(), *b = new Blk();
    const size_t es = anysize();
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), b->input("0"), es, 1, 2);
    a->f = [&](void) { s.produce(false); };
    b->f = [&](void) { s.consume(); };
    if (reserve) b->input("0")->setReserve(reserve);
    for (int i = 0; i < rounds; i++)
    {
        const bool src = i == 0 || vc_split(vc_bool("source"));
        Blk *x = src ? a : b;
        const int calls = x->calls;
        const unsigned long long have = s.P - s.Q;
        const bool space = !src || !s.out->_bufferManager->empty();
        const size_t left = src && space ? s.out->_bufferManager->front().length : 0;
        x->_actor->workTask();
        if (src) vc_assert((x->calls == calls + 1) == (left >= es), "a source works exactly when it has output space");
        else vc_assert((x->calls == calls + 1) == (have >= reserve), "a block works exactly when its reserve is met");
        s.counted();
    }
}
VC_PROOF(flow) { flow(3, 0); vc_cover("end"); }
VC_PROOF(flow_reserve) { flow(3, vc_in("reserve", 1, 100)); vc_cover("end"); }
// one output, several readers that advance independently
VC_PROOF(fanout)
{
    Blk *a = new Blk(), *b[2] = {new Blk(), new Blk()};
    const size_t es = 4;
    a->setupOutput("0", type(es));
    Stream s[2];
    for (int i = 0; i < 2; i++) b[i]->setupInput("0", type(es));
    s[0].init(a->output("0"), b[0]->input("0"), es, 1, 2);
    s[1] = s[0]; s[1].in = b[1]->input("0"); s[1].out->_subscribers.push_back(s[1].in);
    a->f = [&](void) { s[0].produce(false); s[1].P = s[0].P; };
    for (int i = 0; i < 2; i++) b[i]->f = [&, i](void) { s[i].consume(); };
    a->_actor->workTask();
    b[0]->_actor->workTask();
    if (pick("more", 0, 1)) a->_actor->workTask();
    for (int i = 0; i < 2; i++) s[i].counted();
    for (int i = 0; i < 2; i++) { b[i]->_actor->workTask(); s[i].counted(); }
    vc_cover("end");
}
// what work sees: two indexed inputs, one named input, one indexed and one named output
struct Node
{
    Blk *b; int ni, no; Blk *src[3], *dst[2]; Stream si[3], so[2];
    static const char *in(int i) { static const char *const n[] = {"0", "1", "x"}; return n[i]; }
    static const char *on(int i) { static const char *const n[] = {"0", "y"}; return n[i]; }
    InputPort *ip(int i) { return b->input(in(i)); }
    OutputPort *op(int i) { return b->output(on(i)); }
    Node(const size_t (&ies)[3], const size_t (&oes)[2], int fed)
    {
        b = new Blk();
        for (int i = 0; i < 3; i++) if (ies[i])
        {
            src[i] = new Blk(); src[i]->setupOutput("0", type(ies[i])); b->setupInput(in(i), type(ies[i]));
            si[i].init(src[i]->output("0"), ip(i), ies[i], i + 1, 1);
            Stream *const s = &si[i]; src[i]->f = [s](void) { s->produce(true); };
            if (fed >> i & 1) src[i]->_actor->workTask();
        }
        for (int i = 0; i < 2; i++) if (oes[i])
        {
            dst[i] = new Blk(); dst[i]->setupInput("0", type(oes[i])); b->setupOutput(on(i), type(oes[i]));
            so[i].init(op(i), dst[i]->input("0"), oes[i], i + 4, 1);
        }
    }
};
static void minima(int fed)
{
    static const size_t ies[] = {4, 1, 12}, oes[] = {4, 12};
    Node n(ies, oes, fed); Blk *const b = n.b;
    b->f = [&](void)
    {
        const WorkInfo &w = b->workInfo();
        size_t mi = 1 << 30, mo = 1 << 30, mai, mao;
        for (int i = 0; i < 2; i++) { const size_t e = n.ip(i)->elements(); mi = e < mi ? e : mi; }
        mai = n.ip(2)->elements(); mai = mai < mi ? mai : mi;
        mo = n.op(0)->elements(); mao = n.op(1)->elements(); mao = mao < mo ? mao : mo;
        vc_assert(w.minInElements == mi, "the minimum over the indexed inputs");
        vc_assert(w.minAllInElements == mai, "the minimum over all inputs");
        vc_assert(w.minOutElements == mo, "the minimum over the indexed outputs");
        vc_assert(w.minAllOutElements == mao, "the minimum over all outputs");
        vc_assert(w.minElements == (mi < mo ? mi : mo), "the minimum over the indexed ports");
        vc_assert(w.minAllElements == (mai < mao ? mai : mao), "the minimum over all ports");
        for (int i = 0; i < 3; i++)
        {
            vc_assert(n.ip(i)->elements() == n.si[i].P, "everything in one buffer is offered");
            holds(i < 2 ? size_t(w.inputPointers.at(i)) : n.ip(i)->buffer().address, n.si[i].P*ies[i], n.si[i].base, "an input pointer addresses the port's elements");
        }
        vc_assert(size_t(w.outputPointers.at(0)) == n.op(0)->buffer().address, "the output pointer is the port's buffer");
        for (int i = 0; i < 2; i++) vc_assert(n.op(i)->elements()*oes[i] <= n.so[i].size && n.op(i)->elements() != 0, "the output space is there");
        n.si[1].consume();
    };
    b->_actor->workTask();
    vc_assert(b->calls == 1, "work is entered when nothing holds it back");
    for (int i = 0; i < 3; i++) n.si[i].counted();
    for (int i = 0; i < 2; i++) n.so[i].counted();
}
VC_PROOF(minima) { minima(7); vc_cover("end"); }
VC_PROOF(minima_idle_input) { minima(pick("fed", 0, 2)*2 + 1); vc_cover("end"); }
// work is entered exactly when inputs, messages and output space allow it
static void gating(int fed, bool reserve, int msg, int busy)
{
    static const size_t ies[] = {4, 0, 4}, oes[] = {4, 4};
    Node n(ies, oes, (fed & 1) | (fed & 2) << 1); Blk *const b = n.b;
    bool met = !reserve;
    if (reserve) for (int i = 0; i < 3; i += 2)
    {
        const size_t r = vc_in("reserve", 0, 1000);
        n.ip(i)->setReserve(r);
        met = bool(met | bool(n.si[i].P >= r));
    }
    if (msg) n.ip(msg*2 - 2)->pushMessage(Object(1));
    BufferChunk held;
    if (busy) { n.op(busy - 1)->bufferManagerFront(held); n.op(busy - 1)->bufferManagerPop(n.so[busy - 1].size); }
    b->_actor->workTask();
    vc_assert((b->calls == 1) == ((met || msg) && !busy), "work is entered exactly when inputs, messages and output space allow it");
    vc_cover("end");
}
VC_PROOF(gating_reserve) { gating(pick("fed", 0, 3), true, 0, 0); }
VC_PROOF(gating_message) { gating(pick("fed", 0, 1), true, pick("message", 1, 2), 0); }
VC_PROOF(gating_busy) { gating(3, false, 1, pick("busy", 0, 2)); }
// an inactive block does not work; a failing work call is accounted like any other
VC_PROOF(inactive_or_failing)
{
    static const size_t ies[] = {4, 0, 0}, oes[] = {4, 0};
    Node n(ies, oes, 1); Blk *const b = n.b;
    const bool off = pick("inactive", 0, 1);
    if (off) b->_actor->activeState = false;
    b->f = [&](void) { n.si[0].consume(); n.so[0].produce(false); throw RuntimeException("x"); };
    b->_actor->workTask();
    vc_assert(b->calls == !off, "an inactive block does not work");
    n.si[0].counted(); n.so[0].counted();
    vc_cover("end");
}
// an output reserve: what is offered next meets the reserve whenever a whole buffer does
static void out_reserve(bool again, bool discard)
{
    Blk *a = new Blk(), *b = new Blk();
    const size_t es = 4; size_t res;
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), b->input("0"), es, 1, 2);
    res = upto("reserve", 1, LIM, s.size/es);
    s.out->setReserve(res);
    int k = 0;
    a->f = [&](void) { if (s.out->elements() < res) vc_assert(false, "the offered space meets the reserve"); if (discard && k == 0) s.out->popElements(upto("discard", 1, LIM, s.out->elements())); else s.produce(false); k++; };
    b->f = [&](void) { s.consume(); };
    for (int i = 0; i < 2; i++) { a->_actor->workTask(); s.counted(); }
    vc_assert(k == 2, "a second buffer is there");
    b->_actor->workTask(); s.counted();
    if (again)
    {
        if (pick("again", 0, 1)) { a->_actor->workTask(); s.counted(); }
        b->_actor->workTask(); s.counted();
    }
    vc_cover("end");
}
VC_PROOF(out_reserve) { out_reserve(false, false); }
VC_PROOF(out_reserve_discard) { out_reserve(false, true); }
VC_PROOF(out_reserve_thorough) { out_reserve(true, false); }
// buffers posted by the block itself: taken from the port, from the pool, and elements handed back
static void posted(int how, bool more)
{
    Blk *a = new Blk(), *b = new Blk();
    const size_t es = 4;
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), b->input("0"), es, 1, 2);
    a->f = [&](void)
    {
        if (how == 0)      // a buffer from the port (front buffer or pool, whatever fits)
        {
            const size_t n = vc_in("n", 1, LIM);
            BufferChunk c = s.out->getBuffer(n);
            vc_assert(c.length == n*es && c.dtype.size() == es, "the buffer has the size asked for");
            wrote(c.address, n*es, s.base + s.P*es); s.P += n;
            s.out->postBuffer(c);
        }
        else if (how == 1) // two buffers of its own
        {
            for (int i = 0; i < 2; i++)
            {
                const size_t n = vc_in("n", 1, LIM);
                BufferChunk c(type(es), n);
                wrote(c.address, n*es, s.base + s.P*es); s.P += n;
                s.out->postBuffer(c);
            }
        }
        else               // elements popped off the front buffer and posted later
        {
            const size_t n = upto("n", 1, LIM, s.out->elements());
            BufferChunk c = s.out->buffer(); c.length = n*es;
            wrote(c.address, n*es, s.base + s.P*es); s.P += n;
            s.out->popElements(n);
            s.out->postBuffer(std::move(c));
        }
    };
    b->f = [&](void) { s.consume(); };
    a->_actor->workTask(); s.counted();
    if (more) { a->_actor->workTask(); s.counted(); }
    b->_actor->workTask(); s.counted();
    b->_actor->workTask(); s.counted();
    vc_cover("end");
}
VC_PROOF(posted_port) { posted(0, false); }
VC_PROOF(posted_own) { posted(1, false); }
VC_PROOF(posted_popped) { posted(2, false); }
VC_PROOF(posted_again_thorough) { posted(pick("how", 0, 2), true); }
// a block in the middle, in place or not: it copies n elements and consumes at least as many
static void middle(bool rbw, int rounds)
{
    Blk *a = new Blk(), *b = new Blk(), *c = new Blk();
    const size_t es = 4;
    a->setupOutput("0", type(es)); b->setupInput("0", type(es)); b->setupOutput("0", type(es)); c->setupInput("0", type(es));
    Stream s, t; s.init(a->output("0"), b->input("0"), es, 1, 2); t.init(b->output("0"), c->input("0"), es, 2, 2);
    if (rbw) b->output("0")->setReadBeforeWrite(b->input("0"));
    a->f = [&](void) { s.produce(true); };
    b->f = [&](void)
    {
        const size_t have = s.in->elements(), space = t.out->elements();
        holds(s.in->buffer().address, have*es, s.base + s.Q*es, "the offered buffer holds the next elements of the stream");
        vc_assert(space*es <= t.out->buffer().length, "the output elements fit the offered buffer");
        const size_t n = upto("n", 0, LIM, have < space ? have : space);
        wrote(t.out->buffer().address, n*es, t.base + t.P*es);
        t.out->produce(n); t.P += n;
        s.in->consume(n); s.Q += n;
    };
    c->f = [&](void) { t.consume(); };
    a->_actor->workTask();
    Blk *const who[] = {a, b, c};
    for (int i = 0; i < rounds; i++) who[i == 0 ? 1 : pick("who", 0, 2)]->_actor->workTask();
    s.counted(); t.counted();
    b->_actor->workTask(); c->_actor->workTask();
    s.counted(); t.counted();
    vc_cover("end");
}
VC_PROOF(middle) { middle(false, 1); }
VC_PROOF(in_place) { middle(true, 1); }
VC_PROOF(middle_thorough) { middle(false, 2); }
VC_PROOF(in_place_thorough) { middle(true, 2); }
// in place, while another reader of the same stream has not read yet
VC_PROOF(in_place_shared)
{
    Blk *a = new Blk(), *b = new Blk(), *c = new Blk(), *d = new Blk();
    const size_t es = 4;
    a->setupOutput("0", type(es)); b->setupInput("0", type(es)); b->setupOutput("0", type(es)); c->setupInput("0", type(es)); d->setupInput("0", type(es));
    Stream s, t; s.init(a->output("0"), b->input("0"), es, 1, 2); t.init(b->output("0"), c->input("0"), es, 2, 2);
    b->output("0")->setReadBeforeWrite(b->input("0"));
    const bool whole = pick("whole", 0, 1);     // the source fills its buffers
    Stream u = s; u.in = d->input("0"); s.out->_subscribers.push_back(u.in);
    a->f = [&](void)
    {
        if (!whole) s.produce(true);
        else { const size_t n = s.out->elements(); wrote(s.out->buffer().address, n*es, s.base + s.P*es); s.out->produce(n); s.P += n; }
        u.P = s.P;
    };
    b->f = [&](void)
    {
        const size_t have = s.in->elements(), space = t.out->elements();
        holds(s.in->buffer().address, have*es, s.base + s.Q*es, "the offered buffer holds the next elements of the stream");
        const size_t n = upto("n", 0, LIM, have < space ? have : space);
        wrote(t.out->buffer().address, n*es, t.base + t.P*es);
        t.out->produce(n); t.P += n; s.in->consume(n); s.Q += n;
    };
    size_t first = 0;
    d->f = [&](void) { if (whole && first) { u.in->consume(first); u.Q += first; first = 0; } else u.consume(); };
    a->_actor->workTask(); first = s.P;
    if (whole) { a->_actor->workTask(); d->_actor->workTask(); }
    b->_actor->workTask();
    d->_actor->workTask();
    c->f = [&](void) { t.consume(); };
    c->_actor->workTask();
    s.counted(); t.counted();
    vc_cover("end");
}
// elements that straddle buffers: pushed bytes whose buffers end inside an element
VC_PROOF(fragments)
{
    Blk *b = new Blk();
    const size_t es = pick("elem", 0, 1) ? 12 : 4, base = size_t(1) << 44;
    b->setupInput("0", type(es));
    InputPort *in = b->input("0");
    size_t have = 0, used = 0;
    for (int i = 0; i < 2; i++)
    {
        const size_t n = vc_in("bytes", 1, LIM);
        SharedBuffer m = SharedBuffer::make(n + 16);    // apart from the next one
        BufferChunk c = BufferChunk(SharedBuffer(m.getAddress(), n, m));
        wrote(c.address, n, base + have); have += n;
        in->pushBuffer(c);
    }
    b->f = [&](void)
    {
        const size_t avail = in->elements();
        vc_assert(bool(avail != 0) | bool(have - used < es), "a whole element is offered when its bytes have arrived");
        vc_assert(bool(avail*es <= in->buffer().length) & bool(avail*es <= have - used), "the elements lie in the offered buffer");
        holds(in->buffer().address, avail*es, base + used, "the offered buffer holds the next elements of the stream");
        const size_t n = upto("consume", 0, LIM, avail);
        in->consume(n); used += n*es;
    };
    for (int i = 0; i < 2; i++)
    {
        b->_actor->workTask();
        vc_assert(in->totalElements()*es == used && in->_bufferAccumulator.getTotalBytesAvailable() == have - used, "exactly what was not consumed is still there");
    }
    vc_cover("end");
}
