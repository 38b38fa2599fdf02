// Contracts of labels on streams (Label.hpp, OutputPort::postLabel, InputPort::bufferLabelPush / bufferAccumulatorFront /
// bufferAccumulatorPop / removeLabel, WorkerActor::postWorkTasks, Block::propagateLabels): each label stays on its element.
#include "ports.h"
#include "streammem.h"
using namespace Pothos;
VC_OPT(all, ".", "bounded lia deadline=300")
static DType type(size_t es) { DType t; t._elemType = 1; t._elemSize = (unsigned char)es; return t; }
struct Blk : Block
{
    std::function<void(void)> f; int calls;
    Blk(void): calls(0) { _actor->activeState = true; }
    void work(void) { calls++; if (f) f(); }
};
#ifdef VC_NATIVE
static const size_t LIM = 1 << 16;
#else
static const size_t LIM = 1 << 20;
#endif
static const size_t SOME = 4000, AMPLE = 1 << 17;
enum { MAXL = 6 };
static const char *const ids[] = {"a", "bb", "ccc", "dddd", "eeeee", "ffffff"};
// a stream between an output and some inputs, and the labels posted on it so far
struct Stream
{
    OutputPort *out; size_t es, size, lim; unsigned long long P;
    int n; unsigned long long pos[MAXL]; size_t width[MAXL];
    void init(OutputPort *o, size_t e, int bufs, bool any = false)     // any: buffers of any size, else ample ones
    {
        out = o; es = e; P = 0; n = 0; lim = any ? LIM : SOME;
        size = AMPLE;
        if (any) { size = vc_in("size", 1, LIM); vc_assume(size >= es); }
        BufferManagerArgs a; a.numBuffers = bufs; a.bufferSize = size; room(size*bufs*2);
        auto m = makeGenericBufferManager(); m->init(a);
        out->bufferManagerSetup(m);
    }
    // called in the producer's work: some elements, with this many labels on them, posted in any order
    void produce(int labels)
    {
        const size_t k = upto("produce", labels ? 1 : 0, lim, out->elements());
        for (int i = 0; i < labels; i++)
        {
            const size_t at = upto("at", 0, lim, k - 1), w = vc_in("width", 1, SOME);
            out->postLabel(ids[n], Object(100 + n), at, w);
            pos[n] = P + at; width[n] = w; n++;
        }
        out->produce(k);
        P += k;
    }
};
struct Reader
{
    InputPort *in; Stream *s; unsigned long long Q; bool gone[MAXL];
    void init(InputPort *i, Stream *st) { in = i; s = st; Q = 0; for (int k = 0; k < MAXL; k++) gone[k] = false; s->out->_subscribers.push_back(i); }
    static int which(const Label &l)
    {
        const int k = l.data.extract<int>() - 100;
        vc_assert(k >= 0 && k < MAXL && l.id == ids[k], "identifier and data are those posted together");
        return k;
    }
    // what work sees: all and only the labels on elements not consumed yet, in order, each on its element
    void see(int sent)
    {
        bool seen[MAXL] = {};
        unsigned long long last = 0;
        for (const auto &l : in->labels())
        {
            const int k = which(l);
            vc_assert(k < sent && !seen[k] && !gone[k], "no label is made up or duplicated");
            seen[k] = true;
            vc_assert(s->pos[k] >= Q && l.index == s->pos[k] - Q, "a label is seen at the element it was posted on");
            vc_assert(l.width == s->width[k], "its width is intact");
            vc_assert(l.index >= last, "labels are delivered in stream order");
            last = l.index;
        }
        for (int k = 0; k < sent; k++) if (!gone[k]) vc_assert(bool(seen[k]) | bool(s->pos[k] < Q), "no label is dropped before its element is consumed");
    }
    void consume(void)
    {
        const size_t k = upto("consume", 0, s->lim, in->elements());
        in->consume(k);
        Q += k;
    }
};
// source -> sink: labels in two rounds, the second possibly while the sink is working, any consumption in between
static void flow(size_t es, int l1, int l2, bool nested, bool any = false, int rounds = 3)
{
    Blk *a = new Blk(), *b = new Blk();
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), es, 2, any);
    Reader r; r.init(b->input("0"), &s);
    int now = l1;
    a->f = [&](void) { s.produce(now); };
    a->_actor->workTask();
    now = l2;
    b->f = [&](void)
    {
        const int sent = s.n;
        r.see(sent);
        if (nested && b->calls == 1) a->_actor->workTask();
        r.see(sent);
        r.consume();
    };
    b->_actor->workTask();
    if (!nested && l2) a->_actor->workTask();
    for (int i = 1; i < rounds; i++) b->_actor->workTask();
    vc_cover("end");
}
VC_PROOF(labels) { flow(4, 1, 1, false); }
VC_PROOF(labels_bytes) { flow(1, 1, 1, false); }
VC_PROOF(labels_odd_size) { flow(12, 1, 1, false, false, 2); }
VC_PROOF(labels_odd_size_thorough) { flow(12, 1, 1, false); }
VC_PROOF(labels_any_buffers_thorough) { flow(4, 1, 1, false, true); }
VC_PROOF(labels_while_working) { flow(4, 1, 1, true); }
VC_PROOF(labels_two_while_working) { flow(4, 0, 2, true, false, 2); }
VC_PROOF(labels_two) { flow(4, 2, 1, false, false, 2); }
VC_PROOF(labels_three) { flow(4, 3, 0, false, false, 2); }
VC_PROOF(labels_three_thorough) { flow(4, 3, 1, false); }
// several readers, each at its own pace
VC_PROOF(labels_readers)
{
    const size_t es = 4;
    Blk *a = new Blk(), *b[2] = {new Blk(), new Blk()};
    a->setupOutput("0", type(es));
    Stream s; s.init(a->output("0"), es, 2);
    Reader r[2];
    for (int i = 0; i < 2; i++)
    {
        b[i]->setupInput("0", type(es)); r[i].init(b[i]->input("0"), &s);
        b[i]->f = [&, i](void) { r[i].see(s.n); r[i].consume(); };
    }
    a->f = [&](void) { s.produce(1); };
    a->_actor->workTask();
    const int f = pick("first", 0, 1);
    b[f]->_actor->workTask();
    a->_actor->workTask();
    b[!f]->_actor->workTask();
    b[f]->_actor->workTask();
    vc_cover("end");
}
// a block that turns each input element into one output element of another size passes the labels on
static void through(size_t e1, size_t e2, int labels, int rounds)
{
    Blk *a = new Blk(), *b = new Blk(), *c = new Blk();
    a->setupOutput("0", type(e1)); b->setupInput("0", type(e1)); b->setupOutput("0", type(e2)); c->setupInput("0", type(e2));
    Stream s, t; s.init(a->output("0"), e1, 2); t.init(b->output("0"), e2, 2);
    Reader r, q; r.init(b->input("0"), &s); q.init(c->input("0"), &t);
    a->f = [&](void) { s.produce(labels); };
    b->f = [&](void)
    {
        r.see(s.n);
        const size_t have = r.in->elements(), space = t.out->elements();
        const size_t k = upto("n", 0, s.lim, have < space ? have : space);
        r.in->consume(k); t.out->produce(k);
        r.Q += k; t.P += k;
    };
    c->f = [&](void)
    {
        // what has arrived are the labels on the elements that were passed on
        for (int i = 0; i < s.n; i++) { t.pos[i] = s.pos[i]; t.width[i] = s.width[i]; }
        bool seen[MAXL] = {};
        unsigned long long last = 0;
        for (const auto &l : q.in->labels())
        {
            const int k = Reader::which(l);
            vc_assert(k < s.n && !seen[k], "no label is made up or duplicated");
            seen[k] = true;
            vc_assert(s.pos[k] < t.P && s.pos[k] >= q.Q && l.index == s.pos[k] - q.Q, "a label is passed on at its element");
            vc_assert(l.width == s.width[k], "its width is intact");
            vc_assert(l.index >= last, "labels are passed on in stream order");
            last = l.index;
        }
        for (int k = 0; k < s.n; k++) vc_assert(bool(seen[k]) | bool(s.pos[k] < q.Q) | bool(s.pos[k] >= t.P), "no label is lost on the way");
        q.consume();
    };
    a->_actor->workTask();
    for (int i = 0; i < rounds; i++) { b->_actor->workTask(); c->_actor->workTask(); }
    vc_cover("end");
}
VC_PROOF(labels_through) { through(4, 12, 1, 2); }
VC_PROOF(labels_through_narrow) { through(12, 1, 2, 1); }
// a label taken off by the block is gone, the others stay
VC_PROOF(labels_removed)
{
    const size_t es = 4;
    Blk *a = new Blk(), *b = new Blk();
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), es, 2);
    Reader r; r.init(b->input("0"), &s);
    a->f = [&](void) { s.produce(2); };
    a->_actor->workTask();
    b->f = [&](void)
    {
        r.see(s.n);
        if (b->calls == 1)
        {
            const Label l = *(r.in->labels().begin() + pick("which", 0, 1));
            r.gone[Reader::which(l)] = true;
            r.in->removeLabel(l);
            r.see(s.n);
        }
        r.consume();
    };
    b->_actor->workTask();
    b->_actor->workTask();
    vc_cover("end");
}
// many labels waiting before the reader works for the first time
VC_PROOF(labels_backlog)
{
    const size_t es = 4;
    Blk *a = new Blk(), *b = new Blk();
    a->setupOutput("0", type(es)); b->setupInput("0", type(es));
    Stream s; s.init(a->output("0"), es, 2);
    Reader r; r.init(b->input("0"), &s);
    int k = 0, per[3]; per[0] = pick("first", 0, 3); per[1] = pick("second", 0, 1); per[2] = 2;
    a->f = [&](void)
    {
        const size_t n = 5;
        for (int i = 0; i < per[k]; i++) { s.out->postLabel(ids[s.n], Object(100 + s.n), i, 1); s.pos[s.n] = s.P + i; s.width[s.n] = 1; s.n++; }
        s.out->produce(n); s.P += n; k++;
    };
    for (int i = 0; i < 3; i++) a->_actor->workTask();
    b->f = [&](void) { r.see(s.n); r.consume(); };
    b->_actor->workTask();
    vc_cover("end");
}
