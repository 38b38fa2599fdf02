// Contracts of the remote-call framing (lib/Remote/RemoteProxyDatagram.cpp): one send is one receive, or an error.
#include "stdpre.h"
#define private public
#define protected public
#include <Pothos/Object.hpp>
#include <Pothos/Object/Containers.hpp>
#include <Pothos/Plugin.hpp>
#include "noreg.h"
#include "Remote/RemoteProxyDatagram.cpp"
#include "Object/Object.cpp"
#include "Object/Exception.cpp"
#include "Exception.cpp"
#undef private
#undef protected
#include "vc.h"
#include "rbtree.h"
#include "msgtext.h"
using namespace Pothos;
#ifndef VC_NATIVE
// assumed contracts of the C++ stream library: write and read pass the bytes to and from the stream buffer
struct Ios : std::ios
{
    static iostate &state(std::ios_base *s) { return s->*(&Ios::_M_streambuf_state); }
    static iostate &mask(std::ios_base *s) { return s->*(&Ios::_M_exception); }
    static std::streambuf *&buf(std::ios *s) { return s->*(&Ios::_M_streambuf); }
};
struct Is : std::istream { static std::streamsize &count(std::istream *s) { return s->*(&Is::_M_gcount); } };
static std::ostream &put(std::ostream *s, const char *p, std::streamsize n)
{
    if (Ios::buf(s)->sputn(p, n) != n) Ios::state(s) = std::ios_base::iostate(Ios::state(s) | std::ios_base::badbit);
    return *s;
}
static std::istream &get(std::istream *s, char *p, std::streamsize n)
{
    Is::count(s) = 0;
    if (Ios::state(s) != std::ios_base::goodbit) { Ios::state(s) = std::ios_base::iostate(Ios::state(s) | std::ios_base::failbit); return *s; }
    if ((Is::count(s) = Ios::buf(s)->sgetn(p, n)) != n) Ios::state(s) = std::ios_base::iostate(std::ios_base::eofbit | std::ios_base::failbit);
    return *s;
}
static std::ostream &flush(std::ostream *s) { return *s; }
static void iosbase(std::ios_base *s) { Ios::mask(s) = std::ios_base::goodbit; Ios::state(s) = std::ios_base::goodbit; }
static void nop(void *) {}
static void iosinit(std::ios *s, std::streambuf *b) { Ios::mask(s) = std::ios_base::goodbit; Ios::state(s) = b ? std::ios_base::goodbit : std::ios_base::badbit; Ios::buf(s) = b; }
VC_CONTRACT(write, ".", "^std::basic_ostream<char, .*>::write", put)
VC_CONTRACT(read, ".", "^std::basic_istream<char, .*>::read\\(", get)
VC_CONTRACT(flush, ".", "^std::basic_ostream<char, .*>::flush", flush)
VC_CONTRACT(iosb, ".", "^std::ios_base::ios_base\\(\\)", iosbase)
VC_CONTRACT(iosd, ".", "^std::ios_base::~ios_base\\(\\)", nop)
VC_CONTRACT(iosi, ".", "^std::basic_ios<char, .*>::init", iosinit)
VC_CONTRACT(loc, ".", "^std::locale::~?locale\\(\\)", nop)
#endif
// the connection: the pieces written, in order, a write and a read position and an end
enum { SEGS = 40 };
static char *g_seg[SEGS]; static size_t g_len[SEGS]; static int g_ns, g_i; static size_t g_o, g_w, g_r, g_end;
struct Wire : std::streambuf
{
    Wire(void) { g_ns = g_i = 0; g_o = g_w = g_r = 0; g_end = ~size_t(0); }
    std::streamsize xsputn(const char *p, std::streamsize n)
    {
        if (n == 0) return 0;
        if (g_ns == SEGS) vc_end();
        char *d = (char *)::operator new(n);
        memcpy(d, p, n);
        g_seg[g_ns] = d; g_len[g_ns] = n; g_ns++; g_w += n; return n;
    }
    int_type overflow(int_type c) { const char t = (char)c; xsputn(&t, 1); return c; }
    std::streamsize xsgetn(char *p, std::streamsize n_)
    {
        size_t n = n_;
        const size_t last = g_w < g_end ? g_w : g_end;
        if (n > last - g_r) n = last - g_r;
        const size_t total = n;
        while (n != 0)
        {
            const size_t left = g_len[g_i] - g_o;
            const size_t k = n < left ? n : left;
            memcpy(p, g_seg[g_i] + g_o, k);
            if (k == left) { g_i++; g_o = 0; } else g_o += k;
            p += k; n -= k;
        }
        g_r += total;
        return total;
    }
};
static char &wireByte(size_t at) { int i = 0; while (at >= g_len[i]) at -= g_len[i++]; return g_seg[i][at]; }
// what the serialised object is: any bytes, written in any two pieces with single characters in between and after
static const char *g_p; static size_t g_n1, g_n2, g_n; static int g_c1, g_c2, g_read, g_delivered;
std::ostream &Pothos::Object::serialize(std::ostream &os) const
{
    size_t at = 0;
    os.write(g_p, g_n1); at += g_n1;
    for (int i = 0; i < g_c1; i++) os.rdbuf()->sputc(g_p[at++]);
    os.write(g_p + at, g_n2); at += g_n2;
    for (int i = 0; i < g_c2; i++) os.rdbuf()->sputc(g_p[at++]);
    return os;
}
static int pick(const char *n, int lo, int hi) { return (int)vc_concretize(vc_in(n, lo, hi)); }
static void sameByte(int c, size_t at) { vc_assert(at < g_n ? c == (unsigned char)g_p[at] : c == EOF, "the payload is delivered byte for byte, in order, up to its end"); }
std::istream &Pothos::Object::deserialize(std::istream &is)
{
    g_delivered++;
    std::streambuf *b = is.rdbuf();
    size_t at = 0;
    for (int k = 0; k < g_read; k++)
    {
        switch (pick("how", 0, 4))
        {
        case 0: sameByte(b->sgetc(), at); break;
        case 1: sameByte(b->sbumpc(), at); if (at < g_n) at++; break;
        case 2: { if (at == 0) break; const int c = b->sputbackc(g_p[at-1]); sameByte(c, at-1); at--; break; }
        case 3: { vc_assert((size_t)b->in_avail() == g_n - at || at == g_n, "what is left is counted"); break; }
        case 4:
        {
            const size_t want = vc_in("want", 1, 5000);
            char *d = (char *)vc_alloc(want, 1, "taken");
            const std::streamsize got = b->sgetn(d, want);
            const size_t left = g_n - at;
            if (left == 0) { vc_assert(got <= 0, "nothing is delivered beyond the payload"); break; }
            const size_t expect = want < left ? want : left;
            vc_assert(got == (std::streamsize)expect, "as much is delivered as is asked for and there");
            const size_t j = vc_in("j", 0, 5000); if (j < expect) vc_assert(d[j] == g_p[at + j], "the payload is delivered byte for byte, in order, up to its end");
            at += expect;
        }
        }
    }
    *this = Object(ObjectKwargs());
    return is;
}
static void payload(size_t max, int pieces, bool one = false)
{
    g_n1 = vc_in("n1", 0, max); g_n2 = one ? 0 : vc_in("n2", 0, max); g_c1 = pick("c1", 0, pieces); g_c2 = pick("c2", 0, pieces);
    g_n = g_n1 + g_n2 + g_c1 + g_c2;
    g_p = (const char *)vc_alloc(g_n, 1, "payload");
    g_delivered = 0;
}
VC_OPT(all, ".", "bounded deadline=300 lia")
static void trip(size_t max, int pieces, int reads)
{
    payload(max, pieces); g_read = reads;
    Wire w; std::ostream os(&w);
    sendDatagram(os, ObjectKwargs());
    const size_t one = g_w;
    w.sputn("Z", 1);
    std::istream is(&w);
    recvDatagram(is);
    vc_assert(g_delivered == 1, "one request is delivered once");
    vc_assert(g_r == one, "a receive takes exactly one datagram from the stream");
    vc_cover("end");
}
VC_PROOF(received) { trip(1500, 1, 1); }
VC_PROOF(received_plain) { trip(40, 0, 2); }
VC_PROOF(received_small) { trip(3, 1, 2); }
// a stream that ends early: an error, nothing delivered
VC_PROOF(truncated)
{
    payload(3000, 0); g_read = 0;
    Wire w; std::ostream os(&w);
    sendDatagram(os, ObjectKwargs());
    g_end = vc_in("end", 0, 7000); vc_assume(g_end < g_n + 12);
    std::istream is(&w);
    bool thrown = false;
    try { recvDatagram(is); } catch (const IOException &) { thrown = true; }
    vc_assert(thrown && g_delivered == 0, "a truncated stream is an error");
    vc_cover("end");
}
// any change in header word, length or trailer word: an error, nothing delivered
VC_PROOF(malformed)
{
    payload(20, 0); g_read = 0;
    Wire w; std::ostream os(&w);
    sendDatagram(os, ObjectKwargs());
    const int where = pick("where", 0, 7);
    char &x = wireByte(where < 4 ? where : g_n + 4 + where);
    const char v = (char)vc_u8("changed"); vc_assume(v != x);
    x = v;
    std::istream is(&w);
    bool thrown = false;
    try { recvDatagram(is); } catch (const IOException &) { thrown = true; }
    vc_assert(thrown && g_delivered == 0, "a malformed frame is an error");
    vc_cover("end");
}
// two requests in a row keep their order and their boundaries
VC_PROOF(in_order)
{
    payload(40, 0, true); g_read = 1;
    const char *p1 = g_p; const size_t a1 = g_n1, a2 = g_n2, n1 = g_n;
    Wire w; std::ostream os(&w); std::istream is(&w);
    sendDatagram(os, ObjectKwargs());
    const int d0 = g_delivered; payload(20, 0, true); g_delivered = d0;
    sendDatagram(os, ObjectKwargs());
    const char *p2 = g_p; const size_t n2 = g_n;
    g_p = p1; g_n = n1; recvDatagram(is);
    g_p = p2; g_n = n2; recvDatagram(is);
    vc_assert(g_delivered == 2 && g_r == g_w, "every request is delivered once, in order");
    vc_cover("end");
}
