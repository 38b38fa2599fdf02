// Contracts of the archivers: whatever is written reads back equal, and the reader stops where the writer stopped
// (include/Pothos/Archive/*.hpp, lib/Archive/StreamArchiver.cpp).
#include "stdpre.h"
#define private public
#define protected public
#include <Pothos/Archive.hpp>
#include <Pothos/Archive/Complex.hpp>
#include <Pothos/Archive/Vector.hpp>
#include <Pothos/Archive/Map.hpp>
#include <Pothos/Archive/Set.hpp>
#include <Pothos/Archive/Pair.hpp>
#include <Pothos/Archive/String.hpp>
#include "Archive/StreamArchiver.cpp"
#undef private
#undef protected
#include "Exception.cpp"
#include "Archive/Exception.cpp"
#include "vc.h"
#include "rbtree.h"
using Pothos::Archive::OStreamArchiver;
using Pothos::Archive::IStreamArchiver;

// the stream between writer and reader: an array of bytes with a write and a read position
static unsigned char *g_b; static size_t g_cap, g_w, g_r;
#ifndef VC_NATIVE
struct Ios : std::ios_base
{
    static iostate &state(std::ios_base *s) { return s->*(&Ios::_M_streambuf_state); }
    static iostate &mask(std::ios_base *s) { return s->*(&Ios::_M_exception); }
};
struct Is : std::istream { static std::streamsize &count(std::istream *s) { return s->*(&Is::_M_gcount); } };
// assumed contracts of the C++ stream library: write appends the bytes, read gives the next bytes (fewer at the end)
static std::ostream &put(std::ostream *s, const char *p, std::streamsize n)
{
    vc_assert(n >= 0 && (uint64_t)n <= g_cap - g_w, "writes no more than the value needs");
    memcpy(g_b + g_w, p, n); g_w += n; return *s;
}
static std::istream &get(std::istream *s, char *p, std::streamsize n)
{
    std::streamsize k = n;
    if ((uint64_t)n > g_w - g_r) { k = g_w - g_r; Ios::state(s) = std::ios_base::iostate(Ios::state(s) | std::ios_base::eofbit | std::ios_base::failbit); }
    memcpy(p, g_b + g_r, k); g_r += k; Is::count(s) = k; return *s;
}
static void iosbase(std::ios_base *s) { Ios::mask(s) = std::ios_base::goodbit; Ios::state(s) = std::ios_base::goodbit; }
static void iosend(std::ios_base *) {}
static void iosinit(std::ios *s, std::streambuf *) { Ios::mask(s) = std::ios_base::goodbit; Ios::state(s) = std::ios_base::goodbit; }
VC_CONTRACT(write, ".", "^std::basic_ostream<char, .*>::write", put)
VC_CONTRACT(read, ".", "^std::basic_istream<char, .*>::read\\(", get)
VC_CONTRACT(iosb, ".", "^std::ios_base::ios_base\\(\\)", iosbase)
VC_CONTRACT(iosd, ".", "^std::ios_base::~ios_base\\(\\)", iosend)
VC_CONTRACT(iosi, ".", "^std::basic_ios<char, .*>::init", iosinit)
static wchar_t *wcopy(wchar_t *d, const wchar_t *s, size_t n) { return (wchar_t *)memcpy(d, s, n*sizeof(wchar_t)); }
static wchar_t *wset(wchar_t *d, wchar_t c, size_t n) { n = vc_concretize(n); for (size_t i = 0; i < n; i++) d[i] = c; return d; }
static int wcomp(const wchar_t *a, const wchar_t *b, size_t n) { n = vc_concretize(n); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
VC_CONTRACT(wcpy, ".", "^wmem(cpy|move)$", wcopy)
VC_CONTRACT(wcmp, ".", "^wmemcmp$", wcomp)
VC_CONTRACT(wset, ".", "^wmemset$", wset)
struct Wire
{
    std::ostream os; std::istream is;
    Wire(size_t cap): os(nullptr), is(nullptr) { g_cap = cap; g_b = (unsigned char *)vc_alloc(cap, 1, "stream"); g_w = g_r = 0; }
    void rewind(void) {}
    size_t wrote(void) { return g_w; }
    size_t taken(void) { return g_r; }
    bool fine(void) { return is.rdstate() == std::ios_base::goodbit; }
};
#else
struct Wire
{
    std::ostringstream os; std::istringstream is; bool ok;
    Wire(size_t): ok(true) {}
    void rewind(void) { is.str(os.str()); }
    size_t wrote(void) { return os.str().size(); }
    size_t taken(void) { ok = is.rdstate() == std::ios_base::goodbit; is.clear(); return (size_t)is.tellg(); }
    bool fine(void) { return is.rdstate() == std::ios_base::goodbit; }
};
#endif
static const char *const LAST = "the reader consumes exactly the bytes written";
static const char *const SAME = "the value read is the value written";

template <typename W, typename R, typename F> static void trip(const W &x, R &y, F same)
{
    Wire w(64);
    OStreamArchiver ao(w.os);
    ao << x;
    ao << (unsigned char)0x5a;
    w.rewind();
    IStreamArchiver ai(w.is);
    ai >> y;
    vc_assert(same(), SAME);
    unsigned char end = 0;
    ai >> end;
    vc_assert(end == 0x5a && w.fine() && w.wrote() == w.taken(), LAST);
    vc_cover("end");
}
#define NUM(name, T, V) VC_PROOF(name) { const T x = V; T y = (T)1; trip(x, y, [&]{ return x == y; }); }
NUM(bool_, bool, vc_bool("x"))
NUM(char_, char, vc_u8("x"))
NUM(schar, signed char, vc_u8("x"))
NUM(uchar, unsigned char, vc_u8("x"))
NUM(short_, short, vc_u16("x"))
NUM(ushort, unsigned short, vc_u16("x"))
NUM(int_, int, vc_u32("x"))
NUM(uint, unsigned, vc_u32("x"))
NUM(long_, long, vc_u64("x"))
NUM(ulong, unsigned long, vc_u64("x"))
NUM(llong, long long, vc_u64("x"))
NUM(ullong, unsigned long long, vc_u64("x"))
// across widths
#define CROSS(name, A, B, V) VC_PROOF(name) { const A x = V; vc_assume((A)(B)x == x && ((B)x < 0) == (x < 0)); B y = (B)1; trip(x, y, [&]{ return y == (B)x; }); }
CROSS(int_llong, int, long long, vc_u32("x"))
CROSS(llong_int, long long, int, vc_u64("x"))
CROSS(long_int, long, int, vc_u64("x"))
CROSS(uint_ullong, unsigned, unsigned long long, vc_u32("x"))
CROSS(ulong_uint, unsigned long, unsigned, vc_u64("x"))
// floats: same bits (NaN payloads and signed zeros included)
template <typename F, typename U> static bool bits(const F &a, U u) { U v; memcpy(&v, &a, sizeof(v)); return v == u; }
VC_PROOF(float_) { const uint32_t u = vc_u32("x"); float x, y = 1; memcpy(&x, &u, 4); trip(x, y, [&]{ return bits(y, u); }); }
VC_PROOF(double_) { const uint64_t u = vc_u64("x"); double x, y = 1; memcpy(&x, &u, 8); trip(x, y, [&]{ return bits(y, u); }); }
VC_PROOF(complex_int16)
{
    const std::complex<int16_t> x(vc_u16("re"), vc_u16("im")); std::complex<int16_t> y;
    trip(x, y, [&]{ return x.real() == y.real() && x.imag() == y.imag(); });
}
VC_PROOF(complex_float)
{
    const uint32_t u = vc_u32("re"), v = vc_u32("im"); float a, b; memcpy(&a, &u, 4); memcpy(&b, &v, 4);
    std::complex<float> x, y; x.real(a); x.imag(b);
    trip(x, y, [&]{ return bits(y.real(), u) && bits(y.imag(), v); });
}
// strings of any length and content
VC_PROOF(string)
{
    const size_t n = vc_in("n", 0, 0xffffffffu - 64);
    const char *p = (const char *)vc_alloc(n, 1, "text");
    const std::string x(p, n); std::string y("previous");
    Wire w(n + 64);
    OStreamArchiver ao(w.os);
    ao << x;
    ao << (unsigned char)0x5a;
    w.rewind();
    IStreamArchiver ai(w.is);
    ai >> y;
    vc_assert(y.size() == n, "same length");
    const size_t j = vc_u64("j");
    if (j < n) vc_assert(y[j] == p[j], SAME);
    unsigned char end = 0;
    ai >> end;
    vc_assert(end == 0x5a && w.fine() && w.wrote() == w.taken(), LAST);
    vc_cover("end");
}

VC_PROOF(wstring)
{
    const size_t n = vc_in("n", 0, 3);
    wchar_t t[3]; for (int i = 0; i < 3; i++) t[i] = (wchar_t)vc_u32("c");
    const std::wstring x(t, n); std::wstring y;
    trip(x, y, [&]{ return x == y; });
}
// sequences (bounded length)
VC_PROOF(bytes)
{
    const size_t n = vc_concretize(vc_in("n", 0, 8));
    const unsigned char *p = (const unsigned char *)vc_alloc(n, 1, "bytes");
    const std::vector<unsigned char> x(p, p + n); std::vector<unsigned char> y(1);
    Wire w(n + 64);
    OStreamArchiver ao(w.os);
    ao << x;
    ao << (unsigned char)0x5a;
    w.rewind();
    IStreamArchiver ai(w.is);
    ai >> y;
    vc_assert(y.size() == n, "same length");
    const size_t j = vc_u64("j");
    if (j < n) vc_assert(y[j] == x[j], SAME);
    unsigned char end = 0;
    ai >> end;
    vc_assert(end == 0x5a && w.fine() && w.wrote() == w.taken(), LAST);
    vc_cover("end");
}
VC_OPT(seq, "vcproof_(bytes|ints|bits|map|set|strings|pair|wstring)", "bounded deadline=300")
static size_t few(const char *n) { return vc_concretize(vc_in(n, 0, 3)); }
VC_PROOF(ints)
{
    std::vector<int> x(vc_concretize(vc_in("n", 0, 2))), y(1);
    for (size_t i = 0; i < x.size(); i++) x[i] = (int)vc_u32("x");
    trip(x, y, [&]{ return x == y; });
}
VC_PROOF(bits)
{
    std::vector<bool> x, y(1);
    const size_t n = few("n"); for (size_t i = 0; i < n; i++) x.push_back(vc_split(vc_bool("x")));
    trip(x, y, [&]{ return x == y; });
}
VC_PROOF(strings)
{
    std::vector<std::string> x, y;
    const size_t n = few("n"); for (size_t i = 0; i < n; i++) { char c = vc_u8("c"); x.push_back(std::string(&c, few("len") > 0)); }
    trip(x, y, [&]{ return x == y; });
}
VC_PROOF(pair)
{
    const std::pair<short, unsigned> x(vc_u16("a"), vc_u32("b")); std::pair<short, unsigned> y;
    trip(x, y, [&]{ return x == y; });
}
VC_PROOF(map)
{
    std::map<unsigned short, unsigned char> x, y;
    const size_t n = few("n"); for (size_t i = 0; i < n; i++) { const unsigned short k = vc_u16("k"); x[k] = vc_u8("v"); }
    y[7] = 1;
    trip(x, y, [&]{ return x == y; });
}
VC_PROOF(set)
{
    std::set<unsigned short> x, y;
    const size_t n = few("n"); for (size_t i = 0; i < n; i++) x.insert(vc_u16("k"));
    y.insert(7);
    trip(x, y, [&]{ return x == y; });
}
