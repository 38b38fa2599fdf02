// Contracts of data type descriptions (lib/Framework/DType.cpp, include/Pothos/Framework/DType.hpp).
#include "stdpre.h"
#include <Poco/Ascii.h>
#include <Poco/HashMap.h>
#include <Poco/Hash.h>
#define private public
#define protected public
#include <Pothos/Framework/DType.hpp>
#include "noreg.h"
#include "Framework/DType.cpp"
#undef private
#undef protected
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "vc.h"
#include "rbtree.h"
using Pothos::DType;

#ifndef VC_NATIVE
// assumed contracts of the libraries below: text helpers of Poco, strtoull, hash values (any function of the text will do)
static int lower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static bool space(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static size_t hash(const std::string &) { return 0; }
static unsigned long long toull(const char *s, char **end, int)
{
    const char *p = s;
    while (space(*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    const char *d = p; unsigned long long v = 0;
    while (*p >= '0' && *p <= '9') { v = v*10 + (unsigned)(*p++ - '0'); if (p - d > 19) vc_end(); }
    *end = (char *)(p == d ? s : p);
    return neg ? 0 - v : v;
}
static int g_errno; static int *errnoAt(void) { return &g_errno; }
VC_CONTRACT(errno, ".", "^__errno_location$", errnoAt)
// std::to_string gives the decimal digits (the number under test is chosen by its digits)
static size_t g_dim; static std::string *g_digits;
static std::string tos(size_t v)
{
    if (g_digits && v == g_dim) return *g_digits;
    std::string r;
    do { r.insert(r.begin(), char('0' + v%10)); v /= 10; } while (v);
    return r;
}
struct BadArgument : std::exception { const char *what(void) const noexcept { return "invalid argument"; } };
static void badArgument(const char *) { throw BadArgument(); }
VC_CONTRACT(tos, ".", "^std::__cxx11::to_string\\(unsigned long\\)", tos)
VC_CONTRACT(bad, ".", "^std::__throw_(invalid_argument|out_of_range)\\(", badArgument)
VC_CONTRACT(lower, ".", "^Poco::Ascii::toLower", lower)
VC_CONTRACT(space, ".", "^Poco::Ascii::isSpace", space)
VC_CONTRACT(hash, ".", "^Poco::hash\\(std::", hash)
VC_CONTRACT(stoull, ".", "^(__isoc23_)?strtoull$", toull)
#endif
// readable type names: any text that is unique per type
namespace Pothos { namespace Util { std::string typeInfoToString(const std::type_info &t) { return std::string("TYPE ") + t.name(); } } }

// what the documentation promises: the element types, their sizes and categories, and their names
enum { I = 1, S = 2, F = 4, C = 8 };
struct Elem { const char *name; int size, cat; };
static const Elem ELEM[] = {
    {"unspecified", 1, 0}, {"custom", 1, 0},
    {"int8", 1, I|S}, {"uint8", 1, I}, {"int16", 2, I|S}, {"uint16", 2, I}, {"int32", 4, I|S}, {"uint32", 4, I},
    {"int64", 8, I|S}, {"uint64", 8, I}, {"float32", 4, F}, {"float64", 8, F},
    {"complex_int8", 2, C|I|S}, {"complex_uint8", 2, C|I}, {"complex_int16", 4, C|I|S}, {"complex_uint16", 4, C|I},
    {"complex_int32", 8, C|I|S}, {"complex_uint32", 8, C|I}, {"complex_int64", 16, C|I|S}, {"complex_uint64", 16, C|I},
    {"complex_float32", 8, C|F}, {"complex_float64", 16, C|F} };
static const int NELEM = sizeof(ELEM)/sizeof(*ELEM);
struct Alias { const char *text, *name; };
static const Alias ALIAS[] = {
    {"", "unspecified"}, {"byte", "int8"}, {"octet", "int8"}, {"float", "float32"}, {"double", "float64"},
    {"complex64", "complex_float32"}, {"complex128", "complex_float64"},
    {"sint8", "int8"}, {"sint16", "int16"}, {"sint32", "int32"}, {"sint64", "int64"},
    {"complex_sint8", "complex_int8"}, {"complex_sint16", "complex_int16"}, {"complex_sint32", "complex_int32"}, {"complex_sint64", "complex_int64"},
    {"char", "int8"}, {"schar", "int8"}, {"uchar", "uint8"}, {"short", "int16"}, {"sshort", "int16"}, {"ushort", "uint16"},
    {"int", "int32"}, {"sint", "int32"}, {"uint", "uint32"}, {"long", "int64"}, {"slong", "int64"}, {"ulong", "uint64"},
    {"long long", "int64"}, {"slong long", "int64"}, {"ulong long", "uint64"}, {"longlong", "int64"}, {"slonglong", "int64"}, {"ulonglong", "uint64"},
    {"llong", "int64"}, {"sllong", "int64"}, {"ullong", "uint64"} };
static const int NALIAS = sizeof(ALIAS)/sizeof(*ALIAS);
static int pick(const char *n, int lo, int hi) { return (int)vc_concretize(vc_in(n, lo, hi)); }
// any number of lo..hi digits
static size_t digits(size_t lo, size_t hi)
{
    const size_t n = vc_concretize(vc_in("digits", lo, hi));
    size_t v = 0; char t[20];
    for (size_t i = 0; i < n; i++) { const size_t d = vc_in("digit", 0, 9); if (i == 0 && n > 1) vc_assume(d != 0); v = v*10 + d; t[i] = char('0' + d); }
#ifndef VC_NATIVE
    g_dim = v; g_digits = new std::string(t, n);
#endif
    return v;
}
static void is(const DType &d, const Elem &e, size_t dim)
{
    vc_assert(d.elemSize() == e.size, "the element size is that of the named element");
    vc_assert(d.dimension() == dim, "the dimension is the one asked for");
    vc_assert(d.size() == e.size*dim, "the size is the element size times the dimension");
    vc_assert(d.isInteger() == ((e.cat & I) != 0) && d.isSigned() == ((e.cat & S) != 0) && d.isFloat() == ((e.cat & F) != 0) && d.isComplex() == ((e.cat & C) != 0),
              "the category predicates agree with the element");
    vc_assert(d.isCustom() == (e.name[0] == 'c' && e.name[1] == 'u'), "only custom types are custom");
    vc_assert(bool(d) == !(e.name[0] == 'u' && e.name[1] == 'n'), "only the unspecified type is empty");
    vc_assert(d.name() == e.name, "the name is the element's name");
}
static size_t dimension(void) { return vc_in("dim", 0, size_t(1) << 40); }
// by name, and back through the name, for every dimension
VC_PROOF(named)
{
    DType("int8");
    const Elem &e = ELEM[pick("element", 0, NELEM-1)];
    const size_t dim = dimension();
    const DType a(std::string(e.name), dim);
    is(a, e, dim);
    is(DType(e.name), e, 1);
    is(DType::fromDType(a, 7), e, 7);
    const DType b(a.name(), a.dimension());
    vc_assert(b == a && !(b != a), "the name and dimension rebuild an equal type");
    is(DType(), ELEM[0], 1);
    vc_assert(DType() == DType(""), "the empty text is the unspecified type");
    vc_cover("end");
}
VC_PROOF(aliases)
{
    DType("int8");
    const Alias &al = ALIAS[pick("alias", 0, NALIAS-1)];
    const DType want(al.name), got(al.text);
    vc_assert(want == got, "an alias names its element");
    vc_cover("end");
}
template <typename T> static void typed(const char *name)
{
    const size_t dim = dimension();
    const DType d(typeid(T), dim);
    for (int i = 0; i < NELEM; i++) if (std::string(ELEM[i].name) == name) { is(d, ELEM[i], dim); vc_cover("end"); }
    vc_assert(d.elemSize() == sizeof(T), "the element size is the size of the C++ type");
    const DType c(typeid(std::complex<T>), dim);
    const std::string cn = std::string("complex_") + name;
    for (int i = 0; i < NELEM; i++) if (cn == ELEM[i].name) is(c, ELEM[i], dim);
    vc_assert(c.elemSize() == sizeof(std::complex<T>), "the element size is the size of the C++ type");
    vc_assert(DType(typeid(T)) == DType(name) && DType(typeid(std::complex<T>)) == DType(cn), "type and name give equal types");
    vc_assert(!(c == d), "different elements give different types");
}
VC_PROOF(types)
{
    DType("int8");
    switch (pick("type", 0, 12))
    {
    case 0: typed<char>("int8"); break;
    case 1: typed<signed char>("int8"); break;
    case 2: typed<unsigned char>("uint8"); break;
    case 3: typed<short>("int16"); break;
    case 4: typed<unsigned short>("uint16"); break;
    case 5: typed<int>("int32"); break;
    case 6: typed<unsigned>("uint32"); break;
    case 7: typed<long>("int64"); break;
    case 8: typed<unsigned long>("uint64"); break;
    case 9: typed<long long>("int64"); break;
    case 10: typed<unsigned long long>("uint64"); break;
    case 11: typed<float>("float32"); break;
    case 12: typed<double>("float64"); break;
    }
}
VC_PROOF(other_types_refused)
{
    bool thrown = false;
    try { switch (pick("type", 0, 3)) {
        case 0: DType(typeid(std::string)); break; case 1: DType(typeid(void)); break; case 2: DType(typeid(long double)); break; case 3: DType(typeid(DType)); break; } }
    catch (const Pothos::DTypeUnknownError &) { thrown = true; }
    vc_assert(thrown, "a type that is no element type is refused");
    vc_cover("end");
}
// equality: same element and dimension, nothing else; equal types have equal sizes
VC_PROOF(equality)
{
    DType("int8");
    const int i = pick("a", 0, NELEM-1), j = pick("b", 0, NELEM-1);
    const size_t m = dimension(), n = dimension();
    const DType a(std::string(ELEM[i].name), m), b(std::string(ELEM[j].name), n);
    const bool eq = a == b;
    vc_assert(eq == bool((i == j) & (m == n)), "types are equal exactly when element and dimension are");
    vc_assert((a != b) == !eq, "unequal is the opposite of equal");
    vc_assert(!eq || a.size() == b.size(), "equal types have equal sizes");
    vc_cover("end");
}
// the markup text rebuilds an equal type
static void markup(size_t lo, size_t hi)
{
    DType("int8");
    const Elem &e = ELEM[pick("element", 0, NELEM-1)];
    const size_t dim = digits(lo, hi);
    const DType a(std::string(e.name), dim);
    const std::string text = a.toMarkup();
    const DType b(text);
    vc_assert(b == a, "the markup text rebuilds an equal type");
    is(b, e, dim);
    vc_cover("end");
}
VC_PROOF(markup_short) { markup(1, 3); }
VC_PROOF(markup_long) { markup(4, 12); }
VC_OPT(mk, "vcproof_markup", "bounded deadline=300 accel=0 lia")
// whether a text is a given name, in any case (no branching on the text)
static bool sameText(const char *t, size_t n, const char *known)
{
    bool same = true;
    for (size_t i = 0; i < n; i++) same = same & bool((t[i] == known[i]) | ((known[i] >= 'a') & (known[i] <= 'z') & (t[i] == known[i] - 32)));
    return same;
}
// any text up to the bound that is not a known name (in any case) is refused, and a known one gives its element
static void unknown(size_t lo, size_t hi)
{
    const size_t n = vc_concretize(vc_in("length", lo, hi));
    const char *names[NELEM + NALIAS]; int count = 0; DType want[NELEM + NALIAS];
    for (int i = 0; i < NELEM; i++) if (strlen(ELEM[i].name) == n) { want[count] = DType(std::string(ELEM[i].name), 3); names[count++] = ELEM[i].name; }
    for (int i = 0; i < NALIAS; i++) if (strlen(ALIAS[i].text) == n) { want[count] = DType(std::string(ALIAS[i].name), 3); names[count++] = ALIAS[i].text; }
    char t[20];
    for (size_t i = 0; i < n; i++) { t[i] = (char)vc_u8("char"); vc_assume(t[i] != ','); }
    // (the compiler's own one-letter names of the element types are also understood)
    if (n == 1) for (const char *c = "ahstijlmxyfdc"; *c; c++) vc_assume((t[0] != *c) & (t[0] != *c - 32));
    const std::string text(t, n);
    bool thrown = false;
    DType got;
    try { got = DType(text, 3); } catch (const Pothos::DTypeUnknownError &) { thrown = true; }
    bool known = false;
    for (int i = 0; i < count; i++)
    {
        const bool same = sameText(t, n, names[i]);
        known = known | same;
        vc_assert(!same | (!thrown && got == want[i]), "a known name gives its element");
    }
    vc_assert(known | thrown, "an unknown name is refused");
    vc_cover("end");
}
VC_PROOF(unknown_short) { unknown(0, 6); }
VC_PROOF(unknown_long) { unknown(7, 12); }
VC_PROOF(unknown_longer) { unknown(13, 18); }
VC_OPT(un, "vcproof_unknown", "bounded deadline=300 accel=0")
// the dimension part of a markup text: decimal digits, blanks around them, and nothing else
VC_PROOF(dimension_text)
{
    DType("int8");
    const size_t n = vc_concretize(vc_in("length", 0, 4));
    char t[8]; bool digits = false, bad = false, after = false; size_t want = 0;
    for (size_t i = 0; i < n; i++)
    {
        const char c = t[i] = (char)vc_in("char", 32, 126);
        if (c == ' ') { after = after || digits; }
        else if (c >= '0' && c <= '9') { bad = bad || after; digits = true; want = want*10 + (c - '0'); }
        else bad = true;
    }
    bool thrown = false; DType d;
    try { d = DType(std::string("uint16,") + std::string(t, n)); } catch (const Pothos::DTypeUnknownError &) { thrown = true; }
    vc_assert(thrown == (bad || !digits), "a dimension that is no number is refused");
    if (!thrown) is(d, ELEM[5], want);
    vc_cover("end");
}
VC_OPT(dt, "vcproof_dimension_text", "bounded deadline=300 accel=0")
