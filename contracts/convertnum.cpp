// Contracts of the numeric object conversions (lib/Object/Builtin/ConvertCommonImpl.hpp).
#include "stdpre.h"
#include "noreg.h"
#include "Object/Builtin/ConvertCommonImpl.hpp"
#include "Exception.cpp"
#include "vc.h"
#ifndef VC_NATIVE
// assumed contracts: text of error messages (no effect on behaviour)
static std::string anytext(const std::type_info &) { return std::string(); }
VC_CONTRACT(ti, ".", "^Pothos::Util::typeInfoToString", anytext)
static std::string anyformat(void) { return std::string(); }
VC_CONTRACT(fmt, ".", "^Poco::format", anyformat)
VC_CONTRACT(tos, ".", "^std::__cxx11::to_string", anyformat)
#else
namespace Pothos { namespace Util { std::string typeInfoToString(const std::type_info &) { return "?"; } } }
#endif
template <typename T> static T any(const char *n)
{
    const uint64_t u = vc_u64(n); T x; memcpy(&x, &u, sizeof(T)); return x;
}
template <typename T> static bool isnum(const T &x) { return x == x; }
// the value of x, in the output type, when the output type can hold it (and then only)
template <typename Out, typename In, bool OI, bool II> struct Spec;
template <typename Out, typename In> struct Spec<Out, In, true, true>
{
    static bool fits(In x)
    {
        if (x < 0) return std::is_signed<Out>::value && (long long)x >= (long long)std::numeric_limits<Out>::min();
        return (unsigned long long)x <= (unsigned long long)std::numeric_limits<Out>::max();
    }
    static bool may(In x) { return fits(x); }
    static bool same(In x, Out y) { return ((x < 0) == (y < 0)) && (long long)x == (long long)y; }
};
template <typename Out, typename In> struct Spec<Out, In, true, false>
{
    static In top(void) { return (In)(1ull << (std::numeric_limits<Out>::digits - 1)) * 2; }
    // whole values that the type can hold must convert; fractions may also be refused next to the limits
    static bool may(In x)
    {
        const In lo = std::is_signed<Out>::value ? -top() : In(0);
        if (sizeof(Out) >= sizeof(In)) return x >= lo && x < top();
        return x > lo - 1 && x < top();
    }
    static bool fits(In x)
    {
        const In lo = std::is_signed<Out>::value ? -top() : In(0);
        if (std::numeric_limits<Out>::digits >= std::numeric_limits<In>::digits) return x >= lo && x < top();
        return x >= lo && x <= top() - 1;
    }
    static bool same(In x, Out y) { return y == (Out)x; }
};
template <typename Out, typename In> struct Spec<Out, In, false, true>
{
    static bool fits(In) { return true; }
    static bool may(In) { return true; }
    static bool same(In x, Out y) { return y == (Out)x; }
};
template <typename Out, typename In> struct Spec<Out, In, false, false>
{
    static bool fits(In x) { return (double)x >= -(double)std::numeric_limits<Out>::max() && (double)x <= (double)std::numeric_limits<Out>::max(); }
    static bool may(In x) { return fits(x) || !isnum(x) || (x - x) != (x - x); }
    static bool same(In x, Out y) { return isnum(x) ? y == (Out)x : !isnum(y); }
};
template <typename In, typename Out> static void real(void)
{
    typedef Spec<Out, In, std::is_integral<Out>::value, std::is_integral<In>::value> S;
    const In x = any<In>("x");
    bool refused = false; Out y = Out();
    try { y = convertNum<In, Out>(x); } catch (const Pothos::RangeException &) { refused = true; }
    vc_assert(refused || S::may(x), "a value the target cannot hold is refused with a range error");
    if (!refused && S::may(x)) vc_assert(S::same(x, y), "a converted number keeps its value");
    vc_assert(!refused || !S::fits(x), "a value the target can hold is converted");
    vc_cover("end");
}
template <typename In, typename Out> static void cplx(void)
{
    typedef Spec<Out, In, std::is_integral<Out>::value, std::is_integral<In>::value> S;
    const std::complex<In> c(any<In>("re"), any<In>("im"));
    bool refused = false; Out y = Out();
    try { y = convertNum<std::complex<In>, Out>(c); } catch (const Pothos::RangeException &) { refused = true; }
    if (c.imag() != 0) vc_assert(refused, "a number with an imaginary part has no real value");
    else
    {
        vc_assert(refused || S::may(c.real()), "a value the target cannot hold is refused with a range error");
        if (!refused && S::may(c.real())) vc_assert(S::same(c.real(), y), "a converted number keeps its value");
        vc_assert(!refused || !S::fits(c.real()), "a value the target can hold is converted");
        vc_cover("real");
    }
    vc_cover("end");
}
template <typename In, typename Out> static void tocplx(void)
{
    typedef Spec<Out, In, std::is_integral<Out>::value, std::is_integral<In>::value> S;
    const In x = any<In>("x"), z = any<In>("z");
    vc_assume(S::fits(x) && S::fits(z));
    const std::complex<Out> a = convertNum<In, std::complex<Out>>(x);
    vc_assert(S::same(x, a.real()) && a.imag() == 0, "a real number becomes a complex number with that real part");
    const std::complex<Out> b = convertNum<std::complex<In>, std::complex<Out>>(std::complex<In>(x, z));
    vc_assert(S::same(x, b.real()) && S::same(z, b.imag()), "both parts keep their value");
    vc_cover("end");
}
#define R(i, o) VC_PROOF(real_##i##_##o) { real<i, o>(); }
#define FROM(i) R(i, char) R(i, uchar) R(i, schar) R(i, ushort) R(i, sshort) R(i, uint) R(i, sint) R(i, ulong) R(i, slong) R(i, ullong) R(i, sllong) R(i, float) R(i, double)
FROM(sllong) FROM(ullong) FROM(double)
R(char, sllong) R(uchar, ullong) R(schar, sllong) R(ushort, ullong) R(sshort, sllong) R(uint, ullong) R(sint, sllong) R(ulong, ullong) R(slong, sllong) R(float, double)
R(float, sllong) R(float, uint)
#define C(i, o) VC_PROOF(cplx_##i##_##o) { cplx<i, o>(); }
C(double, char) C(double, uchar) C(double, schar) C(double, ushort) C(double, sshort) C(double, uint) C(double, sint) C(double, ulong) C(double, slong) C(double, ullong) C(double, sllong) C(double, float) C(double, double)
#define T(i, o) VC_PROOF(tocplx_##i##_##o) { tocplx<i, o>(); }
T(sllong, float) T(sllong, double) T(ullong, float) T(ullong, double) T(double, float) T(double, double) T(float, double)
T(schar, sllong) T(sshort, sllong) T(sint, sllong) T(slong, sllong)
