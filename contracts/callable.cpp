// Contracts of Callable: which argument reaches which parameter (lib/Callable/Callable.cpp,
// include/Pothos/Callable/CallableImpl.hpp, CallInterfaceImpl.hpp).
#include "stdpre.h"
#define private public
#define protected public
#include <Pothos/Callable.hpp>
#include <Pothos/Object.hpp>
#include <Pothos/Plugin.hpp>
#include "noreg.h"
#include "Callable/Callable.cpp"
#include "Callable/CallInterface.cpp"
#include "Object/Object.cpp"
#include "Object/Convert.cpp"
#undef private
#undef protected
#include "Plugin/Plugin.cpp"
#include "Plugin/Path.cpp"
#include "Exception.cpp"
#include "Callable/Exception.cpp"
#include "Object/Exception.cpp"
#include "Plugin/Exception.cpp"
#include "vc.h"
#include "rbtree.h"
#include "msgtext.h"
using Pothos::Callable; using Pothos::Object;
template <int K> struct V { uint64_t x; V(uint64_t x): x(x) {} };
typedef V<0> A; typedef V<1> B; typedef V<2> C; typedef V<3> D;
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }

static int g_calls; static uint64_t g_got[4];
static A fcn0(void) { g_calls++; return A(77); }
static A fcn1(A a) { g_calls++; g_got[0] = a.x; return a; }
static A fcn2(A a, const A &b) { g_calls++; g_got[0] = a.x; g_got[1] = b.x; return A(a.x + b.x); }
static A fcn3(A a, A b, A c) { g_calls++; g_got[0] = a.x; g_got[1] = b.x; g_got[2] = c.x; return A(a.x + 2*b.x + 3*c.x); }
static void fcnt(A a, B b, C c, D d) { g_calls++; g_got[0] = a.x; g_got[1] = b.x; g_got[2] = c.x; g_got[3] = d.x; }
static Callable make(int n) { return n == 0 ? Callable(&fcn0) : n == 1 ? Callable(&fcn1) : n == 2 ? Callable(&fcn2) : Callable(&fcn3); }
VC_OPT(all, "call|types|mistyped|bind", "bounded deadline=300")

// a callable in any state: any subset of the parameters bound, the bound list possibly longer or shorter than the arity
struct State
{
    int n; bool on[5]; uint64_t v[5]; Callable c;
    State(int n): n(n), c(make(n))
    {
        const int len = pick("len", 0, 4);
        for (int i = 0; i < 5; i++) { on[i] = false; v[i] = 0; }
        for (int i = 0; i < len; i++)
        {
            on[i] = vc_split(vc_bool("bound"));
            v[i] = vc_u64("bv");
            c._boundArgs.push_back(on[i] ? Object(A(v[i])) : Object());
        }
    }
    int unbound(void) const { int k = 0; for (int i = 0; i < n; i++) k += !on[i]; return k; }
};
// result: 0 called, 1 too few, 2 refused for other reasons
static int calls(int n)
{
    State s(n);
    const int na = pick("given", 0, 3);
    uint64_t in[4]; std::vector<Object> args;
    for (int i = 0; i < na; i++) { in[i] = vc_u64("arg"); args.push_back(Object(A(in[i]))); }
    const int need = s.unbound();
    vc_assert((int)s.c.getNumArgs() == need, "the reported argument count is the number of unbound parameters");
    g_calls = 0;
    bool refused = false; Object r;
    try { r = s.c.opaqueCall(args.data(), args.size()); } catch (const Pothos::CallableArgumentError &) { refused = true; }
    if (na < need)
    {
        vc_assert(refused && g_calls == 0, "too few arguments: an error, and the function is not called");
        return 1;
    }
    if (na > need && refused) { vc_assert(g_calls == 0, "refused calls do not call"); return 2; }
    vc_assert(!refused && g_calls == 1, "the function is called exactly once");
    int k = 0;
    for (int i = 0; i < n; i++) vc_assert(g_got[i] == (s.on[i] ? s.v[i] : in[k++]), "bound values and caller arguments reach their parameters in order");
    const uint64_t expect = n == 0 ? 77 : n == 1 ? g_got[0] : n == 2 ? g_got[0] + g_got[1] : g_got[0] + 2*g_got[1] + 3*g_got[2];
    vc_assert(r.type() == typeid(A) && r.extract<A>().x == expect, "the result is the function's result");
    return 0;
}
VC_PROOF(call0) { if (calls(0) == 0) vc_cover("called"); }
VC_PROOF(call1) { const int r = calls(1); if (r == 0) vc_cover("called"); if (r == 1) vc_cover("few"); }
VC_PROOF(call2) { const int r = calls(2); if (r == 0) vc_cover("called"); if (r == 1) vc_cover("few"); }
VC_PROOF(call3) { const int r = calls(3); if (r == 0) vc_cover("called"); if (r == 1) vc_cover("few"); }
// reported types: those of the unbound parameters, in order
VC_PROOF(types)
{
    Callable c(&fcnt);
    const std::type_info *t[4] = {&typeid(A), &typeid(B), &typeid(C), &typeid(D)};
    bool on[5]; const int len = pick("len", 0, 5);
    for (int i = 0; i < 5; i++) on[i] = false;
    for (int i = 0; i < len; i++) { on[i] = vc_split(vc_bool("bound")); c._boundArgs.push_back(on[i] ? Object(A(1)) : Object()); }
    vc_assert(c.type(-1) == typeid(void), "return type");
    int k = 0;
    for (int i = 0; i < 4; i++) if (!on[i]) { vc_assert(c.type(k) == *t[i], "the reported types are those of the unbound parameters"); k++; }
    vc_assert((int)c.getNumArgs() == k, "the reported count is theirs");
    bool a = false, b = false;
    try { c.type(k); } catch (const Pothos::CallableArgumentError &) { a = true; }
    try { c.type(-2); } catch (const Pothos::CallableArgumentError &) { b = true; }
    vc_assert(a && b, "no type is reported for parameters that do not exist");
    vc_cover("end");
}
// arguments of another type are refused
VC_PROOF(mistyped)
{
    Callable c(&fcnt);
    const int bad = pick("bad", -1, 3), bound = pick("bound", -1, 3);
    Object o[4] = {Object(A(vc_u64("a"))), Object(B(vc_u64("b"))), Object(C(vc_u64("c"))), Object(D(vc_u64("d")))};
    uint64_t want[4] = {o[0].extract<A>().x, o[1].extract<B>().x, o[2].extract<C>().x, o[3].extract<D>().x};
    if (bad >= 0) o[bad] = Object(V<9>(1));
    std::vector<Object> args;
    for (int i = 0; i < 4; i++) if (i == bound) c.bind(Object(o[i]), i); else args.push_back(o[i]);
    g_calls = 0; bool refused = false;
    Object r;
    try { r = c.opaqueCall(args.data(), args.size()); } catch (const Pothos::CallableArgumentError &) { refused = true; }
    if (bad >= 0) vc_assert(refused && g_calls == 0, "an argument of the wrong type: an error, and the function is not called");
    else
    {
        vc_assert(!refused && g_calls == 1 && !r, "a function without result returns an empty object");
        for (int i = 0; i < 4; i++) vc_assert(g_got[i] == want[i], "every argument reaches its own parameter");
        vc_cover("called");
    }
    vc_cover("end");
}
// binding histories
VC_PROOF(bind)
{
    State s(3);
    const int at = pick("at", 0, 4); const uint64_t v = vc_u64("v");
    Callable &r = s.c.bind(A(v), at);
    vc_assert(&r == &s.c, "chains");
    vc_assert(s.c._boundArgs.size() > (size_t)at, "remembered");
    for (int i = 0; i < 5; i++)
    {
        const bool on = i == at || s.on[i];
        const bool is = i < (int)s.c._boundArgs.size() && bool(s.c._boundArgs[i]);
        vc_assert(is == on, "binding binds that parameter and no other");
        if (on) vc_assert(s.c._boundArgs[i].extract<A>().x == (i == at ? v : s.v[i]), "to that value; other bindings keep theirs");
    }
    vc_cover("end");
}
VC_PROOF(unbind)
{
    State s(3);
    const int at = pick("at", 0, 4);
    s.c.unbind(at);
    for (int i = 0; i < 5; i++)
    {
        const bool is = i < (int)s.c._boundArgs.size() && bool(s.c._boundArgs[i]);
        vc_assert(is == (i != at && s.on[i]), "unbinding frees that parameter and no other");
        if (is) vc_assert(s.c._boundArgs[i].extract<A>().x == s.v[i], "other bindings keep their value");
    }
    vc_cover("end");
}
// wrappers
struct K { uint64_t k; K(uint64_t k): k(k) {} K(A a, A b): k(a.x - b.x) {} A add(A a) { return A(k + a.x); } A sub(A a) const { return A(k - a.x); } uint64_t &ref(void) { return k; } };
VC_PROOF(wrappers)
{
    const uint64_t x = vc_u64("x"), y = vc_u64("y");
    K k(x);
    vc_assert(Callable(&K::add).call(std::ref(k), A(y)).extract<A>().x == x + y, "member functions");
    vc_assert(Callable(&K::sub).call(std::ref(k), A(y)).extract<A>().x == x - y, "constant member functions");
    vc_assert(Callable::factory<K, A, A>().call(A(x), A(y)).extract<K>().k == x - y, "constructors");
    const std::function<A(A)> f = [y](A a) { return A(a.x ^ y); };
    vc_assert(Callable(f).call(A(x)).extract<A>().x == (x ^ y), "function objects");
    bool a = false, b = false, c = false;
    try { Callable().call(A(x)); } catch (const Pothos::CallableNullError &) { a = true; }
    try { Callable().getNumArgs(); } catch (const Pothos::CallableNullError &) { b = true; }
    try { Callable().type(0); } catch (const Pothos::CallableNullError &) { c = true; }
    vc_assert(a && b && c && !Callable() && bool(Callable(f)), "an empty callable cannot be called");
    vc_cover("end");
}
