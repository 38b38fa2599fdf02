// Contracts of Pothos::Object: shared ownership, typed extraction
// (include/Pothos/Object/ObjectImpl.hpp, lib/Object/Object.cpp).
#include "stdpre.h"
#define private public
#include <Pothos/Object.hpp>
#include <Pothos/Object/ObjectImpl.hpp>
#include "noreg.h"
#include "Object/Object.cpp"
#undef private
#include "Exception.cpp"
#include "Object/Exception.cpp"
#include "vc.h"
using Pothos::Object;
typedef Pothos::Detail::ObjectContainer Impl;
#ifndef VC_NATIVE
// assumed contracts: text of error messages (no effect on behaviour)
static std::string anytext(const std::type_info &) { return std::string(); }
VC_CONTRACT(ti, ".", "^Pothos::Util::typeInfoToString", anytext)
static std::string anyformat(const std::string &, const Poco::Any &, const Poco::Any &) { return std::string(); }
VC_CONTRACT(fmt, ".", "^Poco::format", anyformat)
#else
namespace Pothos { namespace Util { std::string typeInfoToString(const std::type_info &) { return "?"; } } }
#endif
static int g_made, g_dead[4];
struct V { int id; uint64_t x; V(int i, uint64_t x): id(i), x(x) { g_made++; } V(const V &o): id(o.id), x(o.x) { g_made++; } ~V(void) { g_dead[id]++; } };
struct W { uint64_t y; W(uint64_t y): y(y) {} };
struct X : V { X(int i, uint64_t x): V(i, x) {} };

struct World
{
    Impl *p[2]; unsigned e[2];
    World(void)
    {
        g_made = 0;
        for (int i = 0; i < 2; i++)
        {
            g_dead[i] = 0;
            p[i] = Pothos::Detail::makeObjectContainer<V>(i, vc_u64("x"));
            e[i] = 0;
            if (vc_split(vc_bool("shared"))) e[i] = (unsigned)vc_in("others", 1, 1000);
            p[i]->counter = e[i];
        }
    }
    void check(int i, int before, int now) const
    {
        const bool gone = before + e[i] > 0 && now + e[i] == 0;
        vc_assert(g_dead[i] == (gone ? 1 : 0), "the value is destroyed exactly once, when and only when the last handle is gone");
        vc_assert(vc_freed(p[i]) == gone, "its memory is released exactly then");
        if (!gone) vc_assert(p[i]->counter == now + e[i], "the count is the number of handles");
    }
};
static Object *hold(World &w, int i)
{
    Object *h = new Object();
    if (i >= 0) { h->_impl = w.p[i]; w.p[i]->counter = w.p[i]->counter + 1; }
    return h;
}
static int pick(const char *n, int lo, int hi) { return (int)(int64_t)vc_concretize(vc_in(n, lo+1, hi+1)) - 1; }
static Impl *at(World &w, int i) { return i < 0 ? nullptr : w.p[i]; }

VC_PROOF(make)
{
    const uint64_t x = vc_u64("x");
    g_dead[0] = g_dead[1] = g_dead[2] = 0; g_made = 0;
    {
        Object o = Object::emplace<V>(2, x);
        vc_assert(bool(o) && o.unique() && o.type() == typeid(V), "an object holds the value it was made from, alone");
        vc_assert(o.extract<V>().x == x && g_made == 1, "the value is built in place, once");
        const Object q(o);
        vc_assert(&q.extract<V>() == &o.extract<V>() && !o.unique() && !q.unique(), "copies share one value");
        vc_assert(g_dead[2] == 0, "alive while a handle exists");
    }
    vc_assert(g_dead[2] == 1, "destroyed with the last handle");
    {
        V v(3, x); g_made = 0; g_dead[3] = 0;
        Object o(v);
        vc_assert(o.extract<V>().x == x && &o.extract<V>() != &v && g_made == 1, "made from a value: holds a copy");
        Object m = Object::make(v);
        vc_assert(m.extract<V>().x == x && m.unique(), "make holds a copy");
    }
    vc_assert(g_dead[3] == 3, "every copy destroyed once");
    vc_cover("end");
}
VC_PROOF(copy)
{
    World w; const int i = pick("i", -1, 1);
    Object *x = hold(w, i);
    {
        Object y(*x);
        vc_assert(y._impl == at(w, i) && x->_impl == at(w, i) && bool(y) == (i >= 0), "a copy refers to the same value");
        for (int k = 0; k < 2; k++) w.check(k, k == i, 2*(k == i));
    }
    for (int k = 0; k < 2; k++) w.check(k, k == i, k == i);
    vc_cover("end");
}
VC_PROOF(move)
{
    World w; const int i = pick("i", -1, 1);
    Object *x = hold(w, i);
    {
        Object y(std::move(*x));
        vc_assert(y._impl == at(w, i), "a move hands the value over");
        const bool left = x->_impl != nullptr;
        for (int k = 0; k < 2; k++) w.check(k, k == i, (k == i) + (left && k == i));
        vc_assert(!left || x->_impl == at(w, i), "the source is empty or still refers to the value");
        x->_impl = nullptr;
        if (left) w.p[i]->counter = w.p[i]->counter - 1;
    }
    for (int k = 0; k < 2; k++) w.check(k, k == i, 0);
    vc_cover("end");
}
VC_PROOF(destroy)
{
    World w; const int i = pick("i", -1, 1);
    Object *x = hold(w, i);
    delete x;
    for (int k = 0; k < 2; k++) w.check(k, k == i, 0);
    vc_cover("end");
}
VC_PROOF(copy_assign)
{
    World w; const int i = pick("i", -1, 1), j = pick("j", -1, 1);
    Object *x = hold(w, i), *y = hold(w, j);
    *x = *y;
    vc_assert(x->_impl == at(w, j) && y->_impl == at(w, j), "assignment refers to the same value");
    for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), 2*(k == j));
    vc_cover("end");
}
VC_PROOF(self_assign)
{
    World w; const int i = pick("i", -1, 1);
    Object *x = hold(w, i); Object &r = *x;
    *x = r;
    vc_assert(x->_impl == at(w, i), "self assignment changes nothing");
    for (int k = 0; k < 2; k++) w.check(k, k == i, k == i);
    vc_cover("end");
}
VC_PROOF(move_assign)
{
    World w; const int i = pick("i", -1, 1), j = pick("j", -1, 1);
    Object *x = hold(w, i), *y = hold(w, j);
    *x = std::move(*y);
    vc_assert(x->_impl == at(w, j), "the value is handed over");
    const int left = y->_impl == nullptr ? -1 : y->_impl == w.p[0] ? 0 : 1;
    for (int k = 0; k < 2; k++) w.check(k, (k == i) + (k == j), (k == j) + (left == k));
    vc_cover("end");
}
// typed access
VC_PROOF(extract)
{
    const uint64_t x = vc_u64("x");
    Object o = Object::emplace<V>(2, x), n, u = Object::emplace<X>(2, x), w = Object::emplace<W>(x);
    vc_assert(o.extract<V>().x == x && o.extract<V>().id == 2, "extracting as the held type gives the value");
    bool a = false, b = false, c = false, d = false;
    try { o.extract<W>(); } catch (const Pothos::ObjectConvertError &) { a = true; }
    try { n.extract<V>(); } catch (const Pothos::ObjectConvertError &) { b = true; }
    try { u.extract<V>(); } catch (const Pothos::ObjectConvertError &) { c = true; }
    try { w.extract<V>(); } catch (const Pothos::ObjectConvertError &) { d = true; }
    vc_assert(a && d, "extracting as another type throws");
    vc_assert(b, "an empty object yields no value");
    vc_assert(c, "a derived type is another type");
    vc_assert(w.extract<W>().y == x && u.extract<X>().x == x, "each holds its own type");
    vc_assert(!n && n.type() == typeid(Pothos::NullObject), "an empty object says so");
    vc_assert(Object(o).convert<V>().x == x, "converting to the held type gives the value");
    vc_cover("end");
}
VC_PROOF(ref)
{
    const uint64_t x = vc_u64("x"), y = vc_u64("y");
    Object o = Object::emplace<V>(2, x), n;
    o.ref<V>().x = y;
    vc_assert(o.extract<V>().x == y, "the only owner may change the value");
    bool a = false, b = false, c = false;
    {
        Object q(o);
        try { o.ref<V>(); } catch (const Pothos::ObjectConvertError &) { a = true; }
    }
    vc_assert(a, "a shared value cannot be changed");
    try { o.ref<W>(); } catch (const Pothos::ObjectConvertError &) { b = true; }
    vc_assert(b, "nor accessed as another type");
    try { n.ref<V>(); } catch (const Pothos::Exception &) { c = true; }
    vc_assert(c, "nor does an empty object yield a reference");
    vc_assert(o.ref<V>().x == y, "sole ownership restored when the copy is gone");
    vc_cover("end");
}
VC_PROOF(fundamental)
{
    const uint64_t x = vc_u64("x");
    Object o(int(7)), p((unsigned long long)x);
    vc_assert(o.extract<int>() == 7 && p.extract<unsigned long long>() == x, "numbers are held exactly");
    bool a = false, b = false;
    try { o.extract<unsigned>(); } catch (const Pothos::ObjectConvertError &) { a = true; }
    try { p.extract<long long>(); } catch (const Pothos::ObjectConvertError &) { b = true; }
    vc_assert(a && b, "signedness is part of the type");
    Object s("text");
    vc_assert(s.extract<std::string>() == "text", "text is held as a string");
    vc_cover("end");
}
// count under interference
static Impl *volatile g_p;
static volatile unsigned g_others;
static volatile bool g_gone;
static unsigned &count(void) { return *(unsigned *)&g_p->counter; }
static void env(void)
{
    if (vc_freed(g_p)) return;
    const unsigned o = (unsigned)vc_in("o", 0, 1000), c = count();
    const unsigned mine = c - g_others;
    const unsigned n = c > 0 ? o : 0;
    count() = mine + n;
    g_gone = g_gone | ((c > 0) & (mine + n == 0));
    g_others = n;
}
#ifdef VC_NATIVE
static void stress(void)
{
    for (int round = 0; round < 20; round++)
    {
        g_dead[0] = 0;
        Object o = Object::emplace<V>(0, 1);
        std::atomic<bool> bad(false);
        std::atomic<int> atgate(0);
        std::vector<std::thread> t;
        for (int k = 0; k < 4; k++) { Object *h = new Object(o); t.emplace_back([&, h] {
            atgate++; while (atgate < 4) {}
            for (int i = 0; i < 500; i++) { Object c(*h); Object d; d = c; if (g_dead[0]) bad = true; }
            delete h; }); }
        o = Object();
        for (auto &x : t) x.join();
        vc_assert(!bad && g_dead[0] == 1, "destroyed exactly once, after the last handle, whatever other threads do");
    }
}
#endif
static Object *shared(World &w)
{
    g_others = w.e[0]; g_gone = false;
    w.p[0]->counter = w.e[0] + 1;
    g_p = w.p[0];
    Object *x = new Object(); x->_impl = w.p[0];
    vc_set_env(env); vc_sync(true);
    return x;
}
VC_PROOF(shared_copy)
{
#ifdef VC_NATIVE
    stress();
#endif
    World w; Object *x = shared(w);
    Object *y = new Object(*x);
    vc_set_env(nullptr);
    vc_assert(y->_impl == w.p[0] && g_dead[0] == 0 && !g_gone && count() - g_others == 2, "a copy adds one handle whatever other threads do");
    vc_cover("end");
}
VC_PROOF(shared_drop)
{
#ifdef VC_NATIVE
    stress();
#endif
    World w; Object *x = shared(w);
    delete x;
    vc_set_env(nullptr);
    const unsigned sync = vc_sync(false);
    vc_assert(sync & 2, "dropping a handle publishes this thread's accesses (release)");
    if (vc_freed(w.p[0]))
    {
        vc_assert(sync & 1, "the last handle's owner sees the others' accesses (acquire)");
        vc_assert(g_dead[0] == 1 && !g_gone && g_others == 0, "destroyed once, only when no handle is left, by the thread that dropped the last one");
        vc_cover("last");
    }
    else
    {
        vc_assert(count() - g_others == 0, "exactly one handle is dropped whatever other threads do");
        vc_assert(g_dead[0] == 0 && (count() > 0 || g_gone), "destroyed when no handle is left");
        vc_cover("others");
    }
}
