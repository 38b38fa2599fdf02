// Contracts of Pothos::Util::SpinLock and SpinLockRW under interference: before every atomic access of the
// code under proof an environment step lets any number of other threads perform any legal sequence of
// lock operations (rely). Guarantee: what the function does to the lock is itself legal.
#include <atomic>
#include <thread>
#include <chrono>
#include <vector>
#include <mutex>
#define private public
#include <Pothos/Util/SpinLock.hpp>
#include <Pothos/Util/SpinLockRW.hpp>
#undef private
#include "vc.h"
using namespace Pothos::Util;
static_assert(sizeof(SpinLock) == 1, "one byte");

#ifdef VC_NATIVE
// native counterpart: real threads hammer the lock (bounded search)
template <typename F> static void hammer(int n, const F &f)
{
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back(f, i);
    for (auto &x : t) x.join();
}
#endif

// ------------------------------------------------------------------ SpinLock
static SpinLock *volatile g_lock;
static volatile bool g_others;            // ghost: another thread holds the lock
static bool locked_now(void) { return *(volatile unsigned char *)g_lock != 0; }
static void spin_env(void)
{
    unsigned char &w = *(unsigned char *)g_lock;
    if (w != 0 && !g_others) return;      // held by this thread: other threads cannot change it
    const bool h = vc_bool("others");
    g_others = h;
    w = h;
}
VC_PROOF(spin_construct)
{
    SpinLock l;
    g_lock = &l;
    vc_assert(!locked_now(), "a new lock is free");
    if (l.try_lock()) { vc_assert(!l.try_lock(), "a taken lock cannot be taken again"); vc_cover("taken"); l.unlock(); vc_assert(!locked_now(), "a released lock is free"); }
    vc_cover("end");
}
VC_PROOF(spin_try_lock)
{
#ifndef VC_NATIVE
    SpinLock l;
    g_lock = &l;
    g_others = false;
    vc_sync(true);
    vc_set_env(spin_env);
    const bool r = l.try_lock();
    vc_set_env(nullptr);
    if (r)
    {
        vc_assert(!g_others, "try_lock succeeds only when no other thread holds the lock");
        vc_assert(locked_now(), "a successful try_lock holds the lock");
        vc_assert(vc_sync(false) & 1, "acquiring orders later accesses (acquire)");
        vc_cover("got");
    }
    else
    {
        vc_assert(locked_now() == g_others, "a failed try_lock leaves the lock as it was");
        vc_cover("refused");
    }
#else
    static SpinLock l; static int inside = 0; static long total = 0; long want = 0;
    inside = 0; total = 0;
    std::atomic<long> got(0); std::atomic<bool> bad(false);
    hammer(4, [&](int) { for (int i = 0; i < 3000; i++) if (l.try_lock()) { if (++inside != 1) bad = true; total++; got++; --inside; l.unlock(); } });
    want = got;
    vc_assert(!bad && total == want, "try_lock succeeds only when no other thread holds the lock");
#endif
    vc_cover("end");
}
// contract of try_lock as used by lock()
static volatile unsigned long g_acquired;
static bool try_contract(void *)
{
    const bool r = vc_bool("try");
    if (r) g_acquired = g_acquired + 1;
    return r;
}
VC_CONTRACT(spin_try, "vcproof_spin_lock", "^Pothos::Util::SpinLock::try_lock", try_contract)
VC_PROOF(spin_lock)
{
#ifndef VC_NATIVE
    SpinLock l;
    g_acquired = 0;
    l.lock();
    vc_assert(g_acquired == 1, "lock returns only after acquiring, and acquires once");
#else
    static SpinLock l; static long total; total = 0;
    hammer(4, [&](int) { for (int i = 0; i < 3000; i++) { std::lock_guard<SpinLock> g(l); volatile long &t = total; t = t + 1; } });
    vc_assert(total == 12000, "lock returns only after acquiring, and acquires once");
#endif
    vc_cover("end");
}
VC_PROOF(spin_unlock)
{
    SpinLock l;
    g_lock = &l;
    g_others = false;
    *(unsigned char *)&l = 1;             // held by this thread
    vc_sync(true);
#ifndef VC_NATIVE
    vc_set_env(spin_env);
#endif
    l.unlock();
    vc_set_env(nullptr);
    vc_assert(!locked_now(), "unlock frees the lock");
    vc_assert(vc_sync(false) & 2, "releasing orders earlier accesses (release)");
    vc_cover("end");
}

// ------------------------------------------------------------------ SpinLockRW
static SpinLockRW *volatile g_rw;
static volatile unsigned g_oreaders;      // ghost: number of other threads reading
static volatile bool g_owriter;           // ghost: another thread writes
static const unsigned WR = unsigned(~0u);
static unsigned word(void) { return *(volatile unsigned *)g_rw; }
static const unsigned MAXR = 1u << 30;    // fewer than 2^30 simultaneous readers
static void rw_env(void)
{
    unsigned &w = *(unsigned *)g_rw;
    const bool mew = (w == WR) && !g_owriter;
    if (mew) return;                      // this thread writes: nobody else can enter
    const unsigned mine = (w == WR) ? 0 : w - g_oreaders;
    const bool ow = vc_bool("owriter");
    const unsigned r = vc_u32("oreaders");
    vc_assume(r < MAXR);
    vc_assume(!(ow && (r != 0 || mine != 0)));
    g_owriter = ow; g_oreaders = r;
    w = ow ? WR : r + mine;
}
static void rw_start(SpinLockRW &l, unsigned mine)
{
    g_rw = &l; g_oreaders = 0; g_owriter = false;
    *(unsigned *)&l = mine;
    vc_sync(true);
#ifndef VC_NATIVE
    vc_set_env(rw_env);
#endif
}
VC_PROOF(rw_construct)
{
    SpinLockRW l;
    g_rw = &l;
    vc_assert(word() == 0, "a new lock is free");
    vc_cover("end");
}
VC_PROOF(rw_try_lock)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    rw_start(l, 0);
    const bool r = l.try_lock();
    vc_set_env(nullptr);
    if (r)
    {
        vc_assert(!g_owriter && g_oreaders == 0, "write lock granted only when nobody reads or writes");
        vc_assert(word() == WR, "a granted write lock is held");
        vc_assert(vc_sync(false) & 1, "acquiring orders later accesses (acquire)");
        vc_cover("got");
    }
    else
    {
        vc_assert(word() == (g_owriter ? WR : g_oreaders), "a failed try_lock leaves the lock as it was");
        vc_cover("refused");
    }
#else
    static SpinLockRW l; static volatile long a, b; a = b = 0; std::atomic<bool> bad(false);
    hammer(4, [&](int k) { for (int i = 0; i < 2000; i++) {
        if (k & 1) { if (l.try_lock()) { a = a + 1; b = b + 1; if (a != b) bad = true; l.unlock(); } }
        else if (l.try_lock_shared()) { if (a != b) bad = true; l.unlock_shared(); } } });
    vc_assert(!bad && a == b, "write lock granted only when nobody reads or writes");
    vc_assert(l.try_lock(), "everything released"); l.unlock();
#endif
    vc_cover("end");
}
VC_PROOF(rw_try_lock_shared)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    const unsigned mine = vc_u32("mine");   // this thread may already read (recursively)
    vc_assume(mine < MAXR);
    rw_start(l, mine);
    const bool r = l.try_lock_shared();
    vc_set_env(nullptr);
    if (r)
    {
        vc_assert(!g_owriter, "read lock granted only when nobody writes");
        vc_assert(word() == g_oreaders + mine + 1, "a granted read lock counts one more reader");
        vc_assert(vc_sync(false) & 1, "acquiring orders later accesses (acquire)");
        vc_cover("got");
    }
    else
    {
        vc_assert(word() == (g_owriter ? WR : g_oreaders + mine), "a failed try_lock_shared leaves the lock as it was");
        vc_cover("refused");
    }
#else
    vcproof_rw_try_lock();
#endif
    vc_cover("end");
}
VC_PROOF(rw_unlock_shared)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    const unsigned mine = vc_u32("mine");
    vc_assume(mine > 0 && mine < MAXR);
    rw_start(l, mine);
    l.unlock_shared();
    vc_set_env(nullptr);
    vc_assert(!g_owriter, "no writer enters while this thread reads");
    vc_assert(word() == g_oreaders + mine - 1, "releasing a read lock removes exactly one reader");
    vc_assert(vc_sync(false) & 2, "releasing orders earlier accesses (release)");
#else
    vcproof_rw_try_lock();
#endif
    vc_cover("end");
}
VC_PROOF(rw_unlock)
{
    SpinLockRW l;
    rw_start(l, WR);
    l.unlock();
    vc_set_env(nullptr);
    vc_assert(word() == 0, "releasing the write lock frees it");
    vc_assert(vc_sync(false) & 2, "releasing orders earlier accesses (release)");
    vc_cover("end");
}
static volatile unsigned long g_shared;
static bool try_shared_contract(void *)
{
    const bool r = vc_bool("try");
    if (r) g_shared = g_shared + 1;
    return r;
}
VC_CONTRACT(rw_try, "vcproof_rw_lock", "^Pothos::Util::SpinLockRW::try_lock\\(", try_contract)
VC_CONTRACT(rw_trys, "vcproof_rw_lock", "^Pothos::Util::SpinLockRW::try_lock_shared", try_shared_contract)
VC_PROOF(rw_lock)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    g_acquired = 0; g_shared = 0;
    l.lock();
    vc_assert(g_acquired == 1 && g_shared == 0, "lock returns only after acquiring the write lock once");
#else
    vcproof_rw_try_lock();
    static SpinLockRW l; static long total; total = 0;
    hammer(4, [&](int) { for (int i = 0; i < 3000; i++) { l.lock(); volatile long &t = total; t = t + 1; l.unlock(); } });
    vc_assert(total == 12000, "lock returns only after acquiring the write lock once");
#endif
    vc_cover("end");
}
VC_PROOF(rw_lock_shared)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    g_acquired = 0; g_shared = 0;
    l.lock_shared();
    vc_assert(g_shared == 1 && g_acquired == 0, "lock_shared returns only after acquiring one read lock");
#else
    static SpinLockRW l; static volatile long a, b; a = b = 0; std::atomic<bool> bad(false);
    hammer(4, [&](int k) { for (int i = 0; i < 2000; i++) {
        if (k == 1) { l.lock(); a = a + 1; b = b + 1; l.unlock(); }
        else { SpinLockRW::SharedLock g(l); if (a != b) bad = true; } } });
    vc_assert(!bad, "lock_shared returns only after acquiring one read lock");
#endif
    vc_cover("end");
}
static void lock_shared_contract(void *l) { g_shared = g_shared + 1; }
static void unlock_shared_contract(void *l) { vc_assert(g_shared > 0, "unlock_shared precondition: read lock held"); g_shared = g_shared - 1; }
VC_CONTRACT(sc1, "vcproof_rw_scoped", "^Pothos::Util::SpinLockRW::lock_shared", lock_shared_contract)
VC_CONTRACT(sc2, "vcproof_rw_scoped", "^Pothos::Util::SpinLockRW::unlock_shared", unlock_shared_contract)
VC_PROOF(rw_scoped)
{
#ifndef VC_NATIVE
    SpinLockRW l;
    g_shared = 0;
    {
        SpinLockRW::SharedLock g(l);
        vc_assert(g_shared == 1, "a scoped read lock holds one read lock");
    }
    vc_assert(g_shared == 0, "a scoped read lock is given back");
#else
    SpinLockRW l;
    g_rw = &l;
    { SpinLockRW::SharedLock g(l); vc_assert(word() == 1, "a scoped read lock holds one read lock"); }
    vc_assert(word() == 0, "a scoped read lock is given back");
#endif
    vc_cover("end");
}
