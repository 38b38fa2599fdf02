// Contracts of ActorInterface (lib/Framework/ActorInterface.hpp) under interference. Before every atomic access
// of the code under proof, other threads (any number of external callers, and the worker when the code under
// proof is an external call) perform any legal steps.
#include <atomic>
#include <mutex>
#include <thread>
#include <vector>
#include <chrono>
#include <condition_variable>
#define private public
#include "Framework/ActorInterface.hpp"
#undef private
#include "vc.h"

#ifdef VC_NATIVE
template <typename F> static void hammer(int n, const F &f)
{
    std::vector<std::thread> t;
    for (int i = 0; i < n; i++) t.emplace_back(f, i);
    for (auto &x : t) x.join();
}
static void stress(void)
{
    // one worker, three external callers, one notifier; a shared unprotected counter checks exclusion,
    // and every flagged change must be seen by a later worker iteration
    ActorInterface a; a.enableWaitMode(true);
    static volatile long inside; inside = 0;
    std::atomic<bool> bad(false), stop(false);
    std::atomic<long> posted(0), seen(0);
    std::thread w([&] {
        while (!stop) if (a.workerThreadAcquire(false)) { inside = inside + 1; if (inside != 1) bad = true; seen = posted.load(); inside = inside - 1; a.workerThreadRelease(); }
    });
    hammer(3, [&](int k) { for (int i = 0; i < 300; i++) {
        if (k == 2) { posted++; a.flagExternalChange(); }
        else { ActorInterfaceLock l(&a); inside = inside + 1; if (inside != 1) bad = true; inside = inside - 1; } } });
    posted++; a.flagExternalChange();
    const auto t0 = std::chrono::steady_clock::now();
    while (seen != posted && std::chrono::steady_clock::now() - t0 < std::chrono::seconds(5)) std::this_thread::yield();
    stop = true; w.join();
    vc_assert(!bad, "at most one thread inside the actor");
    vc_assert(seen == posted, "a flagged change is seen by a later worker iteration");
}
#endif

static ActorInterface *volatile g_a;
static volatile bool g_others;      // ghost: another thread holds the actor
static volatile bool g_pending;     // ghost: a change was flagged and no worker iteration has taken it
static volatile bool g_workerOther; // ghost: the worker is another thread (may take the change)
static unsigned char &lockw(void) { return *(unsigned char *)&g_a->_extCallLock; }
static unsigned char &changew(void) { return *(unsigned char *)&g_a->_changeFlagged; }
static unsigned &extw(void) { return *(unsigned *)&g_a->_externalAcquired; }
static volatile unsigned g_ext;     // ghost: other external callers inside or waiting
static void env(void)
{
    // other threads flag changes; another worker iteration may take a flagged change
    const unsigned char f = vc_bool("flag"), t = vc_bool("take") & g_workerOther;
    changew() = (changew() & !f) | t;
    g_pending = (g_pending | f) & !t;
    // lock traffic of others
    const unsigned char mineHeld = (lockw() != 0) & !g_others;
    const unsigned char h = vc_bool("others") & !mineHeld;
    g_others = h;
    lockw() = h | mineHeld;
    // external callers come and go
    const unsigned mine = extw() - g_ext;
    const unsigned e = vc_u32("ext");
    vc_assume(e < 1000);
    g_ext = e;
    extw() = e + mine;
}
// std::condition_variable timed waits: any outcome (wake-up or timeout), no other effect; time is not modelled
static int wait_contract(void *, void *, void *) { return vc_bool("timeout"); }
VC_CONTRACT(cvw, ".", "^std::cv_status std::condition_variable::(__wait_until_impl|wait_for|wait_until)<", wait_contract)
VC_OPT(wakeups, "worker_acquire_(wait|idle)", "unroll=3 bounded")
static void start(ActorInterface &a)
{
    g_a = &a;
    g_others = false;
    g_ext = 0;
    const bool pend = vc_bool("pending");
    g_pending = pend;
    changew() = !pend;
    g_workerOther = false;
}
VC_PROOF(construct)
{
    ActorInterface a;
    g_a = &a;
    vc_assert(lockw() == 0, "a new actor is free");
    vc_assert(extw() == 0, "no external caller");
    vc_cover("end");
}
static inline __attribute__((always_inline)) void worker_acquire(const bool wait)
{
#ifndef VC_NATIVE
    ActorInterface a;
    start(a);
    vc_sync(true);
    vc_set_env(env);
    const bool r = a.workerThreadAcquire(wait);
    vc_set_env(nullptr);
    if (r)
    {
        vc_assert(lockw() != 0 && !g_others, "the worker enters only while no other thread is inside");
        vc_assert(vc_sync(false) & 1, "entering orders later accesses (acquire)");
        vc_cover("entered");
    }
    else
    {
        vc_assert((lockw() != 0) == g_others, "a refused worker holds nothing");
        vc_assert(!g_pending || changew() == 0, "a refused worker iteration loses no flagged change");
        vc_cover("refused");
    }
    vc_assert(extw() == g_ext, "the worker is not counted as an external caller");
#else
    stress();
#endif
    vc_cover("end");
}
VC_PROOF(worker_acquire_nowait) { worker_acquire(false); }
VC_PROOF(worker_acquire_wait) { worker_acquire(true); }
VC_PROOF(worker_acquire_idle)
{
    // no interference: the worker enters exactly when a change is pending and nobody else is in
    ActorInterface a;
    g_a = &a;
    const bool change = vc_bool("change"), busy = vc_bool("busy");
    const unsigned ext = vc_bool("ext");
    changew() = !change; lockw() = busy; extw() = ext;
    const bool r = a.workerThreadAcquire(vc_bool("wait"));
    if (change && !busy && ext == 0) { vc_assert(r, "a pending change is taken when the actor is free"); vc_cover("taken"); }
    if (!change) vc_assert(!r, "no iteration without a change");
    if (busy) vc_assert(!r, "no entry while the actor is held");
    if (r) vc_assert(changew() != 0, "the change is taken once");
    vc_cover("end");
}
VC_PROOF(worker_release)
{
#ifndef VC_NATIVE
    ActorInterface a;
    start(a);
    lockw() = 1;                     // held by the worker
    vc_sync(true);
    vc_set_env(env);
    a.workerThreadRelease();
    vc_set_env(nullptr);
    vc_assert((lockw() != 0) == g_others, "the worker gives the actor back");
    vc_assert(!g_pending || changew() == 0, "releasing loses no flagged change");
    vc_assert(vc_sync(false) & 2, "leaving orders earlier accesses (release)");
    vc_assert(extw() == g_ext, "external caller count untouched");
#else
    stress();
#endif
    vc_cover("end");
}
// contracts of the spin lock operations, used for the unbounded acquire loop of an external call
static volatile unsigned g_tries;
static bool try_contract(void *)
{
    const bool r = vc_bool("try");
    if (r) g_tries = g_tries + 1;
    return r;
}
static void unlock_contract(void *)
{
    vc_assert(g_tries > 0, "unlock precondition: held");
    g_tries = g_tries - 1;
}
VC_CONTRACT(try_, "vcproof_(external_acquire|scoped)", "^Pothos::Util::SpinLock::try_lock", try_contract)
VC_CONTRACT(unl_, "vcproof_(external_acquire|scoped)", "^Pothos::Util::SpinLock::unlock", unlock_contract)
VC_PROOF(external_acquire)
{
#ifndef VC_NATIVE
    union U { ActorInterface a; U(void){} ~U(void){} } u;
    g_tries = 1;
    new (&u.a) ActorInterface();
    g_a = &u.a;
    g_tries = 0;
    const unsigned before = vc_u32("before");
    vc_assume(before < 1000);
    extw() = before;
    u.a.externalCallAcquire();
    vc_assert(g_tries == 1, "an external caller returns only after acquiring the actor, once");
    vc_assert(extw() == before + 1, "one more external caller counted");
#else
    stress();
#endif
    vc_cover("end");
}
VC_PROOF(external_release)
{
#ifndef VC_NATIVE
    ActorInterface a;
    start(a);
    g_workerOther = true;
    lockw() = 1;                     // held by this external caller
    extw() = 1;
    const bool alreadyPending = g_pending;
    vc_sync(true);
    vc_set_env(env);
    a.externalCallRelease();
    vc_set_env(nullptr);
    vc_assert((lockw() != 0) == g_others, "the external caller gives the actor back");
    vc_assert(extw() == g_ext, "one external caller less");
    vc_assert(vc_sync(false) & 2, "leaving orders earlier accesses (release)");
    vc_assert(!g_pending || changew() == 0, "a change flagged meanwhile is not lost");
#else
    stress();
#endif
    vc_cover("end");
}
VC_PROOF(external_release_flags)
{
    // after a call the worker is told to look again
    ActorInterface a;
    g_a = &a;
    changew() = vc_bool("nochange"); lockw() = 1; extw() = 1;
    a.externalCallRelease();
    vc_assert(changew() == 0, "an external call flags a change for the worker");
    vc_assert(lockw() == 0 && extw() == 0, "the actor is free after the call");
    vc_cover("end");
}
VC_PROOF(flag_external)
{
    ActorInterface a;
    g_a = &a;
    changew() = vc_bool("nochange");
    const bool held = vc_bool("held");
    lockw() = held;
    vc_sync(true);
    if (vc_bool("internal")) a.flagInternalChange(); else a.flagExternalChange();
    vc_assert(changew() == 0, "the change is flagged");
    vc_assert((lockw() != 0) == held, "flagging a change takes no lock");
    vc_assert(vc_sync(false) & 2, "flagging orders earlier accesses (release)");
    vc_cover("end");
}
VC_PROOF(wake)
{
    ActorInterface a;
    g_a = &a;
    const bool c = vc_bool("nochange"), held = vc_bool("held");
    changew() = c; lockw() = held;
    a.wakeNoChange();
    vc_assert((changew() != 0) == c && (lockw() != 0) == held, "waking flags nothing");
    vc_cover("end");
}
VC_PROOF(scoped)
{
#ifndef VC_NATIVE
    union U { ActorInterface a; U(void){} ~U(void){} } u;
    g_tries = 1;
    new (&u.a) ActorInterface();
    g_a = &u.a;
    g_tries = 0;
    extw() = 0;
    { ActorInterfaceLock l(&u.a); vc_assert(g_tries == 1, "a scoped call holds the actor"); }
    vc_assert(g_tries == 0 && extw() == 0, "a scoped call gives the actor back");
#else
    ActorInterface a; g_a = &a;
    { ActorInterfaceLock l(&a); vc_assert(lockw() != 0, "a scoped call holds the actor"); }
    vc_assert(lockw() == 0 && extw() == 0, "a scoped call gives the actor back");
#endif
    vc_cover("end");
}
