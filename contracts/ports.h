// The ports and the worker of a block, with everything below them (objects, buffers, managers, accumulator, pool, labels):
// the real sources, included unmodified. Left out: load-time registration (noreg.h), the statistics text (json), thread
// pools and the plugin registry (its lookup of "generic" is assumed to find the generic buffer manager).
#pragma once
#include "stdpre.h"
#define INCLUDE_NLOHMANN_JSON_HPP_
namespace nlohmann { struct json {
    template <typename K> json &operator[](const K &) { return *this; }
    template <typename V> json &operator=(const V &) { return *this; }
    json &operator=(const json &) { return *this; }
    json(void) {} json(const json &) {}
    template <typename V> void push_back(const V &) {}
    bool empty(void) const { return true; }
    std::string dump(void) const { return ""; }
    static json parse(const std::string &) { return json(); }
}; }
#define private public
#define protected public
#include "Framework/SharedBuffer.cpp"
#include <Pothos/Framework.hpp>
#include <Pothos/Framework/BufferAccumulator.hpp>
#include <Pothos/Object/Containers.hpp>
#include "Exception.cpp"
#include "Framework/Exception.cpp"
#include "noreg.h"
#include "Object/Object.cpp"
#include "Object/Exception.cpp"
#include "Callable/Callable.cpp"
#include "Callable/CallInterface.cpp"
#include "Callable/Exception.cpp"
#include "Framework/ManagedBuffer.cpp"
#include "Framework/Builtin/GenericBufferManager.cpp"
#include "Framework/Builtin/CircularBufferManager.cpp"
namespace Pothos {
struct VcCall { BufferManager::Sptr call(void) const { return makeGenericBufferManager(); } };
struct VcObject { VcCall c; template <typename T> const VcCall &extract(void) const { return c; } };
struct VcPlugin { VcObject o; const VcObject &getObject(void) const { return o; } };
struct VcPath { VcPath(const char *) {} VcPath join(const std::string &) const { return *this; } };
struct VcRegistry { static VcPlugin get(const VcPath &) { return VcPlugin(); } };
}
#define PluginRegistry VcRegistry
#define PluginPath VcPath
#include "Framework/BufferManager.cpp"
#undef PluginRegistry
#undef PluginPath
#include "Framework/BufferChunk.cpp"
#ifndef VC_NATIVE
static void vc_copied(size_t dst, size_t src, size_t n);
namespace std { __attribute__((always_inline)) static inline void *vc_memcpy(void *d, const void *s, size_t n) { vc_copied((size_t)d, (size_t)s, n); return d; } }
__attribute__((always_inline)) static inline void *vc_memcpy(void *d, const void *s, size_t n) { vc_copied((size_t)d, (size_t)s, n); return d; }
#define memcpy vc_memcpy
#define memmove vc_memcpy
#endif
#include "Framework/BufferAccumulator.cpp"
#undef memcpy
#undef memmove
#include "Framework/BufferPool.cpp"
#include "Framework/Label.cpp"
#include "Framework/Connectable.cpp"
#include "Framework/WorkInfo.cpp"
#include "Framework/InputPort.cpp"
#include "Framework/OutputPort.cpp"
#include "Framework/Block.cpp"
#include "Framework/WorkerActorPortAllocation.cpp"
#include "Framework/WorkerActor.cpp"
#undef private
#undef protected
#include "msgtext.h"
#include "rbtree.h"
#include "vc.h"
static Pothos::SharedBuffer vc_buffer(size_t bytes);    // memory, as each contract file models it
Pothos::SharedBuffer Pothos::SharedBuffer::make(const size_t bytes, const long) { return vc_buffer(bytes); }
// outside the unit: thread pools (none is attached), text of types
Pothos::Util::UID::UID(void) {}
bool Pothos::operator==(const ThreadPool &, const ThreadPool &) { return true; }
Pothos::ThreadPoolArgs::ThreadPoolArgs(void) {}
Pothos::ThreadPool::ThreadPool(void) {}
Pothos::ThreadPool::ThreadPool(const ThreadPoolArgs &) {}
Pothos::DType::DType(const std::string &): DType() {}
Pothos::DType::DType(const char *): DType() {}
std::string Pothos::DType::toString(void) const { return ""; }
std::string Pothos::DType::toMarkup(void) const { return ""; }
#ifndef VC_NATIVE
// C library: decimal numbers
static int vc_errno; static int *vc_errno_at(void) { return &vc_errno; }
VC_CONTRACT(libc_errno, ".", "^__errno_location$", vc_errno_at)
static long vc_strtol(const char *s, char **e, int)
{
    long v = 0; const char *p = s;
    for (; *p >= '0' && *p <= '9'; p++) v = v*10 + (*p - '0');
    if (e) *e = (char *)p;
    return v;
}
VC_CONTRACT(libc_strtol, ".", "^(__isoc23_)?strtol$", vc_strtol)
static long vc_now(void) { return 0; }    // time is not modelled
VC_CONTRACT(libc_now, ".", "^std::chrono::_V2::(system|steady)_clock::now\\(\\)$", vc_now)
static void vc_cv(void *) {}              // wake-ups are C20's concern
VC_CONTRACT(libc_cv, ".", "^std::condition_variable::notify_(one|all)\\(\\)$", vc_cv)
#endif
