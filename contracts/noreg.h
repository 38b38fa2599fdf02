// Leaves out the static registration of plugins and managed classes (they run at load time through the dynamic
// loader and are not part of any contract); everything else of the included sources is kept as it is.
#pragma once
#include <Pothos/Plugin.hpp>
#include <Pothos/Managed.hpp>
#include <Pothos/Object/Serialize.hpp>
#undef pothos_static_block
#define pothos_static_block(name) __attribute__((unused)) static void name(void)
#undef POTHOS_OBJECT_SERIALIZE
#define POTHOS_OBJECT_SERIALIZE(T)
namespace Pothos {
struct NoManagedClass
{
    template <typename... A> NoManagedClass &commit(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerConstructor(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerField(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerStaticMethod(const A &...) { return *this; }
    template <typename R, typename A0, typename A1> NoManagedClass &registerStaticMethod(const std::string &, R (*)(A0, A1)) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerMethod(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerBaseClass(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerWildcardMethod(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerWildcardStaticMethod(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerClass(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerToPointer(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerOpaqueStaticMethod(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerOpaqueMethod(const A &...) { return *this; }
    template <typename... T, typename... A> NoManagedClass &registerOpaqueConstructor(const A &...) { return *this; }
};
}
#define ManagedClass NoManagedClass
#undef POTHOS_FCN_TUPLE
#define POTHOS_FCN_TUPLE(a, b) 0
