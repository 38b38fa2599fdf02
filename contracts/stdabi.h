// Layout of libstdc++ containers, to build them in arbitrary states (checked by static_assert on the size).
#pragma once
#include <vector>
#include <cstddef>
template <typename T> struct VecRep { T *b, *e, *c; };
template <typename T> static inline void vec_set(std::vector<T> &v, T *b, size_t n)
{
    static_assert(sizeof(std::vector<T>) == sizeof(VecRep<T>), "libstdc++ vector");
    VecRep<T> &r = reinterpret_cast<VecRep<T> &>(v);
    r.b = b; r.e = b+n; r.c = b+n;
}
