// The bytes of a number as a state: padding inside the object is no part of it.
#pragma once
#include <AesiMultiprecision/Aesi.h>
#include <cstring>
#include <type_traits>
#include "mc.h"
namespace mc {
template <class T> uint64_t numHash(const T& x, uint64_t salt) {
    if constexpr (std::has_unique_object_representations_v<T>) return hash(&x, sizeof x, salt);
    else {
#if defined __GNUC__ && !defined __clang__
        T t = x; __builtin_clear_padding(&t); return hash(&t, sizeof t, salt);
#else
        uint64_t h = salt; for (std::size_t i = 0; i < T::totalBlocksNumber(); ++i) h = (h ^ x.getBlock(i)) * 0xff51afd7ed558ccdull;
        if constexpr (requires { x.isNegative(); }) h = (h ^ (x.isNegative() ? 2u : x.isPositive() ? 1u : 0u)) * 0xff51afd7ed558ccdull;
        return h;
#endif
    }
}
// the same bytes, padding apart (never true by accident: a difference of hidden members counts as one)
template <class T> bool sameBytes(const T& x, const T& y) {
    if (std::memcmp(static_cast<const void*>(&x), static_cast<const void*>(&y), sizeof x) == 0) return true;
    if constexpr (!std::has_unique_object_representations_v<T>) {
#if defined __GNUC__ && !defined __clang__
        T t = x, u = y; __builtin_clear_padding(&t); __builtin_clear_padding(&u); return std::memcmp(static_cast<const void*>(&t), static_cast<const void*>(&u), sizeof t) == 0;
#endif
    }
    return false;
}
template <class T> void numState(Ctx& c, const T& x, uint64_t salt) { if constexpr (std::has_unique_object_representations_v<T>) c.state(&x, sizeof x, salt); else c.state(numHash(x, salt)); }
}
