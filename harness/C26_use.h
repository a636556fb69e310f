// Instrumented even in the memory-sanitizer build (C26.cpp itself is harness code on that build's ignore list).
#pragma once
#include <AesiMultiprecision/Aesi.h>
template <class Num> constexpr bool isSigned = !std::is_same_v<Num, Aeu<Num::getBitness()>>;
// branches on every part of a value: the memory sanitizer reports what was never written
inline volatile unsigned sink; inline void use(uint64_t v) { if (v == 0x1234567890abcdefull) sink = sink + 1; }
template <class Num> void consume(const Num& x) { for (std::size_t b = 0; b < Num::totalBlocksNumber(); ++b) use(x.getBlock(b)); use(x.isZero()); if constexpr (isSigned<Num>) { use(x.isNegative()); use(x.isPositive()); } }

