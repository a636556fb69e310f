// The public operations of both number types as one table of (constexpr-capable) actions on registers.
//   d, e: destinations (read-write); a, b, c: const operands; k: a scalar parameter; log: what the observers return
// Used by the checks whose space is "operations x aliasing / interleavings / configurations / histories".
#pragma once
#include <AesiMultiprecision/Aesi.h>
#include <array>
#include <cstdint>
#include <ios>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <type_traits>

namespace ops {

struct Log {
    uint64_t h = 0x9E3779B97F4A7C15ull; unsigned n = 0;
    constexpr void put(uint64_t v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; ++n; }
    template <class T> constexpr void operator()(T v) {
        if constexpr (std::is_same_v<T, char>) put(static_cast<unsigned char>(v)); else if constexpr (std::is_enum_v<T>) put(static_cast<uint64_t>(v)); else if constexpr (std::is_integral_v<T>) put(static_cast<uint64_t>(v)); else put(v < 0 ? 1 : v > 0 ? 2 : 3);   // orderings
    }
};
enum : unsigned {
    NZB = 1,        // b must not be zero
    MODC = 2,       // c must be a modulus 1..2^(N/2)
    OUT = 4,        // d and e are out-parameters of a function taking a, b: they must be distinct objects
    KIDX = 8,       // k is a bit/byte/block index or power
    KSH = 16,       // k is a shift count
    KVAL = 32,      // k is the value of a built-in operand
    KNZ = 64,       // the built-in operand made from k must not be zero
    HEAVY = 128,    // quadratic or worse in N
    RUN = 256,      // not usable in a constant expression (streams, text input)
    READ = 512,     // reads only: neither d nor e is touched
    SWAPS = 1024,   // d and e are exchanged
    VERY = 2048,    // many divisions
    KTXT = 32768,   // k is the number of a text
    IBIT = 4096, IBYTE = 8192, IBLOCK = 16384   // what kind of index k is (the unchecked mode needs valid ones)
};
template <class Num> struct Op { const char* name; unsigned flags; void (*f)(Num& d, Num& e, const Num& a, const Num& b, const Num& c, uint64_t k, Log& log); };

#define OP(name, flags, ...) ops::Op<Num>{name, flags, [](Num& d, Num& e, const Num& a, const Num& b, const Num& c, uint64_t k, ops::Log& log) constexpr { (void)d; (void)e; (void)a; (void)b; (void)c; (void)k; (void)log; __VA_ARGS__; }}

#define OPR(name, flags, ...) ops::Op<Num>{name, flags, [](Num& d, Num& e, const Num& a, const Num& b, const Num& c, uint64_t k, ops::Log& log) { (void)d; (void)e; (void)a; (void)b; (void)c; (void)k; (void)log; __VA_ARGS__; }}

#if defined(VERIF_OLD_COMPARE)
#define CMP3(x, y) (ops::sign3((x).compareTo(y)))
#else
#define CMP3(x, y) (ops::sign3((x) <=> (y)))
#endif

template <class T> constexpr int sign3(T o) { if constexpr (std::is_enum_v<T>) return o == T::less ? -1 : o == T::greater ? 1 : o == T::equal ? 0 : 7; else return o < 0 ? -1 : o > 0 ? 1 : o == 0 ? 0 : 7; }
template <class Num, class Ch, unsigned base, bool upper> constexpr void text(const Num& a, bool show, Log& log) {
    constexpr std::size_t room = 4 + (base == 16 ? Num::getBitness() / 4 : base == 2 ? Num::getBitness() : Num::getBitness() / 3 + 2);
    Ch buf[room] {}; const std::size_t n = a.template getString<base, upper>(buf, room, show);
    log(n); for (std::size_t i = 0; i < n && i < room; ++i) log(buf[i]);
}
// texts given to the constructors: number k (0..15) of three lists, as char and as wchar_t
#define VERIF_TEXTS(X) { X("0"), X("7"), X("0x"), X("1234567890123456789012345678901234567890"), X("0xffffffffffffffffffffffffffffffff"), X("0b1011"), X("0o1777"), X("-42"), \
    X("zz"), X(" +-3-"), X("--0X8000000000000000000000000000001h"), X("0B11111111111111111111111111111111111111112"), X("000123"), X("0O-3777777777777777777777777777789"), X("1'000'000'000'000"), X("\xff" "5") }, \
  { X(""), X("-"), X("-0"), X("0xFfFfgG0"), X("9" "9999999999" "9999999999" "9999999999" "9999999999" "9999999999" "9999999999" "9999999999"), X("0b"), X("b101"), X("x1F"), \
    X("4294967296"), X("18446744073709551616"), X("-0x100000000"), X("79228162514264337593543950335"), X("0x000000000000000000000000000000000000000000000000000001"), X("12-"), X("\x80\x7f" "1a2b"), X("0xdeadbeef 0xcafe") }
inline constexpr const char* TEXTS[2][16] = {
#define VERIF_TEXT(x) x
    VERIF_TEXTS(VERIF_TEXT) };
inline constexpr const wchar_t* WTEXTS[2][16] = {
#undef VERIF_TEXT
#define VERIF_TEXT(x) L"" x
    VERIF_TEXTS(VERIF_TEXT) };
template <class Ch> constexpr std::size_t length(const Ch* s) { std::size_t n = 0; while (s[n]) ++n; return n; }
template <std::size_t N> constexpr std::size_t otherWidth = N == 128 ? 160 : 128;

// ------------------------------------------------------------------------------------------- unsigned
template <std::size_t N> constexpr auto uops() {
    using Num = Aeu<N>; constexpr std::size_t M = otherWidth<N>;
    return std::to_array<Op<Num>>({
        OP("d = text", KTXT, d = Num(ops::TEXTS[0][k], ops::length(ops::TEXTS[0][k])); e = Num(std::string_view(ops::TEXTS[1][k]))),
        OP("d = wide text", KTXT, const std::wstring_view v(ops::WTEXTS[0][k]); d = Num(v); e = Num(ops::WTEXTS[1][k], ops::length(ops::WTEXTS[1][k]))),
        OP("d = string", KTXT, const std::string v(ops::TEXTS[1][k]); d = Num(v); e = Num(std::wstring(ops::WTEXTS[0][k]))),
        OP("d = literal", KTXT, const char t[] = "-0x1F2e3d4c5b6a79880"; const wchar_t w[] = L"0o-12345670123456701234567"; d = t; e = w; log(d == "-99"); e += k & 1 ? Num("12") : Num(L"-0b11")),
        OP("d += b", 0, d += b), OP("d -= b", 0, d -= b), OP("d *= b", 0, d *= b), OP("d /= b", NZB | HEAVY, d /= b), OP("d %= b", NZB | HEAVY, d %= b),
        OP("d &= b", 0, d &= b), OP("d |= b", 0, d |= b), OP("d ^= b", 0, d ^= b),
        OP("d = a + b", 0, d = a + b), OP("d = a - b", 0, d = a - b), OP("d = a * b", 0, d = a * b), OP("d = a / b", NZB | HEAVY, d = a / b), OP("d = a % b", NZB | HEAVY, d = a % b),
        OP("d = a & b", 0, d = a & b), OP("d = a | b", 0, d = a | b), OP("d = a ^ b", 0, d = a ^ b),
        OP("d = ~a", 0, d = ~a), OP("d = -a", 0, d = -a), OP("d = +a", 0, d = +a), OP("d = a", 0, d = a), OP("d = copy of a", 0, Num t(a); d = t),
        OP("++d", 0, ++d), OP("--d", 0, --d), OP("d++", 0, const Num o = d++; log(o.getBlock(0))), OP("d--", 0, const Num o = d--; log(o.getBlock(0))),
        OP("d <<= k", KSH, d <<= static_cast<unsigned>(k)), OP("d >>= k", KSH, d >>= static_cast<unsigned>(k)), OP("d = a << k", KSH, d = a << k), OP("d = a >> k", KSH, d = a >> k),
        OP("swap", SWAPS, d.swap(e)), OP("swap with itself", 0, d.swap(d)), OP("(d += b) += d", 0, (d += b) += d), OP("d = d * d - d", 0, d = d * d - d), OP("(d -= 3) *= 7", 0, (d -= 3u) *= 7u), OP("d = d = a", 0, d = d = a),
        OP("divide(a, b, d, e)", NZB | OUT | HEAVY, Num::divide(a, b, d, e)), OP("divide(a, b)", NZB | HEAVY, auto r = Num::divide(a, b); d = r.first; e = r.second),
        OP("gcd(a, b)", HEAVY | VERY, d = Num::gcd(a, b)), OP("gcd(a, b, d, e)", OUT | HEAVY | VERY, const Num g = Num::gcd(a, b, d, e); log(g.getBlock(0)); log(g.getBlock(N / 32 - 1))), OP("lcm(a, b)", NZB | HEAVY | VERY, d = Num::lcm(a, b)),
        OP("powm(a, b, c)", MODC | HEAVY | VERY, d = Num::powm(a, b, c)), OP("powm(a, 128-bit, c)", MODC | HEAVY | VERY, d = Num::powm(a, b.template precisionCast<M>(), c)),
        OP("squareRoot", HEAVY | VERY, d = a.squareRoot()), OP("power2(k)", KIDX | IBIT, d = Num::power2(k)),
        OP("d += bool", KVAL, d += (k & 1) != 0), OP("d += unsigned char", KVAL, d += static_cast<unsigned char>(k)), OP("d += unsigned short", KVAL, d += static_cast<unsigned short>(k)), OP("d += unsigned", KVAL, d += static_cast<unsigned>(k)), OP("d += unsigned long", KVAL, d += static_cast<unsigned long>(k)), OP("d += unsigned long long", KVAL, d += static_cast<unsigned long long>(k)),
        OP("d -= unsigned char", KVAL, d -= static_cast<unsigned char>(k)), OP("d -= unsigned long long", KVAL, d -= static_cast<unsigned long long>(k)), OP("d *= unsigned char", KVAL, d *= static_cast<unsigned char>(k)), OP("d *= unsigned", KVAL, d *= static_cast<unsigned>(k)), OP("d *= unsigned long long", KVAL, d *= static_cast<unsigned long long>(k)),
        OP("d /= unsigned", KVAL | KNZ | HEAVY, d /= static_cast<unsigned>(k)), OP("d %= unsigned long long", KVAL | KNZ | HEAVY, d %= static_cast<unsigned long long>(k)), OP("d = a + k", KVAL, d = a + static_cast<unsigned>(k)), OP("d = k + a", KVAL, d = static_cast<unsigned long long>(k) + a), OP("d = k - a", KVAL, d = static_cast<unsigned>(k) - a), OP("d = k * a", KVAL, d = static_cast<unsigned long long>(k) * a), OP("d = a * k", KVAL, d = a * static_cast<unsigned long long>(k)), OP("d = k / b", KVAL | NZB | HEAVY, d = static_cast<unsigned long long>(k) / b), OP("d = k % b", KVAL | NZB | HEAVY, d = static_cast<unsigned>(k) % b),
        OP("d = a & k", KVAL, d = a & static_cast<unsigned long long>(k)), OP("d = k | a", KVAL, d = static_cast<unsigned>(k) | a), OP("d ^= k", KVAL, d ^= static_cast<unsigned long long>(k)), OP("d = k ^ a", KVAL, d = static_cast<unsigned char>(k) ^ a),
        OP("d = unsigned char", KVAL, d = Num(static_cast<unsigned char>(k))), OP("d = unsigned", KVAL, d = static_cast<unsigned>(k)), OP("d = unsigned long long", KVAL, d = static_cast<unsigned long long>(k)),
        OP("setBit", KIDX | IBIT, d.setBit(k, !d.getBit(k))), OP("setByte", KIDX | IBYTE, d.setByte(k, static_cast<uint8_t>(~d.getByte(k)))), OP("setBlock", KIDX | IBLOCK, d.setBlock(k, ~d.getBlock(k))),
        OP("getBit", KIDX | IBIT | READ, log(a.getBit(k))), OP("getByte", KIDX | IBYTE | READ, log(a.getByte(k))), OP("getBlock", KIDX | IBLOCK | READ, log(a.getBlock(k))),
        OP("counts", READ, log(a.bitCount()); log(a.byteCount()); log(a.filledBlocksNumber()); log(a.isOdd()); log(a.isEven()); log(a.isZero()); log(Num::getBitness()); log(Num::totalBlocksNumber())),
        OP("comparisons", READ, log(a == b); log(a != b); log(a < b); log(a <= b); log(a > b); log(a >= b); log(a.compareTo(b)); log(CMP3(a, b))),
        OP("comparisons with another precision", READ, const auto w = b.template precisionCast<M>(); log(a == w); log(a.compareTo(w)); log(w.compareTo(a)); log(w == a)),
        OP("comparisons with unsigned", KVAL | READ, const auto v = static_cast<unsigned>(k); log(a == v); log(v == a); log(a != v); log(a.compareTo(v)); log(CMP3(a, v)); log(a < v); log(a >= v)),
        OP("comparisons with unsigned long long", KVAL | READ, const auto v = static_cast<unsigned long>(k); log(a == v); log(v == a); log(a != v); log(a.compareTo(v)); log(CMP3(a, v)); log(a > v); log(a <= v)),
        OP("integralCast", READ, log(a.template integralCast<signed char>()); log(a.template integralCast<unsigned short>()); log(a.template integralCast<int>()); log(a.template integralCast<unsigned>()); log(a.template integralCast<long long>()); log(a.template integralCast<unsigned long long>())),
        OP("precisionCast", 0, const auto w = a.template precisionCast<M>(); log(w.getBlock(M / 32 - 1)); d = w.template precisionCast<N>()), OP("precisionCast to 2N", 0, const auto w = a.template precisionCast<2 * N>(); log(w.getBlock(N / 32 - 1)); log(w.getBlock(N / 32)); d = w.template precisionCast<N>()),
        OP("getString<10>", READ | HEAVY | VERY, ops::text<Num, char, 10, false>(a, false, log)), OP("getString<16>", READ, ops::text<Num, char, 16, true>(a, true, log); ops::text<Num, wchar_t, 16, false>(a, false, log)), OP("getString<8>", READ | HEAVY | VERY, ops::text<Num, wchar_t, 8, false>(a, true, log)), OP("getString<2>", READ | HEAVY | VERY, ops::text<Num, char, 2, false>(a, true, log)),
    });
}
// ------------------------------------------------------------------------------------------- signed
template <std::size_t N> constexpr auto sops() {
    using Num = Aesi<N>; constexpr std::size_t M = otherWidth<N>;
    return std::to_array<Op<Num>>({
        OP("d = text", KTXT, d = Num(ops::TEXTS[0][k], ops::length(ops::TEXTS[0][k])); e = Num(std::string_view(ops::TEXTS[1][k]))),
        OP("d = wide text", KTXT, const std::wstring_view v(ops::WTEXTS[0][k]); d = Num(v); e = Num(ops::WTEXTS[1][k], ops::length(ops::WTEXTS[1][k]))),
        OP("d = string", KTXT, const std::string v(ops::TEXTS[1][k]); d = Num(v); e = Num(std::wstring(ops::WTEXTS[0][k]))),
        OP("d = literal", KTXT, const char t[] = "-0x1F2e3d4c5b6a79880"; const wchar_t w[] = L"0o-12345670123456701234567"; d = t; e = w; log(d == "-99"); e += k & 1 ? Num("12") : Num(L"-0b11")),
        OP("d += b", 0, d += b), OP("d -= b", 0, d -= b), OP("d *= b", 0, d *= b), OP("d /= b", NZB | HEAVY, d /= b), OP("d %= b", NZB | HEAVY, d %= b),
        OP("d = a + b", 0, d = a + b), OP("d = a - b", 0, d = a - b), OP("d = a * b", 0, d = a * b), OP("d = a / b", NZB | HEAVY, d = a / b), OP("d = a % b", NZB | HEAVY, d = a % b),
        OP("d = -a", 0, d = -a), OP("d = +a", 0, d = +a), OP("d = a", 0, d = a), OP("d = copy of a", 0, Num t(a); d = t), OP("inverse", 0, d.inverse()),
        OP("++d", 0, ++d), OP("--d", 0, --d), OP("d++", 0, const Num o = d++; log(o.getBlock(0)); log(o.isNegative())), OP("d--", 0, const Num o = d--; log(o.getBlock(0)); log(o.isNegative())),
        OP("swap", SWAPS, d.swap(e)), OP("swap with itself", 0, d.swap(d)), OP("(d += b) += d", 0, (d += b) += d), OP("d = d * d - d", 0, d = d * d - d), OP("(d -= 3) *= 7", 0, (d -= 3u) *= 7u), OP("d = d = a", 0, d = d = a),
        OP("divide(a, b, d, e)", NZB | OUT | HEAVY, Num::divide(a, b, d, e)), OP("squareRoot", HEAVY | VERY, d = a.squareRoot()), OP("power2(k)", KIDX | IBIT, d = Num::power2(k)),
        OP("d += signed char", KVAL, d += static_cast<signed char>(k)), OP("d += int", KVAL, d += static_cast<int>(k)), OP("d += unsigned", KVAL, d += static_cast<unsigned>(k)), OP("d += long long", KVAL, d += static_cast<long long>(k)), OP("d += unsigned long long", KVAL, d += static_cast<unsigned long long>(k)),
        OP("d -= int", KVAL, d -= static_cast<int>(k)), OP("d -= long long", KVAL, d -= static_cast<long long>(k)), OP("d -= unsigned long long", KVAL, d -= static_cast<unsigned long long>(k)),
        OP("d *= signed char", KVAL, d *= static_cast<signed char>(k)), OP("d *= int", KVAL, d *= static_cast<int>(k)), OP("d *= unsigned", KVAL, d *= static_cast<unsigned>(k)), OP("d *= long long", KVAL, d *= static_cast<long long>(k)), OP("d *= unsigned long long", KVAL, d *= static_cast<unsigned long long>(k)),
        OP("d /= int", KVAL | KNZ | HEAVY, d /= static_cast<int>(k)), OP("d /= long long", KVAL | KNZ | HEAVY, d /= static_cast<long long>(k)), OP("d %= int", KVAL | KNZ | HEAVY, d %= static_cast<int>(k)), OP("d %= unsigned long long", KVAL | KNZ | HEAVY, d %= static_cast<unsigned long long>(k)),
        OP("d = a + k", KVAL, d = a + static_cast<int>(k)), OP("d = k + a", KVAL, d = static_cast<long long>(k) + a), OP("d = k - a", KVAL, d = static_cast<int>(k) - a), OP("d = k * a", KVAL, d = static_cast<long long>(k) * a), OP("d = a * k", KVAL, d = a * static_cast<int>(k)), OP("d = k / b", KVAL | NZB | HEAVY, d = static_cast<long long>(k) / b), OP("d = k % b", KVAL | NZB | HEAVY, d = static_cast<int>(k) % b), OP("d = a / k", KVAL | KNZ | HEAVY, d = a / static_cast<int>(k)), OP("d = a % k", KVAL | KNZ | HEAVY, d = a % static_cast<long long>(k)),
        OP("d = signed char", KVAL, d = Num(static_cast<signed char>(k))), OP("d = int", KVAL, d = static_cast<int>(k)), OP("d = unsigned", KVAL, d = static_cast<unsigned>(k)), OP("d = long long", KVAL, d = static_cast<long long>(k)), OP("d = unsigned long long", KVAL, d = static_cast<unsigned long long>(k)),
        OP("setBit", KIDX | IBIT, if (!d.isZero()) { d.setBit(k, !d.getBit(k)); if (d.filledBlocksNumber() == 0) d = 1; }), OP("setByte", KIDX | IBYTE, if (!d.isZero()) { d.setByte(k, static_cast<uint8_t>(~d.getByte(k))); if (d.filledBlocksNumber() == 0) d = 1; }), OP("setBlock", KIDX | IBLOCK, if (!d.isZero()) { d.setBlock(k, ~d.getBlock(k)); if (d.filledBlocksNumber() == 0) d = 1; }),
        OP("getBit", KIDX | IBIT | READ, log(a.getBit(k))), OP("getByte", KIDX | IBYTE | READ, log(a.getByte(k))), OP("getBlock", KIDX | IBLOCK | READ, log(a.getBlock(k))),
        OP("counts", READ, log(a.bitCount()); log(a.byteCount()); log(a.filledBlocksNumber()); log(a.isOdd()); log(a.isEven()); log(a.isZero()); log(a.isPositive()); log(a.isNegative()); log(Num::getBitness()); log(Num::totalBlocksNumber())),
        OP("comparisons", READ, log(a == b); log(a != b); log(a < b); log(a <= b); log(a > b); log(a >= b); log(a.compareTo(b)); log(CMP3(a, b))),
        OP("comparisons with another precision", READ, const auto w = b.template precisionCast<M>(); log(a == w); log(a.compareTo(w)); log(w.compareTo(a)); log(w == a)),
        OP("comparisons with int", KVAL | READ, const auto v = static_cast<int>(k); log(a == v); log(v == a); log(a != v); log(a.compareTo(v)); log(CMP3(a, v)); log(a < v); log(a >= v)),
        OP("comparisons with long long", KVAL | READ, const auto v = static_cast<long long>(k); log(a == v); log(v == a); log(a != v); log(a.compareTo(v)); log(CMP3(a, v)); log(a > v); log(a <= v)),
        OP("comparisons with unsigned long long", KVAL | READ, const auto v = static_cast<unsigned long>(k); log(a == v); log(a.compareTo(v)); log(CMP3(a, v)); log(a > v)),
        OP("integralCast", READ, log(a.template integralCast<signed char>()); log(a.template integralCast<int>()); log(a.template integralCast<long long>())), OP("unsignedCast", READ, const auto u = a.unsignedCast(); log(u.getBlock(0)); log(u.getBlock(N / 32 - 1)); log(Num(u).isZero())),
        OP("precisionCast", 0, const auto w = a.template precisionCast<M>(); log(w.getBlock(M / 32 - 1)); d = w.template precisionCast<N>()), OP("precisionCast to 2N", 0, const auto w = a.template precisionCast<2 * N>(); log(w.getBlock(N / 32 - 1)); log(w.getBlock(N / 32)); d = w.template precisionCast<N>()),
        OP("getString<10>", READ | HEAVY | VERY, ops::text<Num, char, 10, false>(a, false, log)), OP("getString<16>", READ, ops::text<Num, char, 16, true>(a, true, log); ops::text<Num, wchar_t, 16, false>(a, false, log)), OP("getString<8>", READ | HEAVY | VERY, ops::text<Num, wchar_t, 8, false>(a, true, log)), OP("getString<2>", READ | HEAVY | VERY, ops::text<Num, char, 2, false>(a, true, log)),
    });
}

// operations that need streams or text (run time only), for both types
template <class Num> auto textops() {
    return std::to_array<Op<Num>>({
        OPR("stream output", RUN | READ | HEAVY | VERY, for (auto f : {std::ios_base::dec, std::ios_base::hex, std::ios_base::oct}) { std::ostringstream os; os.setf(f, std::ios_base::basefield); if (k & 1) os << std::uppercase; if (k & 2) os << std::showbase; os << a << ' ' << b; std::wostringstream ws; ws.setf(f, std::ios_base::basefield); ws << a; for (char ch : os.str()) log(ch); for (wchar_t ch : ws.str()) log(ch); }),
        OPR("os << a (decimal)", RUN | READ | HEAVY, std::ostringstream os; os << a; for (char ch : os.str()) log(ch)),
        OPR("os << a (octal)", RUN | READ | HEAVY, std::ostringstream os; os << std::oct << a; for (char ch : os.str()) log(ch)),
        OPR("os << a (hexadecimal, wide)", RUN | READ, std::wostringstream os; os << std::hex << a; for (wchar_t ch : os.str()) log(ch)),
        OPR("text in base 16 there and back", RUN, char buf[Num::getBitness() / 4 + 8]; const auto n = a.template getString<16>(buf, sizeof buf, true); log(n); d = Num(std::string(buf, n ? n - 1 : 0)); e = Num(buf, n ? n - 1 : 0)),
        OPR("text in base 10 there and back", RUN | HEAVY, wchar_t buf[Num::getBitness() / 3 + 8]; const auto n = a.template getString<10>(buf, Num::getBitness() / 3 + 8); log(n); d = Num(std::wstring(buf, n ? n - 1 : 0))),
        OPR("text to number", RUN | KVAL, static const char* const T[] = {"0", "-12345678901234567890123", "0xdeadbeefcafe1234567890", "0b1011", "0o1777", " +42-", "--7", "zz"}; d = Num(std::string(T[k % 8]))),
    });
}
template <std::size_t N> auto binops() {
    using Num = Aeu<N>;
    return std::to_array<Op<Num>>({
        OPR("writeBinary and readBinary", RUN | KVAL, std::stringstream ss; a.writeBinary(ss, (k & 1) != 0); for (char ch : ss.str()) log(ch); d.readBinary(ss, (k & 1) != 0)),
        OPR("readBinary of a short input", RUN | KVAL, std::stringstream ss; a.writeBinary(ss); std::istringstream is(ss.str().substr(0, k % (N / 8))); d.readBinary(is, (k & 1) == 0)),
    });
}
template <class Num> std::vector<Op<Num>> allOps() {
    std::vector<Op<Num>> v; constexpr std::size_t N = Num::getBitness();
    if constexpr (std::is_same_v<Num, Aeu<N>>) { for (auto& o : uops<N>()) v.push_back(o); for (auto& o : textops<Num>()) v.push_back(o); for (auto& o : binops<N>()) v.push_back(o); }
    else { for (auto& o : sops<N>()) v.push_back(o); for (auto& o : textops<Num>()) v.push_back(o); }
    return v;
}
// legality of one call (its preconditions)
template <class Num> constexpr bool zero(const Num& x) { for (std::size_t i = 0; i < Num::totalBlocksNumber(); ++i) if (x.getBlock(i)) return false; return true; }
template <class Num> constexpr bool modulus(const Num& x) {        // 1 .. 2^(N/2)
    if (zero(x)) return false; constexpr std::size_t n = Num::totalBlocksNumber(), h = Num::getBitness() / 2;
    std::size_t top = 0; bool rest = false; for (std::size_t i = 0; i < Num::getBitness(); ++i) if (x.getBlock(i / 32) >> (i % 32) & 1) top = i;
    for (std::size_t i = 0; i < top; ++i) if (x.getBlock(i / 32) >> (i % 32) & 1) rest = true; (void)n;
    return top < h || (top == h && !rest);
}
template <class Num> constexpr bool legal(unsigned flags, const Num& b, const Num& c, uint64_t k) {
    if ((flags & NZB) && zero(b)) return false;
    if ((flags & MODC) && !modulus(c)) return false;
    if ((flags & KNZ) && static_cast<uint32_t>(k) == 0) return false;
    return true;
}
template <std::size_t N> constexpr bool validIndex(unsigned flags, uint64_t k) { return flags & IBIT ? k < N : flags & IBYTE ? k < N / 8 : flags & IBLOCK ? k < N / 32 : true; }
// the scalar alphabets
template <std::size_t N> inline const uint64_t KINDEX[] = {0, 1, 2, 3, N / 32 - 1, N / 32, N / 8 - 1, N / 8, 31, 32, N - 1, N, N + 7, 0xffffffffull, 0x100000000ull, ~0ull};
template <std::size_t N> inline const uint64_t KSHIFT[] = {0, 1, 31, 32, 33, 63, 64, 65, N - 33, N - 32, N - 31, N - 1, N, N + 1, 2 * N, 0xffffffffull};
inline const uint64_t KVALUE[] = {0, 1, 2, 10, 0x7f, 0x80, 0xff, 0x8000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull};
template <std::size_t N> uint64_t scalar(unsigned flags, unsigned i) { return flags & KTXT ? i : flags & KIDX ? KINDEX<N>[i] : flags & KSH ? KSHIFT<N>[i] : KVALUE[i]; }
constexpr unsigned scalars(unsigned flags) { return flags & (KIDX | KSH | KVAL | KTXT) ? 16 : 1; }

// further widths on which the operation tables run with few operands: the library's own type definitions and odd block counts
template <unsigned part, unsigned of, class F> void sweep(F&& f) {
    constexpr std::array<std::size_t, 13> w{128, 192, 224, 288, 640, 768, 1024, 1056, 1536, 3072, 4096, 6144, 8192};
    [&]<std::size_t... I>(std::index_sequence<I...>) { ([&] { if constexpr (I % of == part) { if constexpr (I % 2 == 0) f(static_cast<Aeu<w[I / 2]>*>(nullptr), "Aeu<" + std::to_string(w[I / 2]) + ">"); else f(static_cast<Aesi<w[I / 2]>*>(nullptr), "Aesi<" + std::to_string(w[I / 2]) + ">"); } }(), ...); }(std::make_index_sequence<2 * w.size()>());
}

} // namespace ops
