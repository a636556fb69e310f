// Value alphabets and the reference model (exact integers, GMP) shared by the checks.
#pragma once
#include "mc.h"
#include "numstate.h"
#include <algorithm>
#include <array>
#include <climits>
#include <cstring>
#include <gmpxx.h>
#include <limits>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>
#include <AesiMultiprecision/Aesi.h>
#if __has_include("dictionary.h")
#include "dictionary.h"         // integer literals the reviewed headers do not contain (see dictionary.py)
#else
constexpr unsigned DICTIONARY_SIZE = 0; constexpr uint64_t DICTIONARY_LIST[1]{};
inline const std::vector<uint64_t> DICTIONARY{};
#endif

using mc::Ctx;
using mc::strf;

template <std::size_t N> using Pat = std::array<uint32_t, N / 32>;

// ---------------------------------------------------------------- block alphabets (simplest first)
inline const std::vector<uint32_t> L4{0u, 1u, 0x80000000u, 0xffffffffu};
inline const std::vector<uint32_t> L5{0u, 1u, 0x80000000u, 0xfffffffeu, 0xffffffffu};
inline const std::vector<uint32_t> L6{0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
inline const std::vector<uint32_t> L8{0u, 1u, 2u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu};
inline const std::vector<uint32_t> L10{0u, 1u, 2u, 0x10000u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffff0000u, 0xfffffffeu, 0xffffffffu};
inline const std::vector<uint32_t> L12{0u, 1u, 2u, 3u, 0xffffu, 0x10000u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffff0000u, 0xfffffffeu, 0xffffffffu};
inline const std::vector<uint32_t> L16{0u, 1u, 2u, 3u, 10u, 0xffu, 0xffffu, 0x10000u, 0x3b9aca00u, 0x55555555u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xaaaaaaaau, 0xfffffffeu, 0xffffffffu};

// every block pattern over an alphabet
template <std::size_t N> std::vector<Pat<N>> product(const std::vector<uint32_t>& letters) {
    std::vector<Pat<N>> out; constexpr std::size_t n = N / 32; std::array<std::size_t, n> d{};
    for (;;) {
        Pat<N> p; for (std::size_t i = 0; i < n; ++i) p[i] = letters[d[i]];
        out.push_back(p);
        std::size_t i = 0; while (i < n && ++d[i] == letters.size()) d[i++] = 0;
        if (i == n) return out;
    }
}

template <std::size_t N> Pat<N> fromMpz(mpz_class z) {
    Pat<N> p{}; mpz_fdiv_r_2exp(z.get_mpz_t(), z.get_mpz_t(), N);
    for (std::size_t i = 0; i < N / 32; ++i) {
        const mp_limb_t l = mpz_getlimbn(z.get_mpz_t(), static_cast<mp_size_t>(i / 2));
        p[i] = static_cast<uint32_t>(l >> (32 * (i % 2)));
    }
    return p;
}
template <std::size_t N> mpz_class toMpz(const Pat<N>& p) {
    mpz_class z; mpz_import(z.get_mpz_t(), N / 32, -1, 4, 0, 0, p.data()); return z;
}
inline mpz_class pow2(std::size_t k) { mpz_class z; mpz_setbit(z.get_mpz_t(), k); return z; }
inline mpz_class modN(mpz_class z, std::size_t n) { mpz_fdiv_r_2exp(z.get_mpz_t(), z.get_mpz_t(), n); return z; }
inline mpz_class ofU64(uint64_t v) { mpz_class z; mpz_import(z.get_mpz_t(), 1, -1, 8, 0, 0, &v); return z; }
template <class B> mpz_class ofInt(B v) {
    if constexpr (std::is_signed_v<B>) { if (v < 0) return -ofU64(0ull - static_cast<uint64_t>(static_cast<long long>(v))); }
    return ofU64(static_cast<uint64_t>(v));
}
inline std::string hexz(const mpz_class& z) {
    std::string s = (z < 0 ? "-0x" : "0x") + mpz_class(abs(z)).get_str(16);
    return s.size() > 420 ? s.substr(0, 200) + "..." + s.substr(s.size() - 200) : s;
}

// Shape family: values that delimit the interesting behaviours of an N-bit number, for any N.
// richness 0 (sparse) .. 3 (dense)
template <std::size_t N> std::vector<Pat<N>> shapes(int richness) {
    constexpr std::size_t n = N / 32;
    std::vector<Pat<N>> out; std::set<Pat<N>> seen;
    auto add = [&](const Pat<N>& p) { if (seen.insert(p).second) out.push_back(p); };
    auto addz = [&](const mpz_class& z) { add(fromMpz<N>(z)); };
    // interesting bit positions
    std::vector<std::size_t> bits;
    auto bit = [&](std::size_t b) { if (b < N && std::find(bits.begin(), bits.end(), b) == bits.end()) bits.push_back(b); };
    std::vector<std::size_t> blk;
    auto blkAdd = [&](std::size_t b) { if (b <= n && std::find(blk.begin(), blk.end(), b) == blk.end()) blk.push_back(b); };
    if (richness >= 3 || n <= 8) for (std::size_t b = 0; b <= n; ++b) blkAdd(b);
    else { for (std::size_t b : {std::size_t(0), std::size_t(1), std::size_t(2), std::size_t(3), n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n}) blkAdd(b);
           if (richness >= 1) for (std::size_t b = 4; b < n; b *= 2) blkAdd(b);
           if (richness >= 2) for (std::size_t b = 0; b < n; b += std::max<std::size_t>(1, n / 12)) blkAdd(b); }
    for (std::size_t b : blk) {
        if (b) bit(b * 32 - 1);
        bit(b * 32);
        if (richness >= 1) { bit(b * 32 + 1); if (b) bit(b * 32 - 2); }
        if (richness >= 2) { bit(b * 32 + 16); bit(b * 32 + 7); bit(b * 32 + 8); bit(b * 32 + 30); }
        if (richness >= 3) for (std::size_t k = 0; k < 32; ++k) bit(b * 32 + k);
    }
    std::sort(bits.begin(), bits.end());
    for (unsigned k = 0; k < 4; ++k) addz(k);
    addz(10); addz(255); addz(0xffff);
    for (auto b : bits) addz(pow2(b));
    for (auto b : bits) addz(pow2(b) - 1);
    addz(pow2(N) - 1); addz(pow2(N) - 2); addz(pow2(N) - 3);
    if (richness >= 1) {
        for (auto b : bits) addz(pow2(b) + 1);
        for (auto b : bits) addz(pow2(N) - pow2(b));
        for (auto b : bits) addz(pow2(N) - pow2(b) - 1);
    }
    // runs of ones: 2^i - 2^j at block boundaries
    for (auto i : blk) for (auto j : blk) if (j < i) addz(pow2(32 * i) - pow2(32 * j));
    // one odd block in a uniform background
    for (uint32_t bg : {0u, 0xffffffffu}) for (auto b : blk) if (b < n) for (uint32_t l : L6) { Pat<N> p; p.fill(bg); p[b] = l; add(p); }
    // uniform and alternating backgrounds
    for (uint32_t a : L6) { Pat<N> p; p.fill(a); add(p); }
    for (uint32_t a : {0x55555555u, 0xaaaaaaaau, 0x01010101u, 0x12345678u, 0xdeadbeefu}) { Pat<N> p; p.fill(a); add(p); }
    for (uint32_t a : L4) for (uint32_t b : L4) { Pat<N> p; for (std::size_t i = 0; i < n; ++i) p[i] = i % 2 ? a : b; add(p); }
    // every byte different; dense patterns without structure
    { Pat<N> p; for (std::size_t i = 0; i < n; ++i) { uint32_t x = static_cast<uint32_t>(4 * i); p[i] = (x + 1) | (x + 2) << 8 | (x + 3) << 16 | (x + 4) << 24; } add(p); }
    uint64_t r = 0x243F6A8885A308D3ull;
    for (std::size_t len : {n, n - 1, n / 2 + 1, n / 2, std::size_t(1), std::size_t(2)}) for (int k = 0; k < (richness >= 1 ? 3 : 1); ++k) {
        Pat<N> p{}; for (std::size_t i = 0; i < len && i < n; ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; p[i] = static_cast<uint32_t>(r >> 16); } add(p);
    }
    // powers of ten
    { mpz_class t = 1; for (int e = 0; t < pow2(N); ++e, t *= 10) if (richness >= 2 || e % 9 == 0 || e < 3) { addz(t); if (richness >= 1) { addz(t - 1); } if (richness >= 2) addz(t + 1); } addz(t / 10); addz(t / 10 - 1); }
    return out;
}
// a thinner list: at most `most` members, spread over the family but always including both ends
template <class T> std::vector<T> thin(std::vector<T> v, std::size_t most) {
    if (v.size() <= most) return v;
    std::vector<T> o; for (std::size_t i = 0; i < most; ++i) o.push_back(v[i * (v.size() - 1) / (most - 1)]);
    return o;
}
template <class T> std::vector<T> join(std::vector<T> a, const std::vector<T>& b) { std::set<T> s(a.begin(), a.end()); for (auto& x : b) if (s.insert(x).second) a.push_back(x); return a; }

// a dense value of k bits
inline mpz_class denseBits(std::size_t k) {
    mpz_class z = 0; uint64_t r = 0x9E3779B97F4A7C15ull;
    for (std::size_t b = 0; b < k; b += 64) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; z = (z << 64) + ofU64(r | 1ull << 63); }
    const auto len = mpz_sizeinbase(z.get_mpz_t(), 2); return k == 0 ? mpz_class(0) : mpz_class(z >> (len - k));
}
// the dictionary as values, blocks, bit counts, block counts and decimal digit counts
template <std::size_t N> const std::vector<mpz_class>& dictionaryValues() {
    static const std::vector<mpz_class> out = [] {
        std::vector<mpz_class> o; auto add = [&](const mpz_class& z) { if (z >= 0 && z < pow2(N) && std::find(o.begin(), o.end(), z) == o.end()) o.push_back(z); };
        constexpr std::size_t n = N / 32; const bool small = N <= 1024;
        for (uint64_t c : DICTIONARY) {
            const mpz_class z = ofU64(c); add(z); add(z - 1); add(z + 1); add(pow2(N) - z);
            if (small) { add(z << (N - 64)); Pat<N> p; p.fill(static_cast<uint32_t>(c)); add(toMpz<N>(p)); add(z << 32); add(pow2(N) - 1 - (z << (N - 64))); add((z << 32) + pow2(32) - 1); add(2 * z); add(z * z); }
            if (c <= n) { for (uint64_t k : {c - 1, c, c + 1}) { add(denseBits(32 * k)); if (small || k == c) { add(pow2(32 * k) - 1); add(pow2(32 * k)); } } }
            if (c <= N) { add(denseBits(c)); add(pow2(c)); if (small) { add(pow2(c) - 1); add(denseBits(c + 1)); } }
            if (c * 3.3 < N) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, c); add(t); if (small) add(t - 1); }
        }
        return o; }();
    return out;
}
// ... a few of them, for tables with expensive rows
template <std::size_t N> std::vector<mpz_class> dictionaryFew() { std::vector<mpz_class> o; for (uint64_t c : DICTIONARY) { const mpz_class z = ofU64(c); o.push_back(z); if (o.size() < 12) { Pat<N> p; p.fill(static_cast<uint32_t>(c)); o.push_back(toMpz<N>(p)); o.push_back(z << (N - 64)); if (c <= N) o.push_back(denseBits(c)); if (c <= N / 32) o.push_back(denseBits(32 * c)); } } return o; }
template <std::size_t N> std::vector<Pat<N>> withDictionary(std::vector<Pat<N>> p) { if (DICTIONARY.empty() || N > 65536) return p; std::vector<Pat<N>> d; for (auto& z : dictionaryValues<N>()) d.push_back(fromMpz<N>(z)); return join(std::move(p), d); }

// ---------------------------------------------------------------- every block count
// a small family for any width: sparse shapes plus, for each number of filled blocks, a dense value
// numbers of more than 2^16 bits: bit and byte indices and lengths beyond what 16 bits hold
constexpr std::size_t GIANT = 65568;
template <std::size_t N> std::vector<Pat<N>> giants(std::size_t k) {
    std::vector<Pat<N>> o; for (const mpz_class& z : {denseBits(N), mpz_class(1), pow2(65536), mpz_class(pow2(N) - 1), denseBits(65537), mpz_class(0), pow2(65535), mpz_class(pow2(65536) - 1), mpz_class(pow2(N - 1) + pow2(64)), mpz_class(pow2(32) - 1), mpz_class(pow2(65536) + 5), mpz_class(pow2(N) - pow2(65536)), denseBits(32768), denseBits(8160)}) if (mpz_sizeinbase(z.get_mpz_t(), 2) <= N) o.push_back(fromMpz<N>(z));
    if (o.size() > k) o.resize(k); return o;
}
template <std::size_t N> std::vector<Pat<N>> sparse(std::size_t k, bool fills = true) {
    if constexpr (N > 65536) return giants<N>(std::min<std::size_t>(k, 14));
    auto p = thin(shapes<N>(0), mc::thorough() ? 3 * k : k); if (fills) for (std::size_t b = 1; b <= N / 32; b += N > 2048 ? 31 : 1) p = join(p, {fromMpz<N>(denseBits(32 * b - b % 5))});
    return p;
}
// f<N>() for every width of 3 to 34 blocks (in four parts), one width beyond the library's largest alias, and (part five) GIANT
template <unsigned Q, class F> void everyWidth(F f) {
    if constexpr (Q == 4) f.template operator()<GIANT>();
    else { [&]<std::size_t... K>(std::index_sequence<K...>) { (f.template operator()<96 + 32 * (Q + 4 * K)>(), ...); }(std::make_index_sequence<8>{}); if constexpr (Q == 3) f.template operator()<8224>(); }
}

// ---------------------------------------------------------------- unsigned families
template <std::size_t N> Aeu<N> load(const Pat<N>& p) { Aeu<N> x{}; for (std::size_t i = 0; i < N / 32; ++i) x.setBlock(i, p[i]); return x; }

template <std::size_t N> struct Fam {
    std::vector<Pat<N>> p; std::vector<Aeu<N>> v; std::vector<mpz_class> z;
    Fam() = default;
    explicit Fam(std::vector<Pat<N>> pats) : p(std::move(pats)) { for (auto& q : p) { v.push_back(load<N>(q)); z.push_back(toMpz<N>(q)); } }
    std::size_t size() const { return p.size(); }
};
template <std::size_t N> using FamP = std::shared_ptr<Fam<N>>;
template <std::size_t N> FamP<N> fam(std::vector<Pat<N>> p) { return std::make_shared<Fam<N>>(withDictionary<N>(std::move(p))); }

template <std::size_t N> std::string hexu(const Aeu<N>& x) {
    Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i); return hexz(toMpz<N>(p));
}
template <std::size_t N> bool equals(const Aeu<N>& x, const mpz_class& z) {     // z in [0, 2^N)
    for (std::size_t i = 0; i < N / 32; ++i) {
        const auto want = static_cast<uint32_t>(mpz_getlimbn(z.get_mpz_t(), static_cast<mp_size_t>(i / 2)) >> (32 * (i % 2)));
        if (x.getBlock(i) != want) return false;
    }
    return true;
}
template <std::size_t N> void observe(Ctx& c, const Aeu<N>& x) { mc::numState(c, x, N); }
template <std::size_t N> void expectU(Ctx& c, const Aeu<N>& got, const mpz_class& want, const char* what) {
    c.step(); observe(c, got);
    if (!equals(got, want)) c.fail("%s: got %s, expected %s (precision %zu)", what, hexu(got).c_str(), hexz(want).c_str(), N);
}
template <std::size_t N> void expectSame(Ctx& c, const Aeu<N>& got, const mpz_class& want, const char* what) { // no transition: operand unchanged
    if (!equals(got, want)) c.fail("%s: the operand is now %s, it was %s (precision %zu)", what, hexu(got).c_str(), hexz(want).c_str(), N);
}
inline void expectB(Ctx& c, bool got, bool want, const char* what) { c.step(); if (got != want) c.fail("%s: got %s, expected %s", what, got ? "true" : "false", want ? "true" : "false"); }
inline void expectN(Ctx& c, uint64_t got, uint64_t want, const char* what) { c.step(); if (got != want) c.fail("%s: got %llu, expected %llu", what, static_cast<unsigned long long>(got), static_cast<unsigned long long>(want)); }

// ---------------------------------------------------------------- signed families
template <std::size_t N> Aesi<N> loadS(int sgn, const Pat<N>& p) {
    Aesi<N> x(sgn); if (sgn) for (std::size_t i = 0; i < N / 32; ++i) x.setBlock(i, p[i]); return x;
}
template <std::size_t N> struct SFam {
    std::vector<Aesi<N>> v; std::vector<mpz_class> z;
    SFam() = default;
    explicit SFam(const std::vector<Pat<N>>& pats) {
        for (auto& q : pats) {
            mpz_class m = toMpz<N>(q);
            if (m == 0) { v.push_back(loadS<N>(0, q)); z.push_back(0); continue; }
            v.push_back(loadS<N>(1, q)); z.push_back(m); v.push_back(loadS<N>(-1, q)); z.push_back(-m);
        }
    }
    std::size_t size() const { return v.size(); }
};
template <std::size_t N> using SFamP = std::shared_ptr<SFam<N>>;
template <std::size_t N> SFamP<N> sfam(const std::vector<Pat<N>>& p) { return std::make_shared<SFam<N>>(withDictionary<N>(p)); }
template <std::size_t N> std::string hexs(const Aesi<N>& x) {
    Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) p[i] = x.getBlock(i);
    return std::string(x.isNegative() ? "-" : x.isZero() ? "(zero)" : "+") + hexz(toMpz<N>(p));
}
template <std::size_t N> bool equalsS(const Aesi<N>& x, const mpz_class& z) {
    const int s = sgn(z);
    if (x.isZero() != (s == 0) || x.isNegative() != (s < 0) || x.isPositive() != (s > 0)) return false;
    for (std::size_t i = 0; i < N / 32; ++i) {
        const auto want = static_cast<uint32_t>(mpz_getlimbn(z.get_mpz_t(), static_cast<mp_size_t>(i / 2)) >> (32 * (i % 2)));
        if (x.getBlock(i) != want) return false;
    }
    return true;
}
// value only: what the number is worth, however it stores a zero
template <std::size_t N> bool worth(const Aesi<N>& x, const mpz_class& z) {
    if (sgn(z) == 0) return x.isZero();
    return equalsS(x, z);
}
template <std::size_t N> void observeS(Ctx& c, const Aesi<N>& x) {
    mc::numState(c, x, N + 1);
}
// No operation of the interface tells the two apart. The same bytes always; other bytes (padding, another form of the same value) when the observers agree
// on them and on the results of operations that would bring a difference to light.
template <std::size_t N> bool alike(const Aeu<N>& x, const Aeu<N>& y, bool = true) {
    if (mc::sameBytes(x, y)) return true;
    for (std::size_t i = 0; i < N / 32; ++i) if (x.getBlock(i) != y.getBlock(i)) return false;
    return x == y && !(x != y) && !(x < y) && !(x > y);
}
template <std::size_t N> bool alike(const Aesi<N>& x, const Aesi<N>& y, bool deep = true) {
    if (mc::sameBytes(x, y)) return true;
    for (std::size_t i = 0; i < N / 32; ++i) if (x.getBlock(i) != y.getBlock(i)) return false;
    if (!(x == y) || x != y || x < y || x > y || x.isZero() != y.isZero() || x.isNegative() != y.isNegative() || x.isPositive() != y.isPositive()) return false;
    if (!deep) return true;
    const Aesi<N> one(1), two(-2);
    return alike<N>(x + one, y + one, false) && alike<N>(x - one, y - one, false) && alike<N>(one - x, one - y, false) && alike<N>(-x, -y, false) && alike<N>(x * two, y * two, false) && alike<N>(x / two, y / two, false);
}
template <std::size_t N> void expectS(Ctx& c, const Aesi<N>& got, const mpz_class& want, const char* what) {
    c.step(); observeS(c, got);
    if (!worth(got, want)) c.fail("%s: got %s, expected %s (precision %zu)", what, hexs(got).c_str(), hexz(want).c_str(), N);
}
template <std::size_t N> void expectSameS(Ctx& c, const Aesi<N>& got, const mpz_class& want, const char* what) {
    if (!worth(got, want)) c.fail("%s: the operand is now %s, it was %s (precision %zu)", what, hexs(got).c_str(), hexz(want).c_str(), N);
}
inline bool fits(const mpz_class& z, std::size_t n) { return sgn(z) == 0 || mpz_sizeinbase(z.get_mpz_t(), 2) <= n; }

// ---------------------------------------------------------------- built-in integer alphabets
template <class B> std::vector<B> builtins(bool dense) {
    std::vector<B> o; std::set<B> seen; auto add = [&](B v) { if (seen.insert(v).second) o.push_back(v); };
    if constexpr (std::is_same_v<B, bool>) { add(false); add(true); return o; }
    else {
        using LIM = std::numeric_limits<B>;
        if constexpr (sizeof(B) == 1) { for (int i = 0; i < 256; ++i) add(static_cast<B>(i)); return o; }
        else {
            for (int i = 0; i < 4; ++i) add(static_cast<B>(i));
            add(LIM::max()); add(static_cast<B>(LIM::max() - 1)); add(LIM::min()); add(static_cast<B>(LIM::min() + 1));
            if constexpr (std::is_signed_v<B>) { add(static_cast<B>(-1)); add(static_cast<B>(-2)); }
            add(static_cast<B>(10));
            constexpr int W = static_cast<int>(sizeof(B)) * 8;
            for (int k = 0; k < W; ++k) if (dense || k % 8 == 0 || k % 8 == 7 || k % 32 == 1) {
                const uint64_t p = 1ull << k;
                add(static_cast<B>(p)); add(static_cast<B>(p - 1)); add(static_cast<B>(0 - p)); if (dense) { add(static_cast<B>(p + 1)); add(static_cast<B>(~p)); add(static_cast<B>(0 - p - 1)); }
            }
            if constexpr (W == 64) for (auto h : (dense ? L10 : L5)) for (auto l : (dense ? L10 : L5)) add(static_cast<B>(static_cast<uint64_t>(h) << 32 | l));
            add(static_cast<B>(0x5555555555555555ull)); add(static_cast<B>(0xaaaaaaaaaaaaaaaaull)); add(static_cast<B>(0x0123456789abcdefull)); add(static_cast<B>(1000000007ull));
            for (uint64_t d : DICTIONARY) { add(static_cast<B>(d)); add(static_cast<B>(d - 1)); add(static_cast<B>(d + 1)); add(static_cast<B>(0 - d)); }
            return o;
        }
    }
}
template <class... Bs, class F> void forTypes(F&& f) { (f.template operator()<Bs>(), ...); }
template <class B> const char* tname() {
    if constexpr (std::is_same_v<B, bool>) return "bool"; else if constexpr (std::is_same_v<B, char>) return "char";
    else if constexpr (std::is_same_v<B, signed char>) return "signed char"; else if constexpr (std::is_same_v<B, unsigned char>) return "unsigned char";
    else if constexpr (std::is_same_v<B, short>) return "short"; else if constexpr (std::is_same_v<B, unsigned short>) return "unsigned short";
    else if constexpr (std::is_same_v<B, int>) return "int"; else if constexpr (std::is_same_v<B, unsigned>) return "unsigned";
    else if constexpr (std::is_same_v<B, long>) return "long"; else if constexpr (std::is_same_v<B, unsigned long>) return "unsigned long";
    else if constexpr (std::is_same_v<B, long long>) return "long long"; else if constexpr (std::is_same_v<B, unsigned long long>) return "unsigned long long";
    else if constexpr (std::is_same_v<B, wchar_t>) return "wchar_t"; else if constexpr (std::is_same_v<B, char8_t>) return "char8_t";
    else if constexpr (std::is_same_v<B, char16_t>) return "char16_t"; else return "char32_t";
}
#define ALL_UNSIGNED bool, unsigned char, unsigned short, unsigned, unsigned long, unsigned long long, char8_t, char16_t, char32_t
#define MAIN_UNSIGNED unsigned char, unsigned, unsigned long, unsigned long long
#define ALL_INTEGRAL bool, char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char8_t, char16_t, char32_t
#define MAIN_INTEGRAL signed char, int, unsigned, long long, unsigned long long

// ---------------------------------------------------------------- space builders
template <std::size_t N, class F> void pairs(const std::string& name, FamP<N> A, FamP<N> B, F f) {
    const std::size_t nb = B->size();
    mc::add(name, A->size() * nb,
        [=](Ctx& c, uint64_t i) { f(c, A->v[i / nb], B->v[i % nb], A->z[i / nb], B->z[i % nb]); },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s", N, hexz(A->z[i / nb]).c_str(), hexz(B->z[i % nb]).c_str()); });
}
template <std::size_t N, class F> void singles(const std::string& name, FamP<N> A, F f) {
    mc::add(name, A->size(), [=](Ctx& c, uint64_t i) { f(c, A->v[i], A->z[i]); },
        [=](uint64_t i) { return strf("N=%zu a=%s", N, hexz(A->z[i]).c_str()); });
}
template <std::size_t N, class B, class F> void withBuiltin(const std::string& name, FamP<N> A, bool dense, F f) {
    auto vs = std::make_shared<std::vector<B>>(builtins<B>(dense)); const std::size_t nb = vs->size();
    mc::add(name + " " + tname<B>(), A->size() * nb,
        [=](Ctx& c, uint64_t i) { f(c, A->v[i / nb], (*vs)[i % nb], A->z[i / nb], ofInt((*vs)[i % nb])); },
        [=](uint64_t i) { return strf("N=%zu a=%s built-in %s %s", N, hexz(A->z[i / nb]).c_str(), tname<B>(), ofInt((*vs)[i % nb]).get_str().c_str()); });
}
template <std::size_t N, class F> void pairsS(const std::string& name, SFamP<N> A, SFamP<N> B, F f) {
    const std::size_t nb = B->size();
    mc::add(name, A->size() * nb,
        [=](Ctx& c, uint64_t i) { f(c, A->v[i / nb], B->v[i % nb], A->z[i / nb], B->z[i % nb]); },
        [=](uint64_t i) { return strf("N=%zu a=%s b=%s (signed)", N, hexz(A->z[i / nb]).c_str(), hexz(B->z[i % nb]).c_str()); });
}
template <std::size_t N, class F> void singlesS(const std::string& name, SFamP<N> A, F f) {
    mc::add(name, A->size(), [=](Ctx& c, uint64_t i) { f(c, A->v[i], A->z[i]); },
        [=](uint64_t i) { return strf("N=%zu a=%s (signed)", N, hexz(A->z[i]).c_str()); });
}
template <std::size_t N, class B, class F> void withBuiltinS(const std::string& name, SFamP<N> A, bool dense, F f) {
    auto vs = std::make_shared<std::vector<B>>(builtins<B>(dense)); const std::size_t nb = vs->size();
    mc::add(name + " " + tname<B>(), A->size() * nb,
        [=](Ctx& c, uint64_t i) { f(c, A->v[i / nb], (*vs)[i % nb], A->z[i / nb], ofInt((*vs)[i % nb])); },
        [=](uint64_t i) { return strf("N=%zu a=%s (signed) built-in %s %s", N, hexz(A->z[i / nb]).c_str(), tname<B>(), ofInt((*vs)[i % nb]).get_str().c_str()); });
}
