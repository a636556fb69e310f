// C18: binary stream I/O round-trips, whatever the chunking, truncation or device failure.
#include "common.h"
#include <sstream>
#include <streambuf>

// the bytes of a number in the chosen block order (blocks most or least significant first; bytes inside a block in host order)
template <std::size_t N> std::string bytesOf(const Pat<N>& p, bool big) { std::string s; for (std::size_t i = 0; i < N / 32; ++i) { const uint32_t b = p[big ? N / 32 - 1 - i : i]; char t[4]; std::memcpy(t, &b, 4); s.append(t, 4); } return s; }
template <std::size_t N> Pat<N> patOf(std::string s, bool big) { s.resize(N / 8, '\0'); Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) std::memcpy(&p[big ? N / 32 - 1 - i : i], s.data() + 4 * i, 4); return p; }

// a source handing out its bytes in chunks, then end of file, an error by exception, or (mode 2) a short end that later delivers more
struct Source : std::streambuf {
    std::string data; std::size_t pos = 0, chunk, cut; int mode; char hold[4096]; bool ended = false;
    Source(std::string d, std::size_t ch, std::size_t c, int m) : data(std::move(d)), chunk(ch), cut(c), mode(m) {}
    int_type underflow() override {
        if (ended && mode != 2) return traits_type::eof();
        if (pos >= cut && !ended) { ended = true; if (mode == 1) throw 42; return traits_type::eof(); }
        const std::size_t limit = ended ? data.size() : cut; if (pos >= limit) return traits_type::eof();
        const std::size_t n = std::min({chunk, limit - pos, sizeof hold}); std::memcpy(hold, data.data() + pos, n); pos += n; setg(hold, hold, hold + n); return traits_type::to_int_type(hold[0]);
    }
};
struct Sink : std::streambuf {
    std::string got; std::size_t left; int mode; bool failed = false;
    Sink(std::size_t k, int m) : left(k), mode(m) {}
    bool take(char ch) { if (left == 0 && !(mode == 1 && failed)) { failed = true; if (mode == 2) throw 42; return false; } if (left) --left; got += ch; return true; }
    int_type overflow(int_type v) override { if (traits_type::eq_int_type(v, traits_type::eof())) return traits_type::not_eof(v); return take(traits_type::to_char_type(v)) ? v : traits_type::eof(); }
    std::streamsize xsputn(const char* s, std::streamsize n) override { std::streamsize i = 0; while (i < n && take(s[i])) ++i; return i; }
};
static const std::size_t CHUNKS[] = {1, 2, 3, 4, 5, 7, 64, 4096};

template <std::size_t N> void roundtrips(std::vector<Pat<N>> p) {
    auto A = fam<N>(p);
    mc::add(strf("write and read back N=%zu", N), A->size() * 4, [=](Ctx& c, uint64_t i) {
        const bool big = i & 1, dflt = i & 2; const auto& a = A->v[i / 4]; const auto& z = A->z[i / 4]; const auto& q = A->p[i / 4];
        if (dflt && !big) return;
        std::stringstream ss; if (dflt) a.writeBinary(ss); else a.writeBinary(ss, big); c.step();
        if (ss.str() != bytesOf<N>(q, big)) c.fail("the bytes written are not the number's blocks, %s first", big ? "most significant" : "least significant");
        expectSame(c, a, z, "writeBinary");
        Aeu<N> b = ~a; if (dflt) b.readBinary(ss); else b.readBinary(ss, big); expectU(c, b, z, "readBinary of what writeBinary wrote");
        if (!ss.good() || ss.peek() != std::char_traits<char>::eof()) c.fail("not exactly the bytes of the number were consumed");
        // two numbers behind each other in one stream
        std::stringstream tt; a.writeBinary(tt, big); (~a).writeBinary(tt, !big); tt << '!'; Aeu<N> x(7u), y(9u); x.readBinary(tt, big); y.readBinary(tt, !big); expectU(c, x, z, "first of two numbers in a stream"); expectU(c, y, modN(-z - 1, N), "second of two numbers in a stream");
        if (tt.get() != '!') c.fail("reading consumed a byte behind the number"); },
        [=](uint64_t i) { return strf("N=%zu %s %s", N, hexz(A->z[i / 4]).c_str(), i & 1 ? "big" : "little"); });
}
// input ending (or failing) after every k bytes, in every chunking, into every prior value
template <std::size_t N> void inputs(std::vector<Pat<N>> p) {
    auto A = fam<N>(p); auto old = fam<N>({Pat<N>{}, fromMpz<N>(pow2(N) - 1), fromMpz<N>(pow2(N) / 3 * 2 + 1)}); constexpr uint64_t B = N / 8, K = B + 3, C = std::size(CHUNKS), per = K * C * 3 * 4 * 2;
    mc::add(strf("input ending after every byte, in every chunking N=%zu", N), A->size() * per, [=](Ctx& c, uint64_t i) {
        const auto v = i / per; uint64_t r = i % per; const bool big = r & 1; r /= 2; const int mode = static_cast<int>(r % 4); r /= 4; const auto o = r % 3; r /= 3; const auto ch = CHUNKS[r % C]; const std::size_t k = r / C;
        const std::string bytes = bytesOf<N>(A->p[v], big) + "\x77\x99";
        Source src(bytes, ch, k, mode == 3 ? 0 : mode); std::istream is(&src); Aeu<N> b = old->v[o]; if (mode == 3) is.exceptions(std::ios_base::badbit | std::ios_base::failbit | std::ios_base::eofbit);
        try { b.readBinary(is, big); } catch (const std::ios_base::failure&) { if (mode != 3) throw; } is.exceptions(std::ios_base::goodbit);
        const auto want = patOf<N>(bytes.substr(0, std::min<std::size_t>(k, B)), big);
        expectU(c, b, toMpz<N>(want), "readBinary of an input that ends early");
        if (k >= B && !is.good()) c.fail("a complete input left the stream in a failed state");
        if (k >= B && k > B) { const int g = is.get(); if (g != 0x77) c.fail("readBinary consumed more than the bytes of the number"); } },
        [=](uint64_t i) { const auto v = i / per; uint64_t r = i % per; const bool big = r & 1; r /= 2; const int mode = static_cast<int>(r % 4); r /= 4; const auto o = r % 3; r /= 3; return strf("N=%zu %s %s-endian blocks, chunks of %zu, input ends after %llu bytes %s, object held %s", N, hexz(A->z[v]).c_str(), big ? "big" : "little", CHUNKS[r % C], static_cast<unsigned long long>(r / C), mode == 0 ? "for good" : mode == 1 ? "by exception" : mode == 2 ? "and resumes" : "with exceptions enabled", hexz(old->z[o]).c_str()); });
}
// output device failing after every k bytes
template <std::size_t N> void outputs(std::vector<Pat<N>> p) {
    auto A = fam<N>(p); constexpr uint64_t B = N / 8, per = (B + 3) * 4 * 2;
    mc::add(strf("output device failing after every byte N=%zu", N), A->size() * per, [=](Ctx& c, uint64_t i) {
        const auto v = i / per; uint64_t r = i % per; const bool big = r & 1; r /= 2; const int mode = static_cast<int>(r % 4); const std::size_t k = r / 4;
        Sink sink(k, mode == 3 ? 0 : mode); std::ostream os(&sink); if (mode == 3) os.exceptions(std::ios_base::badbit); bool thrown = false;
        try { A->v[v].writeBinary(os, big); } catch (const std::ios_base::failure&) { thrown = true; } c.step(); c.state(sink.got.data(), sink.got.size(), 18);
        if (sink.got != bytesOf<N>(A->p[v], big).substr(0, k)) c.fail("the device took %zu bytes; expected exactly the first %zu bytes of the number", sink.got.size(), std::min<std::size_t>(k, B));
        if (k < B && os.good() && !thrown) c.fail("bytes were lost but the stream is good");
        if (k >= B && (!os.good() || thrown)) c.fail("all bytes were written but the stream failed");
        expectSame(c, A->v[v], A->z[v], "writeBinary"); },
        [=](uint64_t i) { uint64_t r = i % per; const bool big = r & 1; r /= 2; static const char* const M[] = {"for good", "once", "throwing", "with exceptions enabled"}; return strf("N=%zu %s %s-endian blocks, device fails after %llu bytes %s", N, hexz(A->z[i / per]).c_str(), big ? "big" : "little", static_cast<unsigned long long>(r / 4), M[r % 4]); });
}
template <std::size_t N> std::vector<Pat<N>> odd();
// several numbers read from one stream that ends (or has failed) early, and written to one device that fails
template <std::size_t N> void histories() {
    constexpr uint64_t B = N / 8, K = 3 * B + 2, per = K * 3 * 2 * 8; auto P = odd<N>(); const auto p = P[0];
    mc::add(strf("three numbers from one input that ends early N=%zu", N), per, [=](Ctx& c, uint64_t i) {
        uint64_t r = i; const unsigned orders = r % 8; r /= 8; const bool neg = r & 1; r /= 2; const int mode = static_cast<int>(r % 3); const std::size_t k = r / 3;
        std::string all = bytesOf<N>(p, true) + bytesOf<N>(p, false) + bytesOf<N>(p, true); for (std::size_t j = 0; j < all.size(); ++j) all[j] = static_cast<char>(all[j] ^ (neg ? 0xff : 0) ^ static_cast<char>(j / B * 16)); all.resize(std::min<std::size_t>(k, all.size()));
        std::istringstream plain(all); Source src(all + "zzzzzzzz", 5, all.size(), mode == 1 ? 1 : 0); std::istream odd(&src); std::istream& is = mode == 2 ? static_cast<std::istream&>(plain) : odd;
        Aeu<N> x[3] = {~Aeu<N>(0u), ~Aeu<N>(0u), ~Aeu<N>(5u)}; for (unsigned n = 0; n < 3; ++n) { x[n].readBinary(is, (orders >> n) & 1); c.step(); }
        for (unsigned n = 0; n < 3; ++n) { const std::string part = all.size() > n * B ? all.substr(n * B, B) : std::string(); expectU(c, x[n], toMpz<N>(patOf<N>(part, (orders >> n) & 1)), n == 0 ? "first number of an input that ends early" : n == 1 ? "second number of an input that ends early" : "third number of an input that ends early"); } },
        [=](uint64_t i) { uint64_t r = i; const unsigned orders = r % 8; r /= 16; const int mode = static_cast<int>(r % 3); return strf("N=%zu orders %u input of %llu bytes, source %d", N, orders, (unsigned long long)(r / 3), mode); });
    mc::add(strf("three numbers to one device that fails N=%zu", N), K * 3 * 8, [=](Ctx& c, uint64_t i) {
        uint64_t r = i; const unsigned orders = r % 8; r /= 8; const int mode = static_cast<int>(r % 3) == 1 ? 2 : 0; const bool failedBefore = r % 3 == 2; const std::size_t k = r / 3;
        Sink sink(k, mode); std::ostream os(&sink); if (failedBefore) os.setstate(std::ios_base::failbit); std::string want;
        auto A = load<N>(p); for (unsigned n = 0; n < 3; ++n) { A.writeBinary(os, (orders >> n) & 1); want += bytesOf<N>(p, (orders >> n) & 1); c.step(); }
        if (sink.got != (failedBefore ? std::string() : want.substr(0, k))) c.fail("the device took %zu bytes; expected exactly the first %zu", sink.got.size(), failedBefore ? std::size_t(0) : std::min<std::size_t>(k, want.size())); },
        [=](uint64_t i) { return strf("N=%zu orders %llu, mode %llu, %llu bytes", N, (unsigned long long)(i % 8), (unsigned long long)(i / 8 % 3), (unsigned long long)(i / 24)); });
}
template <std::size_t N> std::vector<Pat<N>> odd() { std::vector<Pat<N>> o; Pat<N> p; for (std::size_t i = 0; i < N / 32; ++i) { uint32_t x = static_cast<uint32_t>(4 * i); p[i] = (x + 1) | (x + 2) << 8 | (x + 3) << 16 | (x + 0x84) << 24; } o.push_back(p); for (auto& b : p) b = ~b; o.push_back(p); p.fill(0xffffffffu); o.push_back(p); p.fill(0); o.push_back(p); p[0] = 0xff000000u; p[N / 32 - 1] = 0x0a0d1a00u; o.push_back(p); return o; }
#if PART == 0
static void reg() { roundtrips<96>(product<96>(mc::thorough() ? L16 : L10)); inputs<96>(join(odd<96>(), thin(shapes<96>(2), mc::thorough() ? 400 : 60))); outputs<96>(join(odd<96>(), thin(shapes<96>(2), mc::thorough() ? 400 : 100))); histories<96>(); histories<128>(); }
#elif PART == 1
static void reg() { roundtrips<128>(join(product<128>(mc::thorough() ? L8 : L4), shapes<128>(2))); inputs<128>(join(odd<128>(), thin(shapes<128>(2), mc::thorough() ? 300 : 30))); outputs<128>(join(odd<128>(), thin(shapes<128>(2), mc::thorough() ? 300 : 40))); }
#elif PART == 2
static void reg() { roundtrips<512>(shapes<512>(2)); inputs<512>(odd<512>()); outputs<512>(join(odd<512>(), thin(shapes<512>(2), 40))); roundtrips<160>(shapes<160>(2)); histories<160>(); histories<512>(); inputs<160>(odd<160>()); outputs<160>(odd<160>()); }
#elif PART == 3
static void reg() { roundtrips<1024>(shapes<1024>(1)); roundtrips<8192>(thin(shapes<8192>(0), 200)); outputs<2048>(odd<2048>()); inputs<2048>({odd<2048>()[0]}); if (mc::thorough()) { inputs<1024>(odd<1024>()); outputs<8192>(odd<8192>()); } }
#elif PART >= 4
static void reg() { everyWidth<PART - 4>([]<std::size_t N>() { roundtrips<N>(sparse<N>(N > 65536 ? 8 : 20)); if constexpr (N <= 1088) { inputs<N>({odd<N>()[0]}); outputs<N>({odd<N>()[0], fromMpz<N>(denseBits(N - 1))}); } }); }
#endif
MC_PART(reg);
