// C16: stream output is the exact numeral in the selected base and leaves the stream's formatting intact.
#include "common.h"
#include <iomanip>
#include <sstream>
#include <streambuf>
#include <locale>

template <class Ch> using Str = std::basic_string<Ch>;
template <class Ch> Str<Ch> widen(const std::string& s) { Str<Ch> r; for (unsigned char c : s) r.push_back(static_cast<Ch>(c)); return r; }
template <class Ch> std::string narrow(const Str<Ch>& s) { std::string r; for (Ch c : s) r += (c >= Ch(32) && c < Ch(127)) ? std::string(1, static_cast<char>(c)) : strf("\\x{%x}", static_cast<unsigned>(c)); return r.size() > 600 ? r.substr(0, 280) + "..." + r.substr(r.size() - 280) : r; }
// the text a number must produce under given flags (zero with showbase: both "0" and prefix+"0" are accepted)
static std::string numeral(const mpz_class& z, std::ios_base::fmtflags f) {
    const auto b = f & std::ios_base::basefield; const int base = b == std::ios_base::hex ? 16 : b == std::ios_base::oct ? 8 : 10;
    std::string s = mpz_class(abs(z)).get_str(base); if (base == 16 && (f & std::ios_base::uppercase)) for (auto& c : s) c = static_cast<char>(std::toupper(c));
    if ((f & std::ios_base::showbase) && base != 10 && z != 0) s = (base == 16 ? "0x" : "0o") + s;
    return z < 0 ? "-" + s : s;
}
static std::string zeroAlt(const mpz_class& z, std::ios_base::fmtflags f) { const auto b = f & std::ios_base::basefield; if (z == 0 && (f & std::ios_base::showbase)) { if (b == std::ios_base::hex) return "0x0"; if (b == std::ios_base::oct) return "0o0"; } return numeral(z, f); }

static const std::vector<std::ios_base::fmtflags> BASES{std::ios_base::dec, std::ios_base::hex, std::ios_base::oct, std::ios_base::fmtflags{}}, ADJ{std::ios_base::fmtflags{}, std::ios_base::left, std::ios_base::right, std::ios_base::internal};
static std::ios_base::fmtflags flagsOf(uint64_t k) { auto f = BASES[k % 4]; k /= 4; if (k % 2) f |= std::ios_base::uppercase; k /= 2; if (k % 2) f |= std::ios_base::showbase; k /= 2; f |= ADJ[k % 4]; return f; }   // 64 combinations
static std::string showFlags(std::ios_base::fmtflags f) { const auto b = f & std::ios_base::basefield, a = f & std::ios_base::adjustfield; std::string s = b == std::ios_base::hex ? "hex" : b == std::ios_base::oct ? "oct" : b == std::ios_base::dec ? "dec" : "no-base"; if (f & std::ios_base::uppercase) s += " uppercase"; if (f & std::ios_base::showbase) s += " showbase"; return s + (a == std::ios_base::left ? " left" : a == std::ios_base::right ? " right" : a == std::ios_base::internal ? " internal" : ""); }

// one output under every flag combination
template <class Ch, class Num> void oneOutput(Ctx& c, const Num& n, const mpz_class& z, std::ios_base::fmtflags f, Ch fill, const std::locale* loc = nullptr) {
    std::basic_ostringstream<Ch> os; os.flags(f | std::ios_base::skipws); os.fill(fill); if (loc) os.imbue(*loc);
    const auto before = os.flags();
    auto& r = os << n; c.step();
    const auto got = os.str(); c.state(got.data(), got.size() * sizeof(Ch), 16);
    if (&r != &os) c.fail("the stream is not returned");
    if (got != widen<Ch>(numeral(z, f)) && got != widen<Ch>(zeroAlt(z, f))) c.fail("output %s, expected %s", narrow(got).c_str(), numeral(z, f).c_str());
    if (os.fill() != fill) c.fail("fill character of the stream changed");
    if (os.flags() != before) c.fail("format flags of the stream changed from [%s] to [%s]", showFlags(before).c_str(), showFlags(os.flags()).c_str());
    if (os.width() != 0 || os.precision() != 6 || !os.good()) c.fail("width, precision or state of the stream changed");
}
template <std::size_t N, class Ch> void outputs(std::vector<Pat<N>> p, unsigned combos) {
    auto A = fam<N>(p); auto S = sfam<N>(p); const std::vector<uint64_t> few = combos == 1 ? std::vector<uint64_t>{1, 5, 9, 13, 33} : std::vector<uint64_t>{0, 1, 2, 5, 9, 10, 13, 17 + 8, 33, 34, 49 + 8, 61}; const uint64_t k = combos == 64 ? 64 : few.size();
    auto pick = [=](uint64_t i) { return flagsOf(combos == 64 ? i : few[i]); };
    mc::add(strf("unsigned under %u flag sets N=%zu %s", unsigned(k), N, sizeof(Ch) == 1 ? "char" : "wchar_t"), A->size() * k, [=](Ctx& c, uint64_t i) { oneOutput<Ch>(c, A->v[i / k], A->z[i / k], pick(i % k), Ch(i % 3 == 0 ? ' ' : i % 3 == 1 ? '*' : '7')); },
        [=](uint64_t i) { return strf("N=%zu %s flags [%s]", N, hexz(A->z[i / k]).c_str(), showFlags(pick(i % k)).c_str()); });
    mc::add(strf("signed under %u flag sets N=%zu %s", unsigned(k), N, sizeof(Ch) == 1 ? "char" : "wchar_t"), S->size() * k, [=](Ctx& c, uint64_t i) { oneOutput<Ch>(c, S->v[i / k], S->z[i / k], pick(i % k), Ch(i % 3 == 0 ? ' ' : i % 3 == 1 ? '*' : '7')); },
        [=](uint64_t i) { return strf("N=%zu %s (signed) flags [%s]", N, hexz(S->z[i / k]).c_str(), showFlags(pick(i % k)).c_str()); });
}

// every subset of the base flags (several at once mean decimal, as for built-in integers), with flags that concern other values
template <std::size_t N, class Ch> void strange(std::vector<Pat<N>> p) {
    auto A = fam<N>(p); auto S = sfam<N>(p); using I = std::ios_base;
    auto flags = [](uint64_t k) { static const I::fmtflags other[] = {I::fmtflags{}, I::fixed, I::scientific, I::fixed | I::scientific, I::showpoint, I::unitbuf, I::boolalpha, I::fixed | I::showpoint | I::unitbuf | I::boolalpha}; I::fmtflags f = other[k % 8]; k /= 8; for (auto b : {I::dec, I::hex, I::oct, I::uppercase, I::showbase}) { if (k % 2) f |= b; k /= 2; } return f; };
    mc::add(strf("every subset of the base flags with unrelated flags N=%zu %s", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), (A->size() + S->size()) * 256, [=](Ctx& c, uint64_t i) {
        const uint64_t v = i / 256; const auto f = flags(i % 256); if (v < A->size()) oneOutput<Ch>(c, A->v[v], A->z[v], f, Ch('*')); else oneOutput<Ch>(c, S->v[v - A->size()], S->z[v - A->size()], f, Ch('*')); },
        [=](uint64_t i) { const uint64_t v = i / 256; return strf("N=%zu %s%s format flags %x", N, hexz(v < A->size() ? A->z[v] : S->z[v - A->size()]).c_str(), v < A->size() ? "" : " (signed)", unsigned(flags(i % 256))); });
}

// the numeral does not depend on how the stream's locale groups digits and spells numbers
template <class Ch> struct Punct : std::numpunct<Ch> {
    std::string g; Ch sep; Punct(std::string g_, char s) : g(std::move(g_)), sep(Ch(s)) {}
    std::string do_grouping() const override { return g; } Ch do_thousands_sep() const override { return sep; } Ch do_decimal_point() const override { return Ch(';'); }
    std::basic_string<Ch> do_truename() const override { return widen<Ch>("yes"); } std::basic_string<Ch> do_falsename() const override { return widen<Ch>("no"); }
};
template <std::size_t N, class Ch> void locales(std::vector<Pat<N>> p) {
    auto A = fam<N>(p); auto S = sfam<N>(p); auto L = std::make_shared<std::vector<std::locale>>();
    for (auto [g, s] : {std::pair<const char*, char>{"\3", ','}, {"\1", '.'}, {"\2\3", ' '}, {"\4", '0'}}) L->emplace_back(std::locale::classic(), new Punct<Ch>(g, s));
    const uint64_t per = L->size() * 32;
    mc::add(strf("streams with digit-grouping locales N=%zu %s", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), (A->size() + S->size()) * per, [=](Ctx& c, uint64_t i) {
        const uint64_t v = i / per, k = i % per; const auto f = flagsOf(k / L->size()) | (k % 3 ? std::ios_base::fmtflags{} : std::ios_base::boolalpha); const auto& loc = (*L)[k % L->size()];
        if (v < A->size()) oneOutput<Ch>(c, A->v[v], A->z[v], f, Ch('*'), &loc); else oneOutput<Ch>(c, S->v[v - A->size()], S->z[v - A->size()], f, Ch('*'), &loc); },
        [=](uint64_t i) { const uint64_t v = i / per, k = i % per; return strf("N=%zu %s flags [%s] locale %u", N, hexz(v < A->size() ? A->z[v] : S->z[v - A->size()]).c_str(), showFlags(flagsOf(k / L->size())).c_str(), unsigned(k % L->size())); });
}

// all sequences of stream operations up to a depth, on one stream; the model is a standard stream that is given the numeral as text
enum Op { HEX, OCT, DEC, SHOW, NOSHOW, UPPER, LOWER, FILL, LEFT, RIGHT, INTERNAL, INT, WIDEINT, NUM1, NUM2, NEG, ZERO, OPS };
static const char* const OPNAME[] = {"hex", "oct", "dec", "showbase", "noshowbase", "uppercase", "nouppercase", "setfill('*')", "left", "right", "internal", "<<255", "<<setw(6)<<42", "<<multi-block", "<<one-block", "<<negative", "<<zero"};
template <std::size_t N, class Ch> void sequences(unsigned depth) {
    uint64_t total = 1; for (unsigned i = 0; i < depth; ++i) total *= OPS;
    const mpz_class z1 = pow2(N) - pow2(64) + 0xabc, z2 = 0xbeef, z3 = -(pow2(70) + 0xface), z0 = 0;
    Aeu<N> n1 = load<N>(fromMpz<N>(z1)), n2(0xbeefu); Aesi<N> n3 = loadS<N>(-1, fromMpz<N>(-z3)), n0(0);
    auto dec = [=](uint64_t i) { std::vector<int> v(depth); for (auto& o : v) { o = static_cast<int>(i % OPS); i /= OPS; } return v; };
    mc::add(strf("operation sequences of length %u on one stream N=%zu %s", depth, N, sizeof(Ch) == 1 ? "char" : "wchar_t"), total, [=](Ctx& c, uint64_t idx) {
        std::basic_ostringstream<Ch> a, b;
        for (int o : dec(idx)) {
            for (auto* s : {&a, &b}) switch (o) {
                case HEX: *s << std::hex; break; case OCT: *s << std::oct; break; case DEC: *s << std::dec; break; case SHOW: *s << std::showbase; break; case NOSHOW: *s << std::noshowbase; break;
                case UPPER: *s << std::uppercase; break; case LOWER: *s << std::nouppercase; break; case FILL: *s << std::setfill(Ch('*')); break; case LEFT: *s << std::left; break; case RIGHT: *s << std::right; break; case INTERNAL: *s << std::internal; break;
                case INT: *s << 255; break; case WIDEINT: *s << std::setw(6) << 42; break; default: break; }
            if (o >= NUM1) {
                const auto& z = o == NUM1 ? z1 : o == NUM2 ? z2 : o == NEG ? z3 : z0; const auto had = a.str().size(); const auto f = b.flags();
                if (o == NUM1) a << n1; else if (o == NUM2) a << n2; else if (o == NEG) a << n3; else a << n0; c.step();
                const auto got = a.str().substr(had);
                if (got == widen<Ch>(zeroAlt(z, f))) b << got; else b << widen<Ch>(numeral(z, f));
            }
            if (a.fill() != b.fill() || a.flags() != b.flags() || a.width() != b.width()) { c.fail("stream formatting differs after %s: [%s] fill %x, expected [%s] fill %x", OPNAME[o], showFlags(a.flags()).c_str(), unsigned(a.fill()), showFlags(b.flags()).c_str(), unsigned(b.fill())); return; }
        }
        const auto g = a.str(); c.state(g.data(), g.size() * sizeof(Ch), 17);
        if (g != b.str()) c.fail("text %s, expected %s", narrow(g).c_str(), narrow(b.str()).c_str()); },
        [=](uint64_t i) { std::string s; for (int o : dec(i)) s += std::string(OPNAME[o]) + ", "; return strf("N=%zu: ", N) + s; });
}

// a device that fails after k characters: for good, once, or by throwing
template <class Ch> struct Device : std::basic_streambuf<Ch> {
    using T = std::char_traits<Ch>; std::size_t left; int mode; bool failed = false; Str<Ch> got;
    Device(std::size_t k, int m) : left(k), mode(m) {}
    bool take(Ch ch) { if (left == 0 && !(mode == 1 && failed)) { failed = true; if (mode == 2) throw 42; return false; } if (left) --left; got += ch; return true; }
    typename T::int_type overflow(typename T::int_type v) override { if (T::eq_int_type(v, T::eof())) return T::not_eof(v); return take(T::to_char_type(v)) ? v : T::eof(); }
    std::streamsize xsputn(const Ch* s, std::streamsize n) override { std::streamsize i = 0; while (i < n && take(s[i])) ++i; return i; }
};
template <std::size_t N, class Ch> void failures(std::vector<Pat<N>> p) {
    struct Case { Aesi<N> s; Aeu<N> u; bool sgn; mpz_class z; std::ios_base::fmtflags f; std::size_t len; uint64_t first; };
    auto cs = std::make_shared<std::vector<Case>>(); uint64_t total = 0;
    for (auto& q : p) for (uint64_t k : {0, 1, 2, 5, 9, 10, 13, 57}) for (bool sg : {false, true}) { Case e{loadS<N>(sg && toMpz<N>(q) != 0 ? -1 : 0, q), load<N>(q), sg, toMpz<N>(q), flagsOf(k), 0, total}; if (sg) { if (e.z == 0) continue; e.z = -e.z; } e.len = numeral(e.z, e.f).size(); total += (e.len + 2) * 4; cs->push_back(e); }
    auto at = [=](uint64_t i) { auto it = std::upper_bound(cs->begin(), cs->end(), i, [](uint64_t v, const Case& e) { return v < e.first; }); return it - cs->begin() - 1; };
    mc::add(strf("device failing at every character N=%zu %s", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), total, [=](Ctx& c, uint64_t i) {
        const Case& e = (*cs)[at(i)]; const std::size_t k = (i - e.first) / 4; const int mode = (i - e.first) % 4;
        Device<Ch> d(k, mode == 3 ? 0 : mode); std::basic_ostream<Ch> os(&d); os.flags(e.f); os.fill(Ch('*')); if (mode == 3) os.exceptions(std::ios_base::badbit);
        bool thrown = false; try { if (e.sgn) os << e.s; else os << e.u; } catch (...) { thrown = true; } c.step(); c.state(d.got.data(), d.got.size() * sizeof(Ch), 18);
        const auto text = widen<Ch>(numeral(e.z, e.f)), alt = widen<Ch>(zeroAlt(e.z, e.f));
        if (text.compare(0, d.got.size(), d.got) != 0 && alt.compare(0, d.got.size(), d.got) != 0) c.fail("the device holds %s, which is no prefix of %s", narrow(d.got).c_str(), narrow(text).c_str());
        if (d.got.size() < text.size() && os.good() && !thrown) c.fail("the stream lost text but is good");
        if (k >= text.size() && k >= alt.size() && d.got != text && d.got != alt) c.fail("the device holds %s, expected %s", narrow(d.got).c_str(), narrow(text).c_str());
        if (os.fill() != Ch('*') || os.flags() != e.f) c.fail("formatting of the failed stream changed"); },
        [=](uint64_t i) { const Case& e = (*cs)[at(i)]; const uint64_t j = i - e.first; static const char* const M[] = {"for good", "once", "throwing", "with exceptions enabled"}; return strf("N=%zu %s [%s], device fails after %u characters %s", N, hexz(e.z).c_str(), showFlags(e.f).c_str(), unsigned(j / 4), M[j % 4]); });
}
// values at the ends of every digit count
template <std::size_t N> std::vector<Pat<N>> edges() {
    std::vector<Pat<N>> o; for (mpz_class z : {mpz_class(0), mpz_class(1), mpz_class(pow2(N) - 1), mpz_class(pow2(N - 1)), mpz_class(pow2(N - 2)), mpz_class(pow2(N) - pow2(32)), mpz_class(pow2(64)), mpz_class(pow2(32)), mpz_class(pow2(N - 32))}) o.push_back(fromMpz<N>(z));
    for (unsigned b : {8u, 10u, 16u}) { mpz_class t = 1; while (t * b < pow2(N)) t *= b; o.push_back(fromMpz<N>(t)); o.push_back(fromMpz<N>(t - 1)); } return o;
}
template <std::size_t A, std::size_t... K> void widths(std::index_sequence<K...>) { (outputs<A + 32 * K, char>(edges<A + 32 * K>(), 12), ...); }
#if PART == 0
static void reg() { outputs<96, char>(product<96>(mc::thorough() ? L16 : L8), 64); failures<96, char>(thin(shapes<96>(1), 60)); locales<96, char>(thin(shapes<96>(1), 150)); locales<256, wchar_t>(thin(shapes<256>(1), 60)); widths<96>(std::make_index_sequence<14>()); }
#elif PART == 1
static void reg() { outputs<128, wchar_t>(join(product<128>(mc::thorough() ? L8 : L4), thin(shapes<128>(2), 300)), 64); outputs<256, char>(thin(shapes<256>(2), mc::thorough() ? 2000 : 200), 64); failures<160, wchar_t>(thin(shapes<160>(1), 30)); widths<544>(std::make_index_sequence<9>()); }
#elif PART == 2
static void reg() { sequences<128, char>(3); sequences<96, char>(mc::thorough() ? 6 : 5); failures<128, char>(edges<128>()); strange<96, char>(thin(shapes<96>(1), 60)); strange<160, wchar_t>(edges<160>()); }
#elif PART == 3
static void reg() { sequences<160, wchar_t>(mc::thorough() ? 5 : 4); outputs<512, wchar_t>(thin(shapes<512>(1), mc::thorough() ? 600 : 100), 12); outputs<1024, char>(thin(shapes<1024>(1), mc::thorough() ? 300 : 40), 12); }
#elif PART == 4
static void reg() { outputs<2048, char>(join(edges<2048>(), thin(shapes<2048>(0), mc::thorough() ? 100 : 10)), 12); outputs<8192, char>(edges<8192>(), 1); outputs<4096, wchar_t>(edges<4096>(), 1); if (mc::thorough()) outputs<8192, char>(thin(edges<8192>(), 6), 12); failures<512, char>({edges<512>()[2]}); }
#endif
MC_PART(reg);
