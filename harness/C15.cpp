// C15: text parsing yields the denoted integer for every accepted spelling, and reads nothing past the given length.
#include "common.h"
#include <locale>
#include <string_view>
#include <algorithm>
#include <sys/mman.h>
#include <unistd.h>

// ---- the reference parser, written from the property text
template <class Ch> bool alnum(Ch c) { const auto u = static_cast<unsigned long>(c); return (c >= Ch('0') && c <= Ch('9')) || (c >= Ch('a') && c <= Ch('z')) || (c >= Ch('A') && c <= Ch('Z')) || (u, false); }
struct Denoted { mpz_class mag; bool odd; };
template <class Ch> Denoted denote(const Ch* s, std::size_t n) {
    Denoted d{0, false};
    for (std::size_t i = 0; i < n; ++i) if (s[i] == Ch('-')) d.odd = !d.odd;
    std::size_t p = 0; while (p < n && !alnum(s[p])) ++p;
    unsigned base = 10;
    if (p + 1 < n && s[p] == Ch('0')) {
        const Ch k = s[p + 1];
        if (k == Ch('b') || k == Ch('B')) base = 2; else if (k == Ch('o') || k == Ch('O')) base = 8; else if (k == Ch('x') || k == Ch('X')) base = 16;
        if (base != 10) p += 2;
    }
    std::string digits;
    for (; p < n; ++p) {
        const Ch c = s[p]; unsigned v = 99;
        if (c >= Ch('0') && c <= Ch('9')) v = static_cast<unsigned>(c - Ch('0'));
        else if (c >= Ch('a') && c <= Ch('z')) v = static_cast<unsigned>(c - Ch('a')) + 10;
        else if (c >= Ch('A') && c <= Ch('Z')) v = static_cast<unsigned>(c - Ch('A')) + 10;
        if (v < base) digits += "0123456789abcdef"[v];
    }
    if (!digits.empty()) d.mag.set_str(digits, static_cast<int>(base));
    return d;
}
// ---- memory that ends (or begins) exactly at an unmapped page
struct Guarded {
    unsigned char* mid; std::size_t page, room;
    Guarded() {
        page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE)); room = 256 * page;
        auto* m = static_cast<unsigned char*>(mmap(nullptr, room + 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(m, page, PROT_NONE); mprotect(m + page + room, page, PROT_NONE); mid = m + page;
    }
    template <class Ch> const Ch* atEnd(const Ch* s, std::size_t n) { auto* p = reinterpret_cast<Ch*>(mid + room - n * sizeof(Ch)); std::memcpy(p, s, n * sizeof(Ch)); return p; }
    template <class Ch> const Ch* atStart(const Ch* s, std::size_t n) { auto* p = reinterpret_cast<Ch*>(mid); std::memset(mid, '7', room < 4096 ? room : 4096); std::memcpy(p, s, n * sizeof(Ch)); if (n * sizeof(Ch) + sizeof(Ch) <= 4096) p[n] = Ch('7'); return p; }
};
static Guarded& guarded() { static Guarded g; return g; }

template <class Ch> std::string showText(const std::basic_string<Ch>& s) {
    std::string o = sizeof(Ch) == 1 ? "\"" : "L\"";
    for (std::size_t i = 0; i < s.size() && i < 160; ++i) { const auto u = static_cast<uint32_t>(s[i]) & (sizeof(Ch) == 1 ? 0xffu : 0xffffffffu); o += u >= 32 && u < 127 && u != '"' && u != '\\' ? std::string(1, static_cast<char>(u)) : strf("\\x{%x}", u); }
    return o + (s.size() > 160 ? "...\"" : "\"");
}
template <std::size_t N, class Ch> void oneText(Ctx& c, const std::basic_string<Ch>& s, bool all) {
    const auto d = denote(s.data(), s.size()); const mpz_class m = modN(d.mag, N), w = d.odd ? mpz_class(-m) : m;
    const Ch* e = guarded().atEnd(s.data(), s.size());
    { const Aeu<N> a(e, s.size()); expectU(c, a, m, "Aeu(pointer, length)"); }
    { const Aesi<N> a(e, s.size()); expectS(c, a, w, "Aesi(pointer, length)"); }
    if (!all) return;
    { const std::basic_string_view<Ch> v(e, s.size()); const Aeu<N> a(v); expectU(c, a, m, "Aeu(string view)"); const Aesi<N> b(v); expectS(c, b, w, "Aesi(string view)");
      const Aeu<N> a2(std::basic_string_view<Ch>(e, s.size())); expectU(c, a2, m, "Aeu(string view temporary)"); const Aesi<N> b2(std::basic_string_view<Ch>(e, s.size())); expectS(c, b2, w, "Aesi(string view temporary)"); }
    const Ch* b = guarded().atStart(s.data(), s.size());
    { const Aeu<N> a(b, s.size()); expectU(c, a, m, "Aeu(pointer, length) with digits behind"); const Aesi<N> x(b, s.size()); expectS(c, x, w, "Aesi(pointer, length) with digits behind"); }
    { const Aeu<N> a(s); expectU(c, a, m, "Aeu(const string)"); const Aesi<N> x(s); expectS(c, x, w, "Aesi(const string)");
      auto t = s; const Aeu<N> a2(std::move(t)); expectU(c, a2, m, "Aeu(string&&)"); t = s; const Aesi<N> x2(std::move(t)); expectS(c, x2, w, "Aesi(string&&)");
      t = s; Aeu<N> a3 = ~Aeu<N>(0u); a3 = t; expectU(c, a3, m, "Aeu = string"); Aesi<N> x3 = -77; x3 = t; expectS(c, x3, w, "Aesi = string"); }
}
// all strings over an alphabet up to a length
template <class Ch> std::basic_string<Ch> decode(uint64_t i, const std::string& letters) {
    std::basic_string<Ch> s; uint64_t n = 1; while (i >= n) { i -= n; n *= letters.size(); s.push_back(Ch()); }
    for (auto& ch : s) { ch = static_cast<Ch>(static_cast<unsigned char>(letters[i % letters.size()])); i /= letters.size(); } return s;
}
template <std::size_t N, class Ch> void strings(const char* what, std::string letters, unsigned most, bool all) {
    uint64_t total = 0, n = 1; for (unsigned k = 0; k <= most; ++k, n *= letters.size()) total += n;
    mc::add(strf("%s N=%zu %s", what, N, sizeof(Ch) == 1 ? "char" : "wchar_t"), total, [=](Ctx& c, uint64_t i) { oneText<N>(c, decode<Ch>(i, letters), all); },
        [=](uint64_t i) { return strf("N=%zu %s", N, showText(decode<Ch>(i, letters)).c_str()); });
}
// the program's locale, C and C++, for the time of one case
struct InLocale { std::locale old; explicit InLocale(const char* name) : old() { if (name) std::locale::global(std::locale(name)); on = name; } ~InLocale() { if (on) std::locale::global(old); } bool on; };
static bool haveLocale(const char* name) { try { std::locale l(name); return true; } catch (const std::exception&) { return false; } }
template <std::size_t N, class Ch> void texts(std::string what, std::vector<std::basic_string<Ch>> v, bool all, const char* loc = nullptr) {
    auto p = std::make_shared<std::vector<std::basic_string<Ch>>>(std::move(v));
    mc::add(strf("%s N=%zu %s", what.c_str(), N, sizeof(Ch) == 1 ? "char" : "wchar_t"), p->size(), [=](Ctx& c, uint64_t i) { const InLocale in(loc); oneText<N>(c, (*p)[i], all); },
        [=](uint64_t i) { return strf("N=%zu %s", N, showText((*p)[i]).c_str()); });
}
template <class Ch> std::basic_string<Ch> widen(const std::string& s) { std::basic_string<Ch> r; for (unsigned char c : s) r.push_back(static_cast<Ch>(c)); return r; }
// every character value in every kind of position
template <std::size_t N, class Ch> void characters(const char* loc = nullptr) {
    if (loc && !haveLocale(loc)) return;
    std::vector<uint32_t> cs; for (uint32_t i = 0; i < 256; ++i) cs.push_back(i);
    if (sizeof(Ch) > 1) { for (uint32_t hi : {0x100u, 0x200u, 0x400u, 0x600u, 0xff00u, 0x10000u, 0x1f600u, 0x7fffff00u, 0x80000000u, 0xffffff00u}) for (uint32_t lo = 0; lo < 256; ++lo) if (lo == 0 || lo == 255 || (lo >= 0x28 && lo < 0x80)) cs.push_back(hi + lo); }
    std::vector<std::basic_string<Ch>> v;
    for (auto u : cs) { const Ch ch = static_cast<Ch>(u); auto W = [](const char* s) { return widen<Ch>(s); };
        for (auto pre : {"", "1", "-\\",  "-", "0", "0x", "0b", "0o", "0x1", "0b1", "0o1", "9-", " "}) for (auto post : {"", "7", "x1f", "01", "-2", "a", "0x1f", "-0b12", "0O78"}) v.push_back(W(pre) + ch + W(post)); }
    texts<N, Ch>(loc ? strf("every character in every context, the program's locale being %s,", loc) : std::string("every character in every context"), std::move(v), false, loc);
}
// every numeral of a value family, in many spellings
template <std::size_t N, class Ch> void numerals(std::vector<mpz_class> zs, unsigned spellings) {
    struct Sp { int base; const char* prefix; bool upper; const char* lead; const char* trail; int every; const char* sep; };
    static const std::vector<Sp> sp{ {10, "", false, "", "", 0, ""}, {16, "0x", false, "", "", 0, ""}, {16, "0X", true, "-", "", 0, ""}, {2, "0b", false, "", "", 0, ""}, {8, "0o", false, "", "", 0, ""},
        {10, "", false, "-", "", 3, "'"}, {10, "", false, " +- ", " ", 1, "-"}, {16, "0x", true, "", "h", 4, "_"}, {16, "0x000", false, "--", "", 8, " "}, {2, "0B", false, "(-", ")", 8, "2"}, {8, "0O", false, "-", "89", 3, "9"}, {10, "000", false, "", "", 5, "abc"}, {10, "", false, "$", "xyz-", 7, "\xff"}, {2, "0b0", false, "---", "", 1, "x"}, {8, "0o00", false, "", "", 2, "a"}, {16, "0X", false, "#", "", 2, "g-z"} };
    for (auto& z : dictionaryValues<N>()) zs.push_back(z); for (auto c : DICTIONARY) if (c * 3.3 < N && c < 400) for (unsigned b : {2u, 8u, 16u}) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), b, c); zs.push_back(t); zs.push_back(t - 1); }
    auto p = std::make_shared<std::vector<mpz_class>>(std::move(zs)); const std::size_t k = std::min<std::size_t>(spellings, sp.size());
    auto make = [=](uint64_t i) { const auto& q = sp[i % k]; const auto& z = (*p)[i / k]; std::string d = z.get_str(q.base), o; if (q.upper) for (auto& ch : d) ch = static_cast<char>(std::toupper(ch));
        for (std::size_t j = 0; j < d.size(); ++j) { o += d[j]; if (q.every && j % q.every == static_cast<std::size_t>(q.every) - 1) o += q.sep; } return widen<Ch>(std::string(q.lead) + q.prefix + o + q.trail); };
    mc::add(strf("numerals in %zu spellings N=%zu %s", k, N, sizeof(Ch) == 1 ? "char" : "wchar_t"), p->size() * k, [=](Ctx& c, uint64_t i) { oneText<N>(c, make(i), i % 7 == 0); }, [=](uint64_t i) { return strf("N=%zu %s", N, showText(make(i)).c_str()); });
}
// long texts: lengths and positions where a narrower integer type would wrap
template <std::size_t N, class Ch> void longTexts() {
    std::vector<std::basic_string<Ch>> v; auto W = [](const std::string& s) { return widen<Ch>(s); };
    for (unsigned b : {7u, 8u, 12u, 15u, 16u, 17u}) for (int d = -2; d <= 3; ++d) { const std::size_t n = (std::size_t(1) << b) + d;
        for (char f : {' ', '-', '\0'}) { v.push_back(W(std::string(n, f) + "0x1f7")); v.push_back(W("0b1" + std::string(n, f) + "01")); v.push_back(W("-7" + std::string(n, f))); }
        for (char f : {'1', '0'}) { v.push_back(W(std::string(n, f) + "7")); v.push_back(W("-0x" + std::string(n, f))); v.push_back(W("0o" + std::string(n, f) + "-5")); } }
    texts<N, Ch>("long texts", std::move(v), true);
}
// texts of more than 2^32 characters: a page of filler mapped over and over, digits in the first and the last page
template <std::size_t N, class Ch> void vastTexts() {
    struct Case { char fill; const char* head; const char* tail; long extra; bool sgn; }; static const std::vector<Case> CS{ {' ', "", "0x1f7", 0, false}, {'-', "12", "3-", 9, true}, {'.', "-0b1", "01", 5, true}, {'-', "", "-9", 0, true} };
    mc::add(strf("texts of 2^32 characters and more N=%zu %s", N, sizeof(Ch) == 1 ? "char" : "wchar_t"), CS.size(), [=](Ctx& c, uint64_t i) {
        const auto& e = CS[i]; constexpr std::size_t UNIT = std::size_t(1) << 21; const std::size_t length = (std::size_t(1) << 32) + static_cast<std::size_t>(e.extra), bytes = (length * sizeof(Ch) + UNIT - 1) / UNIT * UNIT;
        const int fd = memfd_create("filler", 0); if (fd < 0 || ftruncate(fd, 3 * UNIT) != 0) std::abort();
        auto* f = static_cast<Ch*>(mmap(nullptr, 3 * UNIT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)); for (std::size_t j = 0; j < 3 * UNIT / sizeof(Ch); ++j) f[j] = static_cast<Ch>(e.fill);
        auto* m = static_cast<unsigned char*>(mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); if (m == MAP_FAILED) std::abort();
        for (std::size_t at = 0; at < bytes; at += UNIT) { const std::size_t which = at == 0 ? 0 : at + UNIT >= bytes ? 2 : 1; if (mmap(m + at, UNIT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, static_cast<off_t>(which * UNIT)) == MAP_FAILED) std::abort(); if (at % (UNIT << 7) == 0) c.step(); }
        Ch* s = reinterpret_cast<Ch*>(m); const std::string h = e.head, t = e.tail; for (std::size_t j = 0; j < h.size(); ++j) s[j] = static_cast<Ch>(h[j]); for (std::size_t j = 0; j < t.size(); ++j) s[length - t.size() + j] = static_cast<Ch>(t[j]);
        const std::size_t dashes = static_cast<std::size_t>(std::count(h.begin(), h.end(), '-') + std::count(t.begin(), t.end(), '-')) + (e.fill == '-' ? length - h.size() - t.size() : 0); const auto d = denote((h + t).data(), h.size() + t.size());
        if (e.sgn) { const Aesi<N> a(s, length); expectS(c, a, dashes % 2 ? mpz_class(-d.mag) : d.mag, "Aesi(pointer, length)"); } else { const Aeu<N> a(s, length); expectU(c, a, d.mag, "Aeu(pointer, length)"); }
        munmap(m, bytes); munmap(f, 3 * UNIT); close(fd); },
        [=](uint64_t i) { const auto& e = CS[i]; return strf("N=%zu \"%s\", about 2^32 times '%c', \"%s\"", N, e.head, e.fill, e.tail); });
}
// literals: arrays of every small length, with and without a terminator
template <std::size_t N, class Ch, std::size_t LEN> void literal(const std::string& letters) {
    uint64_t n = 1; for (std::size_t i = 0; i < LEN; ++i) n *= letters.size();
    auto make = [=](uint64_t i) { std::basic_string<Ch> s(LEN, Ch()); for (auto& ch : s) { ch = static_cast<Ch>(static_cast<unsigned char>(letters[i % letters.size()])); i /= letters.size(); } return s; };
    mc::add(strf("literal of %zu characters N=%zu %s", LEN, N, sizeof(Ch) == 1 ? "char" : "wchar_t"), n, [=](Ctx& c, uint64_t i) {
        const auto s = make(i); const auto d = denote(s.data(), s.size()); const mpz_class m = modN(d.mag, N), w = d.odd ? mpz_class(-m) : m;
        using Z = const Ch[LEN + 1]; using R = const Ch[LEN];
        auto& z = *reinterpret_cast<Z*>(guarded().atEnd(s.c_str(), LEN + 1));
        { const Aeu<N> a(z); expectU(c, a, m, "Aeu(literal)"); const Aesi<N> b(z); expectS(c, b, w, "Aesi(literal)"); const Aeu<N> a2 = z; expectU(c, a2, m, "Aeu = literal"); Aesi<N> b2 = 9; b2 = z; expectS(c, b2, w, "Aesi assigned a literal"); }
        if constexpr (LEN > 1) { auto& r = *reinterpret_cast<R*>(guarded().atEnd(s.data(), LEN)); const Aeu<N> a(r); expectU(c, a, m, "Aeu(array without terminator)"); const Aesi<N> b(r); expectS(c, b, w, "Aesi(array without terminator)"); } },
        [=](uint64_t i) { return strf("N=%zu %s", N, showText(make(i)).c_str()); });
}
template <std::size_t N> std::vector<mpz_class> family(int rich, std::size_t most) { std::vector<mpz_class> o; for (auto& p : thin(shapes<N>(rich), most)) o.push_back(toMpz<N>(p)); return o; }
static const std::string WIDE("01279afFgxXbBoO- _\0\xff", 21), MID("017faxbo- Z", 11), SLIM("01x-ab", 6);
#if PART == 0
static void reg() { strings<96, char>("strings over 21 letters", WIDE, mc::thorough() ? 6 : 5, !mc::thorough()); strings<96, char>("strings over 6 letters", SLIM, mc::thorough() ? 10 : 8, false); characters<96, char>(); }
#elif PART == 1
static void reg() { strings<128, wchar_t>("strings over 11 letters", MID, mc::thorough() ? 7 : 6, !mc::thorough()); strings<96, wchar_t>("strings over 21 letters", WIDE, mc::thorough() ? 5 : 4, true); characters<128, wchar_t>(); }
#elif PART == 2
static void reg() { strings<512, char>("strings over 11 letters", MID, mc::thorough() ? 7 : 6, false); characters<512, char>(); characters<96, wchar_t>(); characters<96, wchar_t>("C.utf8"); characters<128, char>("C.utf8"); }
#elif PART == 3
static void reg() { const bool t = mc::thorough();
    numerals<96, char>(family<96>(3, t ? 20000 : 2000), 16); numerals<96, char>(family<192>(3, t ? 10000 : 1000), 16); numerals<128, wchar_t>(family<128>(3, t ? 10000 : 1000), 16); numerals<128, char>(family<160>(2, t ? 10000 : 800), 16); numerals<512, char>(family<544>(2, t ? 4000 : 300), 16); numerals<512, wchar_t>(family<512>(1, t ? 2000 : 120), 16); numerals<1024, char>(family<1024>(1, t ? 1000 : 60), 12); if (t) numerals<8192, char>(family<8192>(0, 40), 5); }
#elif PART == 4
static void reg() { const std::string L = mc::thorough() ? MID : std::string("01fx-b ", 7);
    literal<96, char, 1>(WIDE); literal<96, char, 2>(WIDE); literal<96, char, 3>(WIDE); literal<128, char, 4>(L); literal<96, char, 5>(L); literal<96, wchar_t, 1>(WIDE); literal<96, wchar_t, 2>(WIDE); literal<256, wchar_t, 3>(WIDE); literal<96, wchar_t, 4>(L); }
#elif PART == 5
static void reg() { vastTexts<96, char>(); longTexts<96, char>(); longTexts<128, wchar_t>(); longTexts<512, char>(); }
#endif
MC_PART(reg);
