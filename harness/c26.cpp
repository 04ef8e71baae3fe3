// Case mapping and narrow/wide conversion in every available locale, against the C library one character at a time.
#include "unicode.h"
#include <clocale>
#include <cwctype>
#include <cctype>
#include <cwchar>
using namespace H;
struct InLocale { bool utf = false; InLocale(Rng& r) { if (r.chance(1, 2)) { utf = setlocale(LC_ALL, "C.UTF-8") || setlocale(LC_ALL, "C.utf8"); if (utf) count("utf8_locale_cases"); } if (!utf) setlocale(LC_ALL, "C"); } ~InLocale() { setlocale(LC_ALL, "C"); } };
template<typename C, typename F, typename G> void mapCase(Rng& rng, const std::basic_string<C>& t, const char* name, F f, G g)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; M pre = anyText<C>(rng, 4), post = anyText<C>(rng, 4); S big = S((pre + t + post).c_str()); S src = rng.chance(1, 2) ? S::CopyFrom(t.data(), t.size()) : big.Sub(pre.size(), t.size()); S copy = src; M want; for (auto c : t) want += g(c);
	S got = f(src); mustBe(got, want, "case", name); mustBe(src, t, "source", "the source of a case change"); mustBe(copy, t, "source", "a copy of the source of a case change"); mustBe(big, pre + t + post, "source", "a string sharing the buffer of the source"); M twice; for (auto c : want) twice += g(c); S again = f(got); mustBe(again, twice, "case-twice", name); mustBe(got, want, "source", "the result after mapping it again"); if (twice == want) MUST(again == got, "idempotent", "%s twice changes more", name); if (want != t) { nontrivial(); count("texts_changed"); } count("characters_mapped", t.size());
}
static std::wstring wideText(Rng& r) { std::wstring w; long n = r.range(0, r.chance(1, 30) ? 1500 : 30); for (long i = 0; i < n; i++) switch (r.below(4)) { case 0: w += (wchar_t)(r.chance(1, 2) ? 'A' + r.below(26) : 'a' + r.below(26)); break; case 1: w += (wchar_t)r.range(0xA0, 0x600); break; case 2: w += (wchar_t)anyScalar(r); break; default: w += (wchar_t)r.range(1, 0x17F); } return w; }
static void wideBoth(Rng& rng, const std::wstring& w) { mapCase<wchar_t>(rng, w, "wlower", wlower, [](wchar_t c) { return (wchar_t)towlower((wint_t)c); }); mapCase<wchar_t>(rng, w, "wupper", wupper, [](wchar_t c) { return (wchar_t)towupper((wint_t)c); }); }
static void narrowBoth(Rng& rng, const std::string& a) { mapCase<char>(rng, a, "alower", alower, [](char c) { return (char)tolower((unsigned char)c); }); mapCase<char>(rng, a, "aupper", aupper, [](char c) { return (char)toupper((unsigned char)c); }); }
SCENARIO(case_wide, 3) { InLocale l(rng); auto w = wideText(rng); for (auto c : w) op((u64)c); LOG("%s", shown(w).c_str()); wideBoth(rng, w); }
SCENARIO(case_narrow, 3) { InLocale l(rng); auto a = anyText<char>(rng, rng.chance(1, 30) ? 1500 : 60); for (auto c : a) op((u64)c); LOG("%s", shown(a).c_str()); narrowBoth(rng, a); }
SCENARIO(case_sweep, 1)
{
	InLocale l(rng); long block = sweepBlock(272); op((u64)block, l.utf); std::wstring w; for (long c = block * 4096; c < block * 4096 + 4096; c++) if (c && isScalar((uint32_t)c)) w += (wchar_t)c; if (w.size()) wideBoth(rng, w); std::string a; for (int c = 1; c < 256; c++) a += (char)c; narrowBoth(rng, a); nontrivial(); count("blocks_swept");
}
SCENARIO(narrow_wide, 3)
{
	InLocale l(rng); std::wstring w; if (l.utf) for (auto c : anyScalars(rng)) w += (wchar_t)c; else { long n = rng.range(0, rng.chance(1, 20) ? 2000 : 40); for (long i = 0; i < n; i++) w += (wchar_t)(rng.chance(1, 30) ? rng.range(128, 255) : rng.range(1, 127)); } for (auto c : w) op((u64)c); if (w.size()) nontrivial(); LOG("%s", shown(w).c_str());
	size_t need = wcstombs(nullptr, w.c_str(), 0); if (need == (size_t)-1) { count("not_representable"); vl::wtoa(WString::CopyFrom(w.data(), w.size())); return; }
	std::string a(need, '\0'); wcstombs(a.data(), w.c_str(), need + 1); a.resize(need); if (l.utf) { auto u8 = encode<char8_t>(Scalars(w.begin(), w.end())); MUST(a == std::string(u8.begin(), u8.end()), "harness", "the C library does not encode as UTF-8"); }
	auto W = WString::CopyFrom(w.data(), w.size()); WString part = (WString(L"<") + W + WString(L">>")).Sub(1, w.size()); AString A = vl::wtoa(rng.chance(1, 2) ? W : part); mustBe(A, a, "narrow", "wtoa"); WString back = vl::atow(A); mustBe(back, w, "round-trip", "atow(wtoa)"); AString part2 = (AString("<") + A + AString(">")).Sub(1, a.size()); mustBe(vl::atow(part2), w, "wide", "atow of a cut"); MUST(A.Buffer()[a.size()] == 0 && back.Buffer()[w.size()] == 0, "terminator", "converted text is not terminated");
	Scalars s(w.begin(), w.end()); mustBe(atou8(A), encode<char8_t>(s), "unicode", "atou8"); mustBe(atou16(A), encode<char16_t>(s), "unicode", "atou16"); mustBe(atou32(A), encode<char32_t>(s), "unicode", "atou32"); mustBe(u8toa(atou8(A)), a, "unicode", "u8toa"); mustBe(u16toa(atou16(A)), a, "unicode", "u16toa"); mustBe(u32toa(atou32(A)), a, "unicode", "u32toa"); count("round_trips");
	// raw form into buffers of the announced size
	vint n = _wtoa(W.Buffer(), nullptr, 0); MUST(n == (vint)a.size() + 1, "length", "_wtoa announces %ld, expected %zu", (long)n, a.size() + 1); vint m = _atow(A.Buffer(), nullptr, 0); MUST(m == (vint)w.size() + 1, "length", "_atow announces %ld, expected %zu", (long)m, w.size() + 1);
}
const char* const harnessProperty = "C26";
const long harnessCpuBudget = 60;
#include "main.h"
