// Malformed Unicode, against an independent strict decoder; every buffer has exactly the size of its content.
#include "unicode.h"
using namespace H;
template<typename L> void single(const Units<typename UnitOf<L>::Model>& s)
{
	using U = UnitOf<L>; using Mo = typename U::Model;
	for (size_t n = 0; n <= s.size(); n++)
	{
		auto t = s.substr(0, n); LibText<L> e(t, false); char32_t d = 0x41; vint m = encoding::UtfConversion<L>::To32(e.p.get(), e.n, d); uint32_t c = 0; long used = 0; Dec w = decodeOne<Mo>(t.data(), (long)n, c, used);
		if (w == Dec::bad) { MUST(m == -1, "accepted", "%s [%s] is malformed but decodes to U+%X using %ld units", unitName<L>(), hex(t).c_str(), (unsigned)d, (long)m); count("malformed_rejected"); }
		else if (w == Dec::ok) { MUST(m == used && d == (char32_t)c, "decode", "%s [%s] decodes to U+%X using %ld units, expected U+%X using %ld", unitName<L>(), hex(t).c_str(), (unsigned)d, (long)m, c, used); count("valid_decoded"); }
		else { MUST(m == -1 || (m >= 1 && m <= (vint)n), "used", "%s [%s] reports %ld used units", unitName<L>(), hex(t).c_str(), (long)m); count("beyond_unicode"); }
	}
}
template<typename C> Units<C> mutate(Rng& r, Units<C> s)
{
	long k = r.range(1, 3);
	auto unit = [&]() -> C { if constexpr (sizeof(C) == 1) return (C)(r.chance(1, 2) ? r.range(1, 255) : r.pick<int>({ 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x90, 0x8F, 0xA0, 0x9F })); else if constexpr (sizeof(C) == 2) return (C)(r.chance(1, 3) ? r.range(1, 0xFFFF) : r.pick<int>({ 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x41 })); else return (C)(r.chance(1, 3) ? r.range(1, 0x10FFFF) : r.pick<long>({ 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0x1FFFFF, 0x7FFFFFFF, 0x41 })); };
	while (k--)
	{
		long n = (long)s.size();
		switch (r.below(6))
		{
		case 0: if (n) s[r.below(n)] = unit(); break;
		case 1: s.insert(s.begin() + r.range(0, n), unit()); break;
		case 2: if (n) s.erase(r.below(n), 1); break;
		case 3: s = s.substr(0, r.range(0, n)); break;
		case 4: if (n) { long i = r.below(n); s.insert(i, s.substr(i, r.range(1, 3))); } break;
		default: for (long i = r.range(1, 4); i--;) s += unit();
		}
	}
	return s;
}
template<typename B> bool prefixOf(const Units<B>& p, const Units<B>& s) { return p.size() <= s.size() && s.compare(0, p.size(), p) == 0; }
// the only text a conversion may yield: the valid text before the first malformed character
template<typename A, typename B> void judge(const Units<A>& a, const Units<B>& got, const char* what)
{
	Dec end; auto pre = decodePrefix<A>(a, end); auto want = encode<B>(pre); constexpr bool passThrough = sizeof(A) == 4 && sizeof(B) == 4; if (passThrough) return;
	if (end == Dec::outside) { MUST(prefixOf<B>(want, got), "valid-part", "%s: [%s] gives [%s], which does not start with [%s]", what, hex(a).c_str(), hex(got).c_str(), hex(want).c_str()); count("beyond_unicode"); if (sizeof(B) == 2) { Dec e2; decodePrefix<B>(got, e2); MUST(e2 == Dec::ok, "output", "%s: [%s] gives malformed output [%s]", what, hex(a).c_str(), hex(got).c_str()); } }
	else { MUST(got == want, end == Dec::bad ? "stop" : "convert", "%s: [%s] gives [%s], expected [%s]", what, hex(a).c_str(), hex(got).c_str(), hex(want).c_str()); if (end == Dec::bad) { nontrivial(); count(pre.size() ? "stopped_in_the_middle" : "stopped_at_once"); } }
}
template<typename A> Units<A> hostile(Rng& rng) { Units<A> a = encode<A>(anyScalars(rng, 12)); if (rng.chance(9, 10)) a = mutate<A>(rng, a); Units<A> r; for (auto c : a) if (c) r += c; return r; }
SCENARIO(strings, 3)
{
	withStrings((int)rng.below(4), 0, [&]<typename A, typename>()
	{
		auto a = hostile<A>(rng); for (auto c : a) op((u64)c); LOG("%s [%s]", unitName<A>(), hex(a).c_str()); ObjectString<A> src = ObjectString<A>::CopyFrom(a.data(), a.size());
		for (int b = 0; b < 4; b++) withString2<A>(b, [&]<typename, typename B>() { if constexpr (!std::is_same_v<A, B>) { auto got = convert<A, B>(src); judge<A, B>(a, read(got), "string conversion"); MUST(got.Buffer()[got.Length()] == 0, "terminator", "converted text is not terminated"); } });
		mustBe(src, a, "source", "the source after converting");
	});
}
SCENARIO(readers, 3)
{
	int fa = (int)rng.below(5);
	withPair(fa, 0, [&]<typename From, typename>()
	{
		using A = typename UnitOf<From>::Model; auto a = hostile<A>(rng); for (auto c : a) op((u64)c); LOG("%s [%s]", unitName<From>(), hex(a).c_str());
		for (int b = 0; b < 5; b++) withTo<From>(b, [&]<typename, typename To>()
		{
			using B = typename UnitOf<To>::Model; Units<B> g; auto drain = [&](auto&& r) { for (;;) { auto m = UnitOf<To>::model(r.Read()); if (!m) break; g += m; MUST(g.size() <= a.size() * 6 + 6, "endless", "reader returns more than the text can hold"); } for (int i = 0; i < 3; i++) MUST(sizeof(A) == 4 && sizeof(B) == 4 ? true : !UnitOf<To>::model(r.Read()), "after-end", "reader goes on after it ended"); };
			if (rng.chance(1, 2)) { LibText<From> t(a, true); drain(encoding::UtfStringToStringReader<From, To>(t.p.get())); } else { LibText<From> t(a, false); drain(encoding::UtfStringRangeToStringRangeReader<From, To>(t.p.get(), (vint)t.n)); }
			judge<A, B>(a, g, "reader");
		});
	});
}
SCENARIO(characters, 2)
{
	auto s8 = mutate<char8_t>(rng, encode<char8_t>(anyScalars(rng, 2))); s8 = s8.substr(0, 7); auto s16 = mutate<char16_t>(rng, encode<char16_t>(anyScalars(rng, 1))).substr(0, 3); for (auto c : s8) op((u64)c); nontrivial(); single<char8_t>(s8); single<char16_t>(s16); single<char16be_t>(s16);
	uint32_t c = (uint32_t)rng.pick<long>({ 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xDABC, 0x110000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x200000, 0x3FFFFFF, 0x4000000 }); char8_t b8[6]; char16_t b16[2]; char16be_t bb[2]; vint n8 = encoding::UtfConversion<char8_t>::From32((char32_t)c, b8), n16 = encoding::UtfConversion<char16_t>::From32((char32_t)c, b16), nb = encoding::UtfConversion<char16be_t>::From32((char32_t)c, bb);
	if (c >= 0xD800 && c <= 0xDFFF) MUST(n8 == -1, "encode", "the surrogate U+%X is encoded as UTF-8", c); MUST(n16 == -1 && nb == -1, "encode", "U+%X is encoded as UTF-16", c);
}
static std::vector<int> edge = { 0x01, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xF8, 0xFF };
SCENARIO(sweep8, 1)
{
	// every pair of first two bytes, followed by every pair of boundary bytes
	long a = sweepBlock(256); op((u64)a); nontrivial(); for (int b = 0; b < 256; b++) { Units<char8_t> s; s += (char8_t)a; s += (char8_t)b; bool deep = a >= 0xE0; if (!deep) { s += (char8_t)rng.of(edge); single<char8_t>(s); continue; } for (int k = 0; k < (a >= 0xF0 ? 24 : 17); k++) { auto t = s; if (a >= 0xF0) { t += (char8_t)rng.pick<int>({ 0x80, 0xBF, 0x8F, 0x90, 0x9F, 0xA0, 0x7F, 0xC0 }); for (int j = 0; j < 3; j++) t += (char8_t)(rng.chance(3, 4) ? rng.pick<int>({ 0x80, 0xBF }) : rng.of(edge)); } else { t += (char8_t)edge[k]; t += (char8_t)rng.of(edge); } single<char8_t>(t); } }
	count("blocks_swept");
}
SCENARIO(sweep16, 1)
{
	// every first unit (in blocks of 256), followed by boundary units
	long block = sweepBlock(256); op((u64)block); nontrivial(); for (long a = block * 256; a < block * 256 + 256; a++) for (int b : { 0x0000, 0x0041, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDDDD, 0xDFFF, 0xE000, 0xFFFF }) { Units<char16_t> s; s += (char16_t)a; s += (char16_t)b; single<char16_t>(s); single<char16be_t>(s); } count("blocks_swept");
}
const char* const harnessProperty = "C23";
const long harnessCpuBudget = 100;
#include "main.h"
