// Conversions between Unicode forms on valid text, against an independent encoder.
#include "unicode.h"
using namespace H;
template<typename L> void oneChar(uint32_t c, uint32_t next)
{
	using U = UnitOf<L>; using Mo = typename U::Model; using Conv = encoding::UtfConversion<L>; Units<Mo> w; H::put(w, c); L buf[Conv::BufferLength] = {};
	vint n = Conv::From32((char32_t)c, buf); MUST(n == (vint)w.size(), "encode", "%s of U+%X takes %ld units, expected %zu", unitName<L>(), c, (long)n, w.size());
	for (vint i = 0; i < n; i++) MUST(U::model(buf[i]) == w[i], "encode", "%s of U+%X has a wrong unit %ld", unitName<L>(), c, (long)i);
	LibText<L> exact(w, false); char32_t d = 0; vint m = Conv::To32(exact.p.get(), exact.n, d); MUST(m == n && d == (char32_t)c, "decode", "%s of U+%X decodes to U+%X using %ld units", unitName<L>(), c, (unsigned)d, (long)m);
	H::put(w, next); LibText<L> more(w, false); d = 0; m = Conv::To32(more.p.get(), more.n, d); MUST(m == n && d == (char32_t)c, "decode", "%s of U+%X followed by U+%X decodes to U+%X using %ld units", unitName<L>(), c, next, (unsigned)d, (long)m);
	count("single_characters");
}
template<typename A, typename B> void whole(Rng& rng, const Scalars& s)
{
	auto a = encode<A>(s); auto b = encode<B>(s); ObjectString<A> src;
	switch (rng.below(3)) { case 0: src = ObjectString<A>::CopyFrom(a.data(), a.size()); break; case 1: { auto big = encode<A>({ 0x41, 0x20AC }) + a + encode<A>({ 0x1F600, 0x42 }); src = ObjectString<A>(big.c_str()).Sub(encode<A>({ 0x41, 0x20AC }).size(), a.size()); break; } default: src = ObjectString<A>(a.c_str()); }
	auto got = convert<A, B>(src); auto g = read(got);
	if (g != b) VIOLATION("convert", "%s to %s of [%s] gives [%s], expected [%s]", unitName<A>(), unitName<B>(), hex(a).c_str(), hex(g).c_str(), hex(b).c_str());
	const B* z = got.Buffer(); MUST(z[b.size()] == 0, "terminator", "the converted text is not terminated"); mustBe(src, a, "source", "the source after converting"); auto back = read(convert<B, A>(got)); MUST(back == a, "round-trip", "%s to %s and back changed the text", unitName<A>(), unitName<B>()); count("string_conversions", 2);
}
template<typename From, typename To> void reader(Rng& rng, const Scalars& s)
{
	using UF = UnitOf<From>; using UT = UnitOf<To>; auto a = encode<typename UF::Model>(s); auto b = encode<typename UT::Model>(s); Units<typename UT::Model> g;
	auto drain = [&](auto&& r) { for (;;) { To c = r.Read(); auto m = UT::model(c); if (!m) break; g += m; MUST(g.size() <= b.size(), "reader", "reader %s to %s returns more units than the text has", unitName<From>(), unitName<To>()); } };
	if (rng.chance(1, 2)) { LibText<From> t(a, true); encoding::UtfStringToStringReader<From, To> r(t.p.get()); drain(r); }
	else { LibText<From> t(a, false); if (rng.chance(1, 2)) drain(encoding::UtfStringRangeToStringRangeReader<From, To>(t.p.get(), (vint)t.n)); else drain(encoding::UtfStringRangeToStringRangeReader<From, To>(t.p.get(), t.p.get() + t.n)); }
	MUST(g == b, "reader", "reader %s to %s of [%s] gives [%s], expected [%s]", unitName<From>(), unitName<To>(), hex(a).c_str(), hex(g).c_str(), hex(b).c_str()); count("reader_conversions");
}
template<typename A, typename B> void walk(Rng& rng, const Scalars& s)
{
	if constexpr (!std::is_same_v<A, B>)
	{
		auto a = encode<A>(s); auto b = encode<B>(s); Exact<A> src(a); vint n = _utftoutf<A, B>(src.get(), nullptr, 0); MUST(n == (vint)b.size() + 1, "length", "the announced length of %s as %s is %ld, expected %zu", unitName<A>(), unitName<B>(), (long)n, b.size() + 1);
		std::unique_ptr<B[]> d(new B[n]); vint m = _utftoutf<A, B>(src.get(), d.get(), n); MUST(m == n, "length", "%ld units were written, %ld announced", (long)m, (long)n); for (vint i = 0; i < n; i++) MUST(d[i] == (i < (vint)b.size() ? b[i] : (B)0), "convert", "buffer conversion %s to %s is wrong at %ld", unitName<A>(), unitName<B>(), (long)i);
		vint shortN = rng.range(0, (long)n); std::unique_ptr<B[]> e(new B[shortN]); m = _utftoutf<A, B>(src.get(), e.get(), shortN); MUST(m == shortN, "length", "%ld units were written into a buffer of %ld", (long)m, (long)shortN); for (vint i = 0; i < shortN; i++) MUST(e[i] == (i < (vint)b.size() ? b[i] : (B)0), "convert", "short buffer conversion is wrong at %ld", (long)i); count("buffer_conversions", 2);
	}
}
SCENARIO(sweep, 1)
{
	// blocks of 1024 code points; the blocks of one run together cover all of them
	long block = sweepBlock(1088); nontrivial(); op((u64)block); Scalars all;
	for (uint32_t c = (uint32_t)block * 1024; c < (uint32_t)block * 1024 + 1024; c++) if (c && isScalar(c)) { uint32_t next = anyScalar(rng); oneChar<char8_t>(c, next); oneChar<char16_t>(c, next); oneChar<char16be_t>(c, next); oneChar<wchar_t>(c, next); all.push_back(c); }
	if (all.empty()) return; count("blocks_swept"); count("code_points_swept", all.size()); whole<char8_t, char16_t>(rng, all); whole<char16_t, char8_t>(rng, all); whole<wchar_t, char8_t>(rng, all); whole<char16_t, wchar_t>(rng, all); whole<char32_t, char8_t>(rng, all); whole<char32_t, char16_t>(rng, all); reader<char16be_t, char8_t>(rng, all); reader<char8_t, char16be_t>(rng, all);
}
SCENARIO(strings, 2)
{
	auto s = anyScalars(rng); if (s.size()) nontrivial(); for (auto c : s) op(c); LOG("%s", hex(encode<char32_t>(s)).c_str());
	for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b) withStrings(a, b, [&]<typename A, typename B>() { whole<A, B>(rng, s); });
	// along a random route through several forms
	auto cur = encode<char8_t>(s); U8String u8 = U8String::CopyFrom(cur.data(), cur.size()); for (int i = 0; i < 4; i++) switch (rng.below(5)) { case 0: u8 = u16tou8(u8tou16(u8)); break; case 1: u8 = wtou8(u8tow(u8)); break; case 2: u8 = u32tou8(u8tou32(u8)); break; case 3: u8 = u16tou8(wtou16(u32tow(u8tou32(u8)))); break; default: u8 = u32tou8(wtou32(u16tow(u32tou16(u8tou32(u8))))); } mustBe(u8, cur, "route", "after a route through several forms");
}
SCENARIO(readers, 1) { auto s = anyScalars(rng); if (s.size()) nontrivial(); for (auto c : s) op(c); for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) withPair(a, b, [&]<typename A, typename B>() { reader<A, B>(rng, s); }); }
SCENARIO(buffers, 1)
{
	auto s = anyScalars(rng); if (s.size()) nontrivial(); for (auto c : s) op(c); walk<wchar_t, char8_t>(rng, s); walk<wchar_t, char16_t>(rng, s); walk<wchar_t, char32_t>(rng, s); walk<char8_t, wchar_t>(rng, s); walk<char8_t, char16_t>(rng, s); walk<char8_t, char32_t>(rng, s); walk<char16_t, wchar_t>(rng, s); walk<char16_t, char8_t>(rng, s); walk<char16_t, char32_t>(rng, s); walk<char32_t, wchar_t>(rng, s); walk<char32_t, char8_t>(rng, s); walk<char32_t, char16_t>(rng, s);
}
const char* const harnessProperty = "C22";
const long harnessCpuBudget = 100;
#include "main.h"
