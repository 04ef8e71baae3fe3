// Positions reported by the streaming readers on valid text.
#include "unicode.h"
using namespace H;
template<typename T> class Feed : public Object { protected: const std::vector<T>* src; size_t at = 0; T Consume() { if (at == src->size()) return T(0); return (*src)[at++]; } public: Feed(const std::vector<T>* s) : src(s) {} };
template<typename From, typename To> class OwnReader : public encoding::UtfToUtfReaderBase<From, To, Feed<From>> { using B = encoding::UtfToUtfReaderBase<From, To, Feed<From>>; public: OwnReader(const std::vector<From>* s) : B(s) {} };
template<typename From, typename To, typename R> void follow(R& r, const Scalars& s, const char* kind)
{
	using A = typename UnitOf<From>::Model; using B = typename UnitOf<To>::Model; long at = 0, returned = 0; size_t k = 0; std::string who = fmt("%s reader %s to %s", kind, unitName<From>(), unitName<To>());
	for (auto c : s)
	{
		Units<B> w; H::put(w, c); long n = unitsOf<A>(c);
		for (size_t i = 0; i < w.size(); i++)
		{
			B u = UnitOf<To>::model(r.Read()); auto cl = r.SourceCluster(); long at2 = (long)cl.index, n2 = (long)cl.size, ri = (long)r.ReadingIndex();
			MUST(u == w[i], "unit", "%s: unit %ld is wrong", who.c_str(), returned); MUST(ri == returned, "position", "%s: reading position is %ld after unit %ld", who.c_str(), ri, returned);
			MUST(at2 == at && n2 == n, "range", "%s: unit %ld (unit %zu of character %zu, U+%X) reports source range %ld+%ld, expected %ld+%ld", who.c_str(), returned, i, k, c, at2, n2, at, n); returned++; 
		}
		at += n; k++;
	}
	for (int i = 0; i < 3; i++)
	{
		B u = UnitOf<To>::model(r.Read()); MUST(u == 0, "end", "%s: returns %x after the end", who.c_str(), (unsigned)u); auto cl = r.SourceCluster();
		MUST((long)cl.index == at && cl.size == 0, "range-at-end", "%s: source range at the end is %ld+%ld, expected %ld+0", who.c_str(), (long)cl.index, (long)cl.size, at); MUST((long)r.ReadingIndex() == returned, "position-at-end", "%s: reading position at the end is %ld, expected %ld", who.c_str(), (long)r.ReadingIndex(), returned);
	}
	count("ends_reached"); count("units_followed", (u64)returned);
}
template<typename From, typename To> void all(Rng& rng, const Scalars& s)
{
	auto a = encode<typename UnitOf<From>::Model>(s);
	{ LibText<From> t(a, true); encoding::UtfStringToStringReader<From, To> r(t.p.get()); follow<From, To>(r, s, "string"); }
	{ LibText<From> t(a, false); if (rng.chance(1, 2)) { encoding::UtfStringRangeToStringRangeReader<From, To> r(t.p.get(), (vint)t.n); follow<From, To>(r, s, "range"); } else { encoding::UtfStringRangeToStringRangeReader<From, To> r(t.p.get(), t.p.get() + t.n); follow<From, To>(r, s, "range"); } }
	{ // a bounded source inside a longer text
		auto b = encode<typename UnitOf<From>::Model>({ 0x58, 0x1F600 }); auto big = b + a + b; LibText<From> t(big, true); encoding::UtfStringRangeToStringRangeReader<From, To> r(t.p.get() + b.size(), (vint)a.size()); follow<From, To>(r, s, "inner range"); }
	{ std::vector<From> f; for (auto c : a) f.push_back(UnitOf<From>::lib(c)); OwnReader<From, To> r(&f); follow<From, To>(r, s, "custom"); }
}
// one reader over a text that is longer than any 16 bit position
SCENARIO(very_long, 1)
{
	bool giant = rng.chance(1, 30); Scalars s = anyScalars(rng, 24); if (giant) { Scalars base = s; base.push_back(anyScalar(rng)); long n = rng.range(65530, 72000); s.clear(); s.reserve((size_t)n); for (long i = 0; i < n; i++) s.push_back(rng.chance(1, 50) ? anyScalar(rng) : base[(size_t)i % base.size()]); count("very_long_texts"); }
	op((u64)s.size()); for (size_t i = 0; i < s.size() && i < 30; i++) op(s[i]); if (s.size()) nontrivial(); int a = (int)rng.below(5), b = (int)rng.below(5); op((u64)a, (u64)b); withPair(a, b, [&]<typename A, typename B>() { auto x = encode<typename UnitOf<A>::Model>(s); if (rng.chance(1, 2)) { LibText<A> t(x, true); encoding::UtfStringToStringReader<A, B> r(t.p.get()); follow<A, B>(r, s, "string"); } else { LibText<A> t(x, false); encoding::UtfStringRangeToStringRangeReader<A, B> r(t.p.get(), (vint)t.n); follow<A, B>(r, s, "range"); } });
}
SCENARIO(follow_all, 3) { auto s = anyScalars(rng, 24); if (s.size()) nontrivial(); for (auto c : s) op(c); LOG("%s", hex(encode<char32_t>(s)).c_str()); for (int a = 0; a < 5; a++) for (int b = 0; b < 5; b++) withPair(a, b, [&]<typename A, typename B>() { all<A, B>(rng, s); }); }
const char* const harnessProperty = "C24";
const long harnessCpuBudget = 60;
#include "main.h"
