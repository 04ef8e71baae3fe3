// An encoder and a strict decoder written independently of the library (plain arithmetic on the standard's tables).
#pragma once
#include "text.h"
#include "Strings/Conversion.h"
namespace H
{
	using Scalars = std::vector<uint32_t>;
	template<typename C> using Units = std::basic_string<C>;
	inline bool isScalar(uint32_t c) { return c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF); }
	inline uint32_t anyScalar(Rng& r)
	{
		for (;;)
		{
			uint32_t c;
			switch (r.below(8))
			{
			case 0: c = (uint32_t)r.range(1, 0x7F); break;
			case 1: c = (uint32_t)r.range(0x80, 0x7FF); break;
			case 2: c = (uint32_t)r.range(0x800, 0xFFFF); break;
			case 3: c = (uint32_t)r.range(0x10000, 0x10FFFF); break;
			case 4: c = (uint32_t)r.pick<int>({ 1, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0xFFFFF, 0x100000, 0xFEFF, 0xFF, 0x100, 0x103FF, 0x10400, 0x1F0A1 }); break;
			case 5: c = (uint32_t)r.range(0xD700, 0xE0FF); break;
			case 6: c = (uint32_t)((r.range(1, 0x10FF) << 8) | r.pick<int>({ 0, 0xFF, 0xD8, 0xDC })); break;
			default: c = (uint32_t)r.range(1, 0x10FFFF); break;
			}
			if (c && isScalar(c)) return c;
		}
	}
	inline Scalars anyScalars(Rng& r, long max = 30) { long n = r.chance(1, 10) ? 0 : r.chance(1, 3) ? r.range(1, 3) : r.range(1, max); if (max >= 10 && r.chance(1, 40)) { n = r.range(max, r.pick({ 150L, 600L, 2000L, r.chance(1, 4) ? 40000L : 2000L })); count("long_texts"); }
		Scalars s; auto of = [&](int k) { return k == 1 ? (uint32_t)r.range(1, 0x7F) : k == 2 ? (uint32_t)r.range(0x80, 0x7FF) : k == 3 ? (uint32_t)r.range(0x800, 0xD7FF) : k == 4 ? (uint32_t)r.range(0x10000, 0x10FFFF) : anyScalar(r); };
		if (n > 5 && r.chance(1, 4)) { count("texts_of_runs"); while ((long)s.size() < n) { int k = r.chance(1, 2) ? 1 : (int)r.range(0, 4); long m = r.chance(1, 3) ? 1 : r.pick({ 2L, 4L, 7L, 8L, 9L, 15L, 16L, 17L, 31L, 32L, 33L, 64L }); for (long i = 0; i < m && (long)s.size() < n; i++) s.push_back(of(k)); } return s; }
		int only = r.chance(1, 5) ? (int)r.range(1, 4) : 0; // sometimes all characters need the same number of UTF-8 units
		for (long i = 0; i < n; i++) s.push_back(of(only)); return s; }

	struct BE { uint16_t v; }; // big endian, as the two bytes lie in memory
	template<typename C> void put(Units<C>& o, uint32_t c)
	{
		if constexpr (sizeof(C) == 1)
		{
			if (c < 0x80) o += (C)c;
			else if (c < 0x800) { o += (C)(0xC0 + c / 64); o += (C)(0x80 + c % 64); }
			else if (c < 0x10000) { o += (C)(0xE0 + c / 4096); o += (C)(0x80 + c / 64 % 64); o += (C)(0x80 + c % 64); }
			else { o += (C)(0xF0 + c / 262144); o += (C)(0x80 + c / 4096 % 64); o += (C)(0x80 + c / 64 % 64); o += (C)(0x80 + c % 64); }
		}
		else if constexpr (sizeof(C) == 2) { if (c < 0x10000) o += (C)c; else { o += (C)(0xD800 + (c - 0x10000) / 1024); o += (C)(0xDC00 + (c - 0x10000) % 1024); } }
		else o += (C)c;
	}
	template<typename C> Units<C> encode(const Scalars& s) { Units<C> o; for (auto c : s) put(o, c); return o; }
	template<typename C> long unitsOf(uint32_t c) { Units<C> o; put(o, c); return (long)o.size(); }
	inline vl::char16be_t toBE(char16_t c) { unsigned char b[2] = { (unsigned char)(c >> 8), (unsigned char)c }; vl::char16be_t r; memcpy(&r.value, b, 2); return r; }
	inline char16_t fromBE(vl::char16be_t c) { unsigned char b[2]; memcpy(b, &c.value, 2); return (char16_t)(b[0] << 8 | b[1]); }

	enum class Dec { ok, bad, outside }; // outside: beyond 10FFFF in a form the library accepts by design
	// decode one character at s[0..n), strictly
	template<typename C> Dec decodeOne(const C* s, long n, uint32_t& c, long& used)
	{
		if (n <= 0) return Dec::bad;
		if constexpr (sizeof(C) == 1)
		{
			unsigned b = (unsigned char)s[0]; if (b < 0x80) { c = b; used = 1; return Dec::ok; } if (b < 0xC0 || b >= 0xFE) return Dec::bad;
			long len = b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : b < 0xFC ? 5 : 6; if (n < len) return Dec::bad; static const unsigned first[] = { 0, 0, 32, 16, 8, 4, 2 }; static const uint64_t least[] = { 0, 0, 0x80, 0x800, 0x10000, 0x200000, 0x4000000 };
			uint64_t v = b % first[len]; for (long i = 1; i < len; i++) { unsigned x = (unsigned char)s[i]; if (x < 0x80 || x > 0xBF) return Dec::bad; v = v * 64 + (x - 0x80); }
			if (v < least[len] || (v >= 0xD800 && v <= 0xDFFF)) return Dec::bad; if (v > 0x10FFFF) return Dec::outside; c = (uint32_t)v; used = len; return Dec::ok;
		}
		else if constexpr (sizeof(C) == 2)
		{
			unsigned a = (unsigned)(uint16_t)s[0]; if (a >= 0xDC00 && a <= 0xDFFF) return Dec::bad; if (a < 0xD800 || a > 0xDFFF) { c = a; used = 1; return Dec::ok; } if (n < 2) return Dec::bad; unsigned b = (unsigned)(uint16_t)s[1]; if (b < 0xDC00 || b > 0xDFFF) return Dec::bad; c = 0x10000 + (a - 0xD800) * 1024 + (b - 0xDC00); used = 2; return Dec::ok;
		}
		else { uint32_t v = (uint32_t)s[0]; used = 1; if (v >= 0xD800 && v <= 0xDFFF) return Dec::bad; if (v > 0x10FFFF) return Dec::outside; c = v; return Dec::ok; }
	}
	// the characters before the first malformed one; end tells why decoding stopped
	template<typename C> Scalars decodePrefix(const Units<C>& s, Dec& end) { Scalars r; long i = 0, n = (long)s.size(); while (i < n) { uint32_t c = 0; long used = 0; Dec d = decodeOne<C>(s.data() + i, n - i, c, used); if (d != Dec::ok) { end = d; return r; } r.push_back(c); i += used; } end = Dec::ok; return r; }

	template<typename C> std::string hex(const Units<C>& s) { std::string r; for (size_t i = 0; i < s.size() && i < 40; i++) r += fmt(sizeof(C) == 1 ? "%02lx " : "%04lx ", (unsigned long)s[i] & (sizeof(C) == 1 ? 0xFFul : sizeof(C) == 2 ? 0xFFFFul : 0xFFFFFFFFul)); return r; }

	// the library's unit type for a model unit type: char16be_t is modelled by BE16 (values kept in logical order)
	struct AsIs { template<typename C> static C to(C c) { return c; } };
	template<typename L> struct UnitOf { using Model = L; static L lib(L c) { return c; } static L model(L c) { return c; } };
	template<> struct UnitOf<vl::char16be_t> { using Model = char16_t; static vl::char16be_t lib(char16_t c) { return toBE(c); } static char16_t model(vl::char16be_t c) { return fromBE(c); } };
	// library units in a heap block of exactly that size
	template<typename L> struct LibText
	{
		std::unique_ptr<L[]> p; long n;
		LibText(const Units<typename UnitOf<L>::Model>& s, bool terminated) : p(new L[s.size() + (terminated ? 1 : 0)]), n((long)s.size()) { for (size_t i = 0; i < s.size(); i++) p[i] = UnitOf<L>::lib(s[i]); if (terminated) p[s.size()] = L(0); }
	};
	template<typename L> const char* unitName() { return std::is_same_v<L, char8_t> ? "UTF-8" : std::is_same_v<L, char16_t> ? "UTF-16" : std::is_same_v<L, vl::char16be_t> ? "UTF-16BE" : std::is_same_v<L, char32_t> ? "UTF-32" : "wide"; }
	// call f.template operator()<From, To>() for the k-th of the 25 pairs
	template<typename From, typename F> void withTo(int k, F&& f) { switch (k) { case 0: f.template operator()<From, char8_t>(); break; case 1: f.template operator()<From, char16_t>(); break; case 2: f.template operator()<From, vl::char16be_t>(); break; case 3: f.template operator()<From, char32_t>(); break; default: f.template operator()<From, wchar_t>(); } }
	template<typename F> void withPair(int a, int b, F&& f) { switch (a) { case 0: withTo<char8_t>(b, f); break; case 1: withTo<char16_t>(b, f); break; case 2: withTo<vl::char16be_t>(b, f); break; case 3: withTo<char32_t>(b, f); break; default: withTo<wchar_t>(b, f); } }
	// whole-string conversions by name, for the 12 ordered pairs of distinct string types
	template<typename A, typename B> ObjectString<B> convert(const ObjectString<A>& s)
	{
		using c8 = char8_t; using c16 = char16_t; using c32 = char32_t; using w = wchar_t;
		if constexpr (std::is_same_v<A, w> && std::is_same_v<B, c32>) return wtou32(s); else if constexpr (std::is_same_v<A, c32> && std::is_same_v<B, w>) return u32tow(s);
		else if constexpr (std::is_same_v<A, c8> && std::is_same_v<B, c32>) return u8tou32(s); else if constexpr (std::is_same_v<A, c32> && std::is_same_v<B, c8>) return u32tou8(s);
		else if constexpr (std::is_same_v<A, c16> && std::is_same_v<B, c32>) return u16tou32(s); else if constexpr (std::is_same_v<A, c32> && std::is_same_v<B, c16>) return u32tou16(s);
		else if constexpr (std::is_same_v<A, w> && std::is_same_v<B, c8>) return wtou8(s); else if constexpr (std::is_same_v<A, c8> && std::is_same_v<B, w>) return u8tow(s);
		else if constexpr (std::is_same_v<A, w> && std::is_same_v<B, c16>) return wtou16(s); else if constexpr (std::is_same_v<A, c16> && std::is_same_v<B, w>) return u16tow(s);
		else if constexpr (std::is_same_v<A, c8> && std::is_same_v<B, c16>) return u8tou16(s); else if constexpr (std::is_same_v<A, c16> && std::is_same_v<B, c8>) return u16tou8(s);
		else return s;
	}
	template<typename A, typename F> void withString2(int k, F&& f) { switch (k) { case 0: f.template operator()<A, char8_t>(); break; case 1: f.template operator()<A, char16_t>(); break; case 2: f.template operator()<A, char32_t>(); break; default: f.template operator()<A, wchar_t>(); } }
	template<typename F> void withStrings(int a, int b, F&& f) { switch (a) { case 0: withString2<char8_t>(b, f); break; case 1: withString2<char16_t>(b, f); break; case 2: withString2<char32_t>(b, f); break; default: withString2<wchar_t>(b, f); } }
	// block number of an exhaustive sweep: consecutive over the cases of a scenario of weight 1
	inline long sweepBlock(long blocks) { long total = 0; for (auto& s : scenarios()) total += s.weight; return (long)(st().caseIndex / (u64)total) % blocks; }
}
