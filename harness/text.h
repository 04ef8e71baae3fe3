// random text of every character width, models as std::basic_string
#pragma once
#include "util.h"
#include <memory>
namespace H
{
	template<typename C> C anyChar(Rng& r)
	{
		switch (r.below(4))
		{
		case 0: return (C)('a' + r.below(3));
		case 1: return (C)('a' + r.below(26));
		case 2: if constexpr (sizeof(C) == 1) return (C)r.range(1, 255); else if constexpr (sizeof(C) == 2) return (C)r.range(1, 0xFFFF); else return (C)r.range(1, 0x10FFFF);
		default: return (C)r.pick<int>({ 1, 'A', 'Z', '0', ' ', 0x7E, 0x7F });
		}
	}
	template<typename C> std::basic_string<C> anyText(Rng& r, long max = 40) { long n = r.chance(1, 8) ? 0 : r.chance(1, 3) ? r.range(1, 4) : r.range(0, max); bool tiny = r.chance(1, 3); std::basic_string<C> s; for (long i = 0; i < n; i++) s += tiny ? (C)('a' + r.below(2)) : anyChar<C>(r); return s; }
	// zero-terminated text in a heap block of exactly its size, gone when this object is
	template<typename C> struct Exact
	{
		std::unique_ptr<C[]> p; long n;
		Exact(const std::basic_string<C>& s, bool terminated = true) : p(new C[s.size() + (terminated ? 1 : 0)]), n((long)s.size()) { for (size_t i = 0; i < s.size(); i++) p[i] = s[i]; if (terminated) p[s.size()] = 0; }
		const C* get() const { return p.get(); }
	};
	template<typename C> std::string shown(const std::basic_string<C>& s) { std::string r; for (size_t i = 0; i < s.size() && i < 60; i++) { unsigned long c = (unsigned long)(std::make_unsigned_t<std::conditional_t<std::is_integral_v<C> && sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>)s[i]; if (c >= 32 && c < 127) r += (char)c; else r += fmt("\\x%lx", c); } return r; }
	template<typename C> std::basic_string<C> read(const ObjectString<C>& s) { std::basic_string<C> r; for (vint i = 0; i < s.Length(); i++) r += s[i]; return r; }
	template<typename C> const char* charName() { return std::is_same_v<C, char> ? "AString" : std::is_same_v<C, wchar_t> ? "WString" : std::is_same_v<C, char8_t> ? "U8String" : std::is_same_v<C, char16_t> ? "U16String" : "U32String"; }
	template<typename C> void mustBe(const ObjectString<C>& s, const std::basic_string<C>& m, const char* key, const char* what)
	{
		if (s.Length() != (vint)m.size()) VIOLATION(key, "%s: %s has length %ld, expected %ld (\"%s\")", what, charName<C>(), (long)s.Length(), (long)m.size(), shown(m).c_str());
		for (vint i = 0; i < s.Length(); i++) if (s[i] != m[i]) VIOLATION(key, "%s: %s differs at %ld: \"%s\", expected \"%s\"", what, charName<C>(), (long)i, shown(read(s)).c_str(), shown(m).c_str());
	}
}
