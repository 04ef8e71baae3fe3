// element types for the optional and variant monitors
#pragma once
#include "util.h"
#include <memory>
namespace H
{
	struct Fixed { const int a; Tracked t; explicit Fixed(int v) : a(v), t(v) {} bool operator==(const Fixed& o) const { return a == o.a; } std::strong_ordering operator<=>(const Fixed& o) const { return a <=> o.a; } }; // neither default construction nor assignment
	struct RefIn { int& r; Tracked t; explicit RefIn(int& x) : r(x), t(x) {} };
	struct alignas(64) Aligned { Tracked t; explicit Aligned(int v = 0) : t(v) { self(); } Aligned(const Aligned& o) : t(o.t) { self(); } Aligned(Aligned&& o) : t(std::move(o.t)) { self(); } Aligned& operator=(const Aligned&) = default; Aligned& operator=(Aligned&&) = default; void self() const { if ((uintptr_t)this % 64) VIOLATION("alignment", "an object is constructed at a misaligned address"); } bool operator==(const Aligned& o) const { return t == o.t; } std::strong_ordering operator<=>(const Aligned& o) const { return t <=> o.t; } };
	struct Large { int pad[40]; Tracked t; long tail[9]; explicit Large(int v = 0) : t(v) { for (int i = 0; i < 40; i++) pad[i] = v + i; for (int i = 0; i < 9; i++) tail[i] = v - i; } bool ok() const { for (int i = 0; i < 40; i++) if (pad[i] != pad[0] + i) return false; for (int i = 0; i < 9; i++) if (tail[i] != (long)pad[0] - i) return false; return true; } bool operator==(const Large& o) const { return t == o.t; } std::strong_ordering operator<=>(const Large& o) const { return t <=> o.t; } };
	struct Plain { long w[23]; explicit Plain(int v = 0) { for (int i = 0; i < 23; i++) w[i] = (long)v * 0x100000001 + i * 0x0101010101; } bool operator==(const Plain& o) const { return w[0] == o.w[0]; } std::strong_ordering operator<=>(const Plain& o) const { return w[0] <=> o.w[0]; } }; // trivially copyable, large
	static_assert(std::is_trivially_copyable_v<Plain>);
	inline int& cell(int i) { static auto* cells = new std::map<int, int>; auto& c = (*cells)[i]; c = i; return c; }
	inline constexpr int Damaged = -66666; inline constexpr int AnyValue = -55555; // a moved-from value: whatever
	template<typename T> T makeV(int i)
	{
		if constexpr (std::is_same_v<T, WString>) return i == 0 ? WString() : itow(i); else if constexpr (std::is_same_v<T, AString>) return itoa(i); else if constexpr (std::is_same_v<T, Ptr<Box>>) return boxOf(i); else if constexpr (std::is_same_v<T, RefIn>) return RefIn(cell(i)); else return T(i);
	}
	template<typename T> int getV(const T& t)
	{
		if constexpr (std::is_same_v<T, Plain>) { int v = (int)t.w[0]; for (int i = 0; i < 23; i++) if (t.w[i] != (long)v * 0x100000001 + i * 0x0101010101) return Damaged; return v; } else if constexpr (std::is_arithmetic_v<T>) return (int)t; else if constexpr (std::is_same_v<T, WString>) return t.Length() ? (int)wtoi64(t) : 0; else if constexpr (std::is_same_v<T, AString>) return (int)atoi64(t); else if constexpr (std::is_same_v<T, Ptr<Box>>) return t ? t->v : MovedOut; else if constexpr (std::is_same_v<T, Fixed>) return t.t.v() == t.a ? t.a : MovedOut; else if constexpr (std::is_same_v<T, RefIn>) return t.t.v() == t.r ? t.r : MovedOut; else if constexpr (std::is_same_v<T, Aligned>) { t.self(); return t.t.v(); } else if constexpr (std::is_same_v<T, Large>) return t.ok() ? t.t.v() : MovedOut; else return t.v();
	}
	template<typename T> constexpr long tracksV = std::is_same_v<T, Tracked> || std::is_same_v<T, MoveOnly> || std::is_same_v<T, CopyOnly> || std::is_same_v<T, Fixed> || std::is_same_v<T, RefIn> || std::is_same_v<T, Aligned> || std::is_same_v<T, Large> ? 1 : 0;
}
