// helpers shared by the scenarios
#pragma once
#include "core.h"
#include "vl.h"
#include "elems.h"

namespace H
{
	using namespace vl;
	using namespace vl::collections;

	// true: the call was rejected by an Error; false: it returned
	template<typename F> bool rejected(F&& f)
	{
		try { f(); return false; }
		catch (const vl::Error& e) { return true; }
	}

	inline std::string show(const std::vector<int>& xs)
	{
		std::string r = "["; size_t n = 0;
		for (int x : xs) { if (n++) r += ","; if (n > 60) { r += "..."; break; } r += std::to_string(x); }
		return r + "]";
	}
	inline std::string toStd(const WString& s) { std::string r; for (vint i = 0; i < s.Length(); i++) r += s[i] < 0x80 ? (char)s[i] : '?'; return r; }

	// a pool of reference counted objects so that Ptr<T> can play the role of an element with an integer identity
	struct Box : public Object
	{
		int v;
		Box(int x) : v(x) {}
	};
	inline Ptr<Box> boxOf(int i)
	{
		static auto* pool = new std::map<int, Ptr<Box>>;
		auto& p = (*pool)[i];
		if (!p) p = Ptr(new Box(i));
		return p;
	}
	template<> struct Val<Ptr<Box>>
	{
		static constexpr const char* name = "Ptr"; static constexpr bool tracked = false, copyable = true;
		static Ptr<Box> make(int i) { return boxOf(i); }
		static int get(const Ptr<Box>& t) { return t ? t->v : MovedOut; }
	};
	// the same with COM-style pointers
	struct ComBox { int v; void Release() { v = MovedOut; } };
	inline ComPtr<ComBox> comOf(int i)
	{
		static auto* pool = new std::map<int, ComPtr<ComBox>>;
		auto& p = (*pool)[i];
		if (!p) p = ComPtr<ComBox>(new ComBox{ i });
		return p;
	}
	template<> struct Val<ComPtr<ComBox>>
	{
		static constexpr const char* name = "ComPtr"; static constexpr bool tracked = false, copyable = true;
		static ComPtr<ComBox> make(int i) { return comOf(i); }
		static int get(const ComPtr<ComBox>& t) { return t ? t->v : MovedOut; }
	};
	// ordered by the first half of the number only: equal elements stay distinguishable
	template<> struct Val<Keyed>
	{
		static constexpr const char* name = "Keyed"; static constexpr bool tracked = false, copyable = true;
		static Keyed make(int i) { return Keyed{ i / 4, i % 4 }; }
		static int get(const Keyed& t) { return t.key * 4 + t.tag; }
	};

	// does element number a compare equal to element number b (for type T)?
	template<typename T> bool sameKey(int a, int b)
	{
		if constexpr (std::is_same_v<T, Keyed>) return a / 4 == b / 4;
		else if constexpr (std::is_same_v<T, unsigned char>) return (a & 255) == (b & 255);
		else return a == b;
	}
	template<typename T> int normal(int a) { if constexpr (std::is_same_v<T, unsigned char>) return a & 255; else return a; }

	// the lookup form of an element: Ptr<T> is looked up by its raw pointer
	template<typename T, typename F> auto withKey(int i, F&& f)
	{
		T t = Val<T>::make(i);
		return f(KeyType<T>::GetKeyValue(t));
	}
}

namespace H
{
	// the order of element numbers that T's own comparison induces
	template<typename T> bool lessKey(int a, int b)
	{
		if constexpr (std::is_same_v<T, Keyed>) return a / 4 < b / 4;
		else if constexpr (std::is_same_v<T, unsigned char>) return (a & 255) < (b & 255);
		else if constexpr (std::is_same_v<T, Ptr<Box>>) return boxOf(a).Obj() < boxOf(b).Obj();
		else if constexpr (std::is_same_v<T, ComPtr<ComBox>>) return comOf(a).Obj() < comOf(b).Obj();
		else return a < b;
	}
}
