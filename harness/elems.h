// Instrumented element types: every construction, copy, move, assignment and destruction is an event checked online
// against a registry of live objects (address -> identity).
#pragma once
#include "core.h"
#include "vl.h"
#include <unordered_map>

namespace H
{
	// ---- registry of live instrumented objects -------------------------------------------------------------------
	struct Registry
	{
		std::unordered_map<const void*, int> live;   // address -> type tag
		u64 ctor = 0, dtor = 0, copies = 0, moves = 0, assigns = 0;
	};
	inline Registry& reg() { static Registry* r = new Registry; return *r; }
	inline long liveCount() { return (long)reg().live.size(); }

	inline void onCtor(const void* p, int tag)
	{
		auto& r = reg(); r.ctor++;
		auto [it, ok] = r.live.emplace(p, tag);
		if (!ok) VIOLATION("ctor-over-live", "an element was constructed on top of a live element at the same address (the old one was never destroyed)");
	}
	inline void onDtor(const void* p, int tag)
	{
		auto& r = reg(); r.dtor++;
		auto it = r.live.find(p);
		if (it == r.live.end()) VIOLATION("dtor-not-live", "an element was destroyed that is not alive (double destruction or destruction of raw memory)");
		if (it->second != tag) VIOLATION("dtor-wrong-type", "an element was destroyed as another type");
		r.live.erase(it);
	}
	inline void mustLive(const void* p, const char* what)
	{
		if (reg().live.find(p) == reg().live.end()) VIOLATION("use-not-live", "%s touches an element that is not alive", what);
	}
	inline void flushRegistryCounters()
	{
		auto& r = reg();
		count("element_ctor_events", r.ctor); count("element_dtor_events", r.dtor); count("element_copy_events", r.copies); count("element_move_events", r.moves); count("element_assign_events", r.assigns);
		r.ctor = r.dtor = r.copies = r.moves = r.assigns = 0;
	}
	// every instrumented object created during the scope is gone at its end
	struct LifetimeScope
	{
		long before = liveCount();
		void check(const char* where)
		{
			long now = liveCount();
			MUST(now == before, "element-leak", "%s: %ld instrumented elements alive before, %ld after", where, before, now);
			flushRegistryCounters();
		}
	};

	constexpr int MovedOut = -987654321;

	// copyable and movable; owns heap memory so that ASan/LSan see every duplicated or dropped ownership
	struct Tracked
	{
		int* data;
		Tracked() : data(new int(0)) { onCtor(this, 1); }
		explicit Tracked(int v) : data(new int(v)) { onCtor(this, 1); }
		Tracked(const Tracked& t) { mustLive(&t, "copy construction"); reg().copies++; data = t.data ? new int(*t.data) : nullptr; onCtor(this, 1); }
		Tracked(Tracked&& t) { mustLive(&t, "move construction"); reg().moves++; data = t.data; t.data = nullptr; onCtor(this, 1); }
		Tracked& operator=(const Tracked& t)
		{
			mustLive(this, "copy assignment to"); mustLive(&t, "copy assignment from"); reg().assigns++;
			if (this != &t) { int* n = t.data ? new int(*t.data) : nullptr; delete data; data = n; }
			return *this;
		}
		Tracked& operator=(Tracked&& t)
		{
			mustLive(this, "move assignment to"); mustLive(&t, "move assignment from"); reg().assigns++;
			if (this != &t) { delete data; data = t.data; t.data = nullptr; }
			return *this;
		}
		~Tracked() { onDtor(this, 1); delete data; }
		int v() const { mustLive(this, "reading"); return data ? *data : MovedOut; }
		bool operator==(const Tracked& t) const { return v() == t.v(); }
		std::strong_ordering operator<=>(const Tracked& t) const { return v() <=> t.v(); }
	};

	struct MoveOnly
	{
		int* data;
		MoveOnly() : data(new int(0)) { onCtor(this, 2); }
		explicit MoveOnly(int v) : data(new int(v)) { onCtor(this, 2); }
		MoveOnly(const MoveOnly&) = delete;
		MoveOnly& operator=(const MoveOnly&) = delete;
		MoveOnly(MoveOnly&& t) { mustLive(&t, "move construction"); reg().moves++; data = t.data; t.data = nullptr; onCtor(this, 2); }
		MoveOnly& operator=(MoveOnly&& t)
		{
			mustLive(this, "move assignment to"); mustLive(&t, "move assignment from"); reg().assigns++;
			if (this != &t) { delete data; data = t.data; t.data = nullptr; }
			return *this;
		}
		~MoveOnly() { onDtor(this, 2); delete data; }
		int v() const { mustLive(this, "reading"); return data ? *data : MovedOut; }
		bool operator==(const MoveOnly& t) const { return v() == t.v(); }
		std::strong_ordering operator<=>(const MoveOnly& t) const { return v() <=> t.v(); }
	};

	// copy only in effect: moving copies (no move members declared)
	struct CopyOnly
	{
		int* data;
		CopyOnly() : data(new int(0)) { onCtor(this, 3); }
		explicit CopyOnly(int v) : data(new int(v)) { onCtor(this, 3); }
		CopyOnly(const CopyOnly& t) { mustLive(&t, "copy construction"); reg().copies++; data = new int(*t.data); onCtor(this, 3); }
		CopyOnly& operator=(const CopyOnly& t)
		{
			mustLive(this, "copy assignment to"); mustLive(&t, "copy assignment from"); reg().assigns++;
			if (this != &t) { int* n = new int(*t.data); delete data; data = n; }
			return *this;
		}
		~CopyOnly() { onDtor(this, 3); delete data; }
		int v() const { mustLive(this, "reading"); return *data; }
		bool operator==(const CopyOnly& t) const { return v() == t.v(); }
		std::strong_ordering operator<=>(const CopyOnly& t) const { return v() <=> t.v(); }
	};

	// non-trivial constructors and destructor, trivial assignment
	struct TrivAssign
	{
		int value;
		TrivAssign() : value(0) { onCtor(this, 4); }
		explicit TrivAssign(int v) : value(v) { onCtor(this, 4); }
		TrivAssign(const TrivAssign& t) : value(t.value) { mustLive(&t, "copy construction"); reg().copies++; onCtor(this, 4); }
		TrivAssign& operator=(const TrivAssign& t) = default;
		~TrivAssign() { onDtor(this, 4); }
		int v() const { mustLive(this, "reading"); return value; }
		bool operator==(const TrivAssign& t) const { return v() == t.v(); }
		std::strong_ordering operator<=>(const TrivAssign& t) const { return v() <=> t.v(); }
	};

	// trivially copyable, larger than a word, odd size
	struct Big
	{
		int value; char pad[35];
		int v() const { for (int i = 0; i < 35; i++) if (pad[i] != (char)(value + i)) VIOLATION("torn-element", "a trivially copyable element was copied only in part"); return value; }
		bool operator==(const Big& t) const { return v() == t.v(); }
		std::strong_ordering operator<=>(const Big& t) const { return v() <=> t.v(); }
	};

	// elements ordered/equal by key only; tag distinguishes equal elements
	struct Keyed
	{
		int key; int tag;
		bool operator==(const Keyed& t) const { return key == t.key; }
		std::weak_ordering operator<=>(const Keyed& t) const { return key <=> t.key; }
	};

	template<typename T> struct Val;
	// element numbers are spread over the whole range of vint and their low bits are scrambled, so that narrowing or subtracting comparisons show
	template<> struct Val<vl::vint>
	{
		static constexpr const char* name = "vint"; static constexpr bool tracked = false, copyable = true;
		static vl::vint make(int i) { int s = vintShift(); vl::vint j = (vl::vint)i - 200; if (s > 30 && (j >= ((vl::vint)1 << (63 - s)) || j < -((vl::vint)1 << (63 - s)))) abort(); return j * ((vl::vint)1 << s) + (vl::vint)(mix((u64)i) & (((u64)1 << s) - 1)); }
		static int get(const vl::vint& t) { int s = vintShift(); vl::vint i = (t >> s) + 200; if (i < -30000 || i > 30000) return MovedOut; return make((int)i) == t ? (int)i : MovedOut; }
	};
	template<> struct Val<unsigned char> { static constexpr const char* name = "byte"; static constexpr bool tracked = false, copyable = true; static unsigned char make(int i) { return (unsigned char)i; } static int get(const unsigned char& t) { return t; } };
	template<> struct Val<Tracked> { static constexpr const char* name = "Tracked"; static constexpr bool tracked = true, copyable = true; static Tracked make(int i) { return Tracked(i); } static int get(const Tracked& t) { return t.v(); } };
	template<> struct Val<MoveOnly> { static constexpr const char* name = "MoveOnly"; static constexpr bool tracked = true, copyable = false; static MoveOnly make(int i) { return MoveOnly(i); } static int get(const MoveOnly& t) { return t.v(); } };
	template<> struct Val<CopyOnly> { static constexpr const char* name = "CopyOnly"; static constexpr bool tracked = true, copyable = true; static CopyOnly make(int i) { return CopyOnly(i); } static int get(const CopyOnly& t) { return t.v(); } };
	template<> struct Val<TrivAssign> { static constexpr const char* name = "TrivAssign"; static constexpr bool tracked = true, copyable = true; static TrivAssign make(int i) { return TrivAssign(i); } static int get(const TrivAssign& t) { return t.v(); } };
	template<> struct Val<Big> { static constexpr const char* name = "Big"; static constexpr bool tracked = false, copyable = true; static Big make(int i) { Big b; b.value = i; for (int k = 0; k < 35; k++) b.pad[k] = (char)(i + k); return b; } static int get(const Big& t) { return t.v(); } };
	template<> struct Val<vl::WString>
	{
		static constexpr const char* name = "WString"; static constexpr bool tracked = false, copyable = true;
		static vl::WString make(int i) { wchar_t b[32]; swprintf(b, 32, L"%08d", i + 10000000); return b; }
		static int get(const vl::WString& t) { if (t.Length() != 8) return MovedOut; int r = 0; for (int k = 0; k < 8; k++) r = r * 10 + (t[k] - L'0'); return r - 10000000; }
	};
}
