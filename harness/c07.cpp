#include "map.h"
using namespace H;
using I128 = __int128;
// an index around the admissible range [0, n] or far away from it
static vint pickIndex(Rng& rng, vint n)
{
	switch (rng.below(8))
	{
	case 0: return INT64_MIN + rng.below(3); case 1: return INT64_MAX - rng.below(3);
	case 2: return -1 - rng.below(3); case 3: return n + rng.below(3); case 4: return -n - rng.below(2);
	case 5: return (vint)rng.next(); case 6: return (vint)1 << rng.below(63); default: return rng.range(-2, n + 2);
	}
}
static bool inRange(vint i, vint n) { return i >= 0 && i < n; }
static bool badRange(vint i, vint c, vint n) { return i < 0 || i > n || c < 0 || (I128)i + c > n; }
#define REJECT(what, expr) do { LOG("%s", what); MUST(rejected([&] { (void)(expr); }), "accepted", "%s was accepted (n=%ld, index=%ld, count=%ld)", what, (long)n, (long)i, (long)c); count("rejections"); } while (0)

template<typename T> void seqErrors(Rng& rng)
{
	LifetimeScope scope;
	{
		vint n = rng.chance(1, 4) ? 0 : rng.range(0, rng.chance(1, 20) ? 300 : 24); List<T> l; std::vector<int> lr; Array<T> a(n); SortedList<T> s; std::vector<int> sr;
		for (vint i = 0; i < n; i++) { int v = (int)rng.below(40); l.Add(Val<T>::make(v)); lr.push_back(normal<T>(v)); a[i] = Val<T>::make(v); s.Add(Val<T>::make(v)); }
		for (vint i = 0; i < n && rng.chance(1, 3); i++) { int v = 41; l.Add(Val<T>::make(v)); l.RemoveAt(l.Count() - 1); } // vary the capacity
		sr = contentOf(s);
		long live = liveCount();
		for (int k = 0; k < 40; k++)
		{
			vint i = pickIndex(rng, n), c = pickIndex(rng, n); int which = (int)rng.below(17); const auto& cl = l; const auto& ca = a; bool tried = true;
			T t = Val<T>::make(42);
			if (which <= 4 && inRange(i, n)) continue;
			switch (which)
			{
			case 0: REJECT("List::Get", cl.Get(i)); REJECT("const List[]", cl[i]); REJECT("List[]", l[i]); break;
			case 1: REJECT("List::Set(T&&)", l.Set(i, std::move(t))); if constexpr (Val<T>::copyable) REJECT("List::Set(const T&)", l.Set(i, (const T&)t)); break;
			case 2: REJECT("List::RemoveAt", l.RemoveAt(i)); REJECT("SortedList::RemoveAt", s.RemoveAt(i)); break;
			case 3: REJECT("Array::Get", ca.Get(i)); REJECT("const Array[]", ca[i]); REJECT("Array[]", a[i]); break;
			case 4: REJECT("Array::Set(T&&)", a.Set(i, std::move(t))); if constexpr (Val<T>::copyable) REJECT("Array::Set(const T&)", a.Set(i, (const T&)t)); break;
			case 5: if (i >= 0 && i <= n) continue; REJECT("List::Insert(T&&)", l.Insert(i, std::move(t))); if constexpr (Val<T>::copyable) REJECT("List::Insert(const T&)", l.Insert(i, (const T&)t)); break;
			case 6: case 7: case 8: case 9: if (!badRange(i, c, n)) continue; REJECT("List::RemoveRange", l.RemoveRange(i, c)); break;
			case 10: case 11: if (rng.chance(1, 2)) i = rng.range(0, n); if (!badRange(i, c, n)) continue; REJECT("SortedList::RemoveRange", s.RemoveRange(i, c)); break;
			case 12: case 13: i = rng.range(0, n); if (!badRange(i, c, n)) continue; REJECT("List::RemoveRange", l.RemoveRange(i, c)); break;
			case 14: if (inRange(i, n)) continue; REJECT("SortedList::Get", s.Get(i)); REJECT("SortedList[]", s[i]); break;
			case 15: if (i >= 0) continue; REJECT("Array::Resize", a.Resize(i)); REJECT("Array(size)", Array<T>(i)); break;
			case 16: if (i >= 0) continue; if constexpr (Val<T>::copyable) REJECT("Array(buffer, size)", Array<T>(&t, i)); else tried = false; break;
			}
			if (tried) { op(which, n); nontrivial(); }
			{ T drop(std::move(t)); } // the argument may have been left alone or not; it is gone now
			compareSeq<T>(l, lr, "a rejected call", false); compareSeq<T>(a, lr, "a rejected call", false); compareSeq<T>(s, sr, "a rejected call", false);
			count("state_comparisons");
		}
		MUST(liveCount() == live, "live-count", "rejected calls changed the number of live elements");
	}
	scope.check("rejected calls");
}
template<typename K, typename V> void mapErrors(Rng& rng)
{
	LifetimeScope scope;
	{
		Dictionary<K, V> d; Group<K, V> g; KeyMap<K> dr; GroupMap<K> gr; vint cnt = rng.chance(1, 5) ? 0 : rng.range(0, rng.chance(1, 20) ? 250 : 16), range = rng.pick({ 3L, 20L, 60L, 60L, 200L });
		for (vint i = 0; i < cnt; i++) { int k = (int)rng.below(range), v = (int)rng.below(40); d.Set(Val<K>::make(k), Val<V>::make(v)); dr[k] = v; k = (int)rng.below(range); g.Add(Val<K>::make(k), Val<V>::make(v)); gr[k].push_back(v); }
		for (int s = 0; s < 30; s++)
		{
			vint n = (vint)dr.size(), i = pickIndex(rng, n), c = 0; int key = (int)rng.below(range + 2), v = (int)rng.below(40), which = (int)rng.below(7); const auto& cd = d; const auto& cg = g;
			switch (which)
			{
			case 0: case 1: if (dr.count(key)) continue; withKey<K>(key, [&](auto&& x) { REJECT("Dictionary::Get of a missing key", cd.Get(x)); REJECT("Dictionary[] of a missing key", cd[x]); return 0; }); break;
			case 2: case 3: if (!dr.count(key)) continue; REJECT("Dictionary::Add(K&&, V&&) of an existing key", d.Add(Val<K>::make(key), Val<V>::make(v)));
				if constexpr (Val<K>::copyable && Val<V>::copyable) { const K kk = Val<K>::make(key); const V vv = Val<V>::make(v); REJECT("Dictionary::Add(const K&, const V&) of an existing key", d.Add(kk, vv)); REJECT("Dictionary::Add(K&&, const V&) of an existing key", d.Add(Val<K>::make(key), vv)); REJECT("Dictionary::Add(const K&, V&&) of an existing key", d.Add(kk, Val<V>::make(v))); const Pair<K, V> p(kk, vv); REJECT("Dictionary::Add(Pair) of an existing key", d.Add(p)); REJECT("Dictionary::Add(Pair&&) of an existing key", d.Add(Pair<K, V>(p))); } break;
			case 4: if (gr.count(key)) continue; withKey<K>(key, [&](auto&& x) { REJECT("Group::Get of a missing key", cg.Get(x)); REJECT("Group[] of a missing key", cg[x]); return 0; }); break;
			case 5: n = (vint)gr.size(); if (inRange(i, n)) continue; REJECT("Group::GetByIndex", cg.GetByIndex(i)); REJECT("Group::Keys()[]", cg.Keys()[i]); break;
			case 6: if (inRange(i, n)) continue; REJECT("Dictionary::Keys()[]", cd.Keys()[i]); REJECT("Dictionary::Values()[]", cd.Values()[i]); break;
			}
			compareDict(d, dr, "a rejected call", false); compareGroup(g, gr, "a rejected call", false); op(which, n); nontrivial(); count("state_comparisons");
		}
	}
	scope.check("rejected calls");
}
template<typename C> void stringErrors(Rng& rng)
{
	using S = ObjectString<C>; using B = std::basic_string<C>;
	vint full = rng.chance(1, 5) ? 0 : rng.range(0, rng.chance(1, 20) ? 2500 : 20); B text; for (vint i = 0; i < full; i++) text += (C)('a' + rng.below(26));
	S whole = S::CopyFrom(text.data(), full); vint lo = rng.range(0, full), n = rng.range(0, full - lo);
	S s = rng.chance(1, 2) ? whole.Sub(lo, n) : S(text.substr(lo, n).c_str()); B ref = text.substr(lo, n);
	S ins(B(3, (C)'z').c_str());
	for (int k = 0; k < 30; k++)
	{
		vint i = pickIndex(rng, n), c = pickIndex(rng, n); int which = (int)rng.below(9); if (rng.chance(1, 3)) i = rng.range(0, n);
		switch (which)
		{
		case 0: if (inRange(i, n)) continue; REJECT("string[]", s[i]); break;
		case 1: if (c >= 0 && c <= n) continue; REJECT("string Left", s.Left(c)); REJECT("string Right", s.Right(c)); break;
		case 2: case 3: if (!badRange(i, c, n)) continue; REJECT("string Sub", s.Sub(i, c)); break;
		case 4: case 5: if (!badRange(i, c, n)) continue; REJECT("string Remove", s.Remove(i, c)); break;
		case 6: if (i >= 0 && i <= n) continue; REJECT("string Insert", s.Insert(i, ins)); break;
		case 7: if (c >= 0) continue; { C one[2] = { (C)'x', 0 }; REJECT("string CopyFrom", S::CopyFrom(one, c)); REJECT("string TakeOver", S::TakeOver(one, c)); C raw[2] = { (C)'x', (C)'y' }; REJECT("string TakeOver without terminator", S::TakeOver(raw, 1)); } break;
		case 8: REJECT("string from a null pointer", S((const C*)nullptr)); REJECT("string Unmanaged(nullptr)", S::Unmanaged(nullptr)); break;
		}
		MUST(s.Length() == n && whole.Length() == full, "content", "a rejected call changed the length of a string");
		for (vint j = 0; j < n; j++) MUST(s[j] == ref[j], "content", "a rejected call changed a string");
		for (vint j = 0; j < full; j++) MUST(whole[j] == text[j], "content", "a rejected call changed a string sharing the buffer");
		op(which, n); nontrivial(); count("state_comparisons");
	}
}
#if PART == 0
#define SEQ(NAME, T) SCENARIO(seq_##NAME, 2) { seqErrors<T>(rng); }
SEQ(tracked, Tracked)
SEQ(vint, vint)
const char* const harnessProperty = "C07";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SCENARIO(seq_wstring, 2) { seqErrors<WString>(rng); }
SCENARIO(seq_moveonly, 2) { seqErrors<MoveOnly>(rng); }
SCENARIO(seq_big, 1) { seqErrors<Big>(rng); }
#elif PART == 2
SCENARIO(map_tracked, 2) { mapErrors<Tracked, Tracked>(rng); }
SCENARIO(map_ptr, 2) { mapErrors<Ptr<Box>, Ptr<Box>>(rng); }
#elif PART == 3
SCENARIO(map_wstring, 2) { mapErrors<WString, vint>(rng); }
SCENARIO(map_moveonly, 2) { mapErrors<MoveOnly, MoveOnly>(rng); }
#elif PART == 4
SCENARIO(string_w, 2) { stringErrors<wchar_t>(rng); }
SCENARIO(string_a, 2) { stringErrors<char>(rng); }
SCENARIO(string_u8, 1) { stringErrors<char8_t>(rng); }
SCENARIO(string_u16, 1) { stringErrors<char16_t>(rng); }
SCENARIO(string_u32, 1) { stringErrors<char32_t>(rng); }
SCENARIO(values, 3)
{
	LifetimeScope scope;
	{
		vint n = 0, i = 0, c = 0;
		// optional values
		Nullable<Tracked> no; REJECT("Value() of an empty optional", no.Value()); MUST(!no, "state", "reading an empty optional filled it");
		{ Nullable<Tracked> x(Tracked(1)); if (rng.chance(1, 2)) x.Reset(); else { Nullable<Tracked> y(std::move(x)); MUST(y.Value().v() == 1, "state", "moved optional lost its value"); } REJECT("Value() of a cleared optional", x.Value()); x = Tracked(7); MUST(x.Value().v() == 7, "state", "optional unusable after an error"); }
		Nullable<vint> nv; REJECT("Value() of an empty optional integer", nv.Value());
		// variants
		using Var = Variant<vint, WString, Tracked>; int alt = (int)rng.below(3);
		Var v = alt == 0 ? Var((vint)5) : alt == 1 ? Var(WString(L"five")) : Var(Tracked(5)); const Var& cv = v;
		if (alt != 0) { REJECT("Get<vint>", v.Get<vint>()); REJECT("const Get<vint>", cv.Get<vint>()); REJECT("Get<vint> of an rvalue", Var(v).Get<vint>()); MUST(!v.TryGet<vint>() && !cv.TryGet<vint>(), "tryget", "TryGet of another alternative is not null"); }
		if (alt != 1) { REJECT("Get<WString>", v.Get<WString>()); REJECT("const Get<WString>", cv.Get<WString>()); REJECT("Get<WString> of an rvalue", Var(v).Get<WString>()); MUST(!v.TryGet<WString>() && !cv.TryGet<WString>(), "tryget", "TryGet of another alternative is not null"); }
		if (alt != 2) { REJECT("Get<Tracked>", v.Get<Tracked>()); REJECT("const Get<Tracked>", cv.Get<Tracked>()); REJECT("Get<Tracked> of an rvalue", Var(v).Get<Tracked>()); MUST(!v.TryGet<Tracked>() && !cv.TryGet<Tracked>(), "tryget", "TryGet of another alternative is not null"); }
		MUST(v.Index() == alt, "state", "a refused access changed the variant");
		if (alt == 0) MUST(v.Get<vint>() == 5, "state", "value"); else if (alt == 1) MUST(v.Get<WString>() == L"five", "state", "value"); else MUST(v.Get<Tracked>().v() == 5, "state", "value");
		// empty lazy sequences
		List<vint> src; for (vint k = rng.below(4); k > 0; k--) src.Add(k); LazyList<vint> e = rng.chance(1, 3) ? LazyList<vint>() : rng.chance(1, 2) ? From(src).Take(0) : From(src).Where([](vint) { return false; });
		REJECT("First of an empty sequence", e.First()); REJECT("Last of an empty sequence", e.Last()); REJECT("Max of an empty sequence", e.Max()); REJECT("Min of an empty sequence", e.Min()); REJECT("Aggregate of an empty sequence", e.Aggregate([](vint a, vint b) { return a + b; }));
		MUST(e.First(9) == 9 && e.Last(9) == 9 && e.Aggregate((vint)9, [](vint a, vint b) { return a + b; }) == 9, "default", "the default of an empty sequence is not returned");
		MUST(e.Count() == 0 && e.IsEmpty(), "state", "an error changed an empty sequence");
		op(alt, src.Count()); nontrivial(); count("state_comparisons");
	}
	scope.check("rejected accesses to values");
}
#endif
