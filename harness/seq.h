// Reference-model driver for List<T> and Array<T>: every call is mirrored on a std::vector of element numbers and
// the observable state is compared after every call. With `lifetime` set the number of live elements is compared as well.
#pragma once
#include "util.h"

namespace H
{
	template<typename T, typename L>
	void compareSeq(const L& list, const std::vector<int>& ref, const char* after, bool deep)
	{
		vint n = list.Count();
		MUST(n == (vint)ref.size(), "count", "after %s: Count() is %ld, %ld elements expected", after, (long)n, (long)ref.size());
		for (vint i = 0; i < n; i++)
		{
			int g = Val<T>::get(list.Get(i));
			MUST(g == ref[i], "content", "after %s: element %ld of %ld is %d, expected %d", after, (long)i, (long)n, g, ref[i]);
		}
		if (deep && n > 0)
		{
			for (vint i = 0; i < n; i++)
			{
				MUST(&list[i] == &list[0] + i, "contiguous", "elements are not contiguous");
				MUST(&list[i] == &list.Get(i), "get-vs-index", "Get and operator[] disagree");
			}
			auto e = list.CreateEnumerator(); vint k = 0;
			while (e->Next())
			{
				MUST(k < n, "enum-long", "the enumerator yields more than Count() elements");
				MUST(e->Index() == k, "enum-index", "enumerator Index() is %ld at element %ld", (long)e->Index(), (long)k);
				MUST(Val<T>::get(e->Current()) == ref[k], "enum-value", "enumerator yields a wrong element at %ld", (long)k);
				k++;
			}
			MUST(k == n, "enum-short", "the enumerator yields %ld of %ld elements", (long)k, (long)n);
			delete e;
		}
	}

	template<typename T> constexpr bool cheap = !Val<T>::tracked && !std::is_same_v<T, Ptr<Box>> && !std::is_same_v<T, ComPtr<ComBox>> && !std::is_same_v<T, WString>;
	// huge > 0: bulk phases up to that many elements
	struct SeqOpt { long maxLen; long ops; bool lifetime; long huge = 0; };
	// cheap: elements that can be moved in bulk without instrumentation
	inline SeqOpt maybeHuge(Rng& rng, SeqOpt o, long every, bool cheap)
	{
		vintShift() = rng.pick({ 54, 54, 33, 3 });
		if (!rng.chance(1, every)) return o;
		o.huge = (cheap ? rng.pick({ 130L, 260L, 520L, 1030L, 2050L, 4100L }) : rng.pick({ 130L, 130L, 260L, 260L, 260L, 520L })) + rng.range(-3, 40); if (!cheap && rng.chance(1, 20)) o.huge = 1100; o.maxLen = o.huge; o.ops = cheap ? 22 : 14; vintShift() = 49; count("large_histories");
		return o;
	}
	template<typename T> long hugeRange(Rng& rng, const SeqOpt& o, long small) { return !o.huge ? small : std::is_same_v<T, unsigned char> ? 256 : rng.pick({ 7L, 300L, o.huge, 2 * o.huge }); }

	template<typename T>
	void checkLive(bool lifetime, long base, long expected, const char* after)
	{
		if constexpr (Val<T>::tracked)
		{
			if (lifetime) MUST(liveCount() - base == expected, "live-count", "after %s: %ld elements are alive, the containers hold %ld", after, liveCount() - base, expected);
		}
	}

	template<typename T>
	void listHistory(Rng& rng, SeqOpt o)
	{
		LifetimeScope scope; long base = liveCount();
		{
			List<T> list; std::vector<int> ref;
			List<T> other; std::vector<int> oref;
			long range = hugeRange<T>(rng, o, rng.pick({ 4L, 30L, 200L }));
			// phases: grow, churn around a size, shrink
			int phase = 0; long target = rng.range(1, o.maxLen), left = 0;
			auto newVal = [&] { return (int)rng.below(range); };
			for (long step = 0; step < o.ops; step++)
			{
				if (left-- <= 0) { phase = (int)rng.below(4); left = rng.range(5, 60); target = rng.chance(1, 3) ? rng.range(0, 12) : rng.range(0, o.maxLen); }
				long n = (long)ref.size();
				int k;
				if (phase == 0 && n < target) k = (int)rng.pick({ 0, 0, 1, 2, 2, 3, 4 });
				else if (phase == 1 && n > target) k = (int)rng.pick({ 5, 6, 7, 7, 8 });
				else k = (int)rng.below(20);
				if (n > o.maxLen && k <= 4) k = 7;
				if (o.huge && (step == 0 || rng.chance(1, 2))) k = step == 0 ? 20 : (int)rng.range(20, 23);
				const char* what = "?";
				switch (k)
				{
				case 0: case 1: { int v = newVal(); what = "Add"; LOG("Add(%d)", v); vint r;
						if (Val<T>::copyable && rng.chance(1, 2)) { if constexpr (Val<T>::copyable) { const T t = Val<T>::make(v); r = list.Add(t); MUST(Val<T>::get(t) == normal<T>(v), "arg-changed", "Add(const T&) changed its argument"); } }
						else r = list.Add(Val<T>::make(v));
						MUST(r == n, "add-result", "Add returned %ld, expected %ld", (long)r, n); ref.push_back(normal<T>(v)); } break;
				case 2: case 3: case 4: { int v = newVal(); long i = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : n) : rng.range(0, n); what = "Insert"; LOG("Insert(%ld, %d)", i, v); vint r;
						if (Val<T>::copyable && rng.chance(1, 2)) { if constexpr (Val<T>::copyable) { const T t = Val<T>::make(v); r = list.Insert(i, t); MUST(Val<T>::get(t) == normal<T>(v), "arg-changed", "Insert(const T&) changed its argument"); } }
						else r = list.Insert(i, Val<T>::make(v));
						MUST(r == i, "insert-result", "Insert returned %ld, expected %ld", (long)r, i); ref.insert(ref.begin() + i, normal<T>(v)); } break;
				case 5: { int v = newVal(); what = "Remove"; LOG("Remove(%d)", v);
						bool r = withKey<T>(v, [&](auto&& key) { return list.Remove(key); });
						auto it = std::find_if(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); });
						MUST(r == (it != ref.end()), "remove-result", "Remove returned %d", (int)r); if (it != ref.end()) ref.erase(it); } break;
				case 6: case 7: if (n > 0) { long i = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : n - 1) : rng.below(n); what = "RemoveAt"; LOG("RemoveAt(%ld)", i);
						MUST(list.RemoveAt(i), "removeat-result", "RemoveAt returned false"); ref.erase(ref.begin() + i); } break;
				case 8: { long i = rng.range(0, n), c = rng.chance(1, 5) ? n - i : rng.chance(1, 5) ? 0 : rng.range(0, rng.chance(1, 3) ? n - i : std::min(n - i, 9L)); what = "RemoveRange"; LOG("RemoveRange(%ld, %ld)", i, c);
						MUST(list.RemoveRange(i, c), "removerange-result", "RemoveRange returned false"); ref.erase(ref.begin() + i, ref.begin() + i + c); } break;
				case 9: case 10: if (n > 0) { long i = rng.below(n); int v = newVal(); what = "Set"; LOG("Set(%ld, %d)", i, v); bool r = true;
						int form = (int)rng.below(3);
						if (form == 0) { if constexpr (Val<T>::copyable) { const T t = Val<T>::make(v); r = list.Set(i, t); MUST(Val<T>::get(t) == normal<T>(v), "arg-changed", "Set(const T&) changed its argument"); } else r = list.Set(i, Val<T>::make(v)); }
						else if (form == 1) r = list.Set(i, Val<T>::make(v)); else list[i] = Val<T>::make(v);
						MUST(r, "set-result", "Set returned false"); ref[i] = normal<T>(v); } break;
				case 11: case 12: { int v = newVal(); what = "IndexOf";
						vint r = withKey<T>(v, [&](auto&& key) { return list.IndexOf(key); }); bool c = withKey<T>(v, [&](auto&& key) { return list.Contains(key); });
						auto it = std::find_if(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); });
						vint want = it == ref.end() ? -1 : it - ref.begin(); LOG("IndexOf(%d)=%ld", v, (long)r);
						MUST(r == want, "indexof", "IndexOf(%d) is %ld, expected %ld", v, (long)r, (long)want); MUST(c == (want != -1), "contains", "Contains(%d) is %d", v, (int)c); } break;
				case 13: if (rng.chance(1, 4)) { what = "Clear"; LOG("Clear()"); MUST(list.Clear(), "clear-result", "Clear returned false"); ref.clear(); } break;
				case 14: { what = "move construction"; LOG("move construct"); List<T> tmp(std::move(list)); compareSeq<T>(list, {}, "being moved from", true); compareSeq<T>(tmp, ref, "move construction", false); list = std::move(tmp); compareSeq<T>(tmp, {}, "being moved from", true); } break;
				case 15: { what = "move assignment"; LOG("move assign to the other list"); other = std::move(list); oref = ref; ref.clear(); } break;
				case 16: { what = "exchange"; LOG("exchange with the other list"); List<T> tmp(std::move(list)); list = std::move(other); other = std::move(tmp); std::swap(ref, oref); } break;
				case 20: { what = "bulk append"; long to = rng.range(n, o.huge); LOG("append to %ld elements", to); while ((long)ref.size() < to) { int v = newVal(); vint r = list.Add(Val<T>::make(v)); MUST(r == (vint)ref.size(), "add-result", "Add returned %ld", (long)r); ref.push_back(normal<T>(v)); } } break;
				case 21: { what = "bulk insert"; long to = std::min(rng.range(n, o.huge), n + 300), at = rng.pick({ 0L, n / 2, rng.range(0, n) }); bool run = rng.chance(1, 2); LOG("insert at %ld until %ld elements", at, to); for (long j = 0; (long)ref.size() < to; j++) { int v = newVal(); long i = run ? at + j : at; vint r = list.Insert(i, Val<T>::make(v)); MUST(r == i, "insert-result", "Insert returned %ld", (long)r); ref.insert(ref.begin() + i, normal<T>(v)); } } break;
				case 22: { what = "large RemoveRange"; long i = rng.chance(1, 3) ? 0 : rng.range(0, n), c = rng.chance(1, 4) ? n - i : rng.range(0, n - i); LOG("RemoveRange(%ld, %ld)", i, c); MUST(list.RemoveRange(i, c), "removerange-result", "RemoveRange returned false"); ref.erase(ref.begin() + i, ref.begin() + i + c); } break;
				case 23: { what = "bulk removal"; long to = std::max(rng.range(0, n), n - 600); int at = (int)rng.below(3); LOG("remove one by one until %ld elements", to); while ((long)ref.size() > to) { long m = (long)ref.size(), i = at == 0 ? 0 : at == 1 ? m - 1 : rng.below(m); MUST(list.RemoveAt(i), "removeat-result", "RemoveAt returned false"); ref.erase(ref.begin() + i); } } break;
				default: { what = "append batch"; long c = rng.range(1, 20); LOG("append %ld", c); for (long j = 0; j < c && (long)ref.size() < o.maxLen; j++) { int v = newVal(); list.Add(Val<T>::make(v)); ref.push_back(normal<T>(v)); } }
				}
				op(k, ref.size());
				if (ref.size() >= 3) nontrivial();
				compareSeq<T>(list, ref, what, step % 8 == 0);
				if (k >= 14 && k <= 16) compareSeq<T>(other, oref, what, true);
				checkLive<T>(o.lifetime, base, (long)(ref.size() + oref.size()), what);
				LOG("  -> %s", show(ref).c_str());
				count("state_comparisons"); 
			}
		}
		scope.check("List history");
		count((std::string("histories_List_") + Val<T>::name).c_str());
	}

	template<typename T>
	void arrayHistory(Rng& rng, SeqOpt o)
	{
		LifetimeScope scope; long base = liveCount();
		constexpr bool zeroed = !std::is_trivially_constructible_v<T>; // only class types have a default value
		{
			std::vector<int> ref, oref; long range = hugeRange<T>(rng, o, rng.pick({ 4L, 30L, 200L }));
			auto newVal = [&] { return (int)rng.below(range); };
			auto defVal = [] { if constexpr (zeroed) { T t; return Val<T>::get(t); } else return 0; };
			auto fill = [&](Array<T>& a, long from) { for (long i = from; i < (long)a.Count(); i++) { if (zeroed && rng.chance(1, 3)) continue; int v = newVal(); a[i] = Val<T>::make(v); ref[i] = normal<T>(v); } };
			long n0 = rng.chance(1, 4) ? 0 : rng.range(0, o.maxLen);
			Array<T> arr(n0); Array<T> other; ref.assign(n0, defVal());
			LOG("Array(%ld)", n0);
			if (zeroed) compareSeq<T>(arr, ref, "construction", true);
			fill(arr, 0); compareSeq<T>(arr, ref, "construction", true);
			for (long step = 0; step < o.ops; step++)
			{
				long n = (long)ref.size(); int k = (int)rng.below(12); const char* what = "?";
				switch (k)
				{
				case 0: case 1: case 2: { long m = rng.chance(1, 6) ? 0 : rng.chance(1, 6) ? n : rng.chance(1, 3) ? std::max(0L, n + rng.range(-3, 3)) : rng.range(0, o.maxLen); what = "Resize"; LOG("Resize(%ld)", m);
						arr.Resize(m); ref.resize(m, defVal());
						MUST(arr.Count() == m, "resize-count", "Count() is %ld after Resize(%ld)", (long)arr.Count(), m);
						if (zeroed) compareSeq<T>(arr, ref, what, false); if (m > n) fill(arr, n); } break;
				case 3: case 4: case 5: if (n) { long i = rng.below(n); int v = newVal(); what = "Set"; LOG("Set(%ld, %d)", i, v); int form = (int)rng.below(3); bool r = true;
						if (form == 0) { if constexpr (Val<T>::copyable) { const T t = Val<T>::make(v); r = arr.Set(i, t); } else r = arr.Set(i, Val<T>::make(v)); }
						else if (form == 1) r = arr.Set(i, Val<T>::make(v)); else arr[i] = Val<T>::make(v);
						MUST(r, "set-result", "Set returned false"); ref[i] = normal<T>(v); } break;
				case 6: case 7: { int v = newVal(); what = "IndexOf"; vint r = withKey<T>(v, [&](auto&& key) { return arr.IndexOf(key); }); bool c = withKey<T>(v, [&](auto&& key) { return arr.Contains(key); });
						auto it = std::find_if(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); }); vint want = it == ref.end() ? -1 : it - ref.begin();
						LOG("IndexOf(%d)=%ld", v, (long)r); MUST(r == want, "indexof", "IndexOf(%d) is %ld, expected %ld", v, (long)r, (long)want); MUST(c == (want != -1), "contains", "Contains(%d) is %d", v, (int)c); } break;
				case 8: { what = "move construction"; LOG("move construct"); Array<T> tmp(std::move(arr)); compareSeq<T>(arr, {}, "being moved from", true); compareSeq<T>(tmp, ref, what, false); arr = std::move(tmp); } break;
				case 9: { what = "exchange"; LOG("exchange"); Array<T> tmp(std::move(arr)); arr = std::move(other); other = std::move(tmp); std::swap(ref, oref); } break;
				case 10: { what = "move assignment"; LOG("move assign to the other array"); other = std::move(arr); oref = ref; ref.clear(); } break;
				case 11: if constexpr (Val<T>::copyable) { what = "construction from a buffer"; LOG("Array(buffer, n)"); long c = rng.range(0, o.huge && rng.chance(1, 2) ? o.huge : 12); std::vector<T> src; std::vector<int> r2; for (long i = 0; i < c; i++) { int v = newVal(); src.push_back(Val<T>::make(v)); r2.push_back(normal<T>(v)); }
						{ Array<T> tmp(src.data(), c); src.clear(); src.shrink_to_fit(); compareSeq<T>(tmp, r2, what, true); arr = std::move(tmp); ref = r2; } } break;
				}
				op(100 + k, ref.size()); if (ref.size() >= 2) nontrivial();
				compareSeq<T>(arr, ref, what, step % 4 == 0); compareSeq<T>(other, oref, what, false);
				checkLive<T>(o.lifetime, base, (long)(ref.size() + oref.size()), what);
				LOG("  -> %s", show(ref).c_str());
				count("state_comparisons");
			}
		}
		scope.check("Array history");
		count((std::string("histories_Array_") + Val<T>::name).c_str());
	}
}
