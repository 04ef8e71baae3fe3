// Reference-model drivers for SortedList, Dictionary and Group. Element numbers stand for keys and values (see Val<T>);
// after every call the complete observable state is compared with the model, with `lifetime` also the number of live elements.
#pragma once
#include "seq.h"

namespace H
{
	// ---- SortedList ----------------------------------------------------------------------------------------------
	template<typename T> std::vector<int> contentOf(const SortedList<T>& l)
	{
		std::vector<int> r; for (vint i = 0; i < l.Count(); i++) r.push_back(Val<T>::get(l.Get(i))); return r;
	}
	template<typename T> void mustBeSorted(const std::vector<int>& xs, const char* after)
	{
		for (size_t i = 1; i < xs.size(); i++) MUST(!lessKey<T>(xs[i], xs[i - 1]), "not-sorted", "after %s: element %ld is smaller than its predecessor", after, (long)i);
	}
	// same elements, sorted; the order among equal elements is free
	template<typename T> void sameBag(const std::vector<int>& got, std::vector<int> want, const char* after)
	{
		mustBeSorted<T>(got, after);
		std::vector<int> g = got; std::sort(g.begin(), g.end()); std::sort(want.begin(), want.end());
		MUST(g == want, "content", "after %s: the list holds %s, expected (in some order) %s", after, show(g).c_str(), show(want).c_str());
	}

	template<typename T>
	void sortedHistory(Rng& rng, SeqOpt o)
	{
		LifetimeScope scope; long base = liveCount();
		{
			SortedList<T> list, other; std::vector<int> ref, oref;
			long range = hugeRange<T>(rng, o, rng.pick({ 3L, 16L, 60L, 200L }));
			int phase = 0; long target = 10, left = 0, mono = 0;
			auto newVal = [&] { return (int)(mono == 1 ? std::min(range - 1, (long)ref.size()) : mono == 2 ? std::max(0L, range - 1 - (long)ref.size()) : rng.below(range)); };
			for (long step = 0; step < o.ops; step++)
			{
				if (left-- <= 0) { phase = (int)rng.below(4); left = rng.range(5, 60); target = rng.chance(1, 3) ? rng.range(0, 12) : rng.range(0, o.maxLen); mono = rng.chance(1, 4) ? rng.range(1, 2) : 0; }
				long n = (long)ref.size(); int k;
				if (phase == 0 && n < target) k = 0; else if (phase == 1 && n > target) k = (int)rng.pick({ 4, 5, 6, 7 }); else k = (int)rng.below(18);
				if (n > o.maxLen && k <= 3) k = 5;
				if (o.huge && (step == 0 || rng.chance(1, 2))) k = step == 0 ? 20 : (int)rng.pick({ 20, 22, 23 });
				const char* what = "?"; bool exact = false;
				switch (k)
				{
				case 0: case 1: case 2: case 3: { int v = newVal(); what = "Add"; vint r;
						if (Val<T>::copyable && rng.chance(1, 2)) { if constexpr (Val<T>::copyable) { const T t = Val<T>::make(v); r = list.Add(t); MUST(Val<T>::get(t) == normal<T>(v), "arg-changed", "Add(const T&) changed its argument"); } }
						else r = list.Add(Val<T>::make(v));
						LOG("Add(%d)=%ld", v, (long)r);
						MUST(r >= 0 && r < list.Count() && Val<T>::get(list.Get(r)) == normal<T>(v), "add-result", "Add returned %ld, which does not hold the added element", (long)r);
						ref.push_back(normal<T>(v)); } break;
				case 4: { int v = newVal(); what = "Remove"; LOG("Remove(%d)", v);
						bool r = withKey<T>(v, [&](auto&& key) { return list.Remove(key); });
						bool had = std::any_of(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); });
						MUST(r == had, "remove-result", "Remove returned %d", (int)r);
						if (had)
						{
							auto now = contentOf(list); size_t p = 0; while (p < now.size() && now[p] == ref[p]) p++;
							MUST(now.size() + 1 == ref.size(), "remove-count", "Remove changed the count from %ld to %ld", (long)ref.size(), (long)now.size());
							MUST(sameKey<T>(ref[p], v) || std::any_of(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v) && std::count(ref.begin(), ref.end(), x) == std::count(now.begin(), now.end(), x) + 1; }), "remove-wrong", "Remove(%d) removed another element", v);
							std::vector<int> rest = ref; bool ok = false;
							for (size_t i = 0; i < ref.size() && !ok; i++) if (sameKey<T>(ref[i], v)) { rest = ref; rest.erase(rest.begin() + i); auto a = rest, b = now; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); ok = a == b; }
							MUST(ok, "remove-wrong", "Remove(%d) did not remove exactly one equal element", v);
							ref = rest;
						} } break;
				case 5: case 6: if (n > 0) { long i = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : n - 1) : rng.below(n); what = "RemoveAt"; LOG("RemoveAt(%ld)", i);
						MUST(list.RemoveAt(i), "removeat-result", "RemoveAt returned false"); ref.erase(ref.begin() + i); exact = true; } break;
				case 7: { long i = rng.range(0, n), c = rng.chance(1, 5) ? n - i : rng.chance(1, 5) ? 0 : rng.range(0, std::min(n - i, 9L)); what = "RemoveRange"; LOG("RemoveRange(%ld, %ld)", i, c);
						MUST(list.RemoveRange(i, c), "removerange-result", "RemoveRange returned false"); ref.erase(ref.begin() + i, ref.begin() + i + c); exact = true; } break;
				case 8: case 9: case 10: case 11: { int v = rng.chance(1, 2) && n ? ref[rng.below(n)] : newVal(); what = "IndexOf";
						vint r = withKey<T>(v, [&](auto&& key) { return list.IndexOf(key); }); bool c = withKey<T>(v, [&](auto&& key) { return list.Contains(key); });
						bool had = std::any_of(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); }); LOG("IndexOf(%d)=%ld", v, (long)r);
						if (had) MUST(r >= 0 && r < n && sameKey<T>(ref[r], v), "indexof", "IndexOf(%d) is %ld although the element is in the list", v, (long)r);
						else MUST(r == -1, "indexof", "IndexOf(%d) is %ld, expected -1", v, (long)r);
						MUST(c == had, "contains", "Contains(%d) is %d", v, (int)c); exact = true; } break;
				case 12: if (rng.chance(1, 4)) { what = "Clear"; LOG("Clear()"); MUST(list.Clear(), "clear-result", "Clear returned false"); ref.clear(); } break;
				case 13: { what = "move construction"; LOG("move construct"); SortedList<T> tmp(std::move(list)); compareSeq<T>(list, {}, "being moved from", true); compareSeq<T>(tmp, ref, what, false); list = std::move(tmp); compareSeq<T>(tmp, {}, "being moved from", true); exact = true; } break;
				case 14: { what = "move assignment"; LOG("move assign to the other list"); other = std::move(list); oref = ref; ref.clear(); } break;
				case 15: { what = "exchange"; LOG("exchange"); SortedList<T> tmp(std::move(list)); list = std::move(other); other = std::move(tmp); std::swap(ref, oref); exact = true; } break;
				case 20: { what = "bulk add"; long to = rng.range(n, o.huge); LOG("add to %ld elements", to); while ((long)ref.size() < to) { int v = newVal(); vint r = list.Add(Val<T>::make(v)); MUST(r >= 0 && r < list.Count() && Val<T>::get(list.Get(r)) == normal<T>(v), "add-result", "Add returned %ld, which does not hold the added element", (long)r); ref.push_back(normal<T>(v)); } } break;
				case 22: { what = "large RemoveRange"; long i = rng.chance(1, 3) ? 0 : rng.range(0, n), c = rng.chance(1, 4) ? n - i : rng.range(0, n - i); LOG("RemoveRange(%ld, %ld)", i, c); MUST(list.RemoveRange(i, c), "removerange-result", "RemoveRange returned false"); ref.erase(ref.begin() + i, ref.begin() + i + c); exact = true; } break;
				case 23: { what = "bulk removal"; long to = std::max(rng.range(0, n), n - 600); LOG("remove one by one until %ld elements", to); while ((long)ref.size() > to) { long i = rng.below((long)ref.size()); MUST(list.RemoveAt(i), "removeat-result", "RemoveAt returned false"); ref.erase(ref.begin() + i); } exact = true; } break;
				default: if constexpr (Val<T>::copyable) { what = "copy"; LOG("copy the list, then change the original"); SortedList<T> tmp(list); compareSeq<T>(tmp, ref, what, true); compareSeq<T>(list, ref, "being copied", true);
						if (rng.chance(1, 2)) { int v = newVal(); vint r = tmp.Add(Val<T>::make(v)); MUST(r >= 0 && r < tmp.Count(), "add-result", "Add on a copy returned %ld", (long)r); auto w = ref; w.push_back(normal<T>(v)); sameBag<T>(contentOf(tmp), w, "Add on a copy"); compareSeq<T>(list, ref, "changing a copy", false); }
						if (rng.chance(1, 2)) { other = std::move(tmp); oref = contentOf(other); } exact = true; }
				}
				if (k >= 20) for (int j = 0; j < 8 && ref.size(); j++) { auto seen = contentOf(list); int v = rng.chance(3, 4) ? seen[rng.below((long)seen.size())] : newVal(); vint r = withKey<T>(v, [&](auto&& key) { return list.IndexOf(key); }); bool had = std::any_of(ref.begin(), ref.end(), [&](int x) { return sameKey<T>(x, v); }); MUST(had ? r >= 0 && r < (vint)seen.size() && sameKey<T>(seen[r], v) : r == -1, "indexof", "IndexOf(%d) is %ld", v, (long)r); }
				op(k, ref.size()); if (ref.size() >= 3) nontrivial();
				auto now = contentOf(list);
				if (exact) compareSeq<T>(list, ref, what, step % 8 == 0);
				sameBag<T>(now, ref, what); ref = now; // adopt the order among equal elements
				if (k >= 14 && k < 20) compareSeq<T>(other, oref, what, true);
				checkLive<T>(o.lifetime, base, (long)(ref.size() + oref.size()), what);
				LOG("  -> %s", show(ref).c_str()); count("state_comparisons");
			}
		}
		scope.check("SortedList history");
		count((std::string("histories_SortedList_") + Val<T>::name).c_str());
	}

	// ---- Dictionary ----------------------------------------------------------------------------------------------
	template<typename T> struct KeyLess { bool operator()(int a, int b) const { return lessKey<T>(a, b); } };
	template<typename K> using KeyMap = std::map<int, int, KeyLess<K>>;
	template<typename K> using GroupMap = std::map<int, std::vector<int>, KeyLess<K>>;

	template<typename K, typename V>
	void compareDict(const Dictionary<K, V>& d, const KeyMap<K>& ref, const char* after, bool deep)
	{
		MUST(d.Count() == (vint)ref.size(), "count", "after %s: Count() is %ld, expected %ld", after, (long)d.Count(), (long)ref.size());
		MUST(d.Keys().Count() == (vint)ref.size() && d.Values().Count() == (vint)ref.size(), "count", "after %s: %ld keys and %ld values for %ld pairs", after, (long)d.Keys().Count(), (long)d.Values().Count(), (long)ref.size());
		vint i = 0;
		for (auto& [k, v] : ref)
		{
			int gk = Val<K>::get(d.Keys().Get(i)), gv = Val<V>::get(d.Values().Get(i));
			MUST(gk == k, "key", "after %s: key %ld is %d, expected %d", after, (long)i, gk, k);
			MUST(gv == v, "value", "after %s: the value of key %d is %d, expected %d", after, k, gv, v);
			i++;
		}
		if (!deep) return;
		auto e = d.CreateEnumerator(); i = 0; auto it = ref.begin();
		while (e->Next())
		{
			MUST(it != ref.end(), "enum-long", "the enumerator yields more pairs than the dictionary holds");
			MUST(e->Index() == i, "enum-index", "enumerator Index() is %ld at pair %ld", (long)e->Index(), (long)i);
			MUST(Val<K>::get(e->Current().key) == it->first && Val<V>::get(e->Current().value) == it->second, "enum-value", "the enumerator yields a wrong pair at %ld", (long)i);
			MUST(&e->Current().key == &d.Keys()[i] && &e->Current().value == &d.Values()[i], "enum-ref", "the enumerator does not refer to the stored pair");
			++it; i++;
		}
		MUST(it == ref.end(), "enum-short", "the enumerator stops after %ld of %ld pairs", (long)i, (long)ref.size());
		delete e;
		for (auto& [k, v] : ref)
		{
			int g1 = withKey<K>(k, [&](auto&& key) { return Val<V>::get(d.Get(key)); }), g2 = withKey<K>(k, [&](auto&& key) { return Val<V>::get(d[key]); });
			MUST(g1 == v && g2 == v, "get", "after %s: key %d reads %d / %d, expected %d", after, k, g1, g2, v);
		}
	}

	template<typename K, typename V>
	void dictHistory(Rng& rng, SeqOpt o)
	{
		LifetimeScope scope; long base = liveCount();
		constexpr bool cc = Val<K>::copyable && Val<V>::copyable;
		{
			using D = Dictionary<K, V>;
			D d, other; KeyMap<K> ref, oref;
			long range = hugeRange<K>(rng, o, rng.pick({ 3L, 16L, 60L, 200L })); int phase = 0; long target = 10, left = 0;
			auto newKey = [&] { return (int)rng.below(range); }; auto newVal = [&] { return (int)rng.below(250); };
			for (long step = 0; step < o.ops; step++)
			{
				if (left-- <= 0) { phase = (int)rng.below(4); left = rng.range(5, 60); target = rng.chance(1, 3) ? rng.range(0, 12) : rng.range(0, o.maxLen); }
				long n = (long)ref.size(); int k;
				if (phase == 0 && n < target) k = (int)rng.pick({ 0, 0, 2 }); else if (phase == 1 && n > target) k = 4; else k = (int)rng.below(15);
				if (n > o.maxLen && k <= 3) k = 4;
				if (o.huge && (step == 0 || rng.chance(1, 2))) k = step == 0 ? 20 : (int)rng.pick({ 20, 21 });
				const char* what = "?"; int key = newKey(), v = newVal(); bool had = ref.count(key) > 0;
				if (k == 0 && had && rng.chance(2, 3)) { for (int j = 0; j < 5 && had; j++) { key = newKey(); had = ref.count(key) > 0; } }
				switch (k)
				{
				case 0: case 1: { what = "Add"; int form = cc ? (int)rng.below(6) : 0; LOG("Add[%d](%d, %d)%s", form, key, v, had ? " (exists)" : ""); bool r = false;
						bool rej = rejected([&] {
							if constexpr (cc) switch (form)
							{
							case 1: { const K a = Val<K>::make(key); const V b = Val<V>::make(v); r = d.Add(a, b); } return;
							case 2: { const K a = Val<K>::make(key); r = d.Add(a, Val<V>::make(v)); } return;
							case 3: { const V b = Val<V>::make(v); r = d.Add(Val<K>::make(key), b); } return;
							case 4: { const Pair<K, V> p(Val<K>::make(key), Val<V>::make(v)); r = d.Add(p); } return;
							case 5: { Pair<K, V> p(Val<K>::make(key), Val<V>::make(v)); r = d.Add(std::move(p)); } return;
							}
							r = d.Add(Val<K>::make(key), Val<V>::make(v)); });
						MUST(rej == had, "add-contract", "Add of %s key %d %s", had ? "the existing" : "the new", key, rej ? "raised an error" : "was accepted");
						if (!had) { MUST(r, "add-result", "Add returned false"); ref[key] = v; } else count("duplicate_keys_rejected"); } break;
				case 2: case 3: { what = "Set"; int form = cc ? (int)rng.below(4) : 0; LOG("Set[%d](%d, %d)", form, key, v); bool r = false;
						if constexpr (cc) switch (form)
						{
						case 1: { const K a = Val<K>::make(key); const V b = Val<V>::make(v); r = d.Set(a, b); MUST(Val<V>::get(b) == v && Val<K>::get(a) == key, "arg-changed", "Set changed its const arguments"); } break;
						case 2: { const K a = Val<K>::make(key); r = d.Set(a, Val<V>::make(v)); } break;
						case 3: { const V b = Val<V>::make(v); r = d.Set(Val<K>::make(key), b); } break;
						}
						if (form == 0) r = d.Set(Val<K>::make(key), Val<V>::make(v));
						MUST(r, "set-result", "Set returned false"); ref[key] = v; } break;
				case 4: case 5: { what = "Remove"; if (n && rng.chance(2, 3)) { auto it = ref.begin(); std::advance(it, rng.below(n)); key = it->first; had = true; } LOG("Remove(%d)", key);
						bool r = withKey<K>(key, [&](auto&& x) { return d.Remove(x); }); MUST(r == had, "remove-result", "Remove(%d) returned %d", key, (int)r); ref.erase(key); } break;
				case 6: case 7: case 8: { what = "Get"; int g = -1; LOG("Get(%d)", key);
						bool rej = rejected([&] { g = withKey<K>(key, [&](auto&& x) { return Val<V>::get(rng.chance(1, 2) ? d.Get(x) : d[x]); }); });
						MUST(rej == !had, "get-contract", "reading key %d (%s) %s", key, had ? "present" : "missing", rej ? "raised an error" : "returned");
						if (had) MUST(g == ref[key], "get", "key %d reads %d, expected %d", key, g, ref[key]);
						bool c = withKey<K>(key, [&](auto&& x) { return d.Keys().Contains(x); }); vint ix = withKey<K>(key, [&](auto&& x) { return d.Keys().IndexOf(x); });
						MUST(c == had, "contains", "Keys().Contains(%d) is %d", key, (int)c);
						vint want = had ? (vint)std::distance(ref.begin(), ref.find(key)) : -1; MUST(ix == want, "indexof", "Keys().IndexOf(%d) is %ld, expected %ld", key, (long)ix, (long)want); } break;
				case 9: if (rng.chance(1, 4)) { what = "Clear"; LOG("Clear()"); MUST(d.Clear(), "clear-result", "Clear returned false"); ref.clear(); } break;
				case 10: { what = "move construction"; LOG("move construct"); D tmp(std::move(d)); compareDict<K, V>(d, {}, "being moved from", true); compareDict(tmp, ref, what, true); d = std::move(tmp); compareDict<K, V>(tmp, {}, "being moved from", true); } break;
				case 11: { what = "move assignment"; LOG("move assign to the other dictionary"); other = std::move(d); oref = ref; ref.clear(); } break;
				case 12: { what = "exchange"; LOG("exchange"); D tmp(std::move(d)); d = std::move(other); other = std::move(tmp); std::swap(ref, oref); } break;
				case 20: { what = "bulk set"; long c = rng.range(1, o.huge), dir = rng.below(3), from = rng.below(range); LOG("set %ld keys", c); for (long j = 0; j < c; j++) { int a = (int)(dir == 0 ? rng.below(range) : dir == 1 ? (from + j) % range : (from + range * 2 - 1 - j % range) % range), b = newVal(); if (ref.count(a) && rng.chance(3, 4)) continue; if (!ref.count(a) && rng.chance(1, 2)) d.Add(Val<K>::make(a), Val<V>::make(b)); else d.Set(Val<K>::make(a), Val<V>::make(b)); ref[a] = b; } } break;
				case 21: { what = "bulk removal"; long to = std::max(rng.range(0, n), n - 600), where = rng.below(3); LOG("remove keys until %ld are left", to); while ((long)ref.size() > to) { auto it = where == 0 ? ref.begin() : where == 1 ? std::prev(ref.end()) : ref.lower_bound((int)rng.below(range)); if (it == ref.end()) it = ref.begin(); int a = it->first; MUST(withKey<K>(a, [&](auto&& x) { return d.Remove(x); }), "remove-result", "Remove(%d) returned false", a); ref.erase(it); } } break;
				default: { what = "batch"; long c = rng.range(1, 12); LOG("set %ld pairs", c); for (long j = 0; j < c && (long)ref.size() < o.maxLen; j++) { int a = newKey(), b = newVal(); d.Set(Val<K>::make(a), Val<V>::make(b)); ref[a] = b; } }
				}
				op(k * 2 + had, ref.size()); if (ref.size() >= 2) nontrivial();
				compareDict(d, ref, what, step % 6 == 0); if (k >= 11 && k <= 12) compareDict(other, oref, what, true);
				checkLive<K>(o.lifetime, base, (long)(ref.size() + oref.size()) * (Val<V>::tracked ? 2 : 1), what);
				count("state_comparisons");
			}
		}
		scope.check("Dictionary history");
		count((std::string("histories_Dictionary_") + Val<K>::name + "_" + Val<V>::name).c_str());
	}

	// ---- Group ---------------------------------------------------------------------------------------------------
	template<typename K, typename V>
	void compareGroup(const Group<K, V>& g, const GroupMap<K>& ref, const char* after, bool deep)
	{
		MUST(g.Count() == (vint)ref.size() && g.Keys().Count() == (vint)ref.size(), "count", "after %s: Count() is %ld, expected %ld keys", after, (long)g.Count(), (long)ref.size());
		vint i = 0;
		for (auto& [k, vs] : ref)
		{
			int gk = Val<K>::get(g.Keys().Get(i)); MUST(gk == k, "key", "after %s: key %ld is %d, expected %d", after, (long)i, gk, k);
			compareSeq<V>(g.GetByIndex(i), vs, after, false); i++;
		}
		if (!deep) return;
		auto e = g.CreateEnumerator(); i = 0; auto it = ref.begin(); size_t vi = 0;
		while (e->Next())
		{
			MUST(it != ref.end(), "enum-long", "the enumerator yields more pairs than the group holds");
			MUST(e->Index() == i, "enum-index", "enumerator Index() is %ld at pair %ld", (long)e->Index(), (long)i);
			MUST(Val<K>::get(e->Current().key) == it->first && Val<V>::get(e->Current().value) == it->second[vi], "enum-value", "the enumerator yields a wrong pair at %ld", (long)i);
			if (++vi == it->second.size()) { ++it; vi = 0; } i++;
		}
		MUST(it == ref.end(), "enum-short", "the enumerator stops after %ld pairs", (long)i);
		delete e;
		for (auto& [k, vs] : ref)
		{
			withKey<K>(k, [&](auto&& key) { compareSeq<V>(g.Get(key), vs, after, false); compareSeq<V>(g[key], vs, after, false); MUST(g.Contains(key), "contains", "Contains(%d) is false", k); return 0; });
		}
	}

	template<typename K, typename V>
	void groupHistory(Rng& rng, SeqOpt o)
	{
		LifetimeScope scope; long base = liveCount();
		constexpr bool cc = Val<K>::copyable && Val<V>::copyable;
		auto total = [](const GroupMap<K>& m) { long s = 0; for (auto& [k, v] : m) s += (long)v.size(); return s; };
		auto live = [&](const GroupMap<K>& m) { return (Val<K>::tracked ? (long)m.size() : 0) + (Val<V>::tracked ? total(m) : 0); };
		{
			using G = Group<K, V>;
			G d, other; GroupMap<K> ref, oref;
			long range = hugeRange<K>(rng, o, rng.pick({ 2L, 5L, 16L, 60L })), vrange = o.huge ? 200 : rng.pick({ 2L, 6L, 40L }); int phase = 0; long target = 10, left = 0;
			auto newKey = [&] { return (int)rng.below(range); }; auto newVal = [&] { return (int)rng.below(vrange); };
			for (long step = 0; step < o.ops; step++)
			{
				if (left-- <= 0) { phase = (int)rng.below(4); left = rng.range(5, 50); target = rng.chance(1, 3) ? rng.range(0, 12) : rng.range(0, o.maxLen); }
				long n = total(ref); int k;
				if (phase == 0 && n < target) k = 0; else if (phase == 1 && n > target) k = (int)rng.pick({ 2, 3, 3, 3 }); else k = (int)rng.below(15);
				if (n > o.maxLen && k <= 1) k = 2;
				if (o.huge && (step == 0 || rng.chance(1, 2))) k = step == 0 ? 20 : (int)rng.pick({ 20, 21, 22 });
				const char* what = "?"; int key = newKey(), v = newVal(); bool had = ref.count(key) > 0;
				if (!had && ref.size() && rng.chance(1, 2)) { auto it = ref.begin(); std::advance(it, rng.below((long)ref.size())); key = it->first; had = true; }
				switch (k)
				{
				case 0: case 1: { what = "Add"; int form = cc ? (int)rng.below(6) : 0; LOG("Add[%d](%d, %d)", form, key, v); bool r = false;
						if constexpr (cc) switch (form)
						{
						case 1: { const K a = Val<K>::make(key); const V b = Val<V>::make(v); r = d.Add(a, b); MUST(Val<V>::get(b) == v && Val<K>::get(a) == key, "arg-changed", "Add changed its const arguments"); } break;
						case 2: { const K a = Val<K>::make(key); r = d.Add(a, Val<V>::make(v)); } break;
						case 3: { const V b = Val<V>::make(v); r = d.Add(Val<K>::make(key), b); } break;
						case 4: { const Pair<K, V> p(Val<K>::make(key), Val<V>::make(v)); r = d.Add(p); } break;
						case 5: { Pair<K, V> p(Val<K>::make(key), Val<V>::make(v)); r = d.Add(std::move(p)); } break;
						}
						if (form == 0) r = d.Add(Val<K>::make(key), Val<V>::make(v));
						MUST(r, "add-result", "Add returned false"); ref[key].push_back(v); } break;
				case 2: { what = "Remove(key)"; LOG("Remove(%d)", key); bool r = withKey<K>(key, [&](auto&& x) { return d.Remove(x); }); MUST(r == had, "remove-result", "Remove(%d) returned %d", key, (int)r); ref.erase(key); } break;
				case 3: case 4: case 5: { what = "Remove(key, value)"; LOG("Remove(%d, %d)", key, v);
						bool r = withKey<K>(key, [&](auto&& x) { return withKey<V>(v, [&](auto&& y) { return d.Remove(x, y); }); });
						bool want = false; if (had) { auto& vs = ref[key]; auto it = std::find(vs.begin(), vs.end(), v); if (it != vs.end()) { want = true; vs.erase(it); if (vs.empty()) ref.erase(key); } }
						MUST(r == want, "remove-result", "Remove(%d, %d) returned %d, expected %d", key, v, (int)r, (int)want); } break;
				case 6: case 7: case 8: { what = "Get"; std::vector<int> got; LOG("Get(%d)", key);
						bool rej = rejected([&] { withKey<K>(key, [&](auto&& x) { auto& l = rng.chance(1, 2) ? d.Get(x) : d[x]; for (vint i = 0; i < l.Count(); i++) got.push_back(Val<V>::get(l[i])); return 0; }); });
						MUST(rej == !had, "get-contract", "reading key %d (%s) %s", key, had ? "present" : "missing", rej ? "raised an error" : "returned");
						if (had) MUST(got == ref[key], "get", "key %d reads wrong values", key);
						bool c = withKey<K>(key, [&](auto&& x) { return d.Contains(x); }); MUST(c == had, "contains", "Contains(%d) is %d", key, (int)c);
						bool c2 = withKey<K>(key, [&](auto&& x) { return withKey<V>(v, [&](auto&& y) { return d.Contains(x, y); }); });
						bool w2 = had && std::find(ref[key].begin(), ref[key].end(), v) != ref[key].end(); MUST(c2 == w2, "contains", "Contains(%d, %d) is %d", key, v, (int)c2); } break;
				case 9: if (rng.chance(1, 4)) { what = "Clear"; LOG("Clear()"); MUST(d.Clear(), "clear-result", "Clear returned false"); ref.clear(); } break;
				case 10: { what = "move construction"; LOG("move construct"); G tmp(std::move(d)); compareGroup<K, V>(d, {}, "being moved from", true); compareGroup(tmp, ref, what, true); d = std::move(tmp); compareGroup<K, V>(tmp, {}, "being moved from", true); } break;
				case 11: { what = "move assignment"; LOG("move assign to the other group"); other = std::move(d); oref = ref; ref.clear(); } break;
				case 12: { what = "exchange"; LOG("exchange"); G tmp(std::move(d)); d = std::move(other); other = std::move(tmp); std::swap(ref, oref); } break;
				case 20: { what = "bulk add"; long c = rng.range(1, o.huge); LOG("add %ld pairs", c); for (long j = 0; j < c && n + j < 2 * o.huge; j++) { int a = newKey(), b = newVal(); d.Add(Val<K>::make(a), Val<V>::make(b)); ref[a].push_back(b); } } break;
				case 21: { what = "bulk add to one key"; long c = rng.range(1, o.huge); LOG("add %ld values to %d", c, key); for (long j = 0; j < c && n + j < 2 * o.huge; j++) { int b = newVal(); d.Add(Val<K>::make(key), Val<V>::make(b)); ref[key].push_back(b); } } break;
				case 22: { what = "bulk removal"; long to = std::max(rng.range(0, n), n - 600); LOG("remove until %ld pairs are left", to); for (long m = n; m > to;) { auto it = ref.lower_bound((int)rng.below(range)); if (it == ref.end()) it = ref.begin(); int a = it->first, b = it->second[rng.below((long)it->second.size())];
						MUST(withKey<K>(a, [&](auto&& x) { return withKey<V>(b, [&](auto&& y) { return d.Remove(x, y); }); }), "remove-result", "Remove(%d, %d) returned false", a, b); auto& vs = it->second; vs.erase(std::find(vs.begin(), vs.end(), b)); if (vs.empty()) ref.erase(it); m--; } } break;
				default: { what = "batch"; long c = rng.range(1, 12); LOG("add %ld pairs", c); for (long j = 0; j < c && total(ref) < o.maxLen; j++) { int a = newKey(), b = newVal(); d.Add(Val<K>::make(a), Val<V>::make(b)); ref[a].push_back(b); } }
				}
				op(k * 2 + had, total(ref) * 64 + ref.size()); if (total(ref) >= 2) nontrivial();
				compareGroup(d, ref, what, step % 6 == 0); if (k >= 11 && k <= 12) compareGroup(other, oref, what, true);
				if constexpr (Val<K>::tracked || Val<V>::tracked) if (o.lifetime) MUST(liveCount() - base == live(ref) + live(oref), "live-count", "after %s: %ld elements are alive, the groups hold %ld", what, liveCount() - base, live(ref) + live(oref));
				count("state_comparisons");
			}
		}
		scope.check("Group history");
		count((std::string("histories_Group_") + Val<K>::name + "_" + Val<V>::name).c_str());
	}
}
