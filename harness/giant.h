#pragma once
// Containers far larger than any block, buffer or counter boundary (up to about 130,000 elements of a plain type): few operations, exact model.
#include "map.h"
namespace H
{
	inline long giantSize(Rng& rng) { return rng.pick({ 5000L, 9000L, 17000L, 17000L, 33000L, 33000L, 66000L, rng.chance(1, 3) ? 132000L : 66000L }) + rng.range(-5, 700); }
	inline vint giantValue(long i) { return (vint)((unsigned long)i * 2654435761ul); }
	template<typename C, typename M> void giantSame(const C& l, const M& ref, const char* after)
	{
		MUST(l.Count() == (vint)ref.size(), "giant-count", "after %s: Count() is %ld, expected %ld", after, (long)l.Count(), (long)ref.size());
		long i = 0; for (auto v : ref) { MUST(l[i] == v, "giant-content", "after %s: element %ld of %ld is %ld, expected %ld", after, i, (long)ref.size(), (long)l[i], (long)v); i++; }
		count("giant_comparisons");
	}
	inline void giantList(Rng& rng)
	{
		long n = giantSize(rng), next = 0; List<vint> l; std::vector<vint> ref; LOG("a list of about %ld elements", n);
		while ((long)ref.size() < n) { long k = rng.pick({ 1L, 700L, n, n / 3 }); if (k == 1) { for (long j = 0; j < 900; j++) { vint v = giantValue(next++); l.Add(v); ref.push_back(v); } continue; } std::vector<vint> a; for (long j = 0; j < k; j++) a.push_back(giantValue(next++)); Array<vint> block(a.data(), (vint)a.size()); CopyFrom(l, block, true); ref.insert(ref.end(), a.begin(), a.end()); if (rng.chance(1, 3)) { vint v = giantValue(next++); l.Insert(0, v); ref.insert(ref.begin(), v); } }
		giantSame(l, ref, "building");
		for (int s = 0; s < 10; s++)
		{
			long sz = (long)ref.size(), k = (long)rng.below(8), at = sz ? rng.range(0, sz - 1) : 0; op(k, at % 64); LOG("operation %ld at %ld of %ld", k, at, sz);
			if (k == 0) { vint v = giantValue(next++); l.Insert(at, v); ref.insert(ref.begin() + at, v); }
			else if (k == 1 && sz) { MUST(l.RemoveAt(at), "giant", "RemoveAt"); ref.erase(ref.begin() + at); }
			else if (k == 2 && sz) { long c = rng.chance(1, 6) ? sz - at : rng.range(0, std::min<long>(sz - at, rng.pick({ 10L, 5000L, 100000L }))); MUST(l.RemoveRange(at, c), "giant", "RemoveRange"); ref.erase(ref.begin() + at, ref.begin() + at + c); }
			else if (k == 3 && sz) { vint v = ref[(size_t)at]; MUST(l.IndexOf(v) == at && l.Contains(v), "giant-indexof", "IndexOf reports %ld, expected %ld", (long)l.IndexOf(v), at); MUST(l.Remove(v), "giant", "Remove"); ref.erase(ref.begin() + at); }
			else if (k == 4) { List<vint> o(std::move(l)); MUST(l.Count() == 0, "giant", "a moved-from list is not empty"); l = std::move(o); }
			else if (k == 5 && sz) { vint v = giantValue(next++); l.Set(at, v); ref[(size_t)at] = v; }
			else if (k == 6) { Array<vint> a(sz); for (long i = 0; i < sz; i++) a[i] = ref[(size_t)i]; giantSame(a, ref, "filling an array"); long m = rng.chance(1, 2) ? sz * 2 + 1 : sz / 2; a.Resize(m); MUST(a.Count() == m, "giant", "Resize"); for (long i = 0; i < std::min(m, sz); i++) MUST(a[i] == ref[(size_t)i], "giant-resize", "element %ld changed", i); }
			else { long i = 0; for (vint v : l) { MUST(i < sz && v == ref[(size_t)i], "giant-loop", "a loop yields a wrong element at %ld", i); i++; } MUST(i == sz, "giant-loop", "a loop yields %ld of %ld elements", i, sz); }
			giantSame(l, ref, "an operation"); nontrivial();
		}
		count("giant_histories");
	}
	inline void giantSorted(Rng& rng)
	{
		long n = giantSize(rng); SortedList<vint> l; std::vector<vint> ref; long step = rng.pick({ 1L, 2L, 3L }); LOG("a sorted list of %ld elements", n);
		for (long i = 0; i < n; i++) { vint v = i / step * 3 - n; l.Add(v); ref.push_back(v); } giantSame(l, ref, "building");
		for (int s = 0; s < 30; s++)
		{
			vint v = rng.chance(1, 6) ? rng.pick({ ref.front(), ref.back(), ref.front() - 1, ref.back() + 1 }) : rng.range(-n - 3, n / step * 3 - n + 5); auto lo = std::lower_bound(ref.begin(), ref.end(), v), hi = std::upper_bound(ref.begin(), ref.end(), v); bool had = lo != hi; int k = (int)rng.below(3); op(k, had);
			if (k == 0) { vint i = l.Add(v); MUST(i >= lo - ref.begin() && i <= hi - ref.begin(), "giant-add", "Add(%ld) reports position %ld, expected %ld to %ld", (long)v, (long)i, (long)(lo - ref.begin()), (long)(hi - ref.begin())); ref.insert(hi, v); }
			else if (k == 1) { vint i = l.IndexOf(v); MUST(had ? i >= lo - ref.begin() && i < hi - ref.begin() : i == -1, "giant-indexof", "IndexOf(%ld) is %ld", (long)v, (long)i); MUST(l.Contains(v) == had, "giant-contains", "Contains is wrong"); }
			else { MUST(l.Remove(v) == had, "giant-remove", "Remove(%ld) is wrong", (long)v); if (had) ref.erase(lo); }
			if (s % 6 == 5) { giantSame(l, ref, "operations"); nontrivial(); }
		}
		count("giant_histories");
	}
	inline void giantDict(Rng& rng)
	{
		long n = giantSize(rng); Dictionary<vint, vint> d; std::map<vint, vint> ref; bool down = n < 10000 && rng.chance(1, 2); LOG("a dictionary of %ld entries", n);
		for (long i = 0; i < n; i++) { vint k = (down ? n - i : i) * 2; d.Add(k, giantValue(i)); ref[k] = giantValue(i); }
		auto same = [&](const char* after) { MUST(d.Count() == (vint)ref.size() && d.Keys().Count() == d.Count() && d.Values().Count() == d.Count(), "giant-count", "after %s: Count() is %ld, expected %ld", after, (long)d.Count(), (long)ref.size()); long i = 0; for (auto& p : ref) { MUST(d.Keys()[i] == p.first && d.Values()[i] == p.second, "giant-content", "after %s: entry %ld is wrong", after, i); i++; } count("giant_comparisons"); };
		same("building");
		for (int s = 0; s < 30; s++)
		{
			vint k = rng.range(-3, 2 * n + 5), v = giantValue(n + s); bool had = ref.count(k); int c = (int)rng.below(4); op(c, had);
			if (c == 0) { d.Set(k, v); ref[k] = v; }
			else if (c == 1) { bool r = rejected([&] { d.Add(k, v); }); MUST(r == had, "giant-add", "Add of %s key", had ? "an existing" : "a new"); if (!had) ref[k] = v; }
			else if (c == 2) { MUST(d.Remove(k) == had, "giant-remove", "Remove"); ref.erase(k); }
			else { MUST(d.Keys().Contains(k) == had, "giant-contains", "Contains"); vint i = d.Keys().IndexOf(k); MUST((i != -1) == had, "giant-indexof", "IndexOf"); if (had) MUST(d.Get(k) == ref[k] && d[k] == ref[k], "giant-get", "Get"); else MUST(rejected([&] { d.Get(k); }), "giant-get", "Get of a missing key"); }
			if (s % 6 == 5) { same("operations"); nontrivial(); }
		}
		count("giant_histories");
	}
	inline void giantGroup(Rng& rng)
	{
		long n = giantSize(rng), keys = rng.pick({ 1L, 2L, 300L, n / 2, n }); if (keys > 20000) n = keys = 17000 + rng.range(0, 900); Group<vint, vint> g; std::map<vint, std::vector<vint>> ref; LOG("a group of %ld values under %ld keys", n, keys);
		for (long i = 0; i < n; i++) { vint k = i % keys; MUST(g.Add(k, giantValue(i)), "giant-add", "Add"); ref[k].push_back(giantValue(i)); }
		auto same = [&](const char* after) { MUST(g.Count() == (vint)ref.size(), "giant-count", "after %s: Count() is %ld, expected %ld", after, (long)g.Count(), (long)ref.size()); long i = 0; for (auto& p : ref) { MUST(g.Keys()[i] == p.first, "giant-keys", "after %s: key %ld is wrong", after, i); auto& l = g.GetByIndex(i); MUST(l.Count() == (vint)p.second.size(), "giant-values", "after %s: key %ld has %ld values, expected %ld", after, (long)p.first, (long)l.Count(), (long)p.second.size()); for (vint j = 0; j < l.Count(); j++) MUST(l[j] == p.second[(size_t)j], "giant-values", "after %s: value %ld of key %ld is wrong", after, (long)j, (long)p.first); i++; } count("giant_comparisons"); };
		same("building");
		for (int s = 0; s < 24; s++)
		{
			vint k = rng.range(0, keys + (rng.chance(1, 4) ? 2 : -1)), v = giantValue(n + s); bool had = ref.count(k); int c = (int)rng.below(4); op(c, had);
			if (c == 0) { g.Add(k, v); ref[k].push_back(v); }
			else if (c == 1) { if (had) { auto& l = ref[k]; long at = rng.range(0, (long)l.size() - 1); vint w = l[(size_t)at]; MUST(g.Contains(k, w), "giant-contains", "Contains"); MUST(g.Remove(k, w), "giant-remove", "Remove"); l.erase(std::find(l.begin(), l.end(), w)); if (l.empty()) ref.erase(k); } else MUST(!g.Remove(k, v), "giant-remove", "Remove of a missing key"); }
			else if (c == 2 && rng.chance(1, 3)) { MUST(g.Remove(k) == had, "giant-remove", "Remove of a key"); ref.erase(k); }
			else { MUST(g.Contains(k) == had && !g.Contains(k, v), "giant-contains", "Contains"); if (had) MUST(g.Get(k).Count() == (vint)ref[k].size() && g[k].Count() == (vint)ref[k].size(), "giant-get", "Get"); }
			if (s % 6 == 5) { same("operations"); nontrivial(); }
		}
		count("giant_histories");
	}
}
