#include "map.h"
using namespace H;
// elements owning heap memory inside containers of containers
#define FOUR(NAME, T) \
	SCENARIO(list_##NAME, 2) { listHistory<T>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 200 : 30, 90, true }, 15, cheap<T>)); } \
	SCENARIO(array_##NAME, 1) { arrayHistory<T>(rng, maybeHuge(rng, { 40, 40, true }, 15, true)); } \
	SCENARIO(sorted_##NAME, 1) { sortedHistory<T>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 120 : 25, 60, true }, 15, cheap<T>)); }
#if PART == 0
FOUR(tracked, Tracked)
const char* const harnessProperty = "C02";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
FOUR(moveonly, MoveOnly)
#elif PART == 2
FOUR(copyonly, CopyOnly)
#elif PART == 3
FOUR(trivassign, TrivAssign)
#elif PART == 4
SCENARIO(dict_tracked, 2) { dictHistory<Tracked, Tracked>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<Tracked>&&cheap<Tracked>)); }
SCENARIO(dict_moveonly, 2) { dictHistory<MoveOnly, MoveOnly>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<MoveOnly>&&cheap<MoveOnly>)); }
SCENARIO(dict_copyonly, 2) { dictHistory<CopyOnly, TrivAssign>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<CopyOnly>&&cheap<TrivAssign>)); }
#elif PART == 5
SCENARIO(group_tracked, 2) { groupHistory<Tracked, Tracked>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<Tracked>&&cheap<Tracked>)); }
SCENARIO(group_moveonly, 2) { groupHistory<MoveOnly, MoveOnly>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<MoveOnly>&&cheap<MoveOnly>)); }
SCENARIO(group_copyonly, 2) { groupHistory<CopyOnly, TrivAssign>(rng, maybeHuge(rng, { 60, 60, true }, 15, cheap<CopyOnly>&&cheap<TrivAssign>)); }
#elif PART == 6
// containers of containers and of shared objects: nothing leaks, nothing is freed twice (ASan/LSan decide)
SCENARIO(nested, 2)
{
	LifetimeScope scope;
	{
		List<List<Tracked>> ll; std::vector<std::vector<int>> ref;
		Dictionary<vint, List<Tracked>> dl; std::map<vint, std::vector<int>> dref;
		auto mk = [&](std::vector<int>& r) { List<Tracked> l; long n = rng.range(0, 6); for (long i = 0; i < n; i++) { int v = (int)rng.below(100); l.Add(Tracked(v)); r.push_back(v); } return l; };
		for (int step = 0; step < 40; step++)
		{
			int k = (int)rng.below(8); long n = (long)ref.size();
			if (k < 2) { std::vector<int> r; auto l = mk(r); long i = rng.range(0, n); ll.Insert(i, std::move(l)); ref.insert(ref.begin() + i, r); }
			else if (k == 2 && n) { long i = rng.below(n); ll.RemoveAt(i); ref.erase(ref.begin() + i); }
			else if (k == 3 && n) { long i = rng.below(n); int v = (int)rng.below(100); ll[i].Add(Tracked(v)); ref[i].push_back(v); }
			else if (k == 4 && n) { long i = rng.below(n); std::vector<int> r; ll.Set(i, mk(r)); ref[i] = r; }
			else if (k == 5) { vint key = rng.below(8); std::vector<int> r; dl.Set(std::move(key), mk(r)); dref[key] = r; }
			else if (k == 6) { vint key = rng.below(8); bool had = dref.erase(key) > 0; MUST(dl.Remove(key) == had, "remove-result", "Remove returned a wrong value"); }
			else if (k == 7 && n > 2) { long i = rng.below(n), c = rng.range(0, n - i); ll.RemoveRange(i, c); ref.erase(ref.begin() + i, ref.begin() + i + c); }
			long held = 0;
			MUST(ll.Count() == (vint)ref.size() && dl.Count() == (vint)dref.size(), "count", "wrong number of inner containers");
			for (vint i = 0; i < ll.Count(); i++) { compareSeq<Tracked>(ll[i], ref[i], "nested list operation", false); held += (long)ref[i].size(); }
			vint j = 0; for (auto& [key, r] : dref) { MUST(dl.Keys()[j] == key, "key", "wrong key"); compareSeq<Tracked>(dl.Values()[j++], r, "nested dictionary operation", false); held += (long)r.size(); }
			MUST(liveCount() - scope.before == held, "live-count", "%ld elements are alive, the containers hold %ld", liveCount() - scope.before, held);
			op(k, held); if (held > 3) nontrivial(); count("state_comparisons");
		}
	}
	scope.check("nested containers");
}
// elements that need a stricter alignment than the heap gives by default are never constructed elsewhere
template<size_t A> struct alignas(A) Wide { Tracked t; explicit Wide(int v = 0) : t(v) { self(); } Wide(const Wide& o) : t(o.t) { self(); } Wide(Wide&& o) : t(std::move(o.t)) { self(); } Wide& operator=(const Wide&) = default; Wide& operator=(Wide&&) = default; void self() const { if ((uintptr_t)this % A) VIOLATION("alignment", "an element is constructed at a misaligned address"); } bool operator==(const Wide& o) const { return t == o.t; } std::strong_ordering operator<=>(const Wide& o) const { return t <=> o.t; } };
template<size_t A> void aligned(Rng& rng)
{
	LifetimeScope scope; using W = Wide<A>;
	{
		List<W> l; std::vector<int> r; Array<W> a; std::vector<int> ar; SortedList<W> sl; Dictionary<W, W> d; std::map<int, int> dr; std::multiset<int> sr; long n = rng.range(3, 60);
		for (long i = 0; i < n; i++)
		{
			int k = (int)rng.below(7), v = (int)rng.below(40); long c = (long)r.size(), at = rng.range(0, c); op((u64)k, (u64)c);
			if (k < 2) { l.Insert(at, W(v)); r.insert(r.begin() + at, v); } else if (k == 2 && at < c) { l.RemoveAt(at); r.erase(r.begin() + at); } else if (k == 3) { long s = rng.range(0, 20); a.Resize(s); ar.resize(s, 0); if (s) { long q = rng.below(s); a.Set(q, W(v)); ar[q] = v; } } else if (k == 4) { sl.Add(W(v)); sr.insert(v); } else if (k == 5) { d.Set(W(v), W(v + 1)); dr[v] = v + 1; } else if (k == 6) { MUST(d.Remove(W(v)) == (dr.erase(v) > 0), "remove-result", "Remove returned a wrong value"); }
			MUST(l.Count() == (vint)r.size() && a.Count() == (vint)ar.size() && sl.Count() == (vint)sr.size() && d.Count() == (vint)dr.size(), "count", "wrong number of aligned elements"); for (vint j = 0; j < l.Count(); j++) { l[j].self(); MUST(l[j].t.v() == r[j], "content", "an aligned element has a wrong value"); } for (vint j = 0; j < a.Count(); j++) { a[j].self(); MUST(a[j].t.v() == ar[j], "content", "an aligned element has a wrong value"); } vint j = 0; for (auto x : sr) { sl[j].self(); MUST(sl[j++].t.v() == x, "content", "an aligned element has a wrong value"); } j = 0; for (auto& [x, y] : dr) { MUST(d.Keys()[j].t.v() == x && d.Values()[j].t.v() == y, "content", "an aligned element has a wrong value"); j++; }
			MUST(liveCount() - scope.before == (long)(r.size() + ar.size() + sr.size() + 2 * dr.size()), "live-count", "the number of living aligned elements is wrong"); nontrivial(); count("aligned_states");
		}
	}
	scope.check("aligned elements");
}
SCENARIO(aligned_32, 1) { aligned<32>(rng); }
SCENARIO(aligned_128, 1) { aligned<128>(rng); }
#endif
