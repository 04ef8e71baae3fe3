#include "map.h"
#include "giant.h"
#include <cmath>
using namespace H;
#define ONE(NAME, K, V) SCENARIO(group_##NAME, 2) { groupHistory<K, V>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 200 : 40, 120, false }, 15, cheap<K>&&cheap<V>)); }
#define JOIN(NAME, K, V, W) SCENARIO(join_##NAME, 2) { joinCase<K, V, W>(rng); }
template<typename K, typename V, typename W>
void joinCase(Rng& rng)
{
	Group<K, V> a; Group<K, W> b; GroupMap<K> ra, rb; long range = rng.pick({ 1L, 3L, 8L, 40L, 150L });
	bool many = rng.chance(1, 12); if (many) { range = rng.pick({ 300L, 900L, 2000L }); vintShift() = 49; count("large_joins"); }
	long na = rng.chance(1, 6) ? 0 : rng.range(0, many ? 600 : 40), nb = rng.chance(1, 6) ? 0 : rng.range(0, many ? 600 : 40), lo = rng.chance(1, 4) ? range / 2 : 0; if (rng.chance(1, 5)) { na = rng.range(0, 3); nb = rng.range(0, 3); range = rng.range(2, 5); lo = 0; }
	for (long i = 0; i < na; i++) { int k = (int)rng.below(range), v = (int)rng.below(30); a.Add(Val<K>::make(k), Val<V>::make(v)); ra[k].push_back(v); }
	for (long i = 0; i < nb; i++) { int k = (int)(lo + rng.below(range)), v = (int)rng.below(30); b.Add(Val<K>::make(k), Val<W>::make(v)); rb[k].push_back(v); }
	std::vector<std::pair<int, int>> events; // (key, 1 = first only, 2 = second only, 3 = both)
	auto vals = [](auto& l, auto* tag) { std::vector<int> r; for (vint i = 0; i < l.Count(); i++) r.push_back(Val<std::remove_cvref_t<decltype(*tag)>>::get(l[i])); return r; };
	GroupInnerJoin(a, b,
		[&](const K& key, const List<V>& vs) { int k = Val<K>::get(key); MUST(ra.count(k) && vals(vs, (V*)0) == ra[k], "join-values", "discarded-first values of key %d are wrong", k); events.push_back({ k, 1 }); },
		[&](const K& key, const List<W>& vs) { int k = Val<K>::get(key); MUST(rb.count(k) && vals(vs, (W*)0) == rb[k], "join-values", "discarded-second values of key %d are wrong", k); events.push_back({ k, 2 }); },
		[&](const K& key, const List<V>& vs, const List<W>& ws) { int k = Val<K>::get(key); MUST(ra.count(k) && rb.count(k) && vals(vs, (V*)0) == ra[k] && vals(ws, (W*)0) == rb[k], "join-values", "accepted values of key %d are wrong", k); events.push_back({ k, 3 }); });
	std::vector<std::pair<int, int>> want; GroupMap<K> all = ra; for (auto& [k, v] : rb) all[k];
	for (auto& [k, v] : all) want.push_back({ k, (ra.count(k) ? 1 : 0) + (rb.count(k) ? 2 : 0) });
	MUST(events == want, "join-events", "the join reported %ld events, expected %ld in ascending key order, each key once with its kind", (long)events.size(), (long)want.size());
	compareGroup(a, ra, "joining", true); compareGroup(b, rb, "joining", true);
	for (auto& [k, c] : want) op(k, c); op(want.size()); LOG("join of %ld and %ld keys: %ld events", (long)ra.size(), (long)rb.size(), (long)events.size());
	if (ra.size() && rb.size()) nontrivial(); count("join_events", events.size());
}
#if PART == 0
SCENARIO(giant, 1) { if (rng.chance(1, 3)) giantGroup(rng); else groupHistory<vint, vint>(rng, { 40, 120, false }); }
ONE(vint_wstring, vint, WString)
const char* const harnessProperty = "C06";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
ONE(wstring_vint, WString, vint)
ONE(tracked_tracked, Tracked, Tracked)
#elif PART == 2
ONE(moveonly_moveonly, MoveOnly, MoveOnly)
ONE(ptr_ptr, Ptr<Box>, Ptr<Box>)
#elif PART == 3
JOIN(vint, vint, WString, vint)
JOIN(wstring, WString, vint, Tracked)
JOIN(ptr, Ptr<Box>, Tracked, Ptr<Box>)
#elif PART == 4
ONE(com_com, ComPtr<ComBox>, ComPtr<ComBox>)
JOIN(com, ComPtr<ComBox>, Tracked, ComPtr<ComBox>)
// keys that cannot be ordered are rejected and change nothing
SCENARIO(unordered_keys, 1)
{
	LifetimeScope scope; { Group<double, Tracked> d; std::map<double, std::vector<int>> ref; double nan = std::nan(""); long n = rng.range(5, 50);
	for (long s = 0; s < n; s++)
	{
		double key = rng.chance(1, 3) ? nan : rng.chance(1, 8) ? rng.pick({ (double)INFINITY, -(double)INFINITY, 0.0, -0.0 }) : (double)rng.range(-6, 6) / 2; int v = (int)rng.below(6), k = (int)rng.below(6); bool bad = std::isnan(key), had = !bad && ref.count(key), r; if (bad && ref.empty()) continue; auto is = [&](const char* what, bool got, bool want) { MUST(got == want, "result", "%s is %d, expected %d", what, (int)got, (int)want); };
		switch (k) { case 0: case 1: r = rejected([&] { d.Add(key, Tracked(v)); }); if (!bad) ref[key].push_back(v); break;
		case 2: r = rejected([&] { is("Remove(key)", d.Remove(key), had); }); if (!bad) ref.erase(key); break;
		case 3: { auto at = had ? std::find(ref[key].begin(), ref[key].end(), v) : std::vector<int>::iterator(); bool there = had && at != ref[key].end(); r = rejected([&] { is("Remove(key, value)", d.Remove(key, Tracked(v)), there); }); if (there) { ref[key].erase(at); if (ref[key].empty()) ref.erase(key); } break; }
		case 4: r = rejected([&] { is("Contains(key)", d.Contains(key), had); }); break; default: r = rejected([&] { is("Contains(key, value)", d.Contains(key, Tracked(v)), had && std::count(ref[key].begin(), ref[key].end(), v)); }); }
		MUST(r == bad, "unordered-keys", "operation %d with %s key was %s", k, bad ? "an unordered" : "an ordered", r ? "rejected" : "accepted");
		MUST(d.Count() == (vint)ref.size(), "count", "%ld keys, expected %ld", (long)d.Count(), (long)ref.size()); vint i = 0; for (auto& [x, ys] : ref) { MUST(d.Keys()[i] == x && d.GetByIndex(i).Count() == (vint)ys.size(), "content", "key %ld is wrong or has a wrong number of values", (long)i); for (size_t j = 0; j < ys.size(); j++) MUST(d.GetByIndex(i)[(vint)j].v() == ys[j], "content", "value %ld of key %ld is wrong", (long)j, (long)i); i++; } op((u64)k, ref.size()); if (ref.size() > 1) nontrivial(); count("state_comparisons"); if (bad) count("unordered_rejections");
	} }
	scope.check("a group with rejected keys");
}
#endif
