#include "map.h"
#include "giant.h"
#include <cmath>
using namespace H;
#define ONE(NAME, K, V) SCENARIO(dict_##NAME, 2) { dictHistory<K, V>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 200 : 40, 120, false }, 15, cheap<K>&&cheap<V>)); }
#if PART == 0
ONE(vint_wstring, vint, WString)
SCENARIO(giant, 1) { if (rng.chance(1, 4)) giantDict(rng); else dictHistory<vint, vint>(rng, { 40, 120, false }); }
const char* const harnessProperty = "C05";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
ONE(wstring_vint, WString, vint)
ONE(tracked_tracked, Tracked, Tracked)
#elif PART == 2
ONE(moveonly_moveonly, MoveOnly, MoveOnly)
ONE(ptr_ptr, Ptr<Box>, Ptr<Box>)
#elif PART == 3
ONE(copyonly_big, CopyOnly, Big)
ONE(byte_tracked, unsigned char, Tracked)
#elif PART == 4
ONE(com_com, ComPtr<ComBox>, ComPtr<ComBox>)
// keys that cannot be ordered are rejected and change nothing
SCENARIO(unordered_keys, 1)
{
	LifetimeScope scope; { Dictionary<double, Tracked> d; std::map<double, int> ref; double nan = std::nan(""); long n = rng.range(5, 50);
	for (long s = 0; s < n; s++)
	{
		double key = rng.chance(1, 3) ? nan : rng.chance(1, 8) ? rng.pick({ (double)INFINITY, -(double)INFINITY, 0.0, -0.0 }) : (double)rng.range(-12, 12) / 2; int v = (int)rng.below(1000), k = (int)rng.below(5); bool bad = std::isnan(key), had = !bad && ref.count(key), r; if (bad && ref.empty()) continue;
		switch (k) { case 0: r = rejected([&] { d.Add(key, Tracked(v)); }); MUST(r == (bad || had), "unordered-keys", "Add of %s key was %s", bad ? "an unordered" : had ? "an existing" : "a new", r ? "rejected" : "accepted"); if (!r) ref[key] = v; break;
		case 1: r = rejected([&] { d.Set(key, Tracked(v)); }); MUST(r == bad, "unordered-keys", "Set of %s key was %s", bad ? "an unordered" : "an ordered", r ? "rejected" : "accepted"); if (!r) ref[key] = v; break;
		case 2: r = rejected([&] { MUST(d.Remove(key) == had, "remove-result", "Remove reports a wrong result"); }); MUST(r == bad, "unordered-keys", "Remove of %s key was %s", bad ? "an unordered" : "an ordered", r ? "rejected" : "accepted"); if (!r) ref.erase(key); break;
		case 3: r = rejected([&] { MUST(d.Get(key).v() == ref[key], "value", "Get gives another value"); }); if (!bad && !had) { ref.erase(key); } MUST(r == (bad || !had), "unordered-keys", "Get of %s key was %s", bad ? "an unordered" : had ? "an existing" : "a missing", r ? "rejected" : "accepted"); break;
		default: r = rejected([&] { MUST(d.Keys().Contains(key) == had, "contains", "Contains is wrong"); }); MUST(r == bad, "unordered-keys", "Contains of %s key was %s", bad ? "an unordered" : "an ordered", r ? "rejected" : "accepted"); }
		MUST(d.Count() == (vint)ref.size() && d.Keys().Count() == d.Values().Count(), "count", "%ld keys and %ld values, expected %ld", (long)d.Count(), (long)d.Values().Count(), (long)ref.size()); vint i = 0; for (auto& [x, y] : ref) { MUST(d.Keys()[i] == x && d.Values()[i].v() == y, "content", "pair %ld is wrong", (long)i); i++; } op((u64)k, ref.size()); if (ref.size() > 1) nontrivial(); count("state_comparisons"); if (bad) count("unordered_rejections");
	} }
	scope.check("a dictionary with rejected keys");
}
#endif
