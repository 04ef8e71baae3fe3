#include "map.h"
#include "giant.h"
#include <cmath>
using namespace H;
#define ONE(NAME, T) SCENARIO(sorted_##NAME, 2) { sortedHistory<T>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 200 : 40, 120, false }, 15, cheap<T>)); }
#if PART == 0
ONE(vint, vint)
ONE(keyed, Keyed)
SCENARIO(giant, 1) { if (rng.chance(1, 4)) giantSorted(rng); else sortedHistory<vint>(rng, { 40, 120, false }); }
// elements that cannot be ordered are rejected and change nothing
SCENARIO(unordered, 2)
{
	SortedList<double> l; std::vector<double> ref; double nan = std::nan("");
	auto same = [&](const char* after) { MUST(l.Count() == (vint)ref.size(), "count", "after %s: Count() is %ld, expected %ld", after, (long)l.Count(), (long)ref.size()); for (vint i = 0; i < l.Count(); i++) MUST(l[i] == ref[i] || (std::isnan(l[i]) && std::isnan(ref[i])), "content", "after %s: element %ld differs", after, (long)i); };
	bool poisoned = false;
	if (rng.chance(1, 4)) { l.Add(nan); ref.push_back(nan); poisoned = true; same("adding an unordered element to an empty list"); }
	for (int s = 0; s < 40; s++)
	{
		double v = rng.chance(1, 3) ? nan : rng.chance(1, 6) ? rng.pick({ -0.0, 0.0, (double)INFINITY, -(double)INFINITY }) : (double)rng.range(-20, 20) / 2;
		bool bad = (std::isnan(v) || poisoned) && ref.size();
		int k = (int)rng.below(4); bool r = false;
		if (k == 0) { if (ref.empty() && std::isnan(v)) continue; vint ix = -1; r = rejected([&] { ix = l.Add(v); }); if (!r) { MUST(ix >= 0 && ix <= (vint)ref.size() && l[ix] == v, "add-result", "Add returned a wrong position"); ref.insert(ref.begin() + ix, v); } }
		else if (k == 1) r = rejected([&] { vint ix = l.IndexOf(v); bool had = std::find(ref.begin(), ref.end(), v) != ref.end(); MUST((ix != -1) == had, "indexof", "IndexOf is wrong"); if (had) MUST(l[ix] == v, "indexof", "IndexOf yields another element"); });
		else if (k == 2) r = rejected([&] { bool had = std::find(ref.begin(), ref.end(), v) != ref.end(); MUST(l.Contains(v) == had, "contains", "Contains is wrong"); });
		else { bool had = false; auto it = std::find(ref.begin(), ref.end(), v); r = rejected([&] { had = l.Remove(v); }); if (!r) { MUST(had == (it != ref.end()), "remove-result", "Remove is wrong"); if (had) { size_t p = 0; while (p < (size_t)l.Count() && l[p] == ref[p]) p++; MUST(p < ref.size() && ref[p] == v, "remove-wrong", "Remove removed another element"); ref.erase(ref.begin() + p); } } }
		MUST(r == bad, "unordered-contract", "an operation with %s element on a list of %ld %s", bad ? "an unordered" : "an ordered", (long)ref.size(), r ? "raised an error" : "was accepted");
		if (bad) count("unordered_rejections");
		if (ref.size()) same("an operation");
		for (size_t i = 1; i < ref.size(); i++) MUST(!(ref[i] < ref[i - 1]), "not-sorted", "not sorted");
		op(k * 2 + bad, ref.size()); if (ref.size() > 1) nontrivial(); count("state_comparisons");
	}
}
// orders given by the element type: descending, and by a part of the element
struct Desc { vint v; bool operator==(const Desc& o) const { return v == o.v; } std::strong_ordering operator<=>(const Desc& o) const { return o.v <=> v; } };
SCENARIO(descending, 1)
{
	SortedList<Desc> l; std::multiset<vint, std::greater<vint>> ref;
	for (int s = 0; s < 80; s++)
	{
		vint v = rng.below(20);
		if (rng.chance(3, 5)) { vint i = l.Add(Desc{ v }); MUST(i >= 0 && i < l.Count() && l[i].v == v, "add-result", "Add returned a wrong position"); ref.insert(v); }
		else { auto it = ref.find(v); MUST(l.Remove(Desc{ v }) == (it != ref.end()), "remove-result", "Remove returned a wrong result"); if (it != ref.end()) ref.erase(it); }
		MUST(l.Count() == (vint)ref.size(), "count", "wrong count"); vint i = 0; for (vint x : ref) { MUST(l[i].v == x, "content", "element %ld is %ld, expected %ld", (long)i, (long)l[i].v, (long)x); i++; }
		op(v, ref.size()); if (ref.size() > 1) nontrivial(); count("state_comparisons");
	}
}
const char* const harnessProperty = "C04";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
ONE(tracked, Tracked)
ONE(moveonly, MoveOnly)
#elif PART == 2
ONE(wstring, WString)
ONE(ptr, Ptr<Box>)
#elif PART == 3
ONE(byte, unsigned char)
ONE(copyonly, CopyOnly)
#elif PART == 4
ONE(com, ComPtr<ComBox>)
#endif
