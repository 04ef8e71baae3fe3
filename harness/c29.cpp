// Optional values against a model; contained objects are tracked.
#include "values.h"
#include <cmath>
using namespace H;
template<typename T> struct World
{
	using N = Nullable<T>; static constexpr int K = 5; static constexpr bool copyable = std::is_copy_constructible_v<T>; static constexpr bool comparable = std::three_way_comparable<T>;
	Rng& r; std::unique_ptr<N> n[K]; bool has[K] = {}; int val[K] = {}; long base = liveCount(); const char* name;
	World(Rng& _r, const char* nm) : r(_r), name(nm) { for (auto& x : n) x.reset(new N()); }
	void check(const char* what)
	{
		long live = 0; for (int i = 0; i < K; i++)
		{
			MUST((bool)*n[i] == has[i], "state", "%s %s: optional %d reports a value %d, expected %d", name, what, i, (int)(bool)*n[i], (int)has[i]); live += has[i];
			if (has[i]) { const T& v = n[i]->Value(); MUST(getV(v) == val[i], "value", "%s %s: optional %d holds %d, expected %d", name, what, i, getV(v), val[i]); MUST((char*)&v >= (char*)n[i].get() && (char*)(&v + 1) <= (char*)(n[i].get() + 1), "place", "the value does not lie inside the optional"); MUST((uintptr_t)&v % alignof(T) == 0, "alignment", "the value is misaligned"); MUST(&n[i]->Value() == &v, "place", "the value moves between two reads"); }
			else MUST(rejected([&] { n[i]->Value(); }), "empty-read", "%s %s: reading an empty optional is not rejected", name, what);
			if constexpr (comparable) for (int j = 0; j < K; j++) { int w = !has[i] ? (has[j] ? -1 : 0) : !has[j] ? 1 : cmp(val[i], val[j]); auto o = *n[i] <=> *n[j]; MUST((o < 0) == (w < 0) && (o > 0) == (w > 0) && (*n[i] == *n[j]) == (w == 0) && (*n[i] != *n[j]) == (w != 0) && (*n[i] < *n[j]) == (w < 0) && (*n[i] >= *n[j]) == (w >= 0), "compare", "%s %s: comparison of optionals is wrong", name, what); count("comparisons"); }
		}
		if (tracksV<T>) MUST(liveCount() - base == live, "lifetime", "%s %s: %ld contained objects are alive, %ld values are held", name, what, liveCount() - base, live); MUST(!N::Empty, "empty-constant", "the empty constant has a value"); count("states_compared");
	}
	static int cmp(int a, int b) { if constexpr (std::is_same_v<T, Ptr<Box>>) { auto x = boxOf(a).Obj(), y = boxOf(b).Obj(); return x < y ? -1 : x > y; } else if constexpr (std::is_same_v<T, WString>) { auto x = a ? std::to_string(a) : std::string(), y = b ? std::to_string(b) : std::string(); int c = x.compare(y); return c < 0 ? -1 : c > 0; } else return a < b ? -1 : a > b; }
	void step()
	{
		int d = (int)r.below(K), s = (int)r.below(K), v = std::is_same_v<T, Ptr<Box>> || r.chance(4, 5) ? (int)r.range(-9, 9) : (int)r.range(-2000000000, 2000000000), k = (int)r.below(14); const char* what = "";
		switch (k)
		{
		case 0: what = "construct from value"; n[d].reset(new N(makeV<T>(v))); has[d] = true; val[d] = v; break;
		case 1: what = "construct from lvalue"; if constexpr (copyable) { T x = makeV<T>(v); n[d].reset(new N(x)); has[d] = true; val[d] = v; MUST(getV(x) == v, "source", "copying into an optional changed the source"); } break;
		case 2: what = "copy construct"; if constexpr (copyable) { n[d].reset(new N(*n[s])); if (d != s) { has[d] = has[s]; val[d] = val[s]; } } break;
		case 3: what = "move construct"; { auto x = new N(std::move(*n[s])); bool h = has[s]; int w = val[s]; has[s] = false; n[d].reset(x); has[d] = h; val[d] = w; if (h) count("moves"); break; }
		case 4: case 5: what = "assign value"; { N& res = (*n[d] = makeV<T>(v)); MUST(&res == n[d].get(), "assign-result", "assignment does not return the optional"); if (has[d]) count("replaced"); has[d] = true; val[d] = v; break; }
		case 6: what = "assign lvalue"; if constexpr (copyable) { const T x = makeV<T>(v); *n[d] = x; has[d] = true; val[d] = v; MUST(getV(x) == v, "source", "assigning to an optional changed the source"); } break;
		case 7: case 8: what = "copy assign"; if constexpr (copyable) { *n[d] = *n[s]; has[d] = has[s]; val[d] = val[s]; if (d == s) count("self_assigned"); } break;
		case 9: what = "move assign"; if (d != s) { bool h = has[s]; int w = val[s]; *n[d] = std::move(*n[s]); has[s] = false; has[d] = h; val[d] = w; if (h) count("moves"); } break;
		case 10: what = "Reset"; n[d]->Reset(); if (r.chance(1, 3)) n[d]->Reset(); has[d] = false; break;
		case 11: what = "assign own value"; if constexpr (copyable) if (has[d]) { *n[d] = n[d]->Value(); count("own_value"); } break;
		case 12: what = "move to itself"; { N& z = *n[d]; *n[d] = std::move(z); count("self_assigned"); break; }
		default: what = "assign empty"; if constexpr (copyable) { if (r.chance(1, 2)) *n[d] = N::Empty; else *n[d] = N(); } else *n[d] = N(); has[d] = false;
		}
		op((u64)k, (u64)(d * 40 + v + 10)); LOG("%s %s: %d from %d value %d", name, what, d, s, v); check(what); if (has[d]) nontrivial();
	}
};
template<typename T> void history(Rng& rng, const char* name) { LifetimeScope l; { World<T> w(rng, name); long n = rng.range(3, 40); for (long i = 0; i < n; i++) w.step(); } l.check(name); }
SCENARIO(ints, 1) { history<int>(rng, "int"); }
SCENARIO(texts, 2) { history<WString>(rng, "WString"); }
SCENARIO(tracked, 3) { history<Tracked>(rng, "Tracked"); }
SCENARIO(move_only, 2) { history<MoveOnly>(rng, "MoveOnly"); }
SCENARIO(copy_only, 1) { history<CopyOnly>(rng, "CopyOnly"); }
SCENARIO(pointers, 1) { history<Ptr<Box>>(rng, "Ptr"); }
SCENARIO(fixed, 2) { history<Fixed>(rng, "no assignment"); }
SCENARIO(ref_inside, 1) { history<RefIn>(rng, "reference inside"); }
SCENARIO(aligned, 1) { history<Aligned>(rng, "over-aligned"); }
SCENARIO(plain, 1) { history<Plain>(rng, "plain"); }
SCENARIO(numbers, 1) { history<double>(rng, "double"); }
SCENARIO(large, 1) { history<Large>(rng, "large"); }
struct Link { Tracked t; Nullable<Ptr<Link>> next; Link(int v) : t(v) {} };
// an optional is assigned from something its own value owns
SCENARIO(own_content, 1)
{
	LifetimeScope l; nontrivial(); long n = rng.range(1, 8); std::vector<int> vs; Nullable<Ptr<Link>> head; for (long i = 0; i < n; i++) { int v = (int)rng.range(0, 99); auto x = Ptr(new Link(v)); x->next = head; head = x; vs.insert(vs.begin(), v); }
	while (head) { MUST(head.Value()->t.v() == vs[0], "value", "an optional assigned from its own content holds %d, expected %d", head.Value()->t.v(), vs[0]); vs.erase(vs.begin()); int k = (int)rng.below(4); op((u64)k, vs.size()); LOG("assign from own content, form %d", k); auto& next = head.Value()->next; switch (k) { case 0: head = next; break; case 1: head = std::move(next); break; case 2: if (next) head = next.Value(); else head = next; break; default: if (next) { head = Ptr<Link>(next.Value()); } else head.Reset(); } count("own_content"); }
	MUST(vs.empty(), "value", "an optional became empty with %zu values left", vs.size()); l.check("own content");
}
SCENARIO(others, 1)
{
	nontrivial(); double xs[] = { 0.0, -0.0, 1.5, -2.5, INFINITY, NAN }; Nullable<double> ns[7]; for (int i = 0; i < 6; i++) ns[i] = xs[i]; int i = (int)rng.below(7), j = (int)rng.below(7); op((u64)i, (u64)j); auto o = ns[i] <=> ns[j];
	if (i < 6 && j < 6) MUST(o == (xs[i] <=> xs[j]) && (ns[i] == ns[j]) == (xs[i] == xs[j]), "compare", "optional numbers %g and %g compare wrongly", xs[i], xs[j]); else MUST(o == (i < 6 ? std::partial_ordering::greater : j < 6 ? std::partial_ordering::less : std::partial_ordering::equivalent), "compare", "an empty optional number compares wrongly");
	Nullable<Nullable<int>> nn; MUST(!nn, "nested", "an empty nested optional has a value"); nn = Nullable<int>(); MUST(nn && !nn.Value(), "nested", "a nested empty optional"); nn = Nullable<int>(5); MUST(nn && nn.Value() && nn.Value().Value() == 5, "nested", "a nested optional value"); List<Nullable<WString>> ls; for (int k = 0; k < 20; k++) ls.Insert(rng.range(0, k), k % 3 ? Nullable<WString>(itow(k)) : Nullable<WString>()); long full = 0; for (auto& x : ls) full += (bool)x; MUST(full == 13, "list", "optionals in a list lose their values"); SortedList<Nullable<int>> sl; for (int k = 0; k < 10; k++) sl.Add(k % 4 ? Nullable<int>((int)rng.range(-3, 3)) : Nullable<int>()); for (vint k = 1; k < sl.Count(); k++) MUST(!(sl[k] < sl[k - 1]), "sorted", "a sorted list of optionals is out of order"); count("others");
}
const char* const harnessProperty = "C29";
const long harnessCpuBudget = 60;
#include "main.h"
