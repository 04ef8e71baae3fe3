// Sorting: permutation, order, containment, rejection of unordered elements.
#include "chain.h"
#include <cmath>
#include <cfloat>
using namespace H;
// number sequences with structure that partitioning algorithms are sensitive to
static std::vector<int> shape(Rng& rng, long n, std::string& name)
{
	std::vector<int> v(n); long keys = rng.pick({ 1L, 2L, 3L, 10L, 600L });
	switch (rng.below(10))
	{
	case 0: for (long i = 0; i < n; i++) v[i] = (int)(i * 600 / (n + 1)); name = "ascending"; break;
	case 1: for (long i = 0; i < n; i++) v[i] = (int)((n - i) * 600 / (n + 1)); name = "descending"; break;
	case 2: for (long i = 0; i < n; i++) v[i] = 7; name = "equal"; break;
	case 3: for (long i = 0; i < n; i++) v[i] = (int)(std::min(i, n - i) * 600 / (n + 1)); name = "organ pipe"; break;
	case 4: for (long i = 0; i < n; i++) v[i] = (int)(i % 2 ? i : n - i) * 600 / (int)(n + 1); name = "zigzag"; break;
	case 5: for (long i = 0; i < n; i++) v[i] = (int)(i * 600 / (n + 1)); for (int k = 0; k < 3 && n; k++) std::swap(v[rng.below(n)], v[rng.below(n)]); name = "nearly sorted"; break;
	case 6: for (long i = 0; i < n; i++) v[i] = (int)((i % 7) * 50); name = "sawtooth"; break;
	case 7: for (long i = 0; i < n; i++) v[i] = (int)rng.below(600); for (long i = 0; i < n / 2; i++) v[i] = 300; name = "half equal"; break;
	default: for (long i = 0; i < n; i++) v[i] = (int)rng.below(keys); name = fmt("random of %ld", keys); break;
	}
	return v;
}
static long lengthOf(Rng& rng) { return rng.chance(1, 80) ? rng.range(400, 2500) : rng.chance(1, 12) ? rng.range(100, 400) : rng.chance(1, 6) ? rng.below(3) : rng.range(2, 40); }
template<typename T> void sorting(Rng& rng)
{
	LifetimeScope scope;
	{
		std::string name; long n = lengthOf(rng), pad = rng.below(4); auto v = shape(rng, n, name); constexpr int guard = 650;
		std::vector<T> store; for (long i = 0; i < pad; i++) store.push_back(Val<T>::make(guard)); for (int x : v) store.push_back(Val<T>::make(x)); for (long i = 0; i < pad; i++) store.push_back(Val<T>::make(guard)); store.reserve(store.size() + 1);
		T* items = store.data() + pad; std::set<int> inside(v.begin(), v.end()); long compares = 0; int way = (int)rng.below(6); int div = (int)rng.pick({ 1L, 7L, 100L });
		auto see = [&](const T& a, const T& b) { int x = Val<T>::get(a), y = Val<T>::get(b); compares++; MUST(inside.count(x) && inside.count(y), "foreign-argument", "sorting %ld elements (%s): the comparer was called with %d and %d, not both elements of the range", n, name.c_str(), x, y); return std::pair(x, y); };
		std::function<bool(int, int)> less; const char* w = "";
		switch (way)
		{
		case 0: w = "Sort"; less = [](int a, int b) { return lessKey<T>(a, b); }; Sort(items, n); break;
		case 1: w = "Sort by strong order"; less = [](int a, int b) { return a < b; }; Sort(items, n, [&](const T& a, const T& b) { auto [x, y] = see(a, b); return x <=> y; }); break;
		case 2: w = "Sort descending"; less = [](int a, int b) { return a > b; }; SortLambda(items, n, [&](const T& a, const T& b) { auto [x, y] = see(a, b); return y <=> x; }); break;
		case 3: w = "Sort by weak order"; less = [=](int a, int b) { return a / div < b / div; }; SortLambda(items, n, [&](const T& a, const T& b) { auto [x, y] = see(a, b); return std::weak_ordering(x / div <=> y / div); }); break;
		case 4: w = "Sort by partial order type"; less = [=](int a, int b) { return a / div < b / div; }; SortLambda(items, n, [&](const T& a, const T& b) { auto [x, y] = see(a, b); return (double)(x / div) <=> (double)(y / div); }); break;
		default: w = "Sort by scattered order"; less = [=](int a, int b) { return a * 271 % 601 < b * 271 % 601; }; Sort(items, n, Func<std::strong_ordering(const T&, const T&)>([&](const T& a, const T& b) { auto [x, y] = see(a, b); return x * 271 % 601 <=> y * 271 % 601; })); break;
		}
		std::vector<int> got; for (long i = 0; i < n; i++) got.push_back(Val<T>::get(items[i]));
		LOG("%s of %s x%ld: %s -> %s", w, name.c_str(), n, show(v).c_str(), show(got).c_str());
		for (long i = 0; i < pad; i++) MUST(Val<T>::get(store[i]) == guard && Val<T>::get(store[pad + n + i]) == guard, "outside", "%s of %ld elements changed an element outside the range", w, n);
		for (long i = 1; i < n; i++) MUST(!less(got[i], got[i - 1]), "unsorted", "%s (%s): element %ld (%d) comes after a greater element (%d)", w, name.c_str(), i, got[i], got[i - 1]);
		auto a = v, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); MUST(a == b, "not-permutation", "%s (%s) of %s gave %s: not a permutation", w, name.c_str(), show(v).c_str(), show(got).c_str());
		// sorting again changes nothing but the order among equals
		if (way == 1) { Sort(items, n, [&](const T& x, const T& y) { return Val<T>::get(x) <=> Val<T>::get(y); }); for (long i = 0; i < n; i++) MUST(Val<T>::get(items[i]) == got[i], "resort", "sorting a sorted array changed it"); }
		op(way, n); for (int x : v) op(x); if (n > 1) nontrivial(); count("sorted_arrays"); count("comparer_calls", compares);
	}
	scope.check("sorting");
}
template<typename F> void floats(Rng& rng)
{
	long n = lengthOf(rng); std::vector<F> v; auto val = [&]() -> F { switch (rng.below(12)) { case 0: return (F)0.0; case 1: return (F)-0.0; case 2: return (F)INFINITY; case 3: return (F)-INFINITY; case 4: return (F)FLT_MIN; case 5: return (F)(rng.range(-3, 3)); default: return (F)((double)rng.range(-1000000, 1000000) / 7.0); } };
	for (long i = 0; i < n; i++) v.push_back(val());
	bool nan = n >= 2 && rng.chance(1, 2); if (nan) { long k = rng.chance(1, 2) ? 1 : rng.range(1, n); for (long i = 0; i < k; i++) v[rng.below(n)] = (F)NAN; }
	auto before = v; int way = (int)rng.below(3); bool err = rejected([&] { if (way == 0) Sort(v.data(), n); else if (way == 1) SortLambda(v.data(), n, [](F a, F b) { return a <=> b; }); else SortLambda(v.data(), n, [](F a, F b) -> std::partial_ordering { return b <=> a; }); });
	MUST(err == nan, "unordered", "sorting %ld numbers %s: %s", n, nan ? "with a NaN" : "without NaN", err ? "rejected" : "accepted");
	auto bits = [](const std::vector<F>& x) { std::vector<u64> r; for (F f : x) { u64 u = 0; memcpy(&u, &f, sizeof f); r.push_back(u); } std::sort(r.begin(), r.end()); return r; };
	MUST(bits(before) == bits(v), "not-permutation", "sorting %ld numbers lost or duplicated one", n);
	if (!nan) for (long i = 1; i < n; i++) MUST(way == 2 ? v[i - 1] >= v[i] : v[i - 1] <= v[i], "unsorted", "numbers out of order at %ld", i);
	if (nan) count("unordered_rejections"); for (F f : before) { u64 u = 0; memcpy(&u, &f, sizeof f); op(u); } if (n > 1) nontrivial(); count("sorted_arrays");
}
// the comparer rejects: no element may be lost or duplicated; ownership is visible to the sanitizer
SCENARIO(comparer_throws, 1)
{
	LifetimeScope scope;
	{
		std::string name; long n = rng.range(2, 40); auto v = shape(rng, n, name); List<Tracked> l; for (int x : v) l.Add(Tracked(x)); long left = rng.range(0, n * 4); bool thrown = false;
		try { Sort(&l[0], n, [&](const Tracked& a, const Tracked& b) { if (left-- == 0) throw Error(L"stop"); return a.v() <=> b.v(); }); } catch (const Error&) { thrown = true; }
		std::vector<int> got; for (auto& t : l) got.push_back(t.v()); std::sort(v.begin(), v.end()); if (thrown) std::sort(got.begin(), got.end());
		MUST(got == v, "not-permutation", "a comparer that %s left %s instead of %s", thrown ? "raised an error" : "returned", show(got).c_str(), show(v).c_str());
		op(n, left); for (int x : v) op(x); nontrivial(); if (thrown) count("comparer_errors");
	}
	scope.check("sorting with errors");
}
// far more elements than the other scenarios sort, without a monitor on every comparison
SCENARIO(large, 1)
{
	bool giant = rng.chance(1, 30); if (!giant && !rng.chance(1, 8)) { sorting<vint>(rng); return; }
	long n = giant ? rng.range(20000, 90000) : rng.range(2500, 20000); vl::vint64_t keys = rng.chance(1, 2) ? 1000000 : rng.range(1, 3000); List<vint> l; std::vector<vl::vint64_t> v; for (long i = 0; i < n; i++) { vl::vint64_t x = rng.range(0, (long)keys); v.push_back(x); l.Add((vint)x); } long from = rng.below(4), to = n - rng.below(4); int way = (int)rng.below(3); op((u64)n, (u64)keys); nontrivial();
	if (way == 0) Sort(&l[from], to - from); else if (way == 1) SortLambda(&l[from], to - from, [](vint a, vint b) { return a <=> b; }); else SortLambda(&l[from], to - from, [](vint a, vint b) { return b <=> a; });
	if (way == 2) std::sort(v.begin() + from, v.begin() + to, std::greater<vl::vint64_t>()); else std::sort(v.begin() + from, v.begin() + to); MUST(l.Count() == n, "large", "sorting changed the length"); for (long i = 0; i < n; i++) MUST(l[i] == v[i], "large", "sorting elements %ld to %ld of %ld random values left %ld at %ld, expected %ld", from, to, n, (long)l[i], i, (long)v[i]); count("large_sorts");
}
SCENARIO(sort_vint, 3) { sorting<vint>(rng); }
SCENARIO(sort_byte_keyed, 2) { sorting<Keyed>(rng); }
SCENARIO(sort_tracked, 3) { sorting<Tracked>(rng); }
SCENARIO(sort_copyonly, 1) { sorting<CopyOnly>(rng); }
SCENARIO(sort_wstring, 2) { sorting<WString>(rng); }
SCENARIO(sort_ptr, 1) { sorting<Ptr<Box>>(rng); }
SCENARIO(sort_double, 2) { floats<double>(rng); }
SCENARIO(sort_float, 1) { floats<float>(rng); }
const char* const harnessProperty = "C11";
const long harnessCpuBudget = 20;
#include "main.h"
