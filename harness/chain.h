// Random chains of lazy sequence operators over any element type, each with a model that recomputes the expected
// elements (as element numbers) from the current contents of the sources.
#pragma once
#include "map.h"
#include <memory>

namespace H
{
	constexpr int M = 499;   // element numbers live in 0..M-1
	using Model = std::function<std::vector<int>()>;

	template<typename T> struct Seq
	{
		LazyList<T> lazy; Model model; std::string text;
	};
	struct Keep { std::vector<std::shared_ptr<void>> things; template<typename X> X* own(X* x) { things.push_back(std::shared_ptr<void>(x, [](void* p) { delete (X*)p; })); return x; } };

	inline std::vector<int> mFilter(const std::vector<int>& xs, std::function<bool(int)> f) { std::vector<int> r; for (int x : xs) if (f(x)) r.push_back(x); return r; }
	inline std::vector<int> mMap(const std::vector<int>& xs, std::function<int(int)> f) { std::vector<int> r; for (int x : xs) r.push_back(f(x)); return r; }
	inline std::vector<int> mDistinct(const std::vector<int>& xs) { std::vector<int> r; for (int x : xs) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x); return r; }
	inline std::vector<int> mTake(const std::vector<int>& xs, long n) { return std::vector<int>(xs.begin(), xs.begin() + std::min<long>(n, (long)xs.size())); }
	inline std::vector<int> mSkip(const std::vector<int>& xs, long n) { return std::vector<int>(xs.begin() + std::min<long>(n, (long)xs.size()), xs.end()); }
	inline std::vector<int> mConcat(std::vector<int> a, const std::vector<int>& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
	inline bool mHas(const std::vector<int>& xs, int x) { return std::find(xs.begin(), xs.end(), x) != xs.end(); }
	inline long pickCount(Rng& rng) { return rng.chance(1, 8) ? 0 : rng.chance(1, 12) ? 1000000 : rng.chance(1, 20) ? rng.range(0, 300) : rng.range(0, 9); }

	// the observable result of an enumerable
	template<typename T> std::vector<int> drain(const IEnumerable<T>& xs)
	{
		std::vector<int> r; auto e = Ptr(xs.CreateEnumerator());
		while (e->Next()) { MUST(r.size() < 100000, "endless", "an enumeration of a finite sequence does not end"); r.push_back(Val<T>::get(e->Current())); }
		return r;
	}
	inline void same(const std::vector<int>& got, const std::vector<int>& want, const std::string& text)
	{
		MUST(got == want, "wrong-sequence", "%s yields %s, expected %s", text.c_str(), show(got).c_str(), show(want).c_str());
	}

	template<typename T> Seq<T> sourceOf(Rng& rng, Keep& keep)
	{
		long n = rng.chance(1, 5) ? 0 : rng.chance(1, 5) ? 1 : rng.chance(1, 40) ? rng.range(40, 300) : rng.range(0, 12); long range = rng.pick({ 2L, 8L, 97L, (long)M }); if (n > 12) count("large_sources");
		auto xs = std::make_shared<std::vector<int>>(); for (long i = 0; i < n; i++) xs->push_back((int)rng.below(range));
		switch (rng.below(8))
		{
		case 0: { auto l = keep.own(new List<T>); for (int x : *xs) l->Add(Val<T>::make(x)); return { From(*l), [=] { return *xs; }, "list" + show(*xs) }; }
		case 1: { auto a = keep.own(new Array<T>(n)); for (long i = 0; i < n; i++) (*a)[i] = Val<T>::make((*xs)[i]); return { LazyList<T>(*a), [=] { return *xs; }, "array" + show(*xs) }; }
		case 2: { auto l = keep.own(new SortedList<T>); for (int x : *xs) l->Add(Val<T>::make(x)); std::sort(xs->begin(), xs->end(), [](int a, int b) { return lessKey<T>(a, b); }); return { From(*l), [=] { return *xs; }, "sorted" + show(*xs) }; }
		case 3: { auto v = keep.own(new std::vector<T>); for (int x : *xs) v->push_back(Val<T>::make(x)); v->reserve(n + 1); return { From((const T*)v->data(), (const T*)(v->data() + n)), [=] { return *xs; }, "range" + show(*xs) }; }
		case 4: { auto l = Ptr(new List<T>); for (int x : *xs) l->Add(Val<T>::make(x)); return { LazyList<T>(l), [=] { return *xs; }, "owned" + show(*xs) }; }
		case 5: { struct A { T items[3]; }; auto a = keep.own(new A{ { Val<T>::make(3), Val<T>::make(1), Val<T>::make(3) } }); return { From(a->items), [] { return std::vector<int>{ 3, 1, 3 }; }, "fixed[3,1,3]" }; }
		case 6: if (rng.chance(1, 3)) return { LazyList<T>(), [] { return std::vector<int>{}; }, "empty" };
			{ long a = rng.below(40), c = rng.range(0, rng.chance(1, 40) ? 400 : 8); return { Range((vint)a, (vint)c).Select([](vint x) { return Val<T>::make((int)x); }), [=] { std::vector<int> r; for (long i = 0; i < c; i++) r.push_back((int)(a + i)); return r; }, fmt("Range(%ld,%ld)", a, c) }; }
		default: { auto d = keep.own(new Dictionary<vint, T>); auto vs = std::make_shared<std::vector<int>>(); long k = 0; for (int x : *xs) { d->Add((vint)(k++), Val<T>::make(x)); } return { From(d->Values()), [=] { return *xs; }, "values" + show(*xs) }; }
		}
	}

	template<typename T> Seq<T> chainOf(Rng& rng, Keep& keep, int depth);

	// one more operator on top of s; lazyOnly restricts to operators that leave everything to the iteration
	template<typename T> Seq<T> extend(Rng& rng, Keep& keep, Seq<T> s, int depth, bool lazyOnly, std::function<void(int)> onCall = {})
	{
		auto m = s.model; auto& x = s.lazy;
		switch (rng.below(lazyOnly ? 9 : 20))
		{
		case 0: { int a = (int)rng.range(1, 5), b = (int)rng.below(7), d = (int)rng.pick({ 1L, 1L, 3L, 20L }); return { x.Select([=](T t) { int v = Val<T>::get(t); if (onCall) onCall(v); return Val<T>::make((v * a + b) / d % M); }), [=] { return mMap(m(), [=](int v) { return (v * a + b) / d % M; }); }, s.text + fmt(".Select((x*%d+%d)/%d)", a, b, d) }; }
		case 1: { int a = (int)rng.range(1, 4), b = (int)rng.below(4); return { x.Where([=](T t) { int v = Val<T>::get(t); if (onCall) onCall(v); return v % a == b % a; }), [=] { return mFilter(m(), [=](int v) { return v % a == b % a; }); }, s.text + fmt(".Where(x%%%d==%d)", a, b % a) }; }
		case 2: { auto o = depth > 0 ? chainOf<T>(rng, keep, depth - 1) : sourceOf<T>(rng, keep); auto om = o.model; return { x.Concat(o.lazy), [=] { return mConcat(m(), om()); }, s.text + ".Concat(" + o.text + ")" }; }
		case 3: { long n = pickCount(rng); return { x.Take(n), [=] { return mTake(m(), n); }, s.text + fmt(".Take(%ld)", n) }; }
		case 4: { long n = pickCount(rng); return { x.Skip(n), [=] { return mSkip(m(), n); }, s.text + fmt(".Skip(%ld)", n) }; }
		case 5: { long n = rng.range(0, 3); if (m().size() > 200) n = 1; return { x.Repeat(n), [=] { std::vector<int> r, xs = m(); for (long i = 0; i < n; i++) r = mConcat(r, xs); return r; }, s.text + fmt(".Repeat(%ld)", n) }; }
		case 6: return { x.Distinct(), [=] { return mDistinct(m()); }, s.text + ".Distinct()" };
		case 7: { auto o = depth > 0 ? chainOf<T>(rng, keep, depth - 1) : sourceOf<T>(rng, keep); auto om = o.model;
			return { x.Pairwise(o.lazy).Select([](Pair<T, T> p) { return Val<T>::make((Val<T>::get(p.key) * 7 + Val<T>::get(p.value)) % M); }), [=] { auto a = m(), b = om(); std::vector<int> r; for (size_t i = 0; i < a.size() && i < b.size(); i++) r.push_back((a[i] * 7 + b[i]) % M); return r; }, s.text + ".Pairwise(" + o.text + ").Select(k*7+v)" }; }
		case 8: { auto copy = x; LazyList<T> other; other = copy; LazyList<T> moved(std::move(copy)); if (rng.chance(1, 2)) { LazyList<T> target = sourceOf<T>(rng, keep).lazy; target = std::move(moved); return { target, m, s.text + ".(copied)" }; } return { From(rng.chance(1, 2) ? other : moved), m, s.text + ".(copied)" }; }
		case 9: { auto r = m(); std::reverse(r.begin(), r.end()); return { x.Reverse(), [=] { return r; }, s.text + ".Reverse()" }; }
		case 10: { auto o = sourceOf<T>(rng, keep); auto om = o.model(); return { x.Intersect(o.lazy), [=] { return mDistinct(mFilter(m(), [&](int v) { return mHas(om, v); })); }, s.text + ".Intersect(" + o.text + ")" }; }
		case 11: { auto o = sourceOf<T>(rng, keep); auto om = o.model(); return { x.Except(o.lazy), [=] { return mDistinct(mFilter(m(), [&](int v) { return !mHas(om, v); })); }, s.text + ".Except(" + o.text + ")" }; }
		case 12: { auto o = sourceOf<T>(rng, keep); auto om = o.model; return { x.Union(o.lazy), [=] { return mDistinct(mConcat(m(), om())); }, s.text + ".Union(" + o.text + ")" }; }
		case 13: { auto r = m(); std::stable_sort(r.begin(), r.end(), [](int a, int b) { return lessKey<T>(a, b); }); return { x.OrderBySelf(), [=] { return r; }, s.text + ".OrderBySelf()" }; }
		case 14: { auto r = m(); std::stable_sort(r.begin(), r.end(), std::greater<int>()); return { x.OrderBy([](const T& a, const T& b) { return Val<T>::get(b) <=> Val<T>::get(a); }), [=] { return r; }, s.text + ".OrderBy(descending)" }; }
		case 15: { int a = (int)rng.range(1, M - 1); auto key = [=](int v) { return v * a % M; }; auto r = m(); std::stable_sort(r.begin(), r.end(), [=](int p, int q) { return key(p) < key(q); }); return { x.OrderByKey([=](const T& t) { return key(Val<T>::get(t)); }), [=] { return r; }, s.text + fmt(".OrderByKey(x*%d%%%d)", a, M) }; }
		case 16: { auto r = m(); return { x.Evaluate(rng.chance(1, 2)), [=] { return r; }, s.text + ".Evaluate()" }; }
		case 17: { int a = (int)rng.range(1, 4); auto xs = m(); if (xs.size() > 60) return s; std::vector<int> r; for (int v : xs) for (int i = 0; i < v % a; i++) r.push_back((v + i) % M);
			return { x.SelectMany([=](T t) { int v = Val<T>::get(t); auto l = Ptr(new List<T>); for (int i = 0; i < v % a; i++) l->Add(Val<T>::make((v + i) % M)); return LazyList<T>(l); }), [=] { return r; }, s.text + fmt(".SelectMany(x%%%d times)", a) }; }
		case 18: { int a = (int)rng.range(1, 5); return { x.GroupBy([=](T t) { return (vint)(Val<T>::get(t) % a); }).Select([](Pair<vint, LazyList<T>> p) { int h = (int)p.key; for (int v : drain(p.value)) h = (h * 31 + v + 1) % M; return Val<T>::make(h); }),
			[=] { auto xs = m(); std::vector<int> r; for (int k : mDistinct(mMap(xs, [=](int v) { return v % a; }))) { int h = k; for (int v : xs) if (v % a == k) h = (h * 31 + v + 1) % M; r.push_back(h); } return r; }, s.text + fmt(".GroupBy(x%%%d).Select(hash)", a) }; }
		default: { auto l = keep.own(new List<T>); CopyFrom(*l, x); auto r = m(); return { From(*l), [=] { return r; }, s.text + ".(copied to a list)" }; }
		}
	}
	template<typename T> Seq<T> chainOf(Rng& rng, Keep& keep, int depth)
	{
		Seq<T> s = sourceOf<T>(rng, keep);
		for (int i = 0; i < depth; i++) { s = extend<T>(rng, keep, s, depth - 1 - i, false); if (s.model().size() > 400) break; }
		return s;
	}
}
