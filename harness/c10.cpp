// Laziness: no callback at construction, the source is read at iteration time, iteration is repeatable, prefixes only
// cost what they need, forced evaluation detaches.
#include "chain.h"
using namespace H;
// a source whose container and model change together
template<typename T> struct Mutable
{
	std::shared_ptr<std::vector<int>> xs = std::make_shared<std::vector<int>>();
	std::unique_ptr<List<T>> list; std::unique_ptr<Array<T>> array; std::unique_ptr<Dictionary<vint, T>> dict; std::unique_ptr<SortedList<T>> sorted;
	Mutable(Rng& rng)
	{
		switch (rng.below(4)) { case 0: list.reset(new List<T>); break; case 1: array.reset(new Array<T>); break; case 2: dict.reset(new Dictionary<vint, T>); break; default: sorted.reset(new SortedList<T>); }
		change(rng);
	}
	LazyList<T> from() { return list ? From(*list) : array ? From(*array) : dict ? From(dict->Values()) : From(*sorted); }
	Model model() { auto p = xs; return [p] { return *p; }; }
	const char* name() { return list ? "list" : array ? "array" : dict ? "values" : "sorted"; }
	void change(Rng& rng)
	{
		if (array)
		{
			if (rng.chance(1, 2) || xs->empty()) { long n = rng.below(10); xs->assign(n, 0); array->Resize(n); for (long i = 0; i < n; i++) { (*xs)[i] = (int)rng.below(M); (*array)[i] = Val<T>::make((*xs)[i]); } }
			else { long i = rng.below((long)xs->size()); (*xs)[i] = (int)rng.below(M); array->Set(i, Val<T>::make((*xs)[i])); }
			return;
		}
		long k = rng.range(1, 8);
		for (long q = 0; q < k; q++)
		{
			long n = (long)xs->size(); int v = (int)rng.below(M);
			if (list)
			{
				if (n > 14 || (n && rng.chance(1, 3))) { long i = rng.below(n); list->RemoveAt(i); xs->erase(xs->begin() + i); }
				else if (n && rng.chance(1, 4)) { long i = rng.below(n); list->Set(i, Val<T>::make(v)); (*xs)[i] = v; }
				else if (rng.chance(1, 30)) { list->Clear(); xs->clear(); }
				else { long i = rng.range(0, n); list->Insert(i, Val<T>::make(v)); xs->insert(xs->begin() + i, v); }
			}
			else if (dict)
			{
				if (n > 14 || (n && rng.chance(1, 3))) { dict->Remove(n - 1); xs->pop_back(); } // keys 0..n-1 keep their order
				else if (n && rng.chance(1, 3)) { long i = rng.below(n); dict->Set(i, Val<T>::make(v)); (*xs)[i] = v; }
				else { dict->Add(n, Val<T>::make(v)); xs->push_back(v); }
			}
			else
			{
				if (n > 14 || (n && rng.chance(1, 3))) { long i = rng.below(n); sorted->RemoveAt(i); xs->erase(xs->begin() + i); }
				else { sorted->Add(Val<T>::make(v)); xs->push_back(v); std::sort(xs->begin(), xs->end(), [](int a, int b) { return lessKey<T>(a, b); }); }
			}
		}
	}
};
template<typename T> void lazyHistory(Rng& rng)
{
	LifetimeScope scope;
	{
		Keep keep; long calls = 0; 
		auto token = std::make_shared<int>(0); std::weak_ptr<int> alive = token;
		std::vector<std::unique_ptr<Mutable<T>>> sources; auto fresh = [&]() -> Seq<T> { sources.emplace_back(new Mutable<T>(rng)); auto& s = *sources.back(); return { s.from(), s.model(), s.name() }; };
		Seq<T> s = fresh(); std::function<void(int)> hook = [&calls, token](int) { calls++; };
		long depth = rng.range(1, 6);
		std::function<Seq<T>(int)> build = [&](int d)
		{
			Seq<T> r = fresh();
			for (int i = 0; i < d; i++) { if (rng.chance(1, 5)) { auto o = build(d - 1 - i); auto m = r.model, om = o.model; r = { r.lazy.Concat(o.lazy), [=] { return mConcat(m(), om()); }, r.text + ".Concat(" + o.text + ")" }; } else r = extend<T>(rng, keep, r, 0, true, hook); if (r.model().size() > 300) break; }
			return r;
		};
		s = build((int)depth); token.reset();
		LOG("%s", s.text.c_str());
		MUST(calls == 0, "eager", "building %s called a callback %ld times", s.text.c_str(), calls);
		for (char c : s.text) op(c);
		std::vector<Seq<T>> copies{ s }; copies.reserve(40);
		std::vector<std::pair<LazyList<T>, std::vector<int>>> frozen;
		long rounds = rng.range(2, 7);
		for (long r = 0; r < rounds; r++)
		{
			auto want = s.model(); if (want.size() > 2000) break;
			auto& x = copies[(size_t)rng.below((long)copies.size())];
			same(drain(x.lazy), want, s.text + fmt(" (iteration %ld)", r)); if (rng.chance(1, 3)) same(drain(x.lazy), want, s.text + " (again)");
			{ std::vector<int> loop; for (auto& e : x.lazy) loop.push_back(Val<T>::get(e)); same(loop, want, s.text + " in a loop"); }
			if (want.size()) { nontrivial(); MUST(Val<T>::get(x.lazy.First()) == want[0] && Val<T>::get(x.lazy.Last()) == want.back(), "ends", "First or Last of %s is wrong", s.text.c_str()); }
			if (rng.chance(1, 2)) { LazyList<T> c(x.lazy), d; d = c; copies.push_back({ rng.chance(1, 2) ? c : d, s.model, s.text }); }
			if (rng.chance(1, 3)) frozen.push_back({ x.lazy.Evaluate(true), want });
			if (rng.chance(1, 4)) { auto y = x.lazy.Evaluate(); long b = calls; same(drain(y), want, s.text + ".Evaluate()"); same(drain(y), want, s.text + ".Evaluate() again"); MUST(calls == b, "reevaluated", "iterating %s.Evaluate() called a callback", s.text.c_str()); count("evaluated"); }
			if (rng.chance(1, 6)) { auto e = Ptr(x.lazy.CreateEnumerator()); e->Next(); e->Next(); } // an abandoned iteration
			long before = calls; for (auto& src : sources) if (rng.chance(2, 3)) { src->change(rng); count("source_changes"); }
			MUST(calls == before, "eager", "changing the source of %s called a callback", s.text.c_str());
			for (auto& [f, w] : frozen) same(drain(f), w, s.text + ".Evaluate(true) after changes");
			op(want.size());
		}
		// the forced evaluations outlive everything else
		copies.clear(); s = {}; hook = nullptr; sources.clear(); keep.things.clear();
		MUST(alive.expired(), "retained", "a callback is still retained after the last lazy list using it is gone");
		for (auto& [f, w] : frozen) { same(drain(f), w, "a forced evaluation after the source was destroyed"); count("detached_checked"); }
		count("callback_events", calls);
	}
	scope.check("lazy sequences");
}
#if PART == 0
SCENARIO(lazy_vint, 4) { lazyHistory<vint>(rng); }
const char* const harnessProperty = "C10";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SCENARIO(lazy_tracked, 3) { lazyHistory<Tracked>(rng); }
#elif PART == 2
// how much of the source is needed for the first k elements: the shortest prefix that already yields k
SCENARIO(needed_prefix, 4)
{
	List<vint> l; long n = rng.range(0, 40); std::vector<int> src; for (long i = 0; i < n; i++) { src.push_back((int)i); l.Add(i); }
	long maxSeen = -1, calls = 0; struct Stage { int kind; long a, b; }; std::vector<Stage> stages; std::string text = "source";
	LazyList<vint> x = From(l).Select([&](vint v) { maxSeen = std::max(maxSeen, (long)v); calls++; return v; });
	if (rng.chance(1, 3)) x = From(l).Where([&](vint v) { maxSeen = std::max(maxSeen, (long)v); calls++; return true; });
	long k = rng.range(0, 5);
	for (long i = 0; i < k; i++)
	{
		Stage st{ (int)rng.below(5), rng.range(1, 5), rng.below(4) }; stages.push_back(st);
		switch (st.kind)
		{
		case 0: x = x.Select([=](vint v) { return v / st.a + st.b; }); text += ".Select(/)"; break;
		case 1: x = x.Where([=](vint v) { return v % st.a == st.b % st.a; }); text += ".Where(%)"; break;
		case 2: x = x.Skip(st.b); text += fmt(".Skip(%ld)", st.b); break;
		case 3: x = x.Distinct(); text += ".Distinct()"; break;
		default: x = x.Take(st.a * 4 + st.b); text += fmt(".Take(%ld)", st.a * 4 + st.b); break;
		}
	}
	MUST(calls == 0, "eager", "building %s called a callback", text.c_str());
	auto run = [&](std::vector<int> xs) { for (auto& st : stages) switch (st.kind) { case 0: xs = mMap(xs, [&](int v) { return (int)(v / st.a + st.b); }); break; case 1: xs = mFilter(xs, [&](int v) { return v % st.a == st.b % st.a; }); break; case 2: xs = mSkip(xs, st.b); break; case 3: xs = mDistinct(xs); break; default: xs = mTake(xs, st.a * 4 + st.b); } return xs; };
	auto full = run(src); long want = rng.range(0, 6), need = 0; while (need < n && (long)run(mTake(src, need)).size() < want) need++;
	std::vector<int> got; int how = (int)rng.below(5); auto expect = mTake(full, want);
	switch (how)
	{
	case 0: { auto t = x.Take(want); MUST(calls == 0, "eager", "Take called a callback"); for (auto v : t) got.push_back((int)v); break; }
	case 1: { auto e = Ptr(x.CreateEnumerator()); for (long i = 0; i < want && e->Next(); i++) got.push_back((int)e->Current()); break; }
	case 2: { if (want) for (auto v : x) { got.push_back((int)v); if ((long)got.size() == want) break; } break; }
	case 3: { want = 1; need = 0; while (need < n && run(mTake(src, need)).empty()) need++; expect = mTake(full, 1); if (full.empty()) { MUST(rejected([&] { x.First(); }), "first", "First of an empty sequence"); } else got.push_back((int)x.First()); break; }
	default: { want = 1; need = 0; while (need < n && run(mTake(src, need)).empty()) need++; expect.clear(); MUST(x.IsEmpty() == full.empty(), "isempty", "IsEmpty of %s is wrong", text.c_str()); break; }
	}
	LOG("%s first %ld by way %d: %s, prefix needed %ld, callbacks saw up to %ld", text.c_str(), want, how, show(got).c_str(), need, maxSeen);
	same(got, expect, text + fmt(" first %ld", want));
	MUST(maxSeen < need, "too-far", "taking the first %ld of %s needs %ld source elements, but a callback was called for element %ld", want, text.c_str(), need, maxSeen);
	for (char c : text) op(c); op(want, how); op(n); if (need) nontrivial(); count("prefix_checks");
}
// the second part of a concatenation, and the longer side of a pairing, are not called for elements that are not needed
SCENARIO(needed_parts, 2)
{
	List<vint> a, b; long n = rng.range(0, 12), m = rng.range(0, 12); for (long i = 0; i < n; i++) a.Add(i); for (long i = 0; i < m; i++) b.Add(i);
	long ca = -1, cb = -1; auto xa = From(a).Select([&](vint v) { ca = std::max(ca, (long)v); return v; }); auto xb = From(b).Where([&](vint v) { cb = std::max(cb, (long)v); return true; });
	long want = rng.range(0, n + m);
	if (rng.chance(1, 2))
	{
		auto x = xa.Concat(xb).Take(want); vint c = 0; for (auto v : x) { MUST(v == (c < n ? c : c - n), "concat", "a concatenation is wrong"); c++; } MUST(c == want, "concat", "a concatenation has the wrong length");
		MUST(ca < std::min(want, n), "too-far", "the first part was called for element %ld though %ld are needed", ca, want); MUST(cb < std::max(0L, want - n), "too-far", "the second part was called for element %ld though %ld are needed", cb, std::max(0L, want - n));
	}
	else
	{
		want = std::min(want, std::min(n, m)); auto x = xa.Pairwise(xb).Take(want); vint c = 0; for (auto& p : x) { MUST(p.key == c && p.value == c, "pair", "a pairing is wrong"); c++; } MUST(c == want, "pair", "a pairing has the wrong length");
		MUST(ca < std::max(1L, want) && cb < std::max(1L, want), "too-far", "pairing called callbacks for %ld and %ld though %ld pairs are needed", ca, cb, want);
	}
	op(n, m); op(want); if (want) nontrivial(); count("prefix_checks");
}
// the groups of a grouping are lazy themselves: each reads the source when it is iterated
SCENARIO(lazy_groups, 2)
{
	LifetimeScope scope;
	{
		Keep keep; long calls = 0; std::function<void(int)> hook = [&calls](int) { calls++; }; Mutable<vint> src(rng); Seq<vint> s{ src.from(), src.model(), src.name() }; long d = rng.range(0, 3); for (long i = 0; i < d; i++) s = extend<vint>(rng, keep, s, 0, true, hook);
		int a = (int)rng.range(1, 5); long keyed = 0; auto g = s.lazy.GroupBy([=, &keyed](vint v) { keyed++; return (vint)(Val<vint>::get(v) % a); }); MUST(calls == 0 && keyed == 0, "eager", "building %s.GroupBy called a callback", s.text.c_str());
		auto keysNow = [&] { return mDistinct(mMap(s.model(), [=](int v) { return v % a; })); }; std::vector<std::pair<int, LazyList<vint>>> held;
		for (long r = 0; r < 4; r++)
		{
			auto want = keysNow(); size_t i = 0; for (auto& p : g) { MUST(i < want.size() && (int)p.key == want[i], "groups", "group %ld of %s has a wrong key", (long)i, s.text.c_str()); if (rng.chance(1, 2)) held.push_back({ want[i], p.value }); i++; } MUST(i == want.size(), "groups", "%s has %ld groups, expected %ld", s.text.c_str(), (long)i, (long)want.size());
			src.change(rng); count("source_changes"); auto now = s.model(); for (auto& [k, v] : held) { same(drain(v), mFilter(now, [=, k = k](int x) { return x % a == k; }), s.text + fmt(".GroupBy: group %d after a change", k)); count("groups_followed"); } op(want.size(), now.size());
		}
		for (char c : s.text) op(c); if (held.size()) nontrivial(); count("callback_events", calls);
	}
	scope.check("lazy groups");
}
// evaluating a sequence of which only one operand needs calculation
SCENARIO(evaluated_operands, 2)
{
	LifetimeScope scope;
	{
		long n = rng.range(0, 9), m = rng.range(0, 9); List<vint> a, b; for (long i = 0; i < n; i++) a.Add(rng.below(20)); for (long i = 0; i < m; i++) b.Add(rng.below(20)); long calls = 0; bool ca = rng.chance(1, 2), cb = rng.chance(1, 2); std::vector<int> va, vb;
		for (vint x : a) va.push_back((int)x + (ca ? 1 : 0)); for (vint x : b) vb.push_back((int)x + (cb ? 2 : 0)); auto xa = ca ? From(a).Select([&](vint x) { calls++; return x + 1; }) : LazyList<vint>(a); auto xb = cb ? From(b).Select([&](vint x) { calls++; return x + 2; }) : LazyList<vint>(b);
		bool force = rng.chance(1, 3); long k = rng.range(0, 12); int way = (int)rng.below(9); std::vector<int> want; op((u64)(way * 4 + ca * 2 + cb), (u64)(n * 16 + m)); LOG("way %d, %ld and %ld elements, computed %d %d, force %d", way, n, m, (int)ca, (int)cb, (int)force);
		auto check = [&](auto y, auto num) { long before = calls; for (int q = 0; q < 2; q++) { std::vector<int> got; for (auto& v : y) got.push_back(num(v)); same(got, want, fmt("an evaluated sequence (way %d)", way)); } MUST(calls == before, "reevaluated", "iterating an evaluated sequence (way %d) called a callback", way); if (force) { a.Clear(); b.Clear(); for (long i = 0; i < 12; i++) { a.Add(77); b.Add(77); } std::vector<int> got; for (auto& v : y) got.push_back(num(v)); same(got, want, fmt("a sequence (way %d) evaluated with copying after the source changed", way)); } };
		auto plain = [](vint x) { return (int)x; };
		switch (way)
		{
		case 0: for (size_t i = 0; i < va.size() && i < vb.size(); i++) want.push_back(va[i] * 100 + vb[i]); check(xa.Pairwise(xb).Evaluate(force), [](const Pair<vint, vint>& p) { return (int)(p.key * 100 + p.value); }); break;
		case 1: want = mConcat(va, vb); check(xa.Concat(xb).Evaluate(force), plain); break;
		case 2: want = mTake(va, k); check(xa.Take(k).Evaluate(force), plain); break;
		case 3: want = mSkip(va, k); check(xa.Skip(k).Evaluate(force), plain); break;
		case 4: for (int i = 0; i < k % 4; i++) want = mConcat(want, va); check(xa.Repeat(k % 4).Evaluate(force), plain); break;
		case 5: want = mDistinct(va); check(xa.Distinct().Evaluate(force), plain); break;
		case 6: want = mDistinct(mConcat(va, vb)); check(xa.Union(xb).Evaluate(force), plain); break;
		case 7: want = mFilter(va, [](int x) { return x % 2 == 0; }); check(xa.Where([&](vint x) { calls++; return x % 2 == 0; }).Evaluate(force), plain); break;
		default: want = mTake(mConcat(mSkip(mConcat(va, vb), k % 3), va), k); check(xa.Concat(xb).Skip(k % 3).Concat(xa).Take(k).Evaluate(force), plain); break;
		}
		count("evaluated_operands"); if (want.size()) nontrivial();
	}
	scope.check("evaluated operands");
}
SCENARIO(lazy_wstring, 2) { lazyHistory<WString>(rng); }
#endif
