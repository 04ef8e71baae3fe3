// Enumerator protocol: random interleavings of Next/Current/Index/Reset/Clone/destroy/create over a set of live
// enumerators of one sequence, each tracked by a model {position, ended}.
#include "chain.h"
using namespace H;
struct Live { long pos = -1; bool ended = false; long steps = 0; };
template<typename E> void protocol(Rng& rng, std::function<IEnumerator<E>*()> create, const std::vector<int>& want, std::function<int(const E&)> num, const std::string& text, int maxOps, std::function<void()> dropSource = {})
{
	std::vector<std::pair<IEnumerator<E>*, Live>> es; const char* t = text.c_str(); long n = (long)want.size(); bool created = true;
	LOG("%s = %s", t, show(want).c_str());
	auto check = [&](size_t i, const char* after)
	{
		auto [e, m] = es[i];
		if (m.ended) return;
		MUST(e->Index() == m.pos, "position", "%s: an enumerator at position %ld reports %ld after %s", t, m.pos, (long)e->Index(), after);
		if (m.pos >= 0) { int g = num(e->Current()); MUST(g == want[m.pos], "current", "%s: element %ld is %d, expected %d after %s", t, m.pos, g, want[m.pos], after); }
	};
	auto checkAll = [&](const char* after) { for (size_t i = 0; i < es.size(); i++) check(i, after); count("enumerator_states_compared", es.size()); };
	auto add = [&] { es.push_back({ create(), Live{} }); };
	add();
	long steps = rng.range(5, maxOps);
	for (long k = 0; k < steps; k++)
	{
		if (es.empty()) { if (!created) break; add(); continue; }
		size_t i = (size_t)rng.below((long)es.size()); auto& [e, m] = es[i]; int what = (int)rng.below(20); const char* name = "";
		if (what < 11)
		{
			name = "Next"; long times = rng.chance(1, 6) ? rng.range(1, n + 2) : 1;
			for (long q = 0; q < times; q++)
			{
				bool g = e->Next(), w = !m.ended && m.pos + 1 < n;
				MUST(g == w, m.ended ? "next-after-end" : "next", "%s: Next at position %ld of %ld%s returned %d", t, m.pos, n, m.ended ? " (already ended)" : "", g);
				if (w) m.pos++; else { m.ended = true; count("ends_seen"); }
			}
		}
		else if (what < 14)
		{
			if (es.size() > 5) continue;
			name = "Clone"; auto c = e->Clone(); auto m2 = m; MUST(c != e, "clone", "%s: Clone returned the enumerator itself", t); es.push_back({ c, m2 }); count(m2.ended ? "clones_of_ended" : m2.pos >= 0 ? "clones_in_the_middle" : "clones_at_start");
		}
		else if (what < 16) { name = "Reset"; count(m.ended ? "resets_after_end" : m.pos >= 0 ? "resets_in_the_middle" : "resets_at_start"); e->Reset(); m = Live{}; }
		else if (what < 18) { name = "destroy"; delete e; es.erase(es.begin() + i); }
		else if (what < 19) { if (es.size() > 5 || !created) continue; name = "CreateEnumerator"; add(); }
		else { if (!dropSource || !created || !rng.chance(1, 4)) continue; name = "destroying the sequence object"; dropSource(); created = false; count("sequences_dropped"); }
		LOG("%s on #%zu", name, i); op((u64)what, es.size() * 64 + (i < es.size() ? (es[i].second.pos + 2) : 0));
		if (rng.chance(1, 3)) checkAll(name); else if (i < es.size()) check(i, name);
	}
	checkAll("the history");
	// whatever is left runs to its end with exactly the remaining elements
	for (auto& [e, m] : es)
	{
		if (rng.chance(1, 3)) { e->Reset(); m = Live{}; }
		while (!m.ended) { bool g = e->Next(), w = m.pos + 1 < n; MUST(g == w, "next", "%s: Next at position %ld of %ld returned %d in the final run", t, m.pos, n, g); if (w) { m.pos++; MUST(e->Index() == m.pos && num(e->Current()) == want[m.pos], "current", "%s: wrong element or position at %ld in the final run", t, m.pos); } else m.ended = true; }
		MUST(!e->Next(), "next-after-end", "%s: Next succeeds after the end", t);
		delete e;
	}
	if (n > 0) nontrivial(); count("histories");
}
template<typename T> void chainProtocol(Rng& rng)
{
	LifetimeScope scope;
	{
		Keep keep; auto s = chainOf<T>(rng, keep, (int)rng.range(1, 4)); auto want = s.model(); if (want.size() > (rng.chance(1, 3) ? 400 : 40)) { s = { s.lazy.Take(30), {}, s.text + ".Take(30)" }; want.resize(30); }
		for (char c : s.text) if (c < '0' || c > '9') op(c);
		auto lazy = new LazyList<T>(s.lazy); s.lazy = LazyList<T>(); auto text = s.text;
		bool dropped = false;
		protocol<T>(rng, [&] { return lazy->CreateEnumerator(); }, want, [](const T& x) { return Val<T>::get(x); }, text, 60, [&] { delete lazy; dropped = true; });
		if (!dropped) delete lazy;
	}
	scope.check("enumerators of a chain");
}
// each operator once, directly on a simple source, with sizes that put the interesting positions within reach
template<typename T> void singleOperator(Rng& rng)
{
	LifetimeScope scope;
	{
		Keep keep; auto s = sourceOf<T>(rng, keep); auto lazyOnly = rng.chance(1, 2); auto r = extend<T>(rng, keep, s, 0, lazyOnly); auto want = r.model(); if (want.size() > 400) { scope.check("nothing"); return; }
		for (char c : r.text) if (c < '0' || c > '9') op(c);
		protocol<T>(rng, [&] { return r.lazy.CreateEnumerator(); }, want, [](const T& x) { return Val<T>::get(x); }, r.text, 60);
	}
	scope.check("enumerators of an operator");
}
template<typename T> void containers(Rng& rng)
{
	LifetimeScope scope;
	{
		long n = rng.chance(1, 6) ? 0 : rng.range(1, rng.chance(1, 25) ? rng.pick({ 300L, 300L, 1500L }) : 12); std::vector<int> xs; for (long i = 0; i < n; i++) xs.push_back((int)rng.below(M));
		auto num = [](const T& x) { return Val<T>::get(x); };
		switch (rng.below(3))
		{
		case 0: { List<T> l; for (int x : xs) l.Add(Val<T>::make(x)); protocol<T>(rng, [&] { return l.CreateEnumerator(); }, xs, num, "List", 60); break; }
		case 1: { Array<T> a(n); for (long i = 0; i < n; i++) a[i] = Val<T>::make(xs[i]); protocol<T>(rng, [&] { return a.CreateEnumerator(); }, xs, num, "Array", 60); break; }
		default: { SortedList<T> l; for (int x : xs) l.Add(Val<T>::make(x)); std::stable_sort(xs.begin(), xs.end(), [](int a, int b) { return lessKey<T>(a, b); }); protocol<T>(rng, [&] { return l.CreateEnumerator(); }, xs, num, "SortedList", 60); break; }
		}
	}
	scope.check("enumerators of a container");
}
#if PART == 0
SCENARIO(chain_vint, 4) { chainProtocol<vint>(rng); }
SCENARIO(operator_vint, 3) { singleOperator<vint>(rng); }
const char* const harnessProperty = "C08";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SCENARIO(chain_tracked, 3) { chainProtocol<Tracked>(rng); }
SCENARIO(operator_tracked, 3) { singleOperator<Tracked>(rng); }
#elif PART == 2
SCENARIO(chain_wstring, 2) { chainProtocol<WString>(rng); }
SCENARIO(operator_wstring, 2) { singleOperator<WString>(rng); }
#elif PART == 3
SCENARIO(containers_vint, 2) { containers<vint>(rng); }
SCENARIO(containers_tracked, 1) { containers<Tracked>(rng); }
SCENARIO(containers_wstring, 1) { containers<WString>(rng); }
template<typename K, typename V> void maps(Rng& rng)
{
	LifetimeScope scope;
	{
		bool big = rng.chance(1, 25); long n = rng.chance(1, 8) ? 0 : rng.range(1, big ? rng.pick({ 250L, 250L, 1500L }) : 10);
		if (rng.chance(1, 2))
		{
			Dictionary<K, V> d; std::map<int, int> m; for (long i = 0; i < n; i++) { int k = (int)rng.below(big ? 400 : 30), v = (int)rng.below(M); d.Set(Val<K>::make(k), Val<V>::make(v)); m[k] = v; }
			std::vector<int> want; for (auto& [k, v] : m) want.push_back(k * 1000 + v); using E = Pair<const K&, const V&>;
			protocol<E>(rng, [&] { return d.CreateEnumerator(); }, want, [](const E& p) { return Val<K>::get(p.key) * 1000 + Val<V>::get(p.value); }, "Dictionary", 60);
			LazyList<Pair<K, V>> lz = From(d).Select([](const E& p) { return Pair<K, V>(p.key, p.value); }); protocol<Pair<K, V>>(rng, [&] { return lz.CreateEnumerator(); }, want, [](const Pair<K, V>& p) { return Val<K>::get(p.key) * 1000 + Val<V>::get(p.value); }, "Dictionary query", 40);
		}
		else
		{
			Group<K, V> g; std::map<int, std::vector<int>> m; long keys = rng.range(1, big ? 200 : 6); for (long i = 0; i < n; i++) { int k = (int)rng.below(keys), v = (int)rng.below(M); g.Add(Val<K>::make(k), Val<V>::make(v)); m[k].push_back(v); }
			std::vector<int> want; for (auto& [k, vs] : m) for (int v : vs) want.push_back(k * 1000 + v); using E = Pair<const K&, const V&>;
			protocol<E>(rng, [&] { return g.CreateEnumerator(); }, want, [](const E& p) { return Val<K>::get(p.key) * 1000 + Val<V>::get(p.value); }, "Group", 80);
			if (n) { auto k = m.begin()->first; auto& vs = m.begin()->second; auto& l = g.Get(Val<K>::make(k)); protocol<V>(rng, [&] { return l.CreateEnumerator(); }, vs, [](const V& v) { return Val<V>::get(v); }, "Group values", 30); }
		}
	}
	scope.check("enumerators of a map");
}
SCENARIO(maps_vint, 2) { maps<vint, vint>(rng); }
SCENARIO(maps_tracked, 1) { maps<Tracked, Tracked>(rng); }
SCENARIO(maps_wstring, 1) { maps<WString, Tracked>(rng); }
#elif PART == 4
// sequences whose elements are not plain values: pairs, groups, ranges, empty, casts
struct Base8 : Object { int id; Base8(int i) : id(i) {} }; struct Derived8 : Base8 { using Base8::Base8; };
SCENARIO(shapes, 4)
{
	LifetimeScope scope;
	{
		Keep keep; auto s = chainOf<Tracked>(rng, keep, (int)rng.range(0, 2)); auto o = chainOf<WString>(rng, keep, (int)rng.range(0, 2)); auto a = s.model(), b = o.model();
		if (a.size() > 400 || b.size() > 400) { a.clear(); s = { LazyList<Tracked>(), {}, "empty" }; }
		switch (rng.below(6))
		{
		case 0: { using E = Pair<Tracked, WString>; auto z = s.lazy.Pairwise(o.lazy); std::vector<int> want; for (size_t i = 0; i < a.size() && i < b.size(); i++) want.push_back(a[i] * 1000 + b[i]); protocol<E>(rng, [&] { return z.CreateEnumerator(); }, want, [](const E& p) { return p.key.v() * 1000 + Val<WString>::get(p.value); }, s.text + ".Pairwise(" + o.text + ")", 60); break; }
		case 1: { int k = (int)rng.range(1, 4); using E = Pair<vint, LazyList<Tracked>>; auto z = s.lazy.GroupBy([=](Tracked t) { return (vint)(t.v() % k); }); auto want = mDistinct(mMap(a, [=](int v) { return v % k; })); auto num = [&](const E& p) { int key = (int)p.key; same(drain(p.value), mFilter(a, [=](int v) { return v % k == key; }), "a group of " + s.text); return key; }; protocol<E>(rng, [&] { return z.CreateEnumerator(); }, want, num, s.text + ".GroupBy", 60); break; }
		case 2: { vint from = rng.range(-50, 50), c = rng.range(0, rng.chance(1, 20) ? 300 : 9); auto z = Range(from, c); std::vector<int> want; for (vint i = 0; i < c; i++) want.push_back((int)(from + i)); protocol<vint>(rng, [&] { return z.CreateEnumerator(); }, want, [](const vint& x) { return (int)x; }, "Range", 60); break; }
		case 3: { List<Ptr<Base8>> l; std::vector<int> want, w2; long n = rng.below(9); for (long i = 0; i < n; i++) { bool d = rng.chance(1, 2); l.Add(d ? Ptr<Base8>(Ptr(new Derived8((int)i))) : Ptr(new Base8((int)i))); want.push_back(d ? (int)i : -1); if (d) w2.push_back((int)i); } using E = Ptr<Derived8>; auto z = From(l).Cast<Derived8>(); auto num = [](const E& p) { return p ? p->id : -1; }; protocol<E>(rng, [&] { return z.CreateEnumerator(); }, want, num, "Cast", 40); auto f = From(l).FindType<Derived8>(); protocol<E>(rng, [&] { return f.CreateEnumerator(); }, w2, num, "FindType", 40); break; }
		case 4: { LazyList<Tracked> e; protocol<Tracked>(rng, [&] { return e.CreateEnumerator(); }, {}, [](const Tracked& t) { return t.v(); }, "empty", 30); auto z = e.Concat(s.lazy).Concat(e); protocol<Tracked>(rng, [&] { return z.CreateEnumerator(); }, a, [](const Tracked& t) { return t.v(); }, "empty.Concat(" + s.text + ").Concat(empty)", 40); break; }
		default: { WString str = L"hello world"; auto text = str.Left(rng.below(12)); std::vector<int> want; for (vint i = 0; i < text.Length(); i++) want.push_back(text[i]); auto z = From(text.Buffer(), text.Buffer() + text.Length()); protocol<wchar_t>(rng, [&] { return z.CreateEnumerator(); }, want, [](const wchar_t& c) { return (int)c; }, "characters", 40); break; }
		}
	}
	scope.check("enumerators of shapes");
}
#endif
