#include "chain.h"
#include <cmath>
#include <compare>
using namespace H;
template<typename T> void chains(Rng& rng)
{
	LifetimeScope scope;
	{
		Keep keep; auto s = chainOf<T>(rng, keep, (int)rng.range(0, 5)); auto want = s.model(); auto& x = s.lazy; const char* t = s.text.c_str();
		LOG("%s = %s", t, show(want).c_str());
		same(drain(x), want, s.text); same(drain(x), want, s.text + " (second time)");
		// reductions
		long n = (long)want.size(); int a = (int)rng.range(1, 5), b = (int)rng.below(5);
		MUST(x.Count() == n, "count", "%s.Count() is %ld, expected %ld", t, (long)x.Count(), n);
		MUST(x.IsEmpty() == (n == 0), "isempty", "%s.IsEmpty() is wrong", t);
		bool all = true, any = false; for (int v : want) { all = all && v % a == b; any = any || v % a == b; }
		MUST(x.All([=](T e) { return Val<T>::get(e) % a == b; }) == all, "all", "%s.All is wrong", t); MUST(x.Any([=](T e) { return Val<T>::get(e) % a == b; }) == any, "any", "%s.Any is wrong", t);
		auto f = [](const T& p, const T& q) { return Val<T>::make((Val<T>::get(p) * 5 + Val<T>::get(q)) % M); };
		int acc = 11; for (int v : want) acc = (acc * 3 + v) % M; int got = (int)x.Aggregate((vint)11, [](vint p, const T& e) { return (p * 3 + Val<T>::get(e)) % M; }); MUST(got == acc, "aggregate", "%s.Aggregate(init) is %d, expected %d", t, got, acc);
		if (n)
		{
			int ag = want[0]; for (long i = 1; i < n; i++) ag = (ag * 5 + want[i]) % M; got = Val<T>::get(x.Aggregate(f)); MUST(got == ag, "aggregate", "%s.Aggregate is %d, expected %d", t, got, ag);
			int mx = want[0], mn = want[0]; for (int v : want) { if (lessKey<T>(mx, v)) mx = v; if (lessKey<T>(v, mn)) mn = v; }
			MUST(Val<T>::get(x.Max()) == mx, "max", "%s.Max() is wrong", t); MUST(Val<T>::get(x.Min()) == mn, "min", "%s.Min() is wrong", t);
			MUST(Val<T>::get(x.First()) == want[0] && Val<T>::get(x.First(Val<T>::make(96))) == want[0], "first", "%s.First() is wrong", t);
			MUST(Val<T>::get(x.Last()) == want[n - 1] && Val<T>::get(x.Last(Val<T>::make(96))) == want[n - 1], "last", "%s.Last() is wrong", t); count("nonempty_reductions");
		}
		else
		{
			MUST(rejected([&] { x.Aggregate(f); }) && rejected([&] { x.Max(); }) && rejected([&] { x.Min(); }) && rejected([&] { x.First(); }) && rejected([&] { x.Last(); }), "empty-reduction", "a reduction of the empty %s raised no error", t);
			MUST(Val<T>::get(x.First(Val<T>::make(96))) == 96 && Val<T>::get(x.Last(Val<T>::make(95))) == 95, "default", "%s: the default is not returned", t); count("empty_reductions");
		}
		// range loops
		std::vector<int> loop; for (auto& e : x) loop.push_back(Val<T>::get(e)); same(loop, want, s.text + " in a range loop");
		loop.clear(); vint k = 0; for (auto [e, i] : indexed(x)) { MUST(i == k, "index", "an indexed loop over %s reports index %ld at element %ld", t, (long)i, (long)k); k++; loop.push_back(Val<T>::get(e)); } same(loop, want, s.text + " in an indexed loop");
		List<T> l; CopyFrom(l, x); loop.clear(); k = 0; for (auto [e, i] : indexed((const List<T>&)l)) { MUST(i == k, "index", "an indexed loop over a list reports a wrong index"); k++; loop.push_back(Val<T>::get(e)); if (rng.chance(1, 20)) break; } same(loop, mTake(want, k), "an indexed loop over a list");
		for (auto& e : x) { if (rng.chance(1, 3)) break; (void)e; }
		{ // the iterators used by hand
			loop.clear(); auto b = begin((const IEnumerable<T>&)x); auto z = end((const IEnumerable<T>&)x);
			while (true) { bool e = b == z; MUST(e == (z == b) && e == !(b != z) && e == !(z != b), "iterator", "the comparisons of an iterator of %s with the end disagree", t); MUST(e == ((long)loop.size() == n), "iterator", "an iterator of %s is at the end after %ld of %ld elements", t, (long)loop.size(), n); if (e) break; loop.push_back(Val<T>::get(*b)); ++b; } same(loop, want, s.text + " by iterators");
			loop.clear(); auto ix = indexed((const IEnumerable<T>&)x); auto b2 = begin(ix); auto z2 = end(ix);
			while (true) { bool e = b2 == z2; MUST(e == (z2 == b2) && e == !(b2 != z2) && e == !(z2 != b2), "iterator", "the comparisons of an indexed iterator of %s with the end disagree", t); MUST(e == ((long)loop.size() == n), "iterator", "an indexed iterator of %s is at the end after %ld of %ld elements", t, (long)loop.size(), n); if (e) break; auto tp = *b2; MUST(tp.template get<1>() == (vint)loop.size(), "iterator", "wrong index"); loop.push_back(Val<T>::get(tp.template get<0>())); ++b2; } same(loop, want, s.text + " by indexed iterators");
		}
		// comparison
		Keep keep2; auto o = rng.chance(1, 3) ? s : rng.chance(1, 3) ? Seq<T>{ From(l), s.model, "copy" } : chainOf<T>(rng, keep2, 2); if (rng.chance(1, 4)) o = Seq<T>{ o.lazy.Take(n > 0 ? n - 1 : 0), [m = o.model, n] { return mTake(m(), n > 0 ? n - 1 : 0); }, o.text + ".Take(n-1)" };
		auto ow = o.model(); int cmp = 0; for (size_t i = 0;; i++) { if (i == want.size() || i == ow.size()) { cmp = want.size() == ow.size() ? 0 : want.size() < ow.size() ? -1 : 1; break; } if (lessKey<T>(want[i], ow[i])) { cmp = -1; break; } if (lessKey<T>(ow[i], want[i])) { cmp = 1; break; } }
		auto c = CompareEnumerable(x, o.lazy), c2 = CompareEnumerable(o.lazy, x); MUST((c < 0 ? -1 : c > 0 ? 1 : 0) == cmp && (c2 < 0 ? 1 : c2 > 0 ? -1 : 0) == cmp, "compare", "CompareEnumerable(%s, %s) is wrong, expected %d", t, o.text.c_str(), cmp);
		same(drain(x), want, s.text + " (after everything)");
		for (char ch : s.text) op(ch); for (int v : want) op(v); if (n) nontrivial(); count("chains"); count("elements_compared", n * 4);
	}
	scope.check("operator chains");
}
#if PART == 0
SCENARIO(chain_vint, 3) { chains<vint>(rng); }
const char* const harnessProperty = "C09";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SCENARIO(chain_wstring, 2) { chains<WString>(rng); }
#elif PART == 2
SCENARIO(chain_tracked, 2) { chains<Tracked>(rng); }
#elif PART == 3
SCENARIO(chain_ptr, 2) { chains<Ptr<Box>>(rng); }
#elif PART == 4
// typed operators on shared pointers, pairs and groups
struct Base9 : Object { int id; Base9(int i) : id(i) {} }; struct Left9 : virtual Base9 { Left9(int i) : Base9(i) {} }; struct Right9 : virtual Base9 { Right9(int i) : Base9(i) {} }; struct Both9 : Left9, Right9 { Both9(int i) : Base9(i), Left9(i), Right9(i) {} };
SCENARIO(long_chains, 1)
{
	if (!rng.chance(1, 4)) return;
	Keep keep; long n = rng.pick({ 255L, 1000L, 1024L, 4096L, 6000L }) + rng.range(-2, 2); auto l = keep.own(new List<vint>); auto xs = std::make_shared<std::vector<int>>(); for (long i = 0; i < n; i++) { int v = (int)rng.below(M); xs->push_back(v); l->Add(Val<vint>::make(v)); } Seq<vint> s{ From(*l), [=] { return *xs; }, fmt("list of %ld", n) };
	long k = rng.range(1, 3); for (long i = 0; i < k; i++) { auto m = s.model; auto x = s.lazy; switch (rng.below(10)) {
		case 0: { int d = (int)rng.range(1, 9); s = { x.Select([=](vint v) { return Val<vint>::make((Val<vint>::get(v) + d) % M); }), [=] { return mMap(m(), [=](int v) { return (v + d) % M; }); }, s.text + ".Select" }; break; }
		case 1: { int d = (int)rng.range(2, 300); s = { x.Where([=](vint v) { return Val<vint>::get(v) % d != 0; }), [=] { return mFilter(m(), [=](int v) { return v % d != 0; }); }, s.text + ".Where" }; break; }
		case 2: s = { x.Concat(x), [=] { auto a = m(); return mConcat(a, a); }, s.text + ".Concat(itself)" }; break;
		case 3: { long c = rng.range(0, n + 3); s = { x.Take(c), [=] { return mTake(m(), c); }, s.text + fmt(".Take(%ld)", c) }; break; }
		case 4: { long c = rng.range(0, n + 3); s = { x.Skip(c), [=] { return mSkip(m(), c); }, s.text + fmt(".Skip(%ld)", c) }; break; }
		case 5: { long c = rng.chance(1, 3) ? rng.range(2, 3) : 1; s = { x.Repeat(c), [=] { std::vector<int> r, a = m(); for (long j = 0; j < c; j++) r = mConcat(r, a); return r; }, s.text + ".Repeat" }; break; }
		case 6: s = { x.Reverse(), [r = m()]() mutable { auto c = r; std::reverse(c.begin(), c.end()); return c; }, s.text + ".Reverse" }; break;
		case 7: s = { x.Distinct(), [=] { return mDistinct(m()); }, s.text + ".Distinct" }; break;
		case 8: { auto r = m(); std::stable_sort(r.begin(), r.end(), [](int a, int b) { return lessKey<vint>(a, b); }); s = { x.OrderBySelf(), [=] { return r; }, s.text + ".OrderBySelf" }; break; }
		default: s = { x.Pairwise(x.Skip(1)).Select([](Pair<vint, vint> p) { return Val<vint>::make((Val<vint>::get(p.key) * 7 + Val<vint>::get(p.value)) % M); }), [=] { auto a = m(); std::vector<int> r; for (size_t j = 0; j + 1 < a.size(); j++) r.push_back((a[j] * 7 + a[j + 1]) % M); return r; }, s.text + ".Pairwise(shifted)" }; } }
	auto want = s.model(); LOG("%s: %ld elements", s.text.c_str(), (long)want.size()); auto got = drain(s.lazy); MUST(got.size() == want.size(), "long-count", "%s yields %ld elements, expected %ld", s.text.c_str(), (long)got.size(), (long)want.size()); for (size_t i = 0; i < want.size(); i++) MUST(got[i] == want[i], "long-content", "%s: element %ld is %d, expected %d", s.text.c_str(), (long)i, got[i], want[i]); MUST(s.lazy.Count() == (vint)want.size(), "count", "Count of %s is wrong", s.text.c_str()); vint k2 = 0; for (auto [e, i] : indexed(s.lazy)) { MUST(i == k2 && Val<vint>::get(e) == want[(size_t)k2], "index", "an indexed loop over %s is wrong at %ld", s.text.c_str(), (long)k2); k2++; }
	for (char c : s.text) op(c); op(want.size()); if (want.size()) nontrivial(); count("long_chains");
}
// reductions, comparisons and cuts at every length around block-size boundaries
SCENARIO(lengths, 1)
{
	long n = rng.chance(1, 2) ? rng.range(0, 300) : rng.pick({ 8L, 16L, 32L, 64L, 100L, 128L, 200L, 255L, 256L, 257L, 512L, 1000L, 1024L, 2048L, 4096L }) + rng.range(-1, 1);
	List<vint> l; std::vector<vint> w; long k = rng.pick({ 1L, 7L, 1000003L }); for (long i = 0; i < n; i++) { vint v = (vint)((i * k) ^ (long)rng.below(3)); l.Add(v); w.push_back(v); } LOG("%ld elements", n);
	auto x = rng.chance(1, 2) ? From(l) : From(l).Where([](vint) { return true; }); auto f = [](vint a, vint b) { return (vint)((unsigned long)a * 31 + (unsigned long)b); };
	MUST(x.Count() == n && x.IsEmpty() == (n == 0), "count", "Count() of %ld elements is %ld", n, (long)x.Count()); MUST(x.First(-77) == (n ? w[0] : -77) && x.Last(-77) == (n ? w[n - 1] : -77), "ends", "First or Last of %ld elements is wrong", n);
	vint ag = 5; for (vint v : w) ag = f(ag, v); MUST(x.Aggregate((vint)5, f) == ag, "aggregate", "Aggregate of %ld elements is wrong", n);
	if (n) { MUST(x.First() == w[0] && x.Last() == w[n - 1], "ends", "First or Last of %ld elements is wrong", n); ag = w[0]; for (long i = 1; i < n; i++) ag = f(ag, w[i]); MUST(x.Aggregate(f) == ag, "aggregate", "Aggregate of %ld elements is wrong", n); MUST(x.Max() == *std::max_element(w.begin(), w.end()) && x.Min() == *std::min_element(w.begin(), w.end()), "extremes", "Max or Min of %ld elements is wrong", n); }
	for (int q = 0; q < 4; q++)
	{
		long at = !n ? 0 : rng.pick({ 0L, n - 1, (long)rng.below(n), n / 2, (n - 1) / 64 * 64, std::min(n - 1, 63L) }); if (n) { auto bad = w[at]; bool first = std::find(w.begin(), w.end(), bad) - w.begin() == at; auto is = [=](vint v) { return v == bad; }; auto isnt = [=](vint v) { return v != bad; }; MUST(x.Any(is) && !x.All(isnt), "any", "Any or All misses element %ld of %ld", at, n); (void)first; auto z = x.Where(isnt); MUST(z.Count() == n - std::count(w.begin(), w.end(), bad), "where", "Where yields a wrong number of elements"); }
		MUST(x.Take(at).Count() == at && x.Skip(at).Count() == n - at && (at == n || x.Skip(at).First() == w[at]) && x.Take(at).Last(-5) == (at ? w[at - 1] : -5), "cut", "Take or Skip at %ld of %ld is wrong", at, n);
		List<vint> o; for (vint v : w) o.Add(v); if (n) o[at] = w[at] + (vint)rng.range(-1, 1); if (rng.chance(1, 3)) o.Add(0); std::vector<vint> ow; for (vint v : o) ow.push_back(v); auto c = CompareEnumerable(x, From(o)); auto want = w < ow ? -1 : w > ow ? 1 : 0; MUST((c < 0 ? -1 : c > 0 ? 1 : 0) == want, "compare", "CompareEnumerable of %ld elements that differ at %ld is wrong", n, at);
		op(at); auto rv = x.Reverse(); MUST(rv.Count() == n && rv.First(-3) == (n ? w[n - 1] : -3) && rv.Skip(n - at).First(-3) == (at ? w[at - 1] : -3), "reverse", "Reverse of %ld elements is wrong", n);
	}
	op(n); if (n) nontrivial(); count("lengths");
}
// sequences of numbers that may be unordered compare like std::lexicographical_compare_three_way
SCENARIO(unordered_compare, 1)
{
	auto make = [&] { std::vector<double> v; long n = rng.range(0, 6); for (long i = 0; i < n; i++) v.push_back(rng.chance(1, 8) ? NAN : (double)rng.below(2)); return v; };
	for (int q = 0; q < 20; q++) { auto a = make(), b = rng.chance(1, 3) ? a : make(); List<double> x, y; for (double d : a) x.Add(d); for (double d : b) y.Add(d); auto w = std::lexicographical_compare_three_way(a.begin(), a.end(), b.begin(), b.end()); std::partial_ordering c = rng.chance(1, 2) ? CompareEnumerable(x, y) : CompareEnumerable(From(x).Where([](double) { return true; }), y); MUST(c == w, "compare-unordered", "comparing sequences of %ld and %ld numbers with NaN gives another result than their elements", (long)a.size(), (long)b.size()); for (double d : a) op(d == d ? (u64)d : 7); op(99, b.size()); count("unordered_comparisons"); if (w == std::partial_ordering::unordered) { count("unordered_results"); nontrivial(); } }
}
SCENARIO(casting, 1)
{
	List<Ptr<Base9>> l; std::vector<int> kinds; long n = rng.range(0, 14);
	for (long i = 0; i < n; i++) { int k = (int)rng.below(5); kinds.push_back(k); l.Add(k == 0 ? Ptr(new Base9((int)i)) : k == 1 ? Ptr<Base9>(Ptr(new Left9((int)i))) : k == 2 ? Ptr<Base9>(Ptr(new Right9((int)i))) : k == 3 ? Ptr<Base9>(Ptr(new Both9((int)i))) : Ptr<Base9>()); }
	auto isLeft = [&](long i) { return kinds[i] == 1 || kinds[i] == 3; };
	vint at = 0; auto casted = From(l).Cast<Left9>(); for (auto& p : casted) { MUST((bool)p == isLeft(at), "cast", "Cast yields %s for element %ld", p ? "an object" : "nothing", (long)at); if (p) MUST(p->id == at && p.Obj() == dynamic_cast<Left9*>(l[at].Obj()), "cast", "Cast yields another object"); at++; } MUST(at == n, "cast", "Cast changes the number of elements");
	std::vector<int> want, got; for (long i = 0; i < n; i++) if (isLeft(i)) want.push_back((int)i); auto found = From(l).FindType<Left9>(); for (auto& p : found) got.push_back(p->id); same(got, want, "FindType");
	got.clear(); want.clear(); for (long i = 0; i < n; i++) if (kinds[i] == 3) want.push_back((int)i); auto both = From(l).FindType<Right9>().Cast<Both9>().Where([](Ptr<Both9> p) { return (bool)p; }); for (auto& p : both) got.push_back(p->id); same(got, want, "FindType.Cast.Where");
	for (int k : kinds) op(k); if (n) nontrivial(); count("chains");
}
SCENARIO(grouping, 1)
{
	Keep keep; auto s = chainOf<vint>(rng, keep, (int)rng.range(0, 3)); auto want = s.model(); int a = (int)rng.range(1, 6); LOG("%s grouped by %%%d", s.text.c_str(), a);
	auto g = s.lazy.GroupBy([=](vint v) { return Val<WString>::make(Val<vint>::get(v) % a); }); auto keys = mDistinct(mMap(want, [=](int v) { return v % a; })); size_t i = 0;
	for (auto& p : g) { MUST(i < keys.size(), "groupby", "GroupBy yields too many groups"); MUST(Val<WString>::get(p.key) == keys[i], "groupby", "group %ld has key %d, expected %d", (long)i, Val<WString>::get(p.key), keys[i]); int k = keys[i]; same(drain(p.value), mFilter(want, [=](int v) { return v % a == k; }), "a group of " + s.text); i++; }
	MUST(i == keys.size(), "groupby", "GroupBy yields too few groups");
	// pairs of different types, dictionaries and groups as sources
	Keep k2; auto o = chainOf<WString>(rng, k2, 2); auto ow = o.model(); i = 0; auto pw = s.lazy.Pairwise(o.lazy); for (auto& p : pw) { MUST(i < want.size() && i < ow.size() && Val<vint>::get(p.key) == want[i] && Val<WString>::get(p.value) == ow[i], "pairwise", "pair %ld of %s and %s is wrong", (long)i, s.text.c_str(), o.text.c_str()); i++; } MUST(i == std::min(want.size(), ow.size()), "pairwise", "Pairwise yields %ld pairs", (long)i);
	Dictionary<vint, WString> d; std::map<vint, int> dm; for (size_t j = 0; j < want.size() && j < ow.size(); j++) { d.Set(want[j], Val<WString>::make(ow[j])); dm[want[j]] = ow[j]; }
	auto keys2 = From(d).Where([](const Pair<const vint&, const WString&>& p) { return p.key % 2 == 0; }).Select([](const Pair<const vint&, const WString&>& p) { return Val<WString>::get(p.value) + p.key * 100; });
	auto it = dm.begin(); for (auto v : keys2) { while (it != dm.end() && it->first % 2) ++it; MUST(it != dm.end() && v == it->second + it->first * 100, "dict-source", "a query over a dictionary is wrong"); ++it; } while (it != dm.end() && it->first % 2) ++it; MUST(it == dm.end(), "dict-source", "a query over a dictionary is incomplete");
	for (int v : want) op(v); op(a); if (want.size()) nontrivial(); count("chains");
}
#endif
