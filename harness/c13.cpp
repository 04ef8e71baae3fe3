// CopyFrom between every kind of source and target.
#include "chain.h"
using namespace H;
template<typename C> std::vector<int> readAll(const C& c) { using T = typename C::ElementType; std::vector<int> r; for (vint i = 0; i < c.Count(); i++) r.push_back(Val<T>::get(c.Get(i))); return r; }
static long sizeOf(Rng& rng) { return rng.chance(1, 5) ? 0 : rng.chance(1, 4) ? 1 : rng.chance(1, 60) ? rng.range(90, 1200) : rng.chance(1, 10) ? rng.range(20, 90) : rng.range(0, 14); }
template<typename T> void values(Rng& rng)
{
	LifetimeScope scope;
	{
		// source
		Keep keep; long n = sizeOf(rng); std::vector<int> xs; for (long i = 0; i < n; i++) xs.push_back((int)rng.below(M)); auto by = [](int a, int b) { return lessKey<T>(a, b); };
		List<T> list; Array<T> array(n); SortedList<T> sorted; for (long i = 0; i < n; i++) { list.Add(Val<T>::make(xs[i])); array[i] = Val<T>::make(xs[i]); sorted.Add(Val<T>::make(xs[i])); }
		auto ss = xs; std::sort(ss.begin(), ss.end(), by); auto chain = chainOf<T>(rng, keep, (int)rng.range(0, 3)); auto cs = chain.model();
		Group<vint, T> group; Dictionary<vint, T> dict; for (long i = 0; i < n; i++) { group.Add(1, Val<T>::make(xs[i])); dict.Set(i, Val<T>::make(xs[i])); }
		// target with previous content
		long m = sizeOf(rng); std::vector<int> old; for (long i = 0; i < m; i++) old.push_back((int)rng.below(M));
		bool append = rng.chance(1, 2), dflt = !append && rng.chance(1, 2); int from = (int)rng.below(9), to = (int)rng.below(3); std::vector<int> want; const char* names[] = { "List", "Array", "SortedList", "lazy chain", "raw range", "raw count", "values of a dictionary", "values of a group", "lazy list" };
		auto copy = [&](auto& target)
		{
			auto go = [&](const auto& src) { if (dflt) CopyFrom(target, src); else CopyFrom(target, src, append); };
			switch (from)
			{
			case 0: go(list); want = xs; break;
			case 1: go(array); want = xs; break;
			case 2: go(sorted); want = ss; break;
			case 3: go(chain.lazy); want = cs; break;
			case 4: { const T* b = n ? &list[0] : (const T*)&keep; if (dflt) CopyFrom(target, b, b + n); else CopyFrom(target, b, b + n, append); want = xs; break; }
			case 5: { const T* b = n ? &array[0] : (const T*)&keep; long k = rng.range(0, n); if (dflt) CopyFrom(target, b, k); else CopyFrom(target, b, (vint)k, append); want = mTake(xs, k); break; }
			case 6: go(dict.Values()); want = xs; break;
			case 7: if (n) { go(group.Get(1)); want = xs; } else { go(LazyList<T>()); } break;
			default: go(From(list)); want = xs; break;
			}
		};
		LOG("%s %s %s to %s with %s", append ? "append" : "copy", names[from], show(xs).c_str(), to == 0 ? "List" : to == 1 ? "Array" : "SortedList", show(old).c_str());
		auto expect = [&](const std::vector<int>& w) { return append ? mConcat(old, w) : w; };
		if (to == 0) { List<T> t; for (int x : old) t.Add(Val<T>::make(x)); copy(t); same(readAll(t), expect(want), std::string("a list copied from a ") + names[from]); t.Clear(); }
		else if (to == 1) { Array<T> t(m); for (long i = 0; i < m; i++) t[i] = Val<T>::make(old[i]); copy(t); same(readAll(t), expect(want), std::string("an array copied from a ") + names[from]); t.Resize(0); }
		else { SortedList<T> t; for (int x : old) t.Add(Val<T>::make(x)); copy(t); sameBag<T>(readAll(t), expect(want), names[from]); t.Clear(); }
		// the source is unchanged and independent
		same(readAll(list), xs, "the source list afterwards"); same(readAll(array), xs, "the source array afterwards"); same(readAll(sorted), ss, "the source sorted list afterwards"); same(drain(chain.lazy), cs, "the source chain afterwards"); same(readAll(dict.Values()), xs, "the source dictionary afterwards"); if (n) same(readAll(group.Get(1)), xs, "the source group afterwards");
		op(from * 3 + to, append * 100000 + n * 300 + m); for (int x : want) op(x); if (want.size()) nontrivial(); count("copies"); if (append && m && want.size()) count("appends"); if (want.empty()) count("empty_sources");
	}
	scope.check("copies");
}
// with and without the explicit last argument
template<typename D, typename S> void cp(D& d, const S& s, bool append, bool dflt) { if (!append && dflt) CopyFrom(d, s); else CopyFrom(d, s, append); }
template<typename K, typename V> void pairs(Rng& rng)
{
	LifetimeScope scope;
	{
		using PV = Pair<K, V>; long n = sizeOf(rng), m = sizeOf(rng), keys = rng.range(1, rng.chance(1, 10) ? 400 : 20); std::vector<std::pair<int, int>> src, old; for (long i = 0; i < n; i++) src.push_back({ (int)rng.below(keys), (int)rng.below(M) }); for (long i = 0; i < m; i++) old.push_back({ (int)rng.below(keys), (int)rng.below(M) });
		Dictionary<K, V> sd; Group<K, V> sg; List<PV> sl; Array<PV> sa(n); std::map<int, int> sdm; std::map<int, std::vector<int>> sgm;
		for (long i = 0; i < n; i++) { auto [k, v] = src[i]; sd.Set(Val<K>::make(k), Val<V>::make(v)); sdm[k] = v; sg.Add(Val<K>::make(k), Val<V>::make(v)); sgm[k].push_back(v); sl.Add(PV(Val<K>::make(k), Val<V>::make(v))); sa[i] = PV(Val<K>::make(k), Val<V>::make(v)); }
		std::vector<std::pair<int, int>> fromDict(sdm.begin(), sdm.end()), fromGroup; for (auto& [k, vs] : sgm) for (int v : vs) fromGroup.push_back({ k, v });
		bool append = rng.chance(1, 2), dflt = rng.chance(1, 2); int from = (int)rng.below(6), to = (int)rng.below(3); const char* names[] = { "Dictionary", "Group", "List of pairs", "Array of pairs", "lazy list of pairs", "raw pairs" };
		const std::vector<std::pair<int, int>>& want = from == 0 ? fromDict : from == 1 ? fromGroup : src;
		auto copy = [&](auto& t) { switch (from) { case 0: cp(t, sd, append, dflt); break; case 1: cp(t, sg, append, dflt); break; case 2: cp(t, sl, append, dflt); break; case 3: cp(t, sa, append, dflt); break; case 4: cp(t, From(sl).Where([](const PV&) { return true; }), append, dflt); break; default: { const PV* b = n ? &sl[0] : (const PV*)&sd; CopyFrom(t, b, (vint)n, append); } } };
		LOG("%s %s of %ld pairs to %d with %ld", append ? "append" : "copy", names[from], n, to, m);
		if (to == 0)
		{
			Dictionary<K, V> t; std::map<int, int> w; for (auto [k, v] : old) { t.Set(Val<K>::make(k), Val<V>::make(v)); if (append) w[k] = v; } for (auto [k, v] : want) w[k] = v; copy(t);
			MUST(t.Count() == (vint)w.size(), "dict-count", "a dictionary copied from %s has %ld pairs, expected %ld", names[from], (long)t.Count(), (long)w.size()); vint i = 0; for (auto [k, v] : w) { MUST(Val<K>::get(t.Keys()[i]) == k && Val<V>::get(t.Values()[i]) == v, "dict-pair", "a dictionary copied from %s is wrong at %ld", names[from], (long)i); i++; }
		}
		else if (to == 1)
		{
			Group<K, V> t; std::map<int, std::vector<int>> w; for (auto [k, v] : old) { t.Add(Val<K>::make(k), Val<V>::make(v)); if (append) w[k].push_back(v); } for (auto [k, v] : want) w[k].push_back(v); copy(t);
			MUST(t.Count() == (vint)w.size(), "group-count", "a group copied from %s has %ld keys, expected %ld", names[from], (long)t.Count(), (long)w.size()); vint i = 0; for (auto& [k, vs] : w) { MUST(Val<K>::get(t.Keys()[i]) == k, "group-key", "a group copied from %s has a wrong key", names[from]); same(readAll(t.GetByIndex(i)), vs, std::string("the values of a group copied from ") + names[from]); i++; }
		}
		else if (from == 0 || from >= 2)
		{
			List<PV> t; std::vector<std::pair<int, int>> w; for (auto [k, v] : old) { t.Add(PV(Val<K>::make(k), Val<V>::make(v))); if (append) w.push_back({ k, v }); } w.insert(w.end(), want.begin(), want.end()); copy(t);
			MUST(t.Count() == (vint)w.size(), "list-count", "a list copied from %s has %ld pairs, expected %ld", names[from], (long)t.Count(), (long)w.size()); for (vint i = 0; i < t.Count(); i++) MUST(Val<K>::get(t[i].key) == w[i].first && Val<V>::get(t[i].value) == w[i].second, "list-pair", "a list copied from %s is wrong at %ld", names[from], (long)i);
		}
		MUST(sd.Count() == (vint)sdm.size() && sg.Count() == (vint)sgm.size() && sl.Count() == n && sa.Count() == n, "source", "the source changed"); vint i = 0; for (auto [k, v] : sdm) { MUST(Val<K>::get(sd.Keys()[i]) == k && Val<V>::get(sd.Values()[i]) == v, "source", "the source dictionary changed"); i++; } for (long q = 0; q < n; q++) MUST(Val<V>::get(sl[q].value) == src[q].second && Val<V>::get(sa[q].value) == src[q].second, "source", "the source pairs changed"); i = 0; for (auto& [k, vs] : sgm) same(readAll(sg.GetByIndex(i++)), vs, "the source group afterwards");
		op(from * 3 + to, append * 100000 + n * 300 + m); for (auto [k, v] : want) op(k, v); if (n) nontrivial(); count("pair_copies"); if (append && m && n) count("appends");
	}
	scope.check("pair copies");
}
template<typename C> void stringsOnce(Rng& rng);
template<typename C> void strings(Rng& rng) { long n = rng.range(1, 6); for (long i = 0; i < n; i++) stringsOnce<C>(rng); }
template<typename C> void stringsOnce(Rng& rng)
{
	using S = ObjectString<C>; long n = sizeOf(rng), m = sizeOf(rng); std::basic_string<C> src, old; for (long i = 0; i < n; i++) src += (C)rng.range(1, sizeof(C) == 1 ? 127 : 0x4ff); for (long i = 0; i < m; i++) old += (C)rng.range(1, sizeof(C) == 1 ? 127 : 0x4ff);
	bool append = rng.chance(1, 2), dflt = rng.chance(1, 2); int way = (int)rng.below(7); auto eq = [](const S& s, const std::basic_string<C>& w) { if (s.Length() != (vint)w.size()) return false; for (vint i = 0; i < s.Length(); i++) if (s[i] != w[i]) return false; const C* b = s.Buffer(); for (size_t i = 0; i < w.size(); i++) if (b[i] != w[i]) return false; return b[w.size()] == 0; };
	// the string may be a piece of a larger one
	std::basic_string<C> big = old + src + old; S bigS = S::CopyFrom(big.data(), (vint)big.size()); S source = rng.chance(1, 2) ? bigS.Sub(m, n) : S::CopyFrom(src.data(), n); S target = rng.chance(1, 2) ? bigS.Left(m) : S::CopyFrom(old.data(), m); S other = target;
	List<C> l; Array<C> a(n); SortedList<C> so; for (long i = 0; i < n; i++) { l.Add(src[i]); a[i] = src[i]; so.Add(src[i]); } auto sortedSrc = src; std::sort(sortedSrc.begin(), sortedSrc.end());
	auto want = append ? old + src : src;
	switch (way)
	{
	case 0: cp(target, l, append, dflt); MUST(eq(target, want), "to-string", "a string copied from a list is wrong"); break;
	case 1: cp(target, a, append, dflt); MUST(eq(target, want), "to-string", "a string copied from an array is wrong"); break;
	case 2: cp(target, From(l), append, dflt); MUST(eq(target, want), "to-string", "a string copied from a lazy list is wrong"); break;
	case 3: cp(target, so, append, dflt); MUST(eq(target, append ? old + sortedSrc : sortedSrc), "to-string", "a string copied from a sorted list is wrong"); break;
	case 4: { List<C> t; for (C c : old) t.Add(c); cp(t, source, append, dflt); MUST(t.Count() == (vint)want.size(), "from-string", "a list copied from a string has %ld characters, expected %ld", (long)t.Count(), (long)want.size()); for (vint i = 0; i < t.Count(); i++) MUST(t[i] == want[i], "from-string", "a list copied from a string is wrong at %ld", (long)i); break; }
	case 5: { Array<C> t(m); for (long i = 0; i < m; i++) t[i] = old[i]; cp(t, source, append, dflt); MUST(t.Count() == (vint)want.size(), "from-string", "an array copied from a string has %ld characters", (long)t.Count()); for (vint i = 0; i < t.Count(); i++) MUST(t[i] == want[i], "from-string", "an array copied from a string is wrong at %ld", (long)i); break; }
	default: { SortedList<C> t; for (C c : old) t.Add(c); cp(t, source, append, dflt); auto w = want; std::sort(w.begin(), w.end()); MUST(t.Count() == (vint)w.size(), "from-string", "a sorted list copied from a string has %ld characters", (long)t.Count()); for (vint i = 0; i < t.Count(); i++) MUST(t[i] == w[i], "from-string", "a sorted list copied from a string is wrong at %ld", (long)i); break; }
	}
	MUST(eq(source, src) && eq(other, old) && eq(bigS, big), "string-source", "copying changed another string");
	op(way, append * 10000 + n * 100 + m); for (C c : want) op((u64)c); if (n) nontrivial(); count("string_copies");
}
#if PART == 0
SCENARIO(values_vint, 3) { values<vint>(rng); }
SCENARIO(strings_w, 1) { strings<wchar_t>(rng); }
SCENARIO(strings_a, 1) { strings<char>(rng); }
SCENARIO(strings_16, 1) { strings<char16_t>(rng); }
SCENARIO(strings_8, 1) { strings<char8_t>(rng); }
SCENARIO(strings_32, 1) { strings<char32_t>(rng); }
const char* const harnessProperty = "C13";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SCENARIO(values_tracked, 3) { values<Tracked>(rng); }
#elif PART == 2
SCENARIO(values_wstring, 2) { values<WString>(rng); }
static void convertShort(Rng& rng)
{
	// element conversion on the way
	List<int> l; std::vector<int> xs; long n = sizeOf(rng); for (long i = 0; i < n; i++) { xs.push_back((int)rng.range(-1000, 1000)); l.Add(xs.back()); }
	Array<vint> a; CopyFrom(a, l); List<double> d; CopyFrom(d, a); CopyFrom(d, l, true); SortedList<vint> s; CopyFrom(s, l); MUST(a.Count() == n && d.Count() == 2 * n && s.Count() == n, "convert", "wrong counts"); auto sx = xs; std::sort(sx.begin(), sx.end());
	for (long i = 0; i < n; i++) MUST(a[i] == xs[i] && d[i] == xs[i] && d[n + i] == xs[i] && s[i] == sx[i], "convert", "wrong converted element %ld", i); for (int x : xs) op(x); if (n) nontrivial(); count("copies");
}
SCENARIO(convert, 1) { convertShort(rng); }
SCENARIO(long_copies, 1)
{
	if (!rng.chance(1, 6)) { convertShort(rng); return; }
	long n = rng.pick({ 32767L, 32768L, 33000L, 65535L, 65536L, 70000L }) + rng.range(-2, 2), m = rng.pick({ 0L, 3L, 40000L }); bool append = rng.chance(1, 2), toArray = rng.chance(1, 2); int from = (int)rng.below(5); unsigned seed = (unsigned)rng.next(); auto at = [=](long i) { return (vint)((unsigned)i * 2654435761u + seed); };
	List<vint> l; Array<vint> a(n); for (long i = 0; i < n; i++) { l.Add(at(i)); a[i] = at(i); }
	auto go = [&](auto& t) { switch (from) { case 0: CopyFrom(t, l, append); break; case 1: CopyFrom(t, a, append); break; case 2: CopyFrom(t, From(l).Where([](vint) { return true; }), append); break; case 3: CopyFrom(t, &l[0], &l[0] + n, append); break; default: CopyFrom(t, &a[0], (vint)n, append); }
		long skip = append ? m : 0; MUST(t.Count() == skip + n, "long-count", "copying %ld elements (way %d) after %ld gives %ld", n, from, skip, (long)t.Count()); for (long i = 0; i < skip; i++) MUST(t[i] == -i, "long-content", "an element before the appended ones changed"); for (long i = 0; i < n; i++) MUST(t[skip + i] == at(i), "long-content", "element %ld of %ld copied (way %d) is wrong", i, n, from); };
	if (toArray) { Array<vint> t(m); for (long i = 0; i < m; i++) t[i] = -i; go(t); } else { List<vint> t; for (long i = 0; i < m; i++) t.Add(-i); go(t); }
	op((u64)n, (u64)(from * 4 + append * 2 + toArray)); nontrivial(); count("long_copies");
}
#elif PART == 3
SCENARIO(pairs_vint, 2) { pairs<vint, vint>(rng); }
SCENARIO(pairs_tracked, 2) { pairs<WString, Tracked>(rng); }
#endif
