// Costs: instrumented elements count every copy, move and comparison, and allocator hooks count every byte, while
// containers, sorting, sequences and strings are used at many sizes. Only orders of growth are judged: every bound leaves
// a generous constant factor over what an implementation of that order needs.
#include "vl.h"
#include "Strings/Conversion.h"
#include "core.h"
#include <cmath>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*onMalloc)(const volatile void*, size_t), void (*onFree)(const volatile void*));
extern "C" size_t __sanitizer_get_allocated_size(const volatile void* p);
#endif
using namespace H;
using namespace vl; using namespace vl::collections;
namespace
{
	long transfers = 0, compares = 0;      // of elements
	long liveBytes = 0, peakBytes = 0, totalBytes = 0;
	bool metering = false;
	void onMalloc(const volatile void*, size_t n) { if (!metering) return; liveBytes += (long)n; totalBytes += (long)n; if (liveBytes > peakBytes) peakBytes = liveBytes; }
#if defined(__SANITIZE_ADDRESS__)
	void onFree(const volatile void* p) { if (metering && p) liveBytes -= (long)__sanitizer_get_allocated_size(p); }
#else
	void onFree(const volatile void*) {}
#endif
	struct Elem
	{
		int v = 0; int pad[3] = {};
		Elem() {} Elem(int x) : v(x) {}
		Elem(const Elem& e) : v(e.v) { transfers++; } Elem(Elem&& e) noexcept : v(e.v) { transfers++; }
		Elem& operator=(const Elem& e) { v = e.v; transfers++; return *this; } Elem& operator=(Elem&& e) noexcept { v = e.v; transfers++; return *this; }
		std::strong_ordering operator<=>(const Elem& e) const { compares++; return v <=> e.v; }
		bool operator==(const Elem& e) const { compares++; return v == e.v; }
	};
	// what happened between its creation and the reading
	struct Meter
	{
		Meter()
		{
#if defined(__SANITIZE_ADDRESS__)
			static int installed = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree); (void)installed;
#endif
			transfers = compares = liveBytes = peakBytes = totalBytes = 0; metering = true;
		}
		~Meter() { metering = false; }
		void stop() { metering = false; }
	};
	double lg(double n) { return std::log2(n + 1); }
	void judge(const char* what, const char* unit, double seen, double bound, long n) { metering = false; count("measurements"); LOG("%s, %ld elements: %.0f %s, at most %.0f", what, n, seen, unit, bound); MUST(seen <= bound, unit, "%s with %ld elements costs %.0f %s, expected at most %.0f", what, n, seen, unit, bound); }
	long sizeOf(Rng& rng, long big) { switch (rng.below(5)) { case 0: return rng.range(1, 20); case 1: return rng.range(20, 200); case 2: return rng.range(big / 4, big); default: return rng.range(200, big < 1500 ? big : 1500); } }
	std::vector<int> permutation(Rng& rng, long n) { std::vector<int> p((size_t)n); for (long i = 0; i < n; i++) p[(size_t)i] = (int)i * 2; for (long i = n - 1; i > 0; i--) std::swap(p[(size_t)i], p[(size_t)rng.below(i + 1)]); return p; }
}

// appending, and taking away at the end, move each element a bounded number of times on average
SCENARIO(appending, 3)
{
	long n = sizeOf(rng, 30000); op((u64)n); if (n > 500) nontrivial();
	List<Elem> xs; long form = rng.below(3); op((u64)form); Elem one(5);
	{ Meter m; for (long i = 0; i < n; i++) { if (form == 0) xs.Add(one); else if (form == 1) xs.Add(Elem((int)i)); else xs.Insert(xs.Count(), one); } judge("appending one by one", "moves", transfers, 16.0 * n + 200, n); }
	MUST(xs.Count() == n, "count", "the list holds %ld elements", (long)xs.Count());
	{ // growing and shrinking at the end around a level
		long level = rng.chance(1, 2) ? rng.range(0, 20) : n; while (xs.Count() > level) xs.RemoveAt(xs.Count() - 1);
		long steps = rng.range(10, 3000); Meter m; for (long i = 0; i < steps; i++) { if (xs.Count() && rng.chance(1, 2)) xs.RemoveAt(xs.Count() - 1); else xs.Add(one); } judge("adding and removing at the end", "moves", transfers, 16.0 * steps + 4.0 * xs.Count() + 400, steps);
	}
	{ long k = xs.Count(); Meter m; for (long i = 0; i < k; i++) xs.RemoveAt(xs.Count() - 1); judge("removing all from the end", "moves", transfers, 16.0 * k + 200, k); }
	count("appends", (u64)n);
}
SCENARIO(ranges, 2)
{
	long n = sizeOf(rng, 8000); op((u64)n); if (n > 500) nontrivial();
	List<Elem> xs; for (long i = 0; i < n; i++) xs.Add(Elem((int)i));
	long at = rng.range(0, n), k = rng.range(0, n - at); op((u64)at, (u64)k);
	{ Meter m; xs.RemoveRange(at, k); judge("removing a range", "moves", transfers, 4.0 * (n - at - k) + 100, n); }
	{ long c = xs.Count(); long i = rng.range(0, c); Meter m; xs.Insert(i, Elem(3)); judge("inserting one element", "moves", transfers, 4.0 * c + 100, c); }
	{ long c = xs.Count(); if (c) { long i = rng.below(c); Meter m; xs.RemoveAt(i); judge("removing one element", "moves", transfers, 4.0 * (c - i) + 100, c); } }
	{ Array<Elem> ys(xs.Count()); Meter m; CopyFrom(ys, xs); judge("copying into an array", "moves", transfers, 8.0 * xs.Count() + 100, xs.Count()); }
	{ List<Elem> ys; Meter m; CopyFrom(ys, xs); judge("copying into a list", "moves", transfers, 16.0 * xs.Count() + 200, xs.Count()); }
	{ List<Elem> ys; ys.Add(Elem(1)); Meter m; CopyFrom(ys, From(xs).Where([](const Elem&) { return true; }), true); judge("appending a lazy sequence to a list", "moves", transfers, 24.0 * xs.Count() + 200, xs.Count()); }
	{ Meter m; xs.Clear(); judge("clearing", "moves", transfers, 16, n); }
	count("range_operations");
}
// moving a container neither touches its elements nor allocates
template<typename C> static void moveOne(const char* what, C& c, long n)
{
	{ Meter m; C d(std::move(c)); long t = transfers, cm = compares, b = totalBytes; m.stop(); judge(what, "moves", t, 8, n); judge(what, "comparisons", cm, 8, n); judge(what, "bytes", b, 2048, n); MUST(d.Count() == n, "count", "%s loses elements", what); C e; { Meter k; e = std::move(d); judge(what, "moves", transfers, 8, n); } MUST(e.Count() == n, "count", "%s by assignment loses elements", what); }
	count("moved_containers");
}
SCENARIO(moving, 2)
{
	long n = sizeOf(rng, 3000); op((u64)n); if (n > 500) nontrivial();
	{ Array<Elem> a(n); moveOne("moving an array", a, n); } { List<Elem> a; for (long i = 0; i < n; i++) a.Add(Elem((int)i)); moveOne("moving a list", a, n); } { SortedList<Elem> a; for (long i = 0; i < n; i++) a.Add(Elem((int)i)); moveOne("moving a sorted list", a, n); }
	{ Dictionary<Elem, Elem> a; for (long i = 0; i < n; i++) a.Add(Elem((int)i), Elem(1)); moveOne("moving a dictionary", a, n); } { Group<Elem, Elem> a; for (long i = 0; i < n; i++) a.Add(Elem((int)i), Elem(1)); moveOne("moving a group", a, n); }
}
// look-ups in ordered containers compare a logarithmic number of times
SCENARIO(lookups, 4)
{
	long n = sizeOf(rng, 4000); auto p = permutation(rng, n); op((u64)n); for (int x : p) op((u64)x); if (n > 500) nontrivial(); bool ascending = rng.chance(1, 3); if (ascending) std::sort(p.begin(), p.end());
	double bound = 4 * (lg((double)n) + 3); long probes = rng.range(20, 80);
	switch (rng.below(3))
	{
	case 0:
	{
		SortedList<Elem> xs; if (rng.chance(1, 3)) { int d = rng.chance(1, 2) ? 1 + (int)n : 16; for (int& x : p) x /= d; count("duplicate_keys"); } for (int x : p) { Meter m; xs.Add(Elem(x)); judge("adding to a sorted list", "comparisons", compares, bound, n); }
		for (long k = 0; k < probes; k++) { Elem e((int)rng.range(-2, 2 * n + 2)); { Meter m; (void)xs.Contains(e); judge("SortedList::Contains", "comparisons", compares, bound, n); } { Meter m; (void)xs.IndexOf(e); judge("SortedList::IndexOf", "comparisons", compares, bound, n); } { Meter m; (void)xs.Remove(e); judge("SortedList::Remove", "comparisons", compares, bound, n); } }
		break;
	}
	case 1:
	{
		Dictionary<Elem, int> d; for (int x : p) { Elem e(x); bool set = rng.chance(1, 2); Meter m; if (set) d.Set(e, 1); else d.Add(e, 1); judge("adding to a dictionary", "comparisons", compares, bound, n); }
		for (long k = 0; k < probes; k++) { Elem e((int)rng.range(-2, 2 * n + 2)); { Meter m; (void)d.Keys().Contains(e); judge("looking up a key", "comparisons", compares, bound, n); } { Meter m; (void)d.Keys().IndexOf(e); judge("looking up the position of a key", "comparisons", compares, bound, n); } bool has = d.Keys().Contains(e);
			if (has) { { Meter m; (void)d.Get(e); judge("Dictionary::Get", "comparisons", compares, bound, n); } { Meter m; (void)d[e]; judge("Dictionary::operator[]", "comparisons", compares, bound, n); } { Meter m; d.Set(e, 2); judge("replacing in a dictionary", "comparisons", compares, bound, n); } } if (rng.chance(1, 3)) { Meter m; (void)d.Remove(e); judge("Dictionary::Remove", "comparisons", compares, bound, n); } }
		break;
	}
	default:
	{
		Group<Elem, int> g; for (int x : p) { Elem e(x); Meter m; g.Add(e, x); judge("adding to a group", "comparisons", compares, bound, n); }
		for (long k = 0; k < probes; k++) { Elem e((int)rng.range(-2, 2 * n + 2)); { Meter m; (void)g.Contains(e); judge("Group::Contains", "comparisons", compares, bound, n); } { Meter m; (void)g.Contains(e, 7); judge("Group::Contains of a pair", "comparisons", compares, bound, n); } if (g.Contains(e)) { Meter m; (void)g.Get(e); judge("Group::Get", "comparisons", compares, bound, n); }
			if (rng.chance(1, 3)) { Meter m; (void)g.Remove(e, e.v); judge("Group::Remove of a pair", "comparisons", compares, bound, n); } if (rng.chance(1, 3)) { Meter m; (void)g.Remove(e); judge("Group::Remove", "comparisons", compares, bound, n); } if (rng.chance(1, 3)) { Meter m; g.Add(e, 3); judge("adding to a group", "comparisons", compares, bound, n); } }
	}
	}
	count("lookups", (u64)probes);
}
// sorting randomly ordered elements, and the set operators, compare n log n times
SCENARIO(ordering, 3)
{
	long n = sizeOf(rng, 12000); auto p = permutation(rng, n); op((u64)n); for (int x : p) op((u64)x); if (n > 500) nontrivial();
	std::vector<Elem> v; v.reserve(p.size()); for (int x : p) v.emplace_back(x); double bound = 12.0 * n * (lg((double)n) + 2) + 100;
	if (rng.chance(1, 2)) { Meter m; Sort(v.data(), (vint)n); judge("sorting", "comparisons", compares, bound, n); }
	else { long calls = 0; Meter m; Sort(v.data(), (vint)n, [&](const Elem& a, const Elem& b) { calls++; return a.v <=> b.v; }); judge("sorting by a comparer", "comparisons", calls, bound, n); }
	for (long i = 1; i < n; i++) MUST(v[(size_t)i - 1].v < v[(size_t)i].v, "order", "sorting gives a wrong order");
	if (n <= 3000)
	{
		List<Elem> a, b; for (int x : p) { a.Add(Elem(x)); if (rng.chance(1, 2)) b.Add(Elem(x + (int)rng.below(2))); } long both = a.Count() + b.Count(); double sets = 12.0 * both * (lg((double)both) + 2) + 100;
		{ Meter m; (void)From(a).OrderBy([](const Elem& x, const Elem& y) { return x <=> y; }).Count(); judge("OrderBy", "comparisons", compares, bound, n); }
		{ Meter m; (void)From(a).Distinct().Count(); judge("Distinct", "comparisons", compares, sets, n); } { Meter m; (void)From(a).Intersect(b).Count(); judge("Intersect", "comparisons", compares, sets, n); }
		{ Meter m; (void)From(a).Except(b).Count(); judge("Except", "comparisons", compares, sets, n); } { Meter m; (void)From(a).Union(b).Count(); judge("Union", "comparisons", compares, sets, n); }
		{ Meter m; (void)From(a).GroupBy([](const Elem& x) { return x.v % 97; }).Count(); judge("GroupBy", "comparisons", compares, sets, n); }
		{ Meter m; (void)From(a).Max(); (void)From(a).Min(); judge("Max and Min", "comparisons", compares, 8.0 * n + 20, n); }
		{ Elem target((int)rng.below(2 * n)); Meter m; (void)a.IndexOf(target); judge("List::IndexOf", "comparisons", compares, 4.0 * n + 8, n); }
		count("set_operations");
	}
	count("sorted", (u64)n);
}
// stepping through a collection or a lazy sequence copies and compares nothing beyond each element, and needs constant memory
template<typename F> static void walk(const char* what, long n, double copies, double compared, F&& f) { long seen = 0; Meter m; f(seen); long t = transfers, c = compares, b = peakBytes; m.stop(); judge(what, "moves", t, copies * (double)n + 64, n); judge(what, "comparisons", c, compared * (double)n + 8, n); judge(what, "bytes", b, 8192, n); count("walks"); }
SCENARIO(walking, 3)
{
	long n = sizeOf(rng, 4000); op((u64)n); if (n > 500) nontrivial(); long cut = rng.range(0, n); op((u64)cut);
	Array<Elem> a(n); List<Elem> l; SortedList<Elem> s; Dictionary<Elem, int> d; Group<Elem, int> g; for (long i = 0; i < n; i++) { a[i] = Elem((int)i); l.Add(Elem((int)i)); s.Add(Elem((int)i)); d.Add(Elem((int)i), 1); g.Add(Elem((int)(i / 3)), 1); }
	walk("a loop over an array", n, 2, 0, [&](long& k) { for (auto&& x : a) k += x.v; }); walk("a loop over a list", n, 2, 0, [&](long& k) { for (auto&& x : l) k += x.v; }); walk("a loop over a sorted list", n, 2, 0, [&](long& k) { for (auto&& x : s) k += x.v; });
	walk("a loop over a dictionary", n, 8, 0, [&](long& k) { for (auto&& x : d) k += x.key.v; }); walk("a loop over a group", n, 8, 0, [&](long& k) { for (auto&& x : g) k += x.key.v; });
	walk("an indexed loop over a list", n, 4, 0, [&](long& k) { for (auto&& [x, i] : indexed(l)) k += x.v + i; });
	walk("access by position", n, 0, 0, [&](long& k) { for (vint i = 0; i < l.Count(); i++) k += l[i].v + a[i].v + s[i].v; });
	auto twice = [](const Elem& e) { return e.v * 2; }; auto odd = [](const Elem& e) { return e.v % 2 == 1; };
	walk("Select", n, 8, 0, [&](long& k) { for (auto x : From(l).Select(twice)) k += x; }); walk("Where", n, 8, 0, [&](long& k) { for (auto&& x : From(l).Where(odd)) k += x.v; }); walk("Take", n, 8, 0, [&](long& k) { for (auto&& x : From(l).Take(cut)) k += x.v; }); walk("Skip", n, 8, 0, [&](long& k) { for (auto&& x : From(l).Skip(cut)) k += x.v; });
	walk("Concat", 2 * n, 8, 0, [&](long& k) { for (auto&& x : From(l).Concat(a)) k += x.v; }); walk("Repeat", 3 * n, 8, 0, [&](long& k) { for (auto&& x : From(l).Repeat(3)) k += x.v; }); walk("Pairwise", n, 16, 0, [&](long& k) { for (auto&& x : From(l).Pairwise(a)) k += x.key.v; });
	walk("All", n, 8, 0, [&](long& k) { k += From(l).All([](const Elem& e) { return e.v >= 0; }); }); walk("Any", n, 8, 0, [&](long& k) { k += From(l).Any([](const Elem& e) { return e.v < 0; }); }); walk("Count", n, 8, 0, [&](long& k) { k += From(l).Where(odd).Count(); }); walk("Aggregate", n, 8, 0, [&](long& k) { k += From(l).Aggregate(0, [](int x, const Elem& e) { return x + e.v; }); });
	walk("a chain", n, 24, 0, [&](long& k) { for (auto x : From(l).Where(odd).Skip(cut / 2).Select(twice).Take(cut)) k += x; }); walk("Range", n, 0, 0, [&](long& k) { for (auto x : Range<vint>(0, n)) k += x; }); walk("copying a lazy sequence", n, 0, 0, [&](long& k) { auto q = From(l).Where(odd); auto r = q; k += r.IsEmpty(); });
}
// every operator reads its source a bounded number of times per pass: a source of its own kind counts the steps taken on it
namespace
{
	long steps = 0;
	class Steps : public virtual IEnumerator<Elem>
	{
		vint n, at; Elem current;
	public:
		Steps(vint _n, vint _at) : n(_n), at(_at), current((int)_at) {}
		IEnumerator<Elem>* Clone() const override { return new Steps(n, at); }
		const Elem& Current() const override { return current; }
		vint Index() const override { return at; }
		bool Next() override { steps++; if (at + 1 >= n) { at = n; return false; } at++; current.v = (int)(at * 7919 % n); return true; }
		void Reset() override { at = -1; }
	};
}
SCENARIO(stepping, 3)
{
	long n = sizeOf(rng, 700), cut = rng.range(0, n); op((u64)n, (u64)cut); if (n > 300) nontrivial();
	LazyList<Elem> src(Ptr<IEnumerator<Elem>>(new Steps(n, -1)));
	auto pass = [&](const char* what, double passes, auto&& f) { steps = 0; f(); judge(what, "steps", steps, 4.0 * passes * n + 64, n); count("passes"); };
	auto drain = [](auto&& q) { long k = 0; for (auto&& x : q) { (void)x; k++; } return k; }; auto odd = [](const Elem& e) { return e.v % 2 == 1; };
	pass("a loop", 1, [&] { drain(src); }); pass("Select", 1, [&] { drain(src.Select([](const Elem& e) { return e.v; })); }); pass("Where", 1, [&] { drain(src.Where(odd)); }); pass("Take", 1, [&] { drain(src.Take(cut)); }); pass("Skip", 1, [&] { drain(src.Skip(cut)); }); pass("Take after Skip", 1, [&] { drain(src.Skip(cut / 2).Take(cut)); });
	pass("Concat", 2, [&] { drain(src.Concat(src)); }); pass("Repeat", 3, [&] { drain(src.Repeat(3)); }); pass("Pairwise", 2, [&] { drain(src.Pairwise(src)); }); pass("Reverse", 1, [&] { drain(src.Reverse()); }); pass("Distinct", 1, [&] { drain(src.Distinct()); }); pass("Evaluate", 1, [&] { drain(src.Evaluate(true)); }); pass("OrderBy", 1, [&] { drain(src.OrderBy([](const Elem& a, const Elem& b) { return a <=> b; })); });
	pass("Intersect", 2, [&] { drain(src.Intersect(src)); }); pass("Except", 2, [&] { drain(src.Except(src)); }); pass("Union", 3, [&] { drain(src.Union(src)); }); pass("SelectMany", 1, [&] { drain(src.SelectMany([](const Elem& e) { return Range<vint>(0, e.v % 3); })); });
	pass("Count", 1, [&] { (void)src.Count(); }); pass("Last", 1, [&] { (void)src.Last(); }); pass("Max", 1, [&] { (void)src.Max(); }); pass("Min", 1, [&] { (void)src.Min(); }); pass("Aggregate", 1, [&] { (void)src.Aggregate(0, [](int a, const Elem& e) { return a + e.v; }); }); pass("All", 1, [&] { (void)src.All([](const Elem&) { return true; }); }); pass("Any", 1, [&] { (void)src.Any([](const Elem&) { return false; }); });
	pass("copying into a list", 1, [&] { List<Elem> xs; CopyFrom(xs, src); }); pass("copying into an array", 1, [&] { Array<Elem> xs; CopyFrom(xs, src); }); pass("an indexed loop", 1, [&] { for (auto&& [x, i] : indexed(src)) (void)i; }); pass("a chain", 1, [&] { drain(src.Where(odd).Skip(cut / 2).Select([](const Elem& e) { return e.v; }).Take(cut)); }); pass("comparing", 2, [&] { (void)CompareEnumerable(src, src); });
	steps = 0; (void)src.First(); judge("First", "steps", steps, 8, n); steps = 0; (void)src.IsEmpty(); judge("IsEmpty", "steps", steps, 8, n); steps = 0; drain(src.Take(3)); judge("Take of three", "steps", steps, 24, n);
}
// copying and cutting strings shares the text, building one allocates in proportion to its length
template<typename S, typename T> static void texts(Rng& rng, long n)
{
	std::vector<T> raw((size_t)n + 1); for (long i = 0; i < n; i++) raw[(size_t)i] = (T)('a' + i % 26); raw[(size_t)n] = 0; double w = sizeof(T); S s;
	{ Meter m; s = S::CopyFrom(raw.data(), n); judge("creating a string", "bytes", totalBytes, 4 * w * (double)n + 1024, n); }
	{ Meter m; S t = s; S u; u = t; S v = std::move(t); (void)v.Length(); judge("copying and moving a string", "bytes", totalBytes, 1024, n); }
	long a = rng.range(0, n), b = rng.range(0, n - a);
	{ Meter m; S l = s.Left(a), r = s.Right(b), x = s.Sub(a, b), y = x.Left(b / 2).Right(b / 4); judge("cutting a string", "bytes", totalBytes, 2048, n); }
	{ S part = s.Sub(a, b); Meter m; bool eq = part == s; auto o = part <=> s; (void)eq; (void)o; judge("comparing strings", "bytes", totalBytes, 1024, n); }
	{ Meter m; S x = s + s; judge("concatenating strings", "bytes", totalBytes, 4 * w * 2 * (double)n + 1024, n); }
	{ Meter m; S x = s.Insert(a, s.Left(b)), y = a < n ? s.Remove(a, b) : s; judge("inserting and removing text", "bytes", totalBytes, 4 * w * 3 * (double)n + 2048, n); }
	{ Meter m; for (int k = 0; k < 50; k++) (void)s.Buffer(); judge("asking for the text again and again", "bytes", totalBytes, 4 * w * (double)n + 1024, n); }
	{ S part = s.Left(n / 2); Meter m; for (int k = 0; k < 50; k++) (void)part.Buffer(); judge("asking for the text of a part again and again", "bytes", totalBytes, 4 * w * (double)n + 1024, n); }
	{ Meter m; S x = S::Unmanaged(raw.data()); judge("wrapping unmanaged text", "bytes", totalBytes, 1024, n); }
	count("texts");
}
SCENARIO(strings, 3)
{
	long n = sizeOf(rng, 60000); op((u64)n, (u64)rng.s); if (n > 500) nontrivial();
	switch (rng.below(5)) { case 0: texts<AString, char>(rng, n); break; case 1: texts<WString, wchar_t>(rng, n); break; case 2: texts<U8String, char8_t>(rng, n); break; case 3: texts<U16String, char16_t>(rng, n); break; default: texts<U32String, char32_t>(rng, n); }
	std::u32string t; for (long i = 0; i < n; i++) t += (char32_t)rng.pick({ 0x41, 0xE9, 0x4E2D, 0x1F600 }); U32String u = U32String::CopyFrom(t.data(), n);
	U8String u8; U16String u16; WString ws;
	{ Meter m; u8 = u32tou8(u); judge("converting to UTF-8", "bytes", totalBytes, 32.0 * n + 2048, n); } { Meter m; u16 = u32tou16(u); judge("converting to UTF-16", "bytes", totalBytes, 32.0 * n + 2048, n); } { Meter m; ws = u8tow(u8); judge("converting to a wide string", "bytes", totalBytes, 32.0 * n + 2048, n); } { Meter m; auto x = u16tou32(u16); judge("converting to UTF-32", "bytes", totalBytes, 32.0 * n + 2048, n); }
	{ Meter m; auto x = wupper(ws); judge("changing case", "bytes", totalBytes, 32.0 * n + 2048, n); }
	count("conversions", 5);
}
// copying handles copies nothing behind them
SCENARIO(handles, 2)
{
	long n = sizeOf(rng, 5000); op((u64)n, (u64)rng.s); if (n > 500) nontrivial();
	auto list = Ptr(new List<Elem>); for (long i = 0; i < n; i++) list->Add(Elem((int)i)); Elem captured(3); Func<int(int)> f = [captured, big = std::vector<int>((size_t)n)](int x) { return x + captured.v + (int)big.size() * 0; };
	{ Meter m; Ptr<List<Elem>> a = list, b; b = a; Ptr<Object> o = a; Ptr<List<Elem>> c = std::move(b); judge("copying a shared pointer", "moves", transfers, 0, n); }
	{ Meter m; std::vector<Ptr<List<Elem>>> all; all.reserve(100); for (int i = 0; i < 100; i++) all.push_back(list); long b = totalBytes; m.stop(); judge("a hundred shared pointers", "bytes", b, 100 * 256 + 1024, n); }
	{ Meter m; Func<int(int)> g = f, h; h = g; Func<int(int)> k = std::move(g); (void)k(1); judge("copying a callable", "moves", transfers, 0, n); } { Meter m; Func<int(int)> g = f; judge("copying a callable", "bytes", totalBytes, 1024, n); }
	{ LazyList<Elem> q = From(*list.Obj()); Meter m; auto a = q; auto b = a; judge("copying a sequence", "moves", transfers, 0, n); } { LazyList<Elem> q(list); Meter m; auto a = q; judge("copying a sequence", "bytes", totalBytes, 2048, n); }
	if (n <= 1500) { auto q = From(*list.Obj()).Intersect(*list.Obj()); auto u = q.Union(*list.Obj()).Distinct(); Meter m; auto a = q; auto b = u; auto c = std::move(a); b = u; judge("copying a sequence that holds elements", "moves", transfers, 0, n); }
	{ PushOnlyAllocator<Elem> pool(64); Meter m; for (long i = 0; i < n; i++) (void)pool.Create(); judge("creating in a block allocator", "moves", transfers, 0, n); }
	count("handle_copies");
}
const char* const harnessProperty = "C40";
const long harnessCpuBudget = 60;
#include "main.h"
