// String comparison: all relations between managed strings and zero-terminated text, in every construction.
#include "text.h"
using namespace H;
template<typename C> int reference(const std::basic_string<C>& a, const std::basic_string<C>& b)
{
	size_t n = std::min(a.size(), b.size()); for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; // by the characters' own order
	return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
template<typename A, typename B> void relations(const A& a, const B& b, int w, const char* what)
{
	MUST(sign(a <=> b) == w, "order", "%s: <=> gives %d, expected %d", what, sign(a <=> b), w);
	MUST(sign(b <=> a) == -w, "antisymmetry", "%s: reversed <=> gives %d, expected %d", what, sign(b <=> a), -w);
	MUST((a == b) == (w == 0) && (a != b) == (w != 0) && (b == a) == (w == 0), "equality", "%s: == or != disagrees with the text", what);
	MUST((a < b) == (w < 0) && (a <= b) == (w <= 0) && (a > b) == (w > 0) && (a >= b) == (w >= 0), "relations", "%s: a relation disagrees with the order", what); count("comparisons", 10);
}
template<typename C> struct Built { ObjectString<C> s; std::basic_string<C> m; };
// build the text in one of several ways so that buffers, offsets and following characters differ
template<typename C> Built<C> build(Rng& r, const std::basic_string<C>& t, std::vector<std::unique_ptr<Exact<C>>>& keep)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; long n = (long)t.size();
	switch (r.below(6))
	{
	case 0: return { S::CopyFrom(t.data(), n), t };
	case 1: { M big = anyText<C>(r, 6) ; long at = (long)big.size(); big += t + anyText<C>(r, 6); return { S(big.c_str()).Sub(at, n), t }; }
	case 2: { keep.push_back(std::make_unique<Exact<C>>(t)); return { S::Unmanaged(keep.back()->get()), t }; }
	case 3: { long i = r.range(0, n); return { S::CopyFrom(t.data(), i) + S::CopyFrom(t.data() + i, n - i), t }; }
	case 4: { S x(t.c_str()); x.Buffer(); return { x.Left(n), t }; }
	default: { M big = t + anyText<C>(r, 5); S x = S(big.c_str()).Left(n); x.Buffer(); return { x, t }; }
	}
}
template<typename C> void scene(Rng& rng)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; std::vector<std::unique_ptr<Exact<C>>> keep; std::vector<Built<C>> xs; long k = rng.range(2, 6), longest = rng.chance(1, 20) ? rng.pick({ 70L, 300L, 1500L, 40000L }) : 12; if (longest > 12) count("long_texts");
	for (long i = 0; i < k; i++)
	{
		M t; auto pickOld = [&]() -> M { return xs.empty() ? anyText<C>(rng, longest) : rng.of(xs).m; };
		switch (rng.below(7))
		{
		case 0: t = anyText<C>(rng, longest); break;
		case 1: t = pickOld(); break;
		case 2: t = pickOld(); t = t.substr(0, rng.range(0, (long)t.size())); break;
		case 3: t = pickOld() + anyText<C>(rng, 3); break;
		case 4: t = pickOld(); if (t.size()) t[rng.below((long)t.size())] = anyChar<C>(rng); break;
		case 5: t = M(); break;
		default: t = pickOld(); if (t.size()) { auto& c = t[t.size() - 1]; c = (C)(c + 1); if (!c) c = 1; } break;
		}
		if (!xs.empty() && rng.chance(1, 4)) { auto& o = rng.of(xs); long n = (long)o.m.size(), a = rng.range(0, n), c = rng.range(0, n - a); xs.push_back({ o.s.Sub(a, c), o.m.substr(a, c) }); count("shared_buffers"); }
		else if (!xs.empty() && rng.chance(1, 4)) { auto& o = rng.of(xs); long c = rng.range(0, (long)o.m.size()); xs.push_back({ o.s.Left(c), o.m.substr(0, c) }); count("shared_buffers"); }
		else xs.push_back(build(rng, t, keep));
		LOG("string %ld: \"%s\"", i, shown(xs.back().m).c_str()); op(xs.back().m.size(), xs.back().m.empty() ? 0 : (u64)xs.back().m[0]);
	}
	if (rng.chance(1, 3)) { auto& o = rng.of(xs); long n = (long)o.m.size(), c = rng.range(0, n); M om = o.m; S os = o.s; if (rng.chance(1, 2)) { M u = anyText<C>(rng, 4) + M(1, (C)'q'); om.clear(); while ((long)om.size() < longest) om += u; n = (long)om.size(); c = n - rng.range(0, std::min(n, 2L * (long)u.size())); os = S(om.c_str()); } for (int q = 0; q < 2; q++) { long at = rng.range(0, n - c); xs.push_back({ os.Sub(at, c), om.substr(at, c) }); } count("same_buffer_windows"); }
	if (rng.chance(1, 4)) { for (int q = 0; q < 2; q++) { M t = q ? xs.back().m : rng.of(xs).m + anyText<C>(rng, 4); if (t.size()) t[rng.below((long)t.size())] = q ? anyChar<C>(rng) : (C)0; if (rng.chance(1, 3)) t += (C)0; xs.push_back({ S::CopyFrom(t.data(), t.size()), t }); } count("embedded_zeros"); }
	auto zeros = [](const M& t) { return t.find((C)0) != M::npos; };
	for (auto& a : xs) for (auto& b : xs)
	{
		int w = reference(a.m, b.m); std::string what = "\"" + shown(a.m) + "\" vs \"" + shown(b.m) + "\"";
		relations(a.s, b.s, w, what.c_str()); if (!zeros(b.m)) { Exact<C> e(b.m); const C* p = e.get(); relations(a.s, p, w, (what + " (right is text)").c_str()); } if (!zeros(a.m)) { Exact<C> e(a.m); const C* p = e.get(); relations(p, b.s, w, (what + " (left is text)").c_str()); }
		if (w != 0) { nontrivial(); count("unequal_pairs"); } else count("equal_pairs"); size_t n = std::min(a.m.size(), b.m.size()); if (w && a.m.substr(0, n) == b.m.substr(0, n)) count("prefix_pairs"); op((u64)(w + 1));
	}
	SortedList<S> sl; for (auto& a : xs) sl.Add(a.s); for (vint i = 1; i < sl.Count(); i++) MUST(reference(read(sl[i - 1]), read(sl[i])) <= 0, "sorted", "sorted list of strings is out of order"); for (auto& a : xs) MUST(sl.Contains(a.s) && read(sl[sl.IndexOf(a.s)]) == a.m, "lookup", "a string is not found in a sorted list");
	Dictionary<S, vint> dict; for (vint i = 0; i < (vint)xs.size(); i++) dict.Set(xs[i].s, i); for (auto& a : xs) { vint v = dict[a.s]; MUST(xs[v].m == a.m, "lookup", "a string key finds a wrong entry"); } for (auto& a : xs) mustBe(a.s, a.m, "content", "after comparing");
}
SCENARIO(wide, 3) { scene<wchar_t>(rng); }
SCENARIO(narrow, 2) { scene<char>(rng); }
SCENARIO(u8, 1) { scene<char8_t>(rng); }
SCENARIO(u16, 1) { scene<char16_t>(rng); }
SCENARIO(u32, 1) { scene<char32_t>(rng); }
const char* const harnessProperty = "C21";
const long harnessCpuBudget = 60;
#include "main.h"
