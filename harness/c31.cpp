// Tuples and pairs against a model of plain integers; contained objects are tracked.
#include "values.h"
#include <cmath>
#include <array>
#include <tuple>
using namespace H;
template<typename T> struct IsNested : std::false_type {};
template<typename... Us> struct IsNested<Tuple<Us...>> : std::true_type {};
template<typename A, typename B> struct IsNested<Pair<A, B>> : std::true_type {};
// nested elements are built from one number: its parts are i, i+1, i+2 ...
template<typename T> T makeE(int i);
template<typename T> struct Nest;
template<typename... Us> struct Nest<Tuple<Us...>>
{
	static constexpr long tracks = ((tracksV<Us>) + ...);
	template<size_t... I> static Tuple<Us...> make(int i, std::index_sequence<I...>) { return Tuple<Us...>(makeV<Us>(i + (int)I)...); }
	template<size_t... I> static int get(const Tuple<Us...>& t, std::index_sequence<I...>) { int b = getV(t.template get<0>()); return (... && (getV(t.template get<I>()) == b + (int)I)) ? b : MovedOut; }
	using Is = std::index_sequence_for<Us...>;
};
template<typename A, typename B> struct Nest<Pair<A, B>>
{
	static constexpr long tracks = tracksV<A> + tracksV<B>; using Is = std::index_sequence<0, 1>;
	template<typename S> static Pair<A, B> make(int i, S) { return Pair<A, B>(makeV<A>(i), makeV<B>(i + 1)); }
	template<typename S> static int get(const Pair<A, B>& p, S) { int b = getV(p.key); return getV(p.value) == b + 1 ? b : MovedOut; }
};
template<typename T> T makeE(int i) { if constexpr (IsNested<T>::value) return Nest<T>::make(i, typename Nest<T>::Is()); else return makeV<T>(i); }
template<typename T> int getE(const T& t) { if constexpr (IsNested<T>::value) return Nest<T>::get(t, typename Nest<T>::Is()); else return getV(t); }
template<typename T> constexpr long tracksE() { if constexpr (IsNested<T>::value) return Nest<T>::tracks; else return tracksV<T>; }
template<typename T> int cmpE(int a, int b) { if constexpr (std::is_same_v<T, Ptr<Box>>) { auto x = boxOf(a).Obj(), y = boxOf(b).Obj(); return x < y ? -1 : x > y; } else if constexpr (std::is_same_v<T, WString>) { auto x = a ? std::to_string(a) : std::string(), y = b ? std::to_string(b) : std::string(); int c = x.compare(y); return c < 0 ? -1 : c > 0; } else return a < b ? -1 : a > b; }

template<typename Tp, typename... Ts> struct World
{
	static constexpr int K = 4; static constexpr size_t N = sizeof...(Ts); using Is = std::index_sequence_for<Ts...>; using M = std::array<int, N>;
	static constexpr bool copyable = (... && std::is_copy_constructible_v<Ts>); static constexpr bool comparable = (... && std::three_way_comparable<Ts>); static constexpr long tracks = (tracksE<Ts>() + ...);
	static constexpr bool isPair = std::is_same_v<Tp, Pair<std::tuple_element_t<0, std::tuple<Ts...>>, std::tuple_element_t<N - 1, std::tuple<Ts...>>>>;
	Rng& r; std::unique_ptr<Tp> t[K]; M m[K] = {}; long base = liveCount(); const char* name;
	template<size_t... I> static Tp make(const M& v, std::index_sequence<I...>) { return Tp(makeE<Ts>(v[I])...); }
	M random() { M v; for (auto& x : v) x = (int)r.range(-4, 4); if (r.chance(1, 2)) { M o = m[r.below(K)]; bool any = false; for (int x : o) any |= x == AnyValue; if (!any) { size_t at = (size_t)r.below((long)N); o[at] = v[at]; v = o; } } return v; }
	World(Rng& _r, const char* nm) : r(_r), name(nm) { for (int i = 0; i < K; i++) { m[i] = random(); t[i].reset(new Tp(make(m[i], Is()))); } }
	template<size_t I> void one(int i, const char* what)
	{
		Tp& x = *t[i]; const Tp& c = x; using E = std::tuple_element_t<I, std::tuple<Ts...>>;
		auto& a = x.template get<I>(); auto& b = c.template get<I>(); static_assert(std::is_same_v<decltype(a), E&> && std::is_same_v<decltype(b), const E&>);
		MUST(&a == &b, "place", "%s %s: element %d lies at different places in the const and the mutable form", name, what, (int)I); MUST((char*)&b >= (char*)&x && (char*)(&b + 1) <= (char*)(&x + 1), "place", "element %d lies outside its tuple", (int)I);
		if constexpr (!isPair) MUST(&vl::get<I>(x) == &a && &vl::get<I>(c) == &a, "place", "the free get<%d> refers to another place", (int)I); else MUST((void*)&a == (I == 0 ? (void*)&x.key : (void*)&x.value), "place", "get<%d> of a pair refers to another place", (int)I);
		if (m[i][I] == AnyValue) { a = makeE<E>(m[i][I] = (int)r.range(-4, 4)); }
		MUST(getE(b) == m[i][I], "value", "%s %s: element %d of tuple %d is %d, expected %d", name, what, (int)I, i, getE(b), m[i][I]);
	}
	template<size_t... I> void all(int i, const char* what, std::index_sequence<I...>)
	{
		(one<I>(i, what), ...); std::array<const char*, N> from = { (const char*)&t[i]->template get<I>()... }, to = { (const char*)(&t[i]->template get<I>() + 1)... };
		for (size_t a = 0; a < N; a++) for (size_t b = 0; b < N; b++) if (a != b) MUST(to[a] <= from[b] || to[b] <= from[a], "place", "%s: elements %d and %d overlap", name, (int)a, (int)b);
	}
	template<size_t... I> int cmp(const M& a, const M& b, std::index_sequence<I...>) { int c = 0; ((c == 0 ? (void)(c = cmpE<Ts>(a[I], b[I])) : void()), ...); return c; }
	void bind(int i)
	{
		Tp& x = *t[i]; const Tp& c = x; std::array<const void*, N> at, ct;
		if constexpr (N == 1) { auto& [a] = x; auto& [b] = c; at = { &a }; ct = { &b }; a = makeE<std::remove_cvref_t<decltype(a)>>(m[i][0] = 3); }
		else if constexpr (N == 2) { auto& [a, b] = x; auto& [d, e] = c; at = { &a, &b }; ct = { &d, &e }; b = makeE<std::remove_cvref_t<decltype(b)>>(m[i][1] = 3); }
		else if constexpr (N == 3) { auto& [a, b, d] = x; auto& [e, f, g] = c; at = { &a, &b, &d }; ct = { &e, &f, &g }; b = makeE<std::remove_cvref_t<decltype(b)>>(m[i][1] = 3); }
		else if constexpr (N == 5) { auto& [a, b, d, e, f] = x; auto& [g, h, j, k, l] = c; at = { &a, &b, &d, &e, &f }; ct = { &g, &h, &j, &k, &l }; e = makeE<std::remove_cvref_t<decltype(e)>>(m[i][3] = 3); }
		else if constexpr (N == 8) { auto& [a, b, d, e, f, g, h, j] = x; auto& [a2, b2, d2, e2, f2, g2, h2, j2] = c; at = { &a, &b, &d, &e, &f, &g, &h, &j }; ct = { &a2, &b2, &d2, &e2, &f2, &g2, &h2, &j2 }; h = makeE<std::remove_cvref_t<decltype(h)>>(m[i][6] = 3); }
		else { static_assert(N == 12); auto& [a, b, d, e, f, g, h, j, k, l, n, o] = x; auto& [a2, b2, d2, e2, f2, g2, h2, j2, k2, l2, n2, o2] = c; at = { &a, &b, &d, &e, &f, &g, &h, &j, &k, &l, &n, &o }; ct = { &a2, &b2, &d2, &e2, &f2, &g2, &h2, &j2, &k2, &l2, &n2, &o2 }; n = makeE<std::remove_cvref_t<decltype(n)>>(m[i][10] = 3); }
		MUST(at == ct, "binding", "%s: the structured bindings of the const and the mutable tuple differ", name);
		[&]<size_t... I>(std::index_sequence<I...>) { const void* g[] = { &x.template get<I>()... }; for (size_t k = 0; k < N; k++) MUST(g[k] == at[k], "binding", "%s: structured binding %d does not refer to the element", name, (int)k); }(Is()); count("bindings");
	}
	void check(const char* what)
	{
		for (int i = 0; i < K; i++) all(i, what, Is());
		if constexpr (comparable) for (int i = 0; i < K; i++) for (int j = 0; j < K; j++)
		{
			int w = cmp(m[i], m[j], Is()); const Tp& a = *t[i]; const Tp& b = *t[j]; auto o = a <=> b; MUST((o < 0) == (w < 0) && (o > 0) == (w > 0) && (a == b) == (w == 0) && (a != b) == (w != 0) && (a < b) == (w < 0) && (a <= b) == (w <= 0) && (a > b) == (w > 0) && (a >= b) == (w >= 0), "compare", "%s %s: tuples %d and %d compare wrongly (expected %d)", name, what, i, j, w); count("comparisons"); if (w == 0 && i != j) count("equal_tuples");
		}
		MUST(liveCount() - base == tracks * K, "lifetime", "%s %s: %ld contained objects are alive, expected %ld", name, what, liveCount() - base, tracks * K); count("states_compared");
	}
	template<size_t... I> static Tp fromLvalues(std::tuple<Ts...>& x, std::index_sequence<I...>) { return Tp(std::get<I>(x)...); }
	template<size_t... I> static bool same(const std::tuple<Ts...>& x, const M& v, std::index_sequence<I...>) { return (... && (getE(std::get<I>(x)) == v[I])); }
	template<size_t... I> static std::tuple<Ts...> plain(const M& v, std::index_sequence<I...>) { return std::tuple<Ts...>(makeE<Ts>(v[I])...); }
	void step()
	{
		int d = (int)r.below(K), s = (int)r.below(K), k = (int)r.below(9); M v = random(); if (r.chance(1, 3)) { v = m[s]; v[(size_t)r.below((long)N)] = (int)r.range(-4, 4); } const char* what = ""; u64 copies = reg().copies;
		switch (k)
		{
		case 0: what = "construct from rvalues"; t[d].reset(new Tp(make(v, Is()))); m[d] = v; break;
		case 1: what = "construct from lvalues"; if constexpr (copyable) { { auto x = plain(v, Is()); t[d].reset(new Tp(fromLvalues(x, Is()))); MUST(same(x, v, Is()), "source", "%s: constructing from lvalues changed them", name); } m[d] = v; } break;
		case 2: what = "copy construct"; if constexpr (copyable) { long want = copyEvents(); copies = reg().copies; auto x = new Tp(std::as_const(*t[s])); long made = (long)(reg().copies - copies); MUST(made == want, "copies", "%s: copying made %ld element copies, expected %ld", name, made, want); t[d].reset(x); m[d] = m[s]; } break;
		case 3: what = "move construct"; { auto x = new Tp(std::move(*t[s])); MUST(reg().copies == copies || (std::is_same_v<Ts, CopyOnly> || ...), "copies", "%s: moving copied an element", name); auto w = m[s]; m[s].fill(AnyValue); if (d != s) fix(s); t[d].reset(x); m[d] = w; break; }
		case 4: case 5: what = "copy assign"; if constexpr (copyable) { Tp& res = (*t[d] = std::as_const(*t[s])); MUST(&res == t[d].get(), "assign-result", "assignment does not return the tuple"); m[d] = m[s]; if (d == s) count("self_assigned"); } break;
		case 6: what = "move assign"; if (d != s) { *t[d] = std::move(*t[s]); MUST(reg().copies == copies || (std::is_same_v<Ts, CopyOnly> || ...), "copies", "%s: moving copied an element", name); m[d] = m[s]; m[s].fill(AnyValue); fix(s); count("moved"); } break;
		case 7: what = "assign temporary"; *t[d] = make(v, Is()); m[d] = v; break;
		default: what = "modify through structured binding"; bind(d);
		}
		op((u64)k, (u64)(d * 4 + s) * 1000 + (u64)(v[0] + 5)); LOG("%s %s: %d from %d", name, what, d, s); check(what); nontrivial();
	}
	static long copyEvents() { M v; v.fill(1); Tp x = make(v, Is()); long n = 0; if constexpr (copyable) { auto y = plain(v, Is()); auto c = reg().copies; auto z = y; n = (long)(reg().copies - c); } return n; }
	void fix(int s) { all(s, "after move", Is()); } // gives every moved-from element a new value
};
template<typename Tp, typename... Ts> void history(Rng& rng, const char* name) { LifetimeScope l; { World<Tp, Ts...> w(rng, name); long n = rng.range(3, 30); for (long i = 0; i < n; i++) w.step(); } l.check(name); }
template<typename... Ts> void tuples(Rng& rng, const char* name) { history<Tuple<Ts...>, Ts...>(rng, name); }
template<typename A, typename B> void pairs(Rng& rng, const char* name) { history<Pair<A, B>, A, B>(rng, name); }
#if PART == 0
SCENARIO(one_int, 1) { tuples<int>(rng, "Tuple<int>"); }
SCENARIO(one_tracked, 1) { tuples<Tracked>(rng, "Tuple<Tracked>"); }
SCENARIO(int_text, 2) { tuples<int, WString>(rng, "Tuple<int, WString>"); }
SCENARIO(tracked_int_text, 2) { tuples<Tracked, int, WString>(rng, "Tuple<Tracked, int, WString>"); }
SCENARIO(moveonly_tracked, 2) { tuples<MoveOnly, Tracked>(rng, "Tuple<MoveOnly, Tracked>"); }
const char* const harnessProperty = "C31";
const long harnessCpuBudget = 60;
#include "main.h"
#elif PART == 1
SCENARIO(five_tracked, 2) { tuples<Tracked, Tracked, Tracked, Tracked, Tracked>(rng, "Tuple<5 x Tracked>"); }
SCENARIO(mixed_five, 2) { tuples<char, WString, long long, Ptr<Box>, short>(rng, "Tuple<char, WString, long long, Ptr, short>"); }
SCENARIO(large_aligned, 1) { tuples<Large, Aligned, char>(rng, "Tuple<Large, Aligned, char>"); }
SCENARIO(eight, 1) { tuples<int, Tracked, WString, short, Tracked, double, Tracked, int>(rng, "eight elements"); }
SCENARIO(twelve, 1) { tuples<int, int, int, int, int, int, int, int, int, int, int, int>(rng, "twelve elements"); }
SCENARIO(nested, 2) { tuples<Tuple<int, Tracked>, Tracked, Pair<Tracked, int>>(rng, "nested"); }
SCENARIO(three_ints, 1) { tuples<int, int, int>(rng, "Tuple<int, int, int>"); }
#elif PART == 2
SCENARIO(pair_int_text, 2) { pairs<int, WString>(rng, "Pair<int, WString>"); }
SCENARIO(pair_tracked, 2) { pairs<Tracked, Tracked>(rng, "Pair<Tracked, Tracked>"); }
SCENARIO(pair_moveonly, 2) { pairs<MoveOnly, int>(rng, "Pair<MoveOnly, int>"); }
SCENARIO(pair_copyonly, 1) { pairs<CopyOnly, WString>(rng, "Pair<CopyOnly, WString>"); }
SCENARIO(pair_nested, 2) { pairs<WString, Pair<int, Tracked>>(rng, "Pair<WString, Pair>"); }
SCENARIO(pair_large, 1) { pairs<Aligned, Large>(rng, "Pair<Aligned, Large>"); }
#else
struct Weak { int k, p; std::weak_ordering operator<=>(const Weak& o) const { return k <=> o.k; } bool operator==(const Weak& o) const { return k == o.k; } };
SCENARIO(references, 3)
{
	nontrivial(); LifetimeScope l; { int a = (int)rng.range(-5, 5), b = (int)rng.range(-5, 5); op((u64)(a + 6), (u64)(b + 6)); WString s = itow(a), s0 = itow(a); Tracked x(a), y(b); u64 copies = reg().copies, moves = reg().moves;
	Tuple<int&, const WString&, Tracked&> t(a, s, x); const auto& ct = t; Tuple<int&, const WString&, Tracked&> u(ct); Tuple<const int&, const WString&, const Tracked&> c(ct);
	MUST(&t.get<0>() == &a && &t.get<1>() == &s && &t.get<2>() == &x, "reference", "a tuple of references refers to other objects"); MUST(&u.get<0>() == &a && &u.get<1>() == &s && &u.get<2>() == &x, "reference", "a copied tuple of references refers to other objects"); MUST(&c.get<0>() == &a && &c.get<1>() == &s && &c.get<2>() == &x, "reference", "a converted tuple of references refers to other objects"); MUST(&ct.get<0>() == &a && &vl::get<2>(ct) == &x, "reference", "a const tuple of references refers to other objects");
	{ auto& [p, q, w] = t; MUST(&p == &a && &q == &s && &w == &x, "reference", "structured binding to a tuple of references"); p = b; w = y; } MUST(a == b && x.v() == b, "reference", "writing through a tuple of references does not reach the object"); { auto& [p, q, w] = c; MUST(&p == &a && &q == &s && &w == &x, "reference", "structured binding to a const tuple of references"); }
	Pair<int&, const Tracked&> p(a, x); const auto& cp = p; Pair<int&, const Tracked&> p2(cp); MUST(&p.key == &a && &p.value == &x && &p2.key == &a && &p2.value == &x && &p.get<0>() == &a && &cp.get<1>() == &x, "reference", "a pair of references refers to other objects"); { auto& [k, v] = p; k = 77; MUST(&v == &x, "reference", "binding to a pair of references"); } MUST(a == 77, "reference", "writing through a pair of references does not reach the object");
	MUST(reg().copies == copies && reg().moves == moves, "reference", "a tuple of references copies its objects");
	Tuple<int, WString, Tracked> val(ct); MUST(val.get<0>() == a && val.get<1>() == s && val.get<2>() == x && &val.get<2>() != &x, "conversion", "converting a tuple of references into values"); MUST(x.v() == b && s == s0, "conversion", "converting a tuple of references changed the objects"); Pair<int, Tracked> pv(cp); MUST(pv.key == 77 && pv.value == x && x.v() == b, "conversion", "converting a pair of references into values");
	Tuple<const int&, const WString&, const Tracked&> r2(val.get<0>(), val.get<1>(), val.get<2>()); MUST(r2 == c && !(r2 < c) && !(c < r2) && (r2 <=> c) == 0, "compare", "equal tuples of references compare as different"); val.get<2>() = Tracked(b + 1); MUST(r2 != c && c < r2 && r2 > c, "compare", "tuples of references compare wrongly"); MUST(&r2.get<0>() == &val.get<0>(), "reference", "a reference to a tuple element"); count("references"); }
	l.check("references");
}
SCENARIO(conversions, 3)
{
	nontrivial(); LifetimeScope l; { int a = (int)rng.range(-100, 100); op((u64)(a + 200)); std::wstring text = std::to_wstring(a); Tracked x(a);
	const Tuple<int, const wchar_t*, float> src(a, text.c_str(), a + 0.5f); Tuple<long long, WString, double> dst(src); MUST(dst.get<0>() == a && dst.get<1>() == itow(a) && dst.get<2>() == a + 0.5, "conversion", "converting a tuple changes its elements"); Tuple<long long, WString, double> asg; asg = src; MUST(asg == dst && asg.get<1>() == itow(a), "conversion", "converting assignment of a tuple changes its elements"); asg = Tuple<int, const wchar_t*, float>(a + 1, text.c_str(), 1.0f); MUST(asg.get<0>() == a + 1 && asg.get<2>() == 1, "conversion", "converting move assignment of a tuple"); Tuple<long long, WString, double> mv(Tuple<short, const wchar_t*, float>((short)a, text.c_str(), 2.0f)); MUST(mv.get<0>() == a && mv.get<2>() == 2, "conversion", "converting move construction of a tuple"); MUST(src.get<0>() == a, "conversion", "the source changed");
	const Pair<int, const wchar_t*> ps(a, text.c_str()); Pair<long long, WString> pd(ps); MUST(pd.key == a && pd.value == itow(a), "conversion", "converting a pair changes its elements"); Pair<long long, WString> pm(Pair<short, const wchar_t*>((short)a, text.c_str())); MUST(pm == pd, "conversion", "converting a temporary pair"); pd = { a + 1, L"q" }; MUST(pd.key == a + 1 && pd.value == L"q", "conversion", "assigning a braced pair");
	{ u64 copies = reg().copies; Tuple<Tracked, int> from(Tracked(a), 5); Tuple<Tracked, long long> to(std::move(from)); MUST(reg().copies == copies && to.get<0>().v() == a && to.get<1>() == 5, "conversion", "a converting move copies or loses an element"); Tuple<Tracked, long long> back; back = Tuple<Tracked, int>(Tracked(a + 1), 6); MUST(reg().copies == copies && back.get<0>().v() == a + 1 && back.get<1>() == 6, "conversion", "a converting move assignment copies or loses an element"); Pair<Tracked, int> pf(Tracked(a), 7); Pair<Tracked, long long> pt(std::move(pf)); MUST(reg().copies == copies && pt.key.v() == a && pt.value == 7, "conversion", "a converting pair move copies or loses an element"); }
	{ u64 copies = reg().copies; const Tuple<Tracked, int> from(x, a); Tuple<Tracked, long long> to(from); MUST(reg().copies == copies + 2 && to.get<0>() == x && from.get<0>() == x && x.v() == a, "conversion", "a converting copy copies an element more than once or changes its source"); }
	Tuple t1(a, L"abc", x); static_assert(std::is_same_v<decltype(t1), Tuple<int, const wchar_t*, Tracked>>); MUST(t1.get<0>() == a && t1.get<2>() == x, "deduction", "a deduced tuple"); const int ca = a; Pair p1(ca, itow(a)); static_assert(std::is_same_v<decltype(p1), Pair<int, WString>>); MUST(p1.key == a && p1.value == itow(a), "deduction", "a deduced pair");
	{ Tuple<Tracked, WString, int> d0; MUST(d0.get<0>().v() == 0 && d0.get<1>() == L"", "default", "a default tuple"); Pair<Tracked, WString> d1; MUST(d1.key.v() == 0 && d1.value == L"", "default", "a default pair"); }
	auto [k1, v1] = p1; MUST(k1 == a && v1 == itow(a), "binding", "copies by structured binding"); count("conversions"); }
	l.check("conversions");
}
SCENARIO(orderings, 4)
{
	nontrivial(); static const double ds[] = { -1.5, 0.0, -0.0, 2.0, INFINITY, -INFINITY, NAN }; auto d = [&] { return ds[rng.below(7)]; }; auto lex = [](auto... os) { std::partial_ordering c = std::partial_ordering::equivalent; ((c == 0 ? (void)(c = os) : void()), ...); return c; };
	for (int n = 0; n < 20; n++)
	{
		int a1 = (int)rng.range(0, 2), a2 = (int)rng.range(0, 2), c1 = (int)rng.range(-1, 1), c2 = (int)rng.range(-1, 1); double b1 = d(), b2 = d(); op((u64)(a1 * 81 + a2 * 27 + c1 * 9 + c2), (u64)n); auto all = [&](auto& x, auto& y, std::partial_ordering w, bool eq, const char* what) { auto o = x <=> y; MUST((std::partial_ordering)o == w && (x < y) == (w < 0) && (x > y) == (w > 0) && (x <= y) == (w <= 0) && (x >= y) == (w >= 0), "compare", "%s: (%d %g %d) and (%d %g %d) are ordered wrongly", what, a1, b1, c1, a2, b2, c2); MUST((x == y) == eq && (x != y) == !eq, "compare", "%s: (%d %g %d) and (%d %g %d): equality is wrong", what, a1, b1, c1, a2, b2, c2); count("orderings"); if (o != 0 && !(o < 0) && !(o > 0)) count("unordered"); };
		{ Tuple<int, double, int> x(a1, b1, c1), y(a2, b2, c2); all(x, y, lex(a1 <=> a2, b1 <=> b2, c1 <=> c2), a1 == a2 && b1 == b2 && c1 == c2, "Tuple<int, double, int>"); }
		{ Tuple<double, int> x(b1, a1), y(b2, a2); all(x, y, lex(b1 <=> b2, a1 <=> a2), b1 == b2 && a1 == a2, "Tuple<double, int>"); }
		{ Tuple<int, double> x(a1, b1); Tuple<long, float> y(a2, (float)b2); all(x, y, lex(a1 <=> a2, b1 <=> b2), a1 == a2 && b1 == b2, "Tuple<int, double> and Tuple<long, float>"); }
		{ Pair<int, double> x(a1, b1), y(a2, b2); all(x, y, lex(a1 <=> a2, b1 <=> b2), a1 == a2 && b1 == b2, "Pair<int, double>"); }
		{ Pair<double, int> x(b1, a1); Pair<float, long> y((float)b2, a2); all(x, y, lex(b1 <=> b2, a1 <=> a2), b1 == b2 && a1 == a2, "Pair<double, int> and Pair<float, long>"); }
		{ Tuple<Weak, int> x(Weak{ a1, n }, c1), y(Weak{ a2, -n }, c2); all(x, y, lex(a1 <=> a2, c1 <=> c2), a1 == a2 && c1 == c2, "Tuple<weak, int>"); }
		{ Pair<Weak, WString> x(Weak{ a1, n }, itow(c1)), y(Weak{ a2, -n }, itow(c2)); all(x, y, lex(a1 <=> a2, itow(c1) <=> itow(c2)), a1 == a2 && c1 == c2, "Pair<weak, WString>"); }
		{ Tuple<Pair<int, int>, Weak, double> x(Pair<int, int>(a1, c1), Weak{ c2, 1 }, b1), y(Pair<int, int>(a2, c2), Weak{ c1, 2 }, b2); all(x, y, lex(a1 <=> a2, c1 <=> c2, c2 <=> c1, b1 <=> b2), a1 == a2 && c1 == c2 && b1 == b2, "Tuple<Pair, weak, double>"); }
		if (n % 5 == 0) { Tuple<int> x(a1), y(a2); all(x, y, a1 <=> a2, a1 == a2, "Tuple<int>"); WString s1 = itow(a1), s2 = itow(a2); Tuple<WString> p(s1), q(s2); all(p, q, s1 <=> s2, a1 == a2, "Tuple<WString>"); }
	}
}
SCENARIO(containers, 2)
{
	nontrivial(); LifetimeScope l; { using TT = Tuple<int, int>; List<Pair<int, Tracked>> ls; SortedList<Pair<int, int>> sl; SortedList<Tuple<int, int, int>> st; Dictionary<Tuple<int, int>, int> di; std::map<std::pair<int, int>, int> model; std::multiset<std::pair<int, int>> ms; std::multiset<std::tuple<int, int, int>> mt; std::vector<std::pair<int, int>> seq;
	long n = rng.range(1, 40); for (long i = 0; i < n; i++) { int a = (int)rng.range(-3, 3), b = (int)rng.range(-3, 3); op((u64)(a + 4), (u64)(b + 4)); long at = rng.range(0, i); ls.Insert(at, Pair<int, Tracked>(a, Tracked(b))); seq.insert(seq.begin() + at, { a, b }); sl.Add({ a, b }); ms.insert({ a, b }); st.Add(Tuple<int, int, int>(b, a, b)); mt.insert({ b, a, b }); di.Set(Tuple<int, int>(a, b), (int)i); model[{ a, b }] = (int)i; }
	vint i = 0; for (auto& [k, v] : ls) { MUST(k == seq[(size_t)i].first && v.v() == seq[(size_t)i].second, "list", "pair %ld of a list changed", (long)i); i++; } MUST(i == n, "list", "pairs were lost"); i = 0; for (auto& [a, b] : ms) { MUST(sl[i].key == a && sl[i].value == b, "sorted", "pair %ld of a sorted list is wrong", (long)i); i++; } i = 0; for (auto& [a, b, c] : mt) { MUST(st[i].get<0>() == a && st[i].get<1>() == b && st[i].get<2>() == c, "sorted", "tuple %ld of a sorted list is wrong", (long)i); i++; }
	MUST(di.Count() == (vint)model.size(), "dictionary", "keys were lost"); i = 0; for (auto& [k, v] : model) { MUST(di.Keys()[i].get<0>() == k.first && di.Keys()[i].get<1>() == k.second && di.Values()[i] == v && di[TT(k.first, k.second)] == v, "dictionary", "entry %ld with a tuple key is wrong", (long)i); i++; } for (auto [k, v] : di) MUST(model[std::make_pair(k.get<0>(), k.get<1>())] == v, "dictionary", "an enumerated entry with a tuple key is wrong"); MUST(ls.IndexOf(Pair<int, Tracked>(seq[0].first, Tracked(seq[0].second))) == 0, "list", "a pair is not found"); count("containers"); }
	l.check("containers");
}
#endif
