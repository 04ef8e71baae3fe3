// Variants against a model (index, value); contained objects are tracked.
#include "values.h"
using namespace H;
template<typename... Ts> struct World
{
	using V = Variant<Ts...>; static constexpr int N = sizeof...(Ts), K = 4; static constexpr bool copyable = (std::is_copy_constructible_v<Ts> && ...) && (std::is_copy_assignable_v<Ts> && ...);
	Rng& r; std::unique_ptr<V> v[K]; int idx[K]; int val[K]; long base = liveCount(); const char* name; static constexpr long tracks[N] = { tracksV<Ts>... };
	World(Rng& _r, const char* nm) : r(_r), name(nm) { for (int i = 0; i < K; i++) { idx[i] = (int)r.below(N); val[i] = (int)r.range(-9, 9); v[i].reset(make(idx[i], val[i])); } check("start"); }
	// call f.template operator()<I, T>() for alternative i
	template<typename F> static void at(int i, F&& f) { [&]<size_t... Is>(std::index_sequence<Is...>) { ((i == (int)Is ? (f.template operator()<(int)Is, Ts>(), 0) : 0), ...); }(std::make_index_sequence<N>()); }
	V* make(int i, int x) { V* p = nullptr; at(i, [&]<int I, typename T>() { switch (r.below(3)) { case 0: p = new V(makeV<T>(x)); break; case 1: if constexpr (std::is_copy_constructible_v<T>) { const T t = makeV<T>(x); p = new V(t); MUST(getV(t) == x, "source", "constructing a variant changed the source"); break; } default: if constexpr (!std::is_same_v<T, WString> && !std::is_same_v<T, Ptr<Box>> && std::is_constructible_v<T, int>) p = new V(VariantIndex<I>{}, x); else p = new V(VariantIndex<I>{}, makeV<T>(x)); } }); return p; }
	void checkOne(int i, const char* what)
	{
		V& a = *v[i]; const V& c = a; MUST(a.Index() == idx[i], "index", "%s %s: variant %d holds alternative %ld, expected %d", name, what, i, (long)a.Index(), idx[i]);
		for (int j = 0; j < N; j++) at(j, [&]<int I, typename T>()
		{
			T* p = a.template TryGet<T>(); const T* q = c.template TryGet<T>(); bool here = j == idx[i]; MUST((p != nullptr) == here && p == q, "optional-access", "%s %s: access as alternative %d is %d", name, what, j, (int)(p != nullptr)); static_assert(V::template IndexOf<T> == I);
			if (here) { MUST(getV(*p) == val[i], "value", "%s %s: variant %d holds %d, expected %d", name, what, i, getV(*p), val[i]); MUST((uintptr_t)p % alignof(T) == 0, "alignment", "an alternative is misaligned"); MUST((char*)p >= (char*)&a && (char*)(p + 1) <= (char*)(&a + 1), "place", "an alternative does not lie inside the variant"); MUST(&a.template Get<T>() == p && &c.template Get<T>() == q, "access", "typed access refers to another object"); T&& rv = std::move(a).template Get<T>(); MUST(&rv == p, "access", "typed access refers to another object"); }
			else { MUST(rejected([&] { a.template Get<T>(); }) && rejected([&] { c.template Get<T>(); }) && rejected([&] { (void)std::move(a).template Get<T>(); }), "wrong-access", "%s %s: access as alternative %d is not refused", name, what, j); count("refused"); }
			int n = 0; bool t = a.TryApply([&](T& x) { n++; MUST(&x == p, "visit", "visiting refers to another object"); }); MUST(t == here && n == here, "visit", "%s %s: visiting alternative %d only: called %d times, reported %d", name, what, j, n, (int)t); n = 0; t = c.TryApply([&](const T& x) { n++; MUST(&x == q, "visit", "visiting refers to another object"); }); MUST(t == here && n == here, "visit", "%s %s: visiting a constant variant, alternative %d: called %d times, reported %d", name, what, j, n, (int)t);
		});
		int n = 0, which = -1; a.Apply([&]<typename T>(T& x) { n++; which = (int)V::template IndexOf<std::remove_const_t<T>>; MUST(getV(x) == val[i], "visit", "visiting sees %d, expected %d", getV(x), val[i]); }); MUST(n == 1 && which == idx[i], "visit", "%s %s: visiting called %d callbacks, the last for alternative %d", name, what, n, which); n = 0; c.Apply(Overloading([&](const Ts& x) { n++; MUST(getV(x) == val[i] && V::template IndexOf<Ts> == idx[i], "visit", "visiting with overloads goes wrong"); }...)); MUST(n == 1, "visit", "visiting with overloads called %d callbacks", n); count("states_compared");
	}
	void check(const char* what) { long live = 0; for (int i = 0; i < K; i++) { checkOne(i, what); live += tracks[idx[i]]; } MUST(liveCount() - base == live, "lifetime", "%s %s: %ld contained objects are alive, %ld expected", name, what, liveCount() - base, live); }
	void refill(int s) { at(s >= 0 ? idx[s] : 0, [&]<int I, typename T>() { *v[s] = makeV<T>(3); val[s] = 3; }); } // give a moved-from variant a value again
	void step()
	{
		int d = (int)r.below(K), s = (int)r.below(K), k = (int)r.below(11), i = r.chance(1, 3) ? idx[d] : (int)r.below(N), x = (int)r.range(-9, 9); const char* what = "";
		switch (k)
		{
		case 0: what = "construct"; v[d].reset(make(i, x)); idx[d] = i; val[d] = x; break;
		case 1: case 2: what = "assign value"; at(i, [&]<int I, typename T>() { V& res = (*v[d] = makeV<T>(x)); MUST(&res == v[d].get(), "assign-result", "assignment does not return the variant"); }); count(idx[d] == i ? "same_alternative" : "other_alternative"); idx[d] = i; val[d] = x; break;
		case 3: what = "assign lvalue"; at(i, [&]<int I, typename T>() { if constexpr (std::is_copy_constructible_v<T>) { const T t = makeV<T>(x); *v[d] = t; MUST(getV(t) == x, "source", "assigning to a variant changed the source"); idx[d] = i; val[d] = x; } }); break;
		case 4: what = "Set"; at(i, [&]<int I, typename T>() { v[d]->Set(VariantIndex<I>{}, makeV<T>(x)); }); idx[d] = i; val[d] = x; break;
		case 5: case 6: what = "copy assign"; if constexpr (copyable) { *v[d] = *v[s]; idx[d] = idx[s]; val[d] = val[s]; count("copied"); } break;
		case 7: what = "copy construct"; if constexpr (copyable) { V* p = new V(*v[s]); int i2 = idx[s], x2 = val[s]; v[d].reset(p); idx[d] = i2; val[d] = x2; count("copied"); } break;
		case 8: what = "move assign"; if (d != s) { *v[d] = std::move(*v[s]); idx[d] = idx[s]; val[d] = val[s]; MUST(v[s]->Index() >= 0 && v[s]->Index() < N, "moved-from", "a moved-from variant holds no alternative"); idx[s] = (int)v[s]->Index(); refill(s); count("moved"); } break;
		case 9: what = "move construct"; { V* p = new V(std::move(*v[s])); int i2 = idx[s], x2 = val[s]; idx[s] = (int)v[s]->Index(); refill(s); v[d].reset(p); idx[d] = i2; val[d] = x2; count("moved"); break; }
		default: what = "change in place"; if (r.chance(1, 2)) v[d]->Apply([&]<typename T>(T& t) { if constexpr (std::is_move_assignable_v<T>) { t = makeV<T>(x); val[d] = x; } }); else at(idx[d], [&]<int I, typename T>() { v[d]->template Get<T>() = makeV<T>(x); val[d] = x; });
		}
		op((u64)(k * N + i), (u64)(d * 20 + x + 10)); LOG("%s %s: %d from %d -> alternative %d value %d", name, what, d, s, idx[d], val[d]); check(what);
	}
	static void history(Rng& rng, const char* name) { LifetimeScope l; { World w(rng, name); long n = rng.range(2, 25); for (long i = 0; i < n; i++) w.step(); nontrivial(); } l.check(name); }
};
#if PART == 0
SCENARIO(mixed, 3) { World<int, WString, Tracked, Ptr<Box>>::history(rng, "int/text/tracked/pointer"); }
SCENARIO(single, 1) { World<Tracked>::history(rng, "single"); }
#elif PART == 1
SCENARIO(move_only, 2) { World<MoveOnly, int, Tracked>::history(rng, "move-only"); }
SCENARIO(sizes, 2) { World<char, Aligned, Large, double>::history(rng, "over-aligned and large"); }
#elif PART == 2
SCENARIO(classes, 2) { World<Tracked, CopyOnly, AString, Large, WString>::history(rng, "classes"); }
SCENARIO(two, 1) { World<Tracked, CopyOnly>::history(rng, "two"); }
SCENARIO(plain, 1) { World<int, Plain, double>::history(rng, "plain data"); }
#elif PART == 3
SCENARIO(many, 2) { World<int, Tracked, WString, double, Plain, AString, CopyOnly, Ptr<Box>, char>::history(rng, "nine alternatives"); }
#else
struct Node; using Tree = Variant<int, Ptr<Node>, Tracked, WString>; struct Node { Tracked t; Tree a, b; Node(int v) : t(v), a(0), b(0) {} };
// a variant is assigned from something its own value owns
static Tree grow(Rng& r, int depth) { switch (depth ? r.below(6) : r.below(3)) { case 0: return (int)r.range(-9, 9); case 1: return Tracked((int)r.range(-9, 9)); case 2: return itow(r.range(0, 99)); default: auto n = Ptr(new Node((int)r.range(-9, 9))); n->a = grow(r, depth - 1); n->b = grow(r, depth - 1); return n; } }
static std::string print(const Tree& t) { std::string s; t.Apply(Overloading([&](const int& i) { s = fmt("i%d", i); }, [&](const Ptr<Node>& n) { s = n ? fmt("(%d ", n->t.v()) + print(n->a) + " " + print(n->b) + ")" : "null"; }, [&](const Tracked& t) { s = fmt("t%d", t.v()); }, [&](const WString& w) { s = "w" + toStd(w); })); return s; }
SCENARIO(own_content, 2)
{
	LifetimeScope l; { Tree t = grow(rng, 5); nontrivial(); while (t.Index() == 1) { auto& n = *t.Get<Ptr<Node>>().Obj(); Tree& c = rng.chance(1, 2) ? n.a : n.b; std::string w = print(c); int k = (int)rng.below(4); op((u64)k, (u64)c.Index()); LOG("assign from own content, form %d: %s", k, w.c_str());
		switch (k) { case 0: t = c; break; case 1: t = std::move(c); break; case 2: c.Apply([&](auto& x) { t = x; }); break; default: switch (c.Index()) { case 0: t.Set(VariantIndex<0>{}, c.Get<int>()); break; case 1: t.Set(VariantIndex<1>{}, c.Get<Ptr<Node>>()); break; case 2: t.Set(VariantIndex<2>{}, std::move(c.Get<Tracked>())); break; default: t.Set(VariantIndex<3>{}, c.Get<WString>()); } }
		MUST(print(t) == w, "own-content", "a variant assigned from its own content holds %s, expected %s", print(t).c_str(), w.c_str()); Tree& self = t; t = std::move(self); t = self; MUST(print(t) == w, "self", "a variant assigned to itself holds %s, expected %s", print(t).c_str(), w.c_str()); count("own_content"); } }
	l.check("own content");
}
struct NoDefault { int v; explicit NoDefault(int x) : v(x) {} };
SCENARIO(others, 1)
{
	nontrivial(); int x = (int)rng.range(-99, 99); op((u64)(x + 100)); Variant<vint, WString> a; MUST(a.Index() == 0 && a.Get<vint>() == 0, "default", "a default variant does not hold its first alternative"); a = L"text"; MUST(a.Index() == 1 && toStd(a.Get<WString>()) == "text", "convert", "assigning a literal"); a = WString(L"x"); Variant<vint, WString> b(L"lit"); MUST(b.Index() == 1 && toStd(b.Get<WString>()) == "lit", "convert", "constructing from a literal"); a.Set(VariantIndex<1>{}, L"again"); MUST(toStd(a.Get<WString>()) == "again", "convert", "Set with a literal"); a.Set(VariantIndex<0>{}, x); MUST(a.Get<vint>() == x, "convert", "Set with a number");
	Variant<NoDefault, WString> c(NoDefault{ x }); MUST(c.Get<NoDefault>().v == x, "value", "no default construction"); c = WString(L"q"); c = NoDefault(x + 1); MUST(c.Get<NoDefault>().v == x + 1, "value", "no default construction");
	List<Variant<vint, WString, Tracked>> ls; { LifetimeScope l; for (int i = 0; i < 30; i++) { switch (i % 3) { case 0: ls.Insert(rng.range(0, i), Variant<vint, WString, Tracked>((vint)i)); break; case 1: ls.Add(Variant<vint, WString, Tracked>(itow(i))); break; default: ls.Insert(0, Variant<vint, WString, Tracked>(Tracked(i))); } } long sum = 0; for (auto& v : ls) v.Apply(Overloading([&](const vint& q) { sum += q; }, [&](const WString& q) { sum += wtoi(q); }, [&](const Tracked& q) { sum += q.v(); })); MUST(sum == 435, "list", "variants in a list lose their values"); ls.Clear(); for (int i = 0; i < 3; i++) ls.Add(Variant<vint, WString, Tracked>((vint)i)); ls.Clear(); }
	Variant<Variant<int, WString>, bool> n; n = Variant<int, WString>(WString(L"in")); MUST(n.Index() == 0 && toStd(n.Get<Variant<int, WString>>().Get<WString>()) == "in", "nested", "a nested variant loses its value"); n = true; MUST(n.Index() == 1 && n.Get<bool>(), "nested", "replacing a nested variant"); auto* heap = new Variant<char, Aligned>[3]; for (int i = 0; i < 3; i++) { heap[i] = Aligned(i); MUST((uintptr_t)&heap[i].Get<Aligned>() % 64 == 0, "alignment", "an alternative inside an array is misaligned"); } delete[] heap; Nullable<Variant<int, WString>> nv; nv = Variant<int, WString>(5); MUST(nv.Value().Get<int>() == 5, "nested", "an optional variant"); count("others");
}
#endif
#if PART == 0
const char* const harnessProperty = "C30";
const long harnessCpuBudget = 60;
#include "main.h"
#endif
