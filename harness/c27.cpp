// Callables: every call is an event (target, arguments); captured state is tracked by construction.
#include "util.h"
#include <memory>
using namespace H;
struct Call { int target; long a, b; long state; };
static std::vector<Call> calls; static std::map<int, long> aliveOf; static int nextId; // construction id -> live captured tokens
// captured state: knows which construction it belongs to; copies and moves are the same construction
struct Token
{
	int id; Tracked guard;
	explicit Token(int i) : id(i), guard(i) { aliveOf[id]++; } Token(const Token& t) : id(t.id), guard(t.guard) { aliveOf[id]++; } Token(Token&& t) : id(t.id), guard(t.guard) { aliveOf[id]++; } ~Token() { if (--aliveOf[id] < 0) VIOLATION("state-destroyed-twice", "captured state was destroyed too often"); }
	Token& operator=(const Token&) = delete;
};
static long result(int id, long a, long b) { return id * 1000 + a * 7 - b; }
static long note(int id, long a, long b, long state) { calls.push_back({ id, a, b, state }); return result(id, a, b); }
static long f0(int a, int b) { return note(-1, a, b, 0); } static long f1(int a, int b) { return note(-2, a, b, 0); } static short g0(long a, long b) { note(-3, a, b, 0); return 11; }
struct Target { int id; long n = 0; long method(int a, int b) { return note(id, a, b, ++n); } long other(int a, int b) { return note(id + 5000, a, b, ++n); } };
struct Functor { Token t; long n = 0; Functor(int id) : t(id) {} long operator()(int a, int b) { return note(t.id, a, b, ++n + 0 * t.guard.v()); } };
struct ConstFunctor { Token t; ConstFunctor(int id) : t(id) {} long operator()(int a, int b) const { return note(t.id, a, b, -t.guard.v()); } };
using F = Func<long(int, int)>; using G = Func<int(long, long)>; // a second signature, convertible both ways
struct Model { int made = 0; int target = 0; std::shared_ptr<long> state; std::vector<int> holds; long(*fix)(long) = nullptr; }; // made: construction (0: empty)
template<typename X> struct Slot { X f; Model m; };
struct World
{
	Rng& r; std::vector<Slot<F>> fs{ 5 }; std::vector<Slot<G>> gs{ 3 }; std::vector<std::unique_ptr<Target>> targets; std::map<Target*, std::shared_ptr<long>> counters; int base;
	World(Rng& _r) : r(_r), base(nextId) {}
	static int fresh() { return ++nextId; }
	void callF(Slot<F>& s) { if (!s.m.made) return; long a = r.range(-50, 50), b = r.range(-50, 50); calls.clear(); long v = r.chance(1, 2) ? s.f((int)a, (int)b) : [&](F f) { return f((int)a, (int)b); }(s.f); judge(s.m, a, b, v, "F"); }
	void callG(Slot<G>& s) { if (!s.m.made) return; long a = r.range(-50, 50), b = r.range(-50, 50); calls.clear(); int v = s.f(a, b); judge(s.m, a, b, v, "G"); }
	void judge(Model& m, long a, long b, long v, const char* who)
	{
		MUST(calls.size() == 1, "calls", "%s: one call produced %zu calls of the target", who, calls.size()); auto& c = calls[0]; MUST(c.target == m.target, "target", "%s: target %d was called instead of %d", who, c.target, m.target); MUST(c.a == a && c.b == b, "arguments", "%s: arguments (%ld,%ld) arrived as (%ld,%ld)", who, a, b, c.a, c.b);
		long want = m.target == -3 ? 11 : result(m.target, a, b); MUST(v == want, "result", "%s: result is %ld, expected %ld", who, v, want); if (m.state) { ++*m.state; MUST(c.state == *m.state, "state", "%s: the captured state counts %ld, expected %ld: copies do not share it", who, c.state, *m.state); count("shared_state_calls"); } count("calls"); nontrivial();
	}
	template<typename X> void set(Slot<X>& s, X&& x, Model m) { switch (r.below(3)) { case 0: s.f = std::move(x); break; case 1: s.f = x; break; default: { X c(std::move(x)); s.f = X(c); } } s.m = std::move(m); }
	void check()
	{
		std::map<int, bool> held; for (auto& s : fs) for (int i : s.m.holds) held[i] = true; for (auto& s : gs) for (int i : s.m.holds) held[i] = true;
		for (int i = base + 1; i <= nextId; i++) { auto it = aliveOf.find(i); long n = it == aliveOf.end() ? 0 : it->second; if (held.count(i)) MUST(n >= 1, "state-lost", "captured state %d is gone while a callable still uses it", i); else MUST(n == 0, "state-leaked", "captured state %d is alive (%ld) though no callable uses it", i, n); }
		for (auto& a : fs) { MUST((bool)a.f == (a.m.made != 0), "empty", "emptiness is reported wrongly"); for (auto& b : fs) { bool w = a.m.made == b.m.made; MUST((a.f == b.f) == w && (a.f != b.f) == !w, "equality", "equality of callables is %d, expected %d", (int)(a.f == b.f), (int)w); } }
		for (auto& a : gs) { MUST((bool)a.f == (a.m.made != 0), "empty", "emptiness is reported wrongly"); for (auto& b : gs) MUST((a.f == b.f) == (a.m.made == b.m.made), "equality", "equality of callables is wrong"); } count("states_compared");
	}
	void step()
	{
		auto& d = r.of(fs); auto& s = r.of(fs); auto& g = r.of(gs); auto& h = r.of(gs); int k = (int)r.below(19), id = 0;
		switch (k)
		{
		case 0: id = fresh(); set(d, F(r.chance(1, 2) ? f0 : f1), {}); { calls.clear(); d.f(0, 0); d.m = { id, calls.at(0).target }; } break;
		case 1: { id = fresh(); Functor f(id); if (r.chance(1, 2)) set(d, F(f), { id, id, std::make_shared<long>(0), { id } }); else set(d, F(std::move(f)), { id, id, std::make_shared<long>(0), { id } }); break; }
		case 2: { id = fresh(); Token t(id); set(d, F([t](int a, int b) { return note(t.id, a, b, 0); }), { id, id, nullptr, { id } }); break; }
		case 3: { id = fresh(); Token t(id); long n = 0; set(d, F([t, n](int a, int b) mutable { return note(t.id, a, b, ++n); }), { id, id, std::make_shared<long>(0), { id } }); break; }
		case 4: { id = fresh(); const ConstFunctor c(id); set(d, F(c), { id, id, nullptr, { id } }); break; }
		case 5: { if (targets.size() < 4) { targets.push_back(std::make_unique<Target>()); targets.back()->id = 100000 + (int)targets.size(); counters[targets.back().get()] = std::make_shared<long>(0); } Target* t = r.of(targets).get(); bool o = r.chance(1, 2); id = fresh(); set(d, F(t, o ? &Target::other : &Target::method), { id, t->id + (o ? 5000 : 0), counters[t] }); break; }
		case 6: case 7: d.f = s.f; d.m = s.m; break;
		case 8: { F x(s.f); d.f = std::move(x); d.m = s.m; break; }
		case 9: d.f = F(); d.m = {}; break;
		case 10: { id = s.m.made ? fresh() : 0; Model m = s.m; m.made = id; if (r.chance(1, 2)) set(g, G(s.f), m); else { F x = s.f; set(g, G(std::move(x)), m); } if (!id) count("empty_wrapped"); else count("wrapped"); break; }
		case 11: { id = g.m.made ? fresh() : 0; Model m = g.m; m.made = id; const G c = g.f; set(d, F(c), m); if (!id) count("empty_wrapped"); else count("wrapped"); break; }
		case 12: g.f = h.f; g.m = h.m; break;
		case 13: { id = fresh(); set(g, G(g0), { id, -3 }); set(d, F(&g0), { id = fresh(), -3 }); break; }
		case 14: { List<F> xs; xs.Add(s.f); xs.Add(d.f); xs.Insert(0, s.f); xs.RemoveAt(1); d.f = xs[0]; d.m = s.m; break; }
		case 15: { F x = std::move(s.f); Model m = s.m; s.f = F(); s.m = {}; d.f = x; d.m = m; break; }
		default: callF(s); callG(g); callF(d);
		}
		op((u64)k, (u64)d.m.target); LOG("step %d: target %d made %d", k, d.m.target, d.m.made); check();
	}
};
SCENARIO(history, 4) { LifetimeScope l; { World w(rng); long n = rng.range(5, 60); for (long i = 0; i < n; i++) w.step(); } calls.clear(); for (auto& [k, v] : aliveOf) MUST(v == 0, "state-leaked", "captured state survives all callables"); aliveOf.clear(); l.check("callables"); }
// wrapped again and again, and held by very many copies at once
SCENARIO(deep, 1)
{
	LifetimeScope l; aliveOf.clear(); nextId = 0; { long depth = rng.chance(1, 8) ? rng.range(60, 600) : rng.range(1, 60), copies = rng.chance(1, 60) ? rng.range(30000, 90000) : rng.range(1, 500); bool empty = rng.chance(1, 6); int id = ++nextId; op((u64)depth, (u64)copies); nontrivial(); long n = 0; F f; if (!empty) { Token t(id); f = F([t, n](int a, int b) mutable { return note(t.id, a, b, ++n); }); }
	std::vector<F> keep; std::vector<long> level; long called = 0; for (long i = 0; i < depth; i++) { G g(f); F next(g); MUST((bool)g == !empty && (bool)next == !empty, "empty", "emptiness is lost after wrapping %ld times", i + 1); if (rng.chance(1, 4)) f = next; else f = std::move(next); if (rng.chance(1, 10)) { keep.push_back(f); } }
	std::vector<F> many; for (long i = 0; i < copies; i++) { if (rng.chance(1, 2)) many.push_back(f); else { F x; x = many.empty() ? f : many[rng.below((long)many.size())]; many.push_back(std::move(x)); } }
	auto call = [&](F& x) { if (empty) return; long a = rng.range(-50, 50), b = rng.range(-50, 50); calls.clear(); long v = x((int)a, (int)b); called++; MUST(calls.size() == 1 && calls[0].target == id && calls[0].a == a && calls[0].b == b && calls[0].state == called, "deep", "a call through %ld wrappings reached the target %zu times or with other arguments or state", depth * 2, calls.size()); MUST(v == result(id, a, b), "result", "a result changed through %ld wrappings", depth * 2); count("deep_calls"); };
	call(f); for (auto& k : keep) call(k); f = F(); for (long i = 0; i < 5; i++) call(many[rng.below(copies)]); for (auto& x : many) MUST((bool)x == !empty && x == many[0], "equality", "copies of one callable differ"); if (rng.chance(1, 2)) keep.clear();
	while (many.size() > 1) { many.pop_back(); if (many.size() % 97 == 1) call(many[0]); } call(many[0]); if (!empty) MUST(aliveOf[id] >= 1, "state-lost", "captured state is gone while a callable still uses it"); many.clear(); keep.clear(); MUST(aliveOf[id] == 0, "state-leaked", "captured state survives the last of %ld copies", copies); }
	calls.clear(); l.check("wrapping callables"); count("deep_wrappings");
}
// argument and result categories
static Tracked staticTracked(Tracked a, const Tracked& b, Tracked& c, Tracked&& d) { c = Tracked(a.v() + b.v()); return Tracked(std::move(d).v() + 1); }
struct Holder { Tracked t{ 5 }; Tracked& get() { return t; } const Tracked& cget(int) { return t; } void put(MoveOnly m) { last = m.v(); } int last = 0; MoveOnly pass(MoveOnly m) { return m; } };
SCENARIO(categories, 2)
{
	LifetimeScope l; nontrivial();
	{
		int a = (int)rng.range(-99, 99), b = (int)rng.range(-99, 99), c = (int)rng.range(-99, 99); op((u64)(a + 100), (u64)(b + 100));
		auto tryAll = [&](Func<Tracked(Tracked, const Tracked&, Tracked&, Tracked&&)> f, const char* who) { Tracked x(a), y(b), z(0), w(c); auto f2 = f; Tracked r = f2(x, y, z, std::move(w)); MUST(x.v() == a && y.v() == b, "arguments", "%s: an argument passed by value or const reference changed", who); MUST(z.v() == a + b && r.v() == c + 1, "arguments", "%s: arguments or result arrive wrongly", who); count("category_calls"); };
		tryAll(Func<Tracked(Tracked, const Tracked&, Tracked&, Tracked&&)>(&staticTracked), "function"); tryAll([&](Tracked x, const Tracked& y, Tracked& z, Tracked&& w) { return staticTracked(std::move(x), y, z, std::move(w)); }, "lambda"); tryAll([](const Tracked& x, const Tracked& y, Tracked& z, Tracked w) { z = Tracked(x.v() + y.v()); return Tracked(w.v() + 1); }, "lambda with other categories");
		Holder h; Func<Tracked&()> gr(&h, &Holder::get); MUST(&gr() == &h.t, "reference-result", "a returned reference refers to another object"); Func<const Tracked&(int)> gc(&h, &Holder::cget); MUST(&gc(1) == &h.t, "reference-result", "a returned const reference refers to another object"); Func<void(MoveOnly)> pm(&h, &Holder::put); pm(MoveOnly(a)); MUST(h.last == a, "arguments", "a move-only argument arrives as %d", h.last); Func<MoveOnly(MoveOnly)> ps(&h, &Holder::pass); MUST(ps(MoveOnly(b)).v() == b, "result", "a move-only result arrives wrongly"); auto ps2 = Func<MoveOnly(MoveOnly)>([](MoveOnly m) { return MoveOnly(m.v() + 1); }); MUST(ps2(MoveOnly(b)).v() == b + 1, "result", "a move-only result arrives wrongly");
		Func<void(MoveOnly&)> byRef = [](MoveOnly& m) { m = MoveOnly(m.v() * 2); }; MoveOnly m(c); byRef(m); MUST(m.v() == c * 2, "arguments", "a reference argument refers to another object");
		// wrapping with conversions of arguments and result
		Func<int(const char*)> len = [](const char* s) { return (int)strlen(s); }; Func<double(const char*)> wide(len); MUST(wide("abcd") == 4.0, "wrap", "wrapping with a converted result"); Func<void(const char*)> drop(len); drop("x"); Func<void(int)> ignored = [&](int v) { c = v; return 42; }; ignored(17); MUST(c == 17, "wrap", "a result that is ignored"); 
		// arities
		long got[9] = {}; int seen = 0; auto log = [&](auto... xs) { seen++; long i = 0; ((got[i++] = (long)xs), ...); got[8] = i; };
		(Func<void()>{log})(); MUST(seen == 1 && got[8] == 0, "arity", "no arguments"); (Func<void(int)>{log})(a); MUST(seen == 2 && got[8] == 1 && got[0] == a, "arity", "one argument"); (Func<void(char, int, long, short, vint64_t, int, int, vint8_t)>{log})(1, a, b, 4, 1ll << 40, c, a, -8); MUST(seen == 3 && got[8] == 8 && got[0] == 1 && got[1] == a && got[2] == b && got[3] == 4 && got[4] == 1ll << 40 && got[5] == c && got[6] == a && got[7] == -8, "arity", "eight arguments arrive wrongly");
		auto deduced = Func([a](int x, WString s) { return s + itow(x + a); }); static_assert(std::is_same_v<decltype(deduced), Func<WString(int, WString)>>); MUST(toStd(deduced(b, L"=")) == "=" + std::to_string(a + b), "deduced", "a callable of deduced type returns a wrong text"); auto dm = Func(&h, &Holder::put); dm(MoveOnly(3)); MUST(h.last == 3, "deduced", "a method of deduced type"); auto df = Func(&f0); calls.clear(); MUST(df(1, 2) == result(-1, 1, 2) && calls.size() == 1, "deduced", "a function of deduced type");
		// an error raised by the target passes through, the callable stays usable
		bool boom = true; Func<int(int)> th = [&](int x) -> int { if (boom) throw Error(L"boom"); return x; }; MUST(rejected([&] { th(1); }), "throw", "an error of the target is lost"); boom = false; MUST(th(9) == 9, "throw", "unusable after an error"); auto self = Ptr(new Func<int(int)>); auto raw = self.Obj(); *raw = [raw](int n) { return n <= 0 ? 0 : n + (*raw)(n - 1); }; MUST((*raw)(10) == 55, "recursion", "recursive calls");
	}
	l.check("argument categories");
}
const char* const harnessProperty = "C27";
const long harnessCpuBudget = 60;
#include "main.h"
