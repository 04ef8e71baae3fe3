// Events: delivery monitor. Each raise carries a number; every handler call is recorded with the number it was called for.
#include "util.h"
#include <memory>
using namespace H;
struct Watch
{
	struct Handler { Ptr<EventHandler> h; int id; bool attached; int event; };
	struct Raise { int event; std::set<int> at; std::set<int> gone, late; std::map<int, int> got; };
	std::vector<Handler> hs; std::map<int, Raise> open; int nextRaise = 0; int depth = 0; long budget = 0;
};
template<typename Ev, typename Adder, typename Raiser> struct World
{
	Rng& r; std::unique_ptr<Ev> ev[2]; Watch w; size_t most = 14; Adder adder; Raiser raiser;
	World(Rng& _r) : r(_r) { ev[0] = std::make_unique<Ev>(); ev[1] = std::make_unique<Ev>(); }
	void attach()
	{
		if (w.hs.size() > most) return; int e = (int)r.below(2), id = (int)w.hs.size(); w.hs.push_back({ nullptr, id, true, e }); auto h = adder.add(*this, *ev[e], id); w.hs[id].h = h; MUST(h && h->IsAttached(), "attached", "a new handler does not report attached"); for (auto& [n, o] : w.open) if (o.event == e) o.late.insert(id); op(1, (u64)id); LOG("%*sattach %d to event %d", w.depth * 2, "", id, e); count("attached");
	}
	void detach()
	{
		if (w.hs.empty()) return; int id = (int)r.below((long)w.hs.size()); auto h = w.hs[id].h; if (!h) return; int e = r.chance(1, 6) ? 1 - w.hs[id].event : w.hs[id].event; bool want = w.hs[id].attached && e == w.hs[id].event; LOG("%*sdetach %d from event %d (expect %d)", w.depth * 2, "", id, e, (int)want);
		bool got = ev[e]->Remove(h); MUST(got == want, "detach-report", "detaching handler %d reports %d, expected %d", id, (int)got, (int)want); if (want) { w.hs[id].attached = false; for (auto& [n, o] : w.open) if (o.event == e) o.gone.insert(id); count(w.depth ? "detached_inside" : "detached"); } MUST(h->IsAttached() == w.hs[id].attached, "attached", "handler %d reports attached %d", id, (int)h->IsAttached()); op(2, (u64)(id * 2 + got)); if (!want) count("detach_refused");
	}
	void raise()
	{
		int e = (int)r.below(2), n = ++w.nextRaise; { auto& o = w.open[n]; o.event = e; for (auto& h : w.hs) if (h.attached && h.event == e) o.at.insert(h.id); } LOG("%*sraise %d on event %d for %zu handlers", w.depth * 2, "", n, e, w.open[n].at.size()); w.depth++; raiser.raise(*this, *ev[e], n, e); w.depth--;
		auto o = w.open[n]; w.open.erase(n); for (int id : o.at) { int g = o.got.count(id) ? o.got[id] : 0; if (o.gone.count(id)) MUST(g <= 1, "repeated", "handler %d (detached meanwhile) was called %d times by one raise", id, g); else MUST(g == 1, g ? "repeated" : "skipped", "handler %d was called %d times by one raise", id, g); }
		for (auto& [id, g] : o.got) if (!o.at.count(id)) { MUST(o.late.count(id), "detached-called", "handler %d was called though it was not attached", id); MUST(g <= 1, "repeated", "handler %d (attached meanwhile) was called %d times", id, g); } op(3, o.got.size()); count("raises"); if (o.at.size() > 1) nontrivial();
	}
	// called by every handler
	void delivered(int id, int n)
	{
		count("deliveries"); auto it = w.open.find(n); MUST(it != w.open.end(), "stray", "handler %d was called for raise %d which is over", id, n); MUST(w.hs[id].attached, "detached-called", "handler %d was called after it was detached", id); if (!it->second.gone.empty()) count("deliveries_after_detach"); it->second.got[id]++; MUST(w.hs[id].event == it->second.event, "wrong-event", "handler %d was called by another event", id);
		if (w.depth < 3 && w.budget > 0) for (long k = r.below(3); k--;) { w.budget--; act(true); }
	}
	void act(bool nested) { switch (r.below(nested ? 5 : 6)) { case 0: case 1: attach(); break; case 2: case 3: detach(); break; default: if (nested) count("nested_raises"); raise(); } }
	void run() { long n = r.range(4, 30); w.budget = r.range(0, 20); if (r.chance(1, 20)) { most = 2000; for (long k = r.chance(1, 4) ? r.range(200, 1300) : r.range(20, 200); k--;) attach(); count("many_handlers"); if (r.chance(1, 2)) for (long k = r.range(0, 150); k--;) detach(); } for (long i = 0; i < n; i++) act(false); raise(); }
};
// an event with values, const references and texts: every handler sees exactly what was raised
struct AdderA; struct RaiserA; using EvA = Event<void(int, Tracked, const WString&, vint)>; using WA = World<EvA, AdderA, RaiserA>;
struct AdderA
{
	struct Obj { WA* w; int id; void method(int n, Tracked t, const WString& s, vint x); }; std::vector<std::unique_ptr<Obj>> objs;
	static void seen(WA& w, int id, int n, const Tracked& t, const WString& s, vint x);
	Ptr<EventHandler> add(WA& w, EvA& e, int id);
};
struct RaiserA { void raise(WA& w, EvA& e, int n, int k); };
void AdderA::seen(WA& w, int id, int n, const Tracked& t, const WString& s, vint x) { MUST(t.v() == n * 3, "arguments", "handler %d received %d instead of %d", id, t.v(), n * 3); MUST(toStd(s) == std::to_string(n) + "!", "arguments", "handler %d received a wrong text \"%s\"", id, toStd(s).c_str()); MUST(x == -n, "arguments", "handler %d received a wrong number", id); w.delivered(id, n); }
void AdderA::Obj::method(int n, Tracked t, const WString& s, vint x) { seen(*w, id, n, t, s, x); Tracked gone(std::move(t)); }
Ptr<EventHandler> AdderA::add(WA& w, EvA& e, int id)
{
	auto pw = &w; switch (w.r.below(4)) { case 0: objs.push_back(std::make_unique<Obj>(Obj{ pw, id })); return e.Add(objs.back().get(), &Obj::method); case 1: return e.Add(Func<void(int, Tracked, const WString&, vint)>([pw, id](int n, Tracked t, const WString& s, vint x) { seen(*pw, id, n, t, s, x); Tracked eat(std::move(t)); })); case 2: { Tracked cap(id); return e.Add([pw, cap](int n, const Tracked& t, const WString& s, vint x) { int me = cap.v(); seen(*pw, me, n, t, s, x); MUST(cap.v() == me, "state", "captured state changed during its own call"); }); } default: { Tracked cap(id); Func<void(int, Tracked, WString, vint64_t)> f = [pw, cap](int n, Tracked t, WString s, vint64_t x) { seen(*pw, cap.v(), n, t, s, (vint)x); }; return e.Add(f); } }
}
void RaiserA::raise(WA& w, EvA& e, int n, int k)
{
	WString s = itow(n) + L"!"; Tracked t(n * 3); vint x = -n; switch (w.r.below(3)) { case 0: e(n, t, s, x); MUST(t.v() == n * 3 && toStd(s) == std::to_string(n) + "!", "arguments", "raising changed an argument of the caller"); break; case 1: e(n, Tracked(n * 3), itow(n) + L"!", -n); break; default: { const Tracked c(n * 3); const WString cs = s; e(n, c, cs, x); } }
}
// one function attached many times: every attachment is a handler of its own
static int sameCalls[6]; static void sameStatic(int n) { sameCalls[4] += n; } struct SameObj { int n = 0; void method(int k) { n += k; } };
SCENARIO(same_function, 2)
{
	using Ev = Event<void(int)>; Ev ev[2]; std::vector<Func<void(int)>> fs; for (int i = 0; i < 4; i++) fs.push_back([i](int n) { sameCalls[i] += n; }); SameObj obj; struct At { Ptr<EventHandler> h; int f, e; bool on; }; std::vector<At> hs; long n = rng.range(5, 60); int used = (int)rng.range(1, 6);
	for (long i = 0; i < n; i++)
	{
		int k = (int)rng.below(5), e = (int)rng.below(2); op((u64)k, hs.size());
		if (k < 3) { int f = (int)rng.below(used); Ptr<EventHandler> h = f < 4 ? ev[e].Add(fs[f]) : f == 4 ? ev[e].Add(&sameStatic) : ev[e].Add(&obj, &SameObj::method); LOG("attach function %d to event %d as %zu", f, e, hs.size()); for (auto& o : hs) MUST(o.h.Obj() != h.Obj(), "handler-identity", "two attachments share a handler"); MUST(h->IsAttached(), "attached", "a new handler does not report attached"); hs.push_back({ h, f, e, true }); }
		else if (k == 3 && hs.size()) { auto& o = hs[rng.below((long)hs.size())]; int from = rng.chance(1, 6) ? 1 - o.e : o.e; bool want = o.on && from == o.e; LOG("detach %zu", (size_t)(&o - hs.data())); MUST(ev[from].Remove(o.h) == want, "detach-report", "detaching one of several attachments of a function reports wrongly"); if (want) o.on = false; }
		int want[2][6] = {}; for (auto& o : hs) { MUST(o.h->IsAttached() == o.on, "attached", "a handler reports attached %d", (int)o.h->IsAttached()); if (o.on) want[o.e][o.f] += 7; }
		for (int q = 0; q < 2; q++) { memset(sameCalls, 0, sizeof sameCalls); obj.n = 0; ev[q](7); sameCalls[5] = obj.n; for (int f = 0; f < 6; f++) MUST(sameCalls[f] == want[q][f], "same-function", "function %d attached %d times was called %d times", f, want[q][f] / 7, sameCalls[f] / 7); }
		count("same_function_raises"); if (hs.size() > 2) nontrivial();
	}
}
SCENARIO(values, 4) { LifetimeScope l; { WA w(rng); w.run(); } l.check("events"); }
// an event with a reference every handler changes, and with no arguments
struct AdderB; struct RaiserB; using EvB = Event<void(int, long&)>; using WB = World<EvB, AdderB, RaiserB>;
struct AdderB { Ptr<EventHandler> add(WB& w, EvB& e, int id); };
struct RaiserB { void raise(WB& w, EvB& e, int n, int k); };
Ptr<EventHandler> AdderB::add(WB& w, EvB& e, int id) { auto pw = &w; return e.Add([pw, id](int n, long& sum) { sum += 1; pw->delivered(id, n); }); }
void RaiserB::raise(WB& w, EvB& e, int n, int k) { long sum = 0; e(n, sum); long got = 0; for (auto& [id, g] : w.w.open[n].got) got += g; MUST(sum == got, "reference", "handlers changed the caller's variable %ld times in %ld calls", sum, got); count("references"); }
SCENARIO(references, 2) { WB w(rng); w.run(); }
static WB* current; static void plainFunction(int n, long& sum) { sum++; }
SCENARIO(simple, 1)
{
	nontrivial(); Event<void()> e0; int a = 0, b = 0; auto h = e0.Add([&] { a++; }); Func<void()> f = [&] { b++; }; auto h1 = e0.Add(f), h2 = e0.Add(f); long n = rng.range(1, 5); for (long i = 0; i < n; i++) e0(); MUST(a == n && b == 2 * n, "count", "handlers attached twice were called %d times in %ld raises", b, n); MUST(e0.Remove(h1) && !e0.Remove(h1), "detach-report", "detaching one of two equal handlers"); e0(); MUST(b == 2 * n + 1 && h2->IsAttached() && !h1->IsAttached(), "count", "after detaching one of two equal handlers"); MUST(!e0.Remove(nullptr), "detach-report", "detaching nothing reports success"); op((u64)n); count("simple");
	Event<void(int, long&)> e1; auto p = e1.Add(&plainFunction); long s = 0; e1(1, s); e1(2, s); MUST(s == 2, "count", "a plain function"); e1.Remove(p); e1(1, s); MUST(s == 2, "detached-called", "a detached plain function was called");
	Event<void(Ptr<Box>)> e2; int sum = 0; for (int i = 0; i < 3; i++) e2.Add([&](Ptr<Box> x) { sum += x ? x->v : -1000; }); Ptr<Box> box(new Box(7)); e2(box); MUST(sum == 21 && box, "arguments", "a shared pointer does not reach every handler"); sum = 0; e2(Ptr(new Box(5))); MUST(sum == 15, "arguments", "a temporary shared pointer does not reach every handler"); sum = 0; e2(std::move(box)); MUST(sum == 21, "arguments", "a moved shared pointer does not reach every handler");
	Event<void(WString)> e3; std::string all; for (int i = 0; i < 3; i++) e3.Add([&](WString x) { all += toStd(x); }); e3(WString(L"ab") + L"c"); MUST(all == "abcabcabc", "arguments", "a temporary text does not reach every handler"); all.clear(); e3(L"z"); MUST(all == "zzz", "arguments", "a literal does not reach every handler");
	Event<void(MoveOnly)> e4; int got = 0; e4.Add([&](MoveOnly m) { got += m.v(); }); e4(MoveOnly(9)); MUST(got == 9, "arguments", "a move-only argument does not reach the only handler");
	Event<void(int)> e5; int calls = 0; bool boom = true; e5.Add([&](int) { if (boom) throw Error(L"boom"); calls++; }); e5.Add([&](int) { calls++; }); rejected([&] { e5(1); }); calls = 0; boom = false; e5(1); MUST(calls == 2, "after-error", "after a handler raised an error, %d of 2 handlers are called", calls);
	// a handler that detaches itself, and one that destroys its own handle
	Event<void()> e6; int once = 0; Ptr<EventHandler> me; auto big = std::make_shared<std::vector<int>>(100, 3); me = e6.Add([&, big] { once++; e6.Remove(me); me = nullptr; MUST(big->at(99) == 3, "state", "captured state is gone during its own call"); }); e6(); e6(); MUST(once == 1, "self-detach", "a handler that detached itself was called %d times", once);
}
const char* const harnessProperty = "C28";
const long harnessCpuBudget = 60;
#include "main.h"
