// Shared pointers under concurrency: ThreadSanitizer plus exactly-once destruction and visibility of the last writes.
#include "threads.h"
using namespace H;
constexpr int TMAX = 6;
static std::atomic<long> destroyedTotal, earlyDeaths;
struct Ledger { std::atomic<int> died{ 0 }; };
struct Shared1 : public Object
{
	Ledger* ledger; long written[TMAX] = {}; long* last; // last[t]: what thread t wrote last (plain memory of the harness, only read by the destructor)
	std::unique_ptr<long> heap{ new long(42) };
	Shared1(Ledger* l, long* la) : ledger(l), last(la) {}
	~Shared1()
	{
		int n = ledger->died.fetch_add(1, std::memory_order_relaxed); if (n) VIOLATION("double-destruction", "an object was destroyed twice");
		for (int t = 0; t < TMAX; t++) if (written[t] != last[t]) VIOLATION("stale-destructor", "the destructor does not see what thread %d wrote before releasing", t);
		if (*heap != 42) VIOLATION("corrupt", "the object is corrupt at destruction"); destroyedTotal.fetch_add(1, std::memory_order_relaxed);
	}
};
struct Pad { long pad[2] = {}; virtual ~Pad() {} }; struct Sub1 : Pad, Shared1 { using Shared1::Shared1; };
struct Own1 : Shared1 { atomic_vint rc{ 0 }; using Shared1::Shared1; }; 
namespace vl { template<typename T> struct ReferenceCounterOperator<T, std::enable_if_t<std::is_convertible_v<T*, Own1*>>> { static atomic_vint* CreateCounter(T* r) { return &r->rc; } static void DeleteReference(atomic_vint* c, void* r) { delete (T*)r; } }; }
struct Com1 : Shared1 { using Shared1::Shared1; void Release() { delete this; } };
template<typename T, typename P> void stress(Rng& rng, std::function<P(T*)> adopt)
{
	int n = (int)rng.range(2, TMAX); int objects = (int)rng.range(1, 3); long steps = rng.range(20, 160); destroyedTotal = 0; std::vector<Ledger> ledgers(objects); std::vector<std::vector<long>> last(objects, std::vector<long>(TMAX, 0));
	struct Mail { std::mutex m; P p; int o = -1; }; auto mail = std::make_unique<std::vector<Mail>>(2);
	std::vector<std::vector<std::pair<P, int>>> own(n, std::vector<std::pair<P, int>>(4)); for (auto& v : own) for (auto& s : v) s.second = -1;
	{ for (int o = 0; o < objects; o++) { P p = adopt(new T(&ledgers[o], last[o].data())); for (int t = 0; t < n; t++) { own[t][o % 4].first = p; own[t][o % 4].second = o; } } }
	bool shortRun = rng.chance(1, 3); if (shortRun) steps = rng.range(1, 4); // everybody lets go at nearly the same time
	parallel(rng, n, (size_t)steps + 4, [&](int t, Rng& r, Interleaving& il)
	{
		auto& mine = own[t];
		for (long k = 0; k < steps; k++)
		{
			auto& d = mine[r.below(4)]; auto& s = mine[r.below(4)];
			switch (r.below(9))
			{
			case 0: case 1: d.first = s.first; d.second = s.second; break;
			case 2: if (&d != &s) { d.first = std::move(s.first); d.second = s.second; s.second = -1; } break;
			case 3: if (d.first) { auto q = d.first; P z(q); q = nullptr; P y(std::move(z)); } break;
			case 4: if (d.first && r.chance(1, 3)) { d.first = nullptr; d.second = -1; } break;
			case 5: case 6: if (d.first) { long v = d.first->written[t] + 1; last[d.second][t] = v; d.first->written[t] = v; if (*d.first->heap != 42) VIOLATION("corrupt", "an object is corrupt while owned"); } break;
			case 7: { auto& m = (*mail)[r.below(2)]; std::lock_guard<std::mutex> g(m.m); if (r.chance(1, 2)) { m.p = d.first; m.o = d.second; } else { d.first = m.p; d.second = m.o; } break; }
			default: if constexpr (std::is_same_v<P, Ptr<T>>) { auto c = d.first.template Cast<Sub1>(); Ptr<Shared1> b = c; if (b && b.Obj() != (Shared1*)d.first.Obj()) VIOLATION("cast", "a cast gives another object"); } else if (d.first) { P c(d.first); if (!(c == d.first)) VIOLATION("copy", "a copy differs"); } break;
			}
			il.step(t); jitter(r);
		}
		// let go in random order
		for (int i = 3; i >= 0; i--) { std::swap(mine[i], mine[r.below(i + 1)]); } for (auto& s : mine) { if (s.first && r.chance(1, 2)) { long v = s.first->written[t] + 1; last[s.second][t] = v; s.first->written[t] = v; } il.step(t); s.first = nullptr; }
	});
	for (auto& m : *mail) m.p = nullptr; mail.reset(); own.clear();
	for (int o = 0; o < objects; o++) MUST(ledgers[o].died.load() == 1, "not-destroyed", "object %d was destroyed %d times after all threads let go", o, ledgers[o].died.load()); count("objects", objects);
}
SCENARIO(ptr, 3) { stress<Shared1, Ptr<Shared1>>(rng, [](Shared1* x) { return Ptr(x); }); }
SCENARIO(ptr_base, 2) { stress<Shared1, Ptr<Shared1>>(rng, [](Shared1* x) { Ledger* l = x->ledger; long* la = x->last; x->ledger = new Ledger; auto tmp = x->ledger; delete x; delete tmp; return Ptr<Shared1>(Ptr(new Sub1(l, la))); }); }
SCENARIO(intrusive, 2) { stress<Own1, Ptr<Own1>>(rng, [](Own1* x) { return Ptr(x); }); }
SCENARIO(com, 1) { stress<Com1, ComPtr<Com1>>(rng, [](Com1* x) { return ComPtr<Com1>(x); }); }
// all threads copy the same pointer, which nobody modifies meanwhile
template<typename T, typename P> void common(Rng& rng, std::function<P(T*)> adopt)
{
	int n = (int)rng.range(2, 4); long rounds = rng.range(10, 60); std::vector<Ledger> ledgers(rounds); std::vector<long> last(TMAX, 0); P original; Rendezvous meet(n); std::vector<std::vector<P>> kept(n); u64 how = rng.next(); long k = 0; std::vector<long> order(rounds);
	parallel(rng, n, (size_t)rounds * 2, [&](int t, Rng& r, Interleaving& il)
	{
		for (long i = 0; i < rounds; i++)
		{
			if (t == 0) { original = adopt(new T(&ledgers[i], last.data())); }
			meet.meet(3 * i); bool keep = (how >> (i % 60)) & 1;
			{ const P& o = original; P c(o); il.step(t); P d; d = o; if (!(c == o) || d.Obj() != c.Obj() || *c->heap != 42) VIOLATION("copy", "a copy of the common original differs"); if (keep) kept[t].push_back(c); if (r.chance(1, 2)) { c = nullptr; P e(o); e = std::move(d); } }
			meet.meet(3 * i + 1); if (t == 0) { if (ledgers[i].died.load()) VIOLATION("early-destruction", "an object was destroyed while its original pointer owns it"); original = P(); if (keep && ledgers[i].died.load()) VIOLATION("early-destruction", "an object was destroyed while copies own it"); }
			meet.meet(3 * i + 2); if (r.chance(1, 3) || keep) { il.step(t); kept[t].clear(); }
		}
	});
	for (long i = 0; i < rounds; i++) MUST(ledgers[i].died.load() == 1, "not-destroyed", "object %ld was destroyed %d times after all threads let go", i, ledgers[i].died.load()); count("common_rounds", rounds); (void)k;
}
SCENARIO(common_ptr, 2) { common<Shared1, Ptr<Shared1>>(rng, [](Shared1* x) { return Ptr(x); }); }
SCENARIO(common_intrusive, 1) { common<Own1, Ptr<Own1>>(rng, [](Own1* x) { return Ptr(x); }); }
SCENARIO(common_com, 1) { common<Com1, ComPtr<Com1>>(rng, [](Com1* x) { return ComPtr<Com1>(x); }); }
const char* const harnessProperty = "C17";
const long harnessCpuBudget = 60;
#include "main.h"
