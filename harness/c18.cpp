// COM-style pointers: each adoption (raw object handed over) forms a share group; one Release per group, when it empties.
#include "util.h"
#include <memory>
using namespace H;
struct Com; static std::vector<int>* members; static std::vector<int>* groupObj; static std::vector<Com*>* all;
static void gInc(int g) { if (g >= 0) (*members)[g]++; } static void gDec(int g) { if (g >= 0) (*members)[g]--; }
struct Com
{
	int id, adopted = 0, released = 0; ComPtr<Com> next; int nextGroup = -1; std::function<void()> onRelease; long canary = 77;
	Com() { id = (int)all->size(); all->push_back(this); }
	int emptied() { int n = 0; for (size_t g = 0; g < groupObj->size(); g++) if ((*groupObj)[g] == id && (*members)[g] == 0) n++; return n; }
	void Release()
	{
		MUST(canary == 77 && released < adopted, "too-many", "object %d is released %d times but was handed over %d times", id, released + 1, adopted); released++; count("release_events");
		MUST(released <= emptied(), "early", "object %d is released although pointers sharing it remain", id);
		bool last = released == adopted; auto f = onRelease; onRelease = nullptr; if (f) f();
		if (last) { (*all)[id] = nullptr; gDec(nextGroup); nextGroup = -1; canary = 0; delete this; }
	}
};
struct Slot { ComPtr<Com> p; int g = -1; };
static void history(Rng& rng, bool reentrant)
{
	std::vector<int> mem, gobj; std::vector<Com*> objects; members = &mem; groupObj = &gobj; all = &objects; auto sv = new std::vector<Slot>(7); auto& slots = *sv; auto lst = new List<ComPtr<Com>>; std::vector<int> lg; auto busy = std::make_shared<std::set<int>>(); long steps = rng.range(10, 90);
	auto adopt = [&](Com* c) { c->adopted++; mem.push_back(0); gobj.push_back(c->id); return (int)mem.size() - 1; };
	auto obj = [&](int g) -> Com* { return g < 0 ? nullptr : objects[gobj[g]]; };
	auto judge = [&](const char* after)
	{
		std::map<int, int> emptied; for (size_t g = 0; g < mem.size(); g++) { MUST(mem[g] >= 0, "model", "model error"); if (mem[g] == 0) emptied[gobj[g]]++; }
		for (auto c : objects) if (c) MUST(c->released == emptied[c->id], "not-released", "after %s object %d was released %d times, expected %d", after, c->id, c->released, emptied[c->id]);
		for (auto& s : slots) MUST(s.p.Obj() == obj(s.g) && s.p.operator->() == obj(s.g) && (bool)s.p == (s.g >= 0), "wrong-object", "after %s a pointer refers to a wrong object", after);
		for (vint i = 0; i < lst->Count(); i++) MUST((*lst)[i].Obj() == obj(lg[i]), "wrong-object", "after %s a listed pointer is wrong", after);
		count("states_compared");
	};
	auto set = [sv, busy](int i, int g, auto real) { if (busy->count(i)) return; busy->insert(i); auto& d = (*sv)[i]; gInc(g); gDec(d.g); d.g = g; real(); busy->erase(i); };
	for (long k = 0; k < steps; k++)
	{
		int i = (int)rng.below(7), j = (int)rng.below(7), what = (int)rng.below(16); auto& d = slots[i]; auto& s = slots[j]; const char* name = "nothing";
		switch (what)
		{
		case 0: case 1: { name = "construct"; auto c = new Com; int g = adopt(c); set(i, g, [&] { d.p = ComPtr<Com>(c); }); break; }
		case 2: { name = "raw assignment"; auto c = new Com; int g = adopt(c); set(i, g, [&] { d.p = c; }); break; }
		case 3: name = "copy assignment"; set(i, s.g, [&] { d.p = s.p; }); break;
		case 4: name = "move assignment"; if (i != j) { int g = s.g; gDec(d.g); d.g = g; s.g = -1; busy->insert(i); busy->insert(j); d.p = std::move(s.p); busy->clear(); MUST(!s.p, "moved-from", "a moved-from pointer still refers to its object"); } break;
		case 5: name = "null"; set(i, -1, [&] { switch (rng.below(3)) { case 0: d.p = nullptr; break; case 1: d.p = ComPtr<Com>(); break; default: d.p = (Com*)nullptr; } }); break;
		case 6: name = "swap"; if (i != j) { std::swap(d.p, s.p); std::swap(d.g, s.g); } break;
		case 7: { name = "temporaries"; gInc(s.g); { ComPtr<Com> a(s.p), b(a), c(std::move(a)); MUST(!a && b == c && b == s.p, "temporary", "copies differ"); a = c; c = nullptr; b = a; } gDec(s.g); break; }
		case 8: name = "second hand-over"; if (s.g >= 0) { auto c = s.p.Obj(); int g = adopt(c); set(i, g, [&] { if (rng.chance(1, 2)) d.p = c; else d.p = ComPtr<Com>(c); }); count("second_handover"); } break;
		case 9: name = "link"; if (d.p && s.g >= 0 && gobj[s.g] > gobj[d.g]) { auto x = d.p.Obj(); gInc(s.g); gDec(x->nextGroup); x->nextGroup = s.g; x->next = s.p; } break;
		case 10: case 11: name = "head = head->next"; if (d.p) { auto x = d.p.Obj(); bool mv = rng.chance(1, 3); int g = x->nextGroup; if (mv) { gInc(g); gDec(x->nextGroup); x->nextGroup = -1; busy->insert(i); gDec(d.g); d.g = g; d.p = std::move(d.p->next); busy->clear(); } else set(i, g, [&] { d.p = d.p->next; }); count("head_next"); } break;
		case 12: { name = "comparison"; Com* x = d.p.Obj(); Com* y = s.p.Obj(); std::less<Com*> lt; MUST((d.p == s.p) == (x == y) && (d.p != s.p) == (x != y) && (d.p < s.p) == lt(x, y) && (d.p > s.p) == lt(y, x) && (d.p == y) == (x == y) && (d.p <= s.p) == !lt(y, x), "comparison", "comparison disagrees with identity"); break; }
		case 13: name = "list"; if (lg.size() < 5 && rng.chance(1, 2)) { gInc(s.g); lg.push_back(s.g); lst->Add(s.p); } else if (lg.size()) { long q = rng.below((long)lg.size()); gDec(lg[q]); lg.erase(lg.begin() + q); lst->RemoveAt(q); } break;
		case 14: if (reentrant) { name = "arming"; if (s.p && !s.p->onRelease) s.p->onRelease = [=] { count("reentrant_releases"); auto& dd = (*sv)[i]; auto& ss = (*sv)[j]; if (i % 2) set(i, -1, [&] { dd.p = nullptr; }); else if (!busy->count(j)) set(i, ss.g, [&] { dd.p = ss.p; }); }; } break;
		default: name = "self assignment"; { auto& alias = d.p; d.p = alias; } break;
		}
		LOG("%s %d %d", name, i, j); op(what, i * 10 + j); judge(name);
	}
	for (auto c : objects) if (c) c->onRelease = nullptr; for (int i = 0; i < 7; i++) set(i, -1, [&] { slots[i].p = nullptr; }); for (int g : lg) gDec(g); lg.clear(); delete lst; lst = new List<ComPtr<Com>>; judge("releasing everything"); delete lst; delete sv;
	for (auto c : objects) MUST(!c, "not-released", "an object was never fully released"); if (objects.size() > 2) nontrivial();
}
// very many pointers sharing one object at once
struct Popular { int gone = 0; void Release() { gone++; } };
SCENARIO(crowd, 1)
{
	Popular o; long n = rng.chance(1, 40) ? rng.range(30000, 140000) : rng.chance(1, 6) ? rng.range(1000, 9000) : rng.range(20, 700); op((u64)n); nontrivial(); std::vector<ComPtr<Popular>> a; { ComPtr<Popular> first(&o);
	for (long i = 0; i < n; i++) switch (rng.below(3)) { case 0: a.push_back(first); break; case 1: { ComPtr<Popular> t; t = first; a.push_back(std::move(t)); break; } default: { ComPtr<Popular> t = a.empty() ? first : a[rng.below((long)a.size())]; a.push_back(t); } } }
	int front = (int)rng.below(2); size_t at = 0; for (long left = n; left; left--) { MUST(o.gone == 0, "early", "an object shared by %ld pointers was released while %ld remained", n, left); if (front) a[at++] = nullptr; else a.pop_back(); }
	MUST(o.gone == 1, "not-released", "an object that was shared by %ld pointers was released %d times", n, o.gone); count("crowds"); count("crowd_owners", (u64)n);
}
SCENARIO(shared, 3) { history(rng, false); }
SCENARIO(reentrant, 2) { history(rng, true); }
const char* const harnessProperty = "C18";
const long harnessCpuBudget = 20;
#include "main.h"
