// Shared ownership: an owner-count model next to real pointers; every destruction is an event checked at once.
#include "util.h"
#include <memory>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#include <sanitizer/lsan_interface.h>
#endif
using namespace H;
struct Owner { int refs = 0; bool alive = false; };
static std::vector<Owner>* objs; static long created, destroyed;
static void mInc(int id) { if (id >= 0) (*objs)[id].refs++; } static void mDec(int id) { if (id >= 0) (*objs)[id].refs--; }
struct Base : public Object
{
	int id; Ptr<Base> next; int nextId = -1; List<Ptr<Base>> kids; std::vector<int> kidIds; std::function<void()> onDie;
	Base() { id = (int)objs->size(); objs->push_back({ 0, true }); created++; }
	~Base()
	{
		auto& o = (*objs)[id]; MUST(o.alive, "double-destruction", "object %d is destroyed twice", id); MUST(o.refs == 0, "destroyed-while-owned", "object %d is destroyed while %d owners remain", id, o.refs); o.alive = false; destroyed++;
		mDec(nextId); for (int k : kidIds) mDec(k); if (onDie) onDie();
	}
};
struct Pad { long pad[3] = { 1, 2, 3 }; virtual ~Pad() {} };
struct Left : virtual Base { long l = 5; }; struct Right : Pad, virtual Base { long r = 6; }; struct Both : Left, Right { long b = 7; }; struct Mark { long m = 8; virtual ~Mark() {} }; struct Marked : Base, Mark {}; struct Other : Base {};
template<typename T> struct Slot { Ptr<T> p; int id = -1; };
struct World
{
	std::vector<Slot<Object>> o; std::vector<Slot<Base>> b; std::vector<Slot<Left>> l; std::vector<Slot<Right>> r; std::vector<Slot<Both>> t; std::vector<Slot<Mark>> m; List<Ptr<Base>> list; std::vector<int> listIds; std::map<int, std::vector<void*>> addr; std::set<void*> busy;
	World() : o(4), b(7), l(4), r(4), t(3), m(3) {}
	template<typename F> void all(F f) { for (auto& s : o) f(s); for (auto& s : b) f(s); for (auto& s : l) f(s); for (auto& s : r) f(s); for (auto& s : t) f(s); for (auto& s : m) f(s); }
};
// the object behind id as seen through T (nullptr when it is not a T)
static std::map<int, Object*>* asObject; template<typename T> T* view(int id) { return id < 0 ? nullptr : dynamic_cast<T*>((*asObject)[id]); }
template<> Object* view<Object>(int id) { return id < 0 ? nullptr : (*asObject)[id]; }
static void judge(World& w, const char* after)
{
	for (size_t i = 0; i < objs->size(); i++) { auto& o = (*objs)[i]; MUST(o.refs >= 0, "model", "model error"); MUST(!(o.alive && o.refs == 0), "not-destroyed", "object %d has no owner left after %s but was not destroyed", (int)i, after); MUST(o.alive || o.refs == 0, "destroyed-while-owned", "object %d was destroyed after %s while %d owners remain", (int)i, after, o.refs); }
	w.all([&](auto& s) { using T = typename std::remove_reference_t<decltype(*s.p.Obj())>; T* want = view<T>(s.id); MUST(s.p.Obj() == want && s.p.operator->() == want && (bool)s.p == (want != nullptr), "wrong-object", "a pointer to object %d refers to something else after %s", s.id, after); if (s.p) { if constexpr (std::is_base_of_v<Base, T>) MUST(s.p->id == s.id, "wrong-object", "object %d reports id %d", s.id, s.p->id); } });
	MUST(w.list.Count() == (vint)w.listIds.size(), "list", "list of pointers has a wrong count"); for (vint i = 0; i < w.list.Count(); i++) MUST(w.list[i].Obj() == view<Base>(w.listIds[i]), "list", "list element is wrong");
	count("states_compared");
}
// every change of a slot goes through here: the model first, then the real operation (which may run destructors that come back here)
template<typename T, typename F> void change(World& w, Slot<T>& s, int id, F real) { if (w.busy.count(&s)) return; w.busy.insert(&s); int old = s.id; mInc(id); mDec(old); s.id = id; real(); w.busy.erase(&s); }
template<typename T> T* fresh(Rng& rng) { return new T; }
template<> Base* fresh<Base>(Rng& rng) { switch (rng.below(6)) { case 0: return new Left; case 1: return new Right; case 2: return new Both; case 3: return new Marked; case 4: return new Other; default: return new Base; } }
template<> Object* fresh<Object>(Rng& rng) { return fresh<Base>(rng); }
template<> Mark* fresh<Mark>(Rng& rng) { return new Marked; }
template<> Left* fresh<Left>(Rng& rng) { return rng.chance(1, 2) ? new Both : new Left; } template<> Right* fresh<Right>(Rng& rng) { return rng.chance(1, 2) ? new Both : new Right; }
template<typename T> int idOf(T* x) { if constexpr (std::is_base_of_v<Base, T>) return x ? x->id : -1; else { auto b = dynamic_cast<Base*>(x); return b ? b->id : -1; } }
template<typename A, typename B> void castInto(World& w, Rng& rng, Slot<A>& d, Slot<B>& s)
{
	A* want = s.id < 0 ? nullptr : view<A>(s.id); int before = s.id < 0 ? 0 : (*objs)[s.id].refs;
	{ auto probe = s.p.template Cast<A>(); MUST(probe.Obj() == want && (bool)probe == (want != nullptr), "cast", "casting object %d gives %s", s.id, probe ? "a wrong object" : "nothing"); } // dropping the result releases nothing else
	if (s.id >= 0) MUST((*objs)[s.id].alive && (*objs)[s.id].refs == before, "cast", "dropping the result of a cast destroyed the object");
	change(w, d, want ? s.id : -1, [&] { d.p = s.p.template Cast<A>(); }); count(want ? "casts_matching" : "casts_empty");
}
template<typename T> void sameType(World& w, Rng& rng, std::vector<Slot<T>>& v, const char*& name)
{
	auto& d = rng.of(v); auto& s = rng.of(v);
	switch (rng.below(10))
	{
	case 0: case 1: { name = "new"; auto x = fresh<T>(rng); int id = idOf(x); (*asObject)[id] = dynamic_cast<Object*>(x); change(w, d, id, [&] { d.p = Ptr<T>(x); }); break; }
	case 2: name = "copy assignment"; if (&d != &s || rng.chance(1, 2)) change(w, d, s.id, [&] { d.p = s.p; }); break;
	case 3: if (&d == &s) break; name = "move assignment"; { if (w.busy.count(&s)) break; int id = s.id; w.busy.insert(&s); mInc(id); mDec(d.id); mDec(s.id); d.id = id; s.id = -1; d.p = std::move(s.p); w.busy.erase(&s); } break;
	case 4: name = "null assignment"; change(w, d, -1, [&] { if (rng.chance(1, 2)) d.p = nullptr; else d.p = Ptr<T>(); }); break;
	case 5: if (&d == &s) break; name = "swap"; { std::swap(d.p, s.p); std::swap(d.id, s.id); } break;
	case 6: { name = "temporary copies"; int id = s.id; Ptr<T> a(s.p), b(a); mInc(id); mInc(id); Ptr<T> c(std::move(a)); MUST(!a && b == c && c.Obj() == s.p.Obj(), "temporary", "copies of a pointer differ"); auto f = [](Ptr<T> x) { return x; }; auto e = f(c); MUST(e == s.p, "temporary", "a pointer passed by value differs"); a = e; b = nullptr; mDec(id); MUST(id < 0 || (*objs)[id].alive, "temporary", "an object died though owners remain"); mDec(id); break; }
	case 7: { name = "detach of a shared object"; if (s.id < 0) { MUST(s.p.Detach() == nullptr, "detach", "detaching nothing gives something"); break; } if ((*objs)[s.id].refs < 2) break; T* x = s.p.Obj(); int id = s.id; mDec(id); s.id = -1; T* g = s.p.Detach(); MUST(g == x, "detach", "Detach returned another object"); MUST(!s.p, "detach", "the pointer still refers to the detached object"); count("detached"); break; }
	case 8: { name = "comparison"; T* x = d.p.Obj(); T* y = s.p.Obj(); std::less<T*> lt; MUST((d.p == s.p) == (x == y) && (d.p != s.p) == (x != y) && (d.p < s.p) == lt(x, y) && (d.p > s.p) == lt(y, x) && (d.p <= s.p) == !lt(y, x) && (d.p >= s.p) == !lt(x, y) && (d.p == y) == (x == y) && (d.p < y) == lt(x, y), "comparison", "comparison of pointers disagrees with identity"); MUST((d.p == nullptr) == (x == nullptr), "comparison", "comparison with nothing"); break; }
	default: { name = "reconstruct"; int id = s.id; mInc(id); Ptr<T> copy(s.p); change(w, d, id, [&] { d.p = std::move(copy); }); copy = nullptr; mDec(id); if (id < 0 || d.id != id) {} break; }
	}
	op(1, d.id * 100 + s.id + 1);
}
template<typename A, typename B> void convert(World& w, Rng& rng, std::vector<Slot<A>>& va, std::vector<Slot<B>>& vb, const char*& name) // B is a subclass of A
{
	auto& d = rng.of(va); auto& s = rng.of(vb); static_assert(std::is_convertible_v<B*, A*>);
	switch (rng.below(3))
	{
	case 0: name = "converting copy"; change(w, d, s.id, [&] { d.p = s.p; }); break;
	case 1: name = "converting move"; { int id = s.id; w.busy.insert(&s); mInc(id); mDec(s.id); mDec(d.id); d.id = id; s.id = -1; d.p = std::move(s.p); w.busy.erase(&s); MUST(!s.p, "moved-from", "a converted-from pointer still refers to its object"); } break;
	default: name = "cast"; if constexpr (!std::is_same_v<A, Object>) { if (rng.chance(1, 2)) castInto(w, rng, d, s); else castInto(w, rng, s, d); } else castInto(w, rng, s, d); break;
	}
	op(2, d.id * 100 + s.id + 1);
}
static void edges(World& w, Rng& rng, const char*& name)
{
	auto& d = rng.of(w.b); auto& s = rng.of(w.b); Base* x = d.p.Obj();
	switch (rng.below(7))
	{
	case 0: case 1: name = "link"; if (x && (s.id > x->id || s.id < 0)) { int old = x->nextId; mInc(s.id); mDec(old); x->nextId = s.id; x->next = s.p; } break;
	case 2: name = "head = head->next"; if (x) change(w, d, x->nextId, [&] { d.p = d.p->next; }); count("head_next"); break;
	case 3: name = "head = move(head->next)"; if (x && !w.busy.count(&d)) { int nid = x->nextId, old = d.id; w.busy.insert(&d); mDec(old); d.id = nid; x->nextId = -1; d.p = std::move(d.p->next); w.busy.erase(&d); count("head_next"); } break;
	case 4: name = "kid"; if (x && s.id > x->id) { mInc(s.id); x->kidIds.push_back(s.id); x->kids.Add(s.p); } break;
	case 5: name = "head = head->kids[0]"; if (x && x->kidIds.size()) change(w, d, x->kidIds[0], [&] { d.p = d.p->kids[0]; }); break;
	default: name = "list"; if (w.listIds.size() < 6 && rng.chance(1, 2)) { mInc(s.id); w.listIds.push_back(s.id); w.list.Add(s.p); } else if (w.listIds.size()) { long i = rng.below((long)w.listIds.size()); mDec(w.listIds[i]); w.listIds.erase(w.listIds.begin() + i); w.list.RemoveAt(i); } break;
	}
	op(3, d.id * 100 + s.id + 1);
}
static void history(Rng& rng, bool reentrant)
{
	std::vector<Owner> store; objs = &store; std::map<int, Object*> ao; asObject = &ao; created = destroyed = 0; auto w = new World; long steps = rng.range(20, 120); store.reserve(2000);
	for (long k = 0; k < steps; k++)
	{
		const char* name = "nothing";
		switch (rng.below(14))
		{
		case 0: case 1: case 2: sameType(*w, rng, w->b, name); break;
		case 3: sameType(*w, rng, w->l, name); break;
		case 4: sameType(*w, rng, w->r, name); break;
		case 5: sameType(*w, rng, w->t, name); break;
		case 6: sameType(*w, rng, w->m, name); break;
		case 7: switch (rng.below(5)) { case 0: convert(*w, rng, w->b, w->l, name); break; case 1: convert(*w, rng, w->b, w->r, name); break; case 2: convert(*w, rng, w->l, w->t, name); break; case 3: convert(*w, rng, w->r, w->t, name); break; default: convert(*w, rng, w->o, w->b, name); } break;
		case 8: { name = "cross cast"; auto& l = rng.of(w->l); auto& r = rng.of(w->r); auto& m = rng.of(w->m); auto& b = rng.of(w->b); switch (rng.below(4)) { case 0: castInto(*w, rng, l, r); break; case 1: castInto(*w, rng, r, l); break; case 2: castInto(*w, rng, m, b); break; default: castInto(*w, rng, b, m); } op(4, l.id * 10 + r.id + 1); break; }
		case 9: sameType(*w, rng, w->o, name); break;
		case 13: if (reentrant) { name = "arming a destructor"; auto& s = rng.of(w->b); if (s.p && !s.p->onDie) { size_t i = (size_t)rng.below((long)w->b.size()), j = (size_t)rng.below((long)w->b.size()); int how = (int)rng.below(4); s.p->onDie = [=] { count("reentrant_destructors"); auto& d = w->b[i]; auto& q = w->b[j]; switch (how) { case 0: change(*w, d, -1, [&] { d.p = nullptr; }); break; case 1: if (!w->busy.count(&q)) change(*w, d, q.id, [&] { d.p = q.p; }); break; case 2: { if (w->busy.count(&q)) break; int id = q.id; mInc(id); Ptr<Base> copy = q.p; Ptr<Base> more(copy); mDec(id); break; } default: if (d.p && !w->busy.count(&d)) change(*w, d, d.p->nextId, [&] { d.p = d.p->next; }); } }; } break; }
			[[fallthrough]];
		default: edges(*w, rng, name); break;
		}
		LOG("%ld: %s", k, name); judge(*w, name);
	}
	if (created > 3 && destroyed > 0) nontrivial(); count("objects", created);
	w->busy.clear(); for (auto& s : w->b) if (s.p && reentrant) s.p->onDie = nullptr; // the end: everything goes
	for (size_t i = 0; i < store.size(); i++) if (store[i].alive) if (auto b = dynamic_cast<Base*>(ao[(int)i])) b->onDie = nullptr;
	w->all([&](auto& s) { mDec(s.id); s.id = -1; s.p = nullptr; }); for (int id : w->listIds) mDec(id); w->listIds.clear(); w->list.Clear(); judge(*w, "releasing everything"); delete w;
	for (size_t i = 0; i < store.size(); i++) MUST(!store[i].alive, "not-destroyed", "object %ld was never destroyed", (long)i);
}
SCENARIO(ownership, 6) { history(rng, false); }
SCENARIO(reentrant, 4) { history(rng, true); }
// long chains released at once, and a list unlinked from its head
SCENARIO(chains, 1)
{
	std::vector<Owner> store; objs = &store; std::map<int, Object*> ao; asObject = &ao; created = destroyed = 0; long n = rng.range(2, 400); store.reserve(500);
	{ Ptr<Base> head; int hid = -1; for (long i = 0; i < n; i++) { auto x = Ptr(new Base); mInc(x->id); x->next = head; mInc(hid); x->nextId = hid; mDec(hid); hid = x->id; head = x; mDec(x->id); mInc(x->id); }
	long steps = rng.range(0, n); for (long i = 0; i < steps; i++) { int nid = head->nextId, old = hid; mInc(nid); mDec(old); hid = nid; if (rng.chance(1, 2)) head = head->next; else { Ptr<Base> t = head->next; head = t; } MUST(destroyed == i + 1, "unlink", "after unlinking %ld of %ld nodes %ld were destroyed", i + 1, n, destroyed); } mDec(hid); }
	MUST(destroyed == n, "unlink", "%ld of %ld nodes of a chain were destroyed", destroyed, n); op(n); nontrivial();
}
// objects that carry their own counter
struct Own { atomic_vint rc{ 0 }; int id; static inline long live = 0; Own(int i) : id(i) { live++; } virtual ~Own() { live--; MUST(rc == 0, "intrusive", "an object with its own counter was destroyed at count %ld", (long)rc); } }; struct OwnSub : Pad, Own { using Own::Own; OwnSub(int i) : Own(i) {} };
namespace vl { template<typename T> struct ReferenceCounterOperator<T, std::enable_if_t<std::is_convertible_v<T*, Own*>>> { static atomic_vint* CreateCounter(T* r) { return &static_cast<Own*>(r)->rc; } static void DeleteReference(atomic_vint* c, void* r) { delete (T*)r; } }; }
SCENARIO(intrusive, 2)
{
	Own::live = 0; { std::vector<Ptr<Own>> s(5); std::vector<Ptr<OwnSub>> t(3); int ids = 0; std::vector<Own*> loose; long steps = rng.range(10, 80);
	for (long k = 0; k < steps; k++)
	{
		auto& a = s[rng.below(5)]; auto& b = s[rng.below(5)]; auto& c = t[rng.below(3)]; int what = (int)rng.below(9); op(what, Own::live);
		switch (what) { case 0: a = Ptr(new Own(ids++)); break; case 1: c = Ptr(new OwnSub(ids++)); break; case 2: a = b; break; case 3: if (&a != &b) a = std::move(b); break; case 4: a = c; break; case 5: c = a.Cast<OwnSub>(); break; case 6: a = nullptr; break;
		case 7: if (a) { auto x = a.Detach(); MUST(!a, "detach", "Detach left the pointer attached"); if (x->rc == 0) { loose.push_back(x); count("detached_alone"); } } break;
		default: if (loose.size()) { auto x = loose.back(); loose.pop_back(); a = Ptr(x); } else if (a) b = Ptr(a.Obj()); }
		std::map<Own*, long> refs; for (auto& p : s) if (p) refs[p.Obj()]++; for (auto& p : t) if (p) refs[p.Obj()]++; MUST((long)(refs.size() + loose.size()) == Own::live, "intrusive", "%ld objects alive, expected %ld", Own::live, (long)(refs.size() + loose.size())); for (auto& [o, n] : refs) MUST(o->rc == n, "intrusive-count", "an object's own counter is %ld with %ld owners", (long)o->rc, n);
	}
	for (auto x : loose) delete x; if (ids > 2) nontrivial(); }
	MUST(Own::live == 0, "intrusive", "%ld objects with their own counter were not destroyed", Own::live);
}
// classes without virtual destructor or virtual functions: the object is destroyed as what it was created, whatever type its last owner has
struct FlatA { int a = 1; long* log; FlatA(long* l) : log(l) {} ~FlatA() { log[0]++; } }; struct FlatB { WString text = L"b"; long* log; FlatB(long* l) : log(l) {} ~FlatB() { log[1]++; } };
struct FlatC : FlatA { Ptr<Box> owned; long* log2; FlatC(long* l) : FlatA(l), owned(new Box(3)), log2(l) {} ~FlatC() { log2[2]++; } }; struct FlatD : FlatC, FlatB { char pad[40]; FlatD(long* l) : FlatC(l), FlatB(l) {} ~FlatD() { FlatC::log2[3]++; } };
SCENARIO(without_virtual, 2)
{
	long log[4] = {}, want[4] = {}; nontrivial(); std::vector<Ptr<FlatA>> as(3); std::vector<Ptr<FlatB>> bs(2); std::vector<Ptr<FlatC>> cs(2); std::vector<Ptr<FlatD>> ds(2); std::map<void*, int> kind, owners; std::map<void*, void*> whole; // address of any part -> object
	auto obj = [&](const void* p) { return p ? whole[(void*)p] : nullptr; }; auto judge = [&](const char* what) { std::map<void*, int> now; for (auto& p : as) if (p) now[obj(p.Obj())]++; for (auto& p : bs) if (p) now[obj(p.Obj())]++; for (auto& p : cs) if (p) now[obj(p.Obj())]++; for (auto& p : ds) if (p) now[obj(p.Obj())]++; for (auto it = kind.begin(); it != kind.end();) { if (now.count(it->first)) { ++it; continue; } int k = it->second; if (k == 0 || k == 2 || k == 3) want[0]++; if (k == 1 || k == 3) want[1]++; if (k >= 2) want[2]++; if (k == 3) want[3]++; for (auto w = whole.begin(); w != whole.end();) if (w->second == it->first) w = whole.erase(w); else ++w; it = kind.erase(it); } for (int i = 0; i < 4; i++) MUST(log[i] == want[i], "flat", "after %s destructor %d of a class without virtual functions ran %ld times, expected %ld", what, i, log[i], want[i]); count("flat_states"); };
	auto born = [&](void* o, int k, std::initializer_list<void*> parts) { kind[o] = k; for (void* p : parts) whole[p] = o; };
	// what the old owners held is judged after each step; an address may be used again only after that
	long n = rng.range(5, 60); for (long i = 0; i < n; i++)
	{
		auto& a = as[rng.below(3)]; auto& b = bs[rng.below(2)]; auto& c = cs[rng.below(2)]; auto& d = ds[rng.below(2)]; int k = (int)rng.below(15); op((u64)k); const char* what = "";
		switch (k)
		{
		case 0: what = "creating A"; { Ptr<FlatA> x(new FlatA(log)); a = nullptr; judge("release"); born(x.Obj(), 0, { x.Obj() }); a = x; } break; case 1: what = "creating B"; { Ptr<FlatB> x(new FlatB(log)); b = nullptr; judge("release"); born(x.Obj(), 1, { x.Obj() }); b = x; } break;
		case 2: what = "creating C"; { Ptr<FlatC> x(new FlatC(log)); c = nullptr; judge("release"); born(x.Obj(), 2, { x.Obj(), (FlatA*)x.Obj() }); c = x; } break; case 3: case 4: what = "creating D"; { Ptr<FlatD> x(new FlatD(log)); d = nullptr; judge("release"); born(x.Obj(), 3, { x.Obj(), (FlatA*)x.Obj(), (FlatC*)x.Obj(), (FlatB*)x.Obj() }); d = x; } break;
		case 5: what = "D to A"; a = d; break; case 6: what = "D to B"; b = Ptr<FlatB>(d); break; case 7: what = "D to C"; { Ptr<FlatC> x(d); c = std::move(x); break; } case 8: what = "C to A"; a = c; break; case 9: what = "C moved to A"; a = Ptr<FlatA>(std::move(c)); MUST(!c, "moved-from", "a moved-from pointer still refers to its object"); break;
		case 10: what = "D moved to B"; b = std::move(d); MUST(!d, "moved-from", "a moved-from pointer still refers to its object"); break; case 11: what = "dropping A"; a = nullptr; break; case 12: what = "dropping B"; b = nullptr; break; case 13: what = "dropping C"; c = nullptr; break; default: what = "dropping D"; d = nullptr;
		}
		judge(what);
	}
	as.clear(); cs.clear(); ds.clear(); judge("dropping most"); bs.clear(); judge("dropping everything");
}
// very many owners of one object at once
struct Popular : Object { int& gone; Popular(int& g) : gone(g) {} ~Popular() { gone++; } }; struct PopularSub : Pad, Popular { PopularSub(int& g) : Popular(g) {} };
SCENARIO(crowd, 1)
{
	int gone = 0; long n = rng.chance(1, 40) ? rng.range(30000, 140000) : rng.chance(1, 6) ? rng.range(1000, 9000) : rng.range(20, 700); op((u64)n); nontrivial(); std::vector<Ptr<Popular>> a; std::vector<Ptr<PopularSub>> b; Ptr<PopularSub> first(new PopularSub(gone)); Popular* raw = first.Obj();
	for (long i = 0; i < n; i++) switch (rng.below(5)) { case 0: a.push_back(first); break; case 1: b.push_back(first); break; case 2: a.push_back(first.Cast<Popular>()); break; case 3: { Ptr<PopularSub> t; t = first; b.push_back(std::move(t)); break; } default: if (a.empty()) a.push_back(first); else { Ptr<Popular> t = a[rng.below((long)a.size())]; auto u = t.Cast<PopularSub>(); MUST(u, "crowd", "a matching cast is empty"); b.push_back(u); } }
	first = nullptr; for (auto& p : a) MUST(p.Obj() == raw, "crowd", "one of %ld owners refers to another object", n); int front = (int)rng.below(3); // in which order they let go
	while (a.size() + b.size()) { MUST(gone == 0, "destroyed-while-owned", "an object with %ld owners was destroyed while %ld remained", n, (long)(a.size() + b.size())); bool left = b.empty() || (!a.empty() && (front == 0 || (front == 2 && rng.chance(1, 2)))); if (left) { a.back() = nullptr; a.pop_back(); } else b.pop_back(); }
	MUST(gone == 1, "not-destroyed", "an object that had %ld owners was destroyed %d times", n, gone); count("crowds"); count("crowd_owners", (u64)n);
}
// known finding: see known_findings.txt
SCENARIO(detach_sole_owner_probe, 1)
{
	struct Plain { long v = 1; };
#if defined(__SANITIZE_ADDRESS__)
	__lsan_disable(); auto a = __sanitizer_get_current_allocated_bytes();
	{ auto p = Ptr(new Plain); auto q = p; q = nullptr; Plain* raw = p.Detach(); MUST(raw && !p && raw->v == 1, "detach", "Detach of the sole owner lost the object"); delete raw; }
	auto b = __sanitizer_get_current_allocated_bytes(); __lsan_enable();
	if (b > a) finding("detach-counter-leak", fmt("Ptr::Detach by the sole owner leaks %ld bytes (the reference counter)", (long)(b - a)));
#endif
	op(1);
}
const char* const harnessProperty = "C16";
const long harnessCpuBudget = 20;
#include "main.h"
