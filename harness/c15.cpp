// Collection references: disposal events.
#include "chain.h"
using namespace H;
struct Watch : public Object, public virtual ICollectionReference { int* disposed; int tag; bool* gone; Watch(int* d, int t, bool* g) : disposed(d), tag(t), gone(g) {} ~Watch() { *gone = true; } void OnDisposed() override { MUST(*disposed == 0, "twice", "a reference was told twice that its collection is gone"); ++*disposed; count("dispose_events"); } };
struct Other : public Object, public virtual ICollectionReference { void OnDisposed() override {} };
struct Slot { int disposed = 0; bool gone = false; bool attached = false; Ptr<Watch> keep; };
// drives one collection kind: use(c) performs a random use, move(c,d) a random transfer between two collections
template<typename C> void references(Rng& rng, const char* kind, std::function<void(C&)> use, std::function<void(C&, C&)> transfer)
{
	static int tags = 0; long n = 4; std::vector<std::unique_ptr<C>> cs(n); std::vector<std::unique_ptr<Slot>> slots(n), dead; for (long i = 0; i < n; i++) { cs[i].reset(new C); slots[i].reset(new Slot); }
	auto checkAll = [&](const char* after) { for (long i = 0; i < n; i++) { auto& s = *slots[i]; MUST(s.disposed == 0, "early", "%s: a reference was told its collection is gone after %s, but the collection is alive", kind, after); auto r = cs[i]->GetCollectionReference(); MUST((bool)r == s.attached, "lost", "%s: the attached reference is %s after %s", kind, r ? "unexpected" : "lost", after); if (s.attached) { MUST(cs[i]->GetCollectionObject() == dynamic_cast<const Object*>(cs[i].get()), "identity", "%s: the collection identifies itself as another object after %s", kind, after); MUST(!s.gone, "freed", "%s: the attached reference was destroyed while attached", kind); auto w = r.template Cast<Watch>(); MUST(w && w->disposed == &s.disposed, "mixed", "%s: the attached reference is another one after %s", kind, after); } } for (auto& s : dead) MUST(s->disposed == (s->attached ? 1 : 0), "count", "%s: the reference of a destroyed collection was told %d times after %s", kind, s->disposed, after); count("states_checked"); };
	long steps = rng.range(5, 30);
	for (long k = 0; k < steps; k++)
	{
		long i = rng.below(n), j = rng.below(n); int what = (int)rng.below(9); const char* name = ""; auto& s = *slots[i];
		switch (what)
		{
		case 0: case 1: case 2:
			name = "attaching"; { auto w = Ptr(new Watch(&s.disposed, ++tags, &s.gone)); if (s.attached) { auto o = Ptr(new Other); bool r = rejected([&] { if (rng.chance(1, 2)) cs[i]->SetCollectionReference(o); else cs[i]->SetCollectionReference(cs[i]->GetCollectionReference()); }); MUST(r, "second", "%s: a second reference was accepted", kind); count("second_refused"); w->gone = new bool(false); bool* g = w->gone; w = nullptr; delete g; } else { cs[i]->SetCollectionReference(w); s.attached = true; if (rng.chance(1, 2)) s.keep = w; } }
			break;
		case 3: name = "asking by type"; if (s.attached) { auto w = cs[i]->template TryGetCollectionReference<Watch>(); MUST(w && w->disposed == &s.disposed, "typed", "%s: the reference is not returned by its type", kind); MUST(rejected([&] { cs[i]->template TryGetCollectionReference<Other>(); }), "wrong-type", "%s: asking for the wrong type raised no error", kind); count("wrong_type_refused"); } else MUST(!cs[i]->template TryGetCollectionReference<Other>(), "typed", "%s: a reference out of nothing", kind); break;
		case 4: name = "destruction"; { bool had = s.attached; cs[i].reset(); MUST(s.disposed == (had ? 1 : 0), "not-told", "%s: after destruction the reference was told %d times", kind, s.disposed); if (had && !s.keep) MUST(s.gone, "leaked-reference", "%s: the reference outlives its collection though nobody holds it", kind); dead.push_back(std::move(slots[i])); slots[i].reset(new Slot); cs[i].reset(new C); if (had) nontrivial(); } break;
		case 5: name = "transfer"; if (i != j) { transfer(*cs[i], *cs[j]); } break;
		case 6: name = "move construction"; { Slot mine; { C t(std::move(*cs[i])); MUST(!t.GetCollectionReference(), "moved-reference", "%s: a collection constructed by moving has the reference of another one attached", kind); MUST(t.GetCollectionObject() == dynamic_cast<const Object*>(&t), "identity", "%s: a new collection identifies itself as another object", kind); if (rng.chance(1, 2)) { t.SetCollectionReference(Ptr(new Watch(&mine.disposed, ++tags, &mine.gone))); mine.attached = true; } if (rng.chance(1, 2)) { if (rng.chance(1, 2)) *cs[i] = std::move(t); else t = std::move(*cs[i]); } { C u(std::move(t)); MUST(!u.GetCollectionReference() && mine.disposed == 0, "moved-reference", "%s: moving from a collection takes its reference along", kind); } MUST(mine.disposed == 0 && (bool)t.GetCollectionReference() == mine.attached, "moved-reference", "%s: the reference of a moved-from collection is lost", kind); { C gone(std::move(t)); } count("move_constructions"); } MUST(mine.disposed == (mine.attached ? 1 : 0) && mine.gone == mine.attached, "not-told", "%s: the reference of a temporary collection was told %d times", kind, mine.disposed); } break;
		default: name = "use"; use(*cs[i]); break;
		}
		LOG("%s on %ld", name, i); op(what, i * 8 + s.attached); checkAll(name);
	}
	cs.clear(); for (auto& s : slots) MUST(s->disposed == (s->attached ? 1 : 0), "count", "%s: at the end a reference was told %d times", kind, s->disposed);
	for (auto& s : slots) { s->keep = nullptr; if (s->attached) MUST(s->gone, "leaked-reference", "%s: a reference leaked", kind); } for (auto& s : dead) s->keep = nullptr;
}
SCENARIO(list, 2) { using C = List<WString>; references<C>(rng, "List", [&](C& c) { if (rng.chance(1, 5)) c.Clear(); else c.Add(L"x"); for (auto& s : c) (void)s; auto z = From(c).Where([](const WString&) { return true; }); z.Count(); }, [&](C& a, C& b) { if (rng.chance(1, 2)) a = std::move(b); else { C t(std::move(b)); a = std::move(t); } }); }
SCENARIO(array, 1) { using C = Array<vint>; references<C>(rng, "Array", [&](C& c) { c.Resize(rng.below(9)); List<vint> l; CopyFrom(l, c); CopyFrom(c, l); }, [&](C& a, C& b) { a = std::move(b); }); }
SCENARIO(sorted, 1) { using C = SortedList<vint>; references<C>(rng, "SortedList", [&](C& c) { c.Add(rng.below(5)); c.Remove(rng.below(5)); }, [&](C& a, C& b) { if (rng.chance(1, 2)) a = std::move(b); else { C t(b); MUST(!t.GetCollectionReference(), "copied", "a copy of a sorted list has a reference attached"); } }); }
SCENARIO(dictionary, 1) { using C = Dictionary<vint, WString>; references<C>(rng, "Dictionary", [&](C& c) { c.Set(rng.below(5), L"x"); c.Remove(rng.below(5)); auto e = Ptr(c.CreateEnumerator()); e->Next(); }, [&](C& a, C& b) { a = std::move(b); }); }
SCENARIO(group, 1) { using C = Group<vint, WString>; references<C>(rng, "Group", [&](C& c) { c.Add(rng.below(5), L"x"); c.Remove(rng.below(5)); auto e = Ptr(c.CreateEnumerator()); e->Next(); }, [&](C& a, C& b) { a = std::move(b); }); }
SCENARIO(lazy, 1) { using C = LazyList<vint>; List<vint> src; src.Add(1); src.Add(2); references<C>(rng, "LazyList", [&](C& c) { c.Count(); auto d = c.Where([](vint x) { return x > 1; }); d.Count(); C e(c); MUST(!e.GetCollectionReference(), "copied", "a copy of a lazy list has a reference attached"); }, [&](C& a, C& b) { switch (rng.below(3)) { case 0: a = b; break; case 1: a = std::move(b); break; default: a = From(src); } }); }
const char* const harnessProperty = "C15";
const long harnessCpuBudget = 20;
#include "main.h"
