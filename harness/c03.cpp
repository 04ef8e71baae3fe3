#include "map.h"
using namespace H;
// Every call gets a reference to an element living in the container itself; the model gets a copy of its number.
template<typename T> void listAlias(Rng& rng)
{
	LifetimeScope scope;
	{
		List<T> l; std::vector<int> ref; long n0 = rng.range(1, rng.chance(1, 25) ? 700 : rng.chance(1, 4) ? 60 : 9), cap = std::max(80L, n0 + 20);
		for (long i = 0; i < n0; i++) { int v = (int)rng.below(50); l.Add(Val<T>::make(v)); ref.push_back(normal<T>(v)); }
		for (int s = 0; s < 30 && ref.size(); s++)
		{
			long n = (long)ref.size(), i = rng.below(n), j = rng.range(0, n); int v = ref[i]; const char* what = "?";
			int k = (int)rng.below(8);
			if (n > cap && k < 4) k = 6;
			switch (k)
			{
			case 0: case 1: what = "Add(list[i])"; LOG("Add(list[%ld])", i); { vint r = rng.chance(1, 2) ? l.Add(l.Get(i)) : l.Add((const T&)l[i]); MUST(r == n, "add-result", "Add returned %ld, expected %ld", (long)r, n); } ref.push_back(v); break;
			case 2: case 3: what = "Insert(j, list[i])"; LOG("Insert(%ld, list[%ld])", j, i); { vint r = l.Insert(j, l.Get(i)); MUST(r == j, "insert-result", "Insert returned %ld, expected %ld", (long)r, j); } ref.insert(ref.begin() + j, v); break;
			case 4: j = rng.below(n); what = "Set(j, list[i])"; LOG("Set(%ld, list[%ld])", j, i); MUST(l.Set(j, l.Get(i)), "set-result", "Set returned false"); ref[j] = v; break;
			case 5: j = rng.below(n); what = "list[j] = list[i]"; LOG("list[%ld] = list[%ld]", j, i); l[j] = l.Get(i); ref[j] = v; break;
			case 6: { what = "Remove(list[i])"; LOG("Remove(list[%ld])", i); bool r; if constexpr (std::is_same_v<T, Ptr<Box>>) r = l.Remove(l[i].Obj()); else r = l.Remove(l.Get(i)); MUST(r, "remove-result", "Remove returned false");
					for (size_t x = 0; x < ref.size(); x++) if (sameKey<T>(ref[x], v)) { ref.erase(ref.begin() + x); break; } } break;
			case 7: { what = "IndexOf(list[i])"; vint r; bool c; if constexpr (std::is_same_v<T, Ptr<Box>>) { r = l.IndexOf(l[i].Obj()); c = l.Contains(l[i].Obj()); } else { r = l.IndexOf(l.Get(i)); c = l.Contains(l[i]); }
					vint w = 0; while (!sameKey<T>(ref[w], v)) w++; MUST(r == w && c, "indexof", "IndexOf(list[%ld]) is %ld, expected %ld", i, (long)r, (long)w); } break;
			}
			compareSeq<T>(l, ref, what, false); op(k, ref.size()); op(i, j); nontrivial(); count("aliased_calls"); LOG("  -> %s", show(ref).c_str());
			MUST(!Val<T>::tracked || liveCount() - scope.before == (long)ref.size(), "live-count", "after %s: %ld elements alive for %ld held", what, liveCount() - scope.before, (long)ref.size());
		}
		// moving an own element away leaves that slot unspecified: only memory safety and the other elements are checked
		for (int s = 0; s < 4 && ref.size(); s++)
		{
			long n = (long)ref.size(), i = rng.below(n), j = rng.range(0, n); int v = ref[i];
			int k = (int)rng.below(2); LOG("%s(%ld, move(list[%ld]))", k ? "Insert" : "Add", j, i);
			if (k == 0) j = n;
			vint r = k ? l.Insert(j, std::move(l[i])) : l.Add(std::move(l[i])); MUST(r == j, "insert-result", "inserting a moved own element returned %ld", (long)r);
			MUST(l.Count() == n + 1, "count", "wrong count after inserting a moved own element");
			MUST(Val<T>::get(l[j]) == v, "moved-value", "the inserted element is %d, expected %d", Val<T>::get(l[j]), v);
			long hole = i >= j ? i + 1 : i; for (long x = 0; x <= n; x++) { long o = x > j ? x - 1 : x; if (x == j || x == hole) continue; MUST(Val<T>::get(l[x]) == ref[o], "content", "element %ld changed", x); }
			l.RemoveAt(hole); ref.insert(ref.begin() + j, v); ref.erase(ref.begin() + hole); compareSeq<T>(l, ref, "removing the moved-from slot", false); count("aliased_moves");
		}
	}
	scope.check("aliased list calls");
}
template<typename T> void arrayAlias(Rng& rng)
{
	LifetimeScope scope;
	{
		long n = rng.range(1, rng.chance(1, 25) ? 700 : 20); Array<T> a(n); std::vector<int> ref(n);
		for (long i = 0; i < n; i++) { int v = (int)rng.below(50); a[i] = Val<T>::make(v); ref[i] = normal<T>(v); }
		for (int s = 0; s < 25; s++)
		{
			long i = rng.below(n), j = rng.below(n); LOG("Set(%ld, array[%ld])", j, i);
			if (rng.chance(1, 2)) a.Set(j, a.Get(i)); else a[j] = a.Get(i);
			ref[j] = ref[i]; compareSeq<T>(a, ref, "Set(j, array[i])", false); op(i, j); nontrivial(); count("aliased_calls");
		}
	}
	scope.check("aliased array calls");
}
template<typename T> void sortedAlias(Rng& rng)
{
	LifetimeScope scope;
	{
		SortedList<T> l; long n0 = rng.range(1, rng.chance(1, 25) ? 400 : rng.chance(1, 4) ? 60 : 9), cap = std::max(80L, n0 + 20); std::vector<int> bag;
		for (long i = 0; i < n0; i++) { int v = (int)rng.below(30); l.Add(Val<T>::make(v)); bag.push_back(normal<T>(v)); }
		for (int s = 0; s < 30 && bag.size(); s++)
		{
			long n = (long)bag.size(), i = rng.below(n); int v = Val<T>::get(l[i]); int k = (int)rng.below(n > cap ? 1 : 3); const char* what;
			if (k) { what = "Add(list[i])"; LOG("Add(list[%ld])", i); vint r = l.Add(l.Get(i)); MUST(r >= 0 && r < l.Count() && Val<T>::get(l[r]) == v, "add-result", "Add returned %ld, not the position of the element", (long)r); bag.push_back(v); }
			else { what = "Remove(list[i])"; LOG("Remove(list[%ld])", i); bool r; if constexpr (std::is_same_v<T, Ptr<Box>>) r = l.Remove(l[i].Obj()); else r = l.Remove(l.Get(i)); MUST(r, "remove-result", "Remove returned false");
				auto now = contentOf(l); MUST(now.size() + 1 == bag.size(), "remove-count", "Remove changed the count by %ld", (long)(bag.size() - now.size()));
				for (size_t x = 0; x < bag.size(); x++) if (sameKey<T>(bag[x], v) && std::count(bag.begin(), bag.end(), bag[x]) != std::count(now.begin(), now.end(), bag[x])) { bag.erase(bag.begin() + x); break; } }
			sameBag<T>(contentOf(l), bag, what); op(k, bag.size()); op(i); nontrivial(); count("aliased_calls");
			MUST(!Val<T>::tracked || liveCount() - scope.before == (long)bag.size(), "live-count", "after %s: %ld elements alive for %ld held", what, liveCount() - scope.before, (long)bag.size());
		}
	}
	scope.check("aliased sorted list calls");
}
template<typename K, typename V> void dictAlias(Rng& rng)
{
	LifetimeScope scope;
	{
		bool big = rng.chance(1, 25); Dictionary<K, V> d; KeyMap<K> ref; long n0 = rng.range(1, big ? 300 : rng.chance(1, 4) ? 40 : 8), kr = big ? 400 : 90;
		for (long i = 0; i < n0; i++) { int k = (int)rng.below(kr), v = (int)rng.below(90); d.Set(Val<K>::make(k), Val<V>::make(v)); ref[k] = v; }
		for (int s = 0; s < 30 && ref.size(); s++)
		{
			long n = (long)ref.size(), i = rng.below(n), j = rng.below(n); int ki = Val<K>::get(d.Keys()[i]), kj = Val<K>::get(d.Keys()[j]), vi = ref[ki], nk = (int)rng.below(kr); bool had = ref.count(nk); const char* what = "?";
			int k = (int)rng.below(n > (big ? 350 : 60) ? 1 : std::is_same_v<K, V> ? 12 : 7); K key = Val<K>::make(nk);
			switch (k)
			{
			case 0: what = "Remove(Keys()[i])"; { bool r; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.Keys()[i].Obj()); else r = d.Remove(d.Keys()[i]); MUST(r, "remove-result", "Remove returned false"); } ref.erase(ki); break;
			case 1: case 2: what = "Set(key, Values()[i])"; d.Set(key, d.Values()[i]); ref[nk] = vi; break;
			case 3: what = "Set(Keys()[j], Values()[i])"; d.Set(d.Keys()[j], d.Values()[i]); ref[kj] = vi; break;
			case 4: case 5: what = "Add(key, Values()[i])"; { bool rej = rejected([&] { if (rng.chance(1, 2)) d.Add(key, d.Values()[i]); else d.Add(Val<K>::make(nk), d.Values()[i]); }); MUST(rej == had, "add-contract", "Add %s", rej ? "was rejected" : "was accepted"); if (!had) ref[nk] = vi; } break;
			case 6: what = "Add(Keys()[i], Values()[j])"; { bool rej = rejected([&] { d.Add(d.Keys()[i], d.Values()[j]); }); MUST(rej, "add-contract", "adding an existing key was accepted"); } break;
			default: if constexpr (std::is_same_v<K, V>) // keys used as values and values used as keys
				switch (k)
				{
				case 7: what = "Set(key, Keys()[i])"; d.Set(key, d.Keys()[i]); ref[nk] = ki; break;
				case 8: what = "Add(key, Keys()[i])"; { bool rej = rejected([&] { d.Add(key, d.Keys()[i]); }); MUST(rej == had, "add-contract", "Add %s", rej ? "was rejected" : "was accepted"); if (!had) ref[nk] = ki; } break;
				case 9: what = "Set(Values()[i], Keys()[j])"; d.Set(d.Values()[i], d.Keys()[j]); ref[vi] = kj; break;
				case 10: what = "Set(Values()[i], Values()[j])"; { int vj = ref[kj]; d.Set(d.Values()[i], d.Values()[j]); ref[vi] = vj; } break;
				default: what = "Remove(Values()[i])"; { bool r; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.Values()[i].Obj()); else r = d.Remove(d.Values()[i]); MUST(r == (ref.count(vi) != 0), "remove-result", "Remove returned %d", r); ref.erase(vi); }
				}
				count("keys_as_values");
			}
			LOG("%s key=%d i=%ld j=%ld", what, nk, i, j);
			compareDict(d, ref, what, false); op(k, ref.size()); op(i, j); nontrivial(); count("aliased_calls");
		}
	}
	scope.check("aliased dictionary calls");
}
template<typename K, typename V> void groupAlias(Rng& rng)
{
	LifetimeScope scope;
	{
		bool big = rng.chance(1, 25); Group<K, V> d; GroupMap<K> ref; long n0 = rng.range(1, big ? 400 : rng.chance(1, 4) ? 60 : 10), kr = big && rng.chance(1, 2) ? 300 : 12;
		for (long i = 0; i < n0; i++) { int k = (int)rng.below(kr), v = (int)rng.below(12); d.Add(Val<K>::make(k), Val<V>::make(v)); ref[k].push_back(v); }
		for (int s = 0; s < 30 && ref.size(); s++)
		{
			long n = (long)ref.size(), i = rng.below(n), j = rng.below(n); int ki = Val<K>::get(d.Keys()[i]), kj = Val<K>::get(d.Keys()[j]), nk = (int)rng.below(kr + 28); long x = rng.below((long)ref[ki].size()); int v = ref[ki][x]; const char* what = "?";
			int k = (int)rng.below(std::is_same_v<K, V> ? 11 : 6); K key = Val<K>::make(nk);
			switch (k)
			{
			case 0: what = "Remove(Keys()[i])"; { bool r; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.Keys()[i].Obj()); else r = d.Remove(d.Keys()[i]); MUST(r, "remove-result", "Remove returned false"); } ref.erase(ki); break;
			case 1: what = "Remove(Keys()[i], Get(i)[x])"; { bool r; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.Keys()[i].Obj(), d.GetByIndex(i)[x].Obj()); else r = d.Remove(d.Keys()[i], d.GetByIndex(i)[x]); MUST(r, "remove-result", "Remove returned false"); auto& vs = ref[ki]; vs.erase(std::find(vs.begin(), vs.end(), v)); if (vs.empty()) ref.erase(ki); } break;
			case 2: what = "Add(Keys()[j], Get(i)[x])"; d.Add(d.Keys()[j], d.GetByIndex(i)[x]); ref[kj].push_back(v); break;
			case 3: what = "Add(Keys()[i], Get(i)[x])"; d.Add(d.Keys()[i], d.GetByIndex(i)[x]); ref[ki].push_back(v); break;
			case 6: case 7: case 8: case 9: case 10: if constexpr (std::is_same_v<K, V>)
				switch (k)
				{
				case 6: what = "Add(key, Keys()[i])"; d.Add(key, d.Keys()[i]); ref[nk].push_back(ki); break;
				case 7: what = "Add(Get(i)[x], Keys()[j])"; d.Add(d.GetByIndex(i)[x], d.Keys()[j]); ref[v].push_back(kj); break;
				case 8: what = "Add(Get(i)[x], Get(i)[x])"; d.Add(d.GetByIndex(i)[x], d.GetByIndex(i)[x]); ref[v].push_back(v); break;
				case 9: what = "Remove(Get(i)[x])"; { bool r; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.GetByIndex(i)[x].Obj()); else r = d.Remove(d.GetByIndex(i)[x]); MUST(r == (ref.count(v) != 0), "remove-result", "Remove returned %d", r); ref.erase(v); } break;
				default: what = "Remove(Keys()[j], Keys()[i])"; { bool r, w = false; if constexpr (std::is_same_v<K, Ptr<Box>>) r = d.Remove(d.Keys()[j].Obj(), d.Keys()[i].Obj()); else r = d.Remove(d.Keys()[j], d.Keys()[i]); auto& vs = ref[kj]; auto it = std::find(vs.begin(), vs.end(), ki); if (it != vs.end()) { w = true; vs.erase(it); if (vs.empty()) ref.erase(kj); } MUST(r == w, "remove-result", "Remove returned %d", r); }
				}
				count("keys_as_values"); break;
			default: what = "Add(key, Get(i)[x])"; if (rng.chance(1, 2)) d.Add(key, d.GetByIndex(i)[x]); else d.Add(Val<K>::make(nk), d.GetByIndex(i)[x]); ref[nk].push_back(v);
			}
			LOG("%s key=%d i=%ld j=%ld x=%ld", what, nk, i, j, x);
			compareGroup(d, ref, what, false); op(k, ref.size()); op(i, j); nontrivial(); count("aliased_calls");
		}
	}
	scope.check("aliased group calls");
}
#define SEQS(NAME, T) SCENARIO(list_##NAME, 2) { listAlias<T>(rng); } SCENARIO(array_##NAME, 1) { arrayAlias<T>(rng); } SCENARIO(sorted_##NAME, 2) { sortedAlias<T>(rng); }
#define MAPS(NAME, K, V) SCENARIO(dict_##NAME, 2) { dictAlias<K, V>(rng); } SCENARIO(group_##NAME, 2) { groupAlias<K, V>(rng); }
#if PART == 0
SEQS(tracked, Tracked)
const char* const harnessProperty = "C03";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
SEQS(wstring, WString)
SEQS(vint, vint)
#elif PART == 2
SEQS(copyonly, CopyOnly)
SEQS(ptr, Ptr<Box>)
#elif PART == 3
SEQS(keyed, Keyed)
SEQS(big, Big)
#elif PART == 4
MAPS(tracked, Tracked, Tracked)
#elif PART == 5
MAPS(wstring, WString, WString)
#elif PART == 6
MAPS(ptr, Ptr<Box>, Ptr<Box>)
#elif PART == 7
// Containers of nodes that own containers of the same kind: a container is replaced by, or given nodes out of, what one of its own elements owns.
struct Tree { int v; std::vector<Tree> kids; };
static Tree grow(Rng& rng, int depth, int& next) { Tree t{ next++, {} }; if (depth) { long n = rng.range(0, 4); for (long i = 0; i < n; i++) t.kids.push_back(grow(rng, depth - 1, next)); } return t; }
struct LNode; struct ANode; struct DNode; struct GNode;
struct LNode { Tracked v; List<LNode> kids; LNode(int x) : v(Val<Tracked>::make(x)) {} LNode(LNode&&) = default; LNode& operator=(LNode&&) = default; };
struct ANode { Tracked v; Array<ANode> kids; ANode() : v(Val<Tracked>::make(0)), kids(0) {} ANode(int x) : v(Val<Tracked>::make(x)), kids(0) {} ANode(ANode&&) = default; ANode& operator=(ANode&&) = default; };
struct DNode { Tracked v; Dictionary<vint, DNode> kids; DNode(int x) : v(Val<Tracked>::make(x)) {} DNode(DNode&&) = default; DNode& operator=(DNode&&) = default; };
struct GNode { Tracked v; Group<vint, GNode> kids; GNode(int x) : v(Val<Tracked>::make(x)) {} GNode(GNode&&) = default; GNode& operator=(GNode&&) = default; };
static void plant(List<LNode>& c, const Tree& t) { for (auto& k : t.kids) { LNode n(k.v); plant(n.kids, k); c.Add(std::move(n)); } }
static void plant(Array<ANode>& c, const Tree& t) { c.Resize((vint)t.kids.size()); for (size_t i = 0; i < t.kids.size(); i++) { c[(vint)i] = ANode(t.kids[i].v); plant(c[(vint)i].kids, t.kids[i]); } }
static void plant(Dictionary<vint, DNode>& c, const Tree& t) { for (size_t i = 0; i < t.kids.size(); i++) { DNode n(t.kids[i].v); plant(n.kids, t.kids[i]); c.Add((vint)i * 3, std::move(n)); } }
static void plant(Group<vint, GNode>& c, const Tree& t) { for (size_t i = 0; i < t.kids.size(); i++) { GNode n(t.kids[i].v); plant(n.kids, t.kids[i]); c.Add((vint)i / 2, std::move(n)); } }
static vint sizeOf(const List<LNode>& c) { return c.Count(); } static vint sizeOf(const Array<ANode>& c) { return c.Count(); } static vint sizeOf(const Dictionary<vint, DNode>& c) { return c.Count(); } static vint sizeOf(const Group<vint, GNode>& c) { vint n = 0; for (vint i = 0; i < c.Count(); i++) n += c.GetByIndex(i).Count(); return n; }
static LNode& nth(List<LNode>& c, vint i) { return c[i]; } static ANode& nth(Array<ANode>& c, vint i) { return c[i]; } static DNode& nth(Dictionary<vint, DNode>& c, vint i) { return const_cast<DNode&>(c.Values()[i]); } static GNode& nth(Group<vint, GNode>& c, vint i) { vint k = 0; while (i >= c.GetByIndex(k).Count()) { i -= c.GetByIndex(k).Count(); k++; } return const_cast<GNode&>(c.GetByIndex(k)[i]); }
template<typename C> void sameTree(C& c, const Tree& t, const char* after) { MUST(sizeOf(c) == (vint)t.kids.size(), "tree-count", "after %s: %ld nodes, expected %ld", after, (long)sizeOf(c), (long)t.kids.size()); for (size_t i = 0; i < t.kids.size(); i++) { auto& n = nth(c, (vint)i); MUST(Val<Tracked>::get(n.v) == t.kids[i].v, "tree-value", "after %s: a node holds %d, expected %d", after, Val<Tracked>::get(n.v), t.kids[i].v); sameTree(n.kids, t.kids[i], after); } }
static long nodes(const Tree& t) { long n = 0; for (auto& k : t.kids) n += 1 + nodes(k); return n; }
template<typename C> void nested(Rng& rng, const char* name)
{
	LifetimeScope scope;
	{
		int next = 1; Tree t = grow(rng, (int)rng.range(2, 4), next); C c = [] { if constexpr (std::is_same_v<C, Array<ANode>>) return C(0); else return C(); }(); plant(c, t); sameTree(c, t, "building");
		for (int s = 0; s < 6 && t.kids.size(); s++)
		{
			// somewhere below
			size_t i = (size_t)rng.below((long)t.kids.size()); auto* kids = &nth(c, (vint)i).kids; const Tree* m = &t.kids[i]; long depth = 1; while (m->kids.size() && rng.chance(1, 3)) { size_t j = (size_t)rng.below((long)m->kids.size()); kids = &nth(*kids, (vint)j).kids; m = &m->kids[j]; depth++; }
			int k = (int)rng.below(4);
			if constexpr (std::is_same_v<C, List<LNode>>) { if (k && m->kids.size()) { long j = rng.below((long)m->kids.size()), at = rng.range(0, (long)t.kids.size()); LOG("insert at %ld a node from depth %ld", at, depth + 1); Tree moved = m->kids[j]; Tree* w = const_cast<Tree*>(m); w->kids[j].kids.clear(); c.Insert(at, std::move((*kids)[j])); t.kids.insert(t.kids.begin() + at, moved);
				MUST(c.Count() == (vint)t.kids.size() && Val<Tracked>::get(c[at].v) == moved.v, "tree-insert", "the inserted node is wrong"); sameTree(c[at].kids, moved, "inserting a nested node"); op(1, depth); nontrivial(); count("nested_inserts"); break; } }
			LOG("replace the %s by one of depth %ld with %ld nodes", name, depth, (long)m->kids.size()); Tree want = *m; c = std::move(*kids); t = want; sameTree(c, t, "replacing"); MUST(liveCount() - scope.before == nodes(t), "live-count", "%ld nodes alive for %ld held", liveCount() - scope.before, nodes(t)); op(0, depth); op(t.kids.size()); nontrivial(); count("nested_replacements"); if (rng.chance(1, 3)) { t = grow(rng, 3, next); C d = [] { if constexpr (std::is_same_v<C, Array<ANode>>) return C(0); else return C(); }(); plant(d, t); c = std::move(d); MUST(sizeOf(d) == 0, "moved-from", "a moved-from container is not empty"); sameTree(c, t, "replacing by another"); }
		}
		op(next);
	}
	scope.check("nested containers");
}
SCENARIO(nested_list, 2) { nested<List<LNode>>(rng, "list"); }
SCENARIO(nested_array, 1) { nested<Array<ANode>>(rng, "array"); }
SCENARIO(nested_dictionary, 1) { nested<Dictionary<vint, DNode>>(rng, "dictionary"); }
SCENARIO(nested_group, 1) { nested<Group<vint, GNode>>(rng, "group"); }
#endif
