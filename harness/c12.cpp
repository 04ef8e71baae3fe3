// Partial ordering against the reachability closure of the input relation.
#include "chain.h"
#include "Collections/PartialOrdering.h"
#include <bitset>
using namespace H;
constexpr int NMAX = 704; using Bits = std::bitset<NMAX>;
struct Graph { long n; std::vector<std::vector<int>> deps; std::string name; }; // deps[i]: what i depends on, duplicates allowed
static Graph graphOf(Rng& rng)
{
	Graph g; g.n = rng.chance(1, 15) ? rng.below(2) : rng.chance(1, 150) ? rng.range(220, 700) : rng.chance(1, 12) ? rng.range(60, 220) : rng.chance(1, 3) ? rng.range(1, 6) : rng.range(2, 24); long n = g.n; g.deps.resize(n);
	auto add = [&](long a, long b) { g.deps[a].push_back((int)b); };
	std::vector<long> perm(n); for (long i = 0; i < n; i++) perm[i] = i; for (long i = n - 1; i > 0; i--) std::swap(perm[i], perm[rng.below(i + 1)]);
	if (n) switch (rng.below(10))
	{
	case 0: { g.name = "random"; long m = rng.below(n * 3 + 1); for (long i = 0; i < m; i++) add(rng.below(n), rng.below(n)); break; }
	case 1: { g.name = "dag"; long m = rng.below(n * 3 + 1); for (long i = 0; i < m; i++) { long a = rng.below(n), b = rng.below(n); if (a == b) continue; add(perm[std::max(a, b)], perm[std::min(a, b)]); } break; }
	case 2: { g.name = "cycle"; for (long i = 0; i < n; i++) add(perm[i], perm[(i + 1) % n]); for (long i = 0; i < n / 4; i++) add(rng.below(n), rng.below(n)); break; }
	case 3: { g.name = "rings"; long at = 0; while (at < n) { long k = std::min(n - at, rng.range(1, 6)); for (long i = 0; i < k; i++) if (k > 1 || rng.chance(1, 3)) add(perm[at + i], perm[at + (i + 1) % k]); if (at && rng.chance(3, 4)) { long a = perm[at + rng.below(k)], b = perm[rng.below(at)]; add(a, b); if (rng.chance(1, 4)) add(a, b); } at += k; } break; }
	case 4: { g.name = "chain"; for (long i = 1; i < n; i++) add(perm[i], perm[i - 1]); if (rng.chance(1, 2)) add(perm[rng.below(n)], perm[rng.below(n)]); break; }
	case 5: { g.name = "dense"; long q = rng.range(1, 3); if (n > 30) q = 1; for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) if (rng.chance(q, 5)) add(i, j); break; }
	case 6: { g.name = "layers"; long w = rng.range(1, 5); for (long i = w; i < n; i++) for (long k = 0; k < 2; k++) add(perm[i], perm[(i / w - 1) * w + rng.below(w)]); break; }
	case 7: { g.name = "hub"; long h = rng.below(n); int way = (int)rng.below(3); for (long i = 0; i < n; i++) { if (i == h && rng.chance(1, 2)) continue; if (way != 1) add(h, i); if (way == 1 || (way == 2 && rng.chance(1, 3))) add(i, h); } break; }
	default: { g.name = "sparse"; long m = rng.below(n + 1); for (long i = 0; i < m; i++) { long a = rng.below(n); add(a, rng.chance(1, 4) ? a : rng.below(n)); } break; }
	}
	for (auto& d : g.deps) for (size_t i = d.size(); i > 1; i--) std::swap(d[i - 1], d[rng.below((long)i)]);
	return g;
}
static std::string text(const Graph& g) { std::string r = g.name + fmt(" n=%ld:", g.n); for (long i = 0; i < g.n; i++) if (g.deps[i].size()) r += fmt(" %ld->", i) + show(g.deps[i]); return r; }
// judge a sorted processor against the relation on its nodes
static void judge(PartialOrderingProcessor& po, long n, const std::vector<Bits>& rel, const std::string& t)
{
	MUST(po.nodes.Count() == n, "nodes", "%s: %ld nodes, expected %ld", t.c_str(), (long)po.nodes.Count(), n);
	std::vector<Bits> reach = rel; for (long k = 0; k < n; k++) for (long i = 0; i < n; i++) if (reach[i][k]) reach[i] |= reach[k];
	for (long i = 0; i < n; i++)
	{
		Bits ins, outs; for (vint j = 0; j < po.nodes[i].ins->Count(); j++) { vint d = po.nodes[i].ins->Get(j); MUST(d >= 0 && d < n, "node-ins", "%s: node %ld depends on the impossible node %ld", t.c_str(), i, (long)d); ins[d] = 1; }
		for (vint j = 0; j < po.nodes[i].outs->Count(); j++) { vint d = po.nodes[i].outs->Get(j); MUST(d >= 0 && d < n, "node-outs", "%s: impossible node %ld depends on %ld", t.c_str(), (long)d, i); outs[d] = 1; }
		Bits want; for (long j = 0; j < n; j++) want[j] = rel[j][i];
		MUST(ins == rel[i], "node-ins", "%s: the dependencies reported for node %ld differ from the input", t.c_str(), i); MUST(outs == want, "node-outs", "%s: the dependants reported for node %ld differ from the input", t.c_str(), i);
	}
	std::vector<int> comp(n, -1); long seen = 0;
	for (vint c = 0; c < po.components.Count(); c++)
	{
		auto& k = po.components[c]; MUST(k.nodeCount > 0, "empty-component", "%s: component %ld is empty", t.c_str(), (long)c);
		for (vint j = 0; j < k.nodeCount; j++)
		{
			vint x = k.firstNode[j]; MUST(x >= 0 && x < n, "component-node", "%s: component %ld holds the impossible node %ld", t.c_str(), (long)c, (long)x);
			MUST(comp[x] == -1, "twice", "%s: node %ld appears in components %d and %ld", t.c_str(), (long)x, comp[x], (long)c); comp[x] = (int)c; seen++;
			MUST(po.nodes[x].component == c, "node-component", "%s: node %ld says component %ld but is listed in %ld", t.c_str(), (long)x, (long)po.nodes[x].component, (long)c);
		}
	}
	MUST(seen == n, "missing", "%s: %ld of %ld nodes are in components", t.c_str(), seen, n);
	for (long i = 0; i < n; i++) for (long j = 0; j < n; j++)
	{
		if (i != j) MUST((comp[i] == comp[j]) == (reach[i][j] && reach[j][i]), comp[i] == comp[j] ? "merged" : "split", "%s: nodes %ld and %ld %s a component", t.c_str(), i, j, comp[i] == comp[j] ? "share" : "do not share");
		if (rel[i][j]) MUST(comp[i] >= comp[j], "order", "%s: node %ld depends on %ld but its component comes first", t.c_str(), i, j);
	}
	count("components_checked", po.components.Count()); count("nodes_checked", n); if (po.components.Count() < n) count("graphs_with_cycles");
}
template<typename TList, typename T> void fill(TList& l, const std::vector<int>& ids) { if constexpr (std::is_same_v<TList, Array<T>>) { l.Resize((vint)ids.size()); for (size_t i = 0; i < ids.size(); i++) l[(vint)i] = Val<T>::make(ids[i]); } else for (int i : ids) l.Add(Val<T>::make(i)); }
template<typename TList, typename T> void ordering(Rng& rng)
{
	Graph g = graphOf(rng); auto t = text(g); LOG("%s", t.c_str()); long n = g.n;
	// items in random order; ids[i] is the element number at position i of the list
	std::vector<int> ids(n); for (long i = 0; i < n; i++) ids[i] = (int)i; for (long i = n - 1; i > 0; i--) std::swap(ids[i], ids[rng.below(i + 1)]);
	TList items; fill<TList, T>(items, ids); std::vector<long> pos(n); for (long i = 0; i < n; i++) { long p = items.IndexOf(KeyType<T>::GetKeyValue(Val<T>::make((int)i))); pos[i] = p; }
	Group<T, T> dep; std::vector<Bits> rel(n); for (long i = 0; i < n; i++) for (int d : g.deps[i]) { rel[pos[i]][pos[d]] = 1; dep.Add(Val<T>::make((int)i), Val<T>::make(d)); }
	int way = (int)rng.below(4); PartialOrderingProcessor po; op(way, n); for (long i = 0; i < n; i++) for (int d : g.deps[i]) op(i, d);
	if (way == 0) { po.InitWithGroup(items, dep); po.Sort(); judge(po, n, rel, t); }
	else if (way == 1)
	{
		if (n > 300) return; std::vector<Bits> byId(n); for (long i = 0; i < n; i++) for (int d : g.deps[i]) byId[i][d] = 1;
		po.InitWithFunc(items, [&](const T& a, const T& b) { return (bool)byId[Val<T>::get(a)][Val<T>::get(b)]; }); po.Sort(); judge(po, n, rel, t);
	}
	else
	{
		long classes = rng.range(1, n / 2 + 2); std::vector<int> cls(n, -1); Dictionary<T, WString> sub; for (long i = 0; i < n; i++) if (rng.chance(2, 3)) { cls[i] = (int)rng.below(classes); sub.Set(Val<T>::make((int)i), Val<WString>::make(cls[i])); }
		po.InitWithSubClass(items, dep, sub); po.Sort();
		// which node holds which item: every item in exactly one node, together exactly with its class
		std::vector<int> node(n, -1); std::vector<int> nodeClass(po.nodes.Count(), -2); long covered = 0;
		for (vint k = 0; k < po.nodes.Count(); k++)
		{
			MUST(po.nodes[k].subClassItemCount > 0, "class-empty", "%s: node %ld of the class graph holds no item", t.c_str(), (long)k);
			for (vint j = 0; j < po.nodes[k].subClassItemCount; j++) { vint x = po.nodes[k].firstSubClassItem[j]; MUST(x >= 0 && x < n, "class-item", "%s: impossible item %ld in a class", t.c_str(), (long)x); int id = Val<T>::get(items[x]); MUST(node[id] == -1, "class-twice", "%s: item %d is in two classes", t.c_str(), id); node[id] = (int)k; covered++; }
		}
		MUST(covered == n, "class-missing", "%s: %ld of %ld items are in class nodes", t.c_str(), covered, n);
		for (long i = 0; i < n; i++) for (long j = 0; j < n; j++) { bool same = i == j || (cls[i] != -1 && cls[i] == cls[j]); MUST((node[i] == node[j]) == same, "class-partition", "%s: items %ld and %ld %s a class node", t.c_str(), i, j, node[i] == node[j] ? "share" : "do not share"); }
		std::vector<Bits> crel(po.nodes.Count()); for (long i = 0; i < n; i++) for (int d : g.deps[i]) crel[node[i]][node[d]] = 1;
		judge(po, (long)po.nodes.Count(), crel, t + " by classes"); count("class_graphs");
	}
	if (n > 1) nontrivial(); count("graphs");
}
// thousands of nodes: the components come from an independent search without recursion (forward and backward reachability over the sorted result)
static std::vector<int> componentsOf(const std::vector<std::vector<int>>& deps)
{
	long n = (long)deps.size(); std::vector<std::vector<int>> back(n); for (long i = 0; i < n; i++) for (int d : deps[i]) back[d].push_back((int)i); std::vector<int> order, c(n, -1); std::vector<char> seen(n, 0);
	for (long s = 0; s < n; s++) { if (seen[s]) continue; std::vector<std::pair<int, size_t>> st{ { (int)s, 0 } }; seen[s] = 1; while (!st.empty()) { auto& [x, k] = st.back(); if (k < deps[x].size()) { int y = deps[x][k++]; if (!seen[y]) { seen[y] = 1; st.push_back({ y, 0 }); } } else { order.push_back(x); st.pop_back(); } } }
	int k = 0; for (long i = n - 1; i >= 0; i--) { if (c[order[i]] != -1) continue; std::vector<int> st{ order[i] }; c[order[i]] = k; while (!st.empty()) { int x = st.back(); st.pop_back(); for (int y : back[x]) if (c[y] == -1) { c[y] = k; st.push_back(y); } } k++; } return c;
}
SCENARIO(large, 1)
{
	if (!rng.chance(1, 12)) { ordering<SortedList<vint>, vint>(rng); return; }
	long n = rng.chance(1, 5) ? rng.range(4000, 9000) : rng.range(700, 4000); std::vector<std::vector<int>> deps(n); std::string name; std::vector<long> perm(n); for (long i = 0; i < n; i++) perm[i] = i; for (long i = n - 1; i > 0; i--) std::swap(perm[i], perm[rng.below(i + 1)]); auto add = [&](long a, long b) { deps[perm[a]].push_back((int)perm[b]); };
	switch (rng.below(6))
	{
	case 0: name = "chain"; if (n > 4000) n = 4000, deps.resize(n); for (long i = 0; i < n; i++) perm[i] = i; for (long i = 1; i < n; i++) add(i, i - 1); break;
	case 1: name = "dependants first"; if (n > 4000) n = 4000, deps.resize(n); for (long i = 0; i < n; i++) perm[i] = i; for (long i = 1; i < n; i++) add(i - 1, i); if (rng.chance(1, 2)) add(n - 1, rng.below(n)); break;
	case 2: name = "hub"; for (long i = 1; i < n; i++) { add(0, i); if (rng.chance(1, 50)) add(i, 0); } break;
	case 3: name = "everything on one"; for (long i = 1; i < n; i++) { add(i, 0); if (rng.chance(1, 500)) add(0, i); } break;
	case 4: name = "rings"; for (long at = 0; at < n;) { long k = std::min(n - at, rng.range(1, 300)); for (long i = 0; i < k; i++) add(at + i, at + (i + 1) % k); if (at) add(at, rng.below(at)); at += k; } break;
	default: name = "random"; for (long i = 0; i < n * 2; i++) add(rng.below(n), rng.below(n)); break;
	}
	op((u64)n, std::hash<std::string>()(name)); nontrivial(); LOG("%s of %ld nodes", name.c_str(), n);
	SortedList<vint> items; for (long i = 0; i < n; i++) items.Add(i); Group<vint, vint> dep; for (long i = 0; i < n; i++) for (int d : deps[i]) dep.Add(i, d); PartialOrderingProcessor po; po.InitWithGroup(items, dep); po.Sort(); auto want = componentsOf(deps); std::vector<int> got(n, -1); long seen = 0; std::map<int, int> match;
	MUST(po.nodes.Count() == n, "nodes", "%s of %ld nodes: %ld nodes", name.c_str(), n, (long)po.nodes.Count());
	for (vint c = 0; c < po.components.Count(); c++) { auto& k = po.components[c]; MUST(k.nodeCount > 0, "empty-component", "%s of %ld nodes: component %ld is empty", name.c_str(), n, (long)c); for (vint j = 0; j < k.nodeCount; j++) { vint x = k.firstNode[j]; MUST(x >= 0 && x < n && got[x] == -1, "component-node", "%s of %ld nodes: component %ld holds node %ld", name.c_str(), n, (long)c, (long)x); got[x] = (int)c; seen++; MUST(po.nodes[x].component == c, "node-component", "%s of %ld nodes: node %ld says component %ld but is listed in %ld", name.c_str(), n, (long)x, (long)po.nodes[x].component, (long)c); auto [it, fresh] = match.insert({ want[x], (int)c }); MUST(it->second == c, "split", "%s of %ld nodes: node %ld is in component %ld, what it depends on and back in %d", name.c_str(), n, (long)x, (long)c, it->second); } }
	MUST(seen == n, "missing", "%s of %ld nodes: %ld are in components", name.c_str(), n, seen); MUST((long)match.size() == po.components.Count(), "merged", "%s of %ld nodes: %ld components, expected %ld", name.c_str(), n, (long)po.components.Count(), (long)match.size());
	for (long i = 0; i < n; i++) { for (int d : deps[i]) MUST(got[i] >= got[d], "order", "%s of %ld nodes: node %ld depends on %d but its component comes first", name.c_str(), n, i, d); std::set<vint> a(deps[i].begin(), deps[i].end()), b; for (vint d : *po.nodes[i].ins) b.insert(d); MUST(a == b, "node-ins", "%s of %ld nodes: the dependencies reported for node %ld differ", name.c_str(), n, i); }
	std::vector<std::set<vint>> outs(n); for (long i = 0; i < n; i++) for (int d : deps[i]) outs[d].insert(i); for (long i = 0; i < n; i++) { std::set<vint> b; for (vint d : *po.nodes[i].outs) b.insert(d); MUST(outs[i] == b, "node-outs", "%s of %ld nodes: the dependants reported for node %ld differ", name.c_str(), n, i); }
	count("large_graphs"); count("nodes_checked", n);
}
SCENARIO(list_vint, 3) { ordering<List<vint>, vint>(rng); }
SCENARIO(array_wstring, 2) { ordering<Array<WString>, WString>(rng); }
SCENARIO(list_ptr, 2) { ordering<List<Ptr<Box>>, Ptr<Box>>(rng); }
SCENARIO(sorted_vint, 1) { ordering<SortedList<vint>, vint>(rng); }
SCENARIO(bad_input, 1)
{
	// dependencies on unknown items are refused
	List<vint> items; long n = rng.range(1, 8); for (long i = 0; i < n; i++) items.Add(i); Group<vint, vint> dep; for (long i = 0; i < n; i++) dep.Add(rng.below(n), rng.below(n)); vint bad = rng.chance(1, 2) ? n + rng.below(5) : -1 - rng.below(5);
	if (rng.chance(1, 2)) dep.Add(bad, rng.below(n)); else dep.Add(rng.below(n), bad);
	PartialOrderingProcessor po; MUST(rejected([&] { po.InitWithGroup(items, dep); }), "unknown-item", "a dependency on an unknown item was accepted"); op(n, bad); count("refused");
}
const char* const harnessProperty = "C12";
const long harnessCpuBudget = 30;
#include "main.h"
