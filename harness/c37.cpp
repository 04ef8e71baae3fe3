// Objects that nobody modifies, read by several threads at once through every const operation.
#include "threads.h"
#include "Collections/PartialOrdering.h"
#include "Primitives/DateTime.h"
#include "Strings/Conversion.h"
using namespace H;
static WString textOf(int i) { return L"<" + itow(i * 7919 % 100003) + L">"; }
static std::string plain(const WString& s) { return toStd(s); }
static std::string wantText(int i) { return "<" + std::to_string(i * 7919 % 100003) + ">"; }
#define BAD(key, ...) VIOLATION(key, __VA_ARGS__)
static void start(Rng& rng, const char* what, std::function<void(int, Rng&)> read)
{
	int n = (int)rng.range(2, 6); long steps = rng.chance(1, 4) ? rng.range(1, 4) : rng.range(5, 60); LOG("%d threads, %ld reads of %s", n, steps, what);
	parallel(rng, n, (size_t)steps, [&](int t, Rng& r, Interleaving& il) { for (long k = 0; k < steps; k++) { read(t, r); il.step(t); jitter(r); } });
	op((u64)n, (u64)steps); for (const char* c = what; *c; c++) op((u64)*c); count("read_runs"); count("reads", (u64)(n * steps));
}
static long sizeOf(Rng& rng) { return rng.chance(1, 8) ? rng.below(2) : rng.chance(1, 6) ? rng.range(50, 600) : rng.range(2, 40); }
#if PART == 0
template<typename T> void containers(Rng& rng, const char* what, T(*make)(int), int(*get)(const T&))
{
	long n = sizeOf(rng); List<T> list; Array<T> array(n); SortedList<T> sorted; std::vector<int> xs; std::vector<int> byOrder; for (long i = 0; i < n; i++) { int x = (int)rng.below(n * 2); xs.push_back(x); list.Add(make(x)); array[i] = make(x); sorted.Add(make(x)); } for (auto& x : sorted) byOrder.push_back(get(x)); std::vector<T> pool; for (long i = 0; i < n * 2 + 1; i++) pool.push_back(make((int)i));
	start(rng, what, [&](int t, Rng& r)
	{
		const auto& cl = list; const auto& ca = array; const auto& cs = sorted; long i = n ? r.below(n) : 0; int probe = (int)r.below(n * 2 + 1); bool there = std::find(xs.begin(), xs.end(), probe) != xs.end(); long first = (long)(std::find(xs.begin(), xs.end(), probe) - xs.begin()); auto&& key = KeyType<T>::GetKeyValue(pool[probe]);
		switch (r.below(11))
		{
		case 0: if (cl.Count() != n || ca.Count() != n || cs.Count() != n) BAD("count", "thread %d reads a wrong count", t); break;
		case 1: if (n && (get(cl[i]) != xs[i] || get(ca[i]) != xs[i] || get(cs[i]) != byOrder[i] || get(cl.Get(i)) != xs[i])) BAD("element", "thread %d reads a wrong element %ld", t, i); break;
		case 2: if (cl.Contains(key) != there || ca.Contains(key) != there || cs.Contains(key) != there) BAD("contains", "thread %d: Contains is wrong", t); break;
		case 3: { vint a = cl.IndexOf(key), b = ca.IndexOf(key); if (a != (there ? first : -1) || b != a) BAD("index-of", "thread %d: IndexOf is wrong", t); break; }
		case 4: { vint a = cs.IndexOf(key); if (there ? (a < 0 || a >= n || byOrder[a] != probe) : a != -1) BAD("index-of", "thread %d: IndexOf of a sorted list is wrong", t); break; }
		case 5: { size_t k = 0; for (auto& x : cl) if (k >= xs.size() || get(x) != xs[k++]) BAD("loop", "thread %d: a loop reads a wrong element", t); if ((long)k != n) BAD("loop", "thread %d: a loop ends early", t); break; }
		case 6: { vint k = 0; for (auto [x, j] : indexed(cs)) { if (j != k || get(x) != byOrder[k]) BAD("loop", "thread %d: an indexed loop reads a wrong element", t); k++; } break; }
		case 7: { auto e = Ptr(ca.CreateEnumerator()); long k = 0; while (e->Next()) { if (get(e->Current()) != xs[k] || e->Index() != k) BAD("enumerator", "thread %d: an enumerator is wrong", t); k++; } if (k != n) BAD("enumerator", "thread %d: an enumerator ends early", t); break; }
		case 8: { List<T> own; CopyFrom(own, cl); SortedList<T> own2; CopyFrom(own2, cs); if (own.Count() != n || own2.Count() != n || (n && (get(own[i]) != xs[i] || get(own2[i]) != byOrder[i]))) BAD("copy", "thread %d: a copy is wrong", t); break; }
		case 9: { if (CompareEnumerable(cl, ca) != 0) BAD("compare", "thread %d: equal collections compare different", t); break; }
		default: { vint c = 0; From(cl).Where([&](const T& x) { return get(x) == probe; }).Aggregate((vint)0, [&](vint a, const T&) { c++; return a; }); if (c != std::count(xs.begin(), xs.end(), probe)) BAD("query", "thread %d: a query is wrong", t); }
		}
	});
}
static vint mkN(int i) { return i; } static int gtN(const vint& x) { return (int)x; }
static WString mkS(int i) { return (i % 3 ? textOf(i) : (L"ab" + textOf(i) + L"cd").Sub(2, textOf(i).Length())); } static std::map<std::string, int>& byText() { static auto* m = [] { auto* m = new std::map<std::string, int>; for (int i = 0; i < 1300; i++) (*m)[wantText(i)] = i; return m; }(); return *m; } static int gtS(const WString& s) { auto it = byText().find(plain(s)); return it == byText().end() ? -1 : it->second; }
static int gtP(const Ptr<Box>& p) { return p ? p->v : -1; }
SCENARIO(numbers, 2) { containers<vint>(rng, "numbers", &mkN, &gtN); }
SCENARIO(texts, 3) { byText(); containers<WString>(rng, "texts", &mkS, &gtS); }
SCENARIO(pointers, 2) { for (int i = 0; i < 1300; i++) boxOf(i); containers<Ptr<Box>>(rng, "pointers", [](int i) { return boxOf(i); }, &gtP); }
SCENARIO(maps, 4)
{
	long n = sizeOf(rng); Dictionary<WString, vint> d; Group<vint, WString> g; std::map<int, int> m; std::map<int, std::vector<int>> mg; for (long i = 0; i < n; i++) { int k = (int)rng.below(n * 2), v = (int)rng.below(1000); d.Set(textOf(k), v); m[k] = v; int q = (int)rng.below(n / 3 + 2); g.Add(q, textOf(v)); mg[q].push_back(v); } std::vector<WString> keys; for (int i = 0; i < n * 2 + 1; i++) keys.push_back(textOf(i));
	start(rng, "maps", [&](int t, Rng& r)
	{
		const auto& cd = d; const auto& cg = g; int k = (int)r.below(n * 2 + 1); auto it = m.find(k); bool there = it != m.end(); int q = (int)r.below(n / 3 + 3); auto ig = mg.find(q);
		switch (r.below(9))
		{
		case 0: { vint i = cd.Keys().IndexOf(keys[k]); if ((i != -1) != there || (there && cd.Values()[i] != it->second) || cd.Keys().Contains(keys[k]) != there) BAD("dictionary", "thread %d finds a wrong value", t); break; }
		case 1: if (there ? (cd[keys[k]] != it->second || cd.Get(keys[k]) != it->second) : false) BAD("dictionary", "thread %d reads a wrong value", t); break;
		case 2: { long c = 0, s = 0; for (auto [key, value] : cd) { c++; s += (long)value; } long w = 0; for (auto& x : m) w += x.second; if (c != (long)m.size() || s != w || cd.Count() != c) BAD("dictionary", "thread %d: a loop over a dictionary is wrong", t); break; }
		case 3: if (cg.Contains(q) != (ig != mg.end())) BAD("group", "thread %d: Contains of a group is wrong", t); if (cg.Keys().Contains(q) != (ig != mg.end())) BAD("group", "thread %d: the keys of a group are wrong", t); break;
		case 4: if (ig != mg.end()) { auto& l = cg[q]; if (l.Count() != (vint)ig->second.size()) BAD("group", "thread %d: the values of a group have a wrong count", t); for (vint i = 0; i < l.Count(); i++) if (plain(l[i]) != wantText(ig->second[i])) BAD("group", "thread %d: a value of a group is wrong", t); } break;
		case 5: { long c = 0; for (auto [key, value] : cg) c++; if (c != n) BAD("group", "thread %d: a loop over a group has %ld pairs", t, c); break; }
		case 6: { vint i = cg.Keys().IndexOf(q); if ((i != -1) != (ig != mg.end()) || (i != -1 && cg.GetByIndex(i).Count() != (vint)ig->second.size())) BAD("group", "thread %d: a group by position is wrong", t); break; }
		case 7: { Dictionary<WString, vint> own; CopyFrom(own, cd); if (own.Count() != (vint)m.size()) BAD("copy", "thread %d: a copied dictionary is wrong", t); Group<vint, WString> own2; CopyFrom(own2, cg); if (own2.Count() != (vint)mg.size()) BAD("copy", "thread %d: a copied group is wrong", t); break; }
		default: { vint seen = 0; GroupInnerJoin(cg, cg, [&](vint, auto&&...) { BAD("join", "thread %d: a key is on one side only", t); }, [&](vint, auto&&...) { BAD("join", "thread %d: a key is on one side only", t); }, [&](vint key, const List<WString>& a, const List<WString>& b) { if (!a.Count() || a.Count() != b.Count()) BAD("join", "thread %d: a join is wrong", t); seen++; }); if (seen != (vint)mg.size()) BAD("join", "thread %d: a join misses keys", t); }
		}
	});
}
const char* const harnessProperty = "C37";
const long harnessCpuBudget = 60;
#include "main.h"
#elif PART == 1
// one lazy sequence, iterated, copied and extended by all threads
SCENARIO(sequences, 5)
{
	long n = rng.chance(1, 8) ? rng.below(2) : rng.range(2, 30); List<vint> a; List<WString> b; std::vector<int> xs; for (long i = 0; i < n; i++) { int x = (int)rng.below(20); xs.push_back(x); a.Add(x); b.Add(textOf(x)); } LazyList<vint> s = From(a); std::vector<int> want = xs; std::string text = "list"; long depth = rng.range(0, 4);
	for (long i = 0; i < depth; i++) switch (rng.below(13))
	{
	case 0: s = s.Select([](vint x) { return (x * 3 + 1) % 50; }); for (int& x : want) x = (x * 3 + 1) % 50; text += ".Select"; break;
	case 1: { s = s.Where([](vint x) { return x % 3 != 0; }); std::vector<int> w; for (int x : want) if (x % 3) w.push_back(x); want = w; text += ".Where"; break; }
	case 2: { s = s.Distinct(); std::vector<int> w; for (int x : want) if (std::find(w.begin(), w.end(), x) == w.end()) w.push_back(x); want = w; text += ".Distinct"; break; }
	case 3: { s = s.Concat(From(a)); want.insert(want.end(), xs.begin(), xs.end()); text += ".Concat"; break; }
	case 4: { long k = rng.below(20); s = s.Take(k); if ((long)want.size() > k) want.resize(k); text += ".Take"; break; }
	case 5: { long k = rng.below(8); s = s.Skip(k); want.erase(want.begin(), want.begin() + std::min<long>(k, (long)want.size())); text += ".Skip"; break; }
	case 6: { s = s.Repeat(2); auto w = want; want.insert(want.end(), w.begin(), w.end()); text += ".Repeat"; break; }
	case 7: s = s.Reverse(); std::reverse(want.begin(), want.end()); text += ".Reverse"; break;
	case 8: s = s.OrderBySelf(); std::sort(want.begin(), want.end()); text += ".OrderBySelf"; break;
	case 9: s = s.Evaluate(rng.chance(1, 2)); text += ".Evaluate"; break;
	case 10: { s = s.Intersect(From(a)); std::vector<int> w; for (int x : want) if (std::find(w.begin(), w.end(), x) == w.end() && std::find(xs.begin(), xs.end(), x) != xs.end()) w.push_back(x); want = w; text += ".Intersect"; break; }
	case 11: { s = s.SelectMany([](vint x) { auto l = Ptr(new List<vint>); for (vint i = 0; i < x % 3; i++) l->Add(x + i); return LazyList<vint>(l); }); std::vector<int> w; for (int x : want) for (int i = 0; i < x % 3; i++) w.push_back(x + i); want = w; text += ".SelectMany"; break; }
	default: { s = s.Pairwise(From(b)).Select([](Pair<vint, WString> p) { return p.key + p.value.Length(); }); size_t k = std::min(want.size(), xs.size()); want.resize(k); for (size_t j = 0; j < k; j++) want[j] += (int)wantText(xs[j]).size(); text += ".Pairwise"; }
	}
	auto g = s.GroupBy([](vint x) { return x % 4; }); std::set<int> keys; for (int x : want) keys.insert(x % 4); auto texts = From(b).Select([](const WString& x) { return x + L"!"; });
	start(rng, text.c_str(), [&](int t, Rng& r)
	{
		const auto& cs = s; auto drain = [&](const LazyList<vint>& l, const std::vector<int>& w, const char* how) { size_t k = 0; for (auto& x : l) { if (k >= w.size() || (int)x != w[k]) BAD("sequence", "thread %d reads a wrong element %ld of %s (%s)", t, (long)k, text.c_str(), how); k++; } if (k != w.size()) BAD("sequence", "thread %d reads %ld elements of %s, expected %ld (%s)", t, (long)k, text.c_str(), (long)w.size(), how); };
		switch (r.below(8))
		{
		case 0: drain(cs, want, "loop"); break;
		case 1: { LazyList<vint> c(cs); drain(c, want, "copy"); break; }
		case 2: { if (cs.Count() != (vint)want.size() || cs.IsEmpty() != want.empty()) BAD("count", "thread %d: the count of %s is wrong", t, text.c_str()); if (want.size() && (cs.First() != want[0] || cs.Last() != want.back() || cs.Max() != *std::max_element(want.begin(), want.end()))) BAD("reduction", "thread %d: a reduction of %s is wrong", t, text.c_str()); break; }
		case 3: { auto w = want; for (int& x : w) x++; drain(cs.Select([](vint x) { return x + 1; }), w, "extended"); break; }
		case 4: { auto e = Ptr(cs.CreateEnumerator()); long k = 0, stop = r.below((long)want.size() + 1); while (k < stop && e->Next()) k++; auto c = Ptr(e->Clone()); e = nullptr; while (c->Next()) { if ((int)c->Current() != want[k]) BAD("clone", "thread %d: a clone reads a wrong element of %s", t, text.c_str()); k++; } if (k != (long)want.size()) BAD("clone", "thread %d: a clone ends at %ld of %s", t, k, text.c_str()); break; }
		case 5: { size_t k = 0; for (auto& p : g) { k++; long c = 0; for (auto& x : p.value) { if (x % 4 != p.key) BAD("group", "thread %d: a group of %s is wrong", t, text.c_str()); c++; } if (!c) BAD("group", "thread %d: a group of %s is empty", t, text.c_str()); } if (k != keys.size()) BAD("group", "thread %d: %s has %ld groups", t, text.c_str(), (long)k); break; }
		case 6: { size_t k = 0; for (auto& x : texts) { if (plain(x) != wantText(xs[k]) + "!") BAD("text", "thread %d reads a wrong text", t); k++; } break; }
		default: { auto ev = cs.Evaluate(r.chance(1, 2)); drain(ev, want, "evaluated"); }
		}
	});
}
#else
// values: optional, variant, tuple, pair, function, string, event, partial order, byte map
SCENARIO(values, 5)
{
	int id = (int)rng.below(1000); Nullable<WString> nul, empty; nul = textOf(id); using V = Variant<vint, WString, Ptr<Box>>; V v1 = (vint)id, v2 = textOf(id), v3 = Ptr(new Box(id)); Tuple<vint, WString, Ptr<Box>> tup((vint)id, textOf(id), Ptr(new Box(id))); Pair<WString, vint> pair(textOf(id), id); WString str = (L"abc" + textOf(id) + L"xyz"); WString part = str.Sub(3, str.Length() - 6); std::string full = "abc" + wantText(id) + "xyz"; AString narrow = wtoa(str);
	auto box = Ptr(new Box(id)); Func<vint(vint)> f = [box](vint x) { return x + box->v; }; Func<vint(vint)> f2 = f; struct M { int k; vint add(vint x) { return x + k; } } m{ id }; Func<vint(vint)> method(&m, &M::add); Func<vint(WString)> curried = [id](WString b) { return (vint)id + b.Length(); }; ObjectString<char8_t> u8 = wtou8(str); ObjectString<char32_t> u32 = wtou32(part);
	Event<void(vint, WString)> ev; static thread_local long heard; for (long i = rng.below(6); i--;) ev.Add([box](vint a, WString s) { heard += (long)(a + s.Length() + box->v); }); long handlers = 0; { heard = 0; ev(1, L"xy"); handlers = heard / (3 + id); }
	Ptr<Box> shared = box; ComPtr<ComBox> com = comOf(id); DateTime dt = DateTime::FromDateTime(2000 + id % 30, 1 + id % 12, 1 + id % 28); LazyList<WString> none;
	start(rng, "values", [&](int t, Rng& r)
	{
		const auto& cn = nul; const auto& c1 = v1; const auto& c2 = v2; const auto& c3 = v3; const auto& ct = tup; const auto& cp = pair; const auto& cs = str; const auto& cf = f;
		switch (r.below(14))
		{
		case 0: { if (!cn || plain(cn.Value()) != wantText(id) || (bool)empty) BAD("nullable", "thread %d reads a wrong optional value", t); Nullable<WString> own = cn; if (plain(own.Value()) != wantText(id) || !(own == cn) || own == empty) BAD("nullable", "thread %d: a copied optional value is wrong", t); break; }
		case 1: { if (c1.Get<vint>() != id || plain(c2.Get<WString>()) != wantText(id) || c3.Get<Ptr<Box>>()->v != id || c1.TryGet<WString>()) BAD("variant", "thread %d reads a wrong alternative", t); V own = r.chance(1, 2) ? c2 : c3; V own2; own2 = own; if (own2.Index() != own.Index()) BAD("variant", "thread %d: a copied variant is wrong", t); break; }
		case 2: { long s = 0; auto cb = Overloading([&](const vint& x) { s += (long)x; }, [&](const WString& x) { s += (long)x.Length(); }, [&](const Ptr<Box>& x) { s += x->v; }); c1.Apply(cb); c2.Apply(cb); c3.Apply(cb); if (s != 2 * id + (long)wantText(id).size()) BAD("variant", "thread %d: visiting variants is wrong", t); break; }
		case 3: { if (ct.get<0>() != id || plain(ct.get<1>()) != wantText(id) || ct.get<2>()->v != id) BAD("tuple", "thread %d reads a wrong tuple", t); auto own = ct; if (!(own == ct) || (own <=> ct) != 0) BAD("tuple", "thread %d: a copied tuple differs", t); break; }
		case 4: { auto own = cp; if (!(own == cp) || own.value != id || plain(own.key) != wantText(id)) BAD("pair", "thread %d: a copied pair differs", t); break; }
		case 5: { if (cf(1) != id + 1 || method(2) != id + 2 || curried(L"abc") != id + 3 || !(cf == f2)) BAD("function", "thread %d: a function returns a wrong value", t); Func<vint(vint)> own = cf; if (own(5) != id + 5) BAD("function", "thread %d: a copied function is wrong", t); break; }
		case 6: { if (plain(cs) != full || cs.Length() != (vint)full.size()) BAD("string", "thread %d reads a wrong text", t); vint a = r.below((long)full.size() + 1); if (plain(cs.Left(a) + cs.Right(cs.Length() - a)) != full) BAD("string", "thread %d cuts a wrong text", t); break; }
		case 7: { if (plain(part) != wantText(id) || part == cs || !(part == cs.Sub(3, cs.Length() - 6)) || (part <=> cs) == 0) BAD("string", "thread %d compares a text wrongly", t); WString own = part + cs; if (plain(own) != wantText(id) + full) BAD("string", "thread %d concatenates wrongly", t); break; }
		case 8: { heard = 0; ev(1, L"xy"); if (heard != handlers * (3 + id)) BAD("event", "thread %d: an event reached %ld of %ld handlers", t, heard / (3 + id), handlers); break; }
		case 9: { Ptr<Box> own = shared; ComPtr<ComBox> own2 = com; if (own->v != id || own2->v != id || own != shared || !(own2 == com)) BAD("pointer", "thread %d: a copied pointer is wrong", t); break; }
		case 10: { vint at = -1; for (vint i = 0; i < cs.Length(); i++) if (cs[i] == L'<') { at = i; break; } if (at != 3) BAD("string", "thread %d reads a wrong text", t); break; }
		case 11: { for (vint i = 0; i < narrow.Length(); i++) if (narrow[i] != full[i]) BAD("string", "thread %d reads a wrong narrow text", t); for (vint i = 0; i < u8.Length(); i++) if ((char)u8[i] != full[i]) BAD("string", "thread %d reads a wrong UTF-8 text", t); for (vint i = 0; i < u32.Length(); i++) if ((char)u32[i] != wantText(id)[i]) BAD("string", "thread %d reads a wrong UTF-32 text", t); break; }
		case 12: { DateTime own = dt; if (own.year != 2000 + id % 30 || !(own == dt) || own.osInternal != dt.osInternal) BAD("date", "thread %d: a copied date differs", t); break; }
		default: { if (!none.IsEmpty()) BAD("sequence", "thread %d: an empty sequence is not empty", t); auto c = none; for (auto& x : c) { BAD("sequence", "thread %d: an empty sequence has elements", t); } }
		}
	});
}
SCENARIO(orders, 2)
{
	long n = rng.range(1, 14); List<vint> items; Group<vint, vint> deps; for (long i = 0; i < n; i++) items.Add(i); for (long i = 1; i < n; i++) for (long j = 0; j < i; j++) if (rng.chance(1, 3)) deps.Add(i, j); PartialOrderingProcessor po; po.InitWithGroup(items, deps); po.Sort(); std::vector<int> comp; for (vint i = 0; i < po.components.Count(); i++) comp.push_back((int)po.components[i].firstNode[0]);
	start(rng, "orders", [&](int t, Rng& r)
	{
		const auto& c = po; if (c.components.Count() != n) BAD("order", "thread %d reads a wrong number of components", t); std::vector<bool> done(n); for (vint i = 0; i < c.components.Count(); i++) { auto& k = c.components[i]; if (k.nodeCount != 1 || k.firstNode[0] != comp[i]) BAD("order", "thread %d reads a wrong component", t); vint x = k.firstNode[0]; vint d = deps.Keys().IndexOf(x); if (d != -1) for (vint y : deps.GetByIndex(d)) if (!done[y]) BAD("order", "thread %d reads a wrong order", t); done[x] = true; if (c.nodes[x].component != i) BAD("order", "thread %d reads a wrong component number", t); }
	});
}
#endif
