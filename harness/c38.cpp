// Several threads, each working on objects of its own: no call of the library may keep state that others see.
#include "threads.h"
#include "unicode.h"
#include "Collections/PartialOrdering.h"
#include "Primitives/DateTime.h"
#include "Primitives/Event.h"
using namespace H;
#define BAD(key, ...) VIOLATION(key, __VA_ARGS__)
using Job = void(*)(int, Rng&);
static void start(Rng& rng, const char* what, std::vector<Job> jobs)
{
	int n = (int)rng.range(2, 6); long steps = rng.chance(1, 4) ? rng.range(1, 4) : rng.range(5, 40); int focus = rng.chance(1, 3) ? (int)rng.below((long)jobs.size()) : -1; LOG("%d threads, %ld jobs of %s, only %d", n, steps, what, focus);
	parallel(rng, n, (size_t)steps, [&](int t, Rng& r, Interleaving& il) { for (long k = 0; k < steps; k++) { jobs[focus >= 0 ? focus : r.below((long)jobs.size())](t, r); il.step(t); jitter(r); } });
	op((u64)n, (u64)(steps * 64 + focus)); for (const char* c = what; *c; c++) op((u64)*c); count("job_runs"); count("jobs", (u64)(n * steps));
}
static std::string digits(unsigned long long u) { std::string s; do s.insert(s.begin(), (char)('0' + u % 10)); while (u /= 10); return s; }
template<typename S> static std::string narrow(const S& s) { std::string r; for (vint i = 0; i < s.Length(); i++) r += (char)s[i]; return r; }
#if PART == 0
static void numbers(int t, Rng& r)
{
	long v = (long)(vint32_t)r.next(); std::string w = (v < 0 ? "-" : "") + digits((unsigned long long)(v < 0 ? -v : v)); if (narrow(itoa(v)) != w || narrow(itow(v)) != w) BAD("number", "thread %d: %ld is printed as \"%s\" or \"%s\"", t, v, narrow(itoa(v)).c_str(), narrow(itow(v)).c_str()); bool ok = false; if (atoi_test(itoa(v), ok) != v || !ok || wtoi_test(itow(v), ok) != v || !ok) BAD("number", "thread %d: %ld is not read back", t, v);
	vuint64_t u = r.next() >> r.below(64); if (narrow(u64toa(u)) != digits(u) || narrow(u64tow(u)) != digits(u) || wtou64(u64tow(u)) != u || atou64(u64toa(u)) != u) BAD("number", "thread %d: an unsigned number is not kept", t); vint64_t q = (vint64_t)(u >> 1); if (narrow(i64toa(q)) != digits((unsigned long long)q) || wtoi64(i64tow(q)) != q) BAD("number", "thread %d: a 64 bit number is not kept", t); vuint x = (vuint32_t)u; if (narrow(utow(x)) != digits(x) || wtou(utow(x)) != x || atou(utoa(x)) != x) BAD("number", "thread %d: a 32 bit number is not kept", t);
	double d = (double)(long)r.range(-100000, 100000) / 64; if (atof(ftoa(d)) != d || wtof(ftow(d)) != d) BAD("number", "thread %d: %g is not kept", t, d); if (atof_test("1.5x", ok); ok) BAD("number", "thread %d: a wrong number is accepted", t);
}
static void casing(int t, Rng& r)
{
	std::string a; for (long k = r.range(0, 30); k--;) a += (char)r.range(33, 126); std::string lo = a, up = a; for (char& c : lo) if (c >= 'A' && c <= 'Z') c += 32; for (char& c : up) if (c >= 'a' && c <= 'z') c -= 32; AString s = AString::CopyFrom(a.data(), (vint)a.size()); WString w = atow(s);
	if (narrow(alower(s)) != lo || narrow(aupper(s)) != up || narrow(wlower(w)) != lo || narrow(wupper(w)) != up || narrow(wtoa(w)) != a || narrow(w) != a) BAD("case", "thread %d: a converted text is wrong", t);
}
static void encodings(int t, Rng& r)
{
	Scalars s; for (long k = r.range(0, 20); k--;) s.push_back(anyScalar(r)); auto u8 = encode<char8_t>(s); auto u16 = encode<char16_t>(s); auto u32 = encode<char32_t>(s); auto w = encode<wchar_t>(s); auto o8 = ObjectString<char8_t>::CopyFrom(u8.data(), (vint)u8.size()); auto o16 = ObjectString<char16_t>::CopyFrom(u16.data(), (vint)u16.size()); auto o32 = ObjectString<char32_t>::CopyFrom(u32.data(), (vint)u32.size()); auto ow = WString::CopyFrom(w.data(), (vint)w.size());
	if (read(u8tow(o8)) != w || read(u16tow(o16)) != w || read(u32tow(o32)) != w || read(wtou8(ow)) != u8 || read(wtou16(ow)) != u16 || read(wtou32(ow)) != u32 || read(u8tou16(o8)) != u16 || read(u8tou32(o8)) != u32 || read(u16tou8(o16)) != u8 || read(u32tou16(o32)) != u16) BAD("encoding", "thread %d: a converted text is wrong", t);
	encoding::UtfStringToStringReader<char8_t, char16_t> reader(o8.Buffer()); Units<char16_t> got; while (auto c = reader.Read()) { got += c; if ((long)got.size() % 3 == 0) sched_yield(); } if (got != u16) BAD("encoding", "thread %d: a reader yields a wrong text", t);
	encoding::UtfStringRangeToStringRangeReader<wchar_t, char8_t> range(ow.Buffer(), ow.Length()); Units<char8_t> g8; while (auto c = range.Read()) g8 += c; if (g8 != u8) BAD("encoding", "thread %d: a range reader yields a wrong text", t);
}
static void texts(int t, Rng& r)
{
	std::wstring m; WString s; for (long k = r.range(1, 12); k--;) switch (r.below(6)) { case 0: s += L"abc"; m += L"abc"; break; case 1: s = itow(k) + s; m = std::to_wstring(k) + m; break; case 2: if (s.Length()) { vint a = r.below(s.Length()); s = s.Left(a); m = m.substr(0, a); } break; case 3: { vint a = r.range(0, s.Length()); s = s.Insert(a, L"[x]"); m.insert((size_t)a, L"[x]"); break; } case 4: if (s.Length()) { vint a = r.below(s.Length()); s = s.Remove(a, 1); m.erase((size_t)a, 1); } break; default: s = s + s; m = m + m; if (m.size() > 500) { s = s.Right(20); m = m.substr(m.size() - 20); } }
	if (read(s) != m || std::wstring(s.Buffer()) != m || !(s == m.c_str())) BAD("string", "thread %d: a text is wrong", t); WString e; if (e.Length() != 0 || e.Buffer()[0] != 0 || !(e == WString::Empty)) BAD("string", "thread %d: an empty text is not empty", t);
}
static void dates(int t, Rng& r)
{
	int y = (int)r.range(1975, 2090), mo = (int)r.range(1, 12), d = (int)r.range(1, 28), h = (int)r.range(0, 23), mi = (int)r.range(0, 59), s = (int)r.range(0, 59); auto x = DateTime::FromDateTime(y, mo, d, h, mi, s, 0); if (x.year != y || x.month != mo || x.day != d || x.hour != h || x.minute != mi || x.second != s) BAD("date", "thread %d: a date has wrong fields", t); auto z = DateTime::FromOSInternal(x.osInternal); if (z.year != y || z.second != s || !(z == x)) BAD("date", "thread %d: a date is not kept", t); auto l = x.ToLocalTime().ToUtcTime(); if (l.hour != h || l.minute != mi) BAD("date", "thread %d: a date is not kept by converting it", t); auto f = x.Forward(86400000ULL * 30); if (f.osInternal <= x.osInternal) BAD("date", "thread %d: moving a date is wrong", t); auto now = DateTime::LocalTime(); if (now.year < 2000) BAD("date", "thread %d: the clock is wrong", t);
}
SCENARIO(text, 5) { start(rng, "text", { &numbers, &casing, &encodings, &texts, &dates }); }
const char* const harnessProperty = "C38";
const long harnessCpuBudget = 60;
#include "main.h"
#else
static void lists(int t, Rng& r)
{
	List<WString> l; SortedList<vint> s; Array<vint> a(r.below(20)); std::vector<std::wstring> m; std::multiset<vint> ms; for (vint i = 0; i < a.Count(); i++) a[i] = i * i;
	for (long k = r.range(1, 60); k--;) switch (r.below(5)) { case 0: case 1: { vint at = r.range(0, (long)m.size()); auto x = r.below(1000); l.Insert(at, itow(x)); m.insert(m.begin() + at, std::to_wstring(x)); break; } case 2: if (m.size()) { vint at = r.below((long)m.size()); l.RemoveAt(at); m.erase(m.begin() + at); } break; case 3: { vint x = r.below(50); s.Add(x); ms.insert(x); break; } default: if (m.size() > 3) { vint at = r.below((long)m.size() - 2); l.RemoveRange(at, 2); m.erase(m.begin() + at, m.begin() + at + 2); } }
	if (l.Count() != (vint)m.size() || s.Count() != (vint)ms.size()) BAD("list", "thread %d: a list has a wrong length", t); for (size_t i = 0; i < m.size(); i++) if (read(l[(vint)i]) != m[i]) BAD("list", "thread %d: an element is wrong", t); vint i = 0; for (vint x : ms) if (s[i++] != x) BAD("sorted", "thread %d: a sorted list is wrong", t); for (vint j = 0; j < a.Count(); j++) if (a[j] != j * j) BAD("array", "thread %d: an array is wrong", t);
}
static void maps(int t, Rng& r)
{
	Dictionary<WString, vint> d; Group<vint, WString> g; std::map<std::wstring, vint> m; std::map<vint, std::vector<std::wstring>> mg; for (long k = r.range(1, 50); k--;) { vint x = r.below(30), y = r.below(100); switch (r.below(4)) { case 0: d.Set(itow(x), y); m[std::to_wstring(x)] = y; break; case 1: if (d.Remove(itow(x)) != (m.erase(std::to_wstring(x)) == 1)) BAD("dictionary", "thread %d: removing is wrong", t); break; case 2: g.Add(x, itow(y)); mg[x].push_back(std::to_wstring(y)); break; default: if (g.Remove(x) != (mg.erase(x) == 1)) BAD("group", "thread %d: removing is wrong", t); } }
	if (d.Count() != (vint)m.size() || g.Count() != (vint)mg.size()) BAD("map", "thread %d: a map has a wrong size", t); for (auto& [k, v] : m) if (d[WString(k.c_str())] != v) BAD("dictionary", "thread %d: a value is wrong", t); for (auto& [k, v] : mg) for (size_t i = 0; i < v.size(); i++) if (read(g[k][(vint)i]) != v[i]) BAD("group", "thread %d: a value is wrong", t);
}
static void queries(int t, Rng& r)
{
	List<vint> a; std::vector<vint> m; for (long k = r.range(0, 30); k--;) { vint x = r.below(20); a.Add(x); m.push_back(x); } auto q = From(a).Select([](vint x) { return x * 2; }).Where([](vint x) { return x % 3 != 0; }).Distinct().OrderBySelf(); std::set<vint> w; for (vint x : m) if (x * 2 % 3) w.insert(x * 2); auto it = w.begin(); for (vint x : q) { if (it == w.end() || *it != x) BAD("query", "thread %d: a query is wrong", t); ++it; } if (it != w.end()) BAD("query", "thread %d: a query is too short", t);
	vint sum = From(a).Aggregate((vint)0, [](vint x, vint y) { return x + y; }), ws = 0; for (vint x : m) ws += x; if (sum != ws) BAD("query", "thread %d: a sum is wrong", t); vint groups = 0; for (auto& p : From(a).GroupBy([](vint x) { return x % 5; })) { groups++; for (vint x : p.value) if (x % 5 != p.key) BAD("query", "thread %d: a group is wrong", t); } std::set<vint> gs; for (vint x : m) gs.insert(x % 5); if (groups != (vint)gs.size()) BAD("query", "thread %d: %ld groups", t, (long)groups); vint c = 0; for (auto [x, i] : indexed(From(a).Reverse().Concat(From(a)))) { if (x != (c < (vint)m.size() ? m[m.size() - 1 - c] : m[c - m.size()]) || i != c) BAD("query", "thread %d: a chain is wrong", t); c++; }
}
static void sorts(int t, Rng& r)
{
	std::vector<vint> v; for (long k = r.range(0, 300); k--;) v.push_back(r.below(100)); auto w = v; std::sort(w.begin(), w.end()); auto x = v; if (x.size()) { Sort(x.data(), (vint)x.size()); if (x != w) BAD("sort", "thread %d: a sorted array is wrong", t); x = v; SortLambda(x.data(), (vint)x.size(), [](vint a, vint b) { return b <=> a; }); std::reverse(w.begin(), w.end()); if (x != w) BAD("sort", "thread %d: an array sorted by a comparer is wrong", t); }
	long n = r.range(1, 12); List<vint> items; Group<vint, vint> deps; for (long i = 0; i < n; i++) items.Add(i); for (long i = 1; i < n; i++) for (long j = 0; j < i; j++) if (r.chance(1, 3)) deps.Add(i, j); PartialOrderingProcessor po; po.InitWithGroup(items, deps); po.Sort(); std::vector<bool> done(n); if (po.components.Count() != n) BAD("order", "thread %d: a partial order has %ld components", t, (long)po.components.Count()); for (vint i = 0; i < n; i++) { vint q = po.components[i].firstNode[0]; vint d = deps.Keys().IndexOf(q); if (d != -1) for (vint y : deps.GetByIndex(d)) if (!done[y]) BAD("order", "thread %d: a partial order is wrong", t); done[q] = true; }
}
static void values(int t, Rng& r)
{
	vint id = r.below(1000); auto box = Ptr(new Box((int)id)); Func<vint(vint)> f = [box](vint x) { return x + box->v; }; auto g = f; Func<vint(vint)> h; h = g; if (h(1) != id + 1 || f(2) != id + 2) BAD("function", "thread %d: a function is wrong", t); Event<void(vint)> e; vint got = 0; auto k1 = e.Add([&](vint x) { got += x; }); auto k2 = e.Add([&](vint x) { got += 10 * x; }); e(id); e.Remove(k1); e(1); if (got != id * 11 + 10) BAD("event", "thread %d: an event is wrong", t); Variant<vint, WString, Ptr<Box>> v = itow(id); v = box; if (v.Get<Ptr<Box>>()->v != id) BAD("variant", "thread %d: a variant is wrong", t); v = id; Nullable<WString> n; n = itow(id); Nullable<WString> n2 = n; n.Reset(); if (n || read(n2.Value()) != std::to_wstring(id)) BAD("nullable", "thread %d: an optional value is wrong", t); Tuple<vint, WString> tp(id, itow(id)); auto t2 = tp; if (!(t2 == tp) || t2.get<0>() != id) BAD("tuple", "thread %d: a tuple is wrong", t);
	bool raised = false; try { List<vint> l; l.Get(id); } catch (const Error& x) { raised = x.Description() && wcslen(x.Description()) > 0; } if (!raised) BAD("error", "thread %d: an inadmissible call raised no error", t); std::vector<Ptr<Box>> ps; for (long k = r.range(1, 10); k--;) ps.push_back(ps.size() && r.chance(1, 2) ? ps[0] : box); box = nullptr; for (auto& p : ps) if (p->v != id) BAD("pointer", "thread %d: a pointer is wrong", t);
}
static void allocators(int t, Rng& r)
{
	PushOnlyAllocator<vint> a(r.range(1, 8)); std::vector<vint*> ps; for (long k = r.range(1, 40); k--;) { auto p = a.Create(); *p = (vint)ps.size() * 3; ps.push_back(p); } for (size_t i = 0; i < ps.size(); i++) if (a.Get((vint)i) != ps[i] || *ps[i] != (vint)i * 3) BAD("allocator", "thread %d: an allocated object is wrong", t); struct Cell { vint v; }; typename ByteObjectMap<Cell>::Allocator al(4); ByteObjectMap<Cell> m; Cell cells[4]; std::map<int, Cell*> ref; for (long k = r.range(1, 30); k--;) { int b = (int)r.below(256); Cell* c = &cells[r.below(4)]; m.Set((vuint8_t)b, c, al); ref[b] = c; } for (int b = 0; b < 256; b++) { auto it = ref.find(b); if (m.Get((vuint8_t)b) != (it == ref.end() ? nullptr : it->second)) BAD("byte-map", "thread %d: a byte map is wrong", t); }
}
SCENARIO(objects, 5) { start(rng, "objects", { &allocators, &lists, &maps, &queries, &sorts, &values }); }
#endif
