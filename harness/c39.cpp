// Errors raised by callbacks: the caller receives exactly what was thrown, nothing leaks, nothing is damaged, and the
// same objects give the full result once the callback stops failing.
#include "chain.h"
#include "text.h"
#include <thread>
using namespace H;
struct Custom { Tracked payload; explicit Custom(int v) : payload(v) {} };
struct Special : ArgumentException { int code; Special(const WString& m, const WString& f, const WString& n, int c) : ArgumentException(m, f, n), code(c) {} };
// what a callback throws, and whether that is what the caller caught
struct Bomb
{
	int kind; int id; long left; bool armed = true; long calls = 0, thrown = 0; const wchar_t* text; std::wstring m, f, n;
	Bomb(Rng& rng, long in)
	{
		static const wchar_t* texts[] = { L"", L"boom", L"a longer description of what happened, with \x4E2D and more", L"vl::Error" };
		kind = (int)rng.below(6); id = (int)rng.below(100000); left = in; text = texts[rng.below(4)]; auto any = [&] { std::wstring r; for (long k = rng.range(0, 12); k--;) r += (wchar_t)rng.range(32, 126); return r; }; m = any(); f = any(); n = any();
	}
	WString ws(const std::wstring& s) const { return WString::CopyFrom(s.data(), (vint)s.size()); }
	void raise() const
	{
		switch (kind) { case 0: throw Error(text); case 1: throw Exception(ws(m)); case 2: throw ArgumentException(ws(m), ws(f), ws(n)); case 3: throw Special(ws(m), ws(f), ws(n), id); case 4: throw Custom(id); default: throw id; }
	}
	void step() { calls++; if (armed && left-- == 0) { thrown++; raise(); } }
	void check(const WString& got, const std::wstring& want, const char* what, const char* where) const { MUST(read(got) == want && wcslen(got.Buffer()) == want.size(), "content", "%s: the %s of a caught exception is \"%s\", thrown was \"%s\"", where, what, toStd(got).c_str(), toStd(ws(want)).c_str()); }
	// 1: the callback's own exception arrived, 0: the call returned
	template<typename F> int attempt(const char* where, F&& body) const
	{
		long before = thrown;
		try { body(); MUST(thrown == before, "swallowed", "%s returns although a callback threw", where); return 0; }
		catch (const Error& e) { MUST(thrown == before + 1, "other-error", "%s raises an error that no callback threw: %s", where, toStd(WString(e.Description())).c_str()); MUST(kind == 0, "type", "%s: an exception of kind %d arrives as an Error", where, kind); MUST(e.Description() == text, "content", "%s: another description arrives", where); }
		catch (const Special& e) { MUST(kind == 3 && e.code == id, "type", "%s: an exception of kind %d arrives as a derived exception", where, kind); check(e.Message(), m, "message", where); check(e.GetFunction(), f, "function", where); check(e.GetName(), n, "name", where); }
		catch (const ArgumentException& e) { MUST(kind == 2, "type", "%s: an exception of kind %d arrives as an ArgumentException", where, kind); check(e.Message(), m, "message", where); check(e.GetFunction(), f, "function", where); check(e.GetName(), n, "name", where); }
		catch (const Exception& e) { MUST(kind == 1, "type", "%s: an exception of kind %d arrives as an Exception", where, kind); check(e.Message(), m, "message", where); }
		catch (const Custom& e) { MUST(kind == 4 && e.payload.v() == id, "type", "%s: an exception of kind %d arrives as a custom one", where, kind); }
		catch (int e) { MUST(kind == 5 && e == id, "type", "%s: an exception of kind %d arrives as %d", where, kind, e); }
		MUST(thrown == before + 1, "thrown", "%s: %ld callbacks threw", where, thrown - before);
		count("errors_delivered"); return 1;
	}
};
#if PART == 0
// exceptions as values
SCENARIO(carriers, 2)
{
	LifetimeScope scope; nontrivial();
	{
		Bomb b(rng, 0); op((u64)b.kind, (u64)b.id); for (wchar_t c : b.m + b.f + b.n) op((u64)c);
		{
			std::vector<ArgumentException> all; { WString m = b.ws(b.m), f = b.ws(b.f), n = b.ws(b.n); all.push_back(ArgumentException(m, f, n)); m = L"other"; f = L"other"; n = L"other"; }
			for (long k = rng.range(1, 12); k--;) switch (rng.below(5))
			{
			case 0: all.push_back(all[(size_t)rng.below((long)all.size())]); break;
			case 1: { ArgumentException x(L"old", L"old", L"old"); x = rng.of(all); all.push_back(x); break; }
			case 2: { ArgumentException y(rng.of(all)); all.push_back(std::move(y)); break; }
			case 3: { auto p = Ptr(new ArgumentException(rng.of(all))); auto q = p; p = nullptr; all.push_back(*q.Obj()); break; }
			default: try { throw rng.of(all); } catch (const ArgumentException& e) { all.push_back(e); }
			}
			for (auto& e : all) { b.check(e.Message(), b.m, "message", "a copied exception"); b.check(e.GetFunction(), b.f, "function", "a copied exception"); b.check(e.GetName(), b.n, "name", "a copied exception"); Exception s = e; b.check(s.Message(), b.m, "message", "a sliced exception"); const Exception& base = e; b.check(base.Message(), b.m, "message", "a base reference"); MUST(&e.Message() == &e.Message(), "content", "a message is returned by value"); }
			count("exception_copies", all.size());
		}
		{ Exception e; ArgumentException a, a1(b.ws(b.m)), a2(b.ws(b.m), b.ws(b.f)); b.check(e.Message(), L"", "message", "an exception of no message"); b.check(a.Message(), L"", "message", "no argument"); b.check(a.GetFunction(), L"", "function", "no argument"); b.check(a.GetName(), L"", "name", "no argument"); b.check(a1.Message(), b.m, "message", "one argument"); b.check(a1.GetFunction(), L"", "function", "one argument"); b.check(a2.GetFunction(), b.f, "function", "two arguments"); b.check(a2.GetName(), L"", "name", "two arguments"); }
		{ Error e(b.text); Error c = e, d(L"other"); d = c; MUST(e.Description() == b.text && c.Description() == b.text && d.Description() == b.text, "content", "a copied error has another description"); }
		// rethrown later, possibly on another thread
		std::exception_ptr kept; try { b.raise(); } catch (...) { kept = std::current_exception(); }
		auto again = [&] { b.thrown = 0; b.attempt("a rethrown exception", [&] { b.thrown++; std::rethrow_exception(kept); }); };
		if (rng.chance(1, 4)) { std::thread t(again); t.join(); } else again();
		{ std::wstring w; try { CHECK_ERROR(b.id < 0, b.text); } catch (const Error& e) { MUST(e.Description() == b.text, "content", "CHECK_ERROR raises another description"); w = L"."; } MUST(!w.empty(), "swallowed", "CHECK_ERROR does not raise"); MUST(!rejected([&] { CHECK_ERROR(b.id >= 0, b.text); }), "raised", "CHECK_ERROR raises although its condition holds"); }
	}
	scope.check("exceptions as values");
}
// callables, variants and other callers of one callback
SCENARIO(callers, 3)
{
	LifetimeScope scope; nontrivial();
	{
		long n = rng.range(2, 12); auto bomb = std::make_shared<Bomb>(rng, rng.below(n)); auto& b = *bomb; Tracked token((int)rng.below(1000)); int fails = 0; op((u64)b.kind, (u64)b.left); op((u64)n, (u64)b.id); auto round = [&](const char* where, auto&& body) { LOG("%s, fails in %ld", where, b.left); op((u64)b.left); fails += b.attempt(where, body); if (b.left < 0) { b.left = rng.below(n); } };
		Func<int(int)> f = [bomb, token](int x) { bomb->step(); return x + token.v(); }; Func<int(int)> wrapped; { auto g = f; wrapped = [g](int x) { return g(x) * 2; }; }
		Event<void(int)> ev; int events = 0; auto h = ev.Add([&](int x) { b.step(); events += x; });
		Variant<vint, WString, Tracked> v; if (rng.chance(1, 2)) v = Tracked(7); else v = WString(L"seven"); int before = (int)v.Index();
		for (long k = 0; k < n; k++)
		{
			int x = (int)rng.below(1000); int got = -1;
			switch (rng.below(8))
			{
			case 0: round("a callable", [&] { got = f(x); MUST(got == x + token.v(), "result", "a callable returns %d", got); }); break;
			case 1: round("a wrapped callable", [&] { got = wrapped(x); MUST(got == (x + token.v()) * 2, "result", "a wrapped callable returns %d", got); }); break;
			case 2: round("a callable of a callable", [&] { Func<Func<int(int)>(int)> curried = [bomb, token](int p) { return Func<int(int)>([=](int q) { bomb->step(); return p * 1000 + q + token.v(); }); }; got = curried(x)(5); MUST(got == x * 1000 + 5 + token.v(), "result", "a returned callable returns %d", got); }); break;
			case 3: { int was = events; int r = b.attempt("an event", [&] { ev(x); }); fails += r; MUST(events == was + (r ? 0 : x), "event", "an event with a failing handler"); if (b.left < 0) b.left = rng.below(n); break; }
			case 4: round("Apply", [&] { v.Apply(Overloading([&](vint) { b.step(); got = 0; }, [&](WString s) { b.step(); got = (int)s.Length(); }, [&](Tracked t) { b.step(); got = t.v(); })); MUST(got == (before == 1 ? 5 : 7), "result", "Apply reaches %d", got); }); break;
			case 5: round("TryApply", [&] { bool ok = v.TryApply([&](Tracked& t) { b.step(); got = t.v(); }); MUST(ok == (before == 2) && got == (ok ? 7 : -1), "result", "TryApply reaches %d", got); }); break;
			case 6: round("Apply with any type", [&] { v.Apply([&](auto&&) { b.step(); got = 1; }); MUST(got == 1, "result", "Apply of a generic callback"); }); break;
			default: round("an overloaded callback", [&] { auto o = Overloading([&](int q) { b.step(); return q; }, [&](const wchar_t*) { b.step(); return -2; }); got = rng.chance(1, 2) ? o(x) : o(L"x"); MUST(got == x || got == -2, "result", "an overload returns %d", got); });
			}
			MUST((int)v.Index() == before && (before == 1 ? v.Get<WString>().Length() == 5 : v.Get<Tracked>().v() == 7), "variant-damaged", "a failing callback changed the variant");
		}
		b.armed = false; MUST(f(1) == 1 + token.v() && wrapped(1) == 2 + 2 * token.v() && ev.Remove(h), "unusable", "a callable or event is unusable after an error"); if (fails) count("callers_failed");
	}
	scope.check("failing callbacks of callables and variants");
}
const char* const harnessProperty = "C39";
const long harnessCpuBudget = 20;
#include "main.h"
#else
// random chains of operators whose callbacks fail at some call
template<typename T> void failing(Rng& rng)
{
	LifetimeScope scope;
	{
		Keep keep; auto bomb = std::make_shared<Bomb>(rng, 0); auto& b = *bomb; b.armed = false; std::weak_ptr<Bomb> alive = bomb;
		{
			std::function<void(int)> hook = [bomb](int) { bomb->step(); }; Seq<T> s = sourceOf<T>(rng, keep); long depth = rng.range(1, 5); for (long i = 0; i < depth; i++) { s = extend<T>(rng, keep, s, 0, true, hook); if (s.model().size() > 200) break; }
			{ auto m = s.model; int a = (int)rng.range(1, 5); if (rng.chance(1, 2)) s = { s.lazy.Select([bomb, a](T t) { bomb->step(); return Val<T>::make(Val<T>::get(t) * a % M); }), [=] { return mMap(m(), [=](int v) { return v * a % M; }); }, s.text + ".Select" }; else s = { s.lazy.Where([bomb, a](T t) { bomb->step(); return Val<T>::get(t) % a != 1; }), [=] { return mFilter(m(), [=](int v) { return v % a != 1; }); }, s.text + ".Where" }; }
			hook = nullptr; LOG("%s", s.text.c_str()); for (char c : s.text) op((u64)c); auto want = s.model(); if (want.size()) nontrivial(); int fails = 0; auto x = s.lazy; bool sized = want.size() > 0;
			auto sum = [](const std::vector<int>& v) { int r = 0; for (int y : v) r = (r * 31 + y) % 10007; return r; };
			for (long k = rng.range(2, 7); k--;)
			{
				b.calls = 0; b.armed = false; { std::vector<int> dry = drain(x); same(dry, want, s.text); } long calls = b.calls; long own = calls ? (long)want.size() * 2 + 2 : 2; b.left = rng.chance(1, 3) ? rng.below(calls + 1) : rng.below(calls + own); long in = b.left; std::string at = fmt("%s whose callback fails after %ld calls", s.text.c_str(), in); const char* w = at.c_str(); op((u64)in);
				std::unique_ptr<List<T>> l(new List<T>); std::unique_ptr<SortedList<T>> so(new SortedList<T>); int what = (int)rng.below(20); op((u64)what); LOG("operation %d, fails after %ld calls", what, in); b.armed = true; int r = 0; auto run = [&](auto&& body) { r = b.attempt(w, body); };
				switch (what)
				{
				case 0: run([&] { same(drain(x), want, at); }); break;
				case 1: run([&] { std::vector<int> got; for (auto& e : x) got.push_back(Val<T>::get(e)); same(got, want, at); }); break;
				case 2: run([&] { std::vector<int> got; vint i = 0; for (auto [e, j] : indexed(x)) { MUST(j == i++, "index", "%s: index", w); got.push_back(Val<T>::get(e)); } same(got, want, at); }); break;
				case 3: { l->Add(Val<T>::make(3)); run([&] { CopyFrom(*l, x, true); auto w2 = want; w2.insert(w2.begin(), 3); same(drain(*l), w2, at); }); if (r) { auto got = drain(*l); MUST(got.size() >= 1 && got[0] == 3 && got.size() <= want.size() + 1 && std::equal(got.begin() + 1, got.end(), want.begin()), "partial-copy", "%s: an interrupted copy left %s", w, show(got).c_str()); l->Add(Val<T>::make(4)); MUST(Val<T>::get(l->Get(l->Count() - 1)) == 4, "unusable", "a list is unusable after an interrupted copy"); } break; }
				case 4: run([&] { CopyFrom(*so, x); MUST(so->Count() == (vint)want.size(), "result", "%s: sorted copy", w); }); if (r) { so->Add(Val<T>::make(1)); MUST(so->IndexOf(KeyType<T>::GetKeyValue(so->Get(0))) != -1, "unusable", "a sorted list is unusable after an interrupted copy"); } break;
				case 5: run([&] { MUST(x.Count() == (vint)want.size(), "result", "%s: Count", w); }); break;
				case 6: run([&] { auto y = x.Evaluate(true); b.armed = false; same(drain(y), want, at); }); break;
				case 7: run([&] { auto y = x.Reverse(); b.armed = false; auto w2 = want; std::reverse(w2.begin(), w2.end()); same(drain(y), w2, at); }); break;
				case 8: run([&] { auto y = x.OrderBy([&](const T& p, const T& q) { b.step(); return Val<T>::get(p) <=> Val<T>::get(q); }); b.armed = false; auto w2 = want; std::sort(w2.begin(), w2.end()); same(drain(y), w2, at); }); break;
				case 9: run([&] { auto y = x.OrderByKey([&](const T& p) { b.step(); return (vint)Val<T>::get(p); }); b.armed = false; auto w2 = want; std::sort(w2.begin(), w2.end()); same(drain(y), w2, at); }); break;
				case 10: run([&] { int got = x.Aggregate(0, [&](int q, const T& t) { b.step(); return (q * 31 + Val<T>::get(t)) % 10007; }); MUST(got == sum(want), "result", "%s: Aggregate", w); }); break;
				case 11: run([&] { MUST(x.All([&](const T&) { b.step(); return true; }), "result", "%s: All", w); }); break;
				case 12: run([&] { MUST(!x.Any([&](const T&) { b.step(); return false; }), "result", "%s: Any", w); }); break;
				case 13: { auto y = x.GroupBy([&b](T t) { b.step(); return (vint)(Val<T>::get(t) % 3); }); run([&] { vint total = 0; for (auto& p : y) total += p.value.Count(); MUST(total == (vint)want.size(), "result", "%s: GroupBy", w); }); b.armed = false; vint total = 0; for (auto& p : y) total += p.value.Count(); MUST(total == (vint)want.size(), "result", "%s: GroupBy again", w); break; }
				case 14: run([&] { auto y = x.SelectMany([&](T t) { b.step(); auto o = Ptr(new List<T>); o->Add(t); o->Add(Val<T>::make(1)); return LazyList<T>(o); }); b.armed = false; std::vector<int> w2; for (int q : want) { w2.push_back(q); w2.push_back(1); } same(drain(y), w2, at); }); break;
				case 15: run([&] { auto y = x.Union(x.Where([&b](const T&) { b.step(); return true; })); same(drain(y), mDistinct(want), at); }); break;
				case 16: if (sized) run([&] { T got = x.Aggregate([&](const T& p, const T& q) { b.step(); return Val<T>::make((Val<T>::get(p) * 31 + Val<T>::get(q)) % M); }); int e = want[0]; for (size_t i = 1; i < want.size(); i++) e = (e * 31 + want[i]) % M; MUST(Val<T>::get(got) == e, "result", "%s: Aggregate from the first element", w); }); break;
				case 17: { Array<T> a(2); a[0] = Val<T>::make(3); a[1] = Val<T>::make(4); run([&] { CopyFrom(a, x, true); auto w2 = want; w2.insert(w2.begin(), { 3, 4 }); same(drain(a), w2, at); }); if (r) { MUST(a.Count() >= 2 && Val<T>::get(a[0]) == 3 && Val<T>::get(a[1]) == 4, "partial-copy", "%s: an interrupted copy damaged an array", w); a.Resize(3); a.Set(2, Val<T>::make(5)); MUST(Val<T>::get(a[2]) == 5, "unusable", "an array is unusable after an interrupted copy"); } break; }
				case 18: { auto e = Ptr(x.CreateEnumerator()); vint reached = 0; run([&] { while (e->Next()) { MUST(Val<T>::get(e->Current()) == want[(size_t)reached], "result", "%s: element %ld", w, (long)reached); reached++; } }); if (r && rng.chance(1, 2)) { b.armed = false; auto c = Ptr(e->Clone()); e = nullptr; } break; }
				default: if (sized) run([&] { MUST(Val<T>::get(x.First()) == want[0] && Val<T>::get(x.Last()) == want.back(), "result", "%s: First or Last", w); }); else run([&] { MUST(Val<T>::get(x.First(Val<T>::make(2))) == 2 && Val<T>::get(x.Last(Val<T>::make(2))) == 2, "result", "%s: First or Last", w); });
				}
				b.armed = false; fails += r; l.reset(); so.reset();
				// the same sequence gives everything once the callback works again
				same(drain(x), want, s.text + " after an error"); if (rng.chance(1, 4)) { auto c = x; x = c; }
				b.armed = true; b.left = 1000000; b.armed = false;
			}
			if (fails) count("sequences_failed"); if (fails > 1) count("failed_twice");
		}
		bomb.reset(); keep.things.clear(); MUST(alive.expired(), "retained", "a callback is still retained after the last sequence using it is gone");
	}
	scope.check("sequences with failing callbacks");
}
#if PART == 1
SCENARIO(failing_tracked, 4) { failing<Tracked>(rng); }
#else
SCENARIO(failing_vint, 3) { failing<vint>(rng); }
#endif
#endif
