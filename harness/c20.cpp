// Strings that share buffers, used from several threads (each with its own string objects).
#include "threads.h"
using namespace H;
template<typename C> struct Both { ObjectString<C> s; std::basic_string<C> m; };
template<typename C> void stress(Rng& rng)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; int n = (int)rng.range(2, 6); long steps = rng.chance(1, 3) ? rng.range(1, 5) : rng.range(20, 120);
	long len = rng.range(0, 40); M base; for (long i = 0; i < len; i++) base += (C)('a' + rng.below(26)); static const C literal[] = { 's', 't', 'a', 't', 'i', 'c', 0 }; 
	struct Mail { std::mutex m; Both<C> b; }; auto mail = std::make_unique<std::vector<Mail>>(2);
	std::vector<std::vector<Both<C>>> own(n, std::vector<Both<C>>(4));
	{ S root = S::CopyFrom(base.data(), len); if (rng.chance(1, 2)) root.Buffer(); S lit = S::Unmanaged(literal); for (int t = 0; t < n; t++) { own[t][0] = { root, base }; long a = rng.range(0, len); own[t][1] = { root.Left(a), base.substr(0, a) }; own[t][2] = { root.Right(len - a), base.substr(a) }; own[t][3] = { lit, literal }; } }
	parallel(rng, n, (size_t)steps + 4, [&](int t, Rng& r, Interleaving& il)
	{
		auto& mine = own[t];
		auto check = [&](Both<C>& b) { if (b.s.Length() != (vint)b.m.size()) VIOLATION("length", "a string of thread %d has length %ld, expected %ld", t, (long)b.s.Length(), (long)b.m.size()); for (vint i = 0; i < b.s.Length(); i++) if (b.s[i] != b.m[i]) VIOLATION("content", "a string of thread %d has a wrong character at %ld", t, (long)i); };
		for (long k = 0; k < steps; k++)
		{
			auto& d = mine[r.below(4)]; auto& s = mine[r.below(4)]; long n = (long)s.m.size(), a = r.range(0, n), b = r.range(0, n - a);
			switch (r.below(13))
			{
			case 0: case 1: if (&d != &s) { d.s = s.s; d.m = s.m; } break;
			case 2: if (&d != &s) { d.s = std::move(s.s); d.m = s.m; s.m.clear(); s.s = S(); } break;
			case 3: d = { s.s.Left(a), s.m.substr(0, a) }; break;
			case 4: d = { s.s.Right(a), s.m.substr(n - a) }; break;
			case 5: d = { s.s.Sub(a, b), s.m.substr(a, b) }; break;
			case 6: if (n + d.m.size() < 200) { auto m = d.m + s.m; d.s = d.s + s.s; d.m = m; } break;
			case 7: { const C* p = d.s.Buffer(); if (M(p) != d.m) VIOLATION("buffer", "the raw text of thread %d is wrong", t); break; }
			case 8: { auto o = d.s <=> s.s; int w = d.m.compare(s.m); if ((o < 0) != (w < 0) || (o == 0) != (w == 0)) VIOLATION("compare", "a comparison of thread %d is wrong", t); break; }
			case 9: { auto& m = (*mail)[r.below(2)]; std::lock_guard<std::mutex> g(m.m); if (r.chance(1, 2)) m.b = d; else d = m.b; break; }
			case 10: d = { S(), M() }; break;
			case 11: if (n + d.m.size() < 200) { long at = r.range(0, (long)d.m.size()); auto m = d.m; m.insert(at, s.m); d.s = d.s.Insert(at, s.s); d.m = m; } break;
			default: { S c(s.s), e(c.Left(a)); c = S(); if (e.Length() != a) VIOLATION("length", "a temporary has a wrong length"); break; }
			}
			check(d); il.step(t); jitter(r);
		}
		for (auto& s : mine) { check(s); il.step(t); s = { S(), M() }; }
	});
	mail.reset(); own.clear(); op(len, n); count("runs");
}
SCENARIO(wide, 3) { stress<wchar_t>(rng); }
SCENARIO(narrow, 2) { stress<char>(rng); }
SCENARIO(u16, 1) { stress<char16_t>(rng); }
SCENARIO(u32, 1) { stress<char32_t>(rng); }
SCENARIO(u8, 1) { stress<char8_t>(rng); }
// all threads copy and cut the same string, which nobody modifies meanwhile
template<typename C> void common(Rng& rng)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; int n = (int)rng.range(2, 4); long rounds = rng.range(10, 60); S original; M text; Rendezvous meet(n); std::vector<std::vector<Both<C>>> kept(n); u64 seed = rng.next();
	parallel(rng, n, (size_t)rounds * 2, [&](int t, Rng& r, Interleaving& il)
	{
		auto check = [&](const S& s, const M& m, const char* what) { if (s.Length() != (vint)m.size()) VIOLATION("length", "%s has a wrong length", what); for (vint i = 0; i < s.Length(); i++) if (s[i] != m[i]) VIOLATION("text", "%s: character %ld is wrong", what, (long)i); };
		for (long i = 0; i < rounds; i++)
		{
			if (t == 0) { M m; long len = 1 + (long)(mix(seed + i) % 30); for (long j = 0; j < len; j++) m += (C)('a' + (j + i) % 26); text = m; original = S::CopyFrom(m.data(), len); }
			meet.meet(3 * i); long len = (long)text.size(), a = r.range(0, len), b = r.range(0, len - a);
			{ const S& o = original; S c(o); il.step(t); S d = r.chance(1, 2) ? o.Sub(a, b) : S(o.Sub(a, b)); S e; e = o; if (r.chance(1, 2)) c = S(); else check(c, text, "a copy of the common original"); check(d, text.substr(a, b), "a part of the common original"); check(e, text, "an assigned copy"); if (r.chance(1, 2)) kept[t].push_back({ std::move(d), text.substr(a, b) }); }
			il.step(t); meet.meet(3 * i + 1); if (t == 0) { check(original, text, "the common original"); original = S(); }
			meet.meet(3 * i + 2); for (auto& x : kept[t]) { check(x.s, x.m, "a kept part"); if (M(x.s.Buffer()) != x.m) VIOLATION("buffer", "the raw text of a kept part is wrong"); } if (r.chance(1, 2)) kept[t].clear();
		}
	});
	count("common_rounds", rounds); op(rounds, n);
}
SCENARIO(common_wide, 2) { common<wchar_t>(rng); }
SCENARIO(common_narrow, 2) { common<char>(rng); }
const char* const harnessProperty = "C20";
const long harnessCpuBudget = 60;
#include "main.h"
