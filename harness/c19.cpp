// Strings as immutable values: random histories over slots that share buffers.
#include "text.h"
using namespace H;
template<typename C> struct Slots
{
	using S = ObjectString<C>; using M = std::basic_string<C>;
	using P = std::conditional_t<std::is_same_v<C, wchar_t>, char32_t, std::conditional_t<std::is_same_v<C, char32_t>, wchar_t, std::conditional_t<std::is_same_v<C, char>, char8_t, std::conditional_t<std::is_same_v<C, char8_t>, char, char16_t>>>>;
	static constexpr int N = 6;
	S s[N]; M m[N]; const C* held[N] = {}; Rng& r; std::vector<std::unique_ptr<Exact<C>>> unmanaged;
	long longest = 40, limit = 400;
	Slots(Rng& _r) : r(_r) {}
	void put(int i, S x, M y) { s[i] = std::move(x); m[i] = std::move(y); held[i] = nullptr; }
	void check(const char* what)
	{
		for (int i = 0; i < N; i++)
		{
			mustBe(s[i], m[i], "content", what);
			if (held[i]) { for (size_t k = 0; k < m[i].size(); k++) MUST(held[i][k] == m[i][k], "raw-text", "%s: raw text obtained earlier from an unchanged string differs at %zu", what, k); MUST(held[i][m[i].size()] == 0, "raw-text", "%s: raw text obtained earlier lost its terminating zero", what); }
		}
		MUST(S::Empty.Length() == 0, "empty-constant", "the Empty constant is not empty"); count("states_compared");
	}
	static void raw(const S& x, const M& y, const char* what) { const C* p = x.Buffer(); for (size_t k = 0; k < y.size(); k++) MUST(p[k] == y[k], "raw-text", "%s: raw text differs at %zu", what, k); MUST(p[y.size()] == 0, "raw-text", "%s: raw text of length %zu is not terminated", what, y.size()); }
	void step()
	{
		int d = (int)r.below(N), a = (int)r.below(N), b = (int)r.below(N); long n = (long)m[a].size(); const char* what = "";
		long i = r.range(0, n), c = r.range(0, n - i); bool big = n + (long)m[b].size() > limit; int k = (int)r.below(31); if (big && (k == 9 || k == 10 || k == 11 || k == 12 || k == 13 || k == 18 || k == 24 || k == 27 || k == 29)) k = 6;
		switch (k)
		{
		case 0: { what = "construct from text"; M t = anyText<C>(r, longest); Exact<C> e(t); put(d, S(e.get()), t); break; }
		case 1: { what = "CopyFrom"; M t = anyText<C>(r, longest); Exact<C> e(t, false); put(d, S::CopyFrom(e.get(), e.n), t); break; }
		case 2: { what = "TakeOver"; M t = anyText<C>(r, longest); C* p = new C[t.size() + 1]; for (size_t x = 0; x < t.size(); x++) p[x] = t[x]; p[t.size()] = 0; put(d, S::TakeOver(p, t.size()), t); break; }
		case 3: { what = "FromChar"; C ch = anyChar<C>(r); put(d, S::FromChar(ch), M(1, ch)); break; }
		case 4: { what = "Unmanaged"; M t = anyText<C>(r, longest); unmanaged.push_back(std::make_unique<Exact<C>>(t)); S u = S::Unmanaged(unmanaged.back()->get()); put(d, u, t); break; }
		case 5: what = "copy"; if (r.chance(1, 2)) { s[d] = s[a]; m[d] = m[a]; if (d != a) held[d] = nullptr; } else { S x(s[a]); put(d, x, m[a]); } break;
		case 6: what = "Left"; put(d, s[a].Left(i), m[a].substr(0, i)); break;
		case 7: what = "Right"; put(d, s[a].Right(i), m[a].substr(n - i)); break;
		case 8: what = "Sub"; put(d, s[a].Sub(i, c), m[a].substr(i, c)); break;
		case 9: { what = "+"; S x = s[a] + s[b]; M y = m[a] + m[b]; put(d, x, y); break; }
		case 10: { what = "+ text"; M t = anyText<C>(r, 12); S x; { Exact<C> e(t); x = s[a] + e.get(); } M y = m[a] + t; put(d, x, y); break; }
		case 11: { what = "text +"; M t = anyText<C>(r, 12); S x; { Exact<C> e(t); x = e.get() + s[a]; } M y = t + m[a]; put(d, x, y); break; }
		case 12: { what = "+="; M y = m[a] + m[b]; S& z = (s[a] += s[b]); MUST(&z == &s[a], "append-result", "+= does not return the string itself"); m[a] = y; held[a] = nullptr; break; }
		case 13: { what = "+= text"; M t = anyText<C>(r, 12); { Exact<C> e(t); s[a] += e.get(); } m[a] += t; held[a] = nullptr; break; }
		case 14: what = "Remove"; if (n > 0) { i = r.range(0, n - 1); c = r.range(0, n - i); if (r.chance(1, 6)) c = n - i; M y = m[a]; y.erase(i, c); put(d, s[a].Remove(i, c), y); } break;
		case 15: what = "Insert"; if (!big) { M y = m[a]; y.insert(i, m[b]); put(d, s[a].Insert(i, s[b]), y); } break;
		case 16: { what = "IndexOf"; C ch = n && r.chance(2, 3) ? m[a][r.below(n)] : r.chance(1, 6) ? (C)0 : anyChar<C>(r); auto p = m[a].find(ch); long w = p == M::npos ? -1 : (long)p; long g = (long)s[a].IndexOf(ch); MUST(g == w, "find", "IndexOf gives %ld, expected %ld in \"%s\"", g, w, shown(m[a]).c_str()); break; }
		case 17: { what = "Buffer"; raw(s[a], m[a], what); held[a] = s[a].Buffer(); raw(s[a], m[a], what); count("raw_text_checked"); break; }
		case 18: { what = "nested"; S x = s[a].Left(i).Right(i / 2) + s[b]; M y = m[a].substr(0, i).substr(i - i / 2) + m[b]; put(d, x, y); break; }
		case 19: { what = "move"; S x(std::move(s[a])); M y = m[a]; MUST(s[a].Length() == 0, "moved-from", "a moved-from string has length %ld", (long)s[a].Length()); raw(s[a], M(), "moved-from"); m[a].clear(); held[a] = nullptr; put(d, std::move(x), y); count("moves"); break; }
		case 20: if (a != d) { what = "move assign"; s[d] = std::move(s[a]); m[d] = m[a]; MUST(s[a].Length() == 0, "moved-from", "a moved-from string has length %ld", (long)s[a].Length()); raw(s[a], M(), "moved-from"); m[a].clear(); held[a] = held[d] = nullptr; count("moves"); } break;
		case 21: { what = "cast"; auto x = ObjectString<P>::UnsafeCastFrom(s[a]); auto y = x.Sub(i, c); MUST(x.Length() == n, "cast", "the length changed by a cast"); for (long q = 0; q < n; q++) MUST((C)x[q] == m[a][q], "cast", "the text changed by a cast at %ld", q); if (r.chance(1, 2)) x.Buffer(); if (r.chance(1, 2)) x = {}; put(d, S::UnsafeCastFrom(y), m[a].substr(i, c)); count("casts"); break; }
		case 22: { what = "cut of a cut"; S x = s[a].Sub(i, c); long j = r.range(0, c), e = r.range(0, c - j); if (r.chance(1, 2)) raw(x, m[a].substr(i, c), what); S y = x.Sub(j, e); if (r.chance(1, 2)) x = S(); if (r.chance(1, 2)) raw(y, m[a].substr(i + j, e), what); put(d, y, m[a].substr(i + j, e)); count("cuts_of_cuts"); break; }
		case 27: { what = "append own raw text"; if (m[a].find((C)0) != M::npos) break; s[a] += s[a].Buffer(); m[a] += m[a]; held[a] = nullptr; count("own_text"); break; }
		case 28: { what = "move to itself"; S& z = s[a]; S& q = (z = std::move(s[a])); MUST(&q == &s[a], "assign-result", "= does not return the string itself"); held[a] = nullptr; break; }
		case 29: { what = "insert into itself"; M y = m[a]; y.insert(i, m[a]); s[a] = s[a].Insert(i, s[a]); m[a] = y; held[a] = nullptr; count("own_text"); break; }
		case 30: { what = "text with zeros"; M t = anyText<C>(r, longest); for (auto& ch : t) if (r.chance(1, 6)) ch = 0; if (r.chance(1, 2)) { Exact<C> e(t, false); put(d, S::CopyFrom(e.get(), e.n), t); } else { C* p = new C[t.size() + 1]; for (size_t x = 0; x < t.size(); x++) p[x] = t[x]; p[t.size()] = 0; put(d, S::TakeOver(p, t.size()), t); } count("embedded_zeros"); break; }
		case 23: what = "drop"; put(d, S(), M()); break;
		case 24: { what = "same"; S x = s[a] + s[a]; put(a, x, m[a] + m[a]); s[a] = s[a]; break; }
		case 25: { what = "pass through a list"; List<S> xs; for (int q = 0; q < N; q++) xs.Add(s[q]); xs.RemoveAt(0); xs.Insert(2, s[a]); mustBe(xs[2], m[a], "content", what); put(d, xs[2], m[a]); break; }
		case 26: { what = "rebuild by character"; S x; M y; for (long q = 0; q < n && q < 12 && m[a][q]; q++) { x += S::FromChar(s[a][q]); y += m[a][q]; } put(d, x, y); break; }
		}
		op((u64)k, m[d].size()); LOG("%s: slot %d from %d,%d -> \"%s\"", what, d, a, b, shown(m[d]).c_str()); check(what);
	}
};
template<typename C> void history(Rng& rng) { Slots<C> x(rng); long n = rng.range(10, 80); if (rng.chance(1, 20)) { x.longest = rng.pick({ 300L, 1100L, 2500L }); x.limit = 6000; n /= 2; count("long_histories"); if (rng.chance(1, 4)) { x.longest = rng.pick({ 33000L, 66000L, 70000L }); x.limit = 200000; n = rng.range(6, 16); count("giant_histories"); } } size_t top = 0; for (long i = 0; i < n; i++) { x.step(); for (auto& y : x.m) top = std::max(top, y.size()); } if (top > 5) nontrivial(); }
// texts of up to 300,000 characters in which every position is told apart
template<typename C> void giantText(Rng& rng)
{
	using S = ObjectString<C>; using M = std::basic_string<C>; long n = rng.chance(1, 2) ? rng.range(100, 4000) : rng.pick({ 32767L, 65535L, 131071L }) + rng.range(-2, 3); if (rng.chance(1, 6)) n = rng.range(40000, 300000); op((u64)n, sizeof(C)); nontrivial();
	auto at = [](long i) { return (C)(1 + (i * 7 + i / 113 * 3 + i / 7919) % 96); }; M m; m.reserve((size_t)n + 1); for (long i = 0; i < n; i++) m += at(i); C mark = (C)100, other = (C)101; long p = rng.chance(1, 2) ? n - 1 - rng.below(std::min(n, 100L)) : rng.below(n); m[(size_t)p] = mark;
	auto raw = [](const S& x, const M& y, const char* what) { MUST(x.Length() == (vint)y.size(), "content", "%s of a long text has length %ld, expected %zu", what, (long)x.Length(), y.size()); const C* b = x.Buffer(); MUST(!memcmp(b, y.data(), y.size() * sizeof(C)) && b[y.size()] == 0, "content", "%s of a long text of %zu characters is wrong", what, y.size()); count("long_texts"); };
	S s = rng.chance(1, 2) ? S::CopyFrom(m.data(), n) : S(m.c_str()); if (rng.chance(1, 2)) raw(s, m, "construction"); MUST(s.IndexOf(mark) == p && s.IndexOf(other) == -1, "find", "a character at %ld of %ld is found at %ld", p, n, (long)s.IndexOf(mark)); MUST(s[n - 1] == m[(size_t)n - 1] && s[p] == mark, "content", "a character of a long text is wrong");
	long i = rng.chance(1, 2) ? n - rng.below(std::min(n, 300L)) : rng.range(0, n), c = rng.range(0, n - i); S cut = s.Sub(i, c); M mc = m.substr(i, c); if (rng.chance(1, 2)) raw(s.Left(i), m.substr(0, i), "Left"); if (rng.chance(1, 2)) raw(s.Right(n - i), m.substr(i), "Right"); MUST(cut.IndexOf(mark) == (p >= i && p < i + c ? p - i : -1), "find", "a character of a cut of a long text is not found"); { S x = cut + s; M y = mc + m; raw(x, y, "concatenation"); } raw(cut, mc, "Sub"); { S x = s.Right(n - i).Left(c); MUST((x <=> cut) == 0, "content", "two ways to the same part of a long text differ"); raw(x, mc, "Right and Left"); }
	if (n > 1) { long q = rng.below(n), e = rng.range(0, n - q); M y = m; y.erase((size_t)q, (size_t)e); raw(s.Remove(q, e), y, "Remove"); } { M y = m; y.insert((size_t)i, mc); raw(s.Insert(i, s.Sub(rng.range(0, 0), 0) + mc.c_str()), y, "Insert"); } raw(s, m, "the original");
}
SCENARIO(wide, 3) { history<wchar_t>(rng); }
SCENARIO(giant_texts, 1) { if (!rng.chance(1, 3)) { history<wchar_t>(rng); return; } switch (rng.below(4)) { case 0: giantText<wchar_t>(rng); break; case 1: giantText<char>(rng); break; case 2: giantText<char16_t>(rng); break; default: giantText<char8_t>(rng); } }
SCENARIO(narrow, 2) { history<char>(rng); }
SCENARIO(u8, 1) { history<char8_t>(rng); }
SCENARIO(u16, 1) { history<char16_t>(rng); }
SCENARIO(u32, 1) { history<char32_t>(rng); }
// very many strings sharing one buffer at once
SCENARIO(crowd, 1)
{
	using S = WString; using M = std::wstring; if (!rng.chance(1, 4)) { history<wchar_t>(rng); return; } long n = rng.chance(1, 30) ? rng.range(30000, 140000) : rng.chance(1, 4) ? rng.range(1000, 9000) : rng.range(20, 700); M t = anyText<wchar_t>(rng, 30) + L"common"; for (auto& ch : t) if (!ch) ch = L'z'; op((u64)n, t.size()); nontrivial(); std::vector<S> a; std::vector<std::pair<long, long>> cut; a.reserve((size_t)n + 1);
	{ S first(t.c_str()); for (long i = 0; i < n; i++) { long b = rng.below((long)t.size()), c = rng.range(0, (long)t.size() - b); switch (rng.below(4)) { case 0: a.push_back(first); b = 0; c = (long)t.size(); break; case 1: { S x; x = first; a.push_back(std::move(x)); b = 0; c = (long)t.size(); break; } case 2: { long k = a.empty() ? 0 : rng.below((long)a.size()); if (a.empty()) { a.push_back(first.Left(c)); b = 0; } else { auto [fb, fc] = cut[k]; c = rng.range(0, fc); b = fb + fc - c; a.push_back(a[k].Right(c)); } break; } default: a.push_back(first.Sub(b, c)); } cut.push_back({ b, c }); } }
	auto judge = [&](size_t k) { MUST(a[k] == S(t.substr(cut[k].first, cut[k].second).c_str()), "content", "one of %ld strings cut from one text changed", n); };
	for (size_t k = 0; k < a.size(); k += 1 + (size_t)rng.below(5)) judge(k); int front = (int)rng.below(2); size_t dropped = 0; while (dropped + 1 < (size_t)n) { size_t k = front ? dropped : (size_t)n - 1 - dropped; if (rng.chance(1, 2)) a[k] = S(); else a[k] = S(L"other"); dropped++; size_t last = front ? (size_t)n - 1 : 0; if (dropped % 64 == 0 || dropped + 300 > (size_t)n) judge(last); }
	count("crowds"); count("crowd_owners", (u64)n);
}
SCENARIO(every_cut, 1)
{
	// every cut position and length of one short string, both as an original and as a cut
	using S = WString; using M = std::wstring; M t = anyText<wchar_t>(rng, 12); S o = S::CopyFrom(t.data(), t.size()); long pre = rng.range(0, 3); M pad(pre, L'<'); S big = S((pad + t + M(3, L'>')).c_str()); S x = rng.chance(1, 2) ? o : big.Sub(pre, t.size()); long n = (long)t.size(); if (n) nontrivial();
	for (long i = 0; i <= n; i++) for (long c = 0; c <= n - i; c++)
	{
		S y = x.Sub(i, c); M w = t.substr(i, c); mustBe(y, w, "content", "Sub"); if (rng.chance(1, 3)) Slots<wchar_t>::raw(y, w, "Sub"); mustBe(y, w, "content", "Sub after raw");
		if (c < n && i < n) { M v = t; v.erase(i, c); mustBe(x.Remove(i, c), v, "content", "Remove"); } if (c == n && n) mustBe(x.Remove(i, c), M(), "content", "Remove all"); M v = t; v.insert(i, w); mustBe(x.Insert(i, y), v, "content", "Insert"); op((u64)i, c); count("states_compared");
	}
	mustBe(x, t, "content", "original"); mustBe(big, pad + t + M(3, L'>'), "content", "outer original");
}
const char* const harnessProperty = "C19";
const long harnessCpuBudget = 60;
#include "main.h"
