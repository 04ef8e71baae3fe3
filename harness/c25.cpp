// Numbers and text, against an independent formatter and parser.
#include "text.h"
#include <cmath>
#include <cfloat>
#include "Strings/Conversion.h"
using namespace H;
typedef unsigned __int128 u128;
static std::string digits(u128 v) { std::string r; do { r.insert(r.begin(), (char)('0' + (int)(v % 10))); v /= 10; } while (v); return r; }
static std::string format(bool neg, u128 mag) { return neg ? "-" + digits(mag) : digits(mag); }
static std::string format(int64_t v) { return v < 0 ? format(true, (u128)0 - (u128)(__int128)v) : format(false, (u128)v); }
static std::wstring widen(const std::string& s) { std::wstring w; for (unsigned char c : s) w += (wchar_t)c; return w; }
struct Num { bool ok = false, neg = false; u128 mag = 0; };
// canonical decimal text: optional minus, no leading zero, no minus zero
static Num canonical(const std::string& s, bool isSigned)
{
	Num n; size_t i = 0; if (s.empty()) return n; if (s[0] == '-') { if (!isSigned) return n; n.neg = true; i = 1; } if (i == s.size()) return n; if (s[i] == '0' && (s.size() > i + 1 || n.neg)) return n; if (s.size() - i > 30) return n;
	for (; i < s.size(); i++) { if (s[i] < '0' || s[i] > '9') return n; n.mag = n.mag * 10 + (unsigned)(s[i] - '0'); } n.ok = true; return n;
}
static u128 pow2(int k) { return (u128)1 << k; }
// string objects in several constructions, so that the text is not always followed by a zero in its buffer
template<typename C> ObjectString<C> make(Rng& r, const std::basic_string<C>& t) { if (r.chance(1, 2)) return ObjectString<C>::CopyFrom(t.data(), t.size()); std::basic_string<C> big = std::basic_string<C>(1, (C)'7') + t + std::basic_string<C>(2, (C)'8'); return ObjectString<C>(big.c_str()).Sub(1, t.size()); }
template<typename V, typename FA, typename FW, typename GA, typename GW> void parse(Rng& rng, const std::string& s, const char* name, bool isSigned, int bits, FA fa, FW fw, GA ga, GW gw)
{
	Num n = canonical(s, isSigned); bool ok = n.ok && (isSigned ? (n.neg ? n.mag <= pow2(bits - 1) : n.mag < pow2(bits - 1)) : n.mag < pow2(bits)); V want = ok ? (V)(n.neg ? (u128)0 - n.mag : n.mag) : 0;
	auto a = make<char>(rng, s); auto w = make<wchar_t>(rng, widen(s)); bool sa = !ok, sw = !ok; V va = fa(a, sa), vw = fw(w, sw);
	MUST(sa == ok, ok ? "refused" : "accepted", "%s_test reports %d for \"%s\"", name, (int)sa, s.c_str()); MUST(sw == ok, ok ? "refused" : "accepted", "wide %s_test reports %d for \"%s\"", name, (int)sw, s.c_str());
	if (ok) { MUST(va == want && vw == want, "value", "%s_test gives a wrong value for \"%s\"", name, s.c_str()); count("accepted_texts"); } else count("refused_texts");
	MUST(ga(a) == want, "value", "%s gives a wrong value for \"%s\"", name, s.c_str()); MUST(gw(w) == want, "value", "wide %s gives a wrong value for \"%s\"", name, s.c_str()); mustBe(a, s, "source", "the parsed text"); op(ok, s.size());
}
static void parseAll(Rng& rng, const std::string& s)
{
	parse<vint>(rng, s, "atoi", true, 32, atoi_test, wtoi_test, (vint(*)(const AString&))vl::atoi, vl::wtoi); parse<vint64_t>(rng, s, "atoi64", true, 64, atoi64_test, wtoi64_test, vl::atoi64, vl::wtoi64);
	parse<vuint>(rng, s, "atou", false, 32, atou_test, wtou_test, vl::atou, vl::wtou); parse<vuint64_t>(rng, s, "atou64", false, 64, atou64_test, wtou64_test, vl::atou64, vl::wtou64);
}
static uint64_t anyBits(Rng& r)
{
	switch (r.below(6)) { case 0: return (uint64_t)r.range(-20, 20); case 1: return r.next(); case 2: return (uint64_t)(1ull << r.below(64)) + (uint64_t)r.range(-3, 3); case 3: { uint64_t p = 1; for (long k = r.below(20); k--;) p *= 10; return (r.chance(1, 2) ? p : 0 - p) + (uint64_t)r.range(-2, 2); } case 4: return (uint64_t)(r.next() >> r.below(64)); default: return 0 - (uint64_t)(r.next() >> r.below(64)); }
}
SCENARIO(format_integers, 3)
{
	for (int k = 0; k < 12; k++)
	{
		uint64_t x = anyBits(rng); int64_t i = (int64_t)x; std::string si = format(i), su = format(false, x); LOG("%s %s", si.c_str(), su.c_str()); op(x); nontrivial(); auto W = [](const std::string& s) { return widen(s); };
		mustBe(vl::itoa((vint)i), si, "format", "itoa"); mustBe(vl::itow((vint)i), W(si), "format", "itow"); mustBe(i64toa(i), si, "format", "i64toa"); mustBe(i64tow(i), W(si), "format", "i64tow"); mustBe(utoa((vuint)x), su, "format", "utoa"); mustBe(utow((vuint)x), W(su), "format", "utow"); mustBe(u64toa(x), su, "format", "u64toa"); mustBe(u64tow(x), W(su), "format", "u64tow");
		bool s; s = false; MUST(atoi64_test(i64toa(i), s) == i && s && wtoi64_test(i64tow(i), s) == i && s, "round-trip", "%s does not survive formatting and parsing", si.c_str()); s = false; MUST(atou64_test(u64toa(x), s) == x && s && wtou64_test(u64tow(x), s) == x && s, "round-trip", "%s does not survive formatting and parsing", su.c_str());
		vint j = (vint)(int32_t)i; s = false; MUST(atoi_test(vl::itoa(j), s) == j && s && wtoi_test(vl::itow(j), s) == j && s, "round-trip", "%ld does not survive formatting and parsing", (long)j); vuint u = (vuint)(uint32_t)x; s = false; MUST(atou_test(utoa(u), s) == u && s && wtou_test(utow(u), s) == u && s, "round-trip", "%lu does not survive formatting and parsing", (unsigned long)u); count("integers_formatted");
	}
}
static std::string numeral(Rng& r)
{
	std::string s; int base = (int)r.below(5);
	if (base == 0) s = format((int64_t)anyBits(r)); else if (base == 1) s = format(false, anyBits(r)); else if (base == 2) { static const u128 edges[] = { pow2(31), pow2(32), pow2(63), pow2(64) }; u128 e = edges[r.below(4)] + (u128)(__int128)r.range(-2, 2); s = format(r.chance(1, 2), e); } else if (base == 3) { long n = r.range(0, 30); for (long i = 0; i < n; i++) s += (char)('0' + r.below(10)); } else { long n = r.range(0, 6); for (long i = 0; i < n; i++) s += "0123456789-+ .xeab\t\n"[r.below(20)]; }
	if (r.chance(1, 2)) for (long k = r.range(1, 2); k--;) { long at = r.range(0, (long)s.size()); switch (r.below(8)) { case 0: s.insert(0, "0"); break; case 1: s.insert(0, " "); break; case 2: s.insert(0, "+"); break; case 3: s.insert(0, "-"); break; case 4: s += r.pick<const char*>({ " ", "a", ".", ".0", "e1", "\n", "-", "0" }); break; case 5: if (s.size()) s.erase(r.below((long)s.size()), 1); break; case 6: s.insert(at, 1, "0123456789 -+x."[r.below(15)]); break; default: s = s.substr(0, at); } }
	return s;
}
SCENARIO(parse_integers, 4) { for (int k = 0; k < 12; k++) { std::string s = numeral(rng); LOG("\"%s\"", esc(s).c_str()); if (s.size()) nontrivial(); for (char c : s) op((u64)c); parseAll(rng, s); } }
SCENARIO(small_texts, 1) { /* every text of up to 3 characters over the relevant ones, in blocks */ static const char al[] = "0129-+ .a"; long n = rng.below(9); std::string s; parseAll(rng, s); for (int a = 0; a < 9; a++) { s = std::string() + al[n] + al[a]; parseAll(rng, s); for (int b = 0; b < 9; b++) parseAll(rng, s + al[b]); } parseAll(rng, std::string(1, al[n])); nontrivial(); }
static std::string floatText(Rng& r)
{
	switch (r.below(6))
	{
	case 0: { char b[400]; double d; uint64_t x = r.next(); memcpy(&d, &x, 8); snprintf(b, sizeof b, r.pick<const char*>({ "%g", "%.17g", "%f", "%a", "%e" }), d); return b; }
	case 1: { std::string s; long n = r.range(0, 8); for (long i = 0; i < n; i++) s += "0123456789.-+eE xpInfa"[r.below(22)]; return s; }
	case 2: return r.pick<const char*>({ "", " ", "-", ".", "e", "0", "-0", ".5", "5.", "1e", "1e+", "1e5", "1e400", "-1e400", "1e-400", "inf", "-inf", "nan", "infinity", "0x1p3", "0x", "1 ", " 1", "1.5.5", "1,5", "--1", "+1", "1e5x", "00.10" });
	case 3: return std::to_string(r.range(-1000000, 1000000)) + r.pick<const char*>({ "", ".25", ".", "e3", "E-2", " ", "x", "..", ".1e1" });
	case 4: { std::string s = std::to_string(r.range(0, 1000)); long n = r.range(1, 40); s += '.'; while (n--) s += (char)('0' + r.below(10)); return s; }
	default: return numeral(r);
	}
}
static bool same(double a, double b) { return std::isnan(a) ? std::isnan(b) : a == b && std::signbit(a) == std::signbit(b); }
SCENARIO(parse_floats, 2)
{
	for (int k = 0; k < 12; k++)
	{
		std::string s = floatText(rng); for (char c : s) op((u64)c); LOG("\"%s\"", esc(s).c_str()); if (s.size()) nontrivial(); char* end = nullptr; double want = strtod(s.c_str(), &end); bool ok = !s.empty() && end == s.c_str() + s.size();
		auto a = make<char>(rng, s); auto w = make<wchar_t>(rng, widen(s)); bool sa = !ok, sw = !ok; double va = atof_test(a, sa), vw = wtof_test(w, sw); MUST(sa == ok, "float-report", "atof_test reports %d for \"%s\"", (int)sa, s.c_str()); MUST(sw == ok, "float-report", "wtof_test reports %d for \"%s\"", (int)sw, s.c_str());
		if (ok) MUST(same(va, want) && same(vw, want), "float-value", "atof_test or wtof_test gives a wrong value for \"%s\"", s.c_str()); double z = ok ? want : 0; MUST(same(vl::atof(a), z) && same(vl::wtof(w), z), "float-value", "atof or wtof gives a wrong value for \"%s\"", s.c_str()); count(ok ? "floats_accepted" : "floats_refused");
	}
}
SCENARIO(format_floats, 1)
{
	for (int k = 0; k < 8; k++)
	{
		double d; switch (rng.below(5)) { case 0: d = (double)rng.range(-1000000, 1000000); break; case 1: d = (double)rng.range(-1000000000, 1000000000) / rng.pick<double>({ 2, 4, 8, 10, 100, 1000, 1e6 }); break; case 2: { uint64_t x = rng.next(); memcpy(&d, &x, 8); break; } case 3: d = rng.pick<double>({ 0.0, -0.0, DBL_MAX, -DBL_MAX, DBL_MIN, 1e15, 1e16, 1e22, 1e300, 0.1, 0.000001, -0.5, INFINITY, -INFINITY, NAN }); break; default: d = (double)(int64_t)anyBits(rng); }
		AString a = vl::ftoa(d); WString w = vl::ftow(d); auto t = read(a); uint64_t b; memcpy(&b, &d, 8); op(b); nontrivial(); LOG("%.17g -> %s", d, t.c_str()); MUST(t.size() > 0 && read(w) == widen(t), "float-format", "ftow and ftoa disagree on %.17g", d); count("floats_formatted");
		if (std::isfinite(d)) { char* end; double back = strtod(t.c_str(), &end); MUST(*end == 0, "float-format", "ftoa(%.17g) = \"%s\" is not a numeral", d, t.c_str()); MUST(std::fabs(back - d) <= 5.1e-7 || back == d, "float-format", "ftoa(%.17g) = \"%s\" is too far off", d, t.c_str()); if (d == std::floor(d) && std::fabs(d) < 1e15 && d != 0) MUST(t == format((int64_t)d), "float-format", "ftoa(%.17g) = \"%s\" for an integer", d, t.c_str()); }
	}
}
const char* const harnessProperty = "C25";
const long harnessCpuBudget = 60;
#include "main.h"
