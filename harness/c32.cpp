// Dates against an independent proleptic Gregorian calendar and an independent evaluation of POSIX time zone rules.
#include "threads.h"
#include "Primitives/DateTime.h"
#include <time.h>
using namespace H;
using ll = long long;
static ll daysOf(ll y, ll m, ll d) { y -= m <= 2; ll era = (y >= 0 ? y : y - 399) / 400; ll yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void civil(ll z, ll& y, ll& m, ll& d) { z += 719468; ll era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153; d = doy - (153 * mp + 2) / 5 + 1; m = mp + (mp < 10 ? 3 : -9); y = yoe + era * 400 + (m <= 2); }
static ll floorDiv(ll a, ll b) { ll q = a / b; return a % b < 0 ? q - 1 : q; }
static ll floorMod(ll a, ll b) { return a - floorDiv(a, b) * b; }
struct Rule { int month, week, day; ll at; ll wall(ll year) const { ll first = daysOf(year, month, 1), wd = floorMod(first + 4, 7); ll d = first + floorMod(day - wd, 7) + (week - 1) * 7; if (week == 5) { ll next = month == 12 ? daysOf(year + 1, 1, 1) : daysOf(year, month + 1, 1); while (d >= next) d -= 7; } return d * 86400 + at; } };
struct Zone
{
	std::string tz; ll off; bool dst = false; ll dstOff = 0; Rule from{}, to{};
	ll on(ll year) const { return from.wall(year) - off; } ll back(ll year) const { return to.wall(year) - dstOff; }
	static ll yearOf(ll t) { ll y, m, d; civil(floorDiv(t, 86400), y, m, d); return y; }
	ll offset(ll t) const { if (!dst) return off; ll y = yearOf(t + off); ll a = on(y), b = back(y); bool in = a < b ? (a <= t && t < b) : (t < b || t >= a); return in ? dstOff : off; }
	bool near(ll t) const { if (!dst) return false; ll y = yearOf(t); for (ll k = y - 1; k <= y + 1; k++) if (llabs(t - on(k)) < 2 * 86400 || llabs(t - back(k)) < 2 * 86400) return true; return false; }
	ll instant(ll local) const { ll t = local - off; if (offset(t) == off) return t; return local - dstOff; }
};
static std::string hhmm(ll s) { ll a = llabs(s); return fmt("%s%lld:%02lld", s < 0 ? "-" : "", a / 3600, a / 60 % 60); }
static Zone makeZone(Rng& r)
{
	Zone z; int k = (int)r.below(10);
	if (k == 0) { z.tz = "UTC0"; z.off = 0; return z; }
	if (k <= 3) { z.off = r.range(-12 * 4, 14 * 4) * 900; z.tz = "<XST>" + hhmm(-z.off); return z; }
	z.dst = true;
	if (k == 4) { z.tz = "EST5EDT,M3.2.0,M11.1.0"; z.off = -5 * 3600; z.dstOff = -4 * 3600; z.from = { 3, 2, 0, 7200 }; z.to = { 11, 1, 0, 7200 }; return z; }
	if (k == 5) { z.tz = "CET-1CEST,M3.5.0,M10.5.0/3"; z.off = 3600; z.dstOff = 7200; z.from = { 3, 5, 0, 7200 }; z.to = { 10, 5, 0, 10800 }; return z; }
	if (k == 6) { z.tz = "AEST-10AEDT,M10.1.0,M4.1.0/3"; z.off = 36000; z.dstOff = 39600; z.from = { 10, 1, 0, 7200 }; z.to = { 4, 1, 0, 10800 }; return z; }
	if (k == 7) { z.tz = "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0"; z.off = 37800; z.dstOff = 39600; z.from = { 10, 1, 0, 7200 }; z.to = { 4, 1, 0, 7200 }; return z; }
	z.off = r.range(-11 * 4, 12 * 4) * 900; z.dstOff = z.off + (r.chance(1, 4) ? 1800 : r.chance(1, 6) ? 7200 : 3600); int a = (int)r.range(2, 5), b = (int)r.range(8, 11); if (r.chance(1, 2)) std::swap(a, b);
	z.from = { a, (int)r.range(1, 5), (int)r.below(7), r.range(1, 4) * 3600 }; z.to = { b, (int)r.range(1, 5), (int)r.below(7), r.range(1, 4) * 3600 }; z.tz = "<XST>" + hhmm(-z.off) + "<XDT>" + hhmm(-z.dstOff) + fmt(",M%d.%d.%d/%lld,M%d.%d.%d/%lld", z.from.month, z.from.week, z.from.day, z.from.at / 3600, z.to.month, z.to.week, z.to.day, z.to.at / 3600); return z;
}
static void enter(const Zone& z) { setenv("TZ", z.tz.c_str(), 1); tzset(); }
struct F { ll y, mo, d, h, mi, s, ms; };
static F fieldsOf(ll local, ll ms) { F f; ll day = floorDiv(local, 86400), sec = floorMod(local, 86400); civil(day, f.y, f.mo, f.d); f.h = sec / 3600; f.mi = sec / 60 % 60; f.s = sec % 60; f.ms = ms; return f; }
static void verify(const Zone& z, const DateTime& dt, ll local, ll ms, const char* what)
{
	F f = fieldsOf(local, ms); MUST(dt.year == f.y && dt.month == f.mo && dt.day == f.d && dt.hour == f.h && dt.minute == f.mi && dt.second == f.s && dt.milliseconds == f.ms, "fields", "%s in %s: the fields are %ld-%ld-%ld %ld:%ld:%ld.%ld, expected %lld-%lld-%lld %lld:%lld:%lld.%lld", what, z.tz.c_str(), (long)dt.year, (long)dt.month, (long)dt.day, (long)dt.hour, (long)dt.minute, (long)dt.second, (long)dt.milliseconds, f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms);
	ll wd = floorMod(floorDiv(local, 86400) + 4, 7); MUST(dt.dayOfWeek == wd, "weekday", "%s in %s: %lld-%lld-%lld falls on weekday %ld, expected %lld", what, z.tz.c_str(), f.y, f.mo, f.d, (long)dt.dayOfWeek, wd); ll want = z.instant(local) * 1000 + ms; MUST((ll)dt.osInternal == want, "instant", "%s in %s: the instant of %lld-%lld-%lld %lld:%lld:%lld.%lld is %lld, expected %lld", what, z.tz.c_str(), f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms, (ll)dt.osInternal, want);
}
// a local time whose neighbourhood (two days either way) has no switch
static bool usable(const Zone& z, ll local) { ll t = z.instant(local); return t >= 3 * 86400 && t < 230ll * 31557600 && !z.near(t); }
static ll anyLocal(Rng& r, const Zone& z)
{
	for (;;)
	{
		ll y = r.chance(1, 4) ? r.pick({ 1970, 1972, 1999, 2000, 2001, 2037, 2038, 2039, 2099, 2100, 2101, 2106, 2199 }) : r.range(1970, 2199), m = r.range(1, 12), d = r.range(1, 31); if (r.chance(1, 4)) { m = 2; d = r.range(27, 29); } if (r.chance(1, 6)) { m = r.chance(1, 2) ? 12 : 1; d = m == 12 ? 31 : 1; } ll last = daysOf(m == 12 ? y + 1 : y, m == 12 ? 1 : m + 1, 1) - daysOf(y, m, 1); if (d > last) d = last;
		ll s = r.chance(1, 5) ? 0 : r.chance(1, 5) ? 86399 : r.below(86400); ll l = daysOf(y, m, d) * 86400 + s; if (usable(z, l)) return l;
	}
}
static ll anyMs(Rng& r) { return r.chance(1, 4) ? r.pick({ 0, 1, 999 }) : r.below(1000); }
static DateTime build(ll local, ll ms) { F f = fieldsOf(local, ms); return DateTime::FromDateTime(f.y, f.mo, f.d, f.h, f.mi, f.s, f.ms); }
static void oneDate(Rng& r, const Zone& z, std::map<std::string, u64>& n)
{
	ll l = anyLocal(r, z), ms = anyMs(r); DateTime a = build(l, ms); verify(z, a, l, ms, "FromDateTime"); DateTime b = DateTime::FromOSInternal(a.osInternal); verify(z, b, l, ms, "FromOSInternal"); MUST(a == b && !(a < b) && !(a > b), "order", "a date differs from itself after conversion"); n["dates"]++; if (z.offset(z.instant(l)) != z.off) n["daylight_saving_dates"]++;
	{ // the same date with denormalised fields
		F f = fieldsOf(l, ms); ll dm = r.chance(1, 2) ? r.range(-30, 30) : 0, dd = r.chance(1, 2) ? r.range(-400, 400) : 0, dh = r.chance(1, 2) ? r.range(-100, 100) : 0, dmi = r.chance(1, 2) ? r.range(-5000, 5000) : 0, ds = r.chance(1, 2) ? r.range(-100000, 100000) : 0; ll mo = f.mo + dm, y = f.y + floorDiv(mo - 1, 12); ll base = daysOf(y, floorMod(mo - 1, 12) + 1, 1) + f.d + dd - 1; ll local = base * 86400 + (f.h + dh) * 3600 + (f.mi + dmi) * 60 + f.s + ds;
		if (usable(z, local)) { verify(z, DateTime::FromDateTime(f.y, mo, f.d + dd, f.h + dh, f.mi + dmi, f.s + ds, ms), local, ms, "FromDateTime with fields out of range"); n["normalised"]++; }
	}
	ll t = z.instant(l); // conversion: the UTC form carries the UTC fields of the same instant
	if (usable(z, t)) { DateTime u = a.ToUtcTime(); verify(z, u, t, ms, "ToUtcTime"); DateTime back = u.ToLocalTime(); verify(z, back, l, ms, "ToUtcTime().ToLocalTime()"); n["to_utc_and_back"]++; }
	{ ll local = l + z.offset(l); if (usable(z, local) && !z.near(l)) { DateTime x = a.ToLocalTime(); verify(z, x, local, ms, "ToLocalTime"); n["to_local"]++; DateTime y = x.ToUtcTime(); verify(z, y, l, ms, "ToLocalTime().ToUtcTime()"); } }
	for (int k = 0; k < 2; k++)
	{
		ll delta = r.chance(1, 5) ? r.pick({ 0ll, 1ll, 999ll, 1000ll, 86400000ll, 86399999ll, 31536000000ll }) : r.chance(1, 2) ? r.below(100000000) : r.below(3000000000000ll); ll at = t * 1000 + ms, to = k ? at - delta : at + delta; if (to < 4 * 86400000ll || to > 230ll * 31557600 * 1000) continue; ll tt = to / 1000; if (z.near(tt)) continue; DateTime m = k ? a.Backward((vuint64_t)delta) : a.Forward((vuint64_t)delta); ll lt = tt + z.offset(tt); verify(z, m, lt, to % 1000, k ? "Backward" : "Forward"); DateTime o = k ? m.Forward((vuint64_t)delta) : m.Backward((vuint64_t)delta); verify(z, o, l, ms, k ? "Backward and Forward" : "Forward and Backward");
		MUST(m.osMilliseconds - a.osMilliseconds == m.osInternal - a.osInternal, "milliseconds", "the millisecond counters of two dates differ by %lld, expected %lld", (ll)(m.osMilliseconds - a.osMilliseconds), (ll)(m.osInternal - a.osInternal)); int w = to < at ? -1 : to > at; auto c = m <=> a; MUST((c < 0) == (w < 0) && (c > 0) == (w > 0) && (m == a) == (w == 0) && (m < a) == (w < 0) && (m <= a) == (w <= 0) && (m > a) == (w > 0) && (m >= a) == (w >= 0) && (m != a) == (w != 0), "order", "dates are not ordered by instant"); n["moved"]++; if (z.offset(tt) != z.offset(t)) n["moved_across_a_switch"]++;
	}
}
SCENARIO(dates, 10) { Zone z = makeZone(rng); enter(z); nontrivial(); std::map<std::string, u64> n; for (int i = 0; i < 6; i++) { Rng r(rng.next()); op(r.s & 0xffff); oneDate(r, z, n); } for (auto& [k, v] : n) count(k.c_str(), v); LOG("zone %s", z.tz.c_str()); }
SCENARIO(every_day, 1)
{
	static long at = 0; nontrivial(); Zone z = makeZone(rng); enter(z); ll first = daysOf(1970, 1, 5) + ((ll)st().caseIndex * 7919 + at++ * 104729) % 83900; for (ll d = first; d < first + 60; d++) { ll l = d * 86400 + rng.below(86400); if (!usable(z, l)) continue; verify(z, build(l, 5), l, 5, "FromDateTime"); ll t = z.instant(l); verify(z, DateTime::FromOSInternal((vuint64_t)t * 1000 + 7), l, 7, "FromOSInternal"); count("consecutive_days"); } op((u64)first);
}
SCENARIO(clock, 2)
{
	Zone z = makeZone(rng); enter(z); auto now = [] { timeval tv; gettimeofday(&tv, nullptr); return (ll)tv.tv_sec * 1000 + tv.tv_usec / 1000; }; ll t0 = now(); if (z.near(t0 / 1000) || z.near(t0 / 1000 + 86400) || z.near(t0 / 1000 - 86400)) return; nontrivial(); op(mix((u64)t0));
	DateTime a = DateTime::LocalTime(); ll t1 = now(); MUST((ll)a.osInternal >= t0 && (ll)a.osInternal <= t1, "now", "the local clock in %s is %lld ms off", z.tz.c_str(), (ll)a.osInternal - t0); ll s = (ll)a.osInternal / 1000; verify(z, a, s + z.offset(s), (ll)a.osInternal % 1000, "LocalTime");
	ll t2 = now(); DateTime u = DateTime::UtcTime(); ll t3 = now(); ll us = daysOf(u.year, u.month, u.day) * 86400 + u.hour * 3600 + u.minute * 60 + u.second; ll um = us * 1000 + u.milliseconds; MUST(um >= t2 && um <= t3, "now", "the universal clock in %s is %lld ms off", z.tz.c_str(), um - t2); verify(z, u, us, u.milliseconds, "UtcTime"); DateTime l = u.ToLocalTime(); MUST((ll)l.osInternal >= t2 && (ll)l.osInternal <= t3, "now", "the universal clock converted to local time is %lld ms off in %s", (ll)l.osInternal - t2, z.tz.c_str()); count("clocks_read");
}
SCENARIO(threads, 3)
{
	Zone z = makeZone(rng); enter(z); int n = (int)rng.range(2, 4); long steps = rng.range(5, 25); std::vector<std::map<std::string, u64>> seen((size_t)n);
	parallel(rng, n, (size_t)steps, [&](int t, Rng& r, Interleaving& il) { for (long k = 0; k < steps; k++) { il.step(t); oneDate(r, z, seen[(size_t)t]); if (r.chance(1, 6)) { DateTime a = DateTime::LocalTime(), b = DateTime::LocalTime(); if (b < a && a.osInternal - b.osInternal > 3600000) VIOLATION("now", "the clock runs backwards"); DateTime::UtcTime(); } jitter(r); } });
	for (auto& m : seen) for (auto& [k, v] : m) count(("threads_" + k).c_str(), v);
}
struct Fake : public Object, public virtual IDateTimeImpl
{
	std::vector<std::string> log; vuint64_t base; DateTime make(vuint64_t os) { DateTime d; d.osInternal = os; d.year = (vint)(os % 9973); d.month = -7; return d; }
	DateTime FromDateTime(vint a, vint b, vint c, vint d, vint e, vint f, vint g) override { log.push_back(fmt("fields %ld %ld %ld %ld %ld %ld %ld", (long)a, (long)b, (long)c, (long)d, (long)e, (long)f, (long)g)); return make(base + 1); }
	DateTime FromOSInternal(vuint64_t os) override { log.push_back(fmt("os %llu", (unsigned long long)os)); return make(os); }
	vuint64_t LocalTime() override { log.push_back("local"); return base + 2; } vuint64_t UtcTime() override { log.push_back("utc"); return base + 3; }
	vuint64_t LocalToUtcTime(vuint64_t os) override { log.push_back(fmt("l2u %llu", (unsigned long long)os)); return os + 4; } vuint64_t UtcToLocalTime(vuint64_t os) override { log.push_back(fmt("u2l %llu", (unsigned long long)os)); return os + 5; }
	vuint64_t Forward(vuint64_t os, vuint64_t ms) override { log.push_back(fmt("fwd %llu %llu", (unsigned long long)os, (unsigned long long)ms)); return os + ms + 6; } vuint64_t Backward(vuint64_t os, vuint64_t ms) override { log.push_back(fmt("bwd %llu %llu", (unsigned long long)os, (unsigned long long)ms)); return os - ms + 7; }
};
SCENARIO(injected, 2)
{
	nontrivial(); Zone z = makeZone(rng); enter(z); Fake f, g; f.base = rng.next() / 4; g.base = rng.next() / 4; Fake* in = nullptr; DateTime held = build(86400 * 1000, 0); std::map<std::string, u64> n; for (int k = 0; k < 12; k++)
	{
		int o = (int)rng.below(9); op((u64)o); if (o >= 7 || k == 0) { in = o == 8 ? &g : o == 7 ? nullptr : &f; InjectDateTimeImpl(in); if (!in) { oneDate(rng, z, n); } else count("injected"); if (o >= 7) continue; } if (!in) { oneDate(rng, z, n); continue; }
		f.log.clear(); g.log.clear(); vuint64_t ms = rng.next() % 100000, os = held.osInternal; DateTime d; vuint64_t want = 0; std::vector<std::string> calls;
		switch (o) { case 0: d = DateTime::LocalTime(); want = in->base + 2; calls = { "local" }; break; case 1: d = DateTime::UtcTime(); want = in->base + 3; calls = { "utc" }; break; case 2: d = DateTime::FromDateTime(2000 + o, 2, 3, 4, 5, 6, (vint)ms); want = in->base + 1; calls = { fmt("fields %d 2 3 4 5 6 %d", 2000 + o, (int)ms) }; break; case 3: d = held.ToUtcTime(); want = os + 4; calls = { fmt("l2u %llu", (unsigned long long)os) }; break; case 4: d = held.ToLocalTime(); want = os + 5; calls = { fmt("u2l %llu", (unsigned long long)os) }; break; case 5: d = held.Forward(ms); want = os + ms + 6; calls = { fmt("fwd %llu %llu", (unsigned long long)os, (unsigned long long)ms) }; break; default: d = held.Backward(ms); want = os - ms + 7; calls = { fmt("bwd %llu %llu", (unsigned long long)os, (unsigned long long)ms) }; }
		MUST(d.osInternal == want && d.month == -7 && d.year == (vint)(want % 9973), "injected", "an injected clock does not determine the result of call %d", o); auto& other = in == &f ? g : f; MUST(other.log.empty(), "injected", "a clock that is not injected was used"); MUST(!in->log.empty() && in->log[0] == calls[0], "injected", "the injected clock was asked '%s', expected '%s'", in->log.empty() ? "" : in->log[0].c_str(), calls[0].c_str()); MUST(held.osInternal == os, "injected", "the date itself changed"); held = d; d = DateTime::FromOSInternal(ms + 1); MUST(d.osInternal == ms + 1 && d.month == -7, "injected", "FromOSInternal does not use the injected clock"); count("injected_calls");
	}
	InjectDateTimeImpl(nullptr); oneDate(rng, z, n); for (auto& [k, v] : n) count(k.c_str(), v); count("restored");
}
const char* const harnessProperty = "C32";
const long harnessCpuBudget = 60;
#include "main.h"
