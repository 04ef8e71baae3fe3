// Workload driver shared by every monitor in this directory.
// A harness registers scenarios; the driver runs numbered cases. A case is a pure function of (seed, case index):
// its scenario is picked from the index, its random choices from an RNG seeded by hash(seed, property, index).
// The driver records what the monitors observed (event counters, distinct history hashes) and reports violations.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <exception>
#include <mutex>
#include <atomic>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>

namespace H
{
	using u64 = uint64_t;
	inline u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }

	struct Rng
	{
		u64 s;
		explicit Rng(u64 seed) : s(seed) {}
		u64 next() { s += 0x9E3779B97F4A7C15ull; u64 x = s; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
		long below(long n) { return n <= 0 ? 0 : (long)(next() % (u64)n); }
		long range(long lo, long hi) { return lo + below(hi - lo + 1); } // inclusive
		bool chance(long num, long den) { return below(den) < num; }
		template<typename T> T pick(std::initializer_list<T> xs) { return *(xs.begin() + below((long)xs.size())); }
		template<typename V> auto& of(V& xs) { return xs[(size_t)below((long)xs.size())]; }
	};

	struct Shared { volatile u64 current; volatile u64 done; volatile u64 active; char scenario[64]; };

	struct State
	{
		u64 seed = 1;
		long shard = 0, shards = 1, cases = 100;
		long oneCase = -1;
		bool verbose = false, leakEach = false;
		std::string out;
		Shared* shared = nullptr;
		u64 caseIndex = 0;
		std::string scenario;
		u64 hash = 0;
		bool nontrivial = false;
		std::string trace;
		std::map<std::string, u64> counters;
		std::map<std::string, u64> scenarioCases;
		std::unordered_set<u64> distinct;
		u64 ops = 0;
		std::atomic<bool> reported{ false };
	};
	// how far apart consecutive numbers are spread over vint (see Val<vint>); reset before every case
	inline int& vintShift() { static int s = 54; return s; }
	inline State& st() { static State* s = new State; return *s; }

	inline std::string esc(const std::string& s)
	{
		std::string r;
		for (unsigned char c : s)
		{
			if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
			else if (c == '\n') r += "\\n";
			else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r;
	}
	inline std::string fmt(const char* f, ...)
	{
		va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap); return b;
	}

	[[noreturn]] inline void finish(int code)
	{
		fflush(stdout); fflush(stderr); _exit(code);
	}
	// A monitor found a violation: record the witness and stop this shard.
	[[noreturn, gnu::noinline, gnu::cold]] inline void violationAt(const std::string& key, const std::string& msg)
	{
		auto& s = st();
		if (s.reported.exchange(true)) { for (;;) pause(); }
		std::string path = s.out + ".viol";
		if (FILE* f = fopen(path.c_str(), "w"))
		{
			fprintf(f, "{\"case\": %llu, \"scenario\": \"%s\", \"key\": \"%s\", \"message\": \"%s\", \"trace\": \"%s\"}\n",
				(unsigned long long)s.caseIndex, esc(s.scenario).c_str(), esc(key).c_str(), esc(msg).c_str(), esc(s.trace).c_str());
			fclose(f);
		}
		fprintf(stderr, "MONITOR VIOLATION case=%llu scenario=%s [%s] %s\n", (unsigned long long)s.caseIndex, s.scenario.c_str(), key.c_str(), msg.c_str());
		finish(66);
	}

	// a monitor saw something that may be a listed finding: record it and go on (the runner matches it against known_findings.txt)
	inline void finding(const std::string& key, const std::string& msg)
	{
		auto& s = st();
		if (FILE* f = fopen((s.out + ".soft").c_str(), "a"))
		{
			fprintf(f, "{\"case\": %llu, \"scenario\": \"%s\", \"key\": \"%s\", \"message\": \"%s\", \"trace\": \"%s\"}\n",
				(unsigned long long)s.caseIndex, esc(s.scenario).c_str(), esc(key).c_str(), esc(msg).c_str(), esc(s.trace).c_str());
			fclose(f);
		}
	}

	// fold an observed operation into the history hash, and (when replaying) into the readable trace
	[[gnu::noinline]] inline void op(u64 code) { auto& s = st(); s.hash = mix(s.hash ^ code); s.ops++; }
	inline void op(u64 a, u64 b) { op(a * 1000003u + b); }
	inline void nontrivial() { st().nontrivial = true; }
	[[gnu::noinline]] inline void count(const char* what, u64 n = 1) { st().counters[what] += n; }
	[[gnu::noinline, gnu::cold]] inline void logf(const char* f, ...)
	{
		auto& s = st(); if (!s.verbose) return; if (s.trace.size() > 60000) return;
		va_list ap; va_start(ap, f); char b[4096]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
		s.trace += b; s.trace += '\n';
	}
	inline bool verbose() { return st().verbose; }

	struct Scenario { const char* name; int weight; std::function<void(Rng&)> run; };
	inline std::vector<Scenario>& scenarios() { static auto* v = new std::vector<Scenario>; return *v; }
	struct Register { Register(const char* n, int w, std::function<void(Rng&)> f) { scenarios().push_back({ n, w, f }); } };

	inline void writeStats()
	{
		auto& s = st();
		FILE* f = fopen((s.out + ".stats").c_str(), "w"); if (!f) return;
		fprintf(f, "{\"ops\": %llu, \"counters\": {", (unsigned long long)s.ops);
		bool first = true;
		for (auto& [k, v] : s.counters) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(k).c_str(), (unsigned long long)v); first = false; }
		fprintf(f, "}, \"scenarios\": {"); first = true;
		for (auto& [k, v] : s.scenarioCases) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", esc(k).c_str(), (unsigned long long)v); first = false; }
		fprintf(f, "}, \"trace\": \"%s\", \"scenario\": \"%s\"}\n", esc(s.trace).c_str(), esc(s.scenario).c_str());
		fclose(f);
		f = fopen((s.out + ".hashes").c_str(), "wb"); if (!f) return;
		for (auto h : s.distinct) fwrite(&h, 8, 1, f);
		fclose(f);
	}
}

namespace H
{
	[[noreturn, gnu::noinline, gnu::cold]] inline void fail(const char* key, const char* f, ...)
	{
		va_list ap; va_start(ap, f); char b[2048]; vsnprintf(b, sizeof b, f, ap); va_end(ap);
		violationAt(key, b);
	}
}
#define VIOLATION(key, ...) ::H::fail(key, __VA_ARGS__)
#define MUST(cond, key, ...) do { if (!(cond)) VIOLATION(key, __VA_ARGS__); } while (0)
#define LOG(...) do { if (::H::verbose()) ::H::logf(__VA_ARGS__); } while (0)
#define SCENARIO(name, weight) \
	static void scenario_##name(::H::Rng& rng); \
	static ::H::Register register_##name(#name, weight, scenario_##name); \
	static void scenario_##name([[maybe_unused]] ::H::Rng& rng)
#define SCENARIO_T(name, weight, ...) static ::H::Register register_##name(#name, weight, __VA_ARGS__)
