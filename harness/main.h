// include once per harness executable, after the scenarios
#pragma once
#include "core.h"
#include "vl.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/lsan_interface.h>
#endif

namespace H
{
	inline std::string narrow(const wchar_t* w) { std::string r; while (w && *w) { r += (*w < 0x80) ? (char)*w : '?'; w++; } return r; }

	inline void onProf(int)
	{
		// the current case used its whole CPU budget: report a suspected hang, the runner confirms it by a second run
		auto& s = st();
		char b[256]; int n = snprintf(b, sizeof b, "{\"case\": %llu, \"scenario\": \"%s\", \"key\": \"hang\", \"message\": \"case exceeded its CPU budget\", \"trace\": \"\"}\n", (unsigned long long)s.caseIndex, s.shared ? s.shared->scenario : "");
		static char path[512]; strncpy(path, s.out.c_str(), 480); strcat(path, ".viol");
		int fd = open(path, O_CREAT | O_WRONLY | O_TRUNC, 0644); if (fd >= 0) { (void)!write(fd, b, n); close(fd); }
		_exit(67);
	}
	inline void arm(long sec) { itimerval it{}; it.it_value.tv_sec = sec; setitimer(ITIMER_PROF, &it, nullptr); }
}

extern const char* const harnessProperty;
extern const long harnessCpuBudget;

int main(int argc, char** argv)
{
	using namespace H;
	auto& s = st();
	for (int i = 1; i < argc; i++)
	{
		std::string a = argv[i];
		auto val = [&] { return std::string(argv[++i]); };
		if (a == "--seed") s.seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--shard") s.shard = atol(val().c_str());
		else if (a == "--shards") s.shards = atol(val().c_str());
		else if (a == "--cases") s.cases = atol(val().c_str());
		else if (a == "--case") { s.oneCase = atol(val().c_str()); }
		else if (a == "--verbose") s.verbose = true;
		else if (a == "--leakeach") s.leakEach = true;
		else if (a == "--out") s.out = val();
	}
	int fd = open((s.out + ".progress").c_str(), O_CREAT | O_RDWR, 0644);
	(void)!ftruncate(fd, 4096);
	s.shared = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	s.shared->active = 1;
	signal(SIGPROF, onProf);

	std::sort(scenarios().begin(), scenarios().end(), [](auto& a, auto& b) { return strcmp(a.name, b.name) < 0; });
	int total = 0;
	for (auto& sc : scenarios()) total += sc.weight;
	u64 propSeed = 1469598103934665603ull; for (const char* p = harnessProperty; *p; p++) propSeed = (propSeed ^ (unsigned char)*p) * 1099511628211ull;

	long from = s.oneCase >= 0 ? s.oneCase : s.shard, step = s.oneCase >= 0 ? 1 : s.shards, to = s.oneCase >= 0 ? s.oneCase + 1 : s.cases;
	for (long c = from; c < to; c += step)
	{
		// spread scenarios evenly over indices and shards
		int slot = (int)((u64)(c / total * 7 + c) % (u64)total);
		Scenario* sc = nullptr;
		for (auto& x : scenarios()) { if (slot < x.weight) { sc = &x; break; } slot -= x.weight; }
		vintShift() = 54; s.caseIndex = (u64)c; s.scenario = sc->name; s.hash = mix(std::hash<std::string>()(s.scenario)); s.nontrivial = false; s.trace.clear();
		s.shared->current = (u64)c; strncpy(s.shared->scenario, sc->name, 63);
		Rng rng(mix(mix(s.seed) ^ propSeed) ^ mix((u64)c + 0x1234567));
		arm(harnessCpuBudget);
		try
		{
			sc->run(rng);
		}
		catch (const vl::Error& e) { VIOLATION("unexpected-error", "unexpected Error escaped: %s", narrow(e.Description()).c_str()); }
		catch (const vl::Exception& e) { VIOLATION("unexpected-exception", "unexpected Exception escaped: %s", narrow(e.Message().Buffer()).c_str()); }
		catch (const std::exception& e) { VIOLATION("unexpected-std-exception", "unexpected std::exception escaped: %s", e.what()); }
		s.scenarioCases[sc->name]++;
		if (s.nontrivial && s.distinct.size() < 4000000) s.distinct.insert(s.hash);
		s.shared->done = s.shared->done + 1;
#if defined(__SANITIZE_ADDRESS__)
		if (s.leakEach && __lsan_do_recoverable_leak_check()) VIOLATION("leak", "memory leaked by this case (LeakSanitizer)");
#endif
	}
	arm(0);
	s.shared->active = 0;
#if defined(__SANITIZE_ADDRESS__)
	if (__lsan_do_recoverable_leak_check())
	{
		writeStats();
		finish(68);
	}
#endif
	writeStats();
	finish(0);
}
