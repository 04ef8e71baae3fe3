// Forked executions: the child writes events into shared memory, its standard streams are redirected.
#pragma once
#include "util.h"
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <clocale>
namespace H
{
	struct EventLog // survives the child's exit, including events logged by destructors of static objects
	{
		struct Head { size_t used; bool full; char text[1]; }; Head* h; static constexpr size_t SIZE = 1 << 20;
		EventLog() { h = (Head*)mmap(nullptr, SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (h == MAP_FAILED) { perror("mmap"); _exit(70); } h->used = 0; h->full = false; }
		~EventLog() { munmap(h, SIZE); }
		void add(const std::string& s) { if (h->used + s.size() + 64 > SIZE) { h->full = true; return; } memcpy(h->text + h->used, s.c_str(), s.size()); h->used += s.size(); h->text[h->used++] = '\n'; }
		std::vector<std::string> lines() const { std::vector<std::string> r; std::string c; for (size_t i = 0; i < h->used; i++) if (h->text[i] == '\n') { r.push_back(c); c.clear(); } else c += h->text[i]; return r; }
	};
	struct Result { int code; std::string out; };
	// body runs in the child; the child's exit code is body's result (normal exit: static objects are destroyed)
	inline Result execute(const std::string& input, std::function<int()> body)
	{
		int out = (int)syscall(SYS_memfd_create, "out", 0), in = (int)syscall(SYS_memfd_create, "in", 0); if (out < 0 || in < 0) { perror("memfd"); _exit(70); }
		size_t at = 0; while (at < input.size()) { ssize_t n = write(in, input.data() + at, input.size() - at); if (n <= 0) { perror("write"); _exit(70); } at += (size_t)n; } lseek(in, 0, SEEK_SET); fflush(stdout); fflush(stderr);
		pid_t p = fork(); if (p < 0) { perror("fork"); _exit(70); }
		if (p == 0) { alarm(120); dup2(in, 0); dup2(out, 1); close(in); close(out); int code = body(); exit(code); }
		int status = 0; while (waitpid(p, &status, 0) < 0) if (errno != EINTR) { perror("waitpid"); _exit(70); }
		if (WIFEXITED(status) && WEXITSTATUS(status) == 66) _exit(66); // the monitor in the child reported already
		Result r; r.code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
		off_t size = lseek(out, 0, SEEK_END); r.out.resize((size_t)size); at = 0; while (at < r.out.size()) { ssize_t n = pread(out, &r.out[at], r.out.size() - at, (off_t)at); if (n <= 0) break; at += (size_t)n; } close(in); close(out); count("executions"); return r;
	}
}
