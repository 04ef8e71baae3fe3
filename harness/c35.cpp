// Console input and output: forked programs with redirected streams, compared byte by byte.
#include "proc.h"
#include "text.h"
#include "unicode.h"
#include "Console.h"
using namespace H;
using vl::console::Console;
static std::string utf8(const std::vector<unsigned>& cs) { std::string r; for (unsigned c : cs) { if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); } } return r; }
static std::vector<unsigned> text(Rng& r, bool ascii, bool breaks, long max)
{
	std::vector<unsigned> v; long n = r.chance(1, 8) ? 0 : r.chance(1, 30) ? r.range(0, max) : r.range(1, 40);
	for (long i = 0; i < n; i++) { unsigned c; if (ascii || r.chance(1, 2)) { c = (unsigned)r.range(32, 126); if (r.chance(1, 10)) c = r.pick({ 9u, 13u, 7u, 37u, 92u, 127u, 1u }); if (breaks && r.chance(1, 12)) c = 10; } else c = r.chance(1, 3) ? (unsigned)r.range(0xA0, 0x7FF) : r.chance(1, 2) ? (unsigned)r.range(0x800, 0xD7FF) : r.chance(1, 2) ? (unsigned)r.range(0xE000, 0xFFFD) : (unsigned)r.range(0x10000, 0x10FFFF); v.push_back(c); }
	return v;
}
static std::wstring wide(const std::vector<unsigned>& v) { return std::wstring(v.begin(), v.end()); }
static void locale(bool ascii) { if (!ascii) setlocale(LC_ALL, "C.UTF-8"); }
struct Step { int kind; std::vector<unsigned> t; bool r, g, b, l; };
static void outputs(Rng& rng, bool ascii, bool pipe_, long max)
{
	std::vector<Step> plan; bool session = rng.chance(1, 25); long n = session ? rng.range(300, 1500) : rng.range(1, 25); if (session) count("long_sessions"); for (long i = 0; i < n; i++) { Step s; s.kind = (int)rng.below(6); s.t = text(rng, ascii, true, session ? 60 : max); if (s.kind != 1 && s.kind < 5 && !s.t.empty() && rng.chance(1, 6)) { s.t[(size_t)rng.below((long)s.t.size())] = 0; count("embedded_zeros"); } s.r = rng.chance(1, 2); s.g = rng.chance(1, 2); s.b = rng.chance(1, 2); s.l = rng.chance(1, 2); plan.push_back(s); op((u64)s.kind, (u64)s.t.size()); if (!s.t.empty() && s.kind < 5) nontrivial(); }
	int fds[2] = { -1, -1 }; std::string viaPipe; if (pipe_ && ::pipe(fds)) { perror("pipe"); _exit(70); }
	auto body = [&]() -> int
	{
		if (pipe_) { dup2(fds[1], 1); close(fds[0]); close(fds[1]); } locale(ascii);
		for (auto& s : plan)
		{
			auto w = wide(s.t);
			switch (s.kind)
			{
			case 0: { wchar_t* exact = new wchar_t[w.size() ? w.size() : 1]; std::copy(w.begin(), w.end(), exact); Console::Write(exact, (vint)w.size()); delete[] exact; break; } // not terminated
			case 1: Console::Write(w.c_str()); break;
			case 2: { WString x = WString::CopyFrom(w.c_str(), (vint)w.size()); Console::Write(x); break; }
			case 3: Console::WriteLine(WString::CopyFrom(w.c_str(), (vint)w.size())); break;
			case 4: { WString x = L"<" + WString::CopyFrom(w.c_str(), (vint)w.size()) + L">"; Console::WriteLine(x.Sub(1, x.Length() - 2)); break; } // a part of a longer buffer
			default: Console::SetColor(s.r, s.g, s.b, s.l); if (s.l && s.r) Console::SetTitle(WString::CopyFrom(w.c_str(), (vint)w.size()));
			}
		}
		return 0;
	};
	Result res; if (pipe_) { pid_t reader = 0; int save = dup(fds[0]); std::string got; // read in this process while the child writes
		pid_t p = fork(); if (p == 0) { alarm(120); close(save); exit(body()); } close(fds[1]); close(fds[0]); char b[1000]; ssize_t k; while ((k = read(save, b, 1 + (size_t)(rng.next() % 999))) > 0) got.append(b, (size_t)k); close(save); int status = 0; waitpid(p, &status, 0); if (WIFEXITED(status) && WEXITSTATUS(status) == 66) _exit(66); res.code = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status); res.out = got; count("executions"); count("through_a_pipe"); }
	else res = execute("", body);
	MUST(res.code == 0, "child", "the program writing to the console ended with status %d", res.code);
	size_t at = 0; auto expect = [&](const std::string& t, const char* what, long i) { size_t k = 0; while (k < t.size() && at + k < res.out.size() && res.out[at + k] == t[k]) k++; MUST(k == t.size(), "output", "%s (call %ld): byte %ld of %ld is %d, expected %d", what, i, (long)k, (long)t.size(), at + k < res.out.size() ? (int)(unsigned char)res.out[at + k] : -1, (int)(unsigned char)t[k]); at += k; };
	long i = 0; for (auto& s : plan)
	{
		static const char* names[] = { "Write(buffer, length)", "Write(text)", "Write(string)", "WriteLine", "WriteLine(part)", "SetColor" }; if (s.kind < 5) { expect(utf8(s.t), names[s.kind], i); if (s.kind >= 3) { expect("\r\n", "line break of WriteLine", i); count("lines_written"); } count("texts_written"); if (s.t.size() > 5000) count("long_texts"); }
		else { MUST(res.out.substr(at, 2) == "\x1b[", "colour", "SetColor (call %ld) writes no colour sequence at its place", i); size_t e = res.out.find('m', at); MUST(e != std::string::npos && e - at < 20, "colour", "SetColor (call %ld) writes no complete colour sequence", i); std::string seq = res.out.substr(at + 2, e - at - 2); for (char c : seq) MUST((c >= '0' && c <= '9') || c == ';', "colour", "SetColor (call %ld) writes a malformed colour sequence", i); int color = 30 + (s.b ? 4 : 0) + (s.g ? 2 : 0) + (s.r ? 1 : 0); bool found = false; size_t q = 0; while (q <= seq.size()) { size_t z = seq.find(';', q); if (z == std::string::npos) z = seq.size(); found |= seq.substr(q, z - q) == std::to_string(color); q = z + 1; } MUST(found, "colour", "SetColor (call %ld) selects another colour", i); { static std::map<int, std::string> style; std::string rest = seq.substr(0, seq.rfind(';')); int key = s.l; if (style.count(key)) MUST(style[key] == rest, "colour", "SetColor (call %ld) selects another brightness than before", i); else style[key] = rest; if (style.count(!s.l)) MUST(style[!s.l] != rest, "colour", "SetColor (call %ld) ignores the brightness", i); } at = e + 1; count("colours"); }
		i++;
	}
	MUST(at == res.out.size(), "output", "%ld bytes follow the last write", (long)(res.out.size() - at));
}
static void inputs(Rng& rng, bool ascii, long max)
{
	std::vector<std::vector<unsigned>> lines; bool session = rng.chance(1, 25); long n = session ? rng.range(300, 1500) : rng.range(0, 12); if (session) count("long_sessions"); for (long i = 0; i < n; i++) { auto t = text(rng, ascii, false, session ? 60 : max); lines.push_back(t); op((u64)t.size()); if (!t.empty()) nontrivial(); } bool lastOpen = n > 0 && rng.chance(1, 3); std::string in; for (long i = 0; i < n; i++) { in += utf8(lines[(size_t)i]); if (i + 1 < n || !lastOpen) in += '\n'; } EventLog log; bool mixWrites = rng.chance(1, 2);
	Result res = execute(in, [&]() -> int { locale(ascii); for (long i = 0; i < n + 2; i++) { if (mixWrites) Console::Write(L"?"); WString s = Console::Read(); std::wstring got(s.Buffer(), (size_t)s.Length()); std::wstring want = i < n ? wide(lines[(size_t)i]) : L""; if (got != want) VIOLATION("input", "line %ld has %ld characters, expected %ld%s", i, (long)got.size(), (long)want.size(), i < n ? "" : " (past the end)"); if (s.Length() && s.Buffer()[s.Length()] != 0) VIOLATION("input", "a line is not terminated"); } return 0; });
	MUST(res.code == 0, "child", "the program reading the console ended with status %d", res.code); MUST(res.out == (mixWrites ? std::string((size_t)n + 2, '?') : ""), "input", "prompts written between reads are wrong"); count("lines_read", (u64)n); if (lastOpen) count("unterminated_last_lines");
}
SCENARIO(ascii_output, 3) { outputs(rng, true, false, 20000); }
SCENARIO(unicode_output, 4) { outputs(rng, false, false, 20000); }
SCENARIO(pipe_output, 2) { outputs(rng, rng.chance(1, 2), true, 100000); }
SCENARIO(ascii_input, 3) { inputs(rng, true, 20000); }
SCENARIO(unicode_input, 3) { inputs(rng, false, 20000); }
const char* const harnessProperty = "C35";
const long harnessCpuBudget = 60;
#include "main.h"
