// The unit test framework: generated test trees run in forked programs; execution log, printed report and exit code
// are compared with what a reference interpreter of the same tree says.
#include "proc.h"
#include "UnitTest/UnitTest.h"
#include <stdexcept>
using namespace H;
using vl::unittest::UnitTest; using vl::unittest::UnitTestFile; using vl::unittest::UnitTestLink;
static EventLog* events;
enum Kind { Category, Case, CaseAssertPass, CaseAssertFail, Print, AssertPass, AssertFail, ErrorPass, ErrorNothing, ErrorOther, ErrorInner, ExcPass, ExcNothing, ExcOther, ExcCallbackFails, ThrowError, ThrowException, ThrowInt, ThrowStd, Swallow, Nothing, KINDS };
struct Node { Kind kind; int id; std::vector<Node> kids; };
struct File { std::string name; std::vector<Node> body; };
static std::vector<File> files;
static WString nm(const char* p, int id) { return WString::CopyFrom((std::wstring(p, p + strlen(p)) + std::to_wstring(id)).c_str(), (vint)(strlen(p) + std::to_wstring(id).size())); }
struct MyException : public Exception { int v; MyException(int _v, const WString& m) : Exception(m), v(_v) {} };
static void runNodes(const std::vector<Node>& v);
static void runNode(const Node& n)
{
	events->add(fmt("B%d", n.id));
	switch (n.kind)
	{
	case Category: TEST_CATEGORY(nm("category_", n.id)) { events->add(fmt("in%d", n.id)); runNodes(n.kids); events->add(fmt("out%d", n.id)); }); break;
	case Case: TEST_CASE(nm("case_", n.id)) { events->add(fmt("in%d", n.id)); runNodes(n.kids); events->add(fmt("out%d", n.id)); }); break;
	case CaseAssertPass: TEST_CASE_ASSERT(events->h != nullptr); break;
	case CaseAssertFail: TEST_CASE_ASSERT(events->h == nullptr); break;
	case Print: TEST_PRINT(nm("print_", n.id)); break;
	case AssertPass: TEST_ASSERT(n.id >= 0); break;
	case AssertFail: TEST_ASSERT(n.id < 0); break;
	case ErrorPass: TEST_ERROR(throw Error(L"expected")); break;
	case ErrorNothing: TEST_ERROR(events->add(fmt("E%d", n.id))); break;
	case ErrorOther: TEST_ERROR(throw Exception(nm("boom_", n.id))); break;
	case ErrorInner: TEST_ERROR(TEST_ASSERT(n.id < 0)); break;
	case ExcPass: { int got = 0; TEST_EXCEPTION(throw MyException(n.id, L"m"), MyException, [&](const MyException& e) { got = e.v; }); events->add(fmt("X%d", got)); break; }
	case ExcNothing: TEST_EXCEPTION(events->add(fmt("E%d", n.id)), MyException, [](const MyException&) {}); break;
	case ExcOther: TEST_EXCEPTION(throw Error(L"other"), MyException, [](const MyException&) {}); break;
	case ExcCallbackFails: TEST_EXCEPTION(throw MyException(n.id, L"m"), MyException, [](const MyException& e) { TEST_ASSERT(e.v < 0); }); break;
	case ThrowError: throw Error(L"boom_error");
	case ThrowException: throw MyException(1, nm("boom_", n.id));
	case ThrowInt: throw n.id;
	case ThrowStd: throw std::runtime_error("boom");
	case Swallow: try { TEST_ASSERT(n.id < 0); } catch (...) {} break;
	default: break;
	}
	events->add(fmt("A%d", n.id));
}
static void runNodes(const std::vector<Node>& v) { for (auto& n : v) runNode(n); }
static constexpr int MAXF = 90;
template<int I> void proc() { events->add(fmt("F%d", I)); runNodes(files[I].body); events->add(fmt("G%d", I)); }
template<size_t... I> static vl::unittest::UnitTestFileProc procOf(int i, std::index_sequence<I...>) { vl::unittest::UnitTestFileProc ps[] = { &proc<(int)I>... }; return ps[i]; }
// one file defined the documented way; it runs in every program
TEST_FILE { events->add("static"); TEST_CATEGORY(L"static_category") { TEST_CASE(L"static_case") { TEST_ASSERT(true); TEST_ERROR(throw Error(L"x")); }); TEST_CASE_ASSERT(1 + 1 == 2); }); }
static const char* const staticName = __FILE__;

struct Failure {};
enum Where { InFile, InCategory, InCase };
struct Model
{
	bool suppress; std::vector<std::string> log; std::vector<std::string> lines; long cases = 0, passed = 0, failures = 0; std::vector<std::string> texts; bool stopped = false;
	void fail(const char* text = "") { throw std::string(text); }
	// returns true when the body failed
	template<typename B> bool guard(B body) { try { body(); return false; } catch (const std::string& t) { if (!suppress) { stopped = true; throw Failure(); } failures++; if (!t.empty()) texts.push_back(t); return true; } }
	bool nodes(const std::vector<Node>& v, Where w) { bool bad = false; for (auto& n : v) bad |= node(n, w); return bad; }
	// a failure of a nested category or case makes everything around it failed without interrupting it
	bool failedInside = false;
	bool node(const Node& n, Where w)
	{
		log.push_back(fmt("B%d", n.id)); bool bad = false; auto assertPlace = [&] { if (w != InCase) fail("outside of TEST_CASE"); };
		switch (n.kind)
		{
		case Category: if (w == InCase) fail("inside TEST_CASE"); lines.push_back(fmt("category_%d", n.id)); { bool inner = false; bool b = guard([&] { log.push_back(fmt("in%d", n.id)); for (auto& k : n.kids) inner |= node(k, InCategory); log.push_back(fmt("out%d", n.id)); }); bad = b || inner || take(); if (b) keepFailed(); } break;
		case Case: if (w == InCase) fail("inside TEST_CASE"); lines.push_back(fmt("case_%d", n.id)); { bool b = guard([&] { log.push_back(fmt("in%d", n.id)); for (auto& k : n.kids) node(k, InCase); log.push_back(fmt("out%d", n.id)); }); cases++; if (!b) passed++; bad = b; } break;
		case CaseAssertPass: case CaseAssertFail: if (w == InCase) fail("inside TEST_CASE"); lines.push_back(n.kind == CaseAssertPass ? "events->h != nullptr" : "events->h == nullptr"); { bool b = guard([&] { if (n.kind == CaseAssertFail) fail("events->h == nullptr"); }); cases++; if (!b) passed++; bad = b; } break;
		case Print: lines.push_back(fmt("print_%d", n.id)); break;
		case AssertPass: assertPlace(); break;
		case AssertFail: assertPlace(); fail("n.id < 0"); break;
		case ErrorPass: assertPlace(); break;
		case ErrorNothing: assertPlace(); log.push_back(fmt("E%d", n.id)); fail("Expect an error"); break;
		case ErrorOther: assertPlace(); fail(fmt("boom_%d", n.id).c_str()); break;
		case ErrorInner: assertPlace(); fail("n.id < 0"); break;
		case ExcPass: log.push_back(fmt("X%d", n.id)); break;
		case ExcNothing: log.push_back(fmt("E%d", n.id)); fail("MyException"); break;
		case ExcOther: fail("MyException"); break;
		case ExcCallbackFails: assertPlace(); fail("e.v < 0"); break;
		case ThrowError: fail("boom_error"); break; case ThrowException: fail(fmt("boom_%d", n.id).c_str()); break; case ThrowInt: case ThrowStd: fail(""); break;
		default: break;
		}
		log.push_back(fmt("A%d", n.id)); if (bad) failedInside = true; return bad;
	}
	bool take() { bool b = failedInside; failedInside = false; return b; } void keepFailed() { failedInside = true; }
};
static int nextId;
static Node makeNode(Rng& r, Where w, int depth, int badness)
{
	Node n; n.id = nextId++; bool bad = r.below(100) < badness;
	if (w == InCase) { if (!bad) n.kind = r.pick({ Print, AssertPass, AssertPass, ErrorPass, ExcPass, Swallow, Nothing }); else n.kind = r.pick({ AssertFail, AssertFail, ErrorNothing, ErrorOther, ErrorInner, ExcNothing, ExcOther, ExcCallbackFails, ThrowError, ThrowException, ThrowInt, ThrowStd, Case, Category, CaseAssertPass, CaseAssertFail }); }
	else { if (!bad || r.chance(2, 3)) n.kind = depth <= 0 ? r.pick({ CaseAssertPass, Case, Print }) : r.pick({ Category, Category, Case, Case, Case, CaseAssertPass, Print }); else n.kind = r.pick({ AssertPass, AssertFail, ErrorPass, ErrorNothing, ThrowError, ThrowException, ThrowInt, ThrowStd, CaseAssertFail, ExcNothing }); }
	if (n.kind == Category || n.kind == Case) { long k = r.range(0, 4); for (long i = 0; i < k; i++) n.kids.push_back(makeNode(r, n.kind == Case ? InCase : InCategory, depth - 1, badness)); }
	return n;
}
// categories nested far deeper than a generated tree: what happens in the innermost case concerns all of them
static Node makeChain(Rng& r, int badness, long levels)
{
	if (levels <= 0) return makeNode(r, InCategory, 1, badness);
	Node n; n.id = nextId++; n.kind = Category; if (r.chance(1, 4)) n.kids.push_back(makeNode(r, InCategory, 0, badness)); n.kids.push_back(makeChain(r, badness, levels - 1)); if (r.chance(1, 4)) n.kids.push_back(makeNode(r, InCategory, 0, badness)); return n;
}
static std::string show(const Node& n, int depth = 1) { static const char* names[] = { "Category", "Case", "CaseAssertPass", "CaseAssertFail", "Print", "AssertPass", "AssertFail", "ErrorPass", "ErrorNothing", "ErrorOther", "ErrorInner", "ExcPass", "ExcNothing", "ExcOther", "ExcCallbackFails", "ThrowError", "ThrowException", "ThrowInt", "ThrowStd", "Swallow", "Nothing" }; std::string s = std::string((size_t)depth * 2, ' ') + names[n.kind] + fmt(" %d\n", n.id); for (auto& k : n.kids) s += show(k, depth + 1); return s; }
static std::vector<std::string> report(const std::string& out) // lines without colour sequences, line breaks and indentation
{
	std::vector<std::string> r; std::string c; for (size_t i = 0; i < out.size(); i++) { if (out[i] == '\x1b' && i + 1 < out.size() && out[i + 1] == '[') { while (i < out.size() && out[i] != 'm') i++; continue; } if (out[i] == '\r') continue; if (out[i] == '\n') { size_t f = c.find_first_not_of(' '); r.push_back(f == std::string::npos ? "" : c.substr(f)); c.clear(); } else c += out[i]; } if (!c.empty()) r.push_back(c); return r;
}
static void program(Rng& rng, std::vector<std::string> options, int badness)
{
	EventLog log; events = &log; files.clear(); nextId = 0; bool many = rng.chance(1, 25); long n = many ? rng.range(20, 90) : rng.range(0, 5); if (many) count("programs_of_many_files"); static const char* const names[] = { "/src/a/TestA.cpp", "/src/b/TestA.cpp", "C:\\src\\a\\TestB.cpp", "TestC.cpp", "/src/MyTestC.cpp", "/x/TestD.cpp", "D:\\TestD.cpp", "/src/a/b/TestE.cpp", "/TestC.cpp", "\\TestB.cpp" };
	for (long i = 0; i < n; i++) { File f; f.name = names[rng.below(10)]; if (many && rng.chance(1, 2)) f.name = fmt("/src/many/Test%ld.cpp", i); long k = rng.range(0, 5); for (long j = 0; j < k; j++) if (!many && rng.chance(1, 60)) { Node w; w.id = nextId++; w.kind = Category; long cases = rng.range(100, 500); for (long q = 0; q < cases; q++) { if (badness && rng.chance(badness, 800)) w.kids.push_back(makeNode(rng, InCategory, 1, badness)); else { Node c; c.id = nextId++; c.kind = Case; Node a; a.id = nextId++; a.kind = AssertPass; c.kids.push_back(a); w.kids.push_back(c); } } f.body.push_back(w); count("crowded_categories"); } else if (rng.chance(1, 15)) { f.body.push_back(makeChain(rng, badness, rng.range(3, rng.chance(1, 4) ? 40 : 14))); count("nested_chains"); } else f.body.push_back(makeNode(rng, InFile, 3, badness)); files.push_back(f); op((u64)f.body.size(), (u64)nextId); } if (nextId) nontrivial();
	// options
	bool invalid = false, d = false, r = false; std::vector<std::string> selected; for (auto& o : options) { if (o == "/D") d = true; else if (o == "/R") r = true; else if (o.size() > 3 && o.substr(0, 3) == "/F:") selected.push_back(o.substr(3)); else invalid = true; op(std::hash<std::string>()(o)); } if (d && r) invalid = true;
	auto chosen = [&](const std::string& name) { if (selected.empty()) return true; for (auto& s : selected) { if (name == s) return true; if (name.size() > s.size() && name.substr(name.size() - s.size()) == s && (name[name.size() - s.size() - 1] == '/' || name[name.size() - s.size() - 1] == '\\')) return true; } return false; };
	Model m; m.suppress = !d; std::vector<std::pair<std::string, std::vector<std::string>>> blocks; long total = 0, good = 0, skipped = 0;
	if (!invalid)
	{
		if (chosen(staticName)) { m.log.push_back("static"); m.lines = { staticName, "static_category", "static_case", "1 + 1 == 2" }; m.cases += 2; m.passed += 2; total++; good++; } else { m.lines.push_back(std::string(staticName) + " [SKIPPED]"); skipped++; }
		try { for (size_t i = 0; i < files.size(); i++) { if (!chosen(files[i].name)) { m.lines.push_back(files[i].name + " [SKIPPED]"); skipped++; continue; } m.lines.push_back(files[i].name); bool bad = m.guard([&] { m.log.push_back(fmt("F%d", (int)i)); bool b = m.nodes(files[i].body, InFile); m.log.push_back(fmt("G%d", (int)i)); if (b) m.keepFailed(); }); bad = m.take() || bad; total++; if (!bad) good++; } } catch (const Failure&) {}
	}
	LOG("options:%s", [&] { std::string s; for (auto& o : options) s += " '" + o + "'"; return s; }().c_str()); for (auto& f : files) { LOG("file %s", f.name.c_str()); for (auto& x : f.body) LOG("%s", show(x).c_str()); }
	bool wide = rng.chance(1, 2); std::string errout; Result res = execute("", [&]() -> int
	{
		std::vector<UnitTestFile*> keep; for (size_t i = 0; i < files.size(); i++) keep.push_back(new UnitTestFile(files[i].name.c_str(), procOf((int)i, std::make_index_sequence<MAXF>()))); static std::vector<UnitTestFile*>* holder; holder = new std::vector<UnitTestFile*>(keep);
		int code; try { if (wide) { std::vector<std::wstring> ws{ L"program" }; for (auto& o : options) ws.push_back(std::wstring(o.begin(), o.end())); std::vector<wchar_t*> av; for (auto& w : ws) av.push_back(&w[0]); av.push_back(nullptr); code = UnitTest::RunAndDisposeTests((int)ws.size(), av.data()); } else { std::vector<std::string> cs{ "program" }; for (auto& o : options) cs.push_back(o); std::vector<char*> av; for (auto& w : cs) av.push_back(&w[0]); av.push_back(nullptr); code = UnitTest::RunAndDisposeTests((int)cs.size(), av.data()); } code = code == 0 ? 0 : 10; } catch (...) { code = 11; } fflush(stdout); return code;
	});
	MUST(res.code == 0 || res.code == 10 || res.code == 11, "child", "the test program ended with status %d", res.code);
	auto got = log.lines(); for (size_t i = 0; i < std::max(got.size(), m.log.size()); i++) { std::string g = i < got.size() ? got[i] : "(nothing)", w = i < m.log.size() ? m.log[i] : "(nothing)"; MUST(g == w, "execution", "step %ld of the test program was '%s', expected '%s'", (long)i, g.c_str(), w.c_str()); } count("steps", got.size());
	int want = invalid ? 10 : m.stopped ? 11 : total == good ? 0 : 10; MUST(res.code == want, "verdict", "the test program %s, expected that it %s (files %ld of %ld passed)", res.code == 0 ? "succeeds" : res.code == 10 ? "reports failure" : "lets a failure escape", want == 0 ? "succeeds" : want == 10 ? "reports failure" : "lets the failure escape", good, total);
	auto lines = report(res.out); size_t at = 0; std::string all; for (auto& l : lines) all += l + "\n";
	for (auto& l : m.lines) { while (at < lines.size() && lines[at] != l) at++; MUST(at < lines.size(), "report", "'%s' is not reported, or not in order", l.c_str()); at++; }
	std::map<std::string, long> times, expect; for (auto& l : m.lines) expect[l]++; for (auto& l : lines) times[l]++; for (auto& [l, c] : expect) MUST(times[l] == c, "report", "'%s' is reported %ld times, expected %ld", l.c_str(), times[l], c); for (auto& t : m.texts) MUST(all.find(t) != std::string::npos, "report", "no message mentions the failure '%s'", t.c_str());
	if (!invalid && !m.stopped) { std::string a = fmt("Passed test files: %ld/%ld", good, total), b = fmt("Passed test cases: %ld/%ld", m.passed, m.cases); std::string shown; for (auto& l : lines) if (l.find("Passed test") == 0) shown += l + "; "; MUST(times[a] == 1 && times[b] == 1, "counts", "the summary is '%s', expected '%s; %s'", shown.c_str(), a.c_str(), b.c_str()); }
	else for (auto& l : lines) MUST(l.find("Passed test") != 0, "counts", "a program that did not complete prints '%s'", l.c_str());
	count("programs"); count("cases_run", (u64)m.cases); if (invalid) count("invalid_options"); if (skipped) count("files_skipped", (u64)skipped); if (m.stopped) count("escaped_failures"); if (!invalid && !m.stopped) { if (m.failures) count("suppressed_failures", (u64)m.failures); count(total == good ? "passing_programs" : "failing_programs"); }
}
static std::vector<std::string> selections(Rng& r) { static const char* const s[] = { "/F:TestA.cpp", "/F:a/TestA.cpp", "/F:/src/b/TestA.cpp", "/F:/TestC.cpp", "/F:\\TestB.cpp", "/F:TestB.cpp", "/F:a\\TestB.cpp", "/F:TestC.cpp", "/F:estC.cpp", "/F:TestD.cpp", "/F:C:\\src\\a\\TestB.cpp", "/F:cpp", "/F:nothing.cpp", "/F:a/b/TestE.cpp", "/F:/TestE.cpp", "/F:E.cpp", "/F:/far/longer/than/any/src/a/TestA.cpp", "/F:MyTestC.cpp", "/F:testa.cpp", "/F:c34.cpp", "/F:harness/c34.cpp" }; std::vector<std::string> v; do v.push_back(s[r.below(19)]); while (r.chance(1, 2)); return v; }
SCENARIO(passing, 2) { std::vector<std::string> o; if (rng.chance(1, 2)) o.push_back(rng.chance(1, 2) ? "/R" : "/D"); program(rng, o, 0); }
SCENARIO(failing, 6) { std::vector<std::string> o; if (rng.chance(1, 2)) o.push_back("/R"); program(rng, o, (int)rng.pick({ 3, 10, 25, 50 })); }
SCENARIO(not_suppressed, 2) { program(rng, { "/D" }, (int)rng.pick({ 3, 10, 25 })); }
SCENARIO(selected, 3) { auto o = selections(rng); if (rng.chance(1, 3)) o.insert(o.begin() + rng.below((long)o.size() + 1), rng.chance(2, 3) ? "/R" : "/D"); program(rng, o, (int)rng.pick({ 0, 5, 20 })); }
SCENARIO(options, 1) { std::vector<std::string> o; long n = rng.range(1, 3); for (long i = 0; i < n; i++) o.push_back(rng.pick({ "/D", "/R", "/X", "", "/F:", "/r", "-R", "/F", "/f:TestA.cpp", "/F:TestA.cpp", "TestA.cpp", "/DD" })); program(rng, o, 5); }
SCENARIO(outside, 1)
{
	int k = (int)rng.below(5); op((u64)k, (u64)rng.below(1000)); nontrivial(); EventLog log; events = &log; files.clear(); Result r = execute("", [&]() -> int { try { switch (k) { case 0: TEST_ASSERT(true); break; case 1: TEST_ERROR(throw Error(L"x")); break; case 2: TEST_CASE(L"c") { events->add("ran"); }); break; case 3: TEST_CATEGORY(L"c") { events->add("ran"); }); break; default: TEST_PRINT(L"p"); } } catch (const vl::unittest::UnitTestConfigError&) { return 5; } return 0; }); MUST(r.code == 5, "outside", "construct %d used while no tests run is not refused", k); MUST(log.lines().empty(), "outside", "a body ran while no tests run"); count("outside");
}
const char* const harnessProperty = "C34";
const long harnessCpuBudget = 60;
#include "main.h"
