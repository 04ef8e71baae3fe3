// Placeholder text: grammar, length and continuation of the word cycle. Each case is a forked program, so that the
// position in the word cycle depends on the case alone.
#include "proc.h"
#include "Strings/LoremIpsum.h"
#include <memory>
using namespace H;
struct Reader
{
	std::vector<std::string> cycle; size_t at = 0; std::map<std::string, u64> seen;
	static std::string ascii(const WString& s) { std::string r; for (vint i = 0; i < s.Length(); i++) { wchar_t c = s[i]; MUST(c > 0 && c < 127, "character", "character %d of the text is %d", (int)i, (int)c); r += (char)c; } MUST(s.Buffer() && s.Buffer()[s.Length()] == 0, "character", "the text is not terminated at its length"); return r; }
	static std::vector<std::string> split(const std::string& t) { std::vector<std::string> r; if (t.empty()) return r; std::string c; for (char x : t) if (x == ' ') { r.push_back(c); c.clear(); } else c += x; r.push_back(c); return r; }
	static void word(const std::string& w, bool upper, const std::string& all)
	{
		MUST(!w.empty(), "grammar", "an empty word (two spaces, or a space at an end) in '%.80s'", all.c_str()); MUST(upper ? (w[0] >= 'A' && w[0] <= 'Z') : (w[0] >= 'a' && w[0] <= 'z'), "casing", "word '%s' starts with the wrong case in '%.80s'", w.c_str(), all.c_str()); for (size_t i = 1; i < w.size(); i++) MUST((w[i] >= 'a' && w[i] <= 'z') || (i + 1 == w.size() && w[i] == ';'), "grammar", "word '%s' is not a word", w.c_str());
	}
	static std::string lower(std::string w) { if (!w.empty() && w[0] >= 'A' && w[0] <= 'Z') w[0] = (char)(w[0] + 32); return w; }
	// learn the cycle from one long text
	void learn()
	{
		auto ws = split(ascii(LoremIpsum(9000, LoremIpsumCasing::AllWordsLowerCase))); for (auto& w : ws) word(w, false, "long text"); MUST(ws.size() > 500, "length", "9000 characters have only %ld words", (long)ws.size()); size_t p = 1; for (; p < ws.size(); p++) { bool ok = true; for (size_t i = 0; ok && i + p < ws.size(); i++) ok = ws[i] == ws[i + p]; if (ok) break; } MUST(p * 2 <= ws.size(), "cycle", "the words do not repeat in a cycle"); MUST(p > 20, "cycle", "the words repeat after %ld", (long)p); cycle.assign(ws.begin(), ws.begin() + (long)p); at = ws.size() % p;
	}
	const std::string& next() { auto& w = cycle[at]; at = (at + 1) % cycle.size(); return w; }
	// plain text of the three casings (a trailing period is taken off before)
	void plain(const std::string& t, long n, int casing, const char* what)
	{
		if (n <= 0) { MUST(t.empty(), "length", "%s of length %ld is not empty", what, n); return; } auto ws = split(t); MUST(!ws.empty(), "length", "%s of length %ld is empty", what, n);
		size_t start = at; for (size_t i = 0; i < ws.size(); i++) { word(ws[i], casing == 2 || (casing == 1 && i == 0), t); auto& w = next(); MUST(lower(ws[i]) == w, "cycle", "%s of length %ld: word %ld is '%s', the word sequence continues with '%s'", what, n, (long)i, ws[i].c_str(), w.c_str()); }
		// no other word boundary is nearer
		long len = (long)t.size(), shorter = len - 1 - (long)ws.back().size(), longer = len + 1 + (long)cycle[at].size(); long d = labs(len - n); MUST(ws.size() == 1 || labs(shorter - n) >= d, "length", "%s of length %ld has %ld characters, one word less would have %ld", what, n, len, shorter); MUST(labs(longer - n) >= d, "length", "%s of length %ld has %ld characters, one word more would have %ld", what, n, len, longer); (void)start; if (len < n) seen["ended_short"]++; if (len > n) seen["ended_long"]++; if (len == n) seen["ended_exactly"]++; seen["texts"]++;
	}
	void paragraph(const std::string& t, long n)
	{
		if (n <= 0) { MUST(t.empty(), "length", "a paragraph of length %ld is not empty", n); return; } MUST(labs((long)t.size() - n) <= 24, "length", "a paragraph of length %ld has %ld characters", n, (long)t.size()); MUST(!t.empty(), "length", "a paragraph of length %ld is empty", n);
		bool upper = true; size_t i = 0; bool afterWord = false; while (i < t.size())
		{
			if (t[i] == '.' || t[i] == ',') { bool last = i + 1 == t.size(); if (t[i] == ',') MUST(!last && t[i + 1] == ' ', "grammar", "a comma without a space in '%s'", t.c_str()); if (!afterWord) MUST(t[i] == '.' && last, "grammar", "punctuation without a word in '%s'", t.c_str()); if (last) { MUST(t[i] == '.', "grammar", "'%s' ends without a period", t.c_str()); seen[n < 20 ? "short_paragraphs" : "paragraphs"]++; return; } MUST(t[i + 1] == ' ', "grammar", "no space after punctuation in '%s'", t.c_str()); upper = t[i] == '.'; seen[upper ? "sentences_in_paragraphs" : "clauses_in_paragraphs"]++; afterWord = false; i += 2; continue; }
			if (afterWord) { MUST(t[i] == ' ', "grammar", "'%s' has an unexpected character at %ld", t.c_str(), (long)i); i++; }
			size_t e = i; while (e < t.size() && t[e] != ' ' && t[e] != '.' && t[e] != ',') e++; std::string w = t.substr(i, e - i); word(w, upper, t); auto& x = next(); MUST(lower(w) == x, "cycle", "word '%s' of a paragraph does not continue the word sequence ('%s')", w.c_str(), x.c_str()); upper = false; afterWord = true; i = e;
		}
		// the text may end after the separator of a clause that filled the paragraph
		MUST(t.size() >= 2 && t.back() == ' ' && (t[t.size() - 2] == ',' || t[t.size() - 2] == '.') && (long)t.size() >= n, "grammar", "'%s' does not end properly", t.c_str()); seen["ended_in_a_clause"]++;
	}
};
static long length(Rng& r) { switch (r.below(8)) { case 0: return -r.below(100); case 1: return r.pick({ 0l, 1l, 2l, 3l, -1l, -1000000000000l, 4l }); case 2: return r.range(1, 20); case 3: return r.chance(1, 20) ? r.range(10000, 60000) : r.range(100, 3000); default: return r.range(1, 130); } }
static void history(Rng& rng, bool sweep)
{
	struct Call { int kind; long n; }; std::vector<Call> plan; if (sweep) { long from = rng.range(-3, 150); for (long i = 0; i < 60; i++) plan.push_back({ (int)rng.below(3), from + i }); } else { long k = rng.range(1, 25); for (long i = 0; i < k; i++) plan.push_back({ (int)rng.below(6), length(rng) }); } for (auto& c : plan) { op((u64)c.kind, (u64)c.n); if (c.n > 0) nontrivial(); } bool cold = rng.chance(1, 4); struct Out { u64 v[16]; }; static const char* names[] = { "ended_short", "ended_long", "ended_exactly", "texts", "short_paragraphs", "paragraphs", "sentences_in_paragraphs", "clauses_in_paragraphs", "ended_in_a_clause", "first_texts" }; Out* out = (Out*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Result r = execute("", [&]() -> int
	{
		Reader x; std::string first; if (cold) { first = Reader::ascii(LoremIpsum(200, LoremIpsumCasing::AllWordsLowerCase)); } x.learn(); if (cold) { size_t k = 0; auto ws = Reader::split(first); MUST(!ws.empty(), "length", "the first text is empty"); size_t len = x.cycle.size(); for (size_t i = 0; i < ws.size(); i++) { auto& w = x.cycle[(len - ws.size() % len + i) % len]; MUST(ws[i] == w, "cycle", "the first text does not precede the second in the word sequence"); } x.seen["first_texts"]++; }
		for (auto& c : plan) switch (c.kind)
		{
		case 0: x.plain(Reader::ascii(LoremIpsum(c.n, LoremIpsumCasing::AllWordsLowerCase)), c.n, 0, "text"); break;
		case 1: x.plain(Reader::ascii(LoremIpsum(c.n, LoremIpsumCasing::FirstWordUpperCase)), c.n, 1, "capitalised text"); break;
		case 2: x.plain(Reader::ascii(LoremIpsum(c.n, LoremIpsumCasing::AllWordsUpperCase)), c.n, 2, "text with all words capitalised"); break;
		case 3: x.plain(Reader::ascii(LoremIpsumTitle(c.n)), c.n, 2, "title"); break;
		case 4: { std::string t = Reader::ascii(LoremIpsumSentence(c.n)); MUST(!t.empty() && t.back() == '.', "grammar", "a sentence of length %ld has no period", c.n); t.pop_back(); x.plain(t, c.n, 1, "sentence"); break; }
		default: x.paragraph(Reader::ascii(LoremIpsumParagraph(c.n)), c.n);
		}
		for (int i = 0; i < 10; i++) out->v[i] = x.seen[names[i]]; return 0;
	});
	MUST(r.code == 0, "child", "the program ended with status %d", r.code); for (int i = 0; i < 10; i++) if (out->v[i]) count(names[i], out->v[i]); munmap(out, 4096);
}
SCENARIO(calls, 5) { history(rng, false); }
SCENARIO(sweep, 2) { history(rng, true); }
const char* const harnessProperty = "C36";
const long harnessCpuBudget = 60;
#include "main.h"
