// Lifecycle of global resources: every use, finalisation and program exit against a model of the registration list.
#include "proc.h"
#include "GlobalStorage.h"
#include <memory>
using namespace H;
static EventLog* events; static std::vector<std::vector<int>> initUses, finalUses; // which resources the initialisation / finalisation of one uses
static std::vector<int> finalNested; static bool exiting = false; // what the finalisation of one does on top: 1 = finalise everything, 2 = finalise itself
static void use(int i);
struct Life { int id; bool alive = false; Life(int i) : id(i) {} void up(); void down(GlobalStorage* me); };
void Life::up() { if (alive) VIOLATION("initialised-twice", "resource %d was initialised while it was alive", id); alive = true; events->add(fmt("I%d", id)); for (int j : initUses[(size_t)id]) use(j); }
void Life::down(GlobalStorage* me) { if (!alive) VIOLATION("finalised-early", "resource %d was finalised while it was not alive", id); for (int j : finalUses[(size_t)id]) use(j); alive = false; if (!exiting && (size_t)id < finalNested.size()) { if (finalNested[(size_t)id] == 1) FinalizeGlobalStorage(); else if (finalNested[(size_t)id] == 2) me->EnsureFinalized(); } events->add(fmt("F%d", id)); }
#define RESOURCE(NAME, N) BEGIN_GLOBAL_STORAGE_CLASS(NAME) Life life{ N }; int* heap = nullptr; \
	INITIALIZE_GLOBAL_STORAGE_CLASS life.up(); if (heap) VIOLATION("state", "old state"); heap = new int(N); \
	FINALIZE_GLOBAL_STORAGE_CLASS delete heap; heap = nullptr; life.down(this); END_GLOBAL_STORAGE_CLASS(NAME)
RESOURCE(R0, 0) RESOURCE(R1, 1) RESOURCE(R2, 2) RESOURCE(R3, 3) RESOURCE(R4, 4) RESOURCE(R5, 5) RESOURCE(R6, 6) RESOURCE(R7, 7) RESOURCE(R8, 8) RESOURCE(R9, 9)
static constexpr int FIXED = 10;
// a resource written by hand, as many as wanted
struct Dynamic : public GlobalStorage, private GlobalStorageDescriptor
{
	Life life; int* heap = nullptr; Dynamic(int id) : life(id) { globalStorage = this; RegisterStorageDescriptor(this); } ~Dynamic() { EnsureFinalized(); }
	void InitializeResource() override { life.up(); heap = new int(life.id); } void FinalizeResource() override { delete heap; heap = nullptr; life.down(this); }
};
static std::vector<std::unique_ptr<Dynamic>>& dynamics() { static std::vector<std::unique_ptr<Dynamic>> v; return v; } // destroyed at program exit
static GlobalStorage& get(int i)
{
	switch (i) { case 0: return GetR0(); case 1: return GetR1(); case 2: return GetR2(); case 3: return GetR3(); case 4: return GetR4(); case 5: return GetR5(); case 6: return GetR6(); case 7: return GetR7(); case 8: return GetR8(); case 9: return GetR9(); }
	auto& d = dynamics()[(size_t)(i - FIXED)]; if (!d) d.reset(new Dynamic(i)); d->EnsureInitialized(); return *d;
}
static void use(int i) { auto& g = get(i); if (!g.IsInitialized()) VIOLATION("not-initialised", "resource %d is not initialised after use", i); }
struct Model
{
	std::vector<int> order; std::vector<bool> known, up; std::vector<std::string> log; Model(int n) : known((size_t)n), up((size_t)n) {}
	void use(int i) { if (!known[(size_t)i]) { known[(size_t)i] = true; order.push_back(i); } init(i); }
	void init(int i) { if (up[(size_t)i]) return; up[(size_t)i] = true; log.push_back(fmt("I%d", i)); for (int j : initUses[(size_t)i]) use(j); }
	void fin(int i) { if (!up[(size_t)i]) return; up[(size_t)i] = false; for (int j : finalUses[(size_t)i]) use(j); if ((size_t)i < finalNested.size() && finalNested[(size_t)i] == 1) all(); log.push_back(fmt("F%d", i)); }
	void all() { for (size_t k = 0; k < order.size(); k++) fin(order[k]); }
};
static void history(Rng& rng, int total, bool finalisersUse)
{
	finalNested.assign((size_t)total, 0); if (!finalisersUse && rng.chance(1, 4)) { for (auto& x : finalNested) if (rng.chance(1, 3)) x = (int)rng.range(1, 2); count("nested_finalisations"); }
	EventLog log; events = &log; initUses.assign((size_t)total, {}); finalUses.assign((size_t)total, {}); if (!finalisersUse && rng.chance(2, 3)) for (auto& v : initUses) while (rng.chance(1, 4)) v.push_back((int)rng.below(total));
	long steps = rng.range(1, 40); struct Step { int kind, id; }; std::vector<Step> plan; for (long k = 0; k < steps; k++) plan.push_back({ (int)rng.below(12), (int)rng.below(total) }); bool finishFirst = finalisersUse || rng.chance(1, 3); Model m(total);
	// the finaliser of a resource may use resources registered later: plan them from the registration order of a dry run
	if (finalisersUse) { Model d(total); for (auto& s : plan) if (s.kind < 7) d.use(s.id); for (size_t a = 0; a < d.order.size(); a++) if (rng.chance(1, 4)) { size_t b = a + 1 + (size_t)rng.below((long)(d.order.size() - a)); if (b < d.order.size()) finalUses[(size_t)d.order[a]].push_back(d.order[b]); } }
	// what has to happen
	std::vector<bool> seen((size_t)total); for (auto& s : plan)
	{
		switch (s.kind) { default: m.use(s.id); seen[(size_t)s.id] = true; break; case 7: case 8: m.all(); count("global_finalisations"); break; case 9: if (seen[(size_t)s.id]) m.fin(s.id); break; case 10: if (seen[(size_t)s.id]) m.init(s.id); break; case 11: m.all(); m.all(); count("global_finalisations"); break; }
		m.log.push_back("-"); std::string states; for (int i = 0; i < total; i++) states += !seen[(size_t)i] ? '?' : m.up[(size_t)i] ? '1' : '0'; m.log.push_back("S" + states); op((u64)s.kind, (u64)s.id);
	}
	if (finishFirst) { m.all(); m.log.push_back("-"); } m.log.push_back("exit");
	if (finalisersUse) for (bool u : m.up) if (u) { count("not_run"); return; } // a finaliser revived a resource that was already finalised: such a program is not run
	Result r = execute("", [&]() -> int
	{
		if (total > FIXED) dynamics().resize((size_t)(total - FIXED)); std::vector<GlobalStorage*> seen((size_t)total); 
		for (auto& s : plan)
		{
			switch (s.kind) { default: seen[(size_t)s.id] = &get(s.id); if (!seen[(size_t)s.id]->IsInitialized()) VIOLATION("not-initialised", "resource %d is not initialised after use", s.id); break; case 7: case 8: FinalizeGlobalStorage(); break; case 9: if (seen[(size_t)s.id]) seen[(size_t)s.id]->EnsureFinalized(); break; case 10: if (seen[(size_t)s.id]) seen[(size_t)s.id]->EnsureInitialized(); break; case 11: FinalizeGlobalStorage(); FinalizeGlobalStorage(); break; }
			events->add("-"); std::string states; for (auto g : seen) states += !g ? '?' : g->IsInitialized() ? '1' : '0'; events->add("S" + states);
		}
		if (finishFirst) { FinalizeGlobalStorage(); events->add("-"); } exiting = true; events->add("exit"); return 0;
	});
	MUST(r.code == 0, "child", "the program using global resources ended with status %d", r.code);
	auto got = log.lines(); for (size_t i = 0; i < m.log.size(); i++) { std::string g = i < got.size() ? got[i] : "(nothing)"; MUST(g == m.log[i], "event", "event %ld is '%s', expected '%s' (resources in registration order, %ld registered)", (long)i, g.c_str(), m.log[i].c_str(), (long)m.order.size()); count("events"); }
	// at exit: exactly the initialised ones, in any order
	std::multiset<std::string> last(got.begin() + (long)m.log.size(), got.end()), want; for (int i = 0; i < total; i++) if (m.up[(size_t)i]) want.insert(fmt("F%d", i)); if (!want.empty()) count("finalised_at_exit", want.size()); MUST(last == want, "exit", "%ld resources were alive at program exit, %ld events followed", (long)want.size(), (long)last.size()); if (m.order.size() >= 2) nontrivial(); if (m.order.size() >= 30) count("many_resources");
	{ std::set<std::string> ups; bool again = false; for (auto& e : m.log) if (e[0] == 'I') again |= !ups.insert(e).second; if (again) count("used_again"); } for (auto& v : initUses) if (!v.empty()) { count("nested_uses"); break; } for (auto& v : finalUses) if (!v.empty()) { count("finalisers_using_others"); break; }
}
SCENARIO(few, 4) { history(rng, (int)rng.range(1, 5), false); }
SCENARIO(some, 4) { history(rng, FIXED, false); }
SCENARIO(many, 2) { history(rng, (int)rng.range(FIXED + 1, 60), false); }
SCENARIO(finalisers, 2) { history(rng, (int)rng.range(2, 25), true); }
SCENARIO(all_of_many, 1)
{
	finalNested.clear();
	int n = (int)rng.range(40, 300); EventLog log; events = &log; initUses.assign((size_t)n, {}); finalUses.assign((size_t)n, {}); std::vector<int> order; for (int i = 0; i < n; i++) order.push_back(i); for (int i = n - 1; i > 0; i--) std::swap(order[(size_t)i], order[(size_t)rng.below(i + 1)]); nontrivial(); op((u64)n, (u64)order[0]);
	Result r = execute("", [&]() -> int { dynamics().resize((size_t)(n - FIXED)); for (int round = 0; round < 2; round++) { for (int i : order) use(i); FinalizeGlobalStorage(); } return 0; }); MUST(r.code == 0, "child", "the program ended with status %d", r.code); std::vector<std::string> want; for (int round = 0; round < 2; round++) { for (int i : order) want.push_back(fmt("I%d", i)); for (int i : order) want.push_back(fmt("F%d", i)); } MUST(log.lines() == want, "event", "%d resources are not initialised and finalised in registration order, twice", n); count("many_resources");
}
const char* const harnessProperty = "C33";
const long harnessCpuBudget = 60;
#include "main.h"
