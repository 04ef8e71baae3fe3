// Append-only allocator and byte map.
#include "util.h"
#include <memory>
using namespace H;
struct Cell { long v = 0; char pad[11]; };
template<typename T> T mk(long v); template<> Tracked mk<Tracked>(long v) { return Tracked((int)v); } template<> Cell mk<Cell>(long v) { Cell c; c.v = v; memset(c.pad, (int)v, 11); return c; } template<> vint mk<vint>(long v) { return v * 1000003; }
static bool is(const Tracked& t, long v) { return t.v() == v; } static bool is(const Cell& c, long v) { if (c.v != v) return false; for (char x : c.pad) if (x != (char)v) return false; return true; } static bool is(const vint& x, long v) { return x == v * 1000003; }
template<typename T> void allocator(Rng& rng)
{
	LifetimeScope scope;
	{
		vint block = rng.chance(1, 3) ? rng.range(1, 3) : rng.chance(1, 2) ? rng.range(4, 40) : 257; bool dflt = !std::is_same_v<T, Tracked> && rng.chance(1, 60);
		std::unique_ptr<PushOnlyAllocator<T>> a(dflt ? new PushOnlyAllocator<T>() : new PushOnlyAllocator<T>(block)); std::vector<T*> made; std::vector<long> val; long n = dflt ? 65536 + rng.range(1, 50) : rng.range(0, 6 * block > 300 ? 300 : 6 * block + 3); LOG("block %ld, %ld objects", (long)block, n);
		if (block == 257) n = rng.range(250, 800); if (!dflt && block <= 40 && rng.chance(1, 60)) { n = rng.range(2000, 6000); count("many_blocks"); }
		MUST(a->Get(0) == nullptr && a->Get(5) == nullptr, "early", "an object is retrievable before creation");
		for (long i = 0; i < n; i++)
		{
			T* p = a->Create(); MUST(p, "null", "Create returned nothing"); made.push_back(p); long v = rng.below(100000); *p = mk<T>(v); val.push_back(v);
			if (!dflt || i % 5000 == 0 || i > 65530) { MUST(a->Get(i) == p, "get", "block %ld: object %ld is not retrievable at its index", (long)block, i); MUST(a->Get(i + 1) == nullptr, "early", "object %ld is retrievable before its creation", i + 1); long k = rng.below(i + 1); MUST(a->Get(k) == made[k] && is(*made[k], val[k]), "stable", "block %ld: object %ld moved or changed after creating %ld", (long)block, k, i + 1); if (rng.chance(1, 4)) { val[k] = rng.below(100000); *made[k] = mk<T>(val[k]); } }
			count("objects_created");
		}
		for (long i = 0; i < n; i++) MUST(a->Get(i) == made[i] && is(*made[i], val[i]), "content", "block %ld: object %ld of %ld is not what was stored", (long)block, i, n);
		for (vint k : { n, n + 1, n + (long)block, n * 2 + 7 }) MUST(a->Get(k) == nullptr, "past-end", "index %ld beyond %ld objects gives an object", (long)k, n);
		std::sort(made.begin(), made.end()); for (size_t i = 1; i < made.size(); i++) MUST((char*)made[i] - (char*)made[i - 1] >= (long)sizeof(T), "overlap", "two objects overlap");
		op(block, n); if (n > block) { nontrivial(); count("multi_block"); }
	}
	scope.check("the allocator");
}
SCENARIO(alloc_tracked, 2) { allocator<Tracked>(rng); }
SCENARIO(alloc_cell, 1) { allocator<Cell>(rng); }
SCENARIO(alloc_vint, 1) { allocator<vint>(rng); }
SCENARIO(byte_maps, 6)
{
	ByteObjectMap<Cell>::Allocator allocator(rng.chance(1, 2) ? rng.range(1, 6) : rng.range(7, 90)); long maps = rng.range(1, 4); std::vector<std::unique_ptr<ByteObjectMap<Cell>>> ms; std::vector<std::map<int, Cell*>> ref(maps); for (long i = 0; i < maps; i++) ms.emplace_back(new ByteObjectMap<Cell>);
	static Cell cells[512]; auto checkAll = [&] { for (long m = 0; m < maps; m++) for (int k = 0; k < 256; k++) { auto it = ref[m].find(k); Cell* w = it == ref[m].end() ? nullptr : it->second; Cell* g = ms[m]->Get((vuint8_t)k); MUST(g == w, "map", "map %ld: key %d gives %s", m, k, !w ? "an object though nothing was stored" : g ? "another object" : "nothing"); } count("keys_compared", 256 * maps); };
	long steps = rng.chance(1, 5) ? 256 * maps : rng.range(1, 60); int order = (int)rng.below(3); checkAll(); std::vector<int> nearby; for (int i = 0; i < 6; i++) nearby.push_back((int)rng.below(256));
	for (long s = 0; s < steps; s++)
	{
		long m = rng.below(maps); int k = order == 0 ? (int)rng.below(256) : order == 1 ? (int)(s % 256) : (nearby[rng.below(6)] ^ (int)rng.below(4) << 2 * (int)rng.below(4)) & 255; Cell* c = rng.chance(1, 12) ? nullptr : &cells[rng.below(512)];
		ms[m]->Set((vuint8_t)k, c, allocator); ref[m][k] = c; op(m * 256 + k, c ? c - cells : 999); LOG("map %ld: %d = %ld", m, k, c ? (long)(c - cells) : -1L); if (rng.chance(1, 10) || steps < 12) checkAll(); else MUST(ms[m]->Get((vuint8_t)k) == c, "map", "map %ld: key %d does not give what was stored", m, k);
	}
	checkAll(); nontrivial(); count("map_histories");
}
const char* const harnessProperty = "C14";
const long harnessCpuBudget = 30;
#include "main.h"
