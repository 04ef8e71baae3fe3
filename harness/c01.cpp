#include "seq.h"
#include "giant.h"
using namespace H;
#define BOTH(NAME, T) \
	SCENARIO(list_##NAME, 3) { listHistory<T>(rng, maybeHuge(rng, { rng.chance(1, 5) ? 300 : 40, 120, false }, 15, cheap<T>)); } \
	SCENARIO(array_##NAME, 1) { arrayHistory<T>(rng, maybeHuge(rng, { 40, 60, false }, 15, true)); }
#if PART == 0
BOTH(vint, vint)
BOTH(byte, unsigned char)
SCENARIO(giant, 1) { giantList(rng); }
const char* const harnessProperty = "C01";
const long harnessCpuBudget = 20;
#include "main.h"
#elif PART == 1
BOTH(tracked, Tracked)
BOTH(moveonly, MoveOnly)
#elif PART == 2
BOTH(copyonly, CopyOnly)
BOTH(trivassign, TrivAssign)
#elif PART == 3
BOTH(big, Big)
BOTH(wstring, WString)
#elif PART == 4
BOTH(keyed, Keyed)
BOTH(ptr, Ptr<Box>)
#elif PART == 5
BOTH(com, ComPtr<ComBox>)
#endif
