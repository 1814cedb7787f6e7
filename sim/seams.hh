#pragma once
// Link-level seams owned by the simulator: clocks, allocator, GF-Complete, thread switches.
#include <cstdint>
#include <cstddef>
#include <new>
#include <exception>

namespace seam {

// --- clocks ---------------------------------------------------------------------------------
extern thread_local int64_t mono_ns;  // what steady_clock shows
extern thread_local int64_t wall_ns;  // what system_clock shows
extern uint64_t clock_reads;

// --- library scope: allocations are counted / failed only inside library code ------------------
extern thread_local int lib_depth;
struct LibScope { LibScope(); ~LibScope(); };
struct HarnessScope { int saved; HarnessScope() : saved(lib_depth) { lib_depth = 0; } ~HarnessScope() { lib_depth = saved; } };

extern long alloc_seen;   // allocations inside the library since arming
extern long alloc_fail;   // index (1 based) of the one that fails, 0 = none
extern long alloc_fired;  // how many failed since arming
extern long live_blocks;  // operator new blocks made inside the library, not yet freed
void arm_alloc(long k);
void disarm_alloc();

// --- GF-Complete --------------------------------------------------------------------------------
extern uint64_t gf_region_ops;

// --- yield points ---------------------------------------------------------------------------------
enum Yield { Y_HANDLER, Y_CLOCK, Y_ALLOC, Y_GF };
extern void (*yield_hook)(Yield);
inline void yield(Yield y) { if (yield_hook) yield_hook(y); }

double real_now();   // real monotonic seconds, for budgets only
double real_cpu();
}
