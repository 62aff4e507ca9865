// Simulation runtime: the seams the simulator owns.
//  * heap:      global operator new/delete -> arena with seeded placement, contents, failures
//  * schedule:  the library is compiled with -fsanitize=thread / -fsanitize-coverage=trace-pc and
//               linked against OUR __tsan_* / __sanitizer_cov_* callbacks, so every memory access
//               and basic block of library code is a scheduling point
//  * threads:   real pthreads, parked; exactly one holds the baton
//  * sync:      pthread mutex/once and static-init guards are emulated for simulated threads
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <string>
#include <vector>

namespace rt {

typedef uint64_t u64;
typedef uint32_t u32;

struct Rng {               // splitmix64 / xorshift: the only source of choice
    u64 s;
    explicit Rng(u64 seed = 1) : s(seed) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
    bool chance(double p) { return unit() < p; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull)); r.next(); return r.next(); }

const int MAXT = 8;             // simulated caller threads
const int MAXSW = 6000;         // recorded switches per run
const int MAXFAULT = 256;

enum FaultKind { F_NONE = 0, F_ONCE = 1, F_BURST = 2, F_STICKY = 3, F_LARGE = 4, F_RATE = 5, F_NKINDS = 6 };
struct Fault { int kind = 0; u64 nth = 0; u64 arg = 0; };   // arg: burst length / size limit / rate seed

enum FillMode { FILL_STALE = 0, FILL_RANDOM = 1, FILL_ZERO = 2, FILL_FF = 3, FILL_POINTERISH = 4, FILL_NMODES = 5 };
enum Layout { LAY_LIFO = 0, LAY_FIFO = 1, LAY_BUMP = 2, LAY_RANDOM = 3, LAY_NMODES = 4 };

enum Strategy { ST_SEQ = 0, ST_OPRR = 1, ST_RANDOM = 2, ST_PCT = 3, ST_REPLAY = 4 };

struct SwitchRec { int client, op; u32 step; int target; int forced; int world; u64 pc; };

struct Shared {                 // parent/child result page
    int done;                   // child finished normally
    int violated;               // 1: violation  2: the run ended outside the property's scope
    char cls[48];
    char detail[700];
    u64 hash;                   // event-log hash
    u64 steps, events;
    u64 switches, preempts_in_call, forced_switches, stalls;
    u64 allocs, frees, alloc_bytes;
    u64 fault_armed[F_NKINDS], fault_fired[F_NKINDS];
    u64 fills[FILL_NMODES], layouts[LAY_NMODES];
    u64 ops, ops_ok, ops_failed, ops_skipped, ops_retried, oracle_evals, nontrivial;
    u64 probes[64];
    u64 ileave_hash;
    u64 atomics, mutex_ops;
    u64 edges;                  // distinct library basic blocks reached
    int nsw; SwitchRec sw[MAXSW];
    int nfault; struct { int client, op; int kind; u64 nth, arg, total; u64 fired; } faults[MAXFAULT];
    int nsample; char sample[1200];
};
extern Shared *sh;
extern uint8_t *edge_map;       // shared 64K map over library basic blocks (batch-wide)
extern uint8_t *preempt_map;    // shared 64K map: pcs at which a call was preempted

// --- global switches for one run
extern bool chk_heap;           // report invalid heap accesses of library code
extern bool chk_race;           // report data races of library code
extern bool verbose;

void init_process();            // map arena and shadows, once
void begin_world(u64 seed, int fill_mode, int layout, int world);
void end_world();
u64 live_blocks(); u64 live_bytes();
void set_budget(u64 steps);     // per-call step budget (0 = none)

// --- threads
struct Sched { int strategy = ST_SEQ; u64 seed = 0; u32 mean = 100; int pct_depth = 3; u64 pct_len = 20000; const std::vector<SwitchRec> *replay = nullptr; };
void run_threads(const Sched &s, const std::vector<std::function<void()>> &fns, const std::vector<int> &client_ids);
int self_tid();

// --- per operation
void op_begin(int client, int op);
u64 op_allocs(); u64 op_steps(); u64 op_fired(); size_t op_maxalloc();
void arm(const Fault &f);
void disarm();
void op_point();                // schedule point at an operation boundary
void scribble_stack();
extern bool large_run;                   // tables so large that running out of simulated memory says nothing
void set_scope(bool on);         // does the property speak about the operation that runs now

struct Lib {                    // inside: code counts as library code
    Lib(); ~Lib();
};
struct Quiet {                  // library code with preemption, faults and budget off (harness reads)
    int sv; Quiet(); ~Quiet();
};

u64 next_lock_id();
struct RwLock { u64 id = next_lock_id(); int readers = 0; bool writer = false; u32 vcw[MAXT] = {0,0,0,0}, vcr[MAXT] = {0,0,0,0}; void rd(); void wr(); void urd(); void uwr(); };

void log_event(u64 v);
void log_bytes(const void *p, size_t n);
[[noreturn]] void violate(const char *cls, const std::string &detail);
void trace(const char *fmt, ...);
inline void probe(int i) { sh->probes[i]++; }
extern u32 cur_world_pref_mode;
}
