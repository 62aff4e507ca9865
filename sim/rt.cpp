#include "rt.h"
#include <new>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <map>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <execinfo.h>

// the runtime's own fills must not pass through the wrapped functions
extern "C" void *__real_memset(void *, int, size_t);
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_realloc(void *, size_t);
#define fill_bytes __real_memset
namespace rt {

// ------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SZ = 1024ull << 20;
static uint8_t *live_sh;                 // one byte per 8: number of addressable leading bytes
struct Cell { u32 we[MAXT], re[MAXT]; uint8_t wm[MAXT], rm[MAXT]; };
static Cell *cells;                      // one per 8 bytes of arena
static Cell *gcells; static uintptr_t gbase, gend;   // .data/.bss of this binary

Shared *sh; uint8_t *edge_map, *preempt_map;
bool chk_heap, chk_race, verbose;
extern "C" char __data_start, _end;

// ------------------------------------------------------------------ threads
struct Thr {
    int tid, client, opix; bool scope; u64 nextbudget;
    pthread_t th; sem_t sem;
    int state;                // 0 ready 1 blocked 2 done
    int opstep_valid;
    u32 vc[MAXT];
    std::function<void()> fn;
    u64 opstep; u64 opallocs; u64 opfired; size_t opmax;
    Fault fault; int fault_on; u64 frate;
    u64 budget;
    int prio;
    u64 parked_since;
    bool in_call;
    char *stk; size_t stksz;
};
static Thr thr[MAXT];
static int nthr;
static thread_local Thr *me;
static thread_local int tl_lib;          // >0: library code
static thread_local int tl_quiet;        // >0: no preemption / faults / budget
static thread_local int tl_rt;           // inside the runtime
static bool concurrent;
static sem_t main_sem;
static u64 gstep;
static long countdown;
static Sched sc;
static Rng sched_rng(1);
static std::vector<SwitchRec> *rp[MAXT];  // replay lists per thread
static size_t rpi[MAXT];
static u32 phase_clock;                  // everything <= is ordered before the current phase
static u64 pct_points[16]; static int pct_n, pct_i, pct_low;
static std::map<uintptr_t, std::vector<u32>> *avc;   // vector clocks of atomics/mutexes
static int cur_world;

struct Rt { int sv; Rt() { sv = tl_lib; tl_lib = 0; tl_rt++; } ~Rt() { tl_lib = sv; tl_rt--; } };

Lib::Lib() { if (me) me->in_call = true; tl_lib++; }
Lib::~Lib() { tl_lib--; if (me && !tl_lib) me->in_call = false; }
Quiet::Quiet() { sv = tl_lib; tl_lib = 0; tl_quiet++; }
u64 next_lock_id() { static u64 n; return ++n; }
Quiet::~Quiet() { tl_quiet--; tl_lib = sv; }

int self_tid() { return me ? me->tid : -1; }

// ------------------------------------------------------------------ log
void log_event(u64 v) { u64 h = sh->hash; h ^= v; h *= 0x100000001B3ull; h ^= h >> 29; sh->hash = h; sh->events++; }
void log_bytes(const void *p, size_t n) { const uint8_t *b = (const uint8_t *)p; u64 w = 0; for (size_t i = 0; i < n; i++) { w = (w << 8) | b[i]; if ((i & 7) == 7) { log_event(w); w = 0; } } if (n & 7) log_event(w); }
void trace(const char *fmt, ...) {
    if (!verbose) return;
    Rt g; va_list ap; va_start(ap, fmt); vfprintf(stdout, fmt, ap); va_end(ap);
}
// a call that crashes, hangs or throws decides only the properties that speak about that call
static int verdict(const char *cls) { bool gen = !strcmp(cls, "CRASH") || !strcmp(cls, "HANG") || !strcmp(cls, "EXCEPTION") || !strcmp(cls, "NULL"); return gen && me && !me->scope ? 2 : 1; }
void set_budget(u64 s) { if (me) me->nextbudget = s; }
void set_scope(bool on) { if (me) me->scope = on; }
[[noreturn]] void violate(const char *cls, const std::string &detail) {
    Rt g;
    if (!sh->violated) {
        sh->violated = verdict(cls);
        snprintf(sh->cls, sizeof sh->cls, "%s", cls);
        snprintf(sh->detail, sizeof sh->detail, "%s", detail.c_str());
        trace("VIOLATED %s: %s\n", cls, detail.c_str());
    }
    fflush(stdout);
    _exit(3);
}

// ------------------------------------------------------------------ heap
struct Hdr { u32 size; u32 magic; u32 seq; u32 cls; Hdr *next; u64 pad; };   // 32 bytes
static_assert(sizeof(Hdr) == 32, "hdr");
static const u32 LIVE = 0xA110CA7E, DEAD = 0xDEADBEEF;
static uint8_t *bump, *arena_end; bool large_run;
static const int NCLS = 2048;            // 16-byte classes up to 32K
static Hdr *freel[NCLS]; static Hdr *freetail[NCLS]; static u32 freen[NCLS];
static const int NBIG = 1024; static Hdr *bigl[NBIG]; static int nbig;   // freed blocks above 32K, used again when the arena gets full
static int fill_mode, layout; static Rng heap_rng(1); static u32 seqno; static u64 nlive, blive;
u64 live_blocks() { return nlive; }
u64 live_bytes() { return blive; }


static void on_sig(int sig, siginfo_t *si, void *) {
    char b[128]; uintptr_t a = (uintptr_t)si->si_addr; const char *w = "elsewhere";
    if (me && a >= (uintptr_t)me->stk && a < (uintptr_t)me->stk + 65536) w = "stack overflow";
    else if (a < 65536) w = "null";
    else if (a >= ARENA && a < ARENA + ARENA_SZ) w = "heap";
    snprintf(b, sizeof b, "signal %d in client %d op %d (%s)", sig, me ? me->client : -9, me ? me->opix : -9, w);
    if (!sh->violated) { sh->violated = verdict("CRASH"); snprintf(sh->cls, sizeof sh->cls, "CRASH"); snprintf(sh->detail, sizeof sh->detail, "%s", b); if (verbose) { printf("VIOLATED CRASH: %s\n", b); fflush(stdout);} }
    _exit(3);
}
static void altstack() {
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 65536; ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); sigaltstack(&ss, 0);
}
static void *xmap(uintptr_t at, size_t n) {
    void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (at ? MAP_FIXED_NOREPLACE : 0), -1, 0);
    if (p == MAP_FAILED || (at && p != (void *)at)) { perror("mmap"); _exit(70); }
    return p;
}
void init_process() {
    xmap(ARENA, ARENA_SZ);
    live_sh = (uint8_t *)xmap(0, ARENA_SZ / 8);
    cells = (Cell *)xmap(0, ARENA_SZ / 8 * sizeof(Cell));
    gbase = (uintptr_t)&__data_start & ~7ull; gend = ((uintptr_t)&_end + 7) & ~7ull;
    gcells = (Cell *)xmap(0, ((gend - gbase) / 8 + 1) * sizeof(Cell));
    bump = (uint8_t *)ARENA + 4096; arena_end = (uint8_t *)ARENA + ARENA_SZ;
    avc = new std::map<uintptr_t, std::vector<u32>>();
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT};
    for (int s : sigs) sigaction(s, &sa, 0);
    altstack();
    sem_init(&main_sem, 0, 0);
}
static void fill(uint8_t *p, size_t n) {
    switch (fill_mode) {
    case FILL_STALE: return;
    case FILL_RANDOM: { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = heap_rng.next(); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (uint8_t)(heap_rng.next() >> 9); break; }
    case FILL_ZERO: fill_bytes(p, 0, n); break;
    case FILL_FF: fill_bytes(p, 0xFF, n); break;
    case FILL_POINTERISH: { size_t i = 0; for (; i + 8 <= n; i += 8) { u64 v = ARENA + 4096 + (heap_rng.next() % (1 << 20)) * 16; memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = 1; break; }
    }
}
static inline void mark_live(uintptr_t a, size_t n) {
    size_t g = (a - ARENA) >> 3; size_t k = n >> 3; fill_bytes(live_sh + g, 8, k); if (n & 7) live_sh[g + k] = (uint8_t)(n & 7);
}
static inline void mark_dead(uintptr_t a, size_t n) { fill_bytes(live_sh + ((a - ARENA) >> 3), 0, (n + 7) >> 3); }

static void *arena_alloc(size_t n) {
    size_t r = (n + 15) & ~15ull; if (r == 0) r = 16;
    size_t c = r >> 4; Hdr *h = nullptr;
    if (c < NCLS) {
        bool want = false;
        switch (layout) {
        case LAY_LIFO: want = freel[c] != nullptr; break;
        case LAY_FIFO: want = freen[c] > 16; break;
        case LAY_BUMP: want = false; break;
        case LAY_RANDOM: want = freel[c] && heap_rng.chance(0.5); break;
        }
        if (freel[c] && bump > (uint8_t *)ARENA + ARENA_SZ / 4) want = true;
        if (want) { h = freel[c]; freel[c] = h->next; if (!freel[c]) freetail[c] = nullptr; freen[c]--; }
    }
    else if (bump > (uint8_t *)ARENA + ARENA_SZ / 4) for (int i = nbig - 1; i >= 0; i--) if (bigl[i]->cls >= c && bigl[i]->cls <= c + c / 2) { h = bigl[i]; c = h->cls; bigl[i] = bigl[--nbig]; break; }
    if (!h) {
        size_t tot = 32 + r + 16;
        if (layout == LAY_RANDOM || layout == LAY_BUMP) tot += 16 * heap_rng.below(5);
        if (bump + tot > arena_end) { if (large_run && !sh->violated) { sh->violated = 2; snprintf(sh->cls, sizeof sh->cls, "CAPACITY"); fflush(stdout); _exit(3); } violate("HANG", "memory use grows without bound"); }
        h = (Hdr *)bump; bump += tot;
    }
    h->size = (u32)n; h->magic = LIVE; h->seq = ++seqno; h->cls = (u32)c; h->next = nullptr;
    uint8_t *p = (uint8_t *)(h + 1);
    fill(p, r);
    mark_live((uintptr_t)p, n ? n : 0);
    if (concurrent) fill_bytes((void *)&cells[((uintptr_t)p - ARENA) >> 3], 0, (r >> 3) * sizeof(Cell));
    nlive++; blive += n; sh->allocs++; sh->alloc_bytes += n;
    return p;
}
static void acc_range(uintptr_t a, size_t n, bool w, void *pc, bool freeing);
static void arena_free(void *q) {
    Hdr *h = (Hdr *)q - 1;
    if (((uintptr_t)q & 15) || h->magic != LIVE) {
        if (chk_heap) violate("HEAP:bad-free", "block released twice or never allocated");
        if (h->magic == DEAD) violate("CRASH", "double free");
        violate("CRASH", "free of an invalid pointer");
    }
    if (concurrent && me && tl_lib && chk_race) acc_range((uintptr_t)q, h->size, true, __builtin_return_address(0), true);
    Rt g;
    h->magic = DEAD; nlive--; blive -= h->size; sh->frees++;
    mark_dead((uintptr_t)q, h->size);
    if (fill_mode != FILL_STALE) { size_t n = h->size; fill((uint8_t *)q, n); }
    size_t c = h->cls;
    if (c < (size_t)NCLS) {
        h->next = nullptr;
        if (layout == LAY_FIFO) { if (freetail[c]) freetail[c]->next = h; else freel[c] = h; freetail[c] = h; }
        else { h->next = freel[c]; freel[c] = h; if (!freetail[c]) freetail[c] = h; }
        freen[c]++;
    } else if (nbig < NBIG) bigl[nbig++] = h;
}
void begin_world(u64 seed, int fm, int lay, int w) {
    heap_rng = Rng(seed ^ 0xA5A5A5A5ull); fill_mode = fm; layout = lay; cur_world = w; sh->fills[fm]++; sh->layouts[lay]++;
    // a new world must not see the previous world's free blocks in LIFO order only: drop free lists, keep live ones
    fill_bytes(freel, 0, sizeof freel); fill_bytes(freetail, 0, sizeof freetail); fill_bytes(freen, 0, sizeof freen); nbig = 0;
}
void end_world() {}

static void step_slow(void *pc);
static void switch_to(int t, void *pc, int forced);

static bool should_fail(size_t n) {
    Thr *t = me; t->opallocs++; if (n > t->opmax) t->opmax = n;
    if (!t->fault_on) return false;
    Fault &f = t->fault; bool fail = false;
    switch (f.kind) {
    case F_ONCE: fail = t->opallocs == f.nth; break;
    case F_BURST: fail = t->opallocs >= f.nth && t->opallocs < f.nth + f.arg; break;
    case F_STICKY: fail = t->opallocs >= f.nth; break;
    case F_LARGE: fail = n >= f.arg; break;
    case F_RATE: { Rng r(mix(f.arg, t->opallocs)); fail = r.below(f.nth ? f.nth : 1) == 0; break; }
    }
    if (fail) { t->opfired++; sh->fault_fired[f.kind]++; log_event(0xFA11 ^ t->opallocs); }
    return fail;
}
static inline void *sim_new(size_t n, bool nothrow) {
    if (!tl_lib || !me) {
        if (tl_lib && !me) { Rt g; return arena_alloc(n); }
        void *p = __real_malloc(n ? n : 1); if (!p) _exit(72); return p;
    }
    step_slow(__builtin_return_address(0));
    if (n > (256u << 20) / 2) { if (nothrow) return nullptr; throw std::bad_alloc(); }  // absurd request: out of memory
    if (!tl_quiet && should_fail(n)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    Rt g; return arena_alloc(n);
}
static inline void sim_delete(void *p) {
    if (!p) return;
    if ((uintptr_t)p >= ARENA && (uintptr_t)p < ARENA + ARENA_SZ) arena_free(p);
    else __real_free(p);
}

// ------------------------------------------------------------------ race detection
static const char *symname(void *pc, char *buf, size_t n) {
    Dl_info di; buf[0] = 0;
    if (dladdr(pc, &di) && di.dli_sname) { int st; char *d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st); snprintf(buf, n, "%s", st == 0 ? d : di.dli_sname); }
    else snprintf(buf, n, "?");
    return buf;
}
static inline Cell *cell_of(uintptr_t a) {
    if (a >= ARENA && a < ARENA + ARENA_SZ) return &cells[(a - ARENA) >> 3];
    if (a >= gbase && a < gend) return &gcells[(a - gbase) >> 3];
    return nullptr;
}
static void race_found(uintptr_t a, bool w, bool ow, int other, void *pc, bool freeing) {
    Rt g; char b[200]; symname(pc, b, sizeof b);
    char m[500]; snprintf(m, sizeof m, "%s by client %d (op %d, in %s) unordered with earlier %s by client %d on the same %s bytes", freeing ? "release" : w ? "write" : "read", me->client, me->opix, b, ow ? "write" : "read", thr[other].client, a >= ARENA && a < ARENA + ARENA_SZ ? "heap" : "static");
    violate("RACE", m);
}
static inline void race_granule(Cell *c, uint8_t mask, bool w, uintptr_t a, void *pc, bool freeing) {
    int t = me->tid; u32 *vc = me->vc;
    for (int j = 0; j < nthr; j++) if (j != t) {
        if (c->we[j] > vc[j] && (c->wm[j] & mask)) race_found(a, w, true, j, pc, freeing);
        if (w && c->re[j] > vc[j] && (c->rm[j] & mask)) race_found(a, w, false, j, pc, freeing);
    }
    u32 cur = vc[t];
    if (w) { if (c->we[t] == cur) c->wm[t] |= mask; else { c->we[t] = cur; c->wm[t] = mask; } }
    else { if (c->re[t] == cur) c->rm[t] |= mask; else { c->re[t] = cur; c->rm[t] = mask; } }
}
static void acc_range(uintptr_t a, size_t n, bool w, void *pc, bool freeing) {
    Cell *c = cell_of(a); if (!c || !n) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8, c++) {
        unsigned lo = g < a ? (unsigned)(a - g) : 0, hi = e - g < 8 ? (unsigned)(e - g) : 8;
        race_granule(c, (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1)), w, g, pc, freeing);
    }
}
static void bad_access(uintptr_t a, size_t n, bool w, void *pc) {
    Rt g; char b[200]; symname(pc, b, sizeof b); char m[400];
    snprintf(m, sizeof m, "%s of %zu bytes outside any block the library owns, in %s (client %d op %d)", w ? "write" : "read", n, b, me ? me->client : -9, me ? me->opix : -9);
    violate("HEAP:invalid-access", m);
}
static inline void heap_check(uintptr_t a, size_t n, bool w, void *pc) {
    if (a < ARENA || a >= ARENA + ARENA_SZ) return;
    uintptr_t e = a + n;
    for (uintptr_t g = a & ~7ull; g < e; g += 8) {
        unsigned hi = e - g < 8 ? (unsigned)(e - g) : 8;
        if (live_sh[(g - ARENA) >> 3] < hi) bad_access(a, n, w, pc);
    }
}

// ------------------------------------------------------------------ scheduling
static void record_switch(int target, int forced, void *pc) {
    sh->switches++; if (forced) sh->forced_switches++; else if (me->in_call) sh->preempts_in_call++;
    u64 k = mix(((u64)me->client << 40) ^ ((u64)me->opix << 24) ^ me->opstep, target * 2 + forced);
    sh->ileave_hash = mix(sh->ileave_hash, k);
    log_event(0x5117 ^ k);
    if (!forced && me->in_call) preempt_map[((uintptr_t)pc >> 1) & 0xFFFF] = 1;
    if (sh->nsw < MAXSW) { SwitchRec &r = sh->sw[sh->nsw++]; r.client = me->client; r.op = me->opix; r.step = (u32)me->opstep; r.target = thr[target].client; r.forced = forced; r.pc = (u64)pc; r.world = cur_world; }
    if (verbose) { char b[160]; symname(pc, b, sizeof b); trace("  switch client %d (op %d step %llu%s) -> client %d  in %s\n", me->client, me->opix, (unsigned long long)me->opstep, forced == 1 ? ", blocked" : forced == 2 ? ", done" : "", thr[target].client, b); }
}
static void set_countdown() {
    switch (sc.strategy) {
    case ST_SEQ: case ST_OPRR: countdown = 1L << 60; break;
    case ST_RANDOM: { double u = sched_rng.unit(); double v = -__builtin_log(1 - u) * sc.mean * (1 + (double)(sh->switches / 20000)); countdown = 1 + (long)v; break; }
    case ST_PCT: countdown = pct_i < pct_n ? (long)(pct_points[pct_i] > gstep ? pct_points[pct_i] - gstep : 1) : (1L << 60); break;
    case ST_REPLAY: {
        countdown = 1L << 60; auto &v = *rp[me->tid]; size_t &i = rpi[me->tid];
        while (i < v.size() && (v[i].op < me->opix || (v[i].op == me->opix && v[i].step < me->opstep) )) i++;
        if (i < v.size() && !v[i].forced && v[i].op == me->opix) countdown = (long)(v[i].step - me->opstep);
        if (countdown < 0) countdown = 1L << 60;
        break; }
    }
}
static int pick_other() {
    int c[MAXT], n = 0; for (int j = 0; j < nthr; j++) if (thr[j].state == 0 && j != me->tid) c[n++] = j;
    if (!n) return -1;
    if (sc.strategy == ST_PCT) { int b = c[0]; for (int i = 1; i < n; i++) if (thr[c[i]].prio > thr[b].prio) b = c[i]; return b; }
    if (sc.strategy == ST_SEQ || sc.strategy == ST_REPLAY) return c[0];
    if (sc.strategy == ST_OPRR) { for (int k = 1; k <= nthr; k++) { int j = (me->tid + k) % nthr; for (int i = 0; i < n; i++) if (c[i] == j) return j; } }
    return c[sched_rng.below(n)];
}
static void park() { while (sem_wait(&me->sem) != 0) {} }
static void resumed() {
    if (me->in_call && gstep - me->parked_since > 5000) sh->stalls++;
    set_countdown();
}
static void switch_to(int t, void *pc, int forced) {
    record_switch(t, forced, pc);
    me->parked_since = gstep;
    sem_post(&thr[t].sem);
    if (forced == 2) return;
    park(); resumed();
}
static void forced_switch(int why, void *pc) {
    int t = -1;
    if (sc.strategy == ST_REPLAY) {
        auto &v = *rp[me->tid]; size_t &i = rpi[me->tid];
        while (i < v.size() && (v[i].op < me->opix || (v[i].op == me->opix && v[i].step < me->opstep))) i++;
        if (i < v.size() && v[i].op == me->opix && v[i].forced) { for (int j = 0; j < nthr; j++) if (thr[j].client == v[i].target && thr[j].state == 0 && j != me->tid) t = j; i++; }
    }
    if (t < 0) t = pick_other();
    if (t < 0) {
        if (why == 2) { for (int j = 0; j < nthr; j++) if (thr[j].state == 1) { fprintf(stderr, "simulator error: a caller waits for a lock nobody holds\n"); _exit(71); } sem_post(&main_sem); return; }
        violate("HANG", "deadlock: every caller is blocked");
    }
    switch_to(t, pc, why);
}
static void preempt(void *pc) {   // countdown hit zero
    int t = -1;
    if (sc.strategy == ST_REPLAY) {
        auto &v = *rp[me->tid]; size_t &i = rpi[me->tid];
        if (i < v.size() && v[i].op == me->opix && v[i].step == me->opstep && !v[i].forced) { for (int j = 0; j < nthr; j++) if (thr[j].client == v[i].target && thr[j].state == 0 && j != me->tid) t = j; i++; }
    } else if (sc.strategy == ST_PCT) {
        if (pct_i < pct_n && gstep >= pct_points[pct_i]) { me->prio = --pct_low; pct_i++; }
        int b = me->tid; for (int j = 0; j < nthr; j++) if (thr[j].state == 0 && thr[j].prio > thr[b].prio) b = j;
        if (b != me->tid) t = b;
    } else t = pick_other();
    if (t < 0) { set_countdown(); return; }
    switch_to(t, pc, 0);
}
static void step_slow(void *pc) {
    if (tl_quiet || !me) return;
    Thr *t = me; t->opstep++; gstep++;
    if (t->budget && t->opstep > t->budget) { Rt g; char b[160]; char s[100]; symname(pc, s, sizeof s); snprintf(b, sizeof b, "client %d op %d exceeded %llu steps in %s", t->client, t->opix, (unsigned long long)t->budget, s); violate("HANG", b); }
    if (concurrent && --countdown <= 0) { Rt g; preempt(pc); }
}
static inline void on_access(uintptr_t a, size_t n, bool w, void *pc) {
    if (!tl_lib || tl_rt || !me) return;
    if (chk_heap) heap_check(a, n, w, pc);
    if (tl_quiet) return;
    step_slow(pc);
    if (concurrent && chk_race) acc_range(a, n, w, pc, false);
}
void op_begin(int client, int op) {
    me->client = client; me->opix = op; me->opstep = 0; me->opallocs = 0; me->opfired = 0; me->opmax = 0; me->fault_on = 0; me->budget = me->nextbudget;
    if (concurrent) { if (sc.strategy == ST_REPLAY) set_countdown(); }
}
u64 op_allocs() { return me->opallocs; }
u64 op_steps() { return me->opstep; }
size_t op_maxalloc() { return me->opmax; }
u64 op_fired() { return me->opfired; }
void arm(const Fault &f) { me->fault = f; me->fault_on = f.kind != F_NONE; me->opfired = 0; if (f.kind) sh->fault_armed[f.kind]++; }
void disarm() { me->fault_on = 0; }
void op_point() {
    if (!concurrent) return;
    Rt g;
    if (sc.strategy == ST_REPLAY) { me->opstep++; gstep++; if (--countdown <= 0) preempt(__builtin_return_address(0)); return; }
    me->opstep++; gstep++; --countdown;
    bool y = false;
    switch (sc.strategy) { case ST_OPRR: y = true; break; case ST_RANDOM: y = sched_rng.chance(0.5); break; case ST_PCT: if (countdown <= 0) { preempt(__builtin_return_address(0)); } return; default: break; }
    if (y) { int t = pick_other(); if (t >= 0) switch_to(t, __builtin_return_address(0), 0); }
}
static void *thr_main(void *p) {
    me = (Thr *)p; altstack();
    park();
    { set_countdown(); }
    me->fn();
    { Rt g; me->state = 2; me->opix = 1 << 20; me->opstep = 0; forced_switch(2, 0); }
    return 0;
}
static const size_t STK = 1 << 20;
void run_threads(const Sched &s, const std::vector<std::function<void()>> &fns, const std::vector<int> &ids) {
    sc = s; sched_rng = Rng(s.seed ^ 0x5C4Eull); nthr = (int)fns.size(); concurrent = nthr > 1;
    u32 base = phase_clock;
    for (int i = 0; i < nthr; i++) for (int j = 0; j < MAXT; j++) if (thr[i].vc[j] > base) base = thr[i].vc[j];
    phase_clock = base + 1; avc->clear();
    static std::vector<SwitchRec> lists[MAXT];
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i]; t.tid = i; t.client = ids[i]; t.opix = -1; t.scope = true; t.nextbudget = 0; t.state = 0; t.fn = fns[i]; t.opstep = 0; t.opallocs = t.opfired = 0; t.fault_on = 0; t.budget = 0; t.in_call = false; t.parked_since = gstep;
        for (int j = 0; j < MAXT; j++) t.vc[j] = phase_clock;
        t.vc[i] = phase_clock + 1;
        lists[i].clear(); rpi[i] = 0; rp[i] = &lists[i];
        if (s.replay) for (auto &r : *s.replay) if (r.client == ids[i]) lists[i].push_back(r);
        sem_init(&t.sem, 0, 0);
    }
    pct_n = pct_i = 0; pct_low = 0;
    if (s.strategy == ST_PCT) {
        for (int i = 0; i < nthr; i++) thr[i].prio = 100 + i;
        for (int i = nthr - 1; i > 0; i--) { int j = (int)sched_rng.below(i + 1); std::swap(thr[i].prio, thr[j].prio); }
        pct_n = s.pct_depth > 16 ? 16 : s.pct_depth; u64 len = s.pct_len ? s.pct_len : 20000;
        for (int i = 0; i < pct_n; i++) pct_points[i] = gstep + 1 + sched_rng.below(len);
        for (int i = 0; i < pct_n; i++) for (int j = i + 1; j < pct_n; j++) if (pct_points[j] < pct_points[i]) std::swap(pct_points[i], pct_points[j]);
    }
    for (int i = 0; i < nthr; i++) {
        Thr &t = thr[i];
        pthread_attr_t at; pthread_attr_init(&at);
        t.stksz = STK + 65536;
        t.stk = (char *)mmap(0, t.stksz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
        if (t.stk == MAP_FAILED) _exit(73);
        mprotect(t.stk, 65536, PROT_NONE);
        pthread_attr_setstack(&at, t.stk + 65536, STK);
        if (pthread_create(&t.th, &at, thr_main, &t)) _exit(74);
        pthread_attr_destroy(&at);
    }
    int first = 0;
    if (concurrent) {
        if (s.strategy == ST_PCT) { for (int i = 1; i < nthr; i++) if (thr[i].prio > thr[first].prio) first = i; }
        else if (s.strategy == ST_RANDOM) first = (int)sched_rng.below(nthr);
        else if (s.strategy == ST_REPLAY) { for (auto &r : *s.replay) if (r.client == -77) for (int i = 0; i < nthr; i++) if (ids[i] == r.target) first = i; }
        if (sh->nsw < MAXSW) { SwitchRec &r = sh->sw[sh->nsw++]; r.client = -77; r.op = 0; r.step = 0; r.target = ids[first]; r.forced = 1; r.world = cur_world; r.pc = 0; }
        log_event(0xF1257 + first);
    }
    sem_post(&thr[first].sem);
    while (sem_wait(&main_sem) != 0) {}
    for (int i = 0; i < nthr; i++) { pthread_join(thr[i].th, 0); munmap(thr[i].stk, thr[i].stksz); sem_destroy(&thr[i].sem); thr[i].fn = nullptr; }
    u32 mx = phase_clock; for (int i = 0; i < nthr; i++) for (int j = 0; j < MAXT; j++) if (thr[i].vc[j] > mx) mx = thr[i].vc[j];
    phase_clock = mx; concurrent = false;
    sh->steps = gstep;
}
__attribute__((noinline)) void scribble_stack() {
    volatile uint8_t b[12288]; u64 v = 0;
    switch (fill_mode) { case FILL_ZERO: case FILL_STALE: v = 0; break; case FILL_FF: v = ~0ull; break; default: v = 1; }
    for (size_t i = 0; i < sizeof b; i += 8) { u64 x = v == 1 ? heap_rng.next() : v; if (fill_mode == FILL_POINTERISH) { float f = 1e9f; u32 w; memcpy(&w, &f, 4); x = ((u64)w << 32) | w; } for (int k = 0; k < 8; k++) b[i + k] = (uint8_t)(x >> (8 * k)); }
}

// ------------------------------------------------------------------ HB edges
static void hb_acq(uintptr_t a) { auto it = avc->find(a); if (it != avc->end()) for (int j = 0; j < MAXT; j++) if (it->second[j] > me->vc[j]) me->vc[j] = it->second[j]; }
static void hb_rel(uintptr_t a) { auto &v = (*avc)[a]; if (v.empty()) v.assign(MAXT, 0); for (int j = 0; j < MAXT; j++) if (me->vc[j] > v[j]) v[j] = me->vc[j]; me->vc[me->tid]++; }
static inline void on_atomic(uintptr_t a, int mo, bool rd, bool wr, void *pc) {
    if (!tl_lib || tl_rt || !me) return;
    if (chk_heap) heap_check(a, 1, wr, pc);
    if (tl_quiet) return;
    step_slow(pc); sh->atomics++;
    if (concurrent) { Rt g; if (rd && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo >= __ATOMIC_ACQ_REL)) hb_acq(a); if (wr && (mo == __ATOMIC_RELEASE || mo >= __ATOMIC_ACQ_REL)) hb_rel(a); }
}
static void lk_acq(u32 *vc) { for (int j = 0; j < MAXT; j++) if (vc[j] > me->vc[j]) me->vc[j] = vc[j]; }
static void lk_rel(u32 *vc) { for (int j = 0; j < MAXT; j++) if (me->vc[j] > vc[j]) vc[j] = me->vc[j]; me->vc[me->tid]++; }
static void wake_all() { for (int j = 0; j < nthr; j++) if (thr[j].state == 1) thr[j].state = 0; }
static void block() { me->state = 1; forced_switch(1, __builtin_return_address(0)); }
void RwLock::rd() { if (!concurrent) return; Rt g; while (writer) block(); readers++; lk_acq(vcw); }
void RwLock::wr() { if (!concurrent) return; Rt g; while (writer || readers) block(); writer = true; lk_acq(vcw); lk_acq(vcr); }
void RwLock::urd() { if (!concurrent) return; Rt g; readers--; lk_rel(vcr); wake_all(); }
void RwLock::uwr() { if (!concurrent) return; Rt g; writer = false; lk_rel(vcw); wake_all(); }

struct Mx { int owner = -1, depth = 0; };
static std::map<uintptr_t, Mx> *mxs;
static bool simulated() { return me && tl_lib && !tl_rt && concurrent; }
} // namespace rt

using namespace rt;

// ------------------------------------------------------------------ operator new / delete
void *operator new(size_t n) { return sim_new(n, false); }
void *operator new[](size_t n) { return sim_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void operator delete(void *p) noexcept { sim_delete(p); }
void operator delete[](void *p) noexcept { sim_delete(p); }
void operator delete(void *p, size_t) noexcept { sim_delete(p); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p); }

// ------------------------------------------------------------------ instrumentation callbacks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
 void __tsan_read##n(void *a) { on_access((uintptr_t)a, n, false, PC); } \
 void __tsan_write##n(void *a) { on_access((uintptr_t)a, n, true, PC); } \
 void __tsan_unaligned_read##n(void *a) { on_access((uintptr_t)a, n, false, PC); } \
 void __tsan_unaligned_write##n(void *a) { on_access((uintptr_t)a, n, true, PC); } \
 void __tsan_volatile_read##n(void *a) { on_access((uintptr_t)a, n, false, PC); } \
 void __tsan_volatile_write##n(void *a) { on_access((uintptr_t)a, n, true, PC); } \
 void __tsan_read_write##n(void *a) { on_access((uintptr_t)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **a, void *) { on_access((uintptr_t)a, 8, true, PC); }
void __tsan_vptr_read(void **a) { on_access((uintptr_t)a, 8, false, PC); }
void __tsan_read_range(void *a, size_t n) { if (n) on_access((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { if (n) on_access((uintptr_t)a, n, true, PC); }

void __sanitizer_cov_trace_pc() {
    if (!tl_lib || tl_rt || !me || tl_quiet) return;
    void *pc = PC;
    uint8_t &e = edge_map[((uintptr_t)pc >> 1) & 0xFFFF]; if (!e) e = 1;
    step_slow(pc);
}

#define AT(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T *a, int mo) { on_atomic((uintptr_t)a, mo, true, false, PC); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
 void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, false, true, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_exchange(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int mo) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int) { on_atomic((uintptr_t)a, mo, true, true, PC); return __atomic_compare_exchange_n(a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int mo, int) { on_atomic((uintptr_t)a, mo, true, true, PC); __atomic_compare_exchange_n(a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// library calls to mem* and locks are redirected here with -Wl,--wrap (library objects only see these through the linker)
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n && tl_lib && !tl_rt) { on_access((uintptr_t)s, n, false, PC); on_access((uintptr_t)d, n, true, PC); } return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n && tl_lib && !tl_rt) { on_access((uintptr_t)s, n, false, PC); on_access((uintptr_t)d, n, true, PC); } return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n && tl_lib && !tl_rt) on_access((uintptr_t)d, n, true, PC); return __real_memset(d, c, n); }

// the C allocator, should library code ever use it, is the same simulated memory
static inline bool in_arena(void *p) { return (uintptr_t)p >= rt::ARENA && (uintptr_t)p < rt::ARENA + rt::ARENA_SZ; }
void *__wrap_malloc(size_t n) { return tl_lib && !tl_rt && me ? sim_new(n, true) : __real_malloc(n); }
void __wrap_free(void *p) { if (p && in_arena(p)) { rt::arena_free(p); return; } __real_free(p); }
void *__wrap_calloc(size_t a, size_t b) {
    size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr;
    void *p = __wrap_malloc(n ? n : 1); if (p) __real_memset(p, 0, n); return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    if (!in_arena(p)) return __real_realloc(p, n);
    size_t old = ((rt::Hdr *)p - 1)->size; void *q = sim_new(n, true); if (!q) return nullptr;
    __real_memcpy(q, p, old < n ? old : n); rt::arena_free(p); return q;
}
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_trylock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!simulated()) return __real_pthread_mutex_lock(m);
    step_slow(PC); Rt g; sh->mutex_ops++; if (!mxs) mxs = new std::map<uintptr_t, Mx>();
    Mx &x = (*mxs)[(uintptr_t)m];
    while (x.owner != -1 && x.owner != me->tid) block();
    x.owner = me->tid; x.depth++; hb_acq((uintptr_t)m); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!simulated()) return __real_pthread_mutex_trylock(m);
    step_slow(PC); Rt g; if (!mxs) mxs = new std::map<uintptr_t, Mx>();
    Mx &x = (*mxs)[(uintptr_t)m]; if (x.owner != -1 && x.owner != me->tid) return 16;
    x.owner = me->tid; x.depth++; hb_acq((uintptr_t)m); return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!simulated() || !mxs || !mxs->count((uintptr_t)m)) return __real_pthread_mutex_unlock(m);
    step_slow(PC); Rt g; Mx &x = (*mxs)[(uintptr_t)m]; if (--x.depth == 0) { x.owner = -1; hb_rel((uintptr_t)m); wake_all(); } return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (!simulated()) return __real_pthread_once(o, f);
    if (!mxs) { Rt g; mxs = new std::map<uintptr_t, Mx>(); }
    Mx *x; { Rt g; x = &(*mxs)[(uintptr_t)o]; while (x->depth == 1) block(); }
    if (x->depth == 2) { Rt g; hb_acq((uintptr_t)o); return 0; }
    x->depth = 1; f(); { Rt g; x->depth = 2; hb_rel((uintptr_t)o); wake_all(); }
    return 0;
}
// function-local statics
int __cxa_guard_acquire(long long int *g) {
    uint8_t *b = (uint8_t *)g;
    if (b[0]) { if (simulated()) { Rt r; hb_acq((uintptr_t)g); } return 0; }
    if (simulated()) { Rt r; while (b[1]) block(); if (b[0]) { hb_acq((uintptr_t)g); return 0; } }
    b[1] = 1; return 1;
}
void __cxa_guard_release(long long int *g) { uint8_t *b = (uint8_t *)g; b[0] = 1; b[1] = 0; if (simulated()) { Rt r; hb_rel((uintptr_t)g); wake_all(); } }
void __cxa_guard_abort(long long int *g) { ((uint8_t *)g)[1] = 0; if (simulated()) { Rt r; wake_all(); } }
}
