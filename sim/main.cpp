#include "exec.h"
#include "gen.h"
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace lp;

static void map_shared() {
    sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    edge_map = (uint8_t *)mmap(0, 131072, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); preempt_map = edge_map + 65536;
}
// Executions are children of a process that never does anything but fork ("zygote"), so that every
// execution starts from the same memory image whatever its parent did before.
struct Req { int kind; char prop[16]; u64 seed; int tier; int verbose; char path[900]; };   // 0 generate, 1 plan file
struct Rep { int rc, st, strategy, nclients; };
static int zq[2], za[2];
static u64 *side;   // strategy and number of clients of the run, written by the child
static void child_main(const Req &q) {
    struct rlimit rl = {120, 130}; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    verbose = q.verbose; Plan p;
    if (q.kind == 0) { Gen g(q.prop, q.seed, q.tier); p = g.make(); side[0] = p.strategy; side[1] = g.nclients; }
    else { std::ifstream f(q.path); if (!f || !parse_plan(f, p)) { fprintf(stderr, "cannot read plan %s\n", q.path); _exit(65); } side[0] = p.strategy; }
    run_plan(p, p.strategy == ST_REPLAY); sh->done = 1; fflush(stdout); _exit(0);
}
static void start_zygote() {
    side = (u64 *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (pipe(zq) || pipe(za)) { perror("pipe"); exit(70); }
    pid_t c = fork(); if (c < 0) { perror("fork"); exit(70); }
    if (c) { close(zq[0]); close(za[1]); return; }
    close(zq[1]); close(za[0]); static Req q; static Rep r;
    while (read(zq[0], &q, sizeof q) == (ssize_t)sizeof q) {
        pid_t k = fork(); if (k < 0) _exit(70);
        if (k == 0) child_main(q);
        int st; while (waitpid(k, &st, 0) < 0) {}
        r.st = st; if (write(za[1], &r, sizeof r) != (ssize_t)sizeof r) _exit(70);
    }
    _exit(0);
}
// returns 0 fine, 1 violation, 2 harness trouble, 3 ended outside the property's scope
static int execute(const Req &q) {
    memset(sh, 0, sizeof *sh); side[0] = side[1] = 0;
    fflush(stdout);
    Rep r; if (write(zq[1], &q, sizeof q) != (ssize_t)sizeof q || read(za[0], &r, sizeof r) != (ssize_t)sizeof r) { fprintf(stderr, "simulator error: no answer\n"); return 2; }
    int st = r.st;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) return 0;
    if (sh->violated == 2) return 3;
    if (sh->violated) return 1;
    if (WIFSIGNALED(st)) { sh->violated = 1; int s = WTERMSIG(st); snprintf(sh->cls, sizeof sh->cls, s == SIGXCPU || s == SIGKILL ? "HANG" : "CRASH"); snprintf(sh->detail, sizeof sh->detail, "the simulated process ended with signal %d", s); return s == SIGKILL ? 2 : 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127) { sh->violated = 1; snprintf(sh->cls, sizeof sh->cls, "MISSING"); snprintf(sh->detail, sizeof sh->detail, "a function the library declares is not defined"); return 1; }
    fprintf(stderr, "simulator error: child exit %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : -1); return 2;
}
static Req req_seed(const char *prop, u64 seed, int tier) { Req q; memset(&q, 0, sizeof q); q.kind = 0; snprintf(q.prop, sizeof q.prop, "%s", prop); q.seed = seed; q.tier = tier; q.verbose = verbose; return q; }
static Req req_file(const char *f) { Req q; memset(&q, 0, sizeof q); q.kind = 1; snprintf(q.path, sizeof q.path, "%s", f); q.verbose = verbose; return q; }
static Plan explicit_plan(const Plan &p) {   // resolve fault positions and the schedule that ran
    Plan q = p; q.faults.clear(); q.sw.clear();
    std::set<std::vector<u64>> seen;
    // faults: recorded in execution order of the first faulty world
    std::map<int, int> used, want; for (auto &f : p.faults) want[f.op]++;
    std::map<int, vector<FaultSpec>> got;
    for (int i = 0; i < sh->nfault; i++) { auto &f = sh->faults[i]; if (used[f.op] >= want[f.op]) continue; used[f.op]++; FaultSpec s; s.op = f.op; s.kind = f.kind; s.rel = false; s.nth = f.nth; s.arg = f.arg; got[f.op].push_back(s); }
    std::map<int, int> ix; for (auto &f : p.faults) { auto &g = got[f.op]; int i = ix[f.op]++; if (i < (int)g.size()) q.faults.push_back(g[i]); else q.faults.push_back(f); }
    for (int i = 0; i < sh->nsw; i++) if (sh->sw[i].world == 1) q.sw.push_back(sh->sw[i]);
    return q;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Tot {
    u64 runs = 0, viol = 0, steps = 0, events = 0, switches = 0, preempt = 0, forced = 0, stalls = 0, allocs = 0, frees = 0, bytes = 0, ops = 0, ok = 0, failed = 0, skipped = 0, retried = 0, evals = 0, nontriv = 0, atomics = 0, mutex = 0;
    u64 armed[F_NKINDS] = {0}, fired[F_NKINDS] = {0}, fills[FILL_NMODES] = {0}, lays[LAY_NMODES] = {0}, probes[64] = {0}, strat[5] = {0}, clients[5] = {0};
    u64 truncated = 0, inconcl = 0;
};
static string esc(const char *s) { string o; for (; *s; s++) { if (*s == '"' || *s == '\\') o += '\\'; if ((unsigned char)*s < 32) o += ' '; else o += *s; } return o; }
template <class T> static void arr(std::ostream &o, const T *a, int n) { o << "["; for (int i = 0; i < n; i++) o << (i ? "," : "") << a[i]; o << "]"; }

int main(int argc, char **argv) {
    mallopt(M_ARENA_MAX, 1); mallopt(M_MMAP_THRESHOLD, 1 << 30);
    if (argc < 2) { fprintf(stderr, "usage: lpsim gen|batch|seed|replay ...\n"); return 64; }
    
    if (!getenv("LPSIM_NOASLR")) { setenv("LPSIM_NOASLR", "1", 1); int pers = personality(0xffffffff); if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv); }
    map_shared(); init_process(); start_zygote(); string cmd = argv[1];
    if (cmd == "gen") { Gen g(argv[2], strtoull(argv[3], 0, 10), argc > 4 ? atoi(argv[4]) : 0); fputs(print_plan(g.make()).c_str(), stdout); return 0; }
    if (cmd == "seed" || cmd == "replay") {
        Plan p; bool quiet = false; string out;
        for (int i = 2; i < argc; i++) { if (!strcmp(argv[i], "-v")) verbose = true; else if (!strcmp(argv[i], "-q")) quiet = true; else if (!strcmp(argv[i], "-o")) out = argv[++i]; }
        Req q;
        if (cmd == "seed") { Gen g(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4])); p = g.make(); q = req_seed(argv[2], strtoull(argv[3], 0, 10), atoi(argv[4])); }
        else { std::ifstream f(argv[2]); if (!f || !parse_plan(f, p)) { fprintf(stderr, "cannot read plan %s\n", argv[2]); return 65; } q = req_file(argv[2]); }
        int rc = execute(q);
        if (rc == 2) return 70;
        if (!out.empty()) { Plan e = explicit_plan(p); e.strategy = ST_REPLAY; std::ofstream o(out); o << print_plan(e); }
        printf("result %s hash %016llx steps %llu switches %llu failures %llu class %s\n", rc == 1 ? "VIOLATION" : rc == 3 ? "inconclusive" : "ok", (unsigned long long)sh->hash, (unsigned long long)sh->steps, (unsigned long long)sh->switches, (unsigned long long)sh->ops_failed, rc ? sh->cls : "-");
        if (rc && !quiet) printf("detail %s\n", sh->detail);
        return rc == 1 ? 1 : 0;
    }
    if (cmd == "batch") {   // batch prop base from to tier outdir tag maxviol seconds
        string prop = argv[2]; u64 base = strtoull(argv[3], 0, 10); long from = atol(argv[4]), to = atol(argv[5]); int tier = atoi(argv[6]); string dir = argv[7], tag = argv[8]; int maxv = atoi(argv[9]); double secs = atof(argv[10]); int stride = argc > 11 ? atoi(argv[11]) : 1; bool early = argc > 12 && atoi(argv[12]); string stopf = dir + "/stop"; bool stopping = false;
        Tot t; std::set<u64> ileave, states; vector<string> vio; double t0 = now(); vector<string> samples; std::ofstream hf(dir + "/hash." + tag); std::map<string, int> vclass;
        long done = 0;
        for (long i = from; i < to && now() - t0 < secs; i += stride) {
            u64 seed = mix(base, (u64)i) >> 1; double ts = now();
            if (early && !stopping && access(stopf.c_str(), F_OK) == 0) { stopping = true; secs = std::min(secs, now() - t0 + 4); }   // another worker found a violation: finish soon
            int rc = execute(req_seed(prop.c_str(), seed, tier)); int strat = (int)side[0], ncl = (int)side[1]; if (rc == 2) { fprintf(stderr, "simulator error at seed %llu\n", (unsigned long long)seed); return 70; }
            done++; t.runs++; t.strat[strat]++; t.clients[ncl]++;
            t.steps += sh->steps; t.events += sh->events; t.switches += sh->switches; t.preempt += sh->preempts_in_call; t.forced += sh->forced_switches; t.stalls += sh->stalls; t.allocs += sh->allocs; t.frees += sh->frees; t.bytes += sh->alloc_bytes; t.ops += sh->ops; t.ok += sh->ops_ok; t.failed += sh->ops_failed; t.skipped += sh->ops_skipped; t.retried += sh->ops_retried; t.evals += sh->oracle_evals; t.nontriv += sh->nontrivial > 0; t.atomics += sh->atomics; t.mutex += sh->mutex_ops; if (sh->nsw >= MAXSW) t.truncated++; if (rc == 3) t.inconcl++;
            for (int k = 0; k < F_NKINDS; k++) { t.armed[k] += sh->fault_armed[k]; t.fired[k] += sh->fault_fired[k]; } for (int k = 0; k < FILL_NMODES; k++) t.fills[k] += sh->fills[k]; for (int k = 0; k < LAY_NMODES; k++) t.lays[k] += sh->layouts[k]; for (int k = 0; k < 64; k++) t.probes[k] += sh->probes[k] > 0;
            if (sh->nontrivial) { if (ncl > 1) ileave.insert(sh->ileave_hash); states.insert(sh->hash); }
            hf << seed << " " << std::hex << sh->hash << std::dec << " " << (rc == 1 ? sh->cls : rc == 3 ? "inconclusive" : "ok") << " " << (long)((now() - ts) * 1e6) << "\n";
            if (samples.size() < 2 && i % 7 == 3 && sh->nontrivial) { Gen g(prop, seed, tier); Plan p = g.make(); std::ostringstream o; o << "{\"seed\":" << seed << ",\"strategy\":\"" << STN[p.strategy] << "\",\"clients\":" << g.nclients << ",\"operations\":["; for (size_t k = 0; k < p.ops.size() && k < 40; k++) { o << (k ? "," : "") << "\"" << p.ops[k].client << ":" << p.ops[k].kind; for (double x : p.ops[k].a) o << " " << x; o << "\""; } o << "],\"faults\":" << p.faults.size() << ",\"switches\":" << sh->switches << ",\"steps\":" << sh->steps << ",\"event_hash\":\"" << std::hex << sh->hash << std::dec << "\"}"; samples.push_back(o.str()); }
            if (rc == 1) {
                if (early) std::ofstream(stopf) << seed << "\n";
                t.viol++; string cl = sh->cls; Gen g(prop, seed, tier); Plan p = g.make();
                if (vclass[cl]++ < 2 && (int)vio.size() < maxv) {
                    Plan e = explicit_plan(p); e.strategy = ST_REPLAY; string f = dir + "/raw." + prop + "." + tag + "." + std::to_string(vio.size()) + ".plan"; std::ofstream o(f); o << print_plan(e);
                    std::ostringstream q; q << "{\"seed\":" << seed << ",\"class\":\"" << cl << "\",\"detail\":\"" << esc(sh->detail) << "\",\"hash\":\"" << std::hex << sh->hash << std::dec << "\",\"plan\":\"" << f << "\"}"; vio.push_back(q.str());
                }
                if ((int)vio.size() >= maxv || t.viol > 40) break;
            }
        }
        double el = now() - t0; int edges = 0, pre = 0; for (int i = 0; i < 65536; i++) { edges += edge_map[i] != 0; pre += preempt_map[i] != 0; }
        std::ofstream o(dir + "/stats." + tag); o << "{\"runs\":" << t.runs << ",\"violations\":" << t.viol << ",\"wall\":" << el << ",\"complete\":" << (done == (to - from + stride - 1) / stride ? 1 : 0)
          << ",\"steps\":" << t.steps << ",\"events\":" << t.events << ",\"switches\":" << t.switches << ",\"preempts_in_call\":" << t.preempt << ",\"forced\":" << t.forced << ",\"stalls\":" << t.stalls << ",\"allocs\":" << t.allocs << ",\"frees\":" << t.frees << ",\"bytes\":" << t.bytes << ",\"ops\":" << t.ops << ",\"ok\":" << t.ok << ",\"failed\":" << t.failed << ",\"skipped\":" << t.skipped << ",\"retried\":" << t.retried << ",\"evals\":" << t.evals << ",\"nontrivial\":" << t.nontriv << ",\"atomics\":" << t.atomics << ",\"mutex\":" << t.mutex << ",\"truncated\":" << t.truncated << ",\"inconclusive\":" << t.inconcl;
        o << ",\"armed\":"; arr(o, t.armed, F_NKINDS); o << ",\"fired\":"; arr(o, t.fired, F_NKINDS); o << ",\"fills\":"; arr(o, t.fills, FILL_NMODES); o << ",\"layouts\":"; arr(o, t.lays, LAY_NMODES); o << ",\"probes\":"; arr(o, t.probes, 64); o << ",\"strategies\":"; arr(o, t.strat, 5); o << ",\"clients\":"; arr(o, t.clients, 5);
        o << ",\"edges\":["; bool fst = true; for (int i = 0; i < 65536; i++) if (edge_map[i]) { o << (fst ? "" : ",") << i; fst = false; } o << "],\"preempt_pcs\":["; fst = true; for (int i = 0; i < 65536; i++) if (preempt_map[i]) { o << (fst ? "" : ",") << i; fst = false; } o << "]";
        o << ",\"ileave\":["; fst = true; for (u64 x : ileave) { o << (fst ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; fst = false; } o << "],\"states\":["; fst = true; for (u64 x : states) { o << (fst ? "" : ",") << "\"" << std::hex << x << std::dec << "\""; fst = false; }
        o << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) o << (i ? "," : "") << samples[i]; o << "],\"vio\":["; for (size_t i = 0; i < vio.size(); i++) o << (i ? "," : "") << vio[i]; o << "]}\n";
        return 0;
    }
    return 64;
}
