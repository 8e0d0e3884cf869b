// Simulator core: fibers, scheduler, simulated memory, race detector, clocks, processes.
#pragma once
#include "util.h"
#include <functional>
#include <setjmp.h>
#include <unordered_map>
#include <unordered_set>

enum { MAXT = 250 };
static const u64 RBASE = 0x200000000000ull;       // fixed simulated region
static const u64 STK_SZ = 8ull << 20;              // per fiber, lowest page is a guard
static const u64 STK_AREA = 256 * STK_SZ;
static const u64 ARENA0 = STK_AREA;               // offset of the arena in the region
static const u64 RSIZE = 18ull << 30;

struct Team;
struct Acct { int running = 1, max = 1, regions = 0, thr = 0; u64 first_step = 0; i64 first_ns = 0; };
enum FState { F_FREE, F_RUN, F_BLOCK, F_IDLE };
struct Fiber {
  int tid = 0; FState st = F_FREE; void* sp = nullptr; char *lo = nullptr, *hi = nullptr;
  int root = 0;                                   // tid of the root caller
  int team_tid = 0, level = 0, active = 0; Team* team = nullptr; unsigned ws = 0, ws1 = 0; Acct* acct = nullptr;
  int nthreads_var = 1; bool dyn = false; int max_active = 1;
  std::vector<Fiber*> kids;                       // worker pool
  void (*fn)(void*) = nullptr; void* data = nullptr; std::function<void()> body, hbody;
  u32 vc[MAXT]; std::vector<u32> facq, frel;       // pending acquire and release fences
  u64 prio = 0; const char* why = ""; char* tls = nullptr; Fiber* job_owner = nullptr;
  u64 steps = 0, last_step = 0, handle = 0, cxx[4] = {0, 0, 0, 0}; int err = 0;
  std::vector<std::pair<void (*)(void*), void*>> tdtor; std::vector<void*> spec;   // thread_local destructors, thread-specific data
};

// ---- schedule ------------------------------------------------------------
enum Policy { S_SEQ, S_FORCED, S_INTERVAL, S_LOCKSTEP, S_STALL, S_PCT, S_LIFO, S_SYNC, S_EXPLICIT, S_NPOL };
extern const char* policy_name[];
struct SchedSpec {
  int policy = S_SEQ; u64 seed = 1; i64 a = 0, b = 0, c = 0;  // parameters by policy
  std::vector<std::pair<u64, int>> pre, forced;                // explicit schedule
  J json() const; static SchedSpec from(const J&);
};

enum Mode { M_COARSE = 0, M_FINE = 1 };

// ---- what a run may be told about memory, clocks, faults -------------------
struct EnvSpec {
  u64 layout_seed = 1; int fill = 0;              // residue of fresh heap memory
  int stackfill = 0; int reuse = 50;              // percent chance to reuse freed blocks
  int guard = 0;                                  // coarse mode: 0 redzones, 1 end guards, 2 start guards
  i64 alloc_fail = -1; bool alloc_persist = false;// ordinal of the failing allocation
  int team_mode = 0; int team_limit = 0; u64 team_seed = 1;   // 0 full, 1 fixed limit, 2 random per region, 3 one
  int nprocs = 8; int default_threads = 8; bool dyn = false;   // dyn: the application allows dynamic adjustment
  std::vector<std::pair<u64, i64>> wall;          // (step, nanoseconds) wall clock steps
  std::vector<std::pair<u64, i64>> stall;         // (step, nanoseconds) everything stops: both clocks advance
  int ns_per_step = 1; u64 t0 = 0; int randm = 0;   // randm: the stream rand() returns
  struct PF { int ord = 0; std::string kind; i64 n = 0; std::string data; int op = -1; };   // op: ord counts within that call (every time it is made)
  std::vector<PF> popen;                          // faults of helper processes
  J json() const; static EnvSpec from(const J&);
};

struct Outcome { enum K { OK, EXIT, ABORT, CRASH, DEADLOCK, HANG, UNSUPPORTED } k = OK; int code = 0; std::string msg; };
struct MemErr { std::string kind, msg; };
struct Block { u64 off, size, cap; int live; bool user; bool lib; int err; std::string tag; u64 seq; bool guard = false; };

struct Machine { int cpus = 4, threads = 1, sockets = 1; std::string l1 = "32K", l2 = "1M", l3 = "8M", l3all; std::string model = "Generic CPU @ 2.50GHz"; int modelnum = -1; int drop = 0; // bitmask of missing lines
  std::string env() const; J json() const; static Machine from(const J&); };

struct Core {
  bool active = false; Mode mode = M_FINE;
  u64 steps = 0, next_pre = ~0ull, limit = ~0ull, hash = 0, shash = 0;
  Fiber* cur = nullptr; std::vector<Fiber*> fibers; Fiber* mainf = nullptr;
  SchedSpec sched; Rng srng; std::vector<std::pair<u64, int>> rec_pre, rec_forced; u64 nforced = 0, nswitch = 0; size_t ei = 0, efi = 0;
  u64 pct_low = 0; std::vector<u64> pct_pts; int stall_victim = -1; u64 run_since = 0;
  EnvSpec env; Outcome out; bool ended = false;
  // accounts
  u64 live_bytes = 0, live_blocks = 0; i64 allocs = 0, alloc_failed = 0; int files_open = 0, children = 0, popens = 0, popen_faults = 0, curop = -1, op_popens = 0;
  std::vector<std::string> alloc_sites;
  i64 mono_ns = 0, wall_ns = 0; size_t wi = 0, si = 0; int nrun = 0; i64 cpu_ns = 0; u64 cpu_last = 0; u64 walljumps = 0, stalls = 0; u64 clock_last = 0;
  int regions = 0, max_team = 0; std::unordered_map<int, int> team_max_by_root, running_by_root, run_max_by_root; u64 short_teams = 0;
  std::string race; int race_a = -1, race_b = -1; bool race_cross = false; u64 races = 0;
  std::vector<MemErr> memerr; std::string output;
  bool faults_on = false; Machine* machine = nullptr; u64 cwrite_first = 0, cwrite_last = 0; u64 watch_lo = 0, watch_hi = 0; i64 cw_last_ns = 0, cw_first_ns = 0;
  u64 accesses = 0; int watch_max = 5;   // seconds of processor time without a step: a loop that touches no memory
};
extern Core G;

void core_init();                                   // once per process
void lib_load(const std::string& path);             // a built library variant
void lib_use(int idx);
int lib_count();
void* lib_sym(const char* n);
bool lib_fine(int idx);
void core_reset(const EnvSpec&, const SchedSpec&, Mode, u64 limit);
void sim_thread_renew();   // the calling application thread ends, with its workers, and a new one carries on
void core_run(std::vector<std::function<void()>> bodies);   // runs caller fibers until all end (or G.ended)
void core_finish();                                  // end-of-run memory checks
u64 sim_alloc_user(u64 bytes, u64 align, const char* tag, int slack_align = 4);
void sim_free_user(u64 addr);
void sim_set_ro(u64 addr, u64 bytes, bool ro);
void sim_host_write(u64 addr, u64 bytes);           // host rewrote the block in the current fiber: counts as its write
i64 sim_mono(); i64 sim_wall();
std::string pc_name(void* pc);

// used by the runtime layer
void step();                                        // one scheduling point
void block(const char* why); void wake(Fiber*);
Fiber* fiber_new(int root); void fiber_start(Fiber*);
void hb_fork(Fiber*); void hb_tick(); void hb_release(u32* v); void hb_acquire(const u32* v);
void end_run(Outcome::K k, int code, const std::string& msg) __attribute__((noreturn));
void sync_point(); void sync_publish(const void* p);
void gomp_reset();
void gomp_fiber_exit(Fiber*);
void sim_parallel(const std::function<void(int)>& f, int n);
