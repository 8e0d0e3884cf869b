// Plans (fully describe one simulated history), execution, oracles.
#pragma once
#include "core.h"
struct CtxS { int kind = 0; int L1 = 0, L2 = 0, L3 = 0, nc = 0, mr = 6, nr = 16; Machine m; J json() const; static CtxS from(const J&); };  // kind 0: query + explicit fields, 1: torch(L2,L3), 2: query of machine m as it is
struct Op {
  std::string k = "gemm"; int entry = 0, M = 1, N = 1, K = 1, p = 1, sch = 3, mc = 0, kc = 0, nc = 0; float alpha = 1, beta = 0; int ctx = 0;   // ctx -1: NULL
  int kind = 0, c0 = 0; u64 seed = 1; int pre = 0, share = -1, reuse = -1, caller = 0, kt = 8, nt = 8, align = 16, off = 0; int corrupt = -1, ckind = 0; int refill = 0, pk = 0, slot = -1, fresh = 0, napp = 0, alias = 0;   // pk: pack ahead with the *_blis packing functions; slot: the context object, which first gets the values of context `ctx` (fresh: after being freed and made anew); napp: the application sets this default thread count first
  J json() const; static Op from(const J&); std::string brief() const;
};
struct Plan {
  std::string prop; u64 seed = 0; int lib = 0, lib2 = 0; EnvSpec env, env0; SchedSpec sched; std::vector<CtxS> ctx; std::vector<Op> ops; int callers = 1, nest = 0, max_active = 1, reps = 1; u64 limit = 60000000; int arg = 0; Machine mach; int setm = 0; int relay = 0;   // relay: every repetition comes from a new application thread
 
  J json() const; static Plan from(const J&);
};
struct OpR { bool done = false; std::vector<u8> C; double t = 0; i64 m0 = 0, m1 = 0, first = 0, cw0 = 0, cw1 = 0; int amax = 0; int verdict = -1; bool inputs_ok = true; int ci[8] = {0}; double cd[3] = {0}; u64 sz[3] = {0}; std::string varied; };
struct Leak { i64 bytes, blocks, files, kids; };
struct Res { Outcome out; std::vector<OpR> op; u64 steps = 0, hash = 0, shash = 0, races = 0; std::string race; bool race_worker = false, race_cross = false; std::vector<MemErr> mem; std::vector<Leak> leak; i64 allocs = 0, failed = 0; int popens = 0, pfaults = 0; bool ctx_changed = false; u64 switches = 0, walljumps = 0, stalls = 0, short_teams = 0; int max_team = 0, regions = 0; i64 simns = 0; std::vector<std::pair<u64, int>> pre, forced; std::string output; bool pre_changed = false; };
struct Viol { std::string cls, msg; };
bool judge(const Plan& p, Viol& v);                  // true when the property is violated
Plan generate(const std::string& prop, u64 seed);
bool known_prop(const std::string&);
struct Stats { u64 plans = 0, execs = 0, steps = 0, switches = 0, races = 0; double simsec = 0; std::map<std::string, u64> n; std::unordered_set<u64> inter, hist; J json() const; };
extern Stats S; extern Res LAST;
extern int g_nlib_fine, g_coarse; extern std::vector<int> g_numbers;
