#include "core.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <mutex>
#include <new>
#include <signal.h>
#include <stdarg.h>
#include <sys/sysinfo.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/times.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <algorithm>

Core G;
const char* policy_name[] = {"seq", "forced", "interval", "lockstep", "stall", "pct", "lifo", "sync", "explicit"};

// ---------------------------------------------------------------- shadow ----
struct Cell { u32 w, r, wpc, rpc; };                // epochs: tid:8 | clk:20 | bytemask:4
static u8* ST; static Cell* SH; static u64 g_top, g_hw; static u64 stk_min[STK_AREA / STK_SZ];
static std::vector<std::vector<u32>> rpool; static u32 rpool_n;
static std::vector<Block> blocks; static std::unordered_map<u64, int> bidx; static std::vector<int> freed;
static Rng lrng; static bool guards_used; static const u64 RZ = 64;

struct Lib { std::string path; void* h; u64 base, lo, hi; u64 rwlo = 0, rwhi = 0; std::vector<u8> snap; Cell* sh = nullptr; size_t nsh = 0; bool fine; int tlsmod = 0; u64 tlsoff = 0; size_t tlssz = 0, tlsfsz = 0; const char* tlsinit = nullptr; std::vector<std::pair<u64,u64>> rw; };
static std::vector<Lib> libs; static int curlib = -1;
static u64 exe_lo, exe_hi;
#define ME() (G.cur)

static inline u32 pc32(void* pc) { return curlib >= 0 ? (u32)((u64)pc - libs[curlib].base) : 0; }
static std::string symb(u32 off) {
  if (curlib < 0) return "?"; Lib& L = libs[curlib];
  std::string cmd = sfmt("addr2line -Cfse '%s' 0x%x 2>/dev/null", L.path.c_str(), off ? off - 1 : 0), r;
  FILE* f = popen(cmd.c_str(), "r"); char b[512]; if (f) { while (fgets(b, sizeof b, f)) { std::string s = b; while (!s.empty() && s.back() == '\n') s.pop_back(); r += (r.empty() ? "" : " ") + s; } pclose(f); }
  return r.empty() ? sfmt("+0x%x", off) : r;
}
static bool g_want_sym = false;
void want_symbols(bool b) { g_want_sym = b; }
std::string pc_name(void* pc) { return g_want_sym ? symb(pc32(pc)) : sfmt("+0x%x", pc32(pc)); }
static std::string off_name(u32 o) { return g_want_sym ? symb(o) : sfmt("+0x%x", o); }

static std::string where_is(u64 addr) {
  u64 off = addr - RBASE; if (off < ARENA0) return sfmt("stack of thread %d", (int)(off / STK_SZ));
  const Block* best = nullptr; for (auto& b : blocks) if (off + 64 >= b.off && off < b.off + b.cap + 64) { if (!best || b.live >= best->live) best = &b; }
  if (!best) return "unallocated memory";
  return sfmt("%s%s block of %llu bytes, offset %lld", best->live ? "" : "freed ", best->tag.c_str(), (unsigned long long)best->size, (long long)(off - best->off));
}
static void memerr(const char* kind, u64 addr, size_t n, void* pc) {
  if (G.memerr.size() < 4) G.memerr.push_back({kind, sfmt("%s of %zu bytes by thread %d (worker %d): %s at %s", kind, n, G.cur->tid, G.cur->team_tid, where_is(addr).c_str(), pc_name(pc).c_str())});
}

static inline void race(u64 addr, bool w, Cell& c, u32 other, bool ow, void* pc, u32 opc) {
  G.races++; Fiber* me = ME(); Fiber* o = other < G.fibers.size() ? G.fibers[other] : me; bool cross = o->root != me->root;
  if (cross) G.race_cross = true; bool same_known = G.race_a >= 0;
  if (!cross && !same_known) G.race_a = other, G.race_b = me->tid;
  if (G.race.empty() || (!cross && !same_known)) {
    u64 off = addr - RBASE; std::string loc = off < RSIZE ? where_is(addr) : std::string("library global");
    G.race = sfmt("%s by thread %d (worker %d) at %s conflicts with %s by thread %d (worker %d) at %s on %s", w ? "write" : "read", me->tid, me->team_tid, pc_name(pc).c_str(), ow ? "write" : "read", o->tid, o->team_tid, off_name(opc).c_str(), loc.c_str());
  }
}
static inline void cell_access(Cell& c, u64 addr, u32 mask, bool w, void* pc) {
  Fiber* f = G.cur; u32 t = f->tid; u32 e = (t << 24) | ((f->vc[t] & 0xFFFFF) << 4) | mask;
  if (!w) {
    if ((c.r | mask) == e || c.r == e) { return; }
    if (c.w) { u32 wt = c.w >> 24, wk = (c.w >> 4) & 0xFFFFF; if (wt != t && wk > f->vc[wt] && (c.w & mask & 15)) race(addr, false, c, wt, true, pc, c.wpc); }
    u32 rt = c.r >> 24;
    if (c.r == 0 || (rt != 0xFF && (rt == t || ((c.r >> 4) & 0xFFFFF) <= f->vc[rt]))) { if ((c.r >> 4) == (e >> 4)) c.r |= e; else c.r = e; c.rpc = pc32(pc); }
    else {
      if (rt != 0xFF) { if (rpool_n >= rpool.size()) rpool.push_back(std::vector<u32>()); auto& v = rpool[rpool_n]; v.assign(MAXT, 0); v[rt] = ((c.r >> 4) & 0xFFFFF); c.r = 0xFF000000u | rpool_n++; }
      auto& v = rpool[c.r & 0xFFFFFF]; v[t] = f->vc[t]; c.rpc = pc32(pc);
    }
  } else {
    if (c.w == e && c.r == 0) return;
    if (c.w) { u32 wt = c.w >> 24, wk = (c.w >> 4) & 0xFFFFF; if (wt != t && wk > f->vc[wt] && (c.w & mask & 15)) race(addr, true, c, wt, true, pc, c.wpc); }
    if (c.r) { u32 rt = c.r >> 24; if (rt != 0xFF) { if (rt != t && ((c.r >> 4) & 0xFFFFF) > f->vc[rt] && (c.r & mask & 15)) race(addr, true, c, rt, false, pc, c.rpc); }
      else if (mask == 15) { auto& v = rpool[c.r & 0xFFFFFF]; for (u32 u = 0; u < G.fibers.size(); u++) if (u != t && v[u] > f->vc[u]) { race(addr, true, c, u, false, pc, c.rpc); break; } } }
    if ((c.w >> 4) == (e >> 4)) c.w |= e; else c.w = e; c.wpc = pc32(pc); c.r = 0;
  }
}
static void region_access(u64 off, size_t n, bool w, void* pc) {
  if (off < ARENA0) { u64 s = off / STK_SZ; if (off < stk_min[s]) stk_min[s] = off; }
  else {
    const u8* s = ST + off; bool bad = false;
    size_t i = 0; u64 orr = 0, an = ~0ull; for (; i + 8 <= n; i += 8) { u64 v; memcpy(&v, s + i, 8); orr |= v; an &= v; }
    for (; i < n; i++) { u64 v = s[i] * 0x0101010101010101ull; orr |= v; an &= v; }
    if ((an & 0x0101010101010101ull) != 0x0101010101010101ull) bad = true;
    if (w && (orr & 0x0202020202020202ull)) bad = true;
    if (bad) { u8 st = 1; u64 at = off; for (size_t k = 0; k < n; k++) if (!(s[k] & 1) || (w && (s[k] & 2))) { st = s[k]; at = off + k; break; }
      memerr(st == 4 ? "use-after-free" : st == 3 ? "write-to-input" : w ? "out-of-bounds-write" : "out-of-bounds-read", RBASE + at, n, pc); }
    if (w && off < G.watch_hi && off + n > G.watch_lo) { G.cw_last_ns = sim_mono(); if (!G.cw_first_ns) G.cw_first_ns = G.cw_last_ns; if (!G.cwrite_first) G.cwrite_first = G.steps; G.cwrite_last = G.steps; }
  }
  u64 a = off, e = off + n;
  while (a < e) { u64 g = a >> 2; u64 ge = (g + 1) << 2; u64 b = e < ge ? e : ge; u32 mask = ((1u << (b - (g << 2))) - 1) & ~((1u << (a - (g << 2))) - 1); cell_access(SH[g], RBASE + a, mask & 15, w, pc); a = b; }
}
static const u64 STARVE = 200000;                   // no thread runs longer than this while others could
static void preempt();
void sync_point();
static void lib_access(u64 a, size_t n, bool w, void* pc) {
  Lib& L = libs[curlib]; if (a < L.rwlo || a >= L.rwhi || !L.sh) return; sync_point();
  u64 e = a + n; while (a < e) { u64 g = (a - L.rwlo) >> 2; u64 ge = L.rwlo + ((g + 1) << 2), gs = L.rwlo + (g << 2); u64 b = e < ge ? e : ge; u32 mask = ((1u << (b - gs)) - 1) & ~((1u << (a - gs)) - 1); if (g < L.nsh) cell_access(L.sh[g], a, mask & 15, w, pc); a = b; }
}
static void plain_vs_atom(u64 a, size_t n, bool w, void* pc); extern bool g_atoms;
// right after a synchronisation operation or an access to static data another thread may get its turn
void sync_point() { if (G.sched.policy == S_SYNC && G.active && !G.srng.below(std::max<i64>(1, G.sched.a))) G.next_pre = G.steps + 1; }
static inline void acc(const void* p, size_t n, bool w, void* pc) {
  if (!G.active) return;
  G.accesses++;
  if (++G.steps >= G.next_pre) preempt();
  u64 off = (u64)p - RBASE;
  if (off < RSIZE) region_access(off, n, w, pc); else lib_access((u64)p, n, w, pc);
  if (g_atoms) plain_vs_atom((u64)p, n, w, pc);
}
void step() { if (!G.active) return; if (++G.steps >= G.next_pre) preempt(); }

#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { acc(p, n, false, PC); } void __tsan_write##n(void* p) { acc(p, n, true, PC); } void __tsan_unaligned_read##n(void* p) { acc(p, n, false, PC); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true, PC); } void __tsan_volatile_read##n(void* p) { acc(p, n, false, PC); } void __tsan_volatile_write##n(void* p) { acc(p, n, true, PC); } void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { acc(p, n, false, PC); } void __tsan_write_range(void* p, size_t n) { acc(p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { acc(p, 8, true, PC); } void __tsan_vptr_read(void** p) { acc(p, 8, false, PC); }
}
// atomics: release/acquire by their memory order; a conflict with an unordered plain access is a race
struct AV { std::vector<u32> rel, w, r; u64 a; size_t n; };
static std::unordered_map<u64, AV> syncv; static u64 abloom[64]; bool g_atoms;
static inline u32 abit(u64 a) { u64 g = a >> 3; return (u32)((g * 0x9E3779B97F4A7C15ull) >> 52); }
static void tick() { Fiber* f = G.cur; if (f->vc[f->tid] < 0xFFFF0) f->vc[f->tid]++; }   // saturates: later races of this thread may go unseen
void hb_release(u32* v) { Fiber* f = G.cur; for (size_t i = 0; i < G.fibers.size(); i++) if (f->vc[i] > v[i]) v[i] = f->vc[i]; tick(); }
void hb_tick() { tick(); }
void hb_fork(Fiber* k) { Fiber* f = G.cur; for (size_t i = 0; i < G.fibers.size(); i++) if (f->vc[i] > k->vc[i]) k->vc[i] = f->vc[i]; }
void hb_acquire(const u32* v) { Fiber* f = G.cur; for (size_t i = 0; i < G.fibers.size(); i++) if (v[i] > f->vc[i]) f->vc[i] = v[i]; }
static Cell* cell_of(u64 a) { u64 off = a - RBASE; if (off < RSIZE) return &SH[off >> 2]; if (curlib < 0) return nullptr; Lib& L = libs[curlib]; if (a < L.rwlo || a >= L.rwhi || !L.sh) return nullptr; u64 g = (a - L.rwlo) >> 2; return g < L.nsh ? &L.sh[g] : nullptr; }
static AV& av(u64 a, size_t n) { AV& v = syncv[a]; if (v.rel.empty()) { v.rel.assign(MAXT, 0); v.w.assign(MAXT, 0); v.r.assign(MAXT, 0); v.a = a; } v.n = std::max(v.n, n); g_atoms = true; for (u64 x = a; x < a + n; x += 8) { u32 k = abit(x); abloom[k >> 6] |= 1ull << (k & 63); } return v; }
static inline u32 maskof(u64 a, size_t n, u64 base) { u64 lo = a > base ? a - base : 0, hi = std::min<u64>(4, a + n - base); return ((1u << hi) - 1) & ~((1u << lo) - 1) & 15; }
static void atom_access(AV& v, u64 a, size_t n, bool w, void* pc) {
  Fiber* f = G.cur; u32 t = f->tid;
  for (u64 g = a & ~3ull; g < a + n; g += 4) { Cell* c = cell_of(g); if (!c) continue; u32 m = maskof(a, n, g);
    if (c->w) { u32 wt = c->w >> 24, wk = (c->w >> 4) & 0xFFFFF; if (wt != t && wk > f->vc[wt] && (c->w & m)) race(a, w, *c, wt, true, pc, c->wpc); }
    if (w && c->r) { u32 rt = c->r >> 24; if (rt != 0xFF) { if (rt != t && ((c->r >> 4) & 0xFFFFF) > f->vc[rt] && (c->r & m)) race(a, true, *c, rt, false, pc, c->rpc); }
      else if (m == 15) { auto& q = rpool[c->r & 0xFFFFFF]; for (u32 u = 0; u < G.fibers.size(); u++) if (u != t && q[u] > f->vc[u]) { race(a, true, *c, u, false, pc, c->rpc); break; } } } }
  (w ? v.w : v.r)[t] = f->vc[t];
}
static void plain_vs_atom(u64 a, size_t n, bool w, void* pc) {
  Fiber* f = G.cur; Cell z = {0, 0, 0, 0};
  for (u64 g = (a - 7) & ~7ull; g < a + n; g += 8) { u32 k = abit(g); if (!(abloom[k >> 6] >> (k & 63) & 1)) continue;
    for (u64 x = g; x < g + 8; x++) { auto i = syncv.find(x); if (i == syncv.end() || x + i->second.n <= a || x >= a + n) continue; AV& v = i->second;
      for (u32 u = 0; u < G.fibers.size(); u++) if (u != (u32)f->tid) { if (v.w[u] > f->vc[u]) { race(x, w, z, u, true, pc, 0); return; } if (w && v.r[u] > f->vc[u]) { race(x, w, z, u, false, pc, 0); return; } } } }
}
static void atoms_forget(u64 a, size_t n) { if (!g_atoms) return; for (auto i = syncv.begin(); i != syncv.end();) if (i->first >= a && i->first < a + n) i = syncv.erase(i); else ++i; }
static void rel_join(std::vector<u32>& v, const u32* s) { for (size_t i = 0; i < G.fibers.size(); i++) if (s[i] > v[i]) v[i] = s[i]; }
static bool is_acq(int mo) { return mo == 1 || mo == 2 || mo >= 4; } static bool is_rel(int mo) { return mo >= 3; }
static void atom_load(const volatile void* p, size_t n, int mo, void* pc) { if (!G.active) return; step(); sync_point(); AV& v = av((u64)p, n); atom_access(v, (u64)p, n, false, pc); if (is_acq(mo)) hb_acquire(v.rel.data()); else { Fiber* f = G.cur; if (f->facq.empty()) f->facq.assign(MAXT, 0); rel_join(f->facq, v.rel.data()); } }
static void atom_store(const volatile void* p, size_t n, int mo, void* pc) { if (!G.active) return; step(); sync_point(); AV& v = av((u64)p, n); atom_access(v, (u64)p, n, true, pc); Fiber* f = G.cur; std::fill(v.rel.begin(), v.rel.end(), 0); if (is_rel(mo)) hb_release(v.rel.data()); else if (!f->frel.empty()) rel_join(v.rel, f->frel.data()); }
static void atom_rmw(const volatile void* p, size_t n, int mo, void* pc) { if (!G.active) return; step(); sync_point(); AV& v = av((u64)p, n); atom_access(v, (u64)p, n, true, pc); Fiber* f = G.cur; if (is_acq(mo)) hb_acquire(v.rel.data()); else { if (f->facq.empty()) f->facq.assign(MAXT, 0); rel_join(f->facq, v.rel.data()); } if (is_rel(mo)) hb_release(v.rel.data()); else if (!f->frel.empty()) rel_join(v.rel, f->frel.data()); }
void sync_publish(const void* p) { if (!G.active) return; AV& v = av((u64)p, 1); hb_release(v.rel.data()); }
extern "C" {
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int o) { atom_load(p, N / 8, o, PC); return *p; } void __tsan_atomic##N##_store(volatile T* p, T v, int o) { atom_store(p, N / 8, o, PC); *p = v; } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = v; return o; } T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = o - v; return o; } T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = o | v; return o; } T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##N##_fetch_nand(volatile T* p, T v, int m) { atom_rmw(p, N / 8, m, PC); T o = *p; *p = ~(o & v); return o; } \
static bool cas##N(volatile T* p, T e, T v, int m, int fm, void* pc, T* old) { step(); bool ok = *p == e; if (ok) atom_rmw(p, N / 8, m, pc); else atom_load(p, N / 8, fm, pc); *old = *p; if (*p != e) return false; *p = v; return true; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int m, int fm) { T o; if (cas##N(p, *e, v, m, fm, PC, &o)) return 1; *e = o; return 0; } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int m, int fm) { T o; if (cas##N(p, *e, v, m, fm, PC, &o)) return 1; *e = o; return 0; } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int m, int fm) { T o; cas##N(p, e, v, m, fm, PC, &o); return o; }
AT(8, u8) AT(16, uint16_t) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int mo) { if (!G.active) return; step(); Fiber* f = G.cur; if (is_acq(mo) && !f->facq.empty()) hb_acquire(f->facq.data()); if (is_rel(mo)) { f->frel.assign(MAXT, 0); hb_release(f->frel.data()); } }
void __tsan_atomic_signal_fence(int) {}
}

// ---------------------------------------------------------------- fibers ----
extern "C" void* __tls_get_addr(void*);
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size sim_switch,.-sim_switch
)");
static Fiber mainfiber; static sigjmp_buf mainjb; static std::vector<Fiber*> fpool;
static void fiber_entry();
static char* tls_addr() { Lib& L = libs[curlib]; if (!L.tlsmod) return nullptr; struct { unsigned long m, o; } ti = {(unsigned long)L.tlsmod, 0}; return (char*)__tls_get_addr(&ti); }
static void goto_fiber(Fiber* f) {
  Fiber* o = G.cur; if (o == f) return;
  G.nswitch++; if (f != &mainfiber) { G.hash = hcomb(G.hash, G.steps * 256 + f->tid); G.shash = hcomb(G.shash, (o == &mainfiber ? 0 : o->steps) * 256 + f->tid); }
  Lib& L = libs[curlib];
  if (L.tlsmod) { char* t = tls_addr(); if (o->tls) memcpy(o->tls, t, L.tlssz); if (f->tls) memcpy(t, f->tls, L.tlssz); }
  u64* eg = (u64*)abi::__cxa_get_globals(); o->cxx[0] = (u64)std::__once_callable; o->cxx[1] = (u64)std::__once_call; o->cxx[2] = eg[0]; o->cxx[3] = eg[1];   // the C++ runtime's per-thread state
  std::__once_callable = (void*)f->cxx[0]; std::__once_call = (void (*)())f->cxx[1]; eg[0] = f->cxx[2]; eg[1] = f->cxx[3];
  G.cur = f; G.run_since = G.steps; o->err = errno; errno = f->err; sim_switch(&o->sp, f->sp);
}
static void fill_pattern(u8* p, size_t n, int kind, Rng& r, bool stack) {
  switch (kind) {
    case 0: if (stack) memset(p, 0, n); break;
    case 1: memset(p, 0, n); break;
    case 2: memset(p, 0xFF, n); break;
    case 3: { u64 s = r.next(); for (size_t i = 0; i + 4 <= n; i += 4) { float v = (float)((int)(mix64(s + i) % 2000) - 1000) * 1e7f; memcpy(p + i, &v, 4); } break; }
    case 4: { float v = 1.0f; for (size_t i = 0; i + 4 <= n; i += 4) memcpy(p + i, &v, 4); break; }
    case 5: memset(p, '7', n); break;
    case 6: { u64 s = r.next(); for (size_t i = 0; i + 8 <= n; i += 8) { u64 v = mix64(s + i); memcpy(p + i, &v, 8); } break; }
    case 7: { u32 v = 0x7f800000; for (size_t i = 0; i + 4 <= n; i += 4) memcpy(p + i, &v, 4); break; }
  }
}
void tls_fresh(Fiber* f) { Lib& L = libs[curlib]; if (L.tlsmod) { f->tls = (char*)realloc(f->tls, L.tlssz); memset(f->tls, 0, L.tlssz); memcpy(f->tls, L.tlsinit, L.tlsfsz); } }
void tls_renew_self() { Lib& L = libs[curlib]; if (L.tlsmod) { tls_fresh(G.cur); memcpy(tls_addr(), G.cur->tls, L.tlssz); } }
Fiber* fiber_new(int root) {
  if (G.fibers.size() >= 200) end_run(Outcome::UNSUPPORTED, 0, "too many simulated threads");
  int tid = G.fibers.size(); if ((int)fpool.size() <= tid) fpool.push_back(new Fiber());
  Fiber* f = fpool[tid]; f->tid = tid; f->root = root < 0 ? tid : root; f->st = F_IDLE; f->team = nullptr; f->team_tid = 0; f->level = f->active = 0; f->ws = f->ws1 = 0; f->acct = nullptr; f->hbody = nullptr; f->kids.clear(); f->fn = nullptr; f->body = nullptr; f->why = "idle"; f->steps = 0; f->last_step = 0;
  f->facq.clear(); f->frel.clear(); f->err = 0; f->nthreads_var = G.env.default_threads; f->dyn = G.env.dyn; f->max_active = 1; f->job_owner = nullptr;
  memset(f->vc, 0, sizeof f->vc); f->vc[tid] = 1; f->prio = G.srng.next() >> 8 | (1ull << 40);
  f->lo = (char*)(RBASE + (u64)(tid + 1) * STK_SZ); f->hi = f->lo + STK_SZ;   // slot 0 unused
  size_t fz = 24 * 1024; fill_pattern((u8*)f->hi - fz, fz, G.env.stackfill, lrng, true);
  u64* sp = (u64*)(f->hi - 4096 - mix64(G.env.layout_seed * 8191 + tid) % 256 * 16); *--sp = 0; *--sp = (u64)fiber_entry; for (int i = 0; i < 6; i++) *--sp = 0; *--sp = 0; ((u32*)sp)[0] = 0x1F80; ((uint16_t*)sp)[2] = 0x037F; f->sp = sp;
  f->handle = 0; memset(f->cxx, 0, sizeof f->cxx); f->tdtor.clear(); f->spec.clear(); tls_fresh(f);
  G.fibers.push_back(f); return f;
}
// processor time of the whole process: every runnable thread has a processor
static void cpu_tick() { G.cpu_ns += (i64)(G.steps - G.cpu_last) * G.env.ns_per_step * std::max(1, G.nrun); G.cpu_last = G.steps; }
void fiber_start(Fiber* f) { cpu_tick(); G.nrun++; f->st = F_RUN; f->why = ""; if (G.sched.policy == S_PCT) { if (f->prio > G.cur->prio) G.next_pre = std::min(G.next_pre, G.steps + 1); } }
void wake(Fiber* f) { fiber_start(f); }
static Fiber* choose(bool forced) {
  static std::vector<Fiber*> r; r.clear(); size_t n = G.fibers.size(); int c = G.cur == &mainfiber ? -1 : G.cur->tid;
  for (size_t k = 1; k <= n; k++) { Fiber* f = G.fibers[(c + k) % n]; if (f->st == F_RUN && (forced || f != G.cur)) r.push_back(f); }  // cyclic order after the current
  if (r.empty()) return nullptr; if (r.size() == 1) return r[0];
  switch (G.sched.policy) {
    case S_FORCED: case S_INTERVAL: case S_SYNC: return r[G.srng.below(r.size())];
    case S_LIFO: { Fiber* b = r[0]; for (auto f : r) if (f->tid > b->tid) b = f; return b; }
    case S_STALL: { int v = G.stall_victim; if (v < 0) return r[0]; std::vector<Fiber*> q; for (auto f : r) if (f->team_tid != v || f->level == 0) q.push_back(f); if (q.empty()) return r[G.srng.below(r.size())]; return q[G.srng.below(q.size())]; }
    case S_PCT: { Fiber* b = r[0]; for (auto f : r) if (f->prio > b->prio) b = f; return b; }
    default: return r[0];
  }
}
static void set_next() {
  u64 s = G.steps; auto& S = G.sched;
  switch (S.policy) {
    case S_INTERVAL: G.next_pre = s + 1 + G.srng.below(2 * std::max<i64>(1, S.a)); break;
    case S_STALL: G.next_pre = s + 1 + G.srng.below(2 * std::max<i64>(1, S.a)); break;
    case S_SYNC: G.next_pre = S.b > 0 ? s + 1 + G.srng.below(2 * S.b) : ~0ull; break;
    case S_LOCKSTEP: G.next_pre = s + std::max<i64>(1, S.a); break;
    case S_PCT: { u64 nx = ~0ull; for (u64 p : G.pct_pts) if (p > s) { nx = p; break; } G.next_pre = nx; break; }
    case S_EXPLICIT: while (G.ei < S.pre.size() && S.pre[G.ei].first <= s) G.ei++; G.next_pre = G.ei < S.pre.size() ? S.pre[G.ei].first : ~0ull; break;
    default: G.next_pre = ~0ull;
  }
  G.next_pre = std::min(G.next_pre, std::min(G.limit + 1, G.run_since + STARVE));
}
static void preempt() {
  u64 s = G.steps; if (s > G.limit) end_run(Outcome::HANG, 0, sfmt("no completion after %llu steps", (unsigned long long)s));
  Fiber* t = nullptr; auto& S = G.sched;
  if (S.policy == S_EXPLICIT) { if (G.ei < S.pre.size() && S.pre[G.ei].first == s) { int w = S.pre[G.ei].second; G.ei++; if (w < (int)G.fibers.size() && G.fibers[w]->st == F_RUN) t = G.fibers[w]; } else if (s - G.run_since >= STARVE) t = choose(false); }
  else if (S.policy == S_PCT) { for (u64 p : G.pct_pts) if (p == s) { G.cur->prio = G.pct_low--; } if (s - G.run_since >= STARVE) G.cur->prio = G.pct_low--; Fiber* b = choose(false); if (b && b->prio > G.cur->prio) t = b; }
  else t = choose(false);
  if (!t && s - G.run_since >= STARVE) G.run_since = s;
  if (t && t != G.cur) { if (G.rec_pre.size() < 3000000) G.rec_pre.push_back({s, t->tid}); G.cur->steps++; set_next(); Fiber* me = G.cur; goto_fiber(t); (void)me; }
  set_next();
}
static void forced_switch() {
  u64 k = G.nforced++; Fiber* dflt = nullptr; size_t n = G.fibers.size(); int c = G.cur == &mainfiber ? -1 : G.cur->tid;
  for (size_t i = 1; i <= n; i++) { Fiber* f = G.fibers[(c + i) % n]; if (f->st == F_RUN) { dflt = f; break; } }
  if (!dflt) return;
  Fiber* t = dflt;
  if (G.sched.policy == S_EXPLICIT) { auto& F = G.sched.forced; while (G.efi < F.size() && F[G.efi].first < k) G.efi++; if (G.efi < F.size() && F[G.efi].first == k) { int w = F[G.efi].second; if (w < (int)n && G.fibers[w]->st == F_RUN) t = G.fibers[w]; } }
  else t = choose(true);
  if (t != dflt && G.rec_forced.size() < 3000000) G.rec_forced.push_back({k, t->tid});
  goto_fiber(t);
}
void block(const char* why) {
  Fiber* me = G.cur; cpu_tick(); G.nrun--; me->st = F_BLOCK; me->why = why; bool any = false; for (auto f : G.fibers) if (f->st == F_RUN) { any = true; break; }
  if (!any) { std::string s; for (auto f : G.fibers) if (f->st == F_BLOCK) s += sfmt(" thread %d(worker %d) waits for %s;", f->tid, f->team_tid, f->why); end_run(Outcome::DEADLOCK, 0, "deadlock:" + s); }
  forced_switch();
}
void end_run(Outcome::K k, int code, const std::string& msg) {
  if (!G.ended) { G.ended = true; G.out.k = k; G.out.code = code; G.out.msg = msg; }
  if (G.cur != &mainfiber) { u64* eg = (u64*)abi::__cxa_get_globals(); eg[0] = mainfiber.cxx[2]; eg[1] = mainfiber.cxx[3]; }
  G.active = false; G.cur = &mainfiber; siglongjmp(mainjb, 1);
}
static void fiber_entry() {
  for (;;) {
    Fiber* me = G.cur;
    try {
      if (me->body) { auto b = me->body; b(); me->body = nullptr; }
      else if (me->hbody) { auto b = me->hbody; b(); me->hbody = nullptr; gomp_fiber_exit(me); }
      else if (me->fn) { me->fn(me->data); me->fn = nullptr; gomp_fiber_exit(me); }
    } catch (...) { end_run(Outcome::ABORT, 134, "uncaught C++ exception"); }
    cpu_tick(); G.nrun--; me->st = F_IDLE; me->why = "idle";
    bool any = false; for (auto f : G.fibers) if (f->st == F_RUN) { any = true; break; }
    if (any) { forced_switch(); continue; }
    bool blocked = false; std::string s; for (auto f : G.fibers) if (f->st == F_BLOCK) { blocked = true; s += sfmt(" thread %d(worker %d) waits for %s;", f->tid, f->team_tid, f->why); }
    if (blocked) end_run(Outcome::DEADLOCK, 0, "deadlock:" + s);
    goto_fiber(&mainfiber);
  }
}
void core_run(std::vector<std::function<void()>> bodies) {
  if (G.ended) return;
  G.cur = &mainfiber; u32 vc0[MAXT]; memset(vc0, 0, sizeof vc0); for (auto f : G.fibers) for (size_t i = 0; i < MAXT; i++) vc0[i] = std::max(vc0[i], f->vc[i]);
  std::vector<Fiber*> fs; for (auto& b : bodies) { Fiber* f = fiber_new(-1); f->body = b; f->root = f->tid; fs.push_back(f); }
  for (auto f : fs) { for (size_t i = 0; i < MAXT; i++) f->vc[i] = std::max(f->vc[i], vc0[i]); f->vc[f->tid]++; f->st = F_RUN; cpu_tick(); G.nrun++; }
  if (sigsetjmp(mainjb, 1) == 0) { G.active = true; set_next(); forced_switch(); }
  G.active = false; G.cur = &mainfiber;
}

// ---------------------------------------------------------------- memory ----
static u64 canary(u64 off) { return mix64(off * 31 + 7) | 0x0101010101010101ull; }
static void paint(u64 a, u64 b) { for (u64 o = a; o < b; o++) ((u8*)RBASE)[o] = (u8)(canary(o >> 3) >> ((o & 7) * 8)); }
static i64 check_paint(u64 a, u64 b) { for (u64 o = a; o < b; o++) if (((u8*)RBASE)[o] != (u8)(canary(o >> 3) >> ((o & 7) * 8))) return (i64)o; return -1; }
static u64 rz_lo(const Block& b) { return b.off - std::min<u64>(b.seq >> 32, b.off); }
static void chk_block(const Block& b) {
  u64 lo = rz_lo(b); i64 p = check_paint(lo, b.off); if (p < 0) p = check_paint(b.off + b.size, b.off + b.cap);
  if (p >= 0 && G.memerr.size() < 4) G.memerr.push_back({"out-of-bounds-write", sfmt("redzone of %s block of %llu bytes overwritten at offset %lld", b.tag.c_str(), (unsigned long long)b.size, (long long)(p - (i64)b.off))});
}
static int n_guard; static u64 g_cost;   // bytes the simulator itself has touched for blocks of this run
static u64 arena_alloc(u64 size, u64 align, bool user, const char* tag, int slack) {
  auto up = [](u64 x, u64 a) { return (x + a - 1) / a * a; };
  u64 off, cap, lo; u64 sz = size ? size : 1; { u64 w = (G.mode == M_FINE ? 4 : 0) + (G.env.fill || tag[0] == 'c' ? 1 : 0); u64 c = sz > (1ull << 33) ? RSIZE : sz * w; if (sz > (1u << 24) && g_cost + c > 3ull << 30) end_run(Outcome::UNSUPPORTED, 0, "simulated memory exhausted"); g_cost += sz > (1u << 24) ? c : 0; }
  bool guard = G.env.guard && G.mode == M_COARSE && n_guard < 8000;   // the kernel limits the number of mappings
  if (guard) {
    u64 start = up(g_top, 4096) + 4096; u64 end = start + up(sz + align, 4096);
    if (end + 4096 >= RSIZE) end_run(Outcome::UNSUPPORTED, 0, "simulated memory exhausted");
    if (G.env.guard == 1) { off = (end - sz) / align * align; } else off = up(start, align);
    mprotect((void*)(RBASE + start - 4096), 4096, PROT_NONE); mprotect((void*)(RBASE + end), 4096, PROT_NONE); guards_used = true; n_guard++;
    lo = std::max(start, off > 64 ? off - 64 : 0); cap = std::min(end - off, sz + 64); if (cap < sz) cap = sz; g_top = end + 4096;
  } else {
    off = 0; cap = 0; lo = 0;
    if (!freed.empty() && (int)lrng.below(100) < G.env.reuse) for (int k = (int)freed.size() - 1, tries = 0; k >= 0 && tries < 12; k--, tries++) {
      Block& b = blocks[freed[k]]; u64 room = b.cap - RZ; if (b.live || room < sz || room > 4 * sz + 4096 || (RBASE + b.off) % align) continue;
      off = b.off; cap = b.cap; lo = rz_lo(b); u64 c2 = up(sz, 4) + RZ + ((4 - (sz & 3)) & 3); (void)c2; freed.erase(freed.begin() + k); break; }
    if (!off) { u64 gap = RZ + lrng.below(8) * 16; u64 o = g_top + gap; u64 a = align < 16 ? 16 : align; o = up(o, a); if (slack && align <= 4) o += lrng.below(16) * 4; else if (slack && align == 16 && lrng.below(2)) o += 16;
      off = o; lo = off - RZ; cap = up(sz, 16) + RZ; g_top = up(off + cap, 16); if (g_top + 4096 >= RSIZE) end_run(Outcome::UNSUPPORTED, 0, "simulated memory exhausted"); }
  }
  if (g_top > g_hw) g_hw = g_top;
  Block b{off, size, cap, 1, user, !user, 0, tag, ((off - lo) << 32), guard}; bidx[off] = blocks.size(); blocks.push_back(b);
  atoms_forget(RBASE + off, size); if (G.mode == M_FINE) { memset(ST + off, 1, size); memset(ST + off + size, 0, cap - size); u64 g0 = off >> 2, g1 = (off + size + 3) >> 2; memset(SH + g0, 0, (g1 - g0) * sizeof(Cell)); }
  paint(lo, off); paint(off + size, off + cap);
  fill_pattern((u8*)(RBASE + off), size, G.env.fill, lrng, false);
  if (size % 4 && G.env.fill > 1) memset((u8*)RBASE + off + size - size % 4, 0xEE, size % 4);
  G.hash = hcomb(G.hash, off ^ (size << 20)); return RBASE + off;
}
static void arena_free(u64 addr, void* pc, bool lib) {
  u64 off = addr - RBASE; auto it = bidx.find(off);
  if (it == bidx.end() || !blocks[it->second].live) { G.memerr.push_back({"bad-free", sfmt("free of an address that is not a live block (%s) at %s", where_is(addr).c_str(), pc_name(pc).c_str())}); return; }
  Block& b = blocks[it->second];
  if (lib && G.mode == M_FINE && G.active) { for (u64 g = off >> 2; g < (off + b.size + 3) >> 2; g++) cell_access(SH[g], RBASE + (g << 2), 15, true, pc); }
  chk_block(b); b.live = 0; if (G.mode == M_FINE) memset(ST + off, 4, b.size);
  if (b.guard) { u64 s = off & ~4095ull, e = (off + b.cap) & ~4095ull; if (e > s) mprotect((void*)(RBASE + s), e - s, PROT_NONE); } else freed.push_back(it->second);
  if (b.lib) { G.live_bytes -= b.size; G.live_blocks--; }
  G.hash = hcomb(G.hash, off * 3 + 1);
}
u64 sim_alloc_user(u64 bytes, u64 align, const char* tag, int slack) { return arena_alloc(bytes, align, true, tag, slack); }
void sim_free_user(u64 a) { arena_free(a, nullptr, false); }
void sim_set_ro(u64 a, u64 n, bool ro) { if (G.mode == M_FINE) memset(ST + (a - RBASE), ro ? 3 : 1, n); }
void sim_host_write(u64 a, u64 n) { if (G.mode == M_FINE && G.active) { u64 off = a - RBASE; for (u64 g = off >> 2; g < (off + n + 3) >> 2; g++) cell_access(SH[g], RBASE + (g << 2), 15, true, nullptr); } }
static bool alloc_fault(void* pc) {
  if (!G.faults_on) return false; i64 o = G.allocs++;
  if (G.env.alloc_fail >= 0 && (o == G.env.alloc_fail || (G.env.alloc_persist && o > G.env.alloc_fail))) { G.alloc_failed++; G.hash = hcomb(G.hash, 77 + o); return true; } return false;
}
static void* lib_alloc(u64 n, u64 align, const char* tag) { step(); u64 a = arena_alloc(n, align, false, tag, 1); G.live_bytes += n; G.live_blocks++; return (void*)a; }
static bool in_region(void* p) { return (u64)p - RBASE < RSIZE; }
// what the library's static objects acquired when it was loaded: a later run finds it as it was
static std::unordered_set<void*>& boot() { static auto* s = new std::unordered_set<void*>; return *s; }
static void* booted(void* p) { if (p) boot().insert(p); return p; }
static void real_free(void* p) { if (!boot().empty() && boot().count(p)) return; free(p); }
// the C++ library releases blocks the library's inlined code acquired, and the other way round
void operator delete(void* p) noexcept; extern "C" void __wrap_free(void*);
void operator delete(void* p) noexcept { if (p && in_region(p)) __wrap_free(p); else real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); } void operator delete(void* p, size_t) noexcept { operator delete(p); } void operator delete[](void* p, size_t) noexcept { operator delete(p); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void* operator new[](size_t n) { return operator new(n); }
extern "C" {
void* __wrap_malloc(size_t n) { if (!G.active) return booted(malloc(n)); if (n > (1ull << 34)) { errno = ENOMEM; return 0; } if (alloc_fault(PC)) { errno = ENOMEM; return nullptr; } return lib_alloc(n, 16, "malloc"); }
void* __wrap_calloc(size_t a, size_t b) { if (!G.active) return booted(calloc(a, b)); u64 n = (u64)a * b; if (n > (1ull << 34)) { errno = ENOMEM; return 0; } if (alloc_fault(PC)) { errno = ENOMEM; return nullptr; } void* p = lib_alloc(n, 16, "calloc"); memset(p, 0, n); return p; }
int __wrap_posix_memalign(void** r, size_t al, size_t n) { if (!G.active) return posix_memalign(r, al, n); if (n > (1ull << 34)) return ENOMEM; if (alloc_fault(PC)) return ENOMEM; void* p = lib_alloc(n, al < 16 ? 16 : al, "posix_memalign"); acc(r, 8, true, PC); *r = p; return 0; }
void* __wrap_aligned_alloc(size_t al, size_t n) { if (!G.active) return booted(aligned_alloc(al, n)); if (n > (1ull << 34)) { errno = ENOMEM; return 0; } if (alloc_fault(PC)) { errno = ENOMEM; return nullptr; } return lib_alloc(n, al < 16 ? 16 : al, "aligned_alloc"); }
void* __wrap_memalign(size_t al, size_t n) { return __wrap_aligned_alloc(al, n); }
void* __wrap__mm_malloc(size_t n, size_t al) { return __wrap_aligned_alloc(al, n); }
void* __wrap_valloc(size_t n) { return __wrap_aligned_alloc(4096, n); }
void __wrap_free(void* p) { if (!p) return; if (!in_region(p)) { real_free(p); return; } step(); arena_free((u64)p, PC, true); }
void* __wrap_realloc(void* p, size_t n) { if (!G.active && !in_region(p)) return realloc(p, n); if (!p) return __wrap_malloc(n); if (alloc_fault(PC)) { errno = ENOMEM; return nullptr; } auto it = bidx.find((u64)p - RBASE); u64 os = it == bidx.end() ? 0 : blocks[it->second].size; void* q = lib_alloc(n, 16, "realloc"); memcpy(q, p, os < n ? os : n); arena_free((u64)p, PC, true); return q; }
char* __wrap_strdup(const char* s) { char* p = (char*)__wrap_malloc(strlen(s) + 1); if (p) strcpy(p, s); return p; }
void* __wrap__Znwm(size_t n) { if (!G.active) return booted(operator new(n)); if (alloc_fault(PC)) throw std::bad_alloc(); return lib_alloc(n, 16, "new"); }
void* __wrap__Znam(size_t n) { return __wrap__Znwm(n); }
void* __wrap__ZnwmSt11align_val_t(size_t n, size_t al) { if (!G.active) return booted(aligned_alloc(al, n)); if (alloc_fault(PC)) throw std::bad_alloc(); return lib_alloc(n, al, "new"); }
void* __wrap__ZnamSt11align_val_t(size_t n, size_t al) { return __wrap__ZnwmSt11align_val_t(n, al); }
void* __wrap__ZnwmRKSt9nothrow_t(size_t n, void*) { return __wrap_malloc(n); } void* __wrap__ZnamRKSt9nothrow_t(size_t n, void*) { return __wrap_malloc(n); }
void __wrap__ZdlPv(void* p) { if (p && !in_region(p)) { real_free(p); return; } __wrap_free(p); } void __wrap__ZdaPv(void* p) { __wrap__ZdlPv(p); } void __wrap__ZdlPvm(void* p, size_t) { __wrap__ZdlPv(p); } void __wrap__ZdaPvm(void* p, size_t) { __wrap__ZdlPv(p); }
void __wrap__ZdlPvSt11align_val_t(void* p, size_t) { __wrap__ZdlPv(p); } void __wrap__ZdaPvSt11align_val_t(void* p, size_t) { __wrap__ZdlPv(p); } void __wrap__ZdlPvmSt11align_val_t(void* p, size_t, size_t) { __wrap__ZdlPv(p); }
static void rng(const void* p, size_t n, bool w, void* pc) { if (n && G.mode == M_FINE) acc(p, n, w, pc); else step(); }
void* __wrap_memset(void* p, int c, size_t n) { rng(p, n, true, PC); return memset(p, c, n); }
void* __wrap_memcpy(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return memmove(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { rng(s, n, false, PC); rng(d, n, true, PC); return memmove(d, s, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { rng(a, n, false, PC); rng(b, n, false, PC); return memcmp(a, b, n); }
// ---- clocks
static void ts(struct timespec* t, i64 ns) { t->tv_sec = ns / 1000000000; t->tv_nsec = ns % 1000000000; }
int __wrap_clock_gettime(clockid_t c, struct timespec* t) { if (!G.active) return clock_gettime(c, t); step(); rng(t, 16, true, PC); auto tick = [](i64 v) { return v - v % 4000000; }; ts(t, c == CLOCK_MONOTONIC_COARSE ? tick(sim_mono()) : c == CLOCK_REALTIME_COARSE ? tick(sim_wall()) : c == CLOCK_PROCESS_CPUTIME_ID ? (cpu_tick(), G.cpu_ns) : c == CLOCK_THREAD_CPUTIME_ID ? (i64)G.steps * G.env.ns_per_step : c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE || c == CLOCK_TAI ? sim_wall() : sim_mono()); return 0; }
int __wrap_gettimeofday(struct timeval* t, void*) { step(); i64 n = sim_wall(); t->tv_sec = n / 1000000000; t->tv_usec = n % 1000000000 / 1000; return 0; }
time_t __wrap_time(time_t* t) { step(); time_t v = sim_wall() / 1000000000; if (t) *t = v; return v; }
clock_t __wrap_clock() { step(); cpu_tick(); return G.cpu_ns / 1000; }
clock_t __wrap_times(struct tms* t) { step(); cpu_tick(); if (t) { memset(t, 0, sizeof *t); t->tms_utime = G.cpu_ns / 10000000; } return sim_mono() / 10000000; }
int __wrap_getrusage(int, struct rusage* u) { step(); cpu_tick(); memset(u, 0, sizeof *u); u->ru_maxrss = (64 << 10) << mix64(G.env.layout_seed * 127) % 10; u->ru_utime.tv_sec = G.cpu_ns / 1000000000; u->ru_utime.tv_usec = G.cpu_ns % 1000000000 / 1000; return 0; }
int __wrap_timespec_get(struct timespec* t, int b) { step(); ts(t, sim_wall()); return b; }
u64 __wrap_vf_rdtsc() { step(); return (u64)(sim_mono() * 2.5); }
i64 __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { step(); return sim_mono(); } i64 __wrap__ZNSt6chrono3_V212system_clock3nowEv() { step(); return sim_wall(); }
int __wrap_nanosleep(const struct timespec* t, struct timespec*) { step(); G.mono_ns += t->tv_sec * 1000000000ll + t->tv_nsec; G.wall_ns += t->tv_sec * 1000000000ll + t->tv_nsec; G.next_pre = std::min(G.next_pre, G.steps + 1); step(); return 0; }
int __wrap_usleep(unsigned u) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return __wrap_nanosleep(&t, 0); }
unsigned __wrap_sleep(unsigned s) { struct timespec t = {s, 0}; __wrap_nanosleep(&t, 0); return 0; }
int __wrap_sched_yield() { if (!G.active) return 0; G.next_pre = std::min(G.next_pre, G.steps + 1); step(); return 0; }
int __wrap_sched_getcpu() { if (!G.active) return 0; step(); return mix64(G.env.layout_seed * 31 + G.steps) % std::max(1, G.env.nprocs); }
int __wrap_getcpu(unsigned* c, unsigned* n) { if (c) *c = __wrap_sched_getcpu(); if (n) *n = 0; return 0; }
static int affinity(size_t n, cpu_set_t* s) { memset(s, 0, n); for (int i = 0; i < G.env.nprocs && i < (int)n * 8; i++) CPU_SET_S(i, n, s); return 0; }
int __wrap_sched_getaffinity(int, size_t n, cpu_set_t* s) { return affinity(n, s); } int __wrap_pthread_getaffinity_np(u64, size_t n, cpu_set_t* s) { return affinity(n, s); }
int __wrap_sched_setaffinity(int, size_t, const cpu_set_t*) { step(); return 0; } int __wrap_pthread_setaffinity_np(u64, size_t, const cpu_set_t*) { step(); return 0; }
int __wrap_get_nprocs() { return G.env.nprocs; } int __wrap_get_nprocs_conf() { return G.env.nprocs; }
int __wrap_getpid() { return G.active ? 1000 + (int)(mix64(G.env.layout_seed) % 60000) : getpid(); } int __wrap_gettid() { return G.active ? __wrap_getpid() + G.cur->tid : getpid(); }
// how busy the machine is: other programs come and go
static const i64 PHYS = 64ll << 30; static u64 busy() { return mix64(G.env.layout_seed * 127 + (u64)(G.mono_ns / 50000000) * 3); }
static i64 free_mem() { return (64ll << 20) << busy() % 10; } static double load_now(int i) { return (double)(busy() >> (8 * i) & 255) / 255 * (busy() >> 40 & 1 ? 2.0 * G.env.nprocs : 1.0); }
int __wrap_getloadavg(double* v, int n) { if (!G.active) return -1; step(); for (int i = 0; i < n && i < 3; i++) v[i] = load_now(i); return std::min(n, 3); }
long __wrap_get_avphys_pages() { step(); return free_mem() / 4096; } long __wrap_get_phys_pages() { return PHYS / 4096; }
int __wrap_sysinfo(struct sysinfo* s) { step(); memset(s, 0, sizeof *s); s->uptime = G.mono_ns / 1000000000; s->totalram = PHYS; s->freeram = free_mem(); s->mem_unit = 1; s->procs = 100 + busy() % 400; for (int i = 0; i < 3; i++) s->loads[i] = (unsigned long)(load_now(i) * 65536); return 0; }
long __wrap_sysconf(int n) { if (G.active && G.machine && (n == _SC_LEVEL1_DCACHE_SIZE || n == _SC_LEVEL2_CACHE_SIZE || n == _SC_LEVEL3_CACHE_SIZE)) { const std::string& s = n == _SC_LEVEL1_DCACHE_SIZE ? G.machine->l1 : n == _SC_LEVEL2_CACHE_SIZE ? G.machine->l2 : G.machine->l3; char u = s.empty() ? 0 : s.back(); return (long)(atof(s.c_str()) * (u == 'K' ? 1024.0 : u == 'M' ? 1048576.0 : u == 'G' ? 1073741824.0 : 1.0)); }
  if (G.active && n == _SC_AVPHYS_PAGES) return free_mem() / 4096; if (G.active && n == _SC_PHYS_PAGES) return PHYS / 4096;
  if (G.active && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return G.env.nprocs; return sysconf(n); }
static u64 randst = 88172645463325252ull;
int __wrap_rand() { step(); randst = mix64(randst + 1); int v = (int)(randst >> 33) & 0x7fffffff; switch (G.env.randm) { case 1: return 0; case 2: return 0x7fffffff; case 3: return randst & 1 ? 0 : 0x7fffffff; case 4: return randst & 6 ? v : v & 1 ? (v >> 4) & 3 : 0x7fffffff - ((v >> 4) & 3); default: return v; } } long __wrap_random() { return __wrap_rand(); } void __wrap_srandom(unsigned s) { randst = s; } void __wrap_srand(unsigned s) { randst = s; }
// ---- output and exit
static int outv(const char* f, va_list ap) { char b[2048]; int n = vsnprintf(b, sizeof b, f, ap); if (G.output.size() < 20000) G.output += b; step(); return n; }
int __wrap_printf(const char* f, ...) { va_list ap; va_start(ap, f); int n = outv(f, ap); va_end(ap); return n; }
int __wrap_fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); int n = outv(f, ap); va_end(ap); return n; }
int __wrap_vprintf(const char* f, va_list ap) { return outv(f, ap); } int __wrap_vfprintf(FILE*, const char* f, va_list ap) { return outv(f, ap); }
int __wrap_puts(const char* s) { if (G.output.size() < 20000) { G.output += s; G.output += "\n"; } step(); return 1; } int __wrap_putchar(int c) { if (G.output.size() < 20000) G.output += (char)c; step(); return c; }
int __wrap_fputs(const char* s, FILE*) { if (G.output.size() < 20000) G.output += s; step(); return 1; } int __wrap_fputc(int c, FILE*) { return __wrap_putchar(c); } int __wrap_putc(int c, FILE*) { return __wrap_putchar(c); }
size_t __wrap_fwrite(const void* p, size_t a, size_t b, FILE*) { if (G.output.size() < 20000) G.output.append((const char*)p, a * b); step(); return b; }
void __wrap_perror(const char* s) { if (s) G.output += s; G.output += "\n"; } int __wrap_fflush(FILE*) { return 0; }
void __wrap_exit(int c) { end_run(Outcome::EXIT, c, sfmt("exit(%d)", c)); } void __wrap__exit(int c) { end_run(Outcome::EXIT, c, "_exit"); } void __wrap__Exit(int c) { end_run(Outcome::EXIT, c, "_Exit"); } void __wrap_quick_exit(int c) { end_run(Outcome::EXIT, c, "quick_exit"); }
void __wrap_abort() { end_run(Outcome::ABORT, 134, "abort()"); } void __wrap___assert_fail(const char* e, const char*, unsigned, const char*) { end_run(Outcome::ABORT, 134, std::string("assertion failed: ") + e); }
}
i64 sim_mono() {
  u64 d = G.steps - G.clock_last; G.clock_last = G.steps; i64 ns = (i64)d * G.env.ns_per_step; G.mono_ns += ns; G.wall_ns += ns;
  while (G.si < G.env.stall.size() && G.env.stall[G.si].first <= G.steps) { G.mono_ns += G.env.stall[G.si].second; G.wall_ns += G.env.stall[G.si].second; G.si++; G.stalls++; }
  while (G.wi < G.env.wall.size() && G.env.wall[G.wi].first <= G.steps) { G.wall_ns += G.env.wall[G.wi].second; G.wi++; G.walljumps++; }
  return G.mono_ns;
}
i64 sim_wall() { sim_mono(); return G.wall_ns; }

// ------------------------------------------------------------- processes ----
std::string Machine::env() const { return sfmt("SIM_CPUS=%d SIM_THREADS=%d SIM_SOCKETS=%d SIM_L1=%s SIM_L2=%s SIM_L3=%s SIM_L3ALL=%s SIM_MODEL='%s' SIM_MODELNUM=%d SIM_DROP=%d ", cpus, threads, sockets, l1.c_str(), l2.c_str(), l3.c_str(), l3all.c_str(), model.c_str(), modelnum, drop); }
J Machine::json() const { return J::obj().set("cpus", cpus).set("threads", threads).set("sockets", sockets).set("l1", l1).set("l2", l2).set("l3", l3).set("l3all", l3all).set("model", model).set("modelnum", modelnum).set("drop", drop); }
Machine Machine::from(const J& j) { Machine m; m.cpus = j.num("cpus", 4); m.threads = j.num("threads", 1); m.sockets = j.num("sockets", 1); m.l1 = j.str("l1"); m.l2 = j.str("l2"); m.l3 = j.str("l3"); m.l3all = j.str("l3all"); m.model = j.str("model"); m.modelnum = j.num("modelnum", -1); m.drop = j.num("drop"); return m; }
static int sim_waitpid(int p, int* s) { int r; while ((r = waitpid(p, s, 0)) < 0 && errno == EINTR) {} return r; }
std::string g_standins; static std::map<std::string, std::pair<std::string, int>> memo; u64 g_pipelines = 0;
static std::pair<std::string, int> pipeline0(const std::string& cmd) {
  Machine dm; Machine& m = G.machine ? *G.machine : dm; std::string key = m.env() + "\n" + cmd; auto it = memo.find(key); if (it != memo.end()) return it->second;
  static int fd = -1; (void)fd; std::string r; char sh[] = "/bin/sh";
  int pfd[2]; if (pipe(pfd)) return {"", 127 << 8}; pid_t pid = vfork();
  std::string full = m.env() + "export SIM_CPUS SIM_THREADS SIM_SOCKETS SIM_L1 SIM_L2 SIM_L3 SIM_L3ALL SIM_MODEL SIM_MODELNUM SIM_DROP; PATH=" + g_standins + ":/usr/bin:/bin; export PATH; " + cmd;
  // the assignments above are shell assignments, not a command prefix
  { std::string e = m.env(); std::string fixed; bool q = false; for (char c : e) { if (c == '\'') q = !q; fixed += (c == ' ' && !q) ? ';' : c; } full = fixed + full.substr(e.size()); }
  const char* av[] = {sh, "-c", full.c_str(), 0};
  if (pid == 0) { dup2(pfd[1], 1); close(pfd[0]); close(pfd[1]); execv(sh, (char* const*)av); _exit(127); }
  close(pfd[1]); char b[4096]; ssize_t n; while ((n = read(pfd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR)) if (n > 0) r.append(b, n);
  close(pfd[0]); int stt; sim_waitpid(pid, &stt); g_pipelines++; return memo[key] = {r, stt};
}
static std::pair<std::string, int> pipeline(const std::string& cmd) { int e = errno; auto r = pipeline0(cmd); errno = e; return r; }   // a remembered answer and a fresh one leave the same errno
struct PF { std::string data; size_t pos = 0; int mode = 0; size_t lim = 0; int st = 0; };
static std::unordered_set<int> fds; static std::unordered_map<FILE*, PF*> pfiles; static std::unordered_map<FILE*, bool> rfiles;
static ssize_t pf_read(void* c, char* b, size_t n) { PF* p = (PF*)c; if (p->mode == 2 && p->pos >= p->lim) { errno = EIO; return -1; } size_t k = std::min(n, p->data.size() - p->pos); if (p->mode == 1) k = std::min(k, p->lim); if (p->mode == 2) k = std::min(k, p->lim - p->pos); memcpy(b, p->data.data() + p->pos, k); p->pos += k; return k; }
static int pf_close(void* c) { delete (PF*)c; return 0; }
extern "C" {
FILE* __wrap_popen(const char* cmd, const char* mode) {
  if (!G.active) return popen(cmd, mode); step(); int ord = G.popens++, oord = G.op_popens++; PF* p = new PF(); std::tie(p->data, p->st) = pipeline(cmd); G.hash = hcomb(G.hash, hstr(cmd));
  if (G.faults_on) for (auto& f : G.env.popen) if (f.op < 0 ? f.ord == ord : f.op == G.curop && f.ord == oord) { G.popen_faults++;
    if (f.kind == "null") { delete p; errno = ENOMEM; return nullptr; } if (f.kind == "empty") p->data.clear(); else if (f.kind == "trunc") p->data.resize(std::min<size_t>(p->data.size(), f.n)); else if (f.kind == "garbage") p->data = f.data; else if (f.kind == "short") { p->mode = 1; p->lim = std::max<i64>(1, f.n); } else if (f.kind == "err") { p->mode = 2; p->lim = std::min<size_t>(p->data.size(), f.n); } else if (f.kind == "status") p->st = f.n & 1 ? 9 : 1 << 8; }
  cookie_io_functions_t io = {pf_read, nullptr, nullptr, pf_close}; FILE* fp = fopencookie(p, "r", io); pfiles[fp] = p; G.files_open++; G.children++; return fp;
}
int __wrap_pclose(FILE* f) { step(); auto it = pfiles.find(f); if (it == pfiles.end()) { G.memerr.push_back({"bad-close", "pclose of a stream that is not an open helper pipe"}); return -1; } int st = it->second->st; pfiles.erase(it); G.files_open--; G.children--; fclose(f); return st; }
// glibc reaps the helper here too
int __wrap_fclose(FILE* f) { step(); auto it = pfiles.find(f); if (it != pfiles.end()) { pfiles.erase(it); G.files_open--; G.children--; fclose(f); return 0; } auto i2 = rfiles.find(f); if (i2 != rfiles.end()) { rfiles.erase(i2); G.files_open--; } return fclose(f); }
FILE* __wrap_fopen(const char* n, const char* m) { step(); FILE* f = nullptr;
  if (G.active && n && !strcmp(n, "/proc/cpuinfo")) { PF* p = new PF(); Machine dm; Machine& k = G.machine ? *G.machine : dm; if (!(k.drop & 64)) for (int i = 0; i < k.cpus; i++) p->data += sfmt("processor\t: %d\n%s%s\n", i, k.modelnum >= 0 ? sfmt("model\t\t: %d\n", k.modelnum).c_str() : "", k.drop & 1 ? "" : ("model name\t: " + k.model + "\n").c_str()); cookie_io_functions_t io = {pf_read, nullptr, nullptr, pf_close}; f = fopencookie(p, "r", io); }
  else if (G.active && n && (!strcmp(n, "/proc/loadavg") || !strcmp(n, "/proc/meminfo"))) { PF* p = new PF(); p->data = n[6] == 'l' ? sfmt("%.2f %.2f %.2f 1/%d %d\n", load_now(0), load_now(1), load_now(2), 100 + (int)(busy() % 400), 1000) : sfmt("MemTotal: %15lld kB\nMemFree: %15lld kB\nMemAvailable: %15lld kB\n", (long long)PHYS >> 10, (long long)free_mem() >> 10, (long long)free_mem() >> 10); cookie_io_functions_t io = {pf_read, nullptr, nullptr, pf_close}; f = fopencookie(p, "r", io); }
  else f = fopen(n, m);
  if (f && G.active) { rfiles[f] = true; G.files_open++; } return f; }
int __wrap_system(const char*) { step(); return 0; }
ssize_t __wrap_getdelim(char** l, size_t* n, int d, FILE* f) { size_t k = 0; if (!*l) *n = 0; if (!*n) { char* q = (char*)__wrap_realloc(*l, 120); if (!q) return -1; *l = q; *n = 120; } for (;;) { if (k + 2 > *n) { size_t m = *n ? *n * 2 : 120; char* q = (char*)__wrap_realloc(*l, m); if (!q) return -1; *l = q; *n = m; } int c = fgetc(f); if (c == EOF) { if (!k) return -1; break; } (*l)[k++] = c; if (c == d) break; } (*l)[k] = 0; return k; }
ssize_t __wrap___getdelim(char** l, size_t* n, int d, FILE* f) { return __wrap_getdelim(l, n, d, f); }
ssize_t __wrap_getline(char** l, size_t* n, FILE* f) { return __wrap_getdelim(l, n, '\n', f); }
int __wrap_vasprintf(char** r, const char* f, va_list ap) { va_list c; va_copy(c, ap); int n = vsnprintf(nullptr, 0, f, c); va_end(c); char* p = n < 0 ? nullptr : (char*)__wrap_malloc(n + 1); if (!p) return -1; vsnprintf(p, n + 1, f, ap); *r = p; return n; }
int __wrap_asprintf(char** r, const char* f, ...) { va_list ap; va_start(ap, f); int n = __wrap_vasprintf(r, f, ap); va_end(ap); return n; }
char* __wrap_strndup(const char* s, size_t n) { size_t k = strnlen(s, n); char* p = (char*)__wrap_malloc(k + 1); if (p) { memcpy(p, s, k); p[k] = 0; } return p; }
void* __wrap_mmap(void* a, size_t n, int pr, int fl, int fd, off_t o) { if (!G.active || !(fl & MAP_ANONYMOUS) || (fl & MAP_FIXED)) return mmap(a, n, pr, fl, fd, o); if (!n) { errno = EINVAL; return MAP_FAILED; } if (n > (1ull << 34) || alloc_fault(PC)) { errno = ENOMEM; return MAP_FAILED; } void* p = lib_alloc((n + 4095) & ~4095ull, 4096, "mmap"); memset(p, 0, n); return p; }
int __wrap_munmap(void* p, size_t n) { if (!in_region(p)) return munmap(p, n); step(); arena_free((u64)p, PC, true); return 0; }
int __wrap_open(const char* n, int fl, ...) { va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap); step(); int fd = open(n, fl, m); if (fd >= 0 && G.active) { fds.insert(fd); G.files_open++; } return fd; }
int __wrap_close(int fd) { if (!G.active) return close(fd); step(); if (fds.erase(fd)) { G.files_open--; return close(fd); } errno = EBADF; return -1; }
FILE* __wrap_fdopen(int fd, const char* m) { step(); FILE* f = fdopen(fd, m); if (f && fds.erase(fd)) rfiles[f] = true; return f; }
}

// ------------------------------------------------------------------ libs ----
static int phdr_cb(struct dl_phdr_info* i, size_t, void* d) {
  Lib* L = (Lib*)d;
  if (i->dlpi_addr != L->base) return 0;
  u64 rl = 0, rh = 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) { rl = L->base + i->dlpi_phdr[k].p_vaddr; rh = (rl + i->dlpi_phdr[k].p_memsz) & ~4095ull; rl &= ~4095ull; }
  for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD) { u64 a = L->base + p.p_vaddr, b = a + p.p_memsz; if (!L->lo || a < L->lo) L->lo = a; if (b > L->hi) L->hi = b; if (p.p_flags & PF_W) { if (rh > a && rl <= a) a = rh; if (a < b) { L->rwlo = a; L->rwhi = b; } } }
    if (p.p_type == PT_TLS && p.p_memsz) { L->tlsmod = i->dlpi_tls_modid; L->tlssz = p.p_memsz; L->tlsfsz = p.p_filesz; L->tlsinit = (const char*)(L->base + p.p_vaddr); } }
  return 1;
}
extern bool g_tasks;
void lib_load(const std::string& path) {
  { FILE* f = fopen(path.c_str(), "rb"); std::string b; char t[65536]; size_t n; while (f && (n = fread(t, 1, sizeof t, f)) > 0) b.append(t, n); if (f) fclose(f); if (b.find("GOMP_task") != std::string::npos) g_tasks = true; }
  Lib L; L.path = path; L.h = dlopen(path.c_str(), RTLD_NOW | RTLD_LOCAL); if (!L.h) { fprintf(stderr, "sim: dlopen: %s\n", dlerror()); exit(2); }
  struct link_map* lm; dlinfo(L.h, RTLD_DI_LINKMAP, &lm); L.base = lm->l_addr; L.lo = L.hi = 0; dl_iterate_phdr(phdr_cb, &L);
  if (L.rwhi > L.rwlo) { L.snap.assign((u8*)L.rwlo, (u8*)L.rwhi); L.nsh = (L.rwhi - L.rwlo + 3) / 4; L.sh = (Cell*)calloc(L.nsh, sizeof(Cell)); }
  L.fine = path.find("fine") != std::string::npos; libs.push_back(L); curlib = libs.size() - 1;
}
int cur_lib() { return curlib; }
void lib_use(int i) { curlib = i; } int lib_count() { return libs.size(); } bool lib_fine(int i) { return libs[i].fine; }
void* lib_sym(const char* n) { return dlsym(libs[curlib].h, n); }

// ------------------------------------------------------------ init/reset ----
static u64 last_watch_steps; static int watch_n;
static void on_sig(int sig, siginfo_t* si, void* uc) {
  ucontext_t* u = (ucontext_t*)uc; u64 pc = u->uc_mcontext.gregs[REG_RIP]; u64 err = u->uc_mcontext.gregs[REG_ERR];
  if (sig == SIGVTALRM) { if (!G.active) return; if (G.steps != last_watch_steps) { last_watch_steps = G.steps; watch_n = 0; return; } if (++watch_n < G.watch_max) return; end_run(Outcome::HANG, 0, "stuck in a loop without memory accesses"); }
  if (!G.active || (pc >= exe_lo && pc < exe_hi && sig != SIGABRT)) { char b[200]; int n = snprintf(b, sizeof b, "sim: internal signal %d pc=%llx (exe+%llx) addr=%p\n", sig, (unsigned long long)pc, (unsigned long long)(pc - exe_lo), si->si_addr); if (write(2, b, n)) {} _exit(3); }
  if (sig == SIGABRT) end_run(Outcome::ABORT, 134, "abort (uncaught exception or failed assertion)");
  u64 a = (u64)si->si_addr; if (sig == SIGSEGV && a - RBASE < ARENA0) end_run(Outcome::CRASH, sig, sfmt("stack overflow of thread %d at %s", (int)((a - RBASE) / STK_SZ) - 1, pc_name((void*)pc).c_str()));
  if (sig == SIGSEGV && a - RBASE < RSIZE) { G.memerr.push_back({err & 2 ? "out-of-bounds-write" : "out-of-bounds-read", sfmt("access to a guard page (%s) at %s", where_is(a).c_str(), pc_name((void*)pc).c_str())}); end_run(Outcome::CRASH, sig, "guard page hit: " + G.memerr.back().msg); }
  end_run(Outcome::CRASH, sig, sfmt("%s at address 0x%llx, %s", sig == SIGSEGV ? "invalid memory access" : sig == SIGFPE ? "arithmetic exception" : "fatal signal", (unsigned long long)(a < 65536 ? a : a >> 40 << 40), pc_name((void*)pc).c_str()));
}
static int exe_cb(struct dl_phdr_info* i, size_t, void*) { for (int k = 0; k < i->dlpi_phnum; k++) { auto& p = i->dlpi_phdr[k]; if (p.p_type == PT_LOAD) { u64 a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz; if (!exe_lo || a < exe_lo) exe_lo = a; if (b > exe_hi) exe_hi = b; } } return 1; }
extern "C" char __libc_single_threaded;
void core_init() {
  __libc_single_threaded = 0;   // shared_ptr must count atomically
  void* r = mmap((void*)RBASE, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != (void*)RBASE) { perror("sim: mmap region"); exit(2); }
  ST = (u8*)mmap(0, RSIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); SH = (Cell*)mmap(0, RSIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (ST == MAP_FAILED || SH == MAP_FAILED) { perror("sim: mmap shadow"); exit(2); }
  for (u64 i = 0; i < STK_AREA / STK_SZ; i++) mprotect((void*)(RBASE + i * STK_SZ), 4096, PROT_NONE);
  for (auto& m : stk_min) m = ~0ull; dl_iterate_phdr(exe_cb, 0);
  static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, 0);
  struct itimerval it = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &it, 0);
  mainfiber.tid = MAXT - 1; g_top = ARENA0 + 4096;
}
void core_reset(const EnvSpec& e, const SchedSpec& s, Mode m, u64 limit) {
  if (guards_used) { mprotect((void*)(RBASE + ARENA0), (g_hw - ARENA0 + 8192) & ~4095ull, PROT_READ | PROT_WRITE); guards_used = false; } n_guard = 0; g_cost = 0;
  u64 used = g_hw > ARENA0 ? g_hw - ARENA0 + 4096 : 0;
  if (used) { // forget contents, rights and history of the previous run
    if (used > (8u << 20)) { madvise((void*)(RBASE + ARENA0), (used + 4095) & ~4095ull, MADV_DONTNEED); madvise(ST + ARENA0, (used + 4095) & ~4095ull, MADV_DONTNEED); madvise((char*)SH + ARENA0 * 4, (used * 4 + 4095) & ~4095ull, MADV_DONTNEED); }
    else { memset((void*)(RBASE + ARENA0), 0, used); if (G.mode == M_FINE) { memset(ST + ARENA0, 0, used); memset((char*)SH + ARENA0 * 4, 0, used * 4); } } }
  for (u64 i = 0; i < STK_AREA / STK_SZ; i++) if (stk_min[i] != ~0ull) { u64 a = stk_min[i] & ~63ull, b = (i + 1) * STK_SZ; memset((char*)SH + a * 4, 0, (b - a) * 4); stk_min[i] = ~0ull; }
  for (auto& p : pfiles) fclose(p.first); pfiles.clear(); for (auto& p : rfiles) fclose(p.first); rfiles.clear(); for (int fd : fds) close(fd); fds.clear();
  auto mach = G.machine; std::vector<std::pair<u64, int>> a, b; a.swap(G.rec_pre); b.swap(G.rec_forced); a.clear(); b.clear();
  G = Core(); G.rec_pre.swap(a); G.rec_forced.swap(b); G.machine = mach; G.env = e; G.sched = s; G.mode = m; G.limit = limit; G.srng = Rng(s.seed * 77 + 5); lrng = Rng(e.layout_seed); G.hash = 1;
  g_top = ARENA0 + 4096 + (lrng.below(64) * 64); g_hw = g_top; blocks.clear(); bidx.clear(); freed.clear(); syncv.clear(); memset(abloom, 0, sizeof abloom); g_atoms = false; rpool_n = 0; last_watch_steps = ~0ull; watch_n = 0; randst = 88172645463325252ull;
  if (e.fill >= 2 && m == M_FINE) { fill_pattern((u8*)(RBASE + ARENA0), 1 << 16, e.fill, lrng, false); g_hw = std::max<u64>(g_hw, ARENA0 + (1ull << 16)); }
  G.mono_ns = 1000000000ll * 1000 + e.t0; G.wall_ns = 1700000000ll * 1000000000ll + e.t0;
  if (s.policy == S_PCT) { Rng r(s.seed * 3 + 1); for (i64 i = 0; i < s.a; i++) G.pct_pts.push_back(1 + r.below(std::max<i64>(1, s.b))); std::sort(G.pct_pts.begin(), G.pct_pts.end()); G.pct_low = 1000000; }
  G.stall_victim = s.policy == S_STALL ? (int)s.b : -1;
  Lib& L = libs[curlib]; if (L.rwhi > L.rwlo) { memcpy((void*)L.rwlo, L.snap.data(), L.snap.size()); memset((void*)L.sh, 0, L.nsh * sizeof(Cell)); }
  G.cur = &mainfiber; memset(mainfiber.vc, 0, sizeof mainfiber.vc); gomp_reset();
}
void core_finish() { if (G.mode == M_COARSE || true) for (auto& b : blocks) if (b.live && !G.env.guard) chk_block(b); if (G.env.guard && G.mode == M_COARSE && G.out.k != Outcome::CRASH) for (auto& b : blocks) if (b.live) chk_block(b); }

// ------------------------------------------------------------------ json ----
static J pairs(const std::vector<std::pair<u64, int>>& v) { J a = J::arr(); for (auto& p : v) { J x = J::arr(); x.push(p.first); x.push(p.second); a.push(x); } return a; }
static std::vector<std::pair<u64, int>> unpairs(const J* j) { std::vector<std::pair<u64, int>> v; if (j) for (auto& x : j->a) v.push_back({(u64)x.a[0].i, (int)x.a[1].i}); return v; }
static J pairs64(const std::vector<std::pair<u64, i64>>& v) { J a = J::arr(); for (auto& p : v) { J x = J::arr(); x.push(p.first); x.push((long long)p.second); a.push(x); } return a; }
static std::vector<std::pair<u64, i64>> unpairs64(const J* j) { std::vector<std::pair<u64, i64>> v; if (j) for (auto& x : j->a) v.push_back({(u64)x.a[0].i, x.a[1].i}); return v; }
J SchedSpec::json() const { J j = J::obj(); j.set("policy", policy_name[policy]); if (policy != S_EXPLICIT) j.set("seed", seed).set("a", (long long)a).set("b", (long long)b).set("c", (long long)c); else j.set("preempt", pairs(pre)).set("forced", pairs(forced)); return j; }
SchedSpec SchedSpec::from(const J& j) { SchedSpec s; std::string n = j.str("policy"); for (int i = 0; i < S_NPOL; i++) if (n == policy_name[i]) s.policy = i; s.seed = j.num("seed", 1); s.a = j.num("a"); s.b = j.num("b"); s.c = j.num("c"); s.pre = unpairs(j.get("preempt")); s.forced = unpairs(j.get("forced")); return s; }
J EnvSpec::json() const { J j = J::obj(); j.set("layout_seed", layout_seed).set("fill", fill).set("stackfill", stackfill).set("reuse", reuse).set("guard", guard).set("alloc_fail", (long long)alloc_fail).set("alloc_persist", alloc_persist).set("team_mode", team_mode).set("team_limit", team_limit).set("team_seed", team_seed).set("nprocs", nprocs).set("default_threads", default_threads).set("dyn", dyn).set("wall", pairs64(wall)).set("stall", pairs64(stall)).set("ns", ns_per_step).set("t0", t0).set("randm", randm); J a = J::arr(); for (auto& f : popen) a.push(J::obj().set("ord", f.ord).set("kind", f.kind).set("n", (long long)f.n).set("data", f.data).set("op", f.op)); j.set("popen", a); return j; }
EnvSpec EnvSpec::from(const J& j) { EnvSpec e; e.layout_seed = j.num("layout_seed", 1); e.fill = j.num("fill"); e.stackfill = j.num("stackfill"); e.reuse = j.num("reuse", 50); e.guard = j.num("guard"); e.alloc_fail = j.num("alloc_fail", -1); e.alloc_persist = j.num("alloc_persist"); e.team_mode = j.num("team_mode"); e.team_limit = j.num("team_limit"); e.team_seed = j.num("team_seed", 1); e.nprocs = j.num("nprocs", 8); e.default_threads = j.num("default_threads", 8); e.dyn = j.num("dyn"); e.wall = unpairs64(j.get("wall")); e.stall = unpairs64(j.get("stall")); e.ns_per_step = j.num("ns", 1); e.t0 = j.num("t0"); e.randm = j.num("randm"); if (auto p = j.get("popen")) for (auto& x : p->a) e.popen.push_back({(int)x.num("ord"), x.str("kind"), x.num("n"), x.str("data"), (int)x.num("op", -1)}); return e; }
