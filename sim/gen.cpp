// Seeded generators: one plan per (property, seed).
#include "work.h"
#include <algorithm>
#include <math.h>
static const int MR[2] = {6, 8}, NR[2] = {16, 32};
// a constant of the sources in [lo, hi], 0 if there is none: where the code may start to behave differently
static int num(Rng& r, i64 lo, i64 hi) { std::vector<int> v; for (int x : g_numbers) if (x >= lo && x <= hi && (x > 33 || r.chance(1, 3))) v.push_back(x); return v.empty() ? 0 : r.pick(v); }
static int near(Rng& r, int v) { return std::max(1, r.chance(1, 4) ? v + (int)r.range(1, v / 4 + 2) : v + (int)r.range(-1, 1)); }
static CtxS gctx(Rng& r, bool fine) {
  CtxS c; c.kind = 0; int w = r.below(10); c.mr = MR[r.below(4) == 0]; c.nr = NR[r.below(4) == 0]; c.nc = r.chance(1, 2) ? (int)r.range(1, 8) : (int)r.pick(std::vector<int>{1, 2, 3, 4, 6, 8, 12, 16, 64});
  if (fine && w < 8) { c.L1 = r.logr(1200, 40000); c.L2 = r.logr(2500, 120000); c.L3 = r.logr(8000, 2000000); if (r.chance(1, 12)) { c.L1 = r.logr(64, 1500); c.L2 = r.logr(64, 3000); c.L3 = r.logr(64, 9000); } }
  else if (w == 8) { c.kind = 1; c.L2 = r.logr(fine ? 4000 : 32768, 2000000); c.L3 = r.logr(fine ? 16000 : 500000, 40000000); if (r.chance(1, 2)) c.mr = 0; }
  else { c.L1 = r.logr(8000, 65536); c.L2 = r.logr(32768, 2000000); c.L3 = r.logr(500000, 40000000); if (r.chance(1, 3)) c.mr = 6, c.nr = 16; }
  if (c.kind == 0 && r.chance(1, 16)) { int w = r.below(4), v = w == 3 ? num(r, 2, 200) : r.chance(1, 2) ? num(r, 600, 50000000) : 1024 * num(r, 5, 40000); if (v) (w == 0 ? c.L1 : w == 1 ? c.L2 : w == 2 ? c.L3 : c.nc) = near(r, v); }
  return c;
}
static int gdim(Rng& r, int tile, int mx) {
  switch (r.below(8)) { case 0: return 1 + r.below(4); case 1: case 2: { int v = tile * (int)r.range(1, 4) + (int)r.range(-1, 1); return std::max(1, std::min(mx, v)); } case 3: return std::min(mx, (int)r.logr(1, mx)); case 4: return 1 + r.below(tile); default: return 1 + r.below(mx); }
}
static void gtiles(Rng& r, Op& o, const CtxS& c) { int mr = c.mr ? c.mr : 6, nr = c.mr ? c.nr : 16; o.mc = mr * (int)r.range(1, 4); o.nc = nr * (int)r.range(1, 3); o.kc = r.chance(1, 2) ? (int)r.range(1, 12) : (int)r.logr(1, 64); }
static Op gemm(Rng& r, const std::vector<CtxS>& cs, bool fine, i64 flops) {
  Op o; o.ctx = r.below(cs.size()); const CtxS& c = cs[o.ctx]; int mr = c.mr ? c.mr : 6, nr = c.mr ? c.nr : 16;
  int e = r.below(10); o.entry = e < 6 ? 0 : e < 8 ? 1 : 2; o.sch = o.entry ? 0 : r.below(4); o.p = r.chance(1, 3) ? (int)r.range(1, 4) : r.chance(1, 2) ? (int)r.range(2, 8) : (int)r.pick(std::vector<int>{1, 3, 5, 7, 9, 10, 12, 16, 24, r.chance(1, 3) ? (int)r.range(25, 64) : 11}); if (r.chance(1, 60)) o.p = r.range(65, 300);
  if (fine) { o.M = gdim(r, mr, 60); o.N = gdim(r, nr, 90); o.K = gdim(r, 8, 50); if (r.chance(1, 8)) { int w = r.below(3); int big = r.logr(60, 700); (w == 0 ? o.M : w == 1 ? o.N : o.K) = big; } }
  else { auto d = [&](int t) { return r.chance(1, 3) ? gdim(r, t, 300) : (int)r.logr(1, 2500); }; o.M = d(mr * 4); o.N = d(nr * 2); o.K = d(96); if (r.chance(1, 6)) { int w = r.below(3); (w == 0 ? o.M : w == 1 ? o.N : o.K) = r.logr(2000, 24000); }
    if (r.chance(1, 40)) { int d[3]; d[0] = r.logr(24000, 300000); i64 f = std::min<i64>(flops, 12000000) / d[0] + 1; d[1] = r.logr(1, f); d[2] = std::max<i64>(1, f / d[1]); int a = r.below(3), b = r.below(2); o.M = d[a]; o.N = d[(a + 1 + b) % 3]; o.K = d[(a + 2 - b) % 3]; } }
  int fx = -1; int* d[3] = {&o.M, &o.N, &o.K};
  if (r.chance(1, 6)) { int w = r.below(8);
    if (w < 4) { int v = num(r, 5, std::min<i64>(flops / 2, fine ? 3000 : 300000)); if (v) fx = r.below(3), *d[fx] = near(r, v); }
    else if (w == 4) { int v = num(r, 2, 300); if (v) o.p = near(r, v); }
    else { int v = num(r, 40, flops / 4); if (v) { int a = r.below(3), b = (a + 1 + r.below(2)) % 3; i64 x = r.logr(1, v); *d[a] = x; *d[b] = v / x + (int)r.range(0, 2); d[3 - a - b][0] = w == 5 ? (int)r.range(1, std::max<i64>(1, std::min<i64>(flops / v / 4, 60))) : 1; if (*d[b] < 1) *d[b] = 1; } } }
  for (int g = 0; (i64)o.M * o.N * o.K > flops && g < 60; g++) { int k = r.below(3); if (k != fx) *d[k] = std::max(1, *d[k] * 2 / 3); }
  if (r.chance(1, 4)) gtiles(r, o, c);
  int k = r.below(16); o.kind = k < 9 ? 0 : k < 12 ? 1 : k < 13 ? 3 : k < 14 ? 2 : k < 15 ? 4 : 5; if (r.chance(1, 24)) o.kind = r.range(6, 7); o.c0 = r.chance(1, 2) ? 1 : r.below(5); o.seed = r.next() >> 20; o.align = r.chance(1, 3) ? 64 : r.chance(1, 4) ? 4 : 16; o.off = o.align != 64; return o;
}
// a call without a context: the library queries one itself (register tile 6x16)
static void null_ctx(Rng& r, Op& o) { o.ctx = -1; if (o.mc) { static const CtxS d; gtiles(r, o, d); } }
static SchedSpec gsched(Rng& r, i64 est, int p) {
  SchedSpec s; s.seed = r.next() >> 24; est = std::max<i64>(est, 200); int w = r.below(22);
  if (w > 19) { s.policy = S_SYNC; s.a = r.pick(std::vector<int>{1, 2, 2, 3, 4, 8, 20}); s.b = r.chance(1, 2) ? 0 : r.logr(1, est); } else if (w < 1) s.policy = S_SEQ; else if (w < 4) s.policy = S_FORCED; else if (w < 9) { s.policy = S_INTERVAL; s.a = r.logr(1, std::max<i64>(4, est / 4)); } else if (w < 12) { s.policy = S_LOCKSTEP; s.a = r.logr(1, 60); } else if (w < 15) { s.policy = S_STALL; s.a = r.logr(1, est / 4 + 4); s.b = r.below(std::max(1, p)); } else if (w < 19) { s.policy = S_PCT; s.a = r.range(1, 8); s.b = est; } else s.policy = S_LIFO; return s;
}
static EnvSpec genv(Rng& r, bool residue, bool teams, int p) {
  EnvSpec e; e.layout_seed = r.next() >> 30; e.reuse = r.pick(std::vector<int>{0, 50, 100}); e.default_threads = r.chance(1, 2) ? 8 : (int)r.range(1, 16); e.nprocs = r.pick(std::vector<int>{1, 2, 4, 8, 16, 64});
  if (residue && r.chance(3, 4)) { e.fill = r.range(2, 7); e.stackfill = r.range(0, 7); }
  if (teams && r.chance(2, 5)) { e.team_mode = r.range(1, 3); e.team_limit = r.range(1, std::max(1, p)); e.team_seed = r.next() >> 30; }
  if (teams) e.dyn = r.chance(e.team_mode ? 2 : 1, 5);
  return e;
}
static i64 est(const Op& o) { i64 mp = (o.M + 7) / 8 * 8 + 8, np = (o.N + 15) / 16 * 16; return 400 + mp * np * (i64)o.K / 12 + 2 * mp * o.K + 2 * np * o.K / 2 + 4 * mp * np / 2; }
i64 est(const Plan& p) { i64 s = 0; for (auto& o : p.ops) s += o.k == "gemm" ? est(o) : (i64)o.M * o.N * o.K / 2 + 500; return s; }
static int maxp(const Plan& p) { int m = 1; for (auto& o : p.ops) m = std::max(m, o.p); return m; }
static const std::vector<Machine>& palette() { static std::vector<Machine> v; if (v.empty()) { auto add = [&](int c, int t, int s, const char* a, const char* b, const char* d, const char* m) { Machine x; x.cpus = c; x.threads = t; x.sockets = s; x.l1 = a; x.l2 = b; x.l3 = d; x.model = m; v.push_back(x); }; add(4, 1, 1, "32K", "1M", "8M", "Generic CPU @ 2.50GHz"); add(8, 2, 1, "48K", "2M", "24M", "Example Processor Gen 12 3.20GHz"); add(2, 2, 1, "16K", "256K", "1M", "Small CPU 1.10GHz"); add(128, 2, 2, "32K", "512K", "256M", "Big Server 7763"); add(16, 1, 1, "64K", "128K", "16M", "Unit 33 Board 900MHz"); add(1, 1, 1, "32K", "1M", "32M", "Virtual CPU version 2.5+"); } return v; }
static Op grand(Rng& r, int kt) { Op o; if (kt == 0) { o.k = "transpose"; o.K = gdim(r, 8, 70); o.N = gdim(r, 8, 70); if (r.chance(1, 8)) o.K = r.logr(70, 600); else if (r.chance(1, 8)) o.N = r.logr(70, 600); o.kt = r.chance(1, 2) ? (int)r.range(0, 40) : 8 * (int)r.range(1, 12); o.nt = r.chance(1, 2) ? (int)r.range(0, 40) : 8 * (int)r.range(1, 12); o.kind = r.below(2); o.M = 1; if (r.chance(1, 12)) { int v = num(r, 5, 3000); if (v) { v = near(r, v); bool s = r.chance(1, 2); (s ? o.K : o.N) = v; (s ? o.N : o.K) = (int)r.range(1, std::max(1, 20000 / v)); if (r.chance(1, 3)) o.kt = near(r, v); else if (r.chance(1, 2)) o.nt = near(r, v); } } if (r.chance(1, 16)) o.kt = -1; else if (r.chance(1, 10)) (r.chance(1, 2) ? o.kt : o.nt) = r.logr(96, 5000); } else { o.k = kt == 1 ? "check" : kt == 2 ? "addcheck" : "mateq"; o.M = gdim(r, 6, 24); o.N = gdim(r, 16, 40); o.K = kt == 1 ? gdim(r, 8, 20) : 1; o.kind = r.chance(1, 6) ? (kt == 1 ? 7 : 7 + (int)r.below(2)) : r.below(2);
    if (r.chance(1, 5)) { o.M = r.logr(1, 200); o.N = std::max<i64>(1, std::min<i64>(400, r.logr(1, 12000) / o.M)); o.K = kt == 1 ? (int)r.range(1, 4) : 1; } if (r.chance(3, 5)) { int w = r.below(6); o.corrupt = w == 0 ? 0 : w == 1 ? o.M * o.N - 1 : w == 2 ? (int)r.below(o.N) : w == 3 ? (o.M - 1) * o.N + (int)r.below(o.N) : w == 4 ? (int)r.below(o.M) * o.N + o.N - 1 : (int)r.below(o.M * o.N); o.ckind = r.chance(1, 2) ? r.below(7) : r.range(7, 13); } } o.p = r.range(1, 9); o.seed = r.next() >> 20; o.align = r.chance(1, 2) ? 16 : 4; o.off = 1; o.ctx = 0; return o; }
static void beta_op(Rng& r, Op& o) { static const float av[] = {1, 2, -1, 0.5f, 3, 0, 1, 0.25f, -1.5f, 10}, bv[] = {0, 1, -1, 2, 0.5f, 0, 1, 0.25f, -2.5f, 16}; o.alpha = av[r.below(10)]; o.beta = bv[r.below(10)]; if (r.chance(1, 4)) { static const float nv[] = {1.0005f, 0.9995f, 1e-4f, -1e-6f, 100.5f, 1.0000001f, 0.1f, -0.9999f, 1e-12f}; (r.chance(1, 2) ? o.alpha : o.beta) = nv[r.below(9)]; } if (o.kind == 2 || o.kind == 3) o.kind = 0; if (o.beta != 0) o.c0 = 2; }

// one helper process misbehaves
static EnvSpec::PF hfault(Rng& r) {
  static const char* kinds[] = {"null", "empty", "trunc", "garbage", "short", "err", "status"}; static const std::vector<std::string> gb = {"\n", "0\n", "-1\n", "-4", "99999999999999999999999999999\n", "lscpu: failed to read\n", "\xff\xfe\x80\x81", "K", "M", "0K", "-32K", "4294967296", "2147483648K", "4\n4\n4\n", "                                        7", "8M4K", "NaN", "1e9", std::string(300, '7') + "\n", std::string(5000, 'x') + "\n", std::string(100000, '1'), "8" + std::string(4000, ' ') + "M\n"}; EnvSpec::PF f; f.ord = r.below(10); f.kind = kinds[r.below(7)]; f.n = r.below(4); f.data = f.kind == "garbage" ? r.pick(gb) : ""; return f;
}
// the clocks during the calls: their rate, seconds to months of standstill, steps of the wall clock
static void gclock(Rng& r, EnvSpec& v, i64 e) {
  v.ns_per_step = r.pick(std::vector<int>{1, 3, 50, 1000, 100000}); v.t0 = r.next() % (r.chance(1, 2) ? 1000000000ull : 30000000000000000ull); v.stall.clear(); v.wall.clear();
  for (int n = r.range(1, 5); n; n--) v.stall.push_back({r.chance(1, 2) ? r.below(e + 400) : r.logr(1, e + 400), (i64)r.logr(1000000, 20000000000000ll)});
  for (int n = r.below(3); n; n--) { i64 d = (i64)r.logr(1000000, 20000000000000ll); v.wall.push_back({r.below(e + 400), r.chance(1, 2) ? d : -d}); }
  std::sort(v.wall.begin(), v.wall.end()); std::sort(v.stall.begin(), v.stall.end());
}
static Op packc(Rng& r, const std::vector<CtxS>& cs, bool fine, i64 elems) {
  Op o = gemm(r, cs, fine, fine ? 40000 : 20000000); o.k = "packc"; o.entry = 0; o.sch = r.below(3); if (r.chance(1, 8)) o.sch = 3; o.kind = r.below(2); o.c0 = 1;
  for (int g = 0; (i64)o.M * o.N > elems && g < 60; g++) (r.chance(1, 2) ? o.M : o.N) = std::max(1, (o.M > o.N ? o.M : o.N) * 2 / 3);
  if (r.chance(1, 4)) { int k = o.kind; beta_op(r, o); o.kind = k; if (o.beta != 0) o.c0 = 2; } return o; }

// one thing changed: what a cache keyed on too little would not notice
static CtxS mut_ctx(Rng& r, CtxS c) { if (c.kind == 1) { (r.chance(1, 2) ? c.L2 : c.L3) = r.logr(16000, 2000000); return c; } switch (r.below(7)) { case 0: c.L1 = r.logr(1200, 40000); break; case 1: c.L2 = r.logr(2500, 120000); break; case 2: c.L3 = r.logr(8000, 2000000); break; case 3: c.nc = c.nc == 1 ? 4 : r.chance(1, 2) ? 1 : c.nc * 2; break; case 4: case 5: c.mr = 14 - c.mr; break; default: c.nr = 48 - c.nr; } return c; }
static int last_gemm(const Plan& P, Rng* r = nullptr) { std::vector<int> v; for (size_t i = 0; i < P.ops.size(); i++) if (P.ops[i].k == "gemm") v.push_back(i); if (v.empty()) return -1; return r && r->chance(1, 2) ? v[r->below(v.size())] : v.back(); }
static Op mut_op(Rng& r, Op o, const std::vector<CtxS>& cs) { u64 sd = r.next() >> 20; int c = o.ctx; o.reuse = -1;
  switch (r.below(9)) { case 0: if (o.K > 1 && r.chance(1, 2)) o.K = 1 + r.below(o.K); else o.K += r.range(1, 9); break; case 1: if (o.M > 1 && r.chance(1, 2)) o.M = 1 + r.below(o.M); else o.M += r.range(1, 9); break; case 2: if (o.N > 1 && r.chance(1, 2)) o.N = 1 + r.below(o.N); else o.N += r.range(1, 19); break; case 3: o.p = o.p == 1 ? 4 : r.chance(1, 2) ? 1 : r.range(1, 12); break; case 4: o.sch = r.below(4); o.entry = 0; break; case 5: o.entry = r.below(3); o.sch = o.entry ? 0 : o.sch; break; case 6: if (o.ctx >= 0 && cs.size() > 1) { o.ctx = r.below(cs.size()); o.mc = o.kc = o.nc = 0; } break; case 7: beta_op(r, o); break; default: if (r.chance(1, 2)) o.kind = o.kind == 0 ? 1 : 0; }
  if (o.ctx != c) o.mc = o.kc = o.nc = 0; if (r.chance(2, 3)) o.seed = sd; if (o.ctx >= 0 && cs.size() > 1 && r.chance(1, 3)) { o.ctx = r.below(cs.size()); o.mc = o.kc = o.nc = 0; } return o; }

bool known_prop(const std::string& p) { static const char* n[] = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C19", "C20", "C21"}; for (auto x : n) if (p == x) return true; return false; }
// one operand of more than 2^29 elements (2 GiB), where a byte count no longer fits an int
static void giant(Rng& r, Plan& P, int w, bool& coarse) {
  coarse = true; P.lib = P.lib2 = g_coarse; P.callers = 1; P.nest = 0; P.env = genv(r, false, true, 4); P.env.fill = 0; P.env.guard = 0; P.ctx.assign(1, CtxS()); CtxS& c = P.ctx[0]; c.kind = 0; c.mr = MR[r.below(2)]; c.nr = NR[r.below(2)]; c.nc = r.range(1, 8); c.L1 = 32768; c.L2 = r.logr(262144, 1 << 20); c.L3 = r.logr(1 << 21, 1 << 25);
  Op o; o.ctx = 0; o.p = r.range(2, 8); o.align = 64; o.seed = r.next() >> 20; o.c0 = 1; i64 n = (1ll << 29) + (i64)r.below(1 << 24), a = r.chance(1, 2) ? r.logr(18000, 30000) : r.logr(100, 600), b = n / a + 1, s = r.range(1, 3); int x = w % 3; if (r.chance(1, 2)) std::swap(a, b); (x == 0 ? o.M : x == 1 ? o.K : o.M) = a; (x == 0 ? o.K : x == 1 ? o.N : o.N) = b; (x == 0 ? o.N : x == 1 ? o.M : o.K) = s;
  if (w < 6 || x == 2) o.sch = (w / 3 + x) % 3; else o.entry = 1 + x; P.ops.assign(1, o);
}
// the size functions alone, for operands up to 2^31 elements
static void gsizes(Rng& r, Plan& P) {
  P.callers = 1; P.ops.clear(); CtxS& c = P.ctx[0]; if (c.kind == 0 && r.chance(1, 2)) { c.L1 = r.logr(16384, 131072); c.L2 = r.logr(131072, 16 << 20); c.L3 = r.logr(1 << 20, 1 << 30); }
  for (int n = r.range(2, 6); n; n--) { Op o; o.k = "sizes"; o.ctx = 0; o.sch = r.below(4); o.p = r.chance(1, 6) ? (int)r.range(1, 300) : (int)r.range(1, 24); int d[3]; d[0] = r.logr(1, 32000000); for (int q = 1; q < 3; q++) { i64 m = d[0]; if (q == 2) m = std::max(m, (i64)d[1]); m = 2100000000ll / (m + 64) - 64; d[q] = m < 1 ? 1 : r.chance(1, 2) ? m - (i64)r.below(m / 8 + 1) : r.logr(1, m); }
    int a = r.below(3), b = 1 + r.below(2); o.M = d[a]; o.N = d[(a + b) % 3]; o.K = d[(a + 2 * b) % 3]; if (r.chance(1, 4)) gtiles(r, o, c); P.ops.push_back(o); }
}
// one matrix of 2^24 to 2^26 elements (past what a float counts), everything else as drawn
static void big(Rng& r, Plan& P, bool& coarse) {
  if (P.ops.empty() || P.ops[0].k == "sizes" || (P.ops[0].k == "gemm" && P.ctx.empty())) return; coarse = true; P.lib = P.lib2 = g_coarse; P.ops.resize(1); P.callers = 1; P.nest = 0; P.reps = 1; Op& o = P.ops[0]; o.caller = 0; o.mc = o.kc = o.nc = 0; P.env.guard = 0; o.off = 1; if (P.env.fill > 1) P.env.fill = 1;
  if (!P.ctx.empty() && P.ctx[0].kind == 0) { P.ctx[0].L1 = r.logr(16384, 131072); P.ctx[0].L2 = r.logr(131072, 4 << 20); P.ctx[0].L3 = r.logr(1 << 20, 64 << 20); }
  i64 n = r.logr(1 << 24, 1 << 26), a = r.chance(1, 3) ? r.logr((n >> 22) + 1, 1 << 22) : r.logr(2000, 20000), b = n / a + 1, s = r.range(1, 3); int x = r.below(3); if (o.k == "transpose") { o.K = a; o.N = b; if (o.kt == 0 || (o.kt > 0 && o.kt < 8)) o.kt = 16; return; } if (o.k != "gemm") { o.M = a; o.N = b; o.K = 1; if (o.k == "addcheck") o.p = std::min(o.p, 3); if (o.corrupt >= 0) o.corrupt = r.chance(1, 2) ? a * b - 1 - r.below(100) : r.below(a * b); return; }
  (x == 0 ? o.M : x == 1 ? o.K : o.M) = a; (x == 0 ? o.K : x == 1 ? o.N : o.N) = b; (x == 0 ? o.N : x == 1 ? o.M : o.K) = s; if (o.kind == 1 || o.kind == 3) o.kind = 0;
}
Plan generate(const std::string& prop, u64 seed) {
  Rng r(mix64(seed) ^ hstr(prop)); Plan P; P.prop = prop; P.seed = seed; int nctx = 1; bool coarse = false; i64 FL = 40000;
  auto fines = [&] { P.lib = r.below(2); P.lib2 = P.lib; };
  if (prop == "C01") { coarse = r.chance(1, 4); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); int n = r.chance(1, 5) ? 2 : 1; for (int i = 0; i < n; i++) { P.ops.push_back(gemm(r, P.ctx, !coarse, coarse ? 20000000 : FL)); if (r.chance(1, 12)) null_ctx(r, P.ops.back()); } P.env = genv(r, true, true, maxp(P));
    if (coarse && r.chance(1, 100)) { P.ops.resize(1); Op& o = P.ops[0]; o.kind = o.alpha == 1 && o.beta == 0 ? 0 : o.kind; o.M = r.logr(300, 3000); o.N = r.logr(300, 3000); o.K = std::max<i64>(100, std::min<i64>(3000, 1200000000ll / ((i64)o.M * o.N))); if (r.chance(1, 2)) o.mc = o.kc = o.nc = 0; } }
  else if (prop == "C02") { coarse = r.chance(1, 5); P.lib = r.below(2); P.lib2 = r.chance(1, 2) ? P.lib : 1 - P.lib; if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); P.ops.push_back(gemm(r, P.ctx, !coarse, coarse ? 8000000 : FL * 2 / 3)); auto& o = P.ops[0]; if (r.chance(1, 2)) o.kind = r.chance(1, 2) ? 1 : 3; if (r.chance(1, 6)) beta_op(r, o), P.lib2 = P.lib; P.env = genv(r, true, true, o.p); P.env.layout_seed += 2; }
  else if (prop == "C03") { fines(); P.ctx.push_back(gctx(r, true)); int w = r.below(10); if (w < 8) { Op o = gemm(r, P.ctx, true, FL / 2); if (r.chance(1, 4) && o.entry == 0) o.pre = r.range(1, 3); if (r.chance(1, 8)) beta_op(r, o); o.p = std::max(2, o.p); P.ops.push_back(o); } else if (r.chance(1, 2)) P.ops.push_back(grand(r, r.below(2))); else P.ops.push_back(packc(r, P.ctx, true, 4000)); P.env = genv(r, false, false, maxp(P)); }
  else if (prop == "C04") {
    fines(); P.ctx.push_back(gctx(r, true)); if (r.chance(1, 4)) P.ctx.push_back(mut_ctx(r, P.ctx[0])); P.callers = r.range(2, 4); std::vector<CtxS> c0(1, P.ctx[0]); Op o0 = gemm(r, c0, true, FL / 4); o0.p = r.range(1, 4); if (r.chance(1, 8)) beta_op(r, o0); bool same = r.chance(1, 3); int per = r.chance(1, 4) ? 2 : 1;
    for (int c = 0; c < P.callers; c++) for (int q = 0; q < per; q++) {
      Op o = o0; if (!same) { if (r.chance(1, 2)) { int e = r.below(5); o.entry = e < 3 ? 0 : e - 2; o.sch = o.entry ? 0 : r.below(4); o.p = r.range(1, 4); if (r.chance(1, 3)) gtiles(r, o, P.ctx[0]); else if (r.chance(1, 2)) o.mc = o.kc = o.nc = 0; } else { int d[3] = {o.M, o.N, o.K}; u64 sd = o.seed; o = mut_op(r, o, P.ctx); o.p = std::min(o.p, 4); if (r.chance(1, 2)) { o.M = d[0]; o.N = d[1]; o.K = d[2]; o.seed = sd; o.kind = o0.kind; } if (o.kind == 2 || o.kind == 3) o.beta = 0, o.alpha = 1; }
        if (r.chance(1, 4)) { o.M = gdim(r, 6, 40); o.N = gdim(r, 16, 50); o.K = gdim(r, 8, 30); o.seed = r.next() >> 20; } }
      o.share = o.M == o0.M && o.N == o0.N && o.K == o0.K && o.seed == o0.seed && o.kind == o0.kind ? 0 : -1; o.caller = c; P.ops.push_back(o); }
    if (r.chance(1, 6)) { P.ctx.clear(); for (auto& o : P.ops) null_ctx(r, o); } P.env = genv(r, true, r.chance(1, 3), 4); }
  else if (prop == "C05") { coarse = r.chance(1, 4); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); Op o = gemm(r, P.ctx, !coarse, coarse ? 3000000 : FL / 2); if (r.chance(1, 10)) beta_op(r, o); else o.c0 = 1; if (r.chance(1, 15)) null_ctx(r, o); if (!coarse && r.chance(1, 15)) o = packc(r, P.ctx, true, 4000); P.ops.push_back(o); P.env = genv(r, true, true, o.p); if (coarse) { P.env.guard = r.range(1, 2); P.ops[0].align = P.env.guard == 1 ? 4 : 16; P.ops[0].off = 0; } }
  else if (prop == "C06") { coarse = r.chance(1, 20); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, true)); P.reps = r.pick(std::vector<int>{6, 6, 6, 12, 20, 36}); P.relay = r.chance(1, 4); int n = r.range(1, 3); for (int i = 0; i < n; i++) { int w = r.below(12); if (w < 8) { Op o = gemm(r, P.ctx, !coarse, coarse ? 400000 : 3000); if (r.chance(1, 2)) null_ctx(r, o); if (r.chance(1, 6)) beta_op(r, o); if (r.chance(1, 6) && o.entry == 0 && o.ctx >= 0) o.pre = r.range(1, 3); P.ops.push_back(o); } else if (w == 8) { Op o; o.k = "query"; P.ops.push_back(o); } else if (w == 9) { Op o; o.k = "torch"; o.M = 262144; o.N = 8 << 20; P.ops.push_back(o); } else { Op o = grand(r, r.below(3)); if (o.k == "addcheck") o.p = std::min(o.p, 4); P.ops.push_back(o); } } P.arg = -1; P.env = genv(r, false, true, maxp(P)); if (P.env.team_mode == 2) P.env.team_mode = 1; P.setm = 1; P.mach = r.pick(palette()); if (r.chance(1, 4)) { bool any = false; for (auto& o : P.ops) any |= o.k == "query" || (o.k == "gemm" && o.ctx < 0); if (!any) { Op o; o.k = "query"; P.ops.push_back(o); } if (r.chance(1, 3)) P.mach.drop = 1 << r.below(7); else for (int i = r.range(1, 2); i; i--) { P.env.popen.push_back(hfault(r)); auto& f = P.env.popen.back(); f.op = r.below(P.ops.size()); if (r.chance(1, 2)) f.ord = r.below(4); } } }
  else if (prop == "C07") { coarse = r.chance(1, 12); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, true)); int w = r.below(12); if (w < 8) { Op o = gemm(r, P.ctx, !coarse, coarse ? 3000000 : 5000); if (r.chance(1, 3)) null_ctx(r, o); if (r.chance(1, 5)) beta_op(r, o); if (r.chance(1, 6) && o.entry == 0 && o.ctx >= 0) o.pre = r.range(1, 3); if (o.kind == 2) o.kind = 0; P.ops.push_back(o); } else if (w == 8) { Op o; o.k = r.chance(1, 2) ? "query" : "torch"; o.M = 262144; o.N = 8 << 20; P.ops.push_back(o); } else P.ops.push_back(grand(r, r.below(3)));
    if (!coarse && r.chance(1, 4)) for (int n = r.range(1, 2); n; n--) { Op o = r.chance(1, 2) && P.ops[0].k == "gemm" ? P.ops[0] : gemm(r, P.ctx, true, 3000); if (r.chance(1, 3)) null_ctx(r, o); o.pre = 0; if (o.kind == 2) o.kind = 0; P.ops.push_back(o); }
    if (P.ops.size() > 1 && r.chance(1, 3)) { P.callers = P.ops.size(); for (size_t i = 0; i < P.ops.size(); i++) P.ops[i].caller = i; }
    P.arg = -1; P.env = genv(r, true, false, 1); P.env.alloc_fail = r.below(720720); P.env.alloc_persist = r.chance(1, 2); }
  else if (prop == "C08") { fines(); P.lib2 = 1 - P.lib; P.setm = 1; Machine& m = P.mach; static const std::vector<std::string> l1 = {"16K", "32K", "48K", "64K", "128K", "1M"}, l2 = {"128K", "256K", "512K", "1M", "2M", "4M", "1.3M", "1280K", "16M"}, l3 = {"512K", "1M", "2M", "6M", "8M", "16M", "24M", "32M", "36M", "54M", "64M", "256M", "768M", "1G", "1.1G"}, mod = {"Generic CPU @ 2.50GHz", "Example Processor Gen 12 3.20GHz", "Big Server 7763", "Apple-like", "Core 900", "Chip 2 GHz", "Board rev 1.2.3 with 64 units 0123456789012345678", "Silicon 86"};
    m.sockets = r.chance(3, 4) ? 1 : (int)r.pick(std::vector<int>{2, 4}); m.threads = r.pick(std::vector<int>{1, 1, 2, 4}); int cores = r.pick(std::vector<int>{1, 2, 3, 4, 6, 8, 10, 16, 20, 32, 64, 128}); m.cpus = cores * m.sockets * m.threads; m.l1 = r.pick(l1); m.l2 = r.pick(l2); m.l3 = r.pick(l3); m.model = r.pick(mod); if (r.chance(1, 8)) m.l3all = m.l3; bool normal = r.chance(2, 5); P.arg = normal ? 100 : 0;
    if (!normal) { if (r.chance(1, 3)) m.drop = 1 << r.below(7); if (r.chance(1, 12)) m.drop |= r.below(128); if (r.chance(1, 6)) m.modelnum = r.pick(std::vector<int>{1, 3, 4, 17, 33, 49, 69, 85, 142, 165}); if (r.chance(1, 8)) { m.cpus = std::max(1, (int)r.below(6)); m.sockets = r.range(1, 8); } if (r.chance(1, 10)) m.l3 = r.pick(std::vector<std::string>{"0K", "unknown", "12", "0M", "99999999K", "1T"}); if (r.chance(1, 12)) m.l2 = r.pick(std::vector<std::string>{"0K", "-", "3", "1K", "0M"}); if (r.chance(1, 12)) m.l1 = r.pick(std::vector<std::string>{"0K", "-", "1K", "2"}); int nf = m.drop ? (int)r.below(2) : (int)r.range(0, 3); for (int i = 0; i < nf; i++) P.env.popen.push_back(hfault(r)); }
    else if (r.chance(1, 4)) { P.arg = 101; m.modelnum = r.pick(std::vector<int>{1, 3, 4, 17, 33, 49, 69, 85, 142, 165}); }
    else if (r.chance(1, 4)) { for (int i = r.range(1, 2); i; i--) { P.env.popen.push_back(hfault(r)); P.env.popen.back().op = 0; } }
    else if (r.chance(1, 3)) { EnvSpec::PF f; f.ord = r.below(9); f.kind = "short"; f.n = 1 + r.below(3); P.env.popen.push_back(f); }
    auto pf = P.env.popen; P.env = genv(r, true, false, 1); P.env.popen = pf; P.env.fill = P.env.fill ? P.env.fill : 5; P.env0.fill = 6; P.env0.stackfill = 2; P.env.stackfill = r.range(3, 6); P.ctx.clear();
    Op q; if (r.chance(1, 8) && normal && P.arg == 100 && P.env.popen.empty()) { q.k = "torch"; q.M = (int)r.logr(4096, 4 << 20); q.N = (int)r.logr(65536, 256 << 20); P.setm = 0; P.mach = Machine(); } else q.k = "query"; P.ops.push_back(q); if (!P.env.popen.empty() && P.env.popen[0].op == 0) P.ops.push_back(q); CtxS none; none.kind = 0; none.mr = 6; none.nr = 16; std::vector<CtxS> tmp{none}; Op g = gemm(r, tmp, true, 6000); g.ctx = -1; g.mc = g.kc = g.nc = 0; if (g.kind == 2) g.kind = 0; g.p = r.range(1, 4); if (q.k == "query") P.ops.push_back(g); }
  else if (prop == "C09") { coarse = r.chance(1, 8); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); if (!coarse && r.chance(1, 3)) { P.nest = r.range(1, 4); P.max_active = r.range(1, 3); for (int c = 0; c < P.nest; c++) { Op o = gemm(r, P.ctx, true, FL / 4); o.p = r.range(1, 5); o.caller = c; P.ops.push_back(o); } P.callers = P.nest; } else { int n = r.range(1, 3); for (int i = 0; i < n; i++) { P.ops.push_back(gemm(r, P.ctx, !coarse, coarse ? 2000000 : FL / 2)); if (i && r.chance(1, 2)) P.ops[i].p = P.ops[i - 1].p; if (r.chance(1, 2)) P.ops[i].napp = r.range(1, 12); if (r.chance(1, 8)) beta_op(r, P.ops.back()); } if (n > 1 && !coarse && r.chance(1, 4)) { P.callers = n; for (int i = 0; i < n; i++) P.ops[i].caller = i; } } P.env = genv(r, true, true, maxp(P)); P.env.default_threads = r.range(1, 40); if (r.chance(1, 2)) { P.env.team_mode = r.range(1, 3); P.env.team_limit = r.range(1, maxp(P)); } }
  else if (prop == "C10") { fines(); P.ctx.push_back(gctx(r, true)); Op o = gemm(r, P.ctx, true, FL / 2); if (o.entry == 0 && r.chance(1, 2)) o.pre = r.range(1, 3); if (r.chance(1, 10)) beta_op(r, o); P.ops.push_back(o); if (r.chance(1, 4)) { int n = r.range(1, 2); for (int i = 0; i < n; i++) { Op q = r.chance(1, 2) ? P.ops[0] : gemm(r, P.ctx, true, FL / 4); P.ops.push_back(q); } if (r.chance(1, 2)) { P.callers = P.ops.size(); for (size_t i = 0; i < P.ops.size(); i++) P.ops[i].caller = i; } } P.env = genv(r, false, true, maxp(P)); i64 e = est(P); P.env.ns_per_step = r.pick(std::vector<int>{1, 3, 50, 1000}); P.env.t0 = r.next() % (r.chance(1, 2) ? 1000000000ull : 30000000000000000ull); int nw = r.below(4), ns = r.below(3); for (int i = 0; i < nw; i++) { i64 d = (i64)(r.logr(1000, 100000000) * 1000); if (r.chance(1, 6)) d = 3600000000000ll * (i64)r.range(1, 5000); P.env.wall.push_back({r.below(e + 400), r.chance(1, 2) ? d : -d}); } for (int i = 0; i < ns; i++) P.env.stall.push_back({r.below(e + 400), (i64)r.logr(1000, 20000000000ll)}); std::sort(P.env.wall.begin(), P.env.wall.end()); std::sort(P.env.stall.begin(), P.env.stall.end()); }
  else if (prop == "C11") { coarse = r.chance(1, 8); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); Op o = gemm(r, P.ctx, !coarse, coarse ? 3000000 : FL / 3); o.entry = 0; o.sch = r.below(4); o.pre = r.range(1, 3); o.share = 0; if (r.chance(1, 8)) o.pk = 1, o.sch = 0; if (o.kind == 2) o.kind = 0; if (r.chance(1, 4)) beta_op(r, o); int n = r.range(1, 3); P.callers = r.chance(1, 2) ? n : 1; for (int i = 0; i < n; i++) { Op q = o; if (i && r.chance(1, 6)) { int kd = q.kind; beta_op(r, q); q.kind = kd; if (kd == 3) q.alpha = 1, q.beta = 0; } q.caller = P.callers > 1 ? i : 0; P.ops.push_back(q); } P.env = genv(r, true, true, o.p); if (r.chance(1, 20)) gsizes(r, P); }
  else if (prop == "C12") { coarse = r.chance(1, 5); fines(); if (coarse) P.lib = P.lib2 = g_coarse; Op o = grand(r, 0); if (coarse) { o.K = r.logr(1, 3000); o.N = std::max<i64>(1, std::min<i64>(3000, r.logr(1, 3000000) / o.K + 1)); if (r.chance(1, 12)) { o.K = r.logr(1, 300000); o.N = std::max<i64>(1, r.logr(1, 12000000) / o.K); } if (r.chance(1, 2)) std::swap(o.K, o.N); } P.ops.push_back(o); P.env = genv(r, true, true, o.p); if (coarse) { P.env.guard = r.range(1, 2); P.ops[0].off = 0; if (P.env.guard == 1) P.ops[0].align = 4; } }
  else if (prop == "C13") { coarse = r.chance(1, 8); fines(); if (coarse) P.lib = P.lib2 = g_coarse; int n = r.range(1, 2); for (int i = 0; i < n; i++) { Op o = grand(r, r.chance(1, 4) ? 3 : 1 + (int)r.below(2)); if (o.k == "addcheck") o.p = r.chance(1, 12) ? r.range(6, 70) : r.range(1, 5); P.ops.push_back(o); } if (coarse) for (auto& o : P.ops) { o.M = r.logr(1, 900); o.N = std::max<i64>(1, std::min<i64>(900, r.logr(1, 250000) / o.M)); o.K = o.k == "check" ? (int)r.logr(1, 40) : 1; if (r.chance(1, 8)) { o.M = r.logr(1, 3000000); o.N = std::max<i64>(1, r.logr(1, 3000000) / o.M); if (r.chance(1, 2)) std::swap(o.M, o.N); o.K = o.k == "check" ? (int)r.range(1, 3) : 1; } if (o.corrupt >= 0) o.corrupt = r.chance(1, 4) ? o.M * o.N - 1 : (int)r.below(o.M * o.N); } P.env = genv(r, true, true, maxp(P)); }
  else if (prop == "C14") { fines(); P.ctx.push_back(gctx(r, true)); int w = r.below(10); if (w < 8) { int n = r.chance(1, 3) ? 2 + r.chance(1, 4) : 1; P.callers = n; for (int i = 0; i < n; i++) { Op o = gemm(r, P.ctx, true, n > 1 && r.chance(1, 2) ? 2000 : FL / 2); o.caller = i; if (r.chance(1, 6)) beta_op(r, o); P.ops.push_back(o); } } else P.ops.push_back(grand(r, r.below(3))); P.env = genv(r, false, true, maxp(P)); if (r.chance(1, 4)) { P.env.team_mode = 3; }
    if (r.chance(1, 6)) { P.ops.clear(); int n = r.range(2, 4); P.callers = r.chance(1, 3) ? r.range(1, n) : 1; for (int i = 0; i < n; i++) { Op o; if (r.chance(1, 3)) { o = gemm(r, P.ctx, true, 3000); null_ctx(r, o); } else o.k = "query"; o.caller = i % P.callers; P.ops.push_back(o); } P.arg = -1; P.setm = 1; P.mach = r.pick(palette()); if (r.chance(1, 4)) P.mach.drop = 1 << r.below(7); else if (r.chance(5, 6)) for (int i = r.range(1, 2); i; i--) { P.env.popen.push_back(hfault(r)); if (P.callers == 1 && r.chance(1, 2)) P.env.popen.back().op = r.below(n); } P.env0.popen = P.env.popen; } }
  else if (prop == "C16") {
    coarse = r.chance(1, 10); fines(); if (coarse) P.lib = P.lib2 = g_coarse; nctx = r.range(1, 4); bool longh = r.chance(1, 6);
    for (int i = 0; i < nctx; i++) P.ctx.push_back(i && r.chance(2, 3) ? mut_ctx(r, P.ctx[r.below(i)]) : gctx(r, !coarse)); if (coarse) FL = 12000000;
    int n = longh ? r.range(8, 30) : r.range(1, 5);
    for (int i = 0; i < n; i++) { int w = r.below(10);
      if (w < 8 || longh) { Op o; int g = last_gemm(P); if (g >= 0 && r.chance(1, 2)) { o = mut_op(r, P.ops[g], P.ctx); if (r.chance(1, 2)) o.reuse = g; } else { o = gemm(r, P.ctx, !coarse, longh ? FL / 40 : FL / 6); if (r.chance(1, 8)) beta_op(r, o); } if (r.chance(1, 12)) null_ctx(r, o); o.refill = 1; P.ops.push_back(o); }
      else if (w == 8) { Op o = grand(r, r.below(3)); o.refill = 1; P.ops.push_back(o); } else { Op o; o.k = "query"; P.ops.push_back(o); } }
    Op t = gemm(r, P.ctx, !coarse, FL / 4); int g = last_gemm(P, &r); if (g >= 0 && r.chance(2, 3)) { t = mut_op(r, P.ops[g], P.ctx); if (r.chance(2, 3)) t.reuse = g; }
    t.refill = 1; P.ops.push_back(t); if (r.chance(1, 4)) for (auto& o : P.ops) if (o.k == "gemm" && r.chance(1, 2)) o.napp = r.range(1, 12); bool k0 = P.ctx.size() > 1; for (auto& c : P.ctx) k0 &= c.kind == 0; if (k0 && r.chance(1, 3)) for (auto& o : P.ops) if (o.k == "gemm" && o.ctx >= 0 && r.chance(2, 3)) o.slot = r.below(r.chance(1, 2) ? 1 : (int)P.ctx.size()), o.fresh = r.chance(1, 3);
    if (!coarse && r.chance(1, 10)) { if (P.ops.size() > 3) P.ops.erase(P.ops.begin(), P.ops.end() - 3); for (auto& o : P.ops) { o.reuse = -1; if (o.k != "gemm") { int c = o.caller; o = gemm(r, P.ctx, true, 200); o.caller = c; o.refill = 1; } while ((i64)o.M * o.N * o.K > 300) { int* d[3] = {&o.M, &o.N, &o.K}; int& x = *d[r.below(3)]; x = (x + 1) / 2; } o.p = std::min(o.p, 5); } int v = num(r, 10, 400); P.reps = v && r.chance(1, 3) ? v + (int)r.range(1, 3) : (int)r.pick(std::vector<int>{12, 35, 70, 135, 270}); } P.arg = -1; P.env = genv(r, true, true, maxp(P)); }
  else if (prop == "C17") { coarse = r.chance(1, 8); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); Op o = gemm(r, P.ctx, !coarse, coarse ? 5000000 : FL / 2); beta_op(r, o); P.ops.push_back(o); if (r.chance(1, 4)) { Op q = gemm(r, P.ctx, !coarse, FL / 4); beta_op(r, q); P.ops.push_back(q); } P.env = genv(r, true, true, maxp(P)); }
  else if (prop == "C19") { fines(); P.callers = r.chance(1, 3) ? r.range(2, 3) : 1; int n = r.chance(1, 2) ? 1 : r.range(1, 4); bool lk = P.callers == 1 && r.chance(1, 3); if (lk) P.reps = 6, n = r.range(1, 2); n = std::max(n, P.callers);
    for (int i = 0; i < n; i++) { Op o; o.k = "linear"; if (i && r.chance(1, 2)) { o = P.ops[r.below(i)]; if (r.chance(1, 2)) o.entry ^= 1; if (r.chance(2, 3)) o.seed = r.next() >> 20; if (r.chance(1, 2)) { int w = r.below(3); (w == 0 ? o.M : w == 1 ? o.N : o.K) = gdim(r, 8, 30); } } else { o.entry = r.below(2); o.M = gdim(r, 6, 50); o.N = gdim(r, 16, 60); o.K = gdim(r, 16, 50); if (r.chance(1, 10)) { int w = r.below(3), v = r.chance(1, 2) ? num(r, 5, 2000) : 0; (w == 0 ? o.M : w == 1 ? o.N : o.K) = v ? near(r, v) : (int)r.logr(60, 500); } o.kind = r.below(2); o.seed = r.next() >> 20; }
      for (int g = 0; (i64)o.M * o.N * o.K > (lk ? 1500 : FL / 4) && g < 60; g++) { int* d[3] = {&o.M, &o.N, &o.K}; int k = r.below(3); *d[k] = std::max(1, *d[k] * 2 / 3); }
      o.kt = r.chance(1, 2) ? 0 : (int)r.below(8192); o.nt = r.chance(2, 3); o.mc = r.logr(4000, 4 << 20); o.nc = r.logr(16000, 64 << 20); o.p = 10; o.caller = P.callers > 1 ? i % P.callers : 0; P.ops.push_back(o); } P.env = genv(r, true, true, 10); if (P.callers == 1 && r.chance(1, 8)) { P.reps = 1; P.ops.resize(1); P.env.alloc_fail = r.below(720720); P.env.alloc_persist = r.chance(1, 2); } }
  else if (prop == "C21") { coarse = r.chance(1, 10); fines(); if (coarse) P.lib = P.lib2 = g_coarse; int n = r.range(1, 3); for (int i = 0; i < n; i++) { Op o; o.k = "rand"; o.kind = r.chance(1, 2) ? 0 : r.range(1, 3); o.M = gdim(r, 6, coarse ? 400 : 60); o.N = gdim(r, 16, coarse ? 400 : 60); o.K = 1; if (int v = r.chance(1, 8) ? num(r, 5, 20000) : 0) { o.M = r.chance(1, 2) ? 1 : near(r, v); o.N = o.M > 1 ? (int)r.range(1, 2) : near(r, v); if (r.chance(1, 2)) std::swap(o.M, o.N); } o.align = r.chance(1, 2) ? 4 : 16; o.ctx = 0; P.ops.push_back(o); } P.env = genv(r, true, true, 1); if (coarse) { P.env.guard = r.range(1, 2); for (auto& o : P.ops) if (P.env.guard == 1) o.align = 4; } P.env.randm = P.env0.randm = r.chance(1, 3) ? 0 : r.range(1, 4); }
  else if (prop == "C20") { coarse = r.chance(1, 8); fines(); if (coarse) P.lib = P.lib2 = g_coarse; P.ctx.push_back(gctx(r, !coarse)); int n = r.range(1, 2); P.callers = n > 1 && r.chance(1, 2) ? n : 1; for (int i = 0; i < n; i++) { Op o = packc(r, P.ctx, !coarse, coarse ? 1000000 : 6000); o.caller = P.callers > 1 ? i : 0; P.ops.push_back(o); } P.env = genv(r, true, true, maxp(P)); if (coarse) { P.env.guard = r.range(1, 2); for (auto& o : P.ops) { o.off = 0; if (P.env.guard == 1) o.align = 4; } } }
  if (prop == "C01") { u64 q = seed % 1000003 % 40000, j = q < 40 && (q % 8 == 5 || q % 8 == 6) ? q / 8 * 2 + q % 8 - 5 : 9; if (j < 9) giant(r, P, (int)(seed / 1000003 + seed % 1000003 / 40000 + j) % 9, coarse); }   // two of the eight workers at once: 17 GiB
  if (prop == "C12" && seed % 1000003 % 40000 == 5) { big(r, P, coarse); Op& o = P.ops[0]; o.K = r.logr(18000, 30000); o.N = ((1 << 29) + (int)r.below(1 << 22)) / o.K + 1; P.env.fill = 0; if (r.chance(1, 2)) std::swap(o.K, o.N); }
  if (seed % 1000003 % 1500 == 7) { static const char* bp[] = {"C01", "C05", "C11", "C12", "C13", "C17", "C20", "C21"}; for (auto b : bp) if (prop == b) big(r, P, coarse); }
  { bool ok = true; for (auto& o : P.ops) ok &= o.reuse < 0 && o.share < 0; if (ok && r.chance(1, 10)) for (auto& o : P.ops) if (o.k == "gemm" && o.kind != 2 && (i64)std::max(o.M, o.N) * o.K < 1 << 22) {   // a matrix times itself, or two views that start at the same place
    o.alias = 1; if (r.chance(2, 3)) { int q = std::max(1, (int)cbrt((double)o.M * o.N * o.K)); if (o.mc) o.M = o.K = o.N = q; else { o.M = o.K = q; if (r.chance(3, 4)) o.N = q; } } } }
  if (P.ctx.empty()) for (auto& o : P.ops) if (o.k == "gemm" && o.ctx >= 0) null_ctx(r, o);
  if (P.setm) P.env.nprocs = P.env0.nprocs = P.mach.cpus;
  P.sched = gsched(r, coarse ? 400 : est(P), maxp(P)); if (prop == "C14" && r.chance(1, P.callers > 1 ? 4 : 2)) { P.sched.policy = S_STALL; P.sched.a = r.logr(1, 2000); P.sched.b = r.below(maxp(P)); }
  if (prop != "C10" && r.chance(1, prop == "C02" ? 3 : 8)) gclock(r, P.env, coarse ? (i64)r.logr(1, 2000) : est(P) * P.reps);
  if (P.nest || P.callers > 1) P.sched.b = P.sched.policy == S_PCT ? est(P) : P.sched.b;
  P.limit = std::min<i64>(60000000, 4000000 + 60 * est(P) * P.reps);
  if (prop == "C21") { i64 n = 0; for (auto& o : P.ops) n += (i64)o.M * o.N; P.limit = std::max<u64>(P.limit, 4000000 + 20 * n); }
  return P;
}
