#include "work.h"
#include <algorithm>
#include <cmath>
#include <math.h>
Stats S; Res LAST; int g_coarse = 2; std::vector<int> g_numbers;

// ------------------------------------------------------------------ json ----
J CtxS::json() const { return J::obj().set("kind", kind).set("L1", L1).set("L2", L2).set("L3", L3).set("ncores", nc).set("mr", mr).set("nr", nr).set("machine", m.json()); }
CtxS CtxS::from(const J& j) { CtxS c; c.kind = j.num("kind"); c.L1 = j.num("L1"); c.L2 = j.num("L2"); c.L3 = j.num("L3"); c.nc = j.num("ncores"); c.mr = j.num("mr"); c.nr = j.num("nr"); c.m = Machine::from(*j.get("machine")); return c; }
#define OPF(X) X(entry) X(M) X(N) X(K) X(p) X(sch) X(mc) X(kc) X(nc) X(ctx) X(kind) X(c0) X(pre) X(share) X(reuse) X(caller) X(kt) X(nt) X(align) X(off) X(corrupt) X(ckind) X(refill) X(pk) X(slot) X(fresh) X(napp) X(alias)
J Op::json() const { J j = J::obj(); j.set("op", k);
#define X(f) j.set(#f, f);
  OPF(X)
#undef X
  j.set("seed", seed).set("alpha", (double)alpha).set("beta", (double)beta); return j; }
Op Op::from(const J& j) { Op o; o.k = j.str("op");
#define X(f) o.f = j.num(#f);
  OPF(X)
#undef X
  o.seed = j.num("seed"); o.alpha = j.get("alpha")->d; o.beta = j.get("beta")->d; return o; }
static const char* schn[] = {"KMN", "MKN", "NKM", "NA"}; static const char* entn[] = {"cake_sgemm", "cake_sgemm_2d", "cake_sgemm_online"};
std::string Op::brief() const {
  if (k == "gemm") return sfmt("%s(M=%d,N=%d,K=%d,p=%d,%s%s%s%s%s%s)", entn[entry], M, N, K, p, schn[sch], alias ? ",B is A" : "", mc ? sfmt(",tiles %d/%d/%d", mc, kc, nc).c_str() : "", alpha != 1 || beta != 0 ? sfmt(",alpha=%g,beta=%g", alpha, beta).c_str() : "", pre ? sfmt(",prepacked=%d%s", pre, pk ? " (blis)" : "").c_str() : "", ctx < 0 ? ",ctx=NULL" : slot >= 0 ? sfmt(",context object %d %s the values of %d", slot, fresh ? "made anew with" : "given", ctx).c_str() : "");
  if (k == "packc") return sfmt("pack_C+unpack_C(M=%d,N=%d,K=%d,p=%d,%s%s%s)", M, N, K, p, schn[sch], mc ? sfmt(",tiles %d/%d/%d", mc, kc, nc).c_str() : "", alpha != 1 || beta != 0 ? sfmt(",alpha=%g,beta=%g", alpha, beta).c_str() : "");
  if (k == "linear") return sfmt("linear %s(batch=%d,out=%d,in=%d,%s,layouts %d/%d/%d/%d, cache sizes %s)", entry ? "backward" : "forward", M, N, K, nt ? "bias" : "no bias", kt & 7, kt >> 3 & 7, kt >> 6 & 7, kt >> 9 & 3, kt < 2048 ? "int32" : (kt >> 11 & 3) == 3 ? "int32, offset" : (kt >> 11 & 3) == 1 ? "int64" : "int64, strided");
  if (k == "sizes") return sfmt("sizes of packed operands(M=%d,N=%d,K=%d,p=%d,%s%s)", M, N, K, p, schn[sch], mc ? sfmt(",tiles %d/%d/%d", mc, kc, nc).c_str() : "");
  if (k == "transpose") return kt == -1 ? sfmt("transpose(M=%d,K=%d)", K, N) : sfmt("transpose_mat(K=%d,N=%d,Kt=%d,Nt=%d)", K, N, kt, nt);
  if (k == "query" || k == "torch") return k == "query" ? "cake_query_cntx()" : sfmt("cake_query_cntx_torch(%d,%d)", M, N);
  return sfmt("%s(M=%d,N=%d,K=%d)", k == "check" ? "cake_sgemm_checker" : k == "mateq" ? "mat_equals" : k == "rand" ? kind == 0 ? "rand_init" : kind == 1 ? "normalRandom" : kind == 2 ? "rand_gen" : "rand_gaussian" : "add_checker", M, N, K); }
J Plan::json() const { J j = J::obj(); j.set("prop", prop).set("seed", seed).set("lib", lib).set("lib2", lib2).set("callers", callers).set("nest", nest).set("max_active", max_active).set("reps", reps).set("limit", limit).set("arg", arg).set("setm", setm).set("relay", relay).set("machine", mach.json()); j.set("env", env.json()).set("env0", env0.json()).set("schedule", sched.json()); J a = J::arr(); for (auto& c : ctx) a.push(c.json()); j.set("contexts", a); J b = J::arr(); for (auto& o : ops) b.push(o.json()); j.set("ops", b); return j; }
Plan Plan::from(const J& j) { Plan p; p.prop = j.str("prop"); p.seed = j.num("seed"); p.lib = j.num("lib"); p.lib2 = j.num("lib2"); p.callers = j.num("callers"); p.nest = j.num("nest"); p.max_active = j.num("max_active"); p.reps = j.num("reps"); p.limit = j.num("limit"); p.arg = j.num("arg"); p.setm = j.num("setm"); p.relay = j.num("relay"); p.mach = Machine::from(*j.get("machine")); p.env = EnvSpec::from(*j.get("env")); p.env0 = EnvSpec::from(*j.get("env0")); p.sched = SchedSpec::from(*j.get("schedule")); for (auto& x : j.get("contexts")->a) p.ctx.push_back(CtxS::from(x)); for (auto& x : j.get("ops")->a) p.ops.push_back(Op::from(x)); return p; }
J Stats::json() const { J j = J::obj(); j.set("plans", plans).set("execs", execs).set("steps", steps).set("switches", switches).set("simsec", simsec).set("distinct_interleavings", (u64)inter.size()).set("distinct_histories", (u64)hist.size()); J m = J::obj(); for (auto& p : n) m.set(p.first, p.second); j.set("counts", m); return j; }

// ------------------------------------------------------------------ data ----
static float val(int kind, u64 seed, u64 i) {
  u64 h = mix64(seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull + 1);
  switch (kind) {
    case 1: return (float)((double)(h >> 40) / (1 << 23) - 1.0);
    case 3: { int e = (int)(h % 41) - 20; return (float)std::ldexp((double)((i64)(h >> 40) - (1 << 23)) / (1 << 23), e); }
    case 4: return h % 10 ? 0.0f : (float)((int)((h >> 20) % 9) - 4);
    case 5: return (float)((int)(seed % 7) + 1);
    case 6: return std::ldexp((float)((int)((h >> 13) % 9) - 4), -70);   // products are subnormal
    case 7: return std::ldexp((float)((int)((h >> 13) % 9) - 4), 52);
    case 8: return std::ldexp((float)((int)((h >> 13) % 9) - 4), 100);
    default: return (float)((int)((h >> 13) % 9) - 4);
  }
}
static float c0val(int c0, u64 seed, u64 i) { switch (c0) { case 1: return NAN; case 2: return (float)((int)(mix64(seed + i * 3) % 11) - 5); case 3: return 1e30f; case 4: return INFINITY; default: return 0; } }
static void fillA(float* A, const Op& o) { u64 n = (u64)o.M * o.K; int kd = o.kind == 2 ? 0 : o.kind; for (u64 i = 0; i < n; i++) A[i] = val(kd, o.seed, i);
  if (o.kind == 2) { Rng r(o.seed ^ 0xabc); int c = r.below(3); for (int k = 0; k < c; k++) A[r.below(n)] = r.below(3) == 0 ? INFINITY : r.below(2) ? NAN : -INFINITY; } }
static void fillB(float* B, const Op& o) { u64 n = (u64)o.K * o.N; int kd = o.kind == 2 ? 0 : o.kind; for (u64 i = 0; i < n; i++) B[i] = val(kd, o.alias ? o.seed : o.seed + 77, i);
  if (o.kind == 2) { Rng r(o.seed ^ 0xdef); int c = r.below(3); for (int k = 0; k < c; k++) B[r.below(n)] = r.below(3) == 0 ? INFINITY : r.below(2) ? NAN : -INFINITY; } }

static bool dy(float v) { return fabs(v) <= 16 && v * 16 == (float)(int)(v * 16); }
// the reference: the triple loop in double precision, with the magnitude sum for the error bound
static bool check_product(const Op& o, const u8* out, std::string& msg) {
  size_t na = (size_t)o.M * o.K, nb = (size_t)o.K * o.N; std::vector<float> A(na), B(nb); fillA(A.data(), o); fillB(B.data(), o); const float* C = (const float*)out;
  std::vector<double> s(o.N), t(o.N); bool exact = (o.kind == 0 || o.kind == 2 || o.kind >= 4) && dy(o.alpha) && dy(o.beta); u64 bad = 0; std::string first;
  double ab = fabs((double)o.alpha);
  if (o.kind == 0 && exact && o.beta == 0 && (double)o.M * o.N * o.K > 1.5e8) {   // large: C*x = A*(B*x) for random integer vectors x, exactly
    for (int t = 0; t < 2; t++) { Rng r(o.seed * 31 + t); std::vector<double> x(o.N), y(o.K); for (auto& e : x) e = (double)((i64)r.below(4001) - 2000);
      for (int k = 0; k < o.K; k++) { const float* b = &B[(size_t)k * o.N]; double z = 0; for (int j = 0; j < o.N; j++) z += b[j] * x[j]; y[k] = z; }
      for (int i = 0; i < o.M; i++) { const float* a = &A[(size_t)i * o.K]; const float* c = C + (size_t)i * o.N; double u = 0, z = 0; for (int k = 0; k < o.K; k++) u += a[k] * y[k]; for (int j = 0; j < o.N; j++) z += c[j] * x[j];
        if (!(o.alpha * u == z)) { msg = sfmt("%s: row %d of C is not the product (checked against a random vector: %.17g instead of %.17g)", o.brief().c_str(), i, z, o.alpha * u); return false; } } }
    return true;
  }
  for (int i = 0; i < o.M; i++) {
    std::fill(s.begin(), s.end(), 0.0); std::fill(t.begin(), t.end(), 0.0); double* sp = s.data(); double* tp = t.data();
    if (exact) for (int k = 0; k < o.K; k++) { double a = A[(size_t)i * o.K + k]; const float* b = &B[(size_t)k * o.N]; for (int j = 0; j < o.N; j++) sp[j] += a * b[j]; }
    else for (int k = 0; k < o.K; k++) { double a = A[(size_t)i * o.K + k], fa = fabs(a); const float* b = &B[(size_t)k * o.N]; for (int j = 0; j < o.N; j++) { sp[j] += a * b[j]; tp[j] += fa * fabs((double)b[j]); } }
    for (int j = 0; j < o.N; j++) {
      double ref = o.alpha * s[j]; double c0 = o.beta != 0 ? (double)c0val(o.c0, o.seed, (u64)i * o.N + j) : 0; if (o.beta != 0) ref += (double)o.beta * c0; float g = C[(size_t)i * o.N + j]; bool ok;
      if (std::isnan(ref)) ok = std::isnan(g); else if (std::isinf(ref)) ok = g == (float)ref;
      else if (exact) ok = (double)g == ref; else { double bound = (o.K + 16) * 1.2e-7 * (ab * t[j] + fabs((double)o.beta * c0)) + 1e-37; ok = std::isfinite(g) && fabs(g - ref) <= bound; }
      if (!ok) { if (!bad) first = sfmt("C[%d][%d] = %.9g, expected %.9g", i, j, (double)g, ref); bad++; }
    }
  }
  if (!bad) return true; msg = sfmt("%s: %s (%llu of %llu elements wrong)", o.brief().c_str(), first.c_str(), (unsigned long long)bad, (unsigned long long)((u64)o.M * o.N)); return false;
}

// --------------------------------------------------------------- execute ----
struct Api { int (*szc)(); void* (*query)(); void* (*torch)(int, int); void (*fr)(void*); void (*set)(void*, int, int, int, int, int, int); void (*get)(void*, int*, double*); double (*gemm)(int, float*, float*, float*, int, int, int, int, void*, int, int, float, float, int, int, int, int);
  void* (*dims)(int, int, int, int, void*, int, int, int, int, int*); size_t (*asz)(int, int, int, void*, void*, int); size_t (*bsz)(int, int, int, void*, void*); void (*pa)(float*, float*, int, int, int, void*, void*, int); void (*pb)(float*, float*, int, int, int, void*, void*, int); void (*pab)(float*, float*, int, int, int, void*, void*, int); void (*pbb)(float*, float*, int, int, int, void*, void*, int); void (*tr)(float*, float*, int, int, int, int); int (*chk)(float*, float*, float*, int, int, int); int (*addc)(float**, float*, int, int, int); int (*meq)(float*, float*, int, int); void (*rnd)(int, float*, int, int);
  size_t (*csz)(int, int, int, void*, void*, int); void (*pc)(float*, float*, int, int, int, void*, void*, int); void (*uc)(float*, float*, int, int, int, void*, void*, int, float, float);
  int (*lin)(int, int, int, int, const float*, const float*, const float*, const float*, int, int, int, void**); long (*linr)(void*, float*, long); void (*linf)(void*); };
static Api& api() { static std::map<int, Api> m; extern int cur_lib(); int i = cur_lib(); auto it = m.find(i); if (it != m.end()) return it->second; Api& a = m[i];
#define L(f, n) *(void**)&a.f = lib_sym(n);
  L(szc, "g_sizeof_ctx") L(query, "g_query") L(torch, "g_query_torch") L(fr, "g_free") L(set, "g_set") L(get, "g_get") L(gemm, "g_gemm") L(dims, "g_dims") L(asz, "g_asize") L(bsz, "g_bsize") L(pa, "g_packa") L(pb, "g_packb") L(pab, "g_packab") L(pbb, "g_packbb") L(pab, "g_packab") L(pbb, "g_packbb") L(tr, "g_transpose") L(chk, "g_check") L(addc, "g_addcheck") L(csz, "g_csize") L(pc, "g_packc") L(meq, "g_mateq") L(rnd, "g_rand") L(uc, "g_unpackc") L(lin, "g_lin") L(linr, "g_lin_read") L(linf, "g_lin_free")
#undef L
  return a; }

struct Bufs { u64 A = 0, B = 0, C = 0, Ap = 0, Bp = 0; size_t na = 0, nb = 0, nc = 0, nap = 0, nbp = 0; std::vector<u64> parts; u64 ptrs = 0; u64 ha = 0, hb = 0, hap = 0, hbp = 0; };
static bool is_gemm(const Op& o) { return o.k == "gemm"; }
static bool is_check(const Op& o) { return o.k == "check" || o.k == "addcheck" || o.k == "mateq"; }
static size_t a_n(const Op& o) { return o.k == "rand" || o.k == "sizes" || o.k == "linear" ? 0 : o.k == "packc" || o.k == "mateq" ? (size_t)o.M * o.N * 4 : o.k == "transpose" ? (size_t)o.K * o.N * 4 : o.k == "addcheck" ? 0 : o.k == "query" || o.k == "torch" ? 0 : (size_t)o.M * o.K * 4; }
static size_t b_n(const Op& o) { return o.k == "gemm" || o.k == "check" ? (size_t)o.K * o.N * 4 : 0; }
static size_t c_n(const Op& o) { return o.k == "transpose" ? (size_t)o.K * o.N * 4 : o.k == "query" || o.k == "torch" || o.k == "sizes" || o.k == "linear" ? 0 : (size_t)o.M * o.N * 4; }
static void fill_in(const Op& o, Bufs& b) {   // contents of the operands, before the call
  if (b.na) sim_set_ro(b.A, b.na, false); if (b.nb) sim_set_ro(b.B, b.nb, false); if (b.nc) sim_set_ro(b.C, b.nc, false);
  if (o.k == "gemm") { fillA((float*)b.A, o); fillB((float*)b.B, o); u64 n = (u64)o.M * o.N; for (u64 i = 0; i < n; i++) ((float*)b.C)[i] = c0val(o.c0, o.seed, i); sim_set_ro(b.A, (size_t)o.M * o.K * 4, true); sim_set_ro(b.B, (size_t)o.K * o.N * 4, true); }
  else if (o.k == "packc") { u64 n = (u64)o.M * o.N; for (u64 i = 0; i < n; i++) ((float*)b.A)[i] = val(o.kind, o.seed, i), ((float*)b.C)[i] = c0val(o.c0, o.seed, i); sim_set_ro(b.A, n * 4, true); }
  else if (o.k == "transpose") { u32* a = (u32*)b.A; u64 n = (u64)o.K * o.N; for (u64 i = 0; i < n; i++) a[i] = o.kind ? (u32)mix64(o.seed + i) : (u32)(i + 1); for (u64 i = 0; i < n; i++) ((u32*)b.C)[i] = 0xABABABABu; sim_set_ro(b.A, n * 4, true); }
  else if (o.k == "check") { fillA((float*)b.A, o); fillB((float*)b.B, o); float* A = (float*)b.A; float* B = (float*)b.B; float* C = (float*)b.C; for (int i = 0; i < o.M; i++) for (int j = 0; j < o.N; j++) { double s = 0; for (int k = 0; k < o.K; k++) s += (double)A[(size_t)i * o.K + k] * B[(size_t)k * o.N + j]; C[(size_t)i * o.N + j] = (float)s; } }
  else if (o.k == "addcheck") { u64 n = (u64)o.M * o.N; float* C = (float*)b.C; for (u64 i = 0; i < n; i++) { double s = 0; for (size_t q = 0; q < b.parts.size(); q++) { float v = val(o.kind, o.seed + q * 31, i); ((float*)b.parts[q])[i] = v; s += v; } C[i] = (float)s; } }
  else if (o.k == "mateq") { u64 n = (u64)o.M * o.N; for (u64 i = 0; i < n; i++) { float v = ((float*)b.A)[i] = val(o.kind, o.seed, i); ((float*)b.C)[i] = o.kind ? v + 2e-5f * ((int)(mix64(o.seed + 7 * i) % 3) - 1) : v; } }
  else if (o.k == "rand") { u64 n = (u64)o.M * o.N; for (u64 i = 0; i < n; i++) ((u32*)b.C)[i] = 0x7fc0beefu; }
  if (is_check(o)) {
    if (o.corrupt >= 0) { float* e = (float*)b.C + o.corrupt % ((u64)o.M * o.N); Rng r(o.seed + 5); float* c = (float*)b.C; u64 n = (u64)o.M * o.N, at = e - c, ot = n > 1 ? (at + 1 + r.below(n - 1)) % n : at; int ck = o.ckind; if (n < 2 && (ck == 7 || ck == 8)) ck = 0; if (o.kind >= 7 && (ck < 2 || (ck > 4 && ck < 8) || ck > 10)) ck = 14; if (ck == 8 && o.kind >= 7 && fabs(c[at] - c[ot]) < 1) ck = 14; switch (ck) {
      case 14: *e = fabs(*e) > 1 ? *e * (o.seed & 1 ? 1.01f : 0.99f) : 1.0f; break;                                      // off by a hundredth of a huge value
      case 7: { float d = 0.05f + (float)r.unit(); *e += d; c[ot] -= d; break; }                                 // errors that cancel
      case 8: if (fabs(c[at] - c[ot]) < 0.01) *e += 0.02f; else std::swap(c[at], c[ot]); break;                     // two elements swapped
      case 9: if (fabs(*e) < 0.01) *e += 0.5f; else *e = -*e; break;                                              // sign bit
      case 10: if (fabs(*e) < 0.01) *e -= 0.5f; else *e = 0; break;                                               // never written
      case 12: for (u64 i = 0; i < n; i++) c[i] += 0.02f; break;                                                  // every element
      case 13: for (u64 i = 0; i < n && i < (n > 65536 ? 65536u : 256u); i++) c[i] -= 0.02f; break;
      case 11: for (u64 i = at / o.N * o.N; i < (at / o.N + 1) * o.N; i++) c[i] -= 0.01f; break;                  // a whole row
      case 0: *e += 0.01f + (float)r.unit(); break; case 1: *e -= 0.01f + (float)r.unit(); break; case 2: *e = NAN; break; case 3: *e = INFINITY; break; case 4: *e = -INFINITY; break; case 5: *e += 1e20f; break; default: *e += 0.0031f; } }
    if (b.na) sim_set_ro(b.A, b.na, true); if (b.nb) sim_set_ro(b.B, b.nb, true); sim_set_ro(b.C, b.nc, true); for (auto q : b.parts) sim_set_ro(q, b.nc, true);
  }
  b.ha = b.na ? hbytes((void*)b.A, b.na) : 0; b.hb = b.nb ? hbytes((void*)b.B, b.nb) : 0; if (is_check(o)) b.ha ^= hbytes((void*)b.C, b.nc);
}
static bool inputs_same(const Op& o, Bufs& b) { u64 ha = b.na ? hbytes((void*)b.A, b.na) : 0; if (is_check(o)) ha ^= hbytes((void*)b.C, b.nc); return ha == b.ha && (!b.nb || hbytes((void*)b.B, b.nb) == b.hb); }

// operands of the dense layer: input M x K, weight N x K, bias N, gradient M x N
static void lin_fill(const Op& o, std::vector<float>& x, std::vector<float>& w, std::vector<float>& b, std::vector<float>& g) { auto f = [&](std::vector<float>& v, size_t n, u64 sd, int l, int c) { v.resize(n); for (size_t i = 0; i < n; i++) v[i] = val(o.kind, sd, l == 7 ? 0 : l == 6 ? i % c : i); }; f(x, (size_t)o.M * o.K, o.seed, o.kt & 7, o.K); f(w, (size_t)o.N * o.K, o.seed + 77, o.kt >> 3 & 7, o.K); f(b, o.N, o.seed + 154, (o.kt >> 9 & 3) == 3 ? 7 : 0, 1); f(g, (size_t)o.M * o.N, o.seed + 231, o.kt >> 6 & 7, o.N); }
static size_t lin_n(const Op& o) { return o.entry ? (size_t)o.M * o.K + (size_t)o.N * o.K + (o.nt ? o.N : 0) : (size_t)o.M * o.N; }
static bool check_linear(const Op& o, const OpR& r, Viol& v) {
  static const char* what[] = {"", "fails with an exception", "changes one of its arguments", "returns tensors of other number, type or shape", "is not registered"};
  if (r.verdict) { v = {"linear-contract", o.brief() + " " + what[r.verdict]}; return false; }
  std::vector<float> x, w, b, g; lin_fill(o, x, w, b, g); const float* c = (const float*)r.C.data(); if (r.C.size() != lin_n(o) * 4) { v = {"linear-contract", o.brief() + " returns tensors of another size"}; return false; } bool ex = o.kind != 1; int M = o.M, N = o.N, K = o.K;
  auto cmp = [&](const char* n, size_t i, size_t j, double e, double t, int len) { float got = *c++; if (ex ? (double)got == e : std::isfinite(got) && fabs(got - e) <= (len + 16) * 1.2e-7 * t + 1e-37) return true; v = {"wrong-linear-result", sfmt("%s: %s[%zu][%zu] = %.9g, expected %.9g", o.brief().c_str(), n, i, j, (double)got, e)}; return false; };
  if (!o.entry) { for (int i = 0; i < M; i++) for (int j = 0; j < N; j++) { double s = 0, t = 0; for (int k = 0; k < K; k++) { double z = (double)x[(size_t)i * K + k] * w[(size_t)j * K + k]; s += z; t += fabs(z); } if (o.nt) s += b[j], t += fabs(b[j]); if (!cmp("output", i, j, s, t, K)) return false; } return true; }
  for (int i = 0; i < M; i++) for (int k = 0; k < K; k++) { double s = 0, t = 0; for (int j = 0; j < N; j++) { double z = (double)g[(size_t)i * N + j] * w[(size_t)j * K + k]; s += z; t += fabs(z); } if (!cmp("grad_input", i, k, s, t, N)) return false; }
  for (int j = 0; j < N; j++) for (int k = 0; k < K; k++) { double s = 0, t = 0; for (int i = 0; i < M; i++) { double z = (double)g[(size_t)i * N + j] * x[(size_t)i * K + k]; s += z; t += fabs(z); } if (!cmp("grad_weight", j, k, s, t, M)) return false; }
  if (o.nt) for (int j = 0; j < N; j++) { double s = 0, t = 0; for (int i = 0; i < M; i++) s += g[(size_t)i * N + j], t += fabs(g[(size_t)i * N + j]); if (!cmp("grad_bias", 0, j, s, t, M)) return false; }
  return true;
}

struct Want { bool faults = false; bool measure_leak = false; std::vector<int> only; bool seq = false; };
void lib_use_api(int i);
static bool same_bits(const Op& o, const OpR& x, const OpR& y, std::string& m);
i64 est(const Plan& p);
static Res exec(const Plan& P, int lib, const EnvSpec& E, const SchedSpec& SP, const Want& W, u64 limit) {
  lib_use(lib); Api& a = api(); core_reset(E, SP, lib_fine(lib) ? M_FINE : M_COARSE, limit); Res R; { double w = 0; for (auto& o : P.ops) { double m = o.M, n = o.N, k = o.K; w += (m * n + n * k + m * k) / 4e6 + m * n * k / 5e7; } G.watch_max = 5 + (int)std::min(w, 400.0); } static Machine dm; static Machine cm; G.machine = &dm; R.op.resize(P.ops.size());
  auto sel = [&](size_t i) { return W.only.empty() || std::find(W.only.begin(), W.only.end(), (int)i) != W.only.end(); };
  std::vector<void*> ctx(P.ctx.size(), nullptr); std::vector<Bufs> B(P.ops.size()); std::vector<u64> ctxh(P.ctx.size()); int szc = a.szc();
  // contexts come from the library itself
  G.machine = &dm; core_run({[&] { for (size_t i = 0; i < P.ctx.size(); i++) { auto& c = P.ctx[i]; cm = c.m; G.machine = c.kind == 2 ? &cm : &dm; if (c.kind == 1) { ctx[i] = a.torch(c.L2, c.L3); if (c.mr) a.set(ctx[i], 0, 0, 0, 0, c.mr, c.nr); } else { ctx[i] = a.query(); if (c.kind == 0) a.set(ctx[i], c.L1, c.L2, c.L3, c.nc, c.mr, c.nr); else if (c.mr) a.set(ctx[i], 0, 0, 0, 0, c.mr, c.nr); } } }});
  static Machine mm; mm = P.mach; G.machine = P.setm ? &mm : &dm;
  std::vector<Acct> acct(P.ops.size());
  if (!G.ended) {
    std::map<int, int> shareA;
    for (size_t i = 0; i < P.ops.size(); i++) { const Op& o = P.ops[i]; if (!sel(i)) continue; Bufs& b = B[i]; b.na = a_n(o); b.nb = b_n(o); b.nc = c_n(o);
      if (o.reuse >= 0 && o.reuse < (int)i && sel(o.reuse) && B[o.reuse].na >= b.na && B[o.reuse].nb >= b.nb && B[o.reuse].nc >= b.nc) { Bufs& q = B[o.reuse]; b.A = q.A; b.B = q.B; b.C = q.C; continue; }
      if (o.share >= 0 && shareA.count(o.share)) { Bufs& q = B[shareA[o.share]]; b.A = q.A; b.B = q.B; b.C = sim_alloc_user(b.nc, o.align, "C", 0); continue; }
      auto al = [&](size_t n, const char* t) { u64 x = sim_alloc_user(n, o.align, t, o.off); return x; };
      if (b.na) b.A = al(o.alias ? std::max(b.na, b.nb) : b.na, o.alias ? "A and B" : "A"); if (b.nb) b.B = o.alias ? b.A : al(b.nb, "B"); if (b.nc) b.C = al(b.nc, o.k == "transpose" ? "At" : "C"); if (o.share >= 0) shareA[o.share] = i;
      if (o.k == "addcheck") { for (int q = 0; q < o.p; q++) b.parts.push_back(al(b.nc, "C part")); b.ptrs = sim_alloc_user(8 * std::max(1, o.p), 16, "C_arr", 0); for (int q = 0; q < o.p; q++) ((u64*)b.ptrs)[q] = b.parts[q]; }
    }
    for (size_t i = 0; i < P.ops.size(); i++) if (sel(i) && !P.ops[i].refill) fill_in(P.ops[i], B[i]);
    // packing ahead of the calls
    bool anypre = false; for (size_t i = 0; i < P.ops.size(); i++) if (sel(i) && P.ops[i].pre) anypre = true;
    if (anypre) core_run({[&] { std::map<int, int> done; for (size_t i = 0; i < P.ops.size(); i++) { const Op& o = P.ops[i]; if (!sel(i) || !o.pre) continue; Bufs& b = B[i]; void* c = ctx[o.ctx];
      if (o.share >= 0 && done.count(o.share)) { Bufs& q = B[done[o.share]]; b.Ap = q.Ap; b.Bp = q.Bp; b.nap = q.nap; b.nbp = q.nbp; continue; }
      int so = 0; void* x = a.dims(o.M, o.N, o.K, o.p, c, o.sch, o.mc, o.kc, o.nc, &so);
      if (o.pre & 1) { b.nap = a.asz(o.M, o.K, o.p, x, c, so); b.Ap = sim_alloc_user(b.nap, 64, "packed A", 0); (o.pk ? a.pab : a.pa)((float*)b.A, (float*)b.Ap, o.M, o.K, o.p, x, c, so); }
      if (o.pre & 2) { b.nbp = a.bsz(o.K, o.N, o.p, x, c); b.Bp = sim_alloc_user(b.nbp, 64, "packed B", 0); (o.pk ? a.pbb : a.pb)((float*)b.B, (float*)b.Bp, o.K, o.N, o.p, x, c, so); }
      a.fr(x); if (o.share >= 0) done[o.share] = i; } }});
    for (size_t i = 0; i < P.ops.size(); i++) { Bufs& b = B[i]; if (b.Ap && !G.ended) { b.hap = hbytes((void*)b.Ap, b.nap); sim_set_ro(b.Ap, b.nap, true); } if (b.Bp && !G.ended) { b.hbp = hbytes((void*)b.Bp, b.nbp); sim_set_ro(b.Bp, b.nbp, true); } }
    for (size_t i = 0; i < ctx.size(); i++) if (ctx[i]) ctxh[i] = hbytes(ctx[i], szc);
  }
  std::vector<void*> lh(P.ops.size()); std::vector<int> cval(ctx.size()); for (size_t i = 0; i < ctx.size(); i++) cval[i] = (int)i; bool slots = false; for (auto& o : P.ops) slots |= o.slot >= 0;   // whose values each context object holds
  auto one = [&](size_t i) {
    const Op& o = P.ops[i]; OpR& r = R.op[i]; Bufs& b = B[i]; Fiber* f = G.cur; G.curop = (int)i; G.op_popens = 0;
    if (o.refill) { fill_in(o, b); if (b.na) sim_host_write(b.A, b.na); if (b.nb) sim_host_write(b.B, b.nb); if (b.nc) sim_host_write(b.C, b.nc); }
    if (b.nc) { G.watch_lo = b.C - RBASE; G.watch_hi = G.watch_lo + b.nc; G.cwrite_first = G.cwrite_last = 0; G.cw_last_ns = G.cw_first_ns = 0; }
    int cx = o.ctx; if (slots && o.k == "gemm" && o.ctx >= 0) { if (o.slot >= 0 && o.slot < (int)ctx.size()) cx = o.slot; if (o.fresh) { a.fr(ctx[cx]); ctx[cx] = a.query(); cval[cx] = -1; } if (cval[cx] != o.ctx) { auto& c = P.ctx[o.ctx]; a.set(ctx[cx], c.L1, c.L2, c.L3, c.nc, c.mr, c.nr); cval[cx] = o.ctx; } }
    acct[i] = Acct(); f->acct = &acct[i]; r.m0 = sim_mono(); if (o.napp > 0 && !P.nest) f->nthreads_var = o.napp; int nv = f->nthreads_var;
    if (o.k == "gemm") r.t = a.gemm(o.entry, (float*)((o.pre & 1) ? b.Ap : b.A), (float*)((o.pre & 2) ? b.Bp : b.B), (float*)b.C, o.M, o.N, o.K, o.p, cx < 0 ? nullptr : ctx[cx], o.pre & 1, o.pre >> 1, o.alpha, o.beta, o.sch, o.mc, o.kc, o.nc);
    else if (o.k == "packc") { int so = 0; void* c = ctx[o.ctx]; void* x = a.dims(o.M, o.N, o.K, o.p, c, o.sch, o.mc, o.kc, o.nc, &so); b.nap = a.csz(o.M, o.N, o.p, x, c, so); b.Ap = sim_alloc_user(b.nap, 64, "packed C", 0); a.pc((float*)b.A, (float*)b.Ap, o.M, o.N, o.p, x, c, so); u64 h = hbytes((void*)b.Ap, b.nap); sim_set_ro(b.Ap, b.nap, true); a.uc((float*)b.C, (float*)b.Ap, o.M, o.N, o.p, x, c, so, o.alpha, o.beta); r.verdict = hbytes((void*)b.Ap, b.nap) == h; a.fr(x); }
    else if (o.k == "linear") { std::vector<float> x, w, bi, g; lin_fill(o, x, w, bi, g); r.verdict = a.lin(o.entry, o.M, o.N, o.K, x.data(), w.data(), o.nt ? bi.data() : nullptr, g.data(), o.kt, o.mc, o.nc, &lh[i]); }
    else if (o.k == "sizes") { int so = 0; void* c = ctx[o.ctx]; void* x = a.dims(o.M, o.N, o.K, o.p, c, o.sch, o.mc, o.kc, o.nc, &so); r.sz[0] = a.asz(o.M, o.K, o.p, x, c, so); r.sz[1] = a.bsz(o.K, o.N, o.p, x, c); r.sz[2] = a.csz(o.M, o.N, o.p, x, c, so); a.fr(x); }
    else if (o.k == "transpose") { f->nthreads_var = o.p; a.tr((float*)b.A, (float*)b.C, o.K, o.N, o.kt, o.nt); f->nthreads_var = nv; }
    else if (o.k == "check") { f->nthreads_var = o.p; r.verdict = a.chk((float*)b.A, (float*)b.B, (float*)b.C, o.N, o.M, o.K); f->nthreads_var = nv; }
    else if (o.k == "mateq") r.verdict = a.meq((float*)b.C, (float*)b.A, o.M, o.N);
    else if (o.k == "rand") a.rnd(o.kind, (float*)b.C, o.M, o.N);
    else if (o.k == "addcheck") r.verdict = a.addc((float**)b.ptrs, (float*)b.C, o.M, o.N, o.p);
    else if (o.k == "query" || o.k == "torch") { void* c = o.k == "query" ? a.query() : a.torch(o.M, o.N); if (c) a.get(c, r.ci, r.cd); int z = P.arg; if (z >= 0 && z < (int)ctx.size() && !ctx[z]) ctx[z] = c; else a.fr(c); r.verdict = c != nullptr; }
    r.m1 = sim_mono(); f->acct = nullptr; r.amax = acct[i].max; r.first = acct[i].first_ns; r.cw0 = G.cw_first_ns; r.cw1 = G.cw_last_ns;
    OpR prev; bool again = r.done && o.k == "gemm"; if (again) prev.C.swap(r.C); r.inputs_ok = inputs_same(o, b); if (b.nc && (o.k == "gemm" || o.k == "transpose" || o.k == "packc" || o.k == "rand")) r.C.assign((u8*)b.C, (u8*)b.C + b.nc); if (again && r.varied.empty() && o.beta == 0) { std::string m; if (!same_bits(o, prev, r, m)) r.varied = m; } r.done = true;
  };
  auto leak = [&] { R.leak.push_back({(i64)G.live_bytes, (i64)G.live_blocks, G.files_open, G.children}); };
  auto body = [&](int c) { for (int rep = 0; rep < P.reps; rep++) { for (size_t i = 0; i < P.ops.size(); i++) if (sel(i) && P.ops[i].caller == c) one(i);
    for (size_t i = 0; i < P.ops.size(); i++) if (lh[i] && P.ops[i].caller == c) { R.op[i].C.resize(lin_n(P.ops[i]) * 4 + 4); R.op[i].C.resize(4 * a.linr(lh[i], (float*)R.op[i].C.data(), lin_n(P.ops[i]) + 1)); a.linf(lh[i]); lh[i] = nullptr; }   // all results are held until the end
    if (P.relay) sim_thread_renew(); if (W.measure_leak) leak(); } };
  if (!G.ended) {
    G.faults_on = W.faults; std::vector<std::function<void()>> bs;
    if (P.nest > 0 && W.only.empty()) bs.push_back([&] { G.cur->max_active = P.max_active; sim_parallel([&](int id) { body(id); }, P.nest); });
    else for (int c = 0; c < P.callers; c++) { bool any = false; for (size_t i = 0; i < P.ops.size(); i++) if (sel(i) && P.ops[i].caller == c) any = true; if (any) bs.push_back([&, c] { body(c); }); }
    core_run(bs); G.faults_on = false;
  }
  if (G.out.k != Outcome::UNSUPPORTED) { core_finish(); for (size_t i = 0; i < ctx.size(); i++) if (ctx[i] && !slots && ctxh[i] && hbytes(ctx[i], szc) != ctxh[i]) R.ctx_changed = true; if (!G.env.guard) for (auto& b : B) { if (b.hap && hbytes((void*)b.Ap, b.nap) != b.hap) R.pre_changed = true; if (b.hbp && hbytes((void*)b.Bp, b.nbp) != b.hbp) R.pre_changed = true; } }
  R.out = G.out; R.steps = G.steps; R.hash = hcomb(G.hash, G.steps); R.shash = G.shash; R.races = G.races; R.race = G.race; R.race_worker = G.race_a >= 0; R.race_cross = G.race_cross; R.mem = G.memerr; R.allocs = G.allocs; R.failed = G.alloc_failed; R.popens = G.popens; R.pfaults = G.popen_faults; R.switches = G.nswitch; R.walljumps = G.walljumps; R.stalls = G.stalls; R.short_teams = G.short_teams; R.max_team = G.max_team; R.regions = G.regions; R.simns = G.mono_ns; R.output = G.output; R.pre.swap(G.rec_pre); R.forced.swap(G.rec_forced);
  u64 h = R.hash; for (auto& r : R.op) { h = hcomb(h, r.C.empty() ? 1 : hbytes(r.C.data(), r.C.size())); h = hcomb(h, r.verdict + 2); u64 tb; memcpy(&tb, &r.t, 8); h = hcomb(h, tb); } R.hash = h;
  S.execs++; S.steps += R.steps; S.switches += R.switches; S.simsec += (R.simns - 1000000000000ll) * 1e-9; if (S.inter.size() < 3000000) { S.inter.insert(hcomb(R.shash, P.ops.size())); bool triv = R.switches < 6 && !R.pfaults && !R.failed && !R.walljumps && !R.stalls && !E.fill && !E.popen.size() && R.out.k == Outcome::OK; if (!triv) S.hist.insert(h); }
  S.n[std::string("schedule_") + policy_name[SP.policy]]++; if (R.walljumps) S.n["fault_wall_clock_jump"] += R.walljumps; if (R.stalls) S.n["fault_stall"] += R.stalls; if (R.short_teams) S.n["fault_short_team"] += R.short_teams; if (R.failed) S.n["fault_allocation_failure"] += R.failed; if (E.fill) S.n["fault_memory_residue"]++; if (E.guard && !lib_fine(lib)) S.n["guard_page_runs"]++; if (R.pfaults) S.n["fault_helper_process"] += R.pfaults; S.n["parallel_regions"] += R.regions; S.n["helper_pipelines"] += R.popens;
  for (size_t i = 0; i < P.ops.size(); i++) if (sel(i) && is_gemm(P.ops[i])) S.n[std::string("op_") + entn[P.ops[i].entry] + (P.ops[i].entry ? "" : std::string("_") + schn[P.ops[i].sch])]++; else if (sel(i)) S.n["op_" + P.ops[i].k]++;
  static const char* on[] = {"ok", "exit", "abort", "crash", "deadlock", "hang", "unsupported"}; S.n[std::string("outcome_") + on[R.out.k]]++;
  return R;
}

// ---------------------------------------------------------------- judging ---
static std::string outname(const Outcome& o) { static const char* n[] = {"ok", "exit", "abort", "crash", "deadlock", "hang", "unsupported"}; return n[o.k]; }
static bool bad_outcome(const Plan& P, const Res& R, Viol& v) { if (R.out.k == Outcome::OK || R.out.k == Outcome::UNSUPPORTED) return false; std::string b; for (auto& o : P.ops) if (b.size() < 160) b += (b.empty() ? "" : "; ") + o.brief(); v = {"outcome-" + outname(R.out), sfmt("%s: call did not return: %s%s%s", b.c_str(), R.out.msg.c_str(), R.output.empty() ? "" : "; output: ", R.output.substr(0, 120).c_str())}; return true; }
static bool hf(const Plan& P) { return !P.env.popen.empty() || P.mach.drop; }          // helpers that misbehave: a controlled refusal is an answer
static bool refused(const Outcome& o) { return (o.k == Outcome::EXIT && o.code) || o.k == Outcome::ABORT; }
static bool products(const Plan& P, const Res& R, Viol& v) { for (size_t i = 0; i < P.ops.size(); i++) { std::string m; if (is_gemm(P.ops[i]) && R.op[i].done && !check_product(P.ops[i], R.op[i].C.data(), m)) { v = {"wrong-result", m}; return true; } } return false; }
static bool same_bits(const Op& o, const OpR& x, const OpR& y, std::string& m) { if (x.C.size() != y.C.size()) { m = "size"; return false; } if (!memcmp(x.C.data(), y.C.data(), x.C.size())) return true; const u32* a = (const u32*)x.C.data(); const u32* b = (const u32*)y.C.data(); size_t n = x.C.size() / 4, d = 0, f = n; for (size_t i = 0; i < n; i++) if (a[i] != b[i]) { // NaN payloads are not part of the value
    float fa, fb; memcpy(&fa, a + i, 4); memcpy(&fb, b + i, 4); if (std::isnan(fa) && std::isnan(fb)) continue; d++; if (f == n) f = i; }
  if (!d) return true; float fa, fb; memcpy(&fa, a + f, 4); memcpy(&fb, b + f, 4); m = sfmt("%s: C[%zu][%zu] is %.9g in one execution and %.9g in the other (%zu elements differ)", o.brief().c_str(), f / o.N, f % o.N, (double)fa, (double)fb, d); return false; }
static EnvSpec plain_env() { EnvSpec e; return e; }
static SchedSpec seq_sched() { return SchedSpec(); }
static bool mem_viol(const Plan& P, const Res& R, Viol& v) { if (R.mem.empty()) return false; v = {R.mem[0].kind, (P.ops.empty() ? std::string() : P.ops[0].brief() + ": ") + R.mem[0].msg}; return true; }

static bool judge_transpose(const Plan& P, const Res& R, Viol& v) {
  for (size_t q = 0; q < P.ops.size(); q++) { const Op& o = P.ops[q]; if (o.k != "transpose" || !R.op[q].done) continue; const u32* t = (const u32*)R.op[q].C.data(); for (u64 k0 = 0; k0 < (u64)o.K; k0 += 32) for (u64 n = 0; n < (u64)o.N; n++) for (u64 k = k0; k < std::min<u64>(k0 + 32, o.K); k++) { u64 i = k * o.N + n; u32 e = o.kind ? (u32)mix64(o.seed + i) : (u32)(i + 1); if (t[n * o.K + k] != e) { v = {"wrong-transpose", sfmt("%s: At[%llu][%llu] = %08x, expected %08x", o.brief().c_str(), (unsigned long long)n, (unsigned long long)k, t[n * o.K + k], e)}; return true; } } }
  return false;
}
static bool judge_packc(const Plan& P, const Res& R, Viol& v) {
  for (size_t q = 0; q < P.ops.size(); q++) { const Op& o = P.ops[q]; if (o.k != "packc" || !R.op[q].done) continue; const float* c = (const float*)R.op[q].C.data(); u64 n = (u64)o.M * o.N;
    for (u64 i = 0; i < n; i++) { double s = val(o.kind, o.seed, i), c0 = o.beta != 0 ? (double)c0val(o.c0, o.seed, i) : 0, e = o.alpha * s + o.beta * c0, tol = o.alpha == 1 && o.beta == 0 ? 0 : o.kind == 0 && dy(o.alpha) && dy(o.beta) ? 0 : 4e-7 * (fabs(o.alpha * s) + fabs(o.beta * c0)) + 1e-37;
      if (!(fabs((double)c[i] - e) <= tol)) { v = {"wrong-round-trip", sfmt("%s: C[%llu][%llu] = %.9g after packing and unpacking, expected %.9g", o.brief().c_str(), (unsigned long long)(i / o.N), (unsigned long long)(i % o.N), (double)c[i], e)}; return true; } }
    if (!R.op[q].verdict) { v = {"packed-operand-modified", o.brief() + ": unpacking modified the packed matrix"}; return true; } }
  return false;
}
static bool leaks(const Plan& P, const Want& W, Res& R, Viol& v) {
    // suspicious: more at the end than in the middle; then many more repetitions, and it must grow in each of the last three quarters
    static i64 Leak::* const fs[3] = {&Leak::bytes, &Leak::files, &Leak::kids}; auto susp = [&](i64 Leak::*f) { auto& L = R.leak; size_t n = L.size(); return n >= 4 && L[n - 1].*f > L[n / 2].*f; };
    if (susp(fs[0]) || susp(fs[1]) || susp(fs[2])) { Plan Q = P; Q.reps = P.reps * 4; Q.limit = P.limit * 4; R = exec(Q, Q.lib, Q.env, Q.sched, W, Q.limit); if (W.faults && hf(P) && refused(R.out)) return false; if (R.out.k != Outcome::OK) return R.out.k != Outcome::UNSUPPORTED && bad_outcome(P, R, v); }
    auto& L = R.leak; size_t n = L.size();
    auto grow = [&](i64 Leak::*f) { return n >= 16 && L[n - 1].*f > L[3 * n / 4].*f && L[3 * n / 4].*f > L[n / 2].*f && L[n / 2].*f > L[n / 4].*f; };
    std::string b; for (auto& o : P.ops) if (b.size() < 160) b += (b.empty() ? "" : "; ") + o.brief();
    if (grow(&Leak::bytes)) { v = {"memory-leak", sfmt("%s: live heap grows by %lld bytes (%lld blocks) from repetition %zu to %zu", b.c_str(), (long long)(L[n - 1].bytes - L[n / 4].bytes), (long long)(L[n - 1].blocks - L[n / 4].blocks), n / 4 + 1, n)}; return true; }
    if (grow(&Leak::files)) { v = {"open-files", sfmt("%s: %lld more streams stay open after %zu repetitions", b.c_str(), (long long)(L[n - 1].files - L[n / 4].files), n)}; return true; }
    if (grow(&Leak::kids)) { v = {"unreaped-children", sfmt("%s: %lld more helper processes stay unreaped after %zu repetitions", b.c_str(), (long long)(L[n - 1].kids - L[n / 4].kids), n)}; return true; }
    return false;
}
bool judge(const Plan& P, Viol& v) {
  const std::string& p = P.prop; Want W; S.plans++; Res R;
  auto fin = [&](bool b) { LAST = R; if (R.races) S.races++; return b; };
  if (p == "C01" || p == "C09" || p == "C17") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false);
    if (bad_outcome(P, R, v)) return fin(true);
    if (p == "C09") for (size_t i = 0; i < P.ops.size(); i++) if (is_gemm(P.ops[i]) && R.op[i].amax > P.ops[i].p) { v = {"too-many-workers", sfmt("%s used %d workers at once (default thread count %d)", P.ops[i].brief().c_str(), R.op[i].amax, P.env.default_threads)}; return fin(true); }
    return fin(products(P, R, v));
  }
  if (p == "C02") {
    Res B = exec(P, P.lib2, P.env0, seq_sched(), W, P.limit); if (B.out.k == Outcome::UNSUPPORTED) { R = B; return fin(false); } if (bad_outcome(P, B, v)) { R = B; return fin(true); }
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) { std::string m; if (is_gemm(P.ops[i]) && !same_bits(P.ops[i], B.op[i], R.op[i], m)) { v = {"nondeterministic-result", m}; return fin(true); } }
    return fin(false);
  }
  if (p == "C03") { R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.race_worker) { v = {"data-race", P.ops[0].brief() + ": " + R.race}; return fin(true); } return fin(false); }
  if (p == "C04") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (bad_outcome(P, R, v)) return fin(true);
    if (R.race_cross) { v = {"cross-caller-race", P.ops[0].brief() + " with " + P.ops.back().brief() + ": " + R.race}; return fin(true); }
    if (R.ctx_changed) { v = {"context-modified", P.ops[0].brief() + ": the shared context was modified"}; return fin(true); }
    for (size_t i = 0; i < P.ops.size(); i++) if (!R.op[i].inputs_ok) { v = {"operand-modified", P.ops[i].brief() + ": an operand was modified"}; return fin(true); }
    Res keep = R; for (size_t i = 0; i < P.ops.size(); i++) { Want w1; w1.only = {(int)i}; Res B = exec(P, P.lib, P.env0, seq_sched(), w1, P.limit); std::string m; if (B.out.k == Outcome::OK && !same_bits(P.ops[i], B.op[i], keep.op[i], m)) { v = {"concurrent-result-differs", m}; R = keep; return fin(true); } if (B.out.k != Outcome::OK && B.out.k != Outcome::UNSUPPORTED && bad_outcome(P, B, v)) { R = keep; return fin(true); } }
    R = keep; return fin(false);
  }
  if (p == "C05" || p == "C12") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false);
    if (mem_viol(P, R, v)) return fin(true); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) if (R.op[i].done && !R.op[i].inputs_ok) { v = {"operand-modified", P.ops[i].brief() + ": an operand was modified"}; return fin(true); }
    if (p == "C12") { if (judge_transpose(P, R, v)) return fin(true); if (R.race_worker) { v = {"data-race", P.ops[0].brief() + ": " + R.race}; return fin(true); } }
    else for (size_t i = 0; i < P.ops.size(); i++) if (is_gemm(P.ops[i]) && P.ops[i].c0 == 1 && P.ops[i].kind != 2 && P.ops[i].kind != 3) { const float* c = (const float*)R.op[i].C.data(); for (u64 k = 0; k < (u64)P.ops[i].M * P.ops[i].N; k++) if (std::isnan(c[k])) { v = {"element-not-written", sfmt("%s: C[%llu][%llu] was not written", P.ops[i].brief().c_str(), (unsigned long long)(k / P.ops[i].N), (unsigned long long)(k % P.ops[i].N))}; return fin(true); } }
    return fin(false);
  }
  if (p == "C19" && P.env.alloc_fail >= 0) {   // out of memory: an exception, or the process ends with an error
    Want w0; w0.faults = true; EnvSpec e0 = P.env; e0.alloc_fail = -1; Res B = exec(P, P.lib, e0, seq_sched(), w0, P.limit); if (B.out.k != Outcome::OK) { R = B; return fin(B.out.k != Outcome::UNSUPPORTED && bad_outcome(P, B, v)); }
    if (B.allocs == 0) { R = B; return fin(false); } EnvSpec e1 = P.env; e1.alloc_fail = P.env.alloc_fail % B.allocs; R = exec(P, P.lib, e1, P.sched, w0, P.limit); std::string wh = sfmt("%s with allocation %lld of %lld failing%s", P.ops[0].brief().c_str(), (long long)e1.alloc_fail, (long long)B.allocs, e1.alloc_persist ? " and all later ones" : "");
    if (R.out.k == Outcome::UNSUPPORTED || R.out.k == Outcome::ABORT) return fin(false); if (R.out.k == Outcome::EXIT) { if (R.out.code == 0) { v = {"exit-zero", wh + ": the process ends with status 0"}; return fin(true); } return fin(false); }
    if (R.out.k != Outcome::OK) { v = {"outcome-" + outname(R.out), wh + ": " + R.out.msg}; return fin(true); } if (!R.mem.empty()) { v = {R.mem[0].kind, wh + ": " + R.mem[0].msg}; return fin(true); }
    for (size_t i = 0; i < P.ops.size(); i++) if (R.op[i].done && R.op[i].verdict != 1 && !check_linear(P.ops[i], R.op[i], v)) { v.msg = wh + ": " + v.msg; return fin(true); } return fin(false);
  }
  if (p == "C19") {
    W.measure_leak = P.callers == 1; R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (mem_viol(P, R, v)) return fin(true); if (bad_outcome(P, R, v)) return fin(true);
    if (R.race_cross) { v = {"cross-caller-race", P.ops[0].brief() + ": " + R.race}; return fin(true); }
    for (size_t i = 0; i < P.ops.size(); i++) if (R.op[i].done && !check_linear(P.ops[i], R.op[i], v)) return fin(true);
    if (P.reps > 1 && leaks(P, W, R, v)) return fin(true); return fin(false);
  }
  if (p == "C20") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false);
    if (mem_viol(P, R, v)) return fin(true); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) if (R.op[i].done && !R.op[i].inputs_ok) { v = {"operand-modified", P.ops[i].brief() + ": the packed matrix' source was modified"}; return fin(true); }
    if (judge_packc(P, R, v)) return fin(true); if (R.race_worker) { v = {"data-race", P.ops[0].brief() + ": " + R.race}; return fin(true); }
    if (R.race_cross) { v = {"cross-caller-race", P.ops[0].brief() + ": " + R.race}; return fin(true); } return fin(false);
  }
  if (p == "C06") {
    W.measure_leak = true; W.faults = hf(P); R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (W.faults && refused(R.out)) return fin(false); if (R.out.k != Outcome::OK) return fin(R.out.k != Outcome::UNSUPPORTED && bad_outcome(P, R, v));
    if (leaks(P, W, R, v)) return fin(true); if (R.out.k != Outcome::OK) return fin(false);
    std::string b; for (auto& o : P.ops) if (b.size() < 160) b += (b.empty() ? "" : "; ") + o.brief();
    for (auto& m : R.mem) if (m.kind == "bad-free" || m.kind == "bad-close") { v = {m.kind, b + ": " + m.msg}; return fin(true); }
    return fin(false);
  }
  if (p == "C07") {
    Want w0; w0.faults = true; EnvSpec e0 = P.env; e0.alloc_fail = -1; Res B = exec(P, P.lib, e0, seq_sched(), w0, P.limit); if (B.out.k != Outcome::OK) { R = B; return fin(B.out.k != Outcome::UNSUPPORTED && bad_outcome(P, B, v)); }
    if (B.allocs == 0) { R = B; return fin(false); } EnvSpec e1 = P.env; e1.alloc_fail = P.env.alloc_fail % B.allocs; W.faults = true; R = exec(P, P.lib, e1, P.sched, W, P.limit); std::string wh = sfmt("%s with allocation %lld of %lld failing%s", P.ops[0].brief().c_str(), (long long)e1.alloc_fail, (long long)B.allocs, e1.alloc_persist ? " and all later ones" : "");
    if (R.out.k == Outcome::UNSUPPORTED || R.out.k == Outcome::ABORT) return fin(false);
    if (R.out.k == Outcome::EXIT) { if (R.out.code == 0) { v = {"exit-zero", wh + ": the process ends with status 0"}; return fin(true); } return fin(false); }
    if (R.out.k != Outcome::OK) { v = {"outcome-" + outname(R.out), wh + ": " + R.out.msg}; return fin(true); }
    if (!R.mem.empty()) { v = {R.mem[0].kind, wh + ": " + R.mem[0].msg}; return fin(true); }
    for (size_t i = 0; i < P.ops.size(); i++) { std::string m; const Op& o = P.ops[i]; if (is_gemm(o) && !check_product(o, R.op[i].C.data(), m)) { v = {"wrong-result", wh + ": returns a wrong result: " + m}; return fin(true); } if (is_check(o) && R.op[i].verdict != B.op[i].verdict) { v = {"wrong-verdict", wh + ": wrong verdict"}; return fin(true); } if (o.k == "query" && !R.op[i].verdict) { v = {"null-context", wh + ": returns no context"}; return fin(true); } }
    if (judge_transpose(P, R, v)) return fin(true); return fin(false);
  }
  if (p == "C08") {
    W.faults = true; std::vector<Res> rs; int libs[2] = {P.lib, P.lib2}; std::string wh = sfmt("machine {%s}", P.mach.env().c_str()); for (auto& f : P.env.popen) wh += sfmt(", helper %d %s", f.ord, f.kind.c_str());
    for (int q = 0; q < 2; q++) { EnvSpec e = q ? P.env0 : P.env; e.popen = P.env.popen; R = exec(P, libs[q], e, P.sched, W, P.limit);
      if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (R.out.k == Outcome::EXIT && R.out.code == 0) { v = {"exit-zero", wh + ": the process ends with status 0"}; return fin(true); }
      bool part = false; for (auto& f : P.env.popen) part |= f.op >= 0;
      if (R.out.k == Outcome::EXIT && P.arg >= 100 && (!part || R.op[0].done)) { v = {"refused-normal-machine", wh + ": discovery ends the process although every tool answered normally: " + R.output.substr(0, 100)}; return fin(true); }
      if (R.out.k != Outcome::OK && R.out.k != Outcome::EXIT && R.out.k != Outcome::ABORT) { v = {"outcome-" + outname(R.out), wh + ": " + R.out.msg}; return fin(true); } rs.push_back(R); if (!R.mem.empty()) { v = {R.mem[0].kind, wh + ": " + R.mem[0].msg}; return fin(true); } }
    for (int q = 0; q < 2; q++) for (size_t i = 0; i < P.ops.size(); i++) { const Op& o = P.ops[i]; auto& r = rs[q].op[i]; if (!r.done) continue; R = rs[q];
      if (o.k == "query" || o.k == "torch") { std::string d = sfmt("L1=%d L2=%d L3=%d ncores=%d mr=%d nr=%d maps=%d,%d alpha_n=%g", r.ci[0], r.ci[1], r.ci[2], r.ci[3], r.ci[4], r.ci[5], r.ci[6], r.ci[7], r.cd[0]);
        if (!r.verdict) { v = {"null-context", wh + ": no context"}; return fin(true); }
        bool sane = r.ci[0] > 0 && r.ci[1] > 0 && r.ci[2] > 0 && r.ci[3] >= 1 && (r.ci[4] == 6 || r.ci[4] == 8) && (r.ci[5] == 16 || r.ci[5] == 32) && r.ci[6] == (r.ci[4] == 8) && r.ci[7] == (r.ci[5] == 32) && std::isfinite(r.cd[0]) && r.cd[0] > 0; if (!sane) { v = {"insane-context", wh + ": " + o.brief() + " gives " + d}; return fin(true); }
        if (rs[0].op[i].done && rs[1].op[i].done && (memcmp(rs[0].op[i].ci, rs[1].op[i].ci, sizeof r.ci) || memcmp(rs[0].op[i].cd, rs[1].op[i].cd, sizeof r.cd))) { auto& z = rs[1].op[i]; v = {"uninitialised-context", sfmt("%s: %s depends on memory residue: %s versus L1=%d L2=%d L3=%d ncores=%d peaks %g %g", wh.c_str(), o.brief().c_str(), d.c_str(), z.ci[0], z.ci[1], z.ci[2], z.ci[3], z.cd[1], z.cd[2])}; return fin(true); }
        if (o.k == "torch" && (r.ci[1] != o.M || r.ci[2] != o.N)) { v = {"wrong-context", sfmt("cake_query_cntx_torch(%d,%d) gives %s", o.M, o.N, d.c_str())}; return fin(true); }
        bool dist = false; for (auto& f : P.env.popen) dist |= f.op == (int)i; if (o.k == "query" && P.arg >= 100 && !dist) { auto sz = [](const std::string& s) { double x = atof(s.c_str()); char u = s.back(); return x * (u == 'K' ? 1024.0 : u == 'M' ? 1048576.0 : 1073741824.0); }; auto near = [&](int g, const std::string& s) { double w = std::min(sz(s), 2147483647.0), tol = s.find('.') == std::string::npos ? 0 : 0.06 * (s.back() == 'K' ? 1024.0 : s.back() == 'M' ? 1048576.0 : 1073741824.0); return fabs(g - w) <= tol; };
          int cores = P.mach.cpus / (P.mach.threads * P.mach.sockets); if (cores < 1) cores = 1;
          // several sockets: the L3 of one of them or of all (as lscpu prints the total)
          auto lall = [&]() -> std::string { if (!P.mach.l3all.empty()) return P.mach.l3all; double k = sz(P.mach.l3) * P.mach.sockets / 1024; char un = 'K'; if (k >= 1024) k /= 1024, un = 'M'; if (k >= 1024) k /= 1024, un = 'G'; return sfmt("%.1f%c", k, un); };
          // a model number the library lists has these sizes (KiB), whatever the tools print for it
          static const int tab[][4] = {{1, 32, 512, 65536}, {3, 32, 32, 1024}, {4, 16, 16, 512}, {17, 32, 512, 4096}, {33, 32, 512, 65536}, {49, 32, 512, 131072}, {69, 32, 256, 4096}, {85, 32, 1024, 36608}, {142, 32, 256, 8192}, {165, 32, 256, 20480}};
          bool good = false, listed = false; if (P.arg == 101) for (auto& t : tab) if (t[0] == P.mach.modelnum) listed = true, good = r.ci[0] == t[1] * 1024 && r.ci[1] == t[2] * 1024 && r.ci[2] == t[3] * 1024;
          if (!listed) good = near(r.ci[0], P.mach.l1) && near(r.ci[1], P.mach.l2) && (near(r.ci[2], P.mach.l3) || near(r.ci[2], lall()));
          if (!good || r.ci[3] != cores) { v = {"wrong-context", sfmt("%s: context says %s", wh.c_str(), d.c_str())}; return fin(true); } } }
      if (is_gemm(o)) { std::string m; if (!check_product(o, r.C.data(), m)) { v = {"wrong-result", wh + ": " + m}; return fin(true); } } }
    return fin(false);
  }
  if (p == "C10") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) { auto& r = R.op[i]; auto& o = P.ops[i]; double tol = 2e-9 + 1e-15 * (r.m1 * 1e-9), hi = (r.m1 - r.m0) * 1e-9 + tol; i64 st = (o.entry == 0 && o.pre != 3) ? r.cw0 : r.first; double lo = P.callers == 1 && r.cw1 && st ? (r.cw1 - st) * 1e-9 - tol : 0;
      if (!std::isfinite(r.t) || r.t < 0 || r.t > hi || r.t < lo) { v = {"wrong-time", sfmt("%s: returned %.9g s, but the call took %.9g s on the steady clock and computing until the last write of C took at least %.9g s", o.brief().c_str(), r.t, hi, lo)}; return fin(true); } }
    return fin(false);
  }
  if (p == "C11") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (mem_viol(P, R, v)) return fin(true); if (bad_outcome(P, R, v)) return fin(true);
    if (R.pre_changed) { v = {"packed-operand-modified", P.ops[0].brief() + ": a packed operand was modified"}; return fin(true); }
    Res keep = R; Plan Q = P; for (auto& o : Q.ops) o.pre = 0;
    for (size_t i = 0; i < P.ops.size(); i++) { if (!is_gemm(P.ops[i])) continue; Want w1; w1.only = {(int)i}; Res B = exec(Q, P.lib, P.env0, seq_sched(), w1, P.limit); std::string m; R = keep; if (B.out.k == Outcome::OK && !same_bits(P.ops[i], B.op[i], keep.op[i], m)) { v = {"prepacked-result-differs", m}; return fin(true); } }
    for (size_t i = 0; i < P.ops.size(); i++) { const Op& o = P.ops[i]; auto& r = R.op[i]; if (o.k != "sizes" || !r.done) continue; u64 w[3] = {(u64)o.M * o.K * 4, (u64)o.K * o.N * 4, (u64)o.M * o.N * 4}; for (int q = 0; q < 3; q++) if (r.sz[q] < w[q] || r.sz[q] >> 40) { v = {"wrong-packed-size", sfmt("%s: the packed %c is said to take %llu bytes, its elements alone take %llu", o.brief().c_str(), "ABC"[q], (unsigned long long)r.sz[q], (unsigned long long)w[q])}; return fin(true); } }
    if (products(P, R, v)) return fin(true); return fin(false);
  }
  if (p == "C21") {
    Res B = exec(P, P.lib, P.env0, seq_sched(), W, P.limit); R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (mem_viol(P, R, v)) return fin(true); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) { auto& o = P.ops[i]; auto& r = R.op[i]; if (o.k != "rand" || !r.done) continue; const float* c = (const float*)r.C.data(); u64 n = (u64)o.M * o.N; double lo = 1e30, hi = -1e30;
      for (u64 k = 0; k < n; k++) { double x = c[k]; bool ok = o.kind == 0 ? x >= -1 && x <= 1 : o.kind != 2 ? fabs(x) <= 8 : x > 0 && x <= 1; lo = std::min(lo, x); hi = std::max(hi, x); if (!ok) { v = {"random-value-out-of-range", sfmt("%s: element %llu is %.9g", o.brief().c_str(), (unsigned long long)k, x)}; return fin(true); } }
      if (n >= 120 && P.env.randm == 0 && (o.kind == 2 ? hi - lo < 0.3 : lo > -0.2 || hi < 0.2)) { v = {"random-values-do-not-vary", sfmt("%s: %llu values between %.9g and %.9g", o.brief().c_str(), (unsigned long long)n, lo, hi)}; return fin(true); }
      if (B.out.k == Outcome::OK && (B.op[i].C.size() != r.C.size() || memcmp(B.op[i].C.data(), r.C.data(), r.C.size()))) { v = {"random-values-differ", sfmt("%s: the same stream gives other values", o.brief().c_str())}; return fin(true); } }
    return fin(false);
  }
  if (p == "C13") {
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (bad_outcome(P, R, v)) return fin(true);
    for (size_t i = 0; i < P.ops.size(); i++) { auto& o = P.ops[i]; auto& r = R.op[i]; int want = o.corrupt >= 0; if (r.verdict != want) { v = {"wrong-verdict", sfmt("%s reports %s for a result that is %s%s", o.brief().c_str(), r.verdict ? "failure" : "success", want ? "wrong" : "correct", want ? sfmt(" (element %llu, corruption %d)", (unsigned long long)(o.corrupt % ((u64)o.M * o.N)), o.ckind).c_str() : "")}; return fin(true); } if (!r.inputs_ok) { v = {"checked-data-modified", o.brief() + " modified what it checks"}; return fin(true); } }
    return fin(mem_viol(P, R, v));
  }
  if (p == "C14") {
    W.faults = hf(P); Res B = exec(P, P.lib, P.env0, seq_sched(), W, P.limit); if (W.faults && refused(B.out)) { R = B; return fin(false); } if (B.out.k == Outcome::UNSUPPORTED) { R = B; return fin(false); } u64 lim = 12 * B.steps + 100000; { i64 e = est(P); for (auto& o : P.ops) e += 4 * ((i64)o.M * o.N + (i64)o.N * o.K + (i64)o.M * o.K); if (B.out.k == Outcome::OK && lib_fine(P.lib) && (i64)B.steps > 200000 + 50 * e * P.reps) { R = B; v = {"unbounded-work", sfmt("%s: %llu accesses in an undisturbed execution", P.ops[0].brief().c_str(), (unsigned long long)B.steps)}; return fin(true); } }
    if (B.out.k == Outcome::OK) R = exec(P, P.lib, P.env, P.sched, W, lim); else R = B;
    if (W.faults && refused(R.out)) return fin(false); if (R.out.k == Outcome::HANG || R.out.k == Outcome::DEADLOCK) { std::string b; for (auto& o : P.ops) if (b.size() < 160) b += (b.empty() ? "" : "; ") + o.brief(); v = {"outcome-" + outname(R.out), sfmt("%s: %s (an undisturbed execution takes %llu steps)", b.c_str(), R.out.msg.c_str(), (unsigned long long)B.steps)}; return fin(true); }
    return fin(R.out.k != Outcome::UNSUPPORTED && bad_outcome(P, R, v));
  }
  if (p == "C16") {
    int last = P.ops.size() - 1; Want w1; w1.only = {last}; Plan Q = P; Q.reps = 1; Res B = exec(Q, P.lib, P.env0, seq_sched(), w1, P.limit); if (B.out.k != Outcome::OK) { R = B; return fin(B.out.k != Outcome::UNSUPPORTED && bad_outcome(P, B, v)); }
    R = exec(P, P.lib, P.env, P.sched, W, P.limit); if (R.out.k == Outcome::UNSUPPORTED) return fin(false); if (bad_outcome(P, R, v)) return fin(true); std::string m; if (!same_bits(P.ops[last], B.op[last], R.op[last], m)) { v = {"history-dependent-result", sfmt("after %d earlier calls: %s", (last + 1) * P.reps - 1, m.c_str())}; return fin(true); }
    for (auto& x : R.op) if (!x.varied.empty()) { v = {"history-dependent-result", sfmt("repeated calls: %s", x.varied.c_str())}; return fin(true); } return fin(false);
  }
  return false;
}
