// The OpenMP runtime the library is linked against: the libgomp ABI on simulated threads.
#include "core.h"
#include <algorithm>
#include <errno.h>
#include <memory>
#include <pthread.h>
#include <unistd.h>
extern "C" int __wrap_sched_yield(); void tls_fresh(Fiber*);
struct WS { long next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; bool up = true; int left = 0; int arrived = 0; bool claimed = false; void* copy = nullptr; bool ready = false; u32 vc[MAXT]; std::vector<Fiber*> waiters; u64 un = 0, uend = 0, uincr = 1, uchunk = 1; };
struct Task;
struct Team { int n = 1; Fiber* master = nullptr; std::vector<Fiber*> mem; int remaining = 0; bool master_waits = false; u32 join[MAXT], bacc[MAXT], bdone[MAXT]; int bcount = 0; u64 bgen = 0; std::map<unsigned, WS*> ws; std::map<unsigned, WS*> single; WS* pre = nullptr; std::vector<std::shared_ptr<Task>> pend; int ntask = 0; bool host = false;
  Team() { memset(join, 0, sizeof join); memset(bacc, 0, sizeof bacc); memset(bdone, 0, sizeof bdone); } ~Team() { for (auto& p : ws) delete p.second; for (auto& p : single) delete p.second; } };
struct Lk { Fiber* owner = nullptr; int depth = 0; std::vector<Fiber*> wait; u32 vc[MAXT]; Lk() { memset(vc, 0, sizeof vc); } };
static std::vector<Team*> teams; static std::unordered_map<u64, Lk*> locks; static std::unordered_map<int, int> region_ord;
struct LState { long ilo, ihi; WS* w; long k; };
static std::vector<LState> lst(MAXT); static int rt_kind = 1; static int rt_chunk = 1; static int critg, atomg;
void gomp_reset2();
void gomp_reset() { gomp_reset2(); for (auto t : teams) delete t; teams.clear(); for (auto& l : locks) delete l.second; locks.clear(); region_ord.clear(); for (auto& l : lst) l = LState{0, 0, nullptr, 0}; rt_kind = 1; rt_chunk = 1; }
static const char* const BARRIER = "a barrier";
static Fiber* me() { return G.cur; }

// ---- explicit tasks: deferred (seeded) and run by members that wait at a barrier, a taskwait or the end of a group or region
struct Group { int n = 0; u32 vc[MAXT]; std::shared_ptr<Group> up; Group() { memset(vc, 0, sizeof vc); } };
struct Ctx { int kids = 0; u32 vc[MAXT]; std::shared_ptr<Group> grp; std::map<u64, std::pair<std::shared_ptr<Task>, std::vector<std::shared_ptr<Task>>>> dep; Ctx() { memset(vc, 0, sizeof vc); } };
struct Task { std::function<void()> f; u32 vc[MAXT], dvc[MAXT]; bool done = false, final_ = false; std::shared_ptr<Ctx> parent, own; std::shared_ptr<Group> grp; std::vector<std::shared_ptr<Task>> pred; Team* t = nullptr; std::vector<char> buf; Task() { memset(vc, 0, sizeof vc); memset(dvc, 0, sizeof dvc); } };
static std::vector<std::shared_ptr<Ctx>> cctx(MAXT); static u64 task_ord; bool g_tasks = false; static std::vector<char> in_final(MAXT, 0);
static const char* const TASKW = "tasks";
static std::shared_ptr<Ctx> ctx() { auto& c = cctx[me()->tid]; if (!c) c = std::make_shared<Ctx>(); return c; }
static void task_wake(Team* t) { for (auto m : t->mem) if (m != me() && m->st == F_BLOCK && (m->why == BARRIER || m->why == TASKW) && m->team == t) wake(m); }
static void task_exec(std::shared_ptr<Task> k) {
  Fiber* f = me(); auto o = cctx[f->tid]; char of = in_final[f->tid]; k->own = std::make_shared<Ctx>(); k->own->grp = k->grp; cctx[f->tid] = k->own; in_final[f->tid] = k->final_;
  hb_acquire(k->vc); for (auto& p : k->pred) hb_acquire(p->dvc); LState ols = lst[f->tid]; step(); k->f(); step(); lst[f->tid] = ols; cctx[f->tid] = o; in_final[f->tid] = of;
  hb_release(k->dvc); hb_release(k->parent->vc); k->parent->kids--; for (auto g = k->grp; g; g = g->up) { hb_release(g->vc); g->n--; } k->done = true; k->pred.clear(); k->f = nullptr; k->parent.reset(); if (k->t) { k->t->ntask--; task_wake(k->t); }
}
static bool task_any(Team* t, Ctx* of, Group* g) {   // runs one that is ready; of the given parent or group only
  std::vector<size_t> c; for (size_t i = 0; i < t->pend.size(); i++) { auto& k = t->pend[i]; if (of && k->parent.get() != of) continue; if (g) { bool in = false; for (auto x = k->grp.get(); x; x = x->up.get()) in |= x == g; if (!in) continue; } bool r = true; for (auto& p : k->pred) r &= p->done; if (r) c.push_back(i); }
  if (c.empty()) return false; size_t i = c[mix64(G.env.team_seed * 7919 + ++task_ord) % c.size()]; auto k = t->pend[i]; t->pend.erase(t->pend.begin() + i); task_exec(k); return true;
}
static void task_new(std::function<void()> fn, std::vector<char> buf, bool defer, bool fin, void** dep) {
  step(); Fiber* f = me(); auto p = ctx(); auto k = std::make_shared<Task>(); k->f = fn; k->buf = std::move(buf); k->parent = p; k->grp = p->grp; k->final_ = fin; p->kids++; for (auto g = k->grp; g; g = g->up) g->n++;
  if (dep) { long n = (long)dep[0], no, ni; void** q; if (n) { no = (long)dep[1]; q = dep + 2; ni = n - no; } else { n = (long)dep[1]; no = (long)dep[2] + (long)dep[3]; ni = n - no; q = dep + 5; }
    for (long i = 0; i < no + ni; i++) { auto& d = p->dep[(u64)q[i]]; if (d.first) k->pred.push_back(d.first); if (i < no) { for (auto& x : d.second) k->pred.push_back(x); d.first = k; d.second.clear(); } else d.second.push_back(k); } }
  Team* t = f->team; hb_release(k->vc); u64 h = mix64(G.env.team_seed * 31 + ++task_ord * 977);
  if (t && defer && f->level > 0 && !t->host && !in_final[f->tid] && h % 4 && G.env.team_seed % 5) { k->t = t; t->ntask++; t->pend.push_back(k); task_wake(t); step(); return; }
  k->t = t; if (t) t->ntask++;
  for (;;) { bool r = true; for (auto& x : k->pred) r &= x->done; if (r) break; if (!task_any(t, nullptr, nullptr)) block(TASKW); }
  task_exec(k); step();
}
static void task_wait(Ctx* c, Group* g) { step(); Team* t = me()->team; int* n = g ? &g->n : &c->kids; while (*n > 0) if (!t || !task_any(t, g ? nullptr : c, g)) block(TASKW); if (*n == 0) hb_acquire(g ? g->vc : c->vc); step(); }
static void barrier() {
  step(); Fiber* f = me(); Team* t = f->team; if (!t) return; while (t->n == 1 && t->ntask > 0) if (!task_any(t, nullptr, nullptr)) block(TASKW); if (t->n == 1) { hb_acquire(ctx()->vc); return; } hb_release(t->bacc); u64 g = t->bgen; t->bcount++;
  while (t->bgen == g) {
    if (!t->pend.empty() && task_any(t, nullptr, nullptr)) { if (t->bgen == g) hb_release(t->bacc); continue; }
    if (t->bcount == t->n && !t->ntask) { memcpy(t->bdone, t->bacc, sizeof t->bdone); memset(t->bacc, 0, sizeof t->bacc); t->bcount = 0; t->bgen++; for (auto m : t->mem) if (m != f && m->st == F_BLOCK && m->why == BARRIER) wake(m); break; }
    block(BARRIER); }
  hb_acquire(t->bdone); step();
}

static int deliver(Fiber* f, int want) {
  if (want < 1) want = 1; if (want > 1 && f->active >= f->max_active) return 1;
  int ord = region_ord[f->root]++; int n = want; auto& e = G.env;
  if (e.team_mode == 1) n = std::min(n, std::max(1, e.team_limit)); else if (e.team_mode == 2) { Rng r(e.team_seed * 1315423911ull + f->root * 977 + ord); n = 1 + r.below(n); } else if (e.team_mode == 3) n = 1;
  int idle = 0, roots = 0; for (auto k : f->kids) idle += k->st == F_IDLE; for (auto k : G.fibers) roots += k->root == k->tid; n = std::min(n, f->level || roots > 1 ? 64 : 180); n = std::min(n, std::max(1, 1 + idle + 195 - (int)G.fibers.size())); if (n < want) G.short_teams++; return n;
}
static void account(Fiber* f, int n) {
  G.regions++; if (n > G.max_team) G.max_team = n; 
}
static void team_drop(Team* t);
static void par(void (*fn)(void*), void* data, unsigned nt, const std::function<void(int)>* hf, WS* pre) {
  if (!G.active) { fprintf(stderr, "sim: parallel region outside a simulated run\n"); _exit(3); }
  step(); Fiber* m = me(); int want = nt ? (int)nt : m->nthreads_var; int n = hf ? want : deliver(m, want); account(m, n);
  if (m->acct) { m->acct->running += n - 1; m->acct->max = std::max(m->acct->max, m->acct->running); m->acct->regions++; if (!m->acct->first_step) { m->acct->first_step = G.steps; m->acct->first_ns = sim_mono(); } }
  Team* t = new Team(); teams.push_back(t); t->n = n; t->master = m; t->remaining = n - 1; t->mem.push_back(m); t->pre = pre;
  Team* ot = m->team; int ott = m->team_tid, ol = m->level, oa = m->active; unsigned ow = m->ws, os = m->ws1; LState ols = lst[m->tid];
  // workers come from this thread's own pool
  std::vector<Fiber*> w; for (int i = 1; i < n; i++) { Fiber* k = nullptr; for (auto c : m->kids) if (c->st == F_IDLE && std::find(w.begin(), w.end(), c) == w.end()) { k = c; break; } if (!k) { k = fiber_new(m->root); m->kids.push_back(k); } w.push_back(k); t->mem.push_back(k); }
  int nv = m->nthreads_var;
  for (int i = 1; i < n; i++) { Fiber* k = w[i - 1]; hb_fork(k); k->team = t; k->team_tid = i; k->level = ol + 1; k->active = oa + (n > 1); k->ws = k->ws1 = 0; k->nthreads_var = nv; k->max_active = m->max_active; k->dyn = m->dyn; k->acct = m->acct; lst[k->tid] = LState{0, 0, nullptr, 0};
    if (hf) { int id = i; auto f = *hf; k->hbody = [f, id] { f(id); }; k->fn = nullptr; } else { k->fn = fn; k->data = data; k->hbody = nullptr; } fiber_start(k); }
  hb_tick(); m->team = t; m->team_tid = 0; m->level = ol + 1; m->active = oa + (n > 1); m->ws = m->ws1 = 0; lst[m->tid] = LState{0, 0, nullptr, 0};
  t->host = hf; auto oc = cctx[m->tid]; cctx[m->tid].reset(); step(); if (hf) (*hf)(0); else { fn(data); if (g_tasks) barrier(); } cctx[m->tid] = oc;
  step(); while (t->remaining > 0) { t->master_waits = true; block("end of parallel region"); } t->master_waits = false;
  hb_acquire(t->join); m->team = ot; m->team_tid = ott; m->level = ol; m->active = oa; m->ws = ow; m->ws1 = os; m->nthreads_var = nv; lst[m->tid] = ols;
  if (m->acct) m->acct->running -= n - 1;
  team_drop(t);
}
void gomp_fiber_exit(Fiber* f) { Team* t = f->team; if (!t) return; if (g_tasks && !t->host) barrier(); cctx[f->tid].reset(); step(); hb_release(t->join); f->team = nullptr; f->level = 0; f->active = 0; f->acct = nullptr; if (--t->remaining == 0 && t->master_waits) wake(t->master); }
void sim_parallel(const std::function<void(int)>& f, int n) { par(nullptr, nullptr, n, &f, nullptr); }
static void thr_reset();
static Lk* lk(const void* p) { auto& l = locks[(u64)p]; if (!l) l = new Lk(); return l; }
static void lock(const void* p, bool nest) { if (!G.active) return; step(); Lk* l = lk(p); Fiber* f = me(); if (l->owner == f) { if (nest) { l->depth++; return; } } while (l->owner) { l->wait.push_back(f); block("a lock"); } l->owner = f; l->depth = 1; hb_acquire(l->vc); sync_point(); }
static int trylock(const void* p, bool nest) { if (!G.active) return 1; step(); Lk* l = lk(p); Fiber* f = me(); if (l->owner == f && nest) return ++l->depth; if (l->owner) return 0; l->owner = f; l->depth = 1; hb_acquire(l->vc); sync_point(); return 1; }
static void unlock(const void* p) { if (!G.active) return; Lk* l = lk(p); if (--l->depth > 0) return; hb_release(l->vc); l->owner = nullptr; auto w = l->wait; l->wait.clear(); for (auto f : w) if (f->st == F_BLOCK) wake(f); sync_point(); step(); }

// ---- work sharing
enum { K_STATIC = 1, K_DYN = 2, K_GUIDED = 3 };
static Team* solo() { Fiber* f = me(); if (!f->team) { Team* t = new Team(); t->master = f; t->mem.push_back(f); teams.push_back(t); f->team = t; } return f->team; }
static WS* new_ws(int n, long s, long e, long inc, long ch, int kind) { WS* w = new WS(); w->next = s; w->end = inc > 0 ? std::max(s, e) : std::min(s, e); w->incr = inc; w->chunk = ch; w->kind = kind; w->left = n; memset(w->vc, 0, sizeof w->vc); return w; }
static bool ws_next(WS* w, long* a, long* b) {
  step(); long ch = w->chunk < 1 ? 1 : w->chunk; long rem = (w->end - w->next) / w->incr + (((w->end - w->next) % w->incr) != 0); if (rem <= 0) return false;
  Team* t = me()->team; int n = t ? t->n : 1; long q = ch;
  if (w->kind == K_GUIDED) { q = (rem + n - 1) / n; if (q < ch) q = ch; }
  if (w->kind == K_STATIC) { // static hand-out by thread number and round
    LState& l = lst[me()->tid]; long total = rem; int id = me()->team_tid; if (w->chunk < 1) { if (l.k) return false; l.k = 1; long per = total / n, ex = total % n; long lo = id * per + std::min<long>(id, ex), hi = lo + per + (id < ex); if (lo >= hi) return false; *a = w->next + lo * w->incr; *b = w->next + hi * w->incr; if ((w->incr > 0 && *b > w->end) || (w->incr < 0 && *b < w->end)) *b = w->end; return true; }
    long lo = (id + l.k * n) * ch; l.k++; if (lo >= total) return false; long hi = std::min(total, lo + ch); *a = w->next + lo * w->incr; *b = w->next + hi * w->incr; if ((w->incr > 0 && *b > w->end) || (w->incr < 0 && *b < w->end)) *b = w->end; return true; }
  if (q > rem) q = rem; *a = w->next; w->next += q * w->incr; *b = w->next; if ((w->incr > 0 && *b > w->end) || (w->incr < 0 && *b < w->end)) *b = w->end; step(); return true;
}
static WS* cur_ws(long s, long e, long inc, long ch, int kind) { Fiber* f = me(); Team* t = solo(); LState& l = lst[f->tid]; unsigned id = f->ws++; if (!t->ws.count(id)) t->ws[id] = new_ws(t->n, s, e, inc, ch, kind); l.w = t->ws[id]; l.k = 0; return l.w; }
static bool loop_start(long s, long e, long inc, long ch, int kind, long* a, long* b) { WS* w = cur_ws(s, e, inc, ch, kind); return ws_next(w, a, b); }
static bool loop_next(long* a, long* b) { LState& l = lst[me()->tid]; if (!l.w) { Team* t = me()->team; if (t && t->pre) { l.w = t->pre; l.k = 0; } else return false; } return ws_next(l.w, a, b); }
static void loop_end(bool wait) { lst[me()->tid].w = nullptr; if (wait) barrier(); }
static void par_loop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long inc, long ch, int kind) { WS* w = new_ws(0, s, e, inc, ch, kind); par(fn, d, nt, nullptr, w); delete w; }
typedef unsigned long long ull;
struct UW { ull next, end, incr, chunk; bool up; int kind; };
static std::map<std::pair<Team*, unsigned>, UW> uws;
static std::vector<UW*> ucur(MAXT, nullptr);
static ull urem(UW* w) { if (w->up) return w->next < w->end ? (w->end - w->next + w->incr - 1) / w->incr : 0; ull dec = 0 - w->incr; return w->next > w->end ? (w->next - w->end + dec - 1) / dec : 0; }
static bool u_next(ull* a, ull* b) { step(); UW* w = ucur[me()->tid]; if (!w) return false; ull rem = urem(w); if (!rem) return false; Team* t = solo(); ull ch = w->chunk ? w->chunk : 1, q = ch;
  if (w->kind == K_GUIDED) q = std::max(ch, (rem + t->n - 1) / t->n);
  if (w->kind == K_STATIC) { LState& l = lst[me()->tid]; ull id = me()->team_tid, n = t->n, lo, hi; if (!w->chunk) { if (l.k) return false; l.k = 1; ull per = rem / n, ex = rem % n; lo = id * per + std::min(id, ex); hi = lo + per + (id < ex); } else { lo = (id + l.k * n) * ch; l.k++; hi = std::min(rem, lo + ch); } if (lo >= hi || lo >= rem) return false; *a = w->next + lo * w->incr; *b = hi == rem ? w->end : w->next + hi * w->incr; return true; }
  if (q > rem) q = rem; *a = w->next; w->next += q * w->incr; *b = q == rem ? w->end : w->next; return true; }
static bool u_start(bool up, ull s, ull e, ull inc, ull ch, int kind, ull* a, ull* b) { Fiber* f = me(); Team* t = solo(); unsigned id = f->ws++; auto k = std::make_pair(t, id); if (!uws.count(k)) uws[k] = UW{s, e, inc, ch, up, kind}; ucur[f->tid] = &uws[k]; lst[f->tid].k = 0; return u_next(a, b); }

static void team_drop(Team* t) { for (auto i = teams.rbegin(); i != teams.rend(); ++i) if (*i == t) { teams.erase(std::next(i).base()); break; } for (auto i = uws.lower_bound({t, 0u}); i != uws.end() && i->first.first == t;) { for (auto& u : ucur) if (u == &i->second) u = nullptr; i = uws.erase(i); } delete t; }
void gomp_reset2() { thr_reset(); for (auto& c : cctx) c.reset(); in_final.assign(MAXT, 0); task_ord = 0; uws.clear(); for (auto& u : ucur) u = nullptr; }
// ---- threads, condition variables and friends used from inside the library
struct Thr { Fiber* f = nullptr; bool done = false, joined = false, detached = false; void* ret = nullptr; u32 vc[MAXT]; std::vector<Fiber*> wait; Thr() { memset(vc, 0, sizeof vc); } };
struct Cv { std::vector<std::pair<Fiber*, bool*>> w; };
struct Rw { int readers = 0; Fiber* wr = nullptr; u32 vc[MAXT]; std::vector<Fiber*> wait; Rw() { memset(vc, 0, sizeof vc); } };
struct Sem { int n = 0; u32 vc[MAXT]; std::vector<Fiber*> wait; Sem() { memset(vc, 0, sizeof vc); } };
struct Bar { unsigned n = 1, k = 0; u64 gen = 0; u32 acc[MAXT], done[MAXT]; std::vector<Fiber*> wait; Bar() { memset(acc, 0, sizeof acc); memset(done, 0, sizeof done); } };
static std::map<u64, Thr*> thrs; static u64 thr_next; static std::vector<Fiber*> thr_idle; static std::map<u64, Cv> cvs; static std::map<u64, Rw> rws; static std::map<u64, Sem> sems; static std::map<u64, Bar> bars;
static const u64 THR0 = 0x7000000;
static void keys_reset(); static void thr_reset() { keys_reset(); for (auto& t : thrs) delete t.second; thrs.clear(); thr_next = 0; thr_idle.clear(); cvs.clear(); rws.clear(); sems.clear(); bars.clear(); }
static std::vector<void (*)(void*)> keys, keys0; static std::vector<void*> spec0;   // keys0: made while the library was loaded
static void keys_reset() { keys = keys0; }
static std::vector<void*>& spec() { return G.active ? me()->spec : spec0; }
static void thr_end_data(Fiber* k) {   // what a thread does on its way out
  while (!k->tdtor.empty()) { auto d = k->tdtor.back(); k->tdtor.pop_back(); d.first(d.second); }
  for (int r = 0; r < 4; r++) for (size_t i = 0; i < k->spec.size(); i++) if (void* v = k->spec[i]) { k->spec[i] = nullptr; if (i < keys.size() && keys[i]) keys[i](v); }
  k->spec.clear(); }
void tls_renew_self();
void sim_thread_renew() {
  Fiber* m = me(); std::vector<Fiber*> w(m->kids), all; while (!w.empty()) { Fiber* k = w.back(); w.pop_back(); if (k->st != F_IDLE) return; all.push_back(k); for (auto c : k->kids) w.push_back(c); }
  int left = 0; bool waiting = false; for (auto k : all) if (!k->tdtor.empty() || !k->spec.empty()) { left++; hb_fork(k); k->body = [k, m, &left, &waiting] { thr_end_data(k); if (!--left && waiting) wake(m); }; fiber_start(k); } hb_tick();
  while (left) { waiting = true; block("its workers' end"); waiting = false; }
  for (auto k : all) { for (size_t i = 0; i < MAXT; i++) m->vc[i] = std::max(m->vc[i], k->vc[i]); tls_fresh(k); k->err = 0; }
  thr_end_data(m); tls_renew_self(); m->nthreads_var = G.env.default_threads; m->dyn = G.env.dyn; m->max_active = 1; step(); }
static void wake_all(std::vector<Fiber*>& v) { auto w = v; v.clear(); for (auto f : w) if (f->st == F_BLOCK) wake(f); }
static void thr_free(Thr* t) { thr_idle.push_back(t->f); G.children--; thrs.erase(t->f->handle); delete t; }
struct ThrExit { void* r; };
static u64 thr_start(std::function<void*()> body) {
  step(); Fiber* m = me(); Fiber* k = nullptr; for (size_t i = 0; i < thr_idle.size(); i++) if (thr_idle[i]->st == F_IDLE && thr_idle[i]->root == m->root) { k = thr_idle[i]; thr_idle.erase(thr_idle.begin() + i); break; }
  if (!k) k = fiber_new(m->root); else { tls_fresh(k); k->nthreads_var = G.env.default_threads; k->max_active = 1; k->dyn = G.env.dyn; }
  u64 h = THR0 + ++thr_next; Thr* t = new Thr(); t->f = k; thrs[h] = t; k->handle = h; k->acct = m->acct; k->team = nullptr; k->level = k->active = 0; k->ws = k->ws1 = 0; hb_fork(k); hb_tick(); G.children++;
  if (k->acct) { k->acct->thr++; k->acct->max = std::max(k->acct->max, k->acct->thr); if (!k->acct->first_step) { k->acct->first_step = G.steps; k->acct->first_ns = sim_mono(); } }
  k->body = [t, k, body] { try { t->ret = body(); } catch (ThrExit& e) { t->ret = e.r; } thr_end_data(k); step(); if (k->acct) k->acct->thr--; k->acct = nullptr; hb_release(t->vc); t->done = true; wake_all(t->wait); if (t->detached) thr_free(t); };
  fiber_start(k); step(); return h;
}
static int thr_join(u64 h, void** r) { step(); auto i = thrs.find(h); if (i == thrs.end()) return ESRCH; Thr* t = i->second; if (t->joined || t->detached) return EINVAL; if (t->f == me()) return EDEADLK; while (!t->done) { t->wait.push_back(me()); block("another thread's end"); } t->joined = true; hb_acquire(t->vc); if (r) *r = t->ret; thr_free(t); return 0; }
static int thr_detach(u64 h) { step(); auto i = thrs.find(h); if (i == thrs.end() || i->second->joined || i->second->detached) return EINVAL; i->second->detached = true; if (i->second->done) thr_free(i->second); return 0; }
static const char* const COND = "a condition";
static void cv_wait(void* c, void* m) { bool sig = false; cvs[(u64)c].w.push_back({me(), &sig}); unlock(m); while (!sig) block(COND); lock(m, false); }
static void cv_signal(void* c, bool all) { step(); auto& w = cvs[(u64)c].w; while (!w.empty()) { auto x = w.front(); w.erase(w.begin()); *x.second = true; if (x.first->st == F_BLOCK && x.first->why == COND) wake(x.first); if (!all) break; } }
static int rw_lock(void* p, bool wr, bool tryit) { if (!G.active) return 0; step(); Rw& r = rws[(u64)p]; if (r.wr == me()) return EDEADLK; while (r.wr || (wr && r.readers)) { if (tryit) return EBUSY; r.wait.push_back(me()); block("a read-write lock"); } if (wr) r.wr = me(); else r.readers++; hb_acquire(r.vc); sync_point(); return 0; }
static int rw_unlock(void* p) { if (!G.active) return 0; Rw& r = rws[(u64)p]; hb_release(r.vc); if (r.wr == me()) r.wr = nullptr; else if (r.readers) r.readers--; wake_all(r.wait); sync_point(); step(); return 0; }
static int sem_dec(void* p, bool tryit) { step(); Sem& s = sems[(u64)p]; while (!s.n) { if (tryit) { errno = EAGAIN; return -1; } s.wait.push_back(me()); block("a semaphore"); } s.n--; hb_acquire(s.vc); sync_point(); return 0; }
static void tg_start() { step(); auto c = ctx(); auto g = std::make_shared<Group>(); g->up = c->grp; c->grp = g; }
static void tg_end() { auto c = ctx(); auto g = c->grp; if (!g) return; task_wait(nullptr, g.get()); c->grp = g->up; }
template <class T> static void taskloop(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, unsigned fl, unsigned long nt, T s, T e, T inc, bool up) {
  if (fl & 4096) end_run(Outcome::UNSUPPORTED, 0, "task reductions"); T dec = (T)0 - inc; ull n = up ? (s < e ? ((ull)(e - s) + (ull)inc - 1) / (ull)inc : 0) : s > e ? ((ull)(s - e) + (ull)dec - 1) / (ull)dec : 0; if (!n) return;
  ull k = fl & 512 ? std::max<ull>(1, n / std::max<ull>(1, nt)) : nt ? nt : me()->team ? me()->team->n : 1; k = std::min<ull>(std::min(k, n), 4096); if (!(fl & 2048)) tg_start();
  for (ull i = 0; i < k; i++) { ull lo = n / k * i + std::min(i, n % k), hi = lo + n / k + (i < n % k); std::vector<char> b(sz + al + 1); char* p = (char*)(((u64)b.data() + al - 1) / al * al); if (cpy) cpy(p, d); else memcpy(p, d, sz); ((T*)p)[0] = s + (T)lo * inc; ((T*)p)[1] = i + 1 == k ? e : s + (T)hi * inc; task_new([fn, p] { fn(p); }, std::move(b), fl & 1024, fl & 2, nullptr); }
  if (!(fl & 2048)) tg_end(); }
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* d, unsigned n, unsigned) { par(fn, d, n, nullptr, nullptr); }
unsigned GOMP_parallel_reductions(void (*)(void*), void*, unsigned, unsigned) { end_run(Outcome::UNSUPPORTED, 0, "task reductions"); }
#define PL(nm, kind) void GOMP_parallel_loop_##nm(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c, kind); }
PL(static, K_STATIC) PL(dynamic, K_DYN) PL(guided, K_GUIDED) PL(nonmonotonic_dynamic, K_DYN) PL(nonmonotonic_guided, K_GUIDED)
#define PR(nm) void GOMP_parallel_loop_##nm(void (*fn)(void*), void* d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, rt_chunk, rt_kind == 1 ? K_STATIC : rt_kind == 3 ? K_GUIDED : K_DYN); }
PR(runtime) PR(nonmonotonic_runtime) PR(maybe_nonmonotonic_runtime)
#define LS(nm, kind) bool GOMP_loop_##nm##_start(long s, long e, long i, long c, long* a, long* b) { return loop_start(s, e, i, c, kind, a, b); } bool GOMP_loop_##nm##_next(long* a, long* b) { return loop_next(a, b); }
LS(static, K_STATIC) LS(dynamic, K_DYN) LS(guided, K_GUIDED) LS(nonmonotonic_dynamic, K_DYN) LS(nonmonotonic_guided, K_GUIDED)
#define LR(nm) bool GOMP_loop_##nm##_start(long s, long e, long i, long* a, long* b) { return loop_start(s, e, i, rt_kind == 1 ? 0 : rt_chunk, rt_kind == 1 ? K_STATIC : rt_kind == 3 ? K_GUIDED : K_DYN, a, b); } bool GOMP_loop_##nm##_next(long* a, long* b) { return loop_next(a, b); }
LR(runtime) LR(nonmonotonic_runtime) LR(maybe_nonmonotonic_runtime)
#define LU(nm, kind) bool GOMP_loop_ull_##nm##_start(bool up, ull s, ull e, ull i, ull c, ull* a, ull* b) { return u_start(up, s, e, i, c, kind, a, b); } bool GOMP_loop_ull_##nm##_next(ull* a, ull* b) { return u_next(a, b); }
LU(static, K_STATIC) LU(dynamic, K_DYN) LU(guided, K_GUIDED) LU(nonmonotonic_dynamic, K_DYN) LU(nonmonotonic_guided, K_GUIDED)
#define LUR(nm) bool GOMP_loop_ull_##nm##_start(bool up, ull s, ull e, ull i, ull* a, ull* b) { return u_start(up, s, e, i, 1, K_DYN, a, b); } bool GOMP_loop_ull_##nm##_next(ull* a, ull* b) { return u_next(a, b); }
LUR(runtime) LUR(nonmonotonic_runtime) LUR(maybe_nonmonotonic_runtime)
void GOMP_loop_end() { loop_end(true); } void GOMP_loop_end_nowait() { loop_end(false); } bool GOMP_loop_end_cancel() { loop_end(true); return false; }
unsigned GOMP_sections_start(unsigned n) { long a, b; cur_ws(1, (long)n + 1, 1, 1, K_DYN); return ws_next(lst[me()->tid].w, &a, &b) ? a : 0; }
unsigned GOMP_sections_next() { long a, b; return loop_next(&a, &b) ? a : 0; }
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned c, unsigned) { par_loop(fn, d, nt, 1, (long)c + 1, 1, 1, K_DYN); }
void GOMP_sections_end() { loop_end(true); } void GOMP_sections_end_nowait() { loop_end(false); } bool GOMP_sections_end_cancel() { loop_end(true); return false; }
bool GOMP_single_start() { step(); Fiber* f = me(); Team* t = solo(); unsigned id = f->ws1++; auto& w = t->single[id]; if (!w) { w = new_ws(t->n, 0, 0, 1, 1, 0); } if (w->claimed) return false; w->claimed = true; return true; }
void* GOMP_single_copy_start() { step(); Fiber* f = me(); Team* t = solo(); unsigned id = f->ws1++; auto& w = t->single[id]; if (!w) w = new_ws(t->n, 0, 0, 1, 1, 0); if (!w->claimed) { w->claimed = true; return nullptr; } WS* x = w; while (!x->ready) { x->waiters.push_back(f); block("single copyprivate"); } hb_acquire(x->vc); return x->copy; }
void GOMP_single_copy_end(void* d) { Fiber* f = me(); Team* t = solo(); WS* w = t->single[f->ws1 - 1]; hb_release(w->vc); w->copy = d; w->ready = true; for (auto x : w->waiters) if (x->st == F_BLOCK) wake(x); barrier(); }
void GOMP_barrier() { barrier(); } bool GOMP_barrier_cancel() { barrier(); return false; } bool GOMP_cancel(int, bool) { return false; } bool GOMP_cancellation_point(int) { return false; }
void GOMP_critical_start() { lock(&critg, false); } void GOMP_critical_end() { unlock(&critg); }
void GOMP_critical_name_start(void** p) { lock(p, false); } void GOMP_critical_name_end(void** p) { unlock(p); }
void GOMP_atomic_start() { lock(&atomg, false); } void GOMP_atomic_end() { unlock(&atomg); }
void GOMP_task(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, bool iff, unsigned fl, void** dep, int, void*) {
  if (!iff && !cpy && !(fl & 8)) { task_new([fn, d] { fn(d); }, {}, false, fl & 2, nullptr); return; }
  std::vector<char> b(sz + al + 1); char* p = (char*)(((u64)b.data() + al - 1) / al * al); if (cpy) cpy(p, d); else memcpy(p, d, sz); task_new([fn, p] { fn(p); }, std::move(b), iff, fl & 2, fl & 8 ? dep : nullptr); }
void GOMP_taskwait() { task_wait(ctx().get(), nullptr); } void GOMP_taskyield() { step(); Team* t = me()->team; if (t && (G.env.team_seed & 1)) task_any(t, ctx().get(), nullptr); }
void GOMP_taskgroup_start() { tg_start(); } void GOMP_taskgroup_end() { tg_end(); } void GOMP_taskwait_depend(void**) { task_wait(ctx().get(), nullptr); }
void GOMP_taskgroup_reduction_register(void*) { end_run(Outcome::UNSUPPORTED, 0, "task reductions"); } void GOMP_task_reduction_remap(size_t, size_t, void**) { end_run(Outcome::UNSUPPORTED, 0, "task reductions"); } 
void GOMP_taskloop(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, unsigned fl, unsigned long nt, int, long s, long e, long inc) { taskloop<long>(fn, d, cpy, sz, al, fl, nt, s, e, inc, inc > 0); }
void GOMP_taskloop_ull(void (*fn)(void*), void* d, void (*cpy)(void*, void*), long sz, long al, unsigned fl, unsigned long nt, int, ull s, ull e, ull inc) { taskloop<ull>(fn, d, cpy, sz, al, fl, nt, s, e, inc, fl & 256); }
void GOMP_ordered_start() { end_run(Outcome::UNSUPPORTED, 0, "ordered"); } void GOMP_ordered_end() {}
// ---- omp_*
int omp_get_thread_num() { return G.active ? me()->team_tid : 0; } int omp_get_num_threads() { return G.active && me()->team ? me()->team->n : 1; }
int omp_get_max_threads() { return G.active ? me()->nthreads_var : G.env.default_threads; } void omp_set_num_threads(int n) { if (G.active) { step(); me()->nthreads_var = n < 1 ? 1 : n; } }
int omp_get_num_procs() { return G.env.nprocs; } int omp_in_parallel() { return G.active && me()->active > 0; } void omp_set_dynamic(int d) { if (G.active) me()->dyn = d; } int omp_get_dynamic() { return G.active && me()->dyn; }
void omp_set_nested(int n) { if (G.active) me()->max_active = n ? 100 : 1; } int omp_get_nested() { return G.active && me()->max_active > 1; } void omp_set_schedule(int k, int c) { rt_kind = k & 0xff; rt_chunk = c; } void omp_get_schedule(int* k, int* c) { *k = rt_kind; *c = rt_chunk; }
int omp_get_thread_limit() { return G.env.team_mode == 1 ? G.env.team_limit : 0x7fffffff; } void omp_set_max_active_levels(int n) { if (G.active) me()->max_active = n; } int omp_get_max_active_levels() { return G.active ? me()->max_active : 1; } int omp_get_supported_active_levels() { return 255; }
int omp_get_level() { return G.active ? me()->level : 0; } int omp_get_active_level() { return G.active ? me()->active : 0; } int omp_get_ancestor_thread_num(int l) { return G.active && l == me()->level ? me()->team_tid : l == 0 ? 0 : -1; } int omp_get_team_size(int l) { return G.active && l == me()->level && me()->team ? me()->team->n : l == 0 ? 1 : -1; }
int omp_get_place_num() { return -1; } int omp_get_partition_num_places() { return 0; } int omp_get_default_device() { return 0; } int omp_get_initial_device() { return 0; } int omp_get_place_num_procs(int) { return 0; } int omp_get_max_task_priority() { return 0; } void omp_display_env(int) {}
int omp_in_final() { return in_final[me()->tid]; } double omp_get_wtime() { step(); return sim_mono() * 1e-9; } double omp_get_wtick() { return 1e-9; } int omp_get_proc_bind() { return 0; } int omp_get_num_places() { return 0; } int omp_get_cancellation() { return 0; } int omp_get_num_teams() { return 1; } int omp_get_team_num() { return 0; } int omp_get_num_devices() { return 0; } int omp_is_initial_device() { return 1; }
void omp_init_lock(void*) {} void omp_destroy_lock(void*) {} void omp_set_lock(void* p) { lock(p, false); } void omp_unset_lock(void* p) { unlock(p); } int omp_test_lock(void* p) { return trylock(p, false); }
void omp_init_nest_lock(void*) {} void omp_destroy_nest_lock(void*) {} void omp_set_nest_lock(void* p) { lock(p, true); } void omp_unset_nest_lock(void* p) { unlock(p); } int omp_test_nest_lock(void* p) { return trylock(p, true); } void omp_init_lock_with_hint(void*, int) {} void omp_init_nest_lock_with_hint(void*, int) {}
// ---- pthread and C++ once-initialisation used from inside the library
int __wrap_pthread_mutex_init(void*, void*) { return 0; } int __wrap_pthread_mutex_destroy(void*) { return 0; } int __wrap_pthread_mutex_lock(void* p) { lock(p, false); return 0; } int __wrap_pthread_mutex_unlock(void* p) { unlock(p); return 0; } int __wrap_pthread_mutex_trylock(void* p) { return trylock(p, false) ? 0 : EBUSY; }
int __wrap___cxa_thread_atexit(void (*f)(void*), void* o, void*) { if (G.active) me()->tdtor.push_back({f, o}); return 0; }
int __wrap_pthread_key_create(unsigned* k, void (*f)(void*)) { *k = keys.size(); keys.push_back(f); if (!G.active) keys0 = keys; return 0; } int __wrap_pthread_key_delete(unsigned k) { if (k < keys.size()) keys[k] = nullptr; return 0; }
void* __wrap_pthread_getspecific(unsigned k) { auto& v = spec(); return k < v.size() ? v[k] : nullptr; } int __wrap_pthread_setspecific(unsigned k, const void* x) { auto& v = spec(); if (v.size() <= k) v.resize(k + 1); v[k] = (void*)x; return 0; }
int __wrap_pthread_mutex_timedlock(void* p, void*) { if (trylock(p, false)) return 0; __wrap_sched_yield(); return trylock(p, false) ? 0 : ETIMEDOUT; } int __wrap_pthread_mutex_clocklock(void* p, int, void*) { return __wrap_pthread_mutex_timedlock(p, nullptr); }
int __wrap_sem_timedwait(void* p, void*) { if (!sem_dec(p, true)) return 0; __wrap_sched_yield(); if (!sem_dec(p, true)) return 0; errno = ETIMEDOUT; return -1; }
void __wrap_pthread_exit(void* r) { if (!me()->handle) end_run(Outcome::UNSUPPORTED, 0, "pthread_exit outside a thread of the library"); throw ThrExit{r}; }
int __wrap_pthread_once(int* o, void (*f)()) { lock(o, true); if (!*o) { f(); *o = 2; } unlock(o); return 0; }
int __wrap___cxa_guard_acquire(char* g) { lock(g, true); if (*g) { unlock(g); return 0; } return 1; } void __wrap___cxa_guard_release(char* g) { *g = 1; sync_publish(g); unlock(g); } void __wrap___cxa_guard_abort(char* g) { unlock(g); }
unsigned long __wrap_pthread_self() { return G.active ? me()->handle ? me()->handle : 0x1000 + me()->tid : 0; }
int vf_pthread_create(u64* h, const void*, void* (*fn)(void*), void* arg) { u64 x = thr_start([fn, arg] { return fn(arg); }); *h = x; return 0; }
int __wrap_pthread_join(u64 h, void** r) { return thr_join(h, r); } int __wrap_pthread_detach(u64 h) { return thr_detach(h); }
void __wrap__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(u64* th, void** st, void*) { void* s = *st; *st = nullptr; *th = thr_start([s]() -> void* { void** vt = *(void***)s; ((void (*)(void*))vt[2])(s); ((void (*)(void*))vt[1])(s); return nullptr; }); }
void __wrap__ZNSt6thread4joinEv(u64* th) { if (thr_join(*th, nullptr)) end_run(Outcome::ABORT, 134, "std::thread::join of a thread that is not joinable"); *th = 0; }
void __wrap__ZNSt6thread6detachEv(u64* th) { if (thr_detach(*th)) end_run(Outcome::ABORT, 134, "std::thread::detach of a thread that is not joinable"); *th = 0; }
unsigned __wrap__ZNSt6thread20hardware_concurrencyEv() { return G.env.nprocs; }
int __wrap_pthread_cond_init(void*, void*) { return 0; } int __wrap_pthread_cond_destroy(void*) { return 0; } int __wrap_pthread_cond_wait(void* c, void* m) { cv_wait(c, m); return 0; }
int __wrap_pthread_cond_timedwait(void*, void* m, void*) { unlock(m); __wrap_sched_yield(); lock(m, false); return ETIMEDOUT; } int __wrap_pthread_cond_clockwait(void*, void* m, int, void*) { unlock(m); __wrap_sched_yield(); lock(m, false); return ETIMEDOUT; }
int __wrap_pthread_cond_signal(void* c) { cv_signal(c, false); return 0; } int __wrap_pthread_cond_broadcast(void* c) { cv_signal(c, true); return 0; }
void __wrap__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, void** ul) { cv_wait(c, *ul); } void __wrap__ZNSt18condition_variable10notify_oneEv(void* c) { cv_signal(c, false); } void __wrap__ZNSt18condition_variable10notify_allEv(void* c) { cv_signal(c, true); }
int __wrap_pthread_rwlock_init(void*, void*) { return 0; } int __wrap_pthread_rwlock_destroy(void*) { return 0; } int __wrap_pthread_rwlock_rdlock(void* p) { return rw_lock(p, false, false); } int __wrap_pthread_rwlock_wrlock(void* p) { return rw_lock(p, true, false); } int __wrap_pthread_rwlock_tryrdlock(void* p) { return rw_lock(p, false, true); } int __wrap_pthread_rwlock_trywrlock(void* p) { return rw_lock(p, true, true); } int __wrap_pthread_rwlock_unlock(void* p) { return rw_unlock(p); }
int __wrap_pthread_spin_init(void*, int) { return 0; } int __wrap_pthread_spin_destroy(void*) { return 0; } int __wrap_pthread_spin_lock(void* p) { lock(p, false); return 0; } int __wrap_pthread_spin_trylock(void* p) { return trylock(p, false) ? 0 : EBUSY; } int __wrap_pthread_spin_unlock(void* p) { unlock(p); return 0; }
int __wrap_sem_init(void* p, int, unsigned n) { sems[(u64)p] = Sem(); sems[(u64)p].n = n; return 0; } int __wrap_sem_destroy(void*) { return 0; } int __wrap_sem_wait(void* p) { return sem_dec(p, false); } int __wrap_sem_trywait(void* p) { return sem_dec(p, true); } int __wrap_sem_post(void* p) { step(); Sem& s = sems[(u64)p]; hb_release(s.vc); s.n++; wake_all(s.wait); return 0; }
int __wrap_pthread_barrier_init(void* p, void*, unsigned n) { bars[(u64)p] = Bar(); bars[(u64)p].n = n; return 0; } int __wrap_pthread_barrier_destroy(void*) { return 0; }
int __wrap_pthread_barrier_wait(void* p) { step(); Bar& b = bars[(u64)p]; hb_release(b.acc); if (++b.k == b.n) { memcpy(b.done, b.acc, sizeof b.done); memset(b.acc, 0, sizeof b.acc); b.k = 0; b.gen++; wake_all(b.wait); hb_acquire(b.done); return -1; } u64 g = b.gen; while (b.gen == g) { b.wait.push_back(me()); block("a pthread barrier"); } hb_acquire(b.done); return 0; }
bool __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE(void*, unsigned*, unsigned, bool, long, long) { __wrap_sched_yield(); return true; } void __wrap__ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj(unsigned*) { step(); }
}