// Calls the functions src/linear.cpp registers, as the interpreter would: under its lock, with handles of its own.
#include <torch/extension.h>
#include <pthread.h>
void sim_pybind_init(pybind11::module_& m) __attribute__((weak));
static pthread_mutex_t gil = PTHREAD_MUTEX_INITIALIZER;
extern "C" void sim_gil(int take) { if (take) pthread_mutex_lock(&gil); else pthread_mutex_unlock(&gil); }
using at::Tensor; typedef std::vector<int64_t> V;
static float& at2(const Tensor& t, int64_t i, int64_t j) { return ((float*)t.data_ptr())[i * t.stride(0) + j * t.stride(1)]; }
// 0 dense, 1 transposed storage, 2 rows of a wider matrix, 3 an offset into a longer buffer, 4 columns of a wider transposed one, 5 every other column, 6 one row expanded, 7 one number expanded
static Tensor mk(const float* d, int64_t r, int64_t c, int layout) {
  Tensor t; switch (layout) {
    case 1: t = at::empty(V{c, r}).t(); break;
    case 2: t = at::full(V{r, c + 3}, 7e29).narrow(1, 1, c); break;
    case 3: t = at::full(V{r + 2, c}, 7e29).narrow(0, 1, r); break;
    case 4: t = at::full(V{c, r + 3}, 7e29).narrow(1, 1, r).t(); break;
    case 5: t = at::full(V{r, 2 * c}, 7e29).slice(1, 0, 2 * c, 2); break;
    case 6: t = at::empty(V{1, c}).expand(V{r, c}); break;
    case 7: t = at::empty(V{1, 1}).expand(V{r, c}); break;
    default: t = at::empty(V{r, c}); }
  for (int64_t i = 0; i < r; i++) for (int64_t j = 0; j < c; j++) at2(t, i, j) = d[i * c + j]; return t; }
static bool same(const Tensor& t, const float* d, int64_t r, int64_t c, bool vec = false) { if (!t.defined() || t.sizes().vec() != (vec ? V{c} : V{r, c})) return false; for (int64_t i = 0; i < r; i++) for (int64_t j = 0; j < c; j++) { float f = vec ? ((float*)t.data_ptr())[j * t.stride(0)] : at2(t, i, j); if (memcmp(&f, d + i * c + j, 4)) return false; } return true; }
extern "C" {
// flags: input layout | weight layout << 3 | gradient layout << 6 | bias layout << 9 | kind of the cache-size tensor (int32, int64, every other element, an offset) << 11.  Returns 0, or 1 threw, 2 changed an argument, 3 wrong number or shape of results, 4 no such function
int g_lin(int bwd, int M, int N, int K, const float* x, const float* w, const float* b, const float* go, int fl, int L2, int L3, void** h) {
  std::vector<Tensor>* out; try { *h = out = new std::vector<Tensor>(); } catch (const std::exception& e) { return 1; } int rc = 0;
  sim_gil(1);
  try { pybind11::module_ m; sim_pybind_init(m); auto it = m.fn.find(bwd ? "backward" : "forward");
    if (it == m.fn.end()) rc = 4; else {
      int ck = fl >> 11 & 3; at::TensorOptions ct(ck == 1 || ck == 2 ? at::kLong : at::kInt); Tensor cs = ck == 2 ? at::full(V{4}, 7, ct).slice(0, 0, 4, 2) : ck == 3 ? at::full(V{3}, 7, ct).narrow(0, 1, 2) : at::empty(V{2}, ct); cs.setd({0}, L2); cs.setd({1}, L3); Tensor tx = mk(x, M, K, fl & 7), tw = mk(w, N, K, fl >> 3 & 7), tg, tb; if (b) { int bl = fl >> 9 & 3; tb = bl == 1 ? at::full(V{2 * N}, 7e29).slice(0, 0, 2 * N, 2) : bl == 2 ? at::full(V{N + 2}, 7e29).narrow(0, 1, N) : bl == 3 ? at::empty(V{1}).expand(V{N}) : at::empty(V{N}); for (int j = 0; j < N; j++) ((float*)tb.data_ptr())[j * tb.stride(0)] = b[j]; } if (bwd) tg = mk(go, M, N, fl >> 6 & 7);
      { std::vector<Tensor> a; a.push_back(cs); if (bwd) a.push_back(tg); a.push_back(tx); a.push_back(tw); a.push_back(tb); *out = it->second(a); }
      if (!rc && !(same(tx, x, M, K) && same(tw, w, N, K) && (!b || same(tb, b, 1, N, true)) && (!bwd || same(tg, go, M, N)) && cs.sizes().vec() == V{2} && (int)cs.getd({0}) == L2 && (int)cs.getd({1}) == L3)) rc = 2;
      if (!rc) { if (!bwd) { if (out->size() != 1 || !(*out)[0].defined() || (*out)[0].sizes().vec() != V{M, N}) rc = 3; } else { if (out->size() != 3 || !(*out)[0].defined() || !(*out)[1].defined() || (*out)[0].sizes().vec() != V{M, K} || (*out)[1].sizes().vec() != V{N, K} || (*out)[2].defined() != (b != nullptr) || (b && (*out)[2].sizes().vec() != V{N})) rc = 3; } for (auto& t : *out) if (t.defined() && t.scalar_type() != at::kFloat) rc = 3; }
      // the interpreter may reuse what it passed at once
      tx.fill_(3e30); tw.fill_(3e30); if (b) tb.fill_(3e30); if (bwd) tg.fill_(3e30); } } catch (const std::exception& e) { rc = 1; }
  sim_gil(0); return rc; }
// reads the results (before it lets go of them); n floats at most
long g_lin_read(void* h, float* to, long n) { std::vector<Tensor>* o = (std::vector<Tensor>*)h; long k = 0; for (auto& t : *o) if (t.defined()) { Tensor c = t.contiguous(); float* p = (float*)c.data_ptr(); for (long i = 0, e = c.numel(); i < e && k < n; i++) to[k++] = p[i]; } return k; }
void g_lin_free(void* h) { sim_gil(1); delete (std::vector<Tensor>*)h; sim_gil(0); }
}
