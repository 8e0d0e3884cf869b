// Entry points of the library with fixed names.  Not instrumented, no logic.
#include "cake.h"
// exported without a declaration in a header
double pack_A_single_buf_k_first_blis(float*, float*, int, int, int, blk_dims_t*, cake_cntx_t*) __attribute__((weak)); void pack_B_k_first_blis(float*, float*, int, int, blk_dims_t*, cake_cntx_t*) __attribute__((weak));
void transpose(float* At, float* A, int M, int K) __attribute__((weak)); void rand_gaussian(float* mat, int r, int c) __attribute__((weak));
extern "C" {
// libgcc.a brings a __wrap_pthread_create of its own (split stacks): this definition comes first
int vf_pthread_create(unsigned long*, const void*, void* (*)(void*), void*); int __wrap_pthread_create(unsigned long* h, const void* a, void* (*f)(void*), void* x) { return vf_pthread_create(h, a, f, x); }
int g_sizeof_ctx() { return sizeof(cake_cntx_t); } int g_sizeof_dims() { return sizeof(blk_dims_t); }
void* g_query() { return cake_query_cntx(); } void* g_query_torch(int a, int b) { return cake_query_cntx_torch(a, b); } void g_free(void* p) { free(p); }
void g_set(void* c, int L1, int L2, int L3, int v_nc, int v_mr, int v_nr) { cake_cntx_t* x = (cake_cntx_t*)c; if (L1 > 0) x->L1 = L1; if (L2 > 0) x->L2 = L2; if (L3 > 0) x->L3 = L3; if (v_nc > 0) x->ncores = v_nc; if (v_mr > 0) update_mr_nr(x, v_mr, v_nr); }
void g_get(void* c, int* o, double* d) { cake_cntx_t* x = (cake_cntx_t*)c; o[0] = x->L1; o[1] = x->L2; o[2] = x->L3; o[3] = x->ncores; o[4] = x->mr; o[5] = x->nr; o[6] = x->m_map; o[7] = x->n_map; d[0] = x->alpha_n; d[1] = x->peak_dram_bw; d[2] = x->peak_flops; }
double g_gemm(int e, float* A, float* B, float* C, int M, int N, int K, int p, void* c, int v_pa, int v_pb, float v_al, float v_be, int sch, int v_mc, int v_kc, int v_nc) {
  cake_cntx_t* x = (cake_cntx_t*)c; enum sched s = (enum sched)sch;
  if (e == 1) return cake_sgemm_2d(A, B, C, M, N, K, p, x, NULL, v_pa, v_pb, v_al, v_be, s, v_mc, v_kc, v_nc);
  if (e == 2) return cake_sgemm_online(A, B, C, M, N, K, p, x, NULL, v_pa, v_pb, v_al, v_be, s, v_mc, v_kc, v_nc);
  return cake_sgemm(A, B, C, M, N, K, p, x, NULL, v_pa, v_pb, v_al, v_be, s, v_mc, v_kc, v_nc); }
void* g_dims(int M, int N, int K, int p, void* c, int sch, int v_mc, int v_kc, int v_nc, int* so) { blk_dims_t* x = (blk_dims_t*)malloc(sizeof(blk_dims_t)); init_block_dims(M, N, K, p, x, (cake_cntx_t*)c, (enum sched)sch, NULL, 4, v_mc, v_kc, v_nc); *so = x->sch; return x; }
size_t g_asize(int M, int K, int p, void* x, void* c, int s) { return cake_sgemm_packed_A_size(M, K, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s); }
size_t g_bsize(int K, int N, int p, void* x, void* c) { return cake_sgemm_packed_B_size(K, N, p, (blk_dims_t*)x, (cake_cntx_t*)c); }
void g_packa(float* A, float* P, int M, int K, int p, void* x, void* c, int s) { omp_set_num_threads(p); pack_A(A, P, M, K, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s); }
void g_packb(float* B, float* P, int K, int N, int p, void* x, void* c, int s) { omp_set_num_threads(p); pack_B(B, P, K, N, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s); }
void g_packab(float* A, float* P, int M, int K, int p, void* x, void* c, int s) { if (s != KMN || !pack_A_single_buf_k_first_blis) return g_packa(A, P, M, K, p, x, c, s); omp_set_num_threads(p); pack_A_single_buf_k_first_blis(A, P, M, K, p, (blk_dims_t*)x, (cake_cntx_t*)c); }
void g_packbb(float* B, float* P, int K, int N, int p, void* x, void* c, int s) { if (s != KMN || !pack_B_k_first_blis) return g_packb(B, P, K, N, p, x, c, s); omp_set_num_threads(p); pack_B_k_first_blis(B, P, K, N, (blk_dims_t*)x, (cake_cntx_t*)c); }
size_t g_csize(int M, int N, int p, void* x, void* c, int s) { return cake_sgemm_packed_C_size(M, N, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s); }
void g_packc(float* C, float* P, int M, int N, int p, void* x, void* c, int s) { omp_set_num_threads(p); pack_C(C, P, M, N, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s); }
void g_unpackc(float* C, float* P, int M, int N, int p, void* x, void* c, int s, float v_al, float v_be) { omp_set_num_threads(p); unpack_C(C, P, M, N, p, (blk_dims_t*)x, (cake_cntx_t*)c, (enum sched)s, v_al, v_be); }
void g_transpose(float* A, float* T, int K, int N, int Kt, int Nt) { if (Kt == -1 && transpose) transpose(T, A, K, N); else transpose_mat(A, T, K, N, Kt, Nt); }
int g_check(float* A, float* B, float* C, int N, int M, int K) { return cake_sgemm_checker(A, B, C, N, M, K); }
int g_mateq(float* C, float* R, int M, int N) { return mat_equals(C, R, M, N); }
void g_rand(int v_kind, float* C, int M, int N) { if (v_kind == 0) rand_init(C, M, N); else if (v_kind == 3 && rand_gaussian) rand_gaussian(C, M, N); else for (long i = 0; i < (long)M * N; i++) C[i] = v_kind != 2 ? normalRandom() : rand_gen(); }
int g_addcheck(float** C, float* S, int M, int N, int p) { return add_checker(C, S, M, N, p); }
}
