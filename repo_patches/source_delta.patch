From 2431f8cd9e496f3ec6b7b2b4a60db2aebe03169e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 01/22] fix: pad partial edge tiles in the 2d and online
 schedules instead of reading past A and B

---
 src/cake_sgemm_k_first.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..4d5b64d 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -377,6 +377,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
+			      		if(n1 + n2 + n_r > N) {
+			      			// partial tile at the right edge of B, zero padded
+			      			pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], 
+			      				K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      			continue;
+			      		}
+
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
 			      	}
@@ -388,6 +395,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
+						if(m1 + m3 + m_r > M) {
+							// partial tile at the bottom edge of A, zero padded
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], 
+								M, K, m1, m3, m_r, k_c_t, m_r, 1);
+							continue;
+						}
+
 						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
 							&A_p[m3*k_c_t], m_r);
 					}     
@@ -729,6 +743,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
+			      		if(n1 + n2 + n_r > N) {
+			      			// partial tile at the right edge of B, zero padded
+			      			pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], 
+			      				K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			      			continue;
+			      		}
+
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
 			      	}
@@ -758,6 +779,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
+							if(m1 + core*m_c_x + m3 + m_r > M) {
+								// partial tile at the bottom edge of A, zero padded
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+								continue;
+							}
+
 							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
 								&A_p[core][m3*k_c_t], m_r);
 						}     
-- 
2.43.0


From e3752d52723fbe65aafced7c6623cd9a0abe76fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 02/22] fix: pad the last column block of B in the M-first and
 N-first packing

---
 src/pack_m_first.cpp | 5 +----
 src/pack_n_first.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..c8ed66a 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,20 +122,17 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..af3267d 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,20 +122,17 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
-- 
2.43.0


From 7accd085c06e61f97573f2db397768962ca482d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 03/22] fix: keep the A offset private to each worker of the
 online schedule

---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 4d5b64d..37e628f 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -661,7 +661,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 	int m, k, n, m_start, m_end, m_inc, k_start, k_end, k_inc;
 	int m_cb, n_c_t, p_used, core;
 
-	int m1, n1, n2, A_offset = 0, C_offset = 0;
+	int m1, n1, n2, C_offset = 0;
 
 	float kappa = 1.0;
 	int lda = 1;
@@ -771,7 +771,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
+					int A_offset = m*p*m_c*K + k*k_c;
 
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
-- 
2.43.0


From 78cca161cf8cbb02a7189e9556106bb953fbb6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 04/22] fix: pack C at the offset the N-first schedule and
 unpacking use

---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index af3267d..848a19c 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -199,7 +199,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From 57ae95d6f46154f6460757c06296d5267a55e33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:55 +0000
Subject: [PATCH 05/22] fix: confine transpose edge tiles to their own 8x8 tile

---
 src/transpose.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..63cc892 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -14,11 +14,11 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 
 		#pragma omp parallel for
 		for(int n = 0; n < N; n+=nt) { 
-			for(int nn = n; nn < n + nt; nn+=nr) { 
-				for(int kk = k; kk < k + kt; kk+=kr) { 
+			for(int nn = n; nn < cake_min(n + nt, N); nn+=nr) { 
+				for(int kk = k; kk < cake_min(k + kt, K); kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 55ddec533288b0add58fe08eea1dbaea5128da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 06/22] fix: do not write the caller's context while sizing
 blocks

---
 src/block_sizing.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..6fa196b 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -306,6 +306,11 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 			char* argv[], float type_size, int mcu, int kcu, int ncu) {
 
 	int mc, mc_ret, nc_ret, a, mc_L2 = 0, mc_L3 = 0, kc_L1 = 0;
+
+	// the caller's context may be shared between threads, so alpha is set in a local copy
+	cake_cntx_t cntx = *cake_cntx;
+	cake_cntx = &cntx;
+
 	int max_threads = cake_cntx->ncores; // 2-way hyperthreaded
 	// int mn_lcm = lcm(mr, nr);
 	int mr = cake_cntx->mr;
@@ -669,7 +674,6 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		k_c = kcu;
 		k_c1 = K % k_c;
 		n_c = ncu;
-		cake_cntx->alpha_n = 1.0;
 	} else {
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
-- 
2.43.0


From b0bacfef86143c32440d82c4103e9b84089737b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 07/22] fix: choose the 2d processing grid for any thread count
 and core count

---
 src/block_sizing.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 6fa196b..d095cca 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -605,7 +605,7 @@ void init_block_dims(int M, int N, int K, int p,
 
 int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
-	int pn, low, high, pn_ret;
+	int pn, low = 0, high = p - 1, pn_ret;
 	
 	// optimal pn
 	pn = (int) roundf(sqrt(((double) p*N) / M));
@@ -613,21 +613,21 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find factor of p that is closest to optimal pn (the static table of factors
+	// only covers thread counts up to the number of cores it was created for)
+	if(p % pn == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i + 1) == 0) {
 				high = i;
 				break;
 			}
 		}
 
 		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i + 1) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From aebdcce8cf9e6b7d48136b36a039097f76bbeeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 08/22] fix: use the kernel of the context's register tile in
 the 2d schedule

---
 include/kernel_wrapper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..c7a5edd 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -31,10 +31,8 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 	bli_sgemm_haswell_asm_6x16(m_r, n_r, k_c_t, &alpha_blis, A_p, B_p, &beta_blis, C_p, 
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
-#elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
-#elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+#elif defined(USE_CAKE_HASWELL) || defined(USE_CAKE_ARMV8)
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From aae31ece761ee0a6114140b2ae0b09bf93106020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 09/22] fix: time calls on the steady clock

---
 src/cake_sgemm.cpp   | 82 ++++++++++++++++++++++----------------------
 src/pack_k_first.cpp |  8 ++---
 src/pack_m_first.cpp |  4 +--
 src/pack_n_first.cpp |  4 +--
 4 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..b87f500 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -29,7 +29,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float *A_p, *B_p;
 
 
-	clock_gettime(CLOCK_REALTIME, &start1);
+	clock_gettime(CLOCK_MONOTONIC, &start1);
 	// init_block_dims(M, N, K, p, x, cake_cntx, sch, argv);
 	init_block_dims(M, N, K, p, x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
 	sch = x->sch;
@@ -43,7 +43,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		A_p = A;
 	} else {
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 		A_sz = cake_sgemm_packed_A_size(M, K, p, x, cake_cntx, sch);
 		if(posix_memalign((void**) &A_p, 64, A_sz)) {
@@ -53,7 +53,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		pack_A(A, A_p, M, K, p, x, cake_cntx, sch);
 
-		clock_gettime(CLOCK_REALTIME, &end);
+		clock_gettime(CLOCK_MONOTONIC, &end);
 		seconds = end.tv_sec - start.tv_sec;
 		nanoseconds = end.tv_nsec - start.tv_nsec;
 		diff_t = seconds + nanoseconds*1e-9;
@@ -64,7 +64,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		B_p = B;
 	} else {
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 	    B_sz = cake_sgemm_packed_B_size(K, N, p, x, cake_cntx);
 		if(posix_memalign((void**) &B_p, 64, B_sz)) {
@@ -74,7 +74,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		pack_B(B, B_p, K, N, p, x, cake_cntx, sch);
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
@@ -92,11 +92,11 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 			C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 		}
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 		schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x); 
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
@@ -113,7 +113,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		// otherwise just allocate an empty C_p buffer
 		if(beta != 0) {
 
-			clock_gettime(CLOCK_REALTIME, &start);
+			clock_gettime(CLOCK_MONOTONIC, &start);
 
 		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
 			if(posix_memalign((void**) &C_p, 64, C_sz)) {
@@ -123,7 +123,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 			pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
 
-		    clock_gettime(CLOCK_REALTIME, &end);
+		    clock_gettime(CLOCK_MONOTONIC, &end);
 		    seconds = end.tv_sec - start.tv_sec;
 		    nanoseconds = end.tv_nsec - start.tv_nsec;
 		    diff_t = seconds + nanoseconds*1e-9;
@@ -136,22 +136,22 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 		}
 
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 		schedule(A_p, B_p, C_p, M, N, K, p, cake_cntx, x, sch, 0, 0);
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
 		if(DEBUG) printf("GEMM time: %f \n", diff_t); 	// exit(1);
 
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 		unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
@@ -161,7 +161,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-    clock_gettime(CLOCK_REALTIME, &end1);
+    clock_gettime(CLOCK_MONOTONIC, &end1);
     seconds = end1.tv_sec - start1.tv_sec;
     nanoseconds = end1.tv_nsec - start1.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -224,11 +224,11 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
-	clock_gettime(CLOCK_REALTIME, &start);
+	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
 
-    clock_gettime(CLOCK_REALTIME, &end);
+    clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
     nanoseconds = end.tv_nsec - start.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -295,11 +295,11 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
-	clock_gettime(CLOCK_REALTIME, &start);
+	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	schedule_KMN_2d_small(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
 
-    clock_gettime(CLOCK_REALTIME, &end);
+    clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
     nanoseconds = end.tv_nsec - start.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -342,7 +342,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 // 	sch = KMN;
 
-// 	clock_gettime(CLOCK_REALTIME, &start1);
+// 	clock_gettime(CLOCK_MONOTONIC, &start1);
 
 // 	init_block_dims_2d(M, N, K, p, x, cake_cntx, sch, argv);
 // 	sch = x->sch;
@@ -370,11 +370,11 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 // 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 // 	}
 	
-// 	clock_gettime(CLOCK_REALTIME, &start);
+// 	clock_gettime(CLOCK_MONOTONIC, &start);
 
 // 	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
 
-//     clock_gettime(CLOCK_REALTIME, &end);
+//     clock_gettime(CLOCK_MONOTONIC, &end);
 //     seconds = end.tv_sec - start.tv_sec;
 //     nanoseconds = end.tv_nsec - start.tv_nsec;
 //     diff_t = seconds + nanoseconds*1e-9;
@@ -444,11 +444,11 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 	
-	clock_gettime(CLOCK_REALTIME, &start);
+	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	schedule_KMN_online(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
 
-    clock_gettime(CLOCK_REALTIME, &end);
+    clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
     nanoseconds = end.tv_nsec - start.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -492,7 +492,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	float *A_p, *B_p, *C_p;
 
 
-	clock_gettime(CLOCK_REALTIME, &start1);
+	clock_gettime(CLOCK_MONOTONIC, &start1);
 
 	init_block_dims(M, N, K, p, x, cake_cntx, sch, argv);
 	sch = x->sch;
@@ -505,7 +505,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 		A_p = A;
 	} else {
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 		A_sz = cake_sgemm_packed_A_size(M, K, p, x, cake_cntx, sch);
 		if(posix_memalign((void**) &A_p, 64, A_sz)) {
@@ -515,7 +515,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		pack_A_single_buf_k_first_blis(A, A_p, M, K, p, x, cake_cntx);
 
-		clock_gettime(CLOCK_REALTIME, &end);
+		clock_gettime(CLOCK_MONOTONIC, &end);
 		seconds = end.tv_sec - start.tv_sec;
 		nanoseconds = end.tv_nsec - start.tv_nsec;
 		diff_t = seconds + nanoseconds*1e-9;
@@ -526,7 +526,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 		B_p = B;
 	} else {
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 	    B_sz = cake_sgemm_packed_B_size(K, N, p, x, cake_cntx);
 		if(posix_memalign((void**) &B_p, 64, B_sz)) {
@@ -536,7 +536,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		pack_B_k_first_blis(B, B_p, K, N, x, cake_cntx);
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
@@ -548,7 +548,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	// otherwise just allocate an empty C_p buffer
 	if(beta != 0) {
 
-		clock_gettime(CLOCK_REALTIME, &start);
+		clock_gettime(CLOCK_MONOTONIC, &start);
 
 	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
 		if(posix_memalign((void**) &C_p, 64, C_sz)) {
@@ -558,7 +558,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
 
-	    clock_gettime(CLOCK_REALTIME, &end);
+	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
 	    nanoseconds = end.tv_nsec - start.tv_nsec;
 	    diff_t = seconds + nanoseconds*1e-9;
@@ -569,12 +569,12 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	    C_p = (float*) calloc(C_sz, sizeof(float));
 	}
 
-	clock_gettime(CLOCK_REALTIME, &start);
+	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	// schedule_KMN_C_unpacked(A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
 	schedule(A_p, B_p, C_p, M, N, K, p, cake_cntx, x, sch, 0, 0);
 
-    clock_gettime(CLOCK_REALTIME, &end);
+    clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
     nanoseconds = end.tv_nsec - start.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -582,18 +582,18 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	times = diff_t;
 
-	clock_gettime(CLOCK_REALTIME, &start);
+	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
     // cake_sgemm_checker(A, B, C_p, N, M, K);
 
-    clock_gettime(CLOCK_REALTIME, &end);
+    clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
     nanoseconds = end.tv_nsec - start.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
 	if(DEBUG) printf("unpacking time: %f \n", diff_t); 	// exit(1);
 
-    clock_gettime(CLOCK_REALTIME, &end1);
+    clock_gettime(CLOCK_MONOTONIC, &end1);
     seconds = end1.tv_sec - start1.tv_sec;
     nanoseconds = end1.tv_nsec - start1.tv_nsec;
     diff_t = seconds + nanoseconds*1e-9;
@@ -642,7 +642,7 @@ bool cake_gemm_small(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	// sch = NKM;
 	// 	// init_block_dims(M, N, K, p, x, cake_cntx, sch,  argv);
 
-	// 	// clock_gettime(CLOCK_REALTIME, &start);
+	// 	// clock_gettime(CLOCK_MONOTONIC, &start);
 
 	// 	// A_sz = cake_sgemm_packed_A_size(M, K, p, x, cake_cntx, sch);
 	// 	// if(posix_memalign((void**) &A_p, 64, A_sz)) {
@@ -651,7 +651,7 @@ bool cake_gemm_small(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	// }
 	// 	// pack_A(A, A_p, M, K, p, x, cake_cntx, sch);
 
-	// 	// clock_gettime(CLOCK_REALTIME, &end);
+	// 	// clock_gettime(CLOCK_MONOTONIC, &end);
 	// 	// seconds = end.tv_sec - start.tv_sec;
 	// 	// nanoseconds = end.tv_nsec - start.tv_nsec;
 	// 	// diff_t = seconds + nanoseconds*1e-9;
@@ -666,7 +666,7 @@ bool cake_gemm_small(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	sch = MKN;
 	// 	init_block_dims(M, N, K, p, x, cake_cntx, sch,  argv);
 
-	// 	clock_gettime(CLOCK_REALTIME, &start);
+	// 	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	//     B_sz = cake_sgemm_packed_B_size(K, N, p, x, cake_cntx);
 	// 	if(posix_memalign((void**) &B_p, 64, B_sz)) {
@@ -676,7 +676,7 @@ bool cake_gemm_small(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	// 	pack_B(B, B_p, K, N, p, x, cake_cntx, sch);
 
-	//     clock_gettime(CLOCK_REALTIME, &end);
+	//     clock_gettime(CLOCK_MONOTONIC, &end);
 	//     seconds = end.tv_sec - start.tv_sec;
 	//     nanoseconds = end.tv_nsec - start.tv_nsec;
 	//     diff_t = seconds + nanoseconds*1e-9;
@@ -695,11 +695,11 @@ bool cake_gemm_small(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	// 	schedule_KMN_small(A, B, C_p, M, N, K, p, cake_cntx, x);
 
-	// 	clock_gettime(CLOCK_REALTIME, &start);
+	// 	clock_gettime(CLOCK_MONOTONIC, &start);
 
 	// 	unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
 
-	//     clock_gettime(CLOCK_REALTIME, &end);
+	//     clock_gettime(CLOCK_MONOTONIC, &end);
 	//     seconds = end.tv_sec - start.tv_sec;
 	//     nanoseconds = end.tv_nsec - start.tv_nsec;
 	//     diff_t = seconds + nanoseconds*1e-9;
diff --git a/src/pack_k_first.cpp b/src/pack_k_first.cpp
index f7fbd96..5e8ad0c 100644
--- a/src/pack_k_first.cpp
+++ b/src/pack_k_first.cpp
@@ -22,7 +22,7 @@ double pack_A_single_buf_k_first(float* A, float* A_p, int M, int K, int p, blk_
    int m, k, A_offset = 0, A_p_offset = 0;
    int m_cb, k_c_t, p_used, core;
 
-   clock_gettime(CLOCK_REALTIME, &start);
+   clock_gettime(CLOCK_MONOTONIC, &start);
 
    for(m = 0; m < Mb; m++) {
 
@@ -67,7 +67,7 @@ double pack_A_single_buf_k_first(float* A, float* A_p, int M, int K, int p, blk_
       }
    }
 
-     clock_gettime(CLOCK_REALTIME, &end);
+     clock_gettime(CLOCK_MONOTONIC, &end);
      long seconds = end.tv_sec - start.tv_sec;
      long nanoseconds = end.tv_nsec - start.tv_nsec;
      diff_t = seconds + nanoseconds*1e-9;
@@ -112,7 +112,7 @@ double pack_A_single_buf_k_first_blis(float* A, float* A_p, int M, int K, int p,
    int m, k, A_offset = 0, A_p_offset = 0;
    int m_cb, k_c_t, p_used, core;
 
-   clock_gettime(CLOCK_REALTIME, &start);
+   clock_gettime(CLOCK_MONOTONIC, &start);
 
    for(m = 0; m < Mb; m++) {
 
@@ -172,7 +172,7 @@ double pack_A_single_buf_k_first_blis(float* A, float* A_p, int M, int K, int p,
       }
    }
 
-     clock_gettime(CLOCK_REALTIME, &end);
+     clock_gettime(CLOCK_MONOTONIC, &end);
      long seconds = end.tv_sec - start.tv_sec;
      long nanoseconds = end.tv_nsec - start.tv_nsec;
      diff_t = seconds + nanoseconds*1e-9;
diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index c8ed66a..66d7eb2 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -20,7 +20,7 @@ double pack_A_single_buf_m_first(float* A, float* A_p, int M, int K, int p, blk_
 
    struct timespec start, end;
    double diff_t;
-   clock_gettime(CLOCK_REALTIME, &start);
+   clock_gettime(CLOCK_MONOTONIC, &start);
 
    int m, k, A_offset = 0, A_p_offset = 0;
    int k_cb, m_c_t, p_used, core;
@@ -69,7 +69,7 @@ double pack_A_single_buf_m_first(float* A, float* A_p, int M, int K, int p, blk_
       }
    }
 
-     clock_gettime(CLOCK_REALTIME, &end);
+     clock_gettime(CLOCK_MONOTONIC, &end);
      long seconds = end.tv_sec - start.tv_sec;
      long nanoseconds = end.tv_nsec - start.tv_nsec;
      diff_t = seconds + nanoseconds*1e-9;
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 848a19c..4585424 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -20,7 +20,7 @@ double pack_A_single_buf_n_first(float* A, float* A_p, int M, int K, int p, blk_
 
    struct timespec start, end;
    double diff_t;
-   clock_gettime(CLOCK_REALTIME, &start);
+   clock_gettime(CLOCK_MONOTONIC, &start);
 
    int m, k, A_offset = 0, A_p_offset = 0;
    int k_cb, m_c_t, p_used, core;
@@ -70,7 +70,7 @@ double pack_A_single_buf_n_first(float* A, float* A_p, int M, int K, int p, blk_
       }
    }
 
-     clock_gettime(CLOCK_REALTIME, &end);
+     clock_gettime(CLOCK_MONOTONIC, &end);
      long seconds = end.tv_sec - start.tv_sec;
      long nanoseconds = end.tv_nsec - start.tv_nsec;
      diff_t = seconds + nanoseconds*1e-9;
-- 
2.43.0


From 3ecee83739f4c8009c1665c59ff99a1d8c20ff72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 10/22] fix: release the context a GEMM call queried for itself

---
 src/cake_sgemm.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index b87f500..30a59a8 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,8 +11,11 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -170,6 +173,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return diff_t;
 }
@@ -181,8 +185,11 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -242,6 +249,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -254,8 +262,11 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	cake_cntx_t* own_cntx = NULL;
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -313,6 +324,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -399,8 +411,11 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -463,6 +478,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -474,8 +490,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	cake_cntx_t* own_cntx = NULL;
+
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -603,6 +622,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	free(own_cntx);
 
 
 	return times;
-- 
2.43.0


From a77fceb3ef28303518a33e0fde6dfa485b49efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 11/22] fix: end with an error when an allocation fails instead
 of using the missing buffer

---
 src/block_sizing.cpp | 12 +++++++++++
 src/cake_sgemm.cpp   | 49 ++++++++++++++++++++++++++++++++++++++++++++
 src/util.cpp         |  8 ++++++++
 3 files changed, 69 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index d095cca..c21eb32 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -10,6 +10,10 @@ double clamp_val(double d, double min, double max) {
 cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    if(ret == NULL) {
+    	printf("malloc error\n");
+    	exit(1);
+    }
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
  
@@ -40,6 +44,10 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 cake_cntx_t* cake_query_cntx() {
 
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+    if(ret == NULL) {
+    	printf("malloc error\n");
+    	exit(1);
+    }
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
 	ret->L1 = get_cache_size(1);
@@ -357,6 +365,10 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	}
 
     cache_dims_t* blk_ret = (cache_dims_t*) malloc(sizeof(cache_dims_t));
+    if(blk_ret == NULL) {
+    	printf("malloc error\n");
+    	exit(1);
+    }
 
 	// set schedule to MEMA-derived optimal value or user-defined
 	blk_ret->sch = (sch == NA ? 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 30a59a8..e842d19 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -19,6 +19,11 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -93,6 +98,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		for(int i = 0; i < p; i++) {
 			C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+			if(C_p[i] == NULL) {
+				printf("calloc error\n");
+				exit(1);
+			}
 		}
 
 		clock_gettime(CLOCK_MONOTONIC, &start);
@@ -136,6 +145,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
 		    C_p = (float*) calloc(C_sz, sizeof(float));
+		    if(C_p == NULL) {
+		    	printf("calloc error\n");
+		    	exit(1);
+		    }
 		}
 
 
@@ -193,6 +206,11 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -229,6 +247,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_MONOTONIC, &start);
@@ -270,6 +292,11 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -304,6 +331,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_MONOTONIC, &start);
@@ -419,6 +450,11 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -457,6 +493,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_MONOTONIC, &start);
@@ -498,6 +538,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
+
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -586,6 +631,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
 	    C_p = (float*) calloc(C_sz, sizeof(float));
+	    if(C_p == NULL) {
+	    	printf("calloc error\n");
+	    	exit(1);
+	    }
 	}
 
 	clock_gettime(CLOCK_MONOTONIC, &start);
diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..0bad9f1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -173,6 +173,10 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
 	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	if(C_check == NULL) {
+		printf("calloc error\n");
+		exit(1);
+	}
 
 	for(int k = 0; k < K; k++) {
 		#pragma omp parallel for
@@ -207,6 +211,10 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
 	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	if(C_check == NULL) {
+		printf("calloc error\n");
+		exit(1);
+	}
 
 	for(int c = 0; c < p; c++) {
 		for(int i = 0; i < M*N; i++) {
-- 
2.43.0


From 2b3b04ac1b64e1ce7c0984bc377661d558bdf611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 12/22] fix: close every pipe opened to query the hardware

---
 src/block_sizing.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index c21eb32..77f147e 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -113,7 +113,8 @@ int get_num_physical_cores() {
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
 	}
-	
+
+	pclose(fp);
 
 	char ret2[16];
 	char command2[128];
@@ -129,7 +130,8 @@ int get_num_physical_cores() {
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
 	}
-	
+
+	pclose(fp);
 
 	char ret3[16];
 	char command3[128];
@@ -278,7 +280,10 @@ int get_cache_size(int level) {
 		exit(1);
 	}
 
-	if(fgets(ret, sizeof(ret), fp) == NULL) {
+	bool found = (fgets(ret, sizeof(ret), fp) != NULL);
+	pclose(fp);
+
+	if(!found) {
 		printf("lscpu error\n");
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
 		if(level == 2) {
-- 
2.43.0


From 992675429cf20fc846f85a0b0ab8b8c3252247dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 13/22] fix: survive missing, fractional and gigabyte answers
 while querying the hardware

---
 src/block_sizing.cpp | 48 ++++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 77f147e..2a09fc5 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -112,6 +112,7 @@ int get_num_physical_cores() {
 
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
+		ret1[0] = '\0';
 	}
 
 	pclose(fp);
@@ -129,6 +130,7 @@ int get_num_physical_cores() {
 
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
+		ret2[0] = '\0';
 	}
 
 	pclose(fp);
@@ -146,10 +148,15 @@ int get_num_physical_cores() {
 
 	if(fgets(ret3, sizeof(ret3), fp) == NULL) {
 		printf("lscpu error\n");
+		ret3[0] = '\0';
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+
+	// missing or unusable counts are taken as 1
+	double procs = cake_max(1, atoi(ret1));
+	double threads = cake_max(1, atoi(ret2)), sockets = cake_max(1, atoi(ret3));
+	return cake_max(1, (int) (procs / (threads*sockets)));
 }
 
 
@@ -157,10 +164,11 @@ int get_num_physical_cores() {
 // find cache size at levels L1d,L1i,L2,and L3 using lscpu
 int get_cache_size(int level) {
 
-	int model_id, len, size = 0;
+	int model_id, len;
+	double size = 0;
 	FILE *fp;
-	char ret[16];
-	char command[128];
+	char ret[32];
+	char command[256];
 
 	sprintf(command, "lscpu | grep Model \
 					| head -1 \
@@ -174,6 +182,7 @@ int get_cache_size(int level) {
 
 	if(fgets(ret, sizeof(ret), fp) == NULL) {
 		printf("lscpu error\n");
+		ret[0] = '\0';
 	}
 	
 	pclose(fp);
@@ -264,13 +273,13 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
@@ -283,31 +292,30 @@ int get_cache_size(int level) {
 	bool found = (fgets(ret, sizeof(ret), fp) != NULL);
 	pclose(fp);
 
-	if(!found) {
-		printf("lscpu error\n");
-		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
-			return (32 * (1 << 10));
-		} else if(level == 3) {
-			return (512 * (1 << 10));
-		}
-	}
+	if(!found) ret[0] = '\0';
 
-	len = strlen(ret) - 1;
+	len = cake_max(1, strlen(ret)) - 1;
 
 	// set cache size variables
 	if(ret[len] == 'K') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 10);
+		size = atof(ret) * (1 << 10);
 	} else if(ret[len] == 'M') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 20);
+		size = atof(ret) * (1 << 20);
 	} else if(ret[len] == 'G') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		size = atof(ret) * (1 << 30);
+	}
+
+	if(!(size >= 1)) {
+		printf("lscpu error\n");
+		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
+		size = (level == 3) ? (512 * (1 << 10)) : (32 * (1 << 10));
 	}
 
-	return size;
+	// largest size that an int holds
+	return (int) clamp_val(size, 1, (1u << 31) - 1);
 }
 
 
-- 
2.43.0


From c755193ac45fe32239f9399f2c9719c225394082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 14/22] fix: complete the context made from explicit cache
 sizes

---
 src/block_sizing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 2a09fc5..d5bf83b 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -26,15 +26,17 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
-    ret->mr = 6;
-    ret->nr = 16;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
-    ret->mr = 8;
-    ret->nr = 12;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 #endif
 
+	ret->L1 = get_cache_size(1);
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
 	ret->L2 = L2;
 	ret->L3 = L3;
 	return ret;
-- 
2.43.0


From eb1cc95c7656d67d77f3ef2578ba6046119088bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 15/22] fix: keep block sizes positive on very small caches

---
 src/block_sizing.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index d5bf83b..a99cba2 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -347,6 +347,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	mc_L2 = (int)  ((-b + sqrt(b*b + 4*(((double) cake_cntx->L2) / (2*type_size)))) / 2.0) ;
 	// mc_L2 -= (mc_L2 % mn_lcm);
 	mc_L2 -= (mc_L2 % mr);
+	mc_L2 = (mc_L2 < mr) ? mr : mc_L2;
 	// printf("mc_L2 = %d\n", mc_L2);
 
 
@@ -357,6 +358,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	mc_L3 = (int) sqrt((((double) cake_cntx->L3) / (2*type_size))  
 			/ (max_threads * (1 + 1.0 + 1.0*max_threads)));
 	mc_L3 -= (mc_L3 % mr);
+	mc_L3 = (mc_L3 < 0) ? 0 : mc_L3;
 	// printf("mc_L3 = %d\n", mc_L3);
 
 	// if mc_L3 is too small, reduce alpha. likewise if mc_L2 is too small, increase alpha
@@ -693,6 +695,7 @@ void init_block_dims_2d(int M, int N, int K, int p,
 
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
+	kc_max = (kc_max < 1) ? 1 : kc_max;
 
 
 	if(mcu && ncu && kcu) {
@@ -705,6 +708,7 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
 		m_c -= (m_c % m_r);
+		m_c = (m_c < m_r) ? m_r : m_c;
 		k_c = kc_max;
 		k_c1 = K % k_c;
 	}
-- 
2.43.0


From 1ca771f168b5c9d893552c36a0440a147181328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:44 +0000
Subject: [PATCH 16/22] fix: report NaN results as wrong in the checkers

---
 src/util.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0bad9f1..e7e320f 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -136,6 +136,17 @@ int run_tests() {
 }
 
 
+// NaN is never within the tolerance of a number, equal infinities are
+static bool differs(float ref, float val, float eps) {
+
+	if(ref == val || (ref != ref && val != val)) {
+		return 0;
+	}
+
+	return !(fabs(ref - val) <= eps);
+}
+
+
 bool mat_equals(float* C, float* C_check, int M, int N) {
 
     int CORRECT = 1;
@@ -146,7 +157,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(differs(C_check[ind1], C[ind1], eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -229,7 +240,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(differs(C_check[ind1], C[ind1], eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 15828a8af15e1ef323ab7f7bf398e07c35bb93a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:16 +0000
Subject: [PATCH 17/22] fix: make the processing-grid generation repeatable and
 crash safe

---
 python/grid_gen.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/python/grid_gen.py b/python/grid_gen.py
index d8dfac3..32d62f8 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -1,3 +1,5 @@
+import os
+import re
 import subprocess
 import sys
 from functools import reduce
@@ -35,11 +37,17 @@ static bool grid_dims[%d][%d] = \n{\n''' % (len(factor_list), p)
 	table = list(reversed(table))
 	for i in range(len(factor_list)):
 		ret += '\t{' + ','.join(map(str,table[i])) + '},\n'
-	f = open("include/tiling.h", 'r+')
-	content = f.read()
-	f.seek(0)
-	f.write(ret[:-1] + '''
+	with open("include/tiling.h", 'r') as f:
+		content = f.read()
+	# drop the table of an earlier run, and replace the file in one step so that
+	# an interrupted run leaves it as it was
+	content = re.sub(r'\A(?:\n#include "common.h"\n\nstatic bool grid_dims[^;]*;\n\n)+', '', content)
+	with open("include/tiling.h.tmp", 'w') as f:
+		f.write(ret[:-1] + '''
 };\n\n''' + content)
+		f.flush()
+		os.fsync(f.fileno())
+	os.replace("include/tiling.h.tmp", "include/tiling.h")
 
 
 
-- 
2.43.0


From c2c942f79517718f90e8c5fdf4b63a1400aaff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:34 +0000
Subject: [PATCH 18/22] fix: apply alpha and beta in every schedule

---
 include/cake.h             |  6 ++---
 include/packing.h          | 14 +++++++-----
 src/cake_sgemm.cpp         | 45 ++++++++++----------------------------
 src/cake_sgemm_k_first.cpp | 12 +++++-----
 src/pack_helper.cpp        |  9 ++++----
 src/pack_ob.cpp            |  6 +++--
 src/unpack_k_first.cpp     |  5 +++--
 src/unpack_m_first.cpp     |  5 +++--
 src/unpack_n_first.cpp     |  5 +++--
 9 files changed, 48 insertions(+), 59 deletions(-)

diff --git a/include/cake.h b/include/cake.h
index 695ee52..51427a4 100644
--- a/include/cake.h
+++ b/include/cake.h
@@ -15,7 +15,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 void schedule(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x, enum sched sch, bool sparse, bool small);
 void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) ;
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 void schedule_MKN(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x);
 void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
@@ -24,11 +24,11 @@ void schedule_NKM(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p
 
 
 void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x);
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 void schedule_KMN_C_unpacked(float* A_p, float* B_p, float* C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x);
 void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x);
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha = 1, float beta = 0);
 void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, blk_dims_t* x);
 
diff --git a/include/packing.h b/include/packing.h
index 1434d90..892ace6 100644
--- a/include/packing.h
+++ b/include/packing.h
@@ -10,7 +10,8 @@ void pack_B(float* B, float* B_p, int K, int N, int p,
 double pack_A(float* A, float* A_p, int M, int K, int p, 
 	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) ;
 void unpack_C(float* C, float* C_p, int M, int N, int p, 
-	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) ;
+	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch,
+	float alpha = 1, float beta = 0) ;
 
 
 void pack_test1(float* A, float* A_p, int M, int K, int p, cake_cntx_t* cake_cntx);
@@ -54,13 +55,16 @@ void pack_ob_A_parallel(float* A, float* A_p, int M, int K, int m1,
 
 // unpacking
 void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
-				int m_c, int n_c, int m_r, int n_r);
+				int m_c, int n_c, int m_r, int n_r, float alpha = 1, float beta = 0);
 void unpack_ob_C_multiple_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
 				int m_c, int n_c, int m_r, int n_r);
 
-void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
-void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
-void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx);
+void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+	float alpha = 1, float beta = 0);
+void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+	float alpha = 1, float beta = 0);
+void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+	float alpha = 1, float beta = 0);
 void unpack_C_rsc(float* C, float** C_p, int M, int N, int m_c, int n_c, int n_r, int m_r, int p, int alpha_n);
 void unpack_C_old(float* C, float** C_p, int M, int N, int m_c, int n_c, int n_r, int m_r, int p);
 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e842d19..42f3bd1 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -106,7 +106,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		clock_gettime(CLOCK_MONOTONIC, &start);
 
-		schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x); 
+		schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x, alpha, beta); 
 
 	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
@@ -121,35 +121,14 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 
 		float *C_p;
-		// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-		// otherwise just allocate an empty C_p buffer
-		if(beta != 0) {
-
-			clock_gettime(CLOCK_MONOTONIC, &start);
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-			if(posix_memalign((void**) &C_p, 64, C_sz)) {
-				printf("posix memalign error\n");
-				exit(1);
-			}
-
-			pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-		    clock_gettime(CLOCK_MONOTONIC, &end);
-		    seconds = end.tv_sec - start.tv_sec;
-		    nanoseconds = end.tv_nsec - start.tv_nsec;
-		    diff_t = seconds + nanoseconds*1e-9;
-			if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-		} else {
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		    C_p = (float*) calloc(C_sz, sizeof(float));
-		    if(C_p == NULL) {
-		    	printf("calloc error\n");
-		    	exit(1);
-		    }
-		}
+		// C = alpha*A*B + beta*C. alpha and beta are applied when unpacking, 
+		// so the product is formed in an empty C_p buffer
+	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
+	    C_p = (float*) calloc(C_sz, sizeof(float));
+	    if(C_p == NULL) {
+	    	printf("calloc error\n");
+	    	exit(1);
+	    }
 
 
 		clock_gettime(CLOCK_MONOTONIC, &start);
@@ -165,7 +144,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		clock_gettime(CLOCK_MONOTONIC, &start);
 
-		unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
+		unpack_C(C, C_p, M, N, p, x, cake_cntx, sch, alpha, beta); 
 
 	    clock_gettime(CLOCK_MONOTONIC, &end);
 	    seconds = end.tv_sec - start.tv_sec;
@@ -255,7 +234,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	
 	clock_gettime(CLOCK_MONOTONIC, &start);
 
-	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
+	schedule_KMN_2d(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x, alpha, beta);
 
     clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -501,7 +480,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	
 	clock_gettime(CLOCK_MONOTONIC, &start);
 
-	schedule_KMN_online(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
+	schedule_KMN_online(A, B, C, A_p, B_p, C_p, M, N, K, p, cake_cntx, x, alpha, beta);
 
     clock_gettime(CLOCK_MONOTONIC, &end);
     seconds = end.tv_sec - start.tv_sec;
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 37e628f..f90c9f2 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -7,7 +7,7 @@
 
 
 void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -144,7 +144,7 @@ void schedule_KMN(float* A_p, float* B_p, float* C, float** C_p, int M, int N, i
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
-					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				memset(C_p[core], 0, m_c * n_c * sizeof(float));
 			}
@@ -277,7 +277,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 
 
 void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -488,7 +488,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + (core / p_used_n)*m_c_x*N + (core % p_used_n)*n_c_x], C_p[core], 
-					M, N, m1, n1 + (core % p_used_n)*n_c_x, (core / p_used_n)*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1 + (core % p_used_n)*n_c_x, (core / p_used_n)*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				// unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
 				// 	M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
@@ -645,7 +645,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 
 
 void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p, float** C_p, int M, int N, int K, int p, 
-	cake_cntx_t* cake_cntx, blk_dims_t* x) {
+	cake_cntx_t* cake_cntx, blk_dims_t* x, float alpha, float beta) {
 
 	// copy over block dims to local vars to avoid readibility ussiues with x->
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -832,7 +832,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 				}
 
 				unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], C_p[core], 
-					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+					M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
 
 				memset(C_p[core], 0, m_c * n_c * sizeof(float));
 			}
diff --git a/src/pack_helper.cpp b/src/pack_helper.cpp
index b7b728e..fb695f4 100644
--- a/src/pack_helper.cpp
+++ b/src/pack_helper.cpp
@@ -161,19 +161,20 @@ double pack_A(float* A, float* A_p, int M, int K, int p,
 
 
 void unpack_C(float* C, float* C_p, int M, int N, int p, 
-	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch) {
+	blk_dims_t* x, cake_cntx_t* cake_cntx, enum sched sch,
+	float alpha, float beta) {
 
 	switch(sch) {
 		case KMN: {
-			unpack_C_single_buf_k_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_k_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		case MKN: {
-			unpack_C_single_buf_m_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_m_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		case NKM: {
-			unpack_C_single_buf_n_first(C, C_p, M, N, p, x, cake_cntx); 
+			unpack_C_single_buf_n_first(C, C_p, M, N, p, x, cake_cntx, alpha, beta); 
 			break;
 		}
 		default: {
diff --git a/src/pack_ob.cpp b/src/pack_ob.cpp
index 20976ba..0ff50f2 100644
--- a/src/pack_ob.cpp
+++ b/src/pack_ob.cpp
@@ -391,7 +391,7 @@ void unpack_ob_C_multiple_buf(float* C, float* C_p, int M, int N, int m1, int n1
 // write to correct row row_inds[m1 + m2 + m3 + i]
 
 void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1, int m2,
-            int m_c, int n_c, int m_r, int n_r) {
+            int m_c, int n_c, int m_r, int n_r, float alpha, float beta) {
 
    int ind2 = 0;
 
@@ -401,7 +401,9 @@ void unpack_ob_C_single_buf(float* C, float* C_p, int M, int N, int m1, int n1,
             for(int j = 0; j < n_r; j++) {
                if((n1 + n2 + j) < N  &&  (m1 + m2 + m3 + i) <  M) {
                   // C[n1 + m1*N + m2*N + n2 + m3*N + i*N + j] = C_p[ind2];
-                  C[n2 + m3*N + i*N + j] = C_p[ind2];
+                  float* c = &C[n2 + m3*N + i*N + j];
+                  // C is not read when beta is 0
+                  *c = (beta != 0) ? alpha*C_p[ind2] + beta*(*c) : alpha*C_p[ind2];
                }
                ind2++;
             }
diff --git a/src/unpack_k_first.cpp b/src/unpack_k_first.cpp
index 372047a..8672dae 100644
--- a/src/unpack_k_first.cpp
+++ b/src/unpack_k_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -58,7 +59,7 @@ void unpack_C_single_buf_k_first(float* C, float* C_p, int M, int N, int p, blk_
             }
 
             unpack_ob_C_single_buf(&C[C_offset + core*m_c_x*N], &C_p[C_p_offset + core*m_c_x*n_c_t], 
-               M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r);
+               M, N, m1, n1, core*m_c_x, m_c_t, n_c_t, m_r, n_r, alpha, beta);
          }
 
          C_p_offset += m_cb*n_c_t;
diff --git a/src/unpack_m_first.cpp b/src/unpack_m_first.cpp
index 20051c6..24b4d1b 100644
--- a/src/unpack_m_first.cpp
+++ b/src/unpack_m_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -43,7 +44,7 @@ void unpack_C_single_buf_m_first(float* C, float* C_p, int M, int N, int p, blk_
          C_offset = m*m_c*N + n*n_c;
 
          unpack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + m*m_c*n_c_t], 
-            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r);
+            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, alpha, beta);
       }
    }
 }
diff --git a/src/unpack_n_first.cpp b/src/unpack_n_first.cpp
index ae38f5a..0b16c60 100644
--- a/src/unpack_n_first.cpp
+++ b/src/unpack_n_first.cpp
@@ -2,7 +2,8 @@
   
 
 
-void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx) {
+void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_dims_t* x, cake_cntx_t* cake_cntx,
+   float alpha, float beta) {
 
    // copy over block dims to local vars to avoid readibility ussiues with x->
    int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
@@ -43,7 +44,7 @@ void unpack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_
          C_offset = m*p*m_c*N + n*n_c;
 
          unpack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
-            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r);
+            M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, alpha, beta);
       }
    }
 }
-- 
2.43.0


From 6d177e0baa4f077297385d8cf0ca83ef05bd3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:01 +0000
Subject: [PATCH 19/22] fix: fail the install when a generated file cannot be
 written

---
 install.sh           | 10 +++++-----
 python/kernel_gen.py | 16 +++++++++-------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/install.sh b/install.sh
index eb3827c..a114ef1 100755
--- a/install.sh
+++ b/install.sh
@@ -8,14 +8,14 @@
 
 if uname -m | grep -q 'aarch64'; 
 then
-   python3 python/kernel_gen.py armv8 10 24 dense
-   mv dense.cpp src/kernels/armv8
+   python3 python/kernel_gen.py armv8 10 24 dense || exit 1
+   mv dense.cpp src/kernels/armv8 || exit 1
 else
-   python3 python/kernel_gen.py haswell 8 32 dense
-   mv dense.cpp src/kernels/haswell
+   python3 python/kernel_gen.py haswell 8 32 dense || exit 1
+   mv dense.cpp src/kernels/haswell || exit 1
 fi
 
-python3 python/grid_gen.py
+python3 python/grid_gen.py || exit 1
 
 
 
diff --git a/python/kernel_gen.py b/python/kernel_gen.py
index 2fa4681..c26b251 100644
--- a/python/kernel_gen.py
+++ b/python/kernel_gen.py
@@ -462,7 +462,8 @@ static cake_sgemm_%s* kernel_map[%d][%d] =
 	''' % (arch, len(mrs), len(nrs))
 	ret += ','.join(dense_arr) + '''
 };'''
-	open("include/kernels.h", 'w').write(ret)
+	with open("include/kernels.h", 'w') as f:
+		f.write(ret)
 
 
 
@@ -518,7 +519,8 @@ static rosko_sgemm_new_%s* kernel_map_sp_new[%d][%d] =
 	''' % (arch, len(mrs), len(nrs))
 	ret += ','.join(sparse_arr_new) + '''
 };'''
-	open("include/rosko_kernels.h", 'w').write(ret)
+	with open("include/rosko_kernels.h", 'w') as f:
+		f.write(ret)
 
 
 
@@ -564,9 +566,9 @@ def gen_all_kernels(arch, m_lim, n_lim, mode):
 			for j in range(sn, n_lim + 1, fact_n):
 					ret1 += gen_kernel(arch_class, i, j, mode, 0)
 					ret1a += gen_kernel(arch_class, i, j, mode, 1)
-		f1 = open("sparse.cpp", 'w')
-		f1.write(ret1)
-		f1.write(ret1a)
+		with open("sparse.cpp", 'w') as f1:
+			f1.write(ret1)
+			f1.write(ret1a)
 	elif mode == 'dense':
 		ret2 = '''
 #include "kernels.h"
@@ -574,8 +576,8 @@ def gen_all_kernels(arch, m_lim, n_lim, mode):
 		for i in range(sm, m_lim + 1, fact_m):
 			for j in range(sn, n_lim + 1, fact_n):
 				ret2 += gen_kernel(arch_class, i, j, mode, 0)
-		f2 = open("dense.cpp", 'w')
-		f2.write(ret2)
+		with open("dense.cpp", 'w') as f2:
+			f2.write(ret2)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From f6d0b5a532d87aeb2e9f68cc89517ea471cb8c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:32 +0000
Subject: [PATCH 20/22] fix: linear_backward summed the transposed gradient's
 elements in the wrong order for grad_bias

---
 src/linear.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index efb730a..2fd29ff 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -87,7 +87,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
   grad_weight = grad_weight.reshape({M1,N1});
 
-  grad_output = grad_output.reshape({K1,M1});
+  grad_output = grad_output.reshape({M1,K1}).t();
   auto grad_bias = bias.defined() ? grad_output.sum(0, /*keepdim=*/false) : torch::Tensor{};
 
   // auto grad_input = at::matmul(grad_output, weight);
-- 
2.43.0


From d153eb62077b18a234037210fa6c801539717f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 21/22] fix: linear_forward and linear_backward leaked their
 result buffers and context

---
 src/linear.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index 2fd29ff..fd8e27a 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -36,9 +36,10 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   // cake_sgemm call
   cake_cntx_t* cake_cntx = cake_query_cntx_torch(cache_sz[0].item<int>(), cache_sz[1].item<int>());
   cake_sgemm(input_c, weight_c, output_c, M, N, K, p, cake_cntx);
+  free(cake_cntx);
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto output = torch::from_blob((void*) output_c, {M*N}, options);
+  auto output = torch::from_blob((void*) output_c, {M*N}, free, options);
   output = output.reshape({M,N});
 
   if (bias.defined()) {
@@ -68,7 +69,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
 
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, options);
+  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, free, options);
   grad_input = grad_input.reshape({M,N});
 
   grad_output = grad_output.reshape({M,K}).t();
@@ -82,9 +83,10 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
+  free(cake_cntx);
 
   options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
+  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, free, options);
   grad_weight = grad_weight.reshape({M1,N1});
 
   grad_output = grad_output.reshape({M1,K1}).t();
-- 
2.43.0


From 01d92110d05416b009cc66f4395deb2f99e42412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:39 +0000
Subject: [PATCH 22/22] fix: linear_forward and linear_backward used a NULL
 result buffer when memory ran out

---
 src/linear.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linear.cpp b/src/linear.cpp
index fd8e27a..58e64cd 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -23,6 +23,7 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   float* input_c = (float*) input.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
   float* output_c = (float*) calloc(M * N , sizeof( float ));
+  TORCH_CHECK(output_c != NULL, "calloc error");
   int p = 10; // number of cores to use
 
  // for(int i = 0; i < K; i++) {
@@ -63,6 +64,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   float* grad_output_c = (float*) grad_output.data_ptr<float>();
   float* weight_c = (float*) weight.data_ptr<float>();
   float* grad_input_c = (float*) calloc(M * N , sizeof( float ));
+  TORCH_CHECK(grad_input_c != NULL, "calloc error");
   int p = 10; // number of cores to use
 
   cake_sgemm(grad_output_c, weight_c, grad_input_c, M, N, K, p, cake_cntx);
@@ -81,6 +83,7 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   input = input.reshape({K1*N1}).contiguous();
   float* input_c = (float*) input.data_ptr<float>();
   float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
+  TORCH_CHECK(grad_weight_c != NULL, "calloc error");
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
   free(cake_cntx);
-- 
2.43.0

