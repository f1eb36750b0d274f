From cac7e45c0c8d0e2d1f534869a02d69d722c00c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 01/12] fix: Z_Q += dropped carries when both operands are the
 same object

---
 include/HEAAN/arith/Z_Q.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 3fd671f..81effac 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -191,8 +191,9 @@ template<int LOGQ>
 void Z_Q<LOGQ>::operator+=(const Z_Q<LOGQ>& A) {
 	int length = (LOGQ + 63) / 64; bool c = 0;
 	for (int i = 0; i < length; i++) {
-		data[i] += A.data[i];
-		bool c_next = data[i] < A.data[i];
+		uint64_t a = A.data[i]; // A may be *this
+		data[i] += a;
+		bool c_next = data[i] < a;
 		if (c) data[i]++;
 		c = (c&&data[i] == 0) || c_next;
 	}
-- 
2.43.0


From 3e2940ee13a8dd92e85418a1f8e18a1d7f9f9606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 02/12] fix: Z_Q to double conversion ignored all but the
 lowest 64 bits

---
 include/HEAAN/arith/Z_Q.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/HEAAN/arith/Z_Q.h b/include/HEAAN/arith/Z_Q.h
index 81effac..5c87491 100644
--- a/include/HEAAN/arith/Z_Q.h
+++ b/include/HEAAN/arith/Z_Q.h
@@ -315,7 +315,9 @@ Z_Q<LOGQ>::operator double() const {
 	bool is_negative =  val.is_bigger_than_halfQ();
 	if(is_negative)
 	    val.negate();
-	double result = (double) val[0];
+	double result = 0;
+	for(int i = val.get_length() - 1; i >= 0; --i)
+	    result = result * 18446744073709551616.0 + (double) val[i]; // 2^64
 	if(is_negative)
 	    result *= -1;
 	return result;
-- 
2.43.0


From 53a2fdf6d2f53a005c7e169e5132f5cff61d8ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 03/12] fix: CRT::icrt gave wrong or non-canonical residues for
 some negative values

---
 include/HEAAN/arith/conv/crt.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/arith/conv/crt.h b/include/HEAAN/arith/conv/crt.h
index 937b5dc..74918eb 100644
--- a/include/HEAAN/arith/conv/crt.h
+++ b/include/HEAAN/arith/conv/crt.h
@@ -101,17 +101,17 @@ void CRT<L, LOGQ>::icrt(const Z_Q<LOGQ> &A, uint64_t a_rns[L]) const {
     int len = A_abs.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A_abs[len-1];
+      uint64_t ah = A_abs[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A_abs[j], ah, q[i]);
       }
-      a_rns[i] = q[i] - ah;
+      a_rns[i] = ah == 0 ? 0 : q[i] - ah;
     }
   } else {
     int len = A.get_length();
     for(int i = 0; i< L; ++i){
       // compute a % q[i] where a = \Sigma a[i]*beta^i
-      uint64_t ah = A[len-1];
+      uint64_t ah = A[len-1] % q[i];
       for(int j = len-2; j>=0; --j) {
         ah  = mod(A[j], ah, q[i]);
       }
-- 
2.43.0


From 60a884b057a324691de4c1fc88a063cb362bece0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 04/12] fix: linear_transform with rotation keys used an
 uninitialised ciphertext for the main diagonal

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 2d3611d..019e55e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -134,7 +134,7 @@ void linear_transform( const SparseDiagonal<1 << (LOGN - 1),S>& Ar,
 			R_Q<LOGQ, N> pt;
 			encode<LOGQ, LOGN>(Ar.vec[s],
 							Ai.vec[s], 1ULL << LOGDELTA, pt);
-			R_Q_square<LOGQ, N> ct_rot;
+			R_Q_square<LOGQ, N> ct_rot(ct);
 			if (Ar.off[s] != 0)
 				rot_ct<LOGQ, N>(ct, Ar.off[s],*(rkey[s]), ct_rot);
 			ct_rot *= pt;
-- 
2.43.0


From a1fdee0b5a640e00948e57fdfb7648259c1b7a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 05/12] fix: dense linear_transform did not compile

---
 include/HEAAN/linear_transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/HEAAN/linear_transform.h b/include/HEAAN/linear_transform.h
index 019e55e..1a33f3e 100644
--- a/include/HEAAN/linear_transform.h
+++ b/include/HEAAN/linear_transform.h
@@ -110,7 +110,7 @@ void linear_transform( const double Ar[1 << (LOGN - 1)][1 << (LOGN - 1)],
 		ct_rot_pt *= pt;
 
 		Act += ct_rot_pt; R_Q_square<LOGQ,N> temp; 
-		rot_ct<LOGQ,N>(ct_rot, rkey, temp); // BUG
+		rot_ct<LOGQ,N>(ct_rot, 1, rkey, temp);
 		ct_rot = temp; 
 	}
 }
-- 
2.43.0


From 302a2498ce7cf0923932bc937ec709b3a20461ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 06/12] fix: SparseDiagonal += and -= left a filled diagonal
 marked as zero

---
 include/HEAAN/matrix/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/HEAAN/matrix/matrix.h b/include/HEAAN/matrix/matrix.h
index 28a07fc..7ff073e 100644
--- a/include/HEAAN/matrix/matrix.h
+++ b/include/HEAAN/matrix/matrix.h
@@ -98,6 +98,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] += B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
@@ -106,6 +107,7 @@ struct SparseDiagonal {
 			assert(off[s] == B.off[s]);
 			for (int i = 0; i < N; i++)
 				vec[s][i] -= B.vec[s][i];
+			zero[s] = zero[s] && B.zero[s];
 		}
 	}
 	//
-- 
2.43.0


From 3d207f9fff812d4b7f5b19a77897419e0dd78791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 07/12] fix: eval_poly_deg3/7/15 evaluated negative
 coefficients wrongly

---
 include/HEAAN/poly.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 6538f21..1147373 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -12,9 +12,10 @@ void eval_poly_deg3( const double u[4],
 	R_Q<LOGQ,N> L0[4];
 	for(int n=0;n<4;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA)); // What if u[n] * (1ULL<<LOGDELTA) exceeds 64 bit?
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -51,9 +52,10 @@ void eval_poly_deg7( const double u[8],
 	R_Q<LOGQ,N> L0[8];
 	for(int n=0;n<8;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
@@ -114,9 +116,10 @@ void eval_poly_deg15( const double u[16],
 	R_Q<LOGQ,N> L0[16];
 	for(int n=0;n<16;n++){
 		L0[n].setzero();
-		L0[n][0][0]=uint64_t(u[n]*(1ULL<<LOGDELTA));
+		L0[n][0][0]=uint64_t(fabs(u[n])*(1ULL<<LOGDELTA));
 		if(n%2==0)
 			L0[n][0]*=1ULL<<LOGDELTA;
+		if(u[n]<0) L0[n][0].negate();
 	}
 	// level one
 	const R_Q_square<LOGQ,N>& T1=ct;
-- 
2.43.0


From d2fd77e3675e5d9fe4ba39c97a10abbb9c469511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:55 +0000
Subject: [PATCH 08/12] fix: eval_poly_deg7 dumped ciphertexts to stdout and
 aborted for moduli over 1300 bits

---
 include/HEAAN/poly.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/HEAAN/poly.h b/include/HEAAN/poly.h
index 1147373..89af53d 100644
--- a/include/HEAAN/poly.h
+++ b/include/HEAAN/poly.h
@@ -91,9 +91,6 @@ void eval_poly_deg7( const double u[8],
 		temp[0][0]-=one;
 		RS<LOGQ-LOGDELTA, LOGQ-LOGDELTA*2,N>(temp,T4);
 	}
-	T4.print();
-	L2[0].print();
-	L2[1].print();
 	{
 		R_Q_square<LOGQ-LOGDELTA*2,N> temp;
 		Mul<LOGQ-LOGDELTA*2,N>(T4, L2[1], evk3, temp);
-- 
2.43.0


From 1278aad27b030c41fb1d49037991e5dce989a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:30 +0000
Subject: [PATCH 09/12] fix: concurrent first calls raced on the lazily built
 convolution and DFT tables

---
 include/HEAAN/arith/conv.h |  7 +------
 include/HEAAN/bootstrap.h  | 16 ++++++++--------
 include/HEAAN/matrix/DFT.h | 16 ++++++++--------
 3 files changed, 17 insertions(+), 22 deletions(-)

diff --git a/include/HEAAN/arith/conv.h b/include/HEAAN/arith/conv.h
index e78bc38..49d9b2c 100644
--- a/include/HEAAN/arith/conv.h
+++ b/include/HEAAN/arith/conv.h
@@ -141,11 +141,6 @@ void conv( const R_Q<LOGQ,N>& A,
         0xfffffffee8c0001ULL
     };
     const int L = (2*LOGQ + 17 + 59) / 60;
-	static CONV<L, LOGQ, N> *theConv = nullptr;
-    static bool theConv_initialized = false;
-    if(theConv_initialized == false) {
-        theConv = new CONV<L, LOGQ, N>(Q_primes);
-        theConv_initialized = true;
-    }
+	static const CONV<L, LOGQ, N> *theConv = new CONV<L, LOGQ, N>(Q_primes);
     theConv->conv(A, B, C);
 }
\ No newline at end of file
diff --git a/include/HEAAN/bootstrap.h b/include/HEAAN/bootstrap.h
index ad6122c..90118bb 100644
--- a/include/HEAAN/bootstrap.h
+++ b/include/HEAAN/bootstrap.h
@@ -16,11 +16,10 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 					const int s[1 << LOGN],
 					R_Q_square<  LOGQ,1<<LOGN> ct_[2]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = []() {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
@@ -29,8 +28,9 @@ void CoeffToSlot (	const R_Q_square<  LOGQ,1<<LOGN>& ct,
 			U0r[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 			U0i[n] *= 1 / pow(N, 1.0 / (LOGN - 1));
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	R_Q_square<LOGQ, N> U0ct;
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct, s, U0ct);
@@ -54,13 +54,12 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				  const int skey[1<<LOGN],
 					    R_Q_square<  LOGQ,1<<LOGN>& ct_ ){	
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 	static SparseDiagonal<N/2,3> iU0r[LOGN-1];
     static SparseDiagonal<N/2,3> iU0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = []() {
 		SparseDiagonal<N/2,3> U0r_temp[LOGN-1];
     	SparseDiagonal<N/2,3> U0i_temp[LOGN-1];
 
@@ -80,8 +79,9 @@ void SlotToCoeff( const R_Q_square<  LOGQ,1<<LOGN>&  ct0,
 				iU0i[i] = U0i_temp[LOGN - 2 - i];
 			}
 		}		
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	grouped_serial_linear_transform<LOGQ, LOGN, LOGDELTA, 3, LOGN-1, G>(U0r, U0i, ct0, skey, ct_);
 	R_Q_square<LOGQ, N> ct2;
diff --git a/include/HEAAN/matrix/DFT.h b/include/HEAAN/matrix/DFT.h
index e130f22..2f07e85 100644
--- a/include/HEAAN/matrix/DFT.h
+++ b/include/HEAAN/matrix/DFT.h
@@ -69,13 +69,13 @@ void fftNR(
   double zr[1 << (LOGN - 1)],
   double zi[1 << (LOGN - 1)]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
-	if(!is_init) {
+	static const bool is_init = []() {
   		splitU0NR<LOGN>(U0r, U0i);
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		zr[i] = m[i];
@@ -97,19 +97,19 @@ template<int LOGN>
 void ifftNR( const double zr[1 << (LOGN - 1)],
 		   const double zi[1 << (LOGN - 1)], double m[1 << LOGN]){
 	const int N = 1 << LOGN;
-	static bool is_init = false;
 	static SparseDiagonal<N/2,3> U0r[LOGN-1];
     static SparseDiagonal<N/2,3> U0i[LOGN-1];
 
-	if(!is_init) {
+	static const bool is_init = []() {
 		splitU0NR<LOGN>(U0r, U0i);
     	for (int n = 0; n < LOGN - 1; n++) {
 			U0r[n].transpose();
 			U0i[n].transpose();
 			U0i[n].negate();
 		}
-		is_init = true;
-	}
+		return true;
+	}();
+	(void) is_init;
 
 	for(int i = 0; i < N/2; ++i) {
 		m[i] = zr[i];
-- 
2.43.0


From 64f81e7c5882554e51d8c3cc0db6dd83d114fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 10/12] fix: aggregate reads the second message from its own
 first slot

---
 include/impl/message.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/impl/message.h b/include/impl/message.h
index eca85d6..66bb7eb 100644
--- a/include/impl/message.h
+++ b/include/impl/message.h
@@ -133,7 +133,7 @@ void aggregate(
 ){
     const int N = 1 << LOGN;
     for(int i = 0; i < N; ++i) {
-        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i];
-        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i];
+        z3.r[i] = i < N/2 ? z1.r[i] : z2.r[i - N/2];
+        z3.i[i] = i < N/2 ? z1.i[i] : z2.i[i - N/2];
     }
 }
\ No newline at end of file
-- 
2.43.0


From 88010897462eedc1d22d071e4bbd4b2e0fffc75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:41 +0000
Subject: [PATCH 11/12] fix: set the imaginary parts of the test matrix

---
 include/experiment/setup.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/experiment/setup.h b/include/experiment/setup.h
index 98d2aa2..222c5f6 100644
--- a/include/experiment/setup.h
+++ b/include/experiment/setup.h
@@ -72,7 +72,7 @@ void set_test_matrix(Message<LOGN> A[K]) {
         for(int i = 0; i < N / 2; ++i) {
             double x = (double) (k*i) / (N/2) * PI;
             A[k].r[i] = cos(x) / sqrt(2);
-            A[k].r[i] = sin(x) / sqrt(2);
+            A[k].i[i] = sin(x) / sqrt(2);
         }
     }
 }
-- 
2.43.0


From 9d968a442955dbe425eda76cf640450d15455c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:11 +0000
Subject: [PATCH 12/12] fix: theorem_cts_error predicted the message norm with
 integer division

---
 src/experiment/section3/theorem_cts_error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/experiment/section3/theorem_cts_error.cpp b/src/experiment/section3/theorem_cts_error.cpp
index 79acabe..afd1c3c 100644
--- a/src/experiment/section3/theorem_cts_error.cpp
+++ b/src/experiment/section3/theorem_cts_error.cpp
@@ -42,7 +42,7 @@ void measure_cts_error()
 
     // compare
     double q = 1ULL << LOGq;
-    double z_amb_norm_expected = sqrt(N/2) / Delta * sqrt((H+1)/12*q*q*N);
+    double z_amb_norm_expected = sqrt(N/2) / Delta * sqrt((H+1.0)/12*q*q*N);
     double z_amb_norm_measured = norm(z_amb);
     std::cout << "norm(z_amb) expected : " << z_amb_norm_expected << std::endl;
     std::cout << "norm(z_amb) measured : " << z_amb_norm_measured << std::endl;
-- 
2.43.0

