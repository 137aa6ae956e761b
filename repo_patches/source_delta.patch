From 25d454d8e16b9657af243f302ef6a480faed754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 01/43] fix: dream_arr_annu: apply the documented hann and
 hamming apodizations (they were accepted and silently ignored)

---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..42251cb 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -433,6 +433,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r+ring_r_max)*M_PI/ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r+ring_r_max)*M_PI/ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From 6b40773910f65ef7aa994f2d6fc419969d7ae568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:45 +0000
Subject: [PATCH 02/43] fix: dream_arr_annu: do not write in front of the
 buffer for negative focusing delays

---
 src/dream_arr_annu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 42251cb..226851c 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -478,7 +478,7 @@ void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
 
   dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
   for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
+    if (delay_idx < nt && i + delay_idx >= 0) {
       buf[i + delay_idx] = h_ring[i + n*nt];
     }
   }
-- 
2.43.0


From 48cbf5c999885ed8c05489cea59b575dc21dfadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:41 +0000
Subject: [PATCH 03/43] fix: das rca: take the stripe end points from the right
 element matrix when the numbers of rows and columns differ

---
 extra_src/das.cc     | 16 ++++++++--------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..766269a 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -457,14 +457,14 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the x-dimension (transmit with columns)
   //   and the receive elements are distributed along the y-dimension (rows),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -553,14 +553,14 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   // * the transmit elements are distributed along the y-dimension (transmit with rows)
   //   and the receive elements are distributed along the x-dimension (cols),
   // * G_col[0] < G_col[num_cols-1] (x-dim edge positions) and
-  //   G_row[0 + 1*num_cols] < G_col[num_cols-1 + 1*num_cols]
+  //   G_row[0 + 1*num_rows] < G_row[num_rows-1 + 1*num_rows]
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From 19cc12378abfcc5baa2a11e8d4fa9ecd72f7118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 04/43] fix: fftconv_ola: step to the right column for a vector
 B, honour the in-place modes, reject a zero block length

---
 extra_src/oct_fftconv_ola.cc | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..c91c32b 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -122,6 +122,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // '=' operation: The blocks are accumulated below so clear the column first.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +142,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +160,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -166,11 +171,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
         if (k+fft_len <  A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += (conv_mode == ConvMode::neg) ? -y[l] : y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += (conv_mode == ConvMode::neg) ? -y[l] : y[l];
           }
         }
 
@@ -194,6 +199,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // '=' operation: The blocks are accumulated below so clear the column first.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +216,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,7 +234,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
@@ -233,11 +243,11 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         if (k+fft_len < A_M+B_M-1) {
           for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += (conv_mode == ConvMode::neg) ? -y[l] : y[l];
           }
         } else {
           for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
+            Y[k+l + n*(A_M+B_M-1)] += (conv_mode == ConvMode::neg) ? -y[l] : y[l];
           }
         }
 
@@ -250,8 +260,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
@@ -414,7 +422,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From f2b042f099299322c281fd148ac98510e2a6579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:21 +0000
Subject: [PATCH 05/43] fix: sum_fftconv: a one-row U holds one-sample signals,
 not one long vector

---
 extra_src/oct_sum_fftconv.cc | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..04823ea 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,11 +333,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
-  }
-
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
-- 
2.43.0


From 652b7bdcb46a938dc40bb126ed3f9df42948c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 06/43] fix: rect_sir: use the far edge for the fourth
 sub-rectangle of points inside the aperture

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..937e3d2 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..fa79299 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
-- 
2.43.0


From fe2738e18d2a7bc49645dd00d9c4008290e3def2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:39 +0000
Subject: [PATCH 07/43] fix: rect_sir: scale the response with the normal
 velocity (it was read and ignored)

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 937e3d2..411e15f 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index fa79299..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From 946838f9c50a0b46bfe51c29bc7a8614048b6ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 08/43] fix: copy_p, add_p: process exactly the selected
 columns and reject indices below one (memory outside A and B was accessed)

---
 extra_src/mex_copy_p.cc | 18 +++++++++---------
 extra_src/oct_add_p.cc  | 18 +++++++++---------
 extra_src/oct_copy_p.cc | 18 +++++++++---------
 3 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..22d4036 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -169,8 +169,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( r_M * r_N !=2 )
     mexErrMsgTxt("Argument 2 must be a 2 element vector!");
 
-  if ( (size_t) r[1] < 1)
-    mexErrMsgTxt("1st element of argument 2 must be > 1!");
+  if ( r[0] < 1 || r[1] < r[0])
+    mexErrMsgTxt("1st element of argument 2 must be >= 1 and not larger than the 2nd element!");
 
   if (( (size_t) r[0] > A_M) || ( (size_t) r[1] > A_M))
     mexErrMsgTxt("One element of argument 2 exceeds row dimension of arg 1!");
@@ -179,8 +179,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   if ( k_M * k_N !=2 )
     mexErrMsgTxt("Argument 3 must be a 2 element vector!");
 
-  if ( (size_t) k[1] < 1)
-    mexErrMsgTxt("1st element of argument 3 must be > 1!");
+  if ( k[0] < 1 || k[1] < k[0])
+    mexErrMsgTxt("1st element of argument 3 must be >= 1 and not larger than the 2nd element!");
 
   if (( (size_t) k[0] > A_N) || ( (size_t) k[1] > A_N))
     mexErrMsgTxt("One element of argument 3 exceeds colomn dimension of arg 1!");
@@ -208,9 +208,9 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -251,8 +251,8 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = thread_n * A_N/nthreads;
-    line_stop =  (thread_n+1) * A_N/nthreads;
+    line_start = thread_n * B_N/nthreads;
+    line_stop =  (thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..66e0c9f 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -211,8 +211,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
+    error("1st element of argument 2 must be >= 1 and not larger than the 2nd element!");
     return oct_retval;
   }
 
@@ -227,8 +227,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
+    error("1st element of argument 3 must be >= 1 and not larger than the 2nd element!");
     return oct_retval;
   }
 
@@ -264,9 +264,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -311,8 +311,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..22110fa 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -209,8 +209,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if ( (octave_idx_type) r[0] < 1 || r[1] < r[0]) {
+    error("1st element of argument 2 must be >= 1 and not larger than the 2nd element!");
     return oct_retval;
   }
 
@@ -225,8 +225,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if ( (octave_idx_type) k[0] < 1 || k[1] < k[0]) {
+    error("1st element of argument 3 must be >= 1 and not larger than the 2nd element!");
     return oct_retval;
   }
 
@@ -262,9 +262,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -309,8 +309,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
-- 
2.43.0


From e2679a3e93153b27494e4f7f15d37ab486e55ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 09/43] fix: return the out-of-range status when a single
 thread is used

The status in the thread's record was only read after joining threads, so
with one thread an out-of-range sample was never reported to the caller.
---
 extra_src/das.cc        | 2 ++
 src/dream_arr_annu.cc   | 2 ++
 src/dream_arr_circ.cc   | 2 ++
 src/dream_arr_cylind.cc | 2 ++
 src/dream_arr_rect.cc   | 2 ++
 src/dreamcirc.cc        | 2 ++
 src/dreamcirc_f.cc      | 2 ++
 src/dreamcylind.cc      | 2 ++
 src/dreamline.cc        | 2 ++
 src/dreamrect.cc        | 2 ++
 src/dreamrect_f.cc      | 2 ++
 src/dreamsphere.cc      | 2 ++
 12 files changed, 24 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 766269a..4e3e564 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -287,6 +287,8 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 226851c..152733f 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -630,6 +630,8 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..ae91b5b 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -418,6 +418,8 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..88a4251 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -426,6 +426,8 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..78e53af 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -422,6 +422,8 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..a18bb96 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -264,6 +264,8 @@ SIRError Circ::dreamcirc(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..15f0bc2 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -265,6 +265,8 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..60593d8 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -262,6 +262,8 @@ SIRError Cylind::dreamcylind(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..cdcb7f3 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -249,6 +249,8 @@ SIRError Line::dreamline(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..acfcd08 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -261,6 +261,8 @@ SIRError Rect::dreamrect(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..f37f081 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -265,6 +265,8 @@ SIRError Rect_f::dreamrect_f(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..61c95ed 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -260,6 +260,8 @@ SIRError Sphere::dreamsphere(double alpha,
       }
 
     }
+  } else {
+    err = D[0].err;
   }
 
   // Free memory.
-- 
2.43.0


From 2f27aa46426b86195cb327f8cb7b1153901b6ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 10/43] fix: dreamsphere reports out-of-range warnings of its
 threads

---
 src/dreamsphere.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 61c95ed..8f46546 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -254,9 +254,9 @@ SIRError Sphere::dreamsphere(double alpha,
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
       threads[thread_n].join();
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if one of the threads had an out-of-bounds event.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
 
     }
-- 
2.43.0


From 37bd36752930ac9db3b4e0d8ba70daced62f703e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:46 +0000
Subject: [PATCH 11/43] fix: arrays keep the out-of-range status of earlier
 elements

An element inside the range reset the status of one before it.
---
 src/dream_arr_annu.cc   | 30 +++++++++++++++++-----------
 src/dream_arr_circ.cc   | 43 +++++++++++++++++++++++++----------------
 src/dream_arr_cylind.cc | 43 +++++++++++++++++++++++++----------------
 src/dream_arr_rect.cc   | 43 ++++++++++++++++++++++++-----------------
 4 files changed, 96 insertions(+), 63 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 152733f..c604940 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -228,11 +228,15 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
         h_disc[i] = 0.0; // h(i,1) = 0.0;
       }
     } else {
-      err = dreamcirc_serial(xo, yo, zo,
-                             Gr[n],
-                             dx, dy, dt, nt,
-                             delay,
-                             v, cp, &h_disc[n*nt], err_level);
+      SIRError elem_err = dreamcirc_serial(xo, yo, zo,
+                                           Gr[n],
+                                           dx, dy, dt, nt,
+                                           delay,
+                                           v, cp, &h_disc[n*nt], err_level);
+
+      if (elem_err != SIRError::none) {
+        err = elem_err; // Keep the status of earlier elements.
+      }
 
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
@@ -311,12 +315,16 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
         h_disc[i] = 0.0; // h(i,1) = 0.0;
       }
     } else {
-      err = dreamcirc_serial(att, xc_vec, x_vec,
-                             xo, yo, zo,
-                             Gr[n],
-                             dx, dy, dt, nt,
-                             delay,
-                             v, cp, &h_disc[n*nt], err_level);
+      SIRError elem_err = dreamcirc_serial(att, xc_vec, x_vec,
+                                           xo, yo, zo,
+                                           Gr[n],
+                                           dx, dy, dt, nt,
+                                           delay,
+                                           v, cp, &h_disc[n*nt], err_level);
+
+      if (elem_err != SIRError::none) {
+        err = elem_err; // Keep the status of earlier elements.
+      }
 
       if (err == SIRError::out_of_bounds) {
         return err; // Bail out.
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index ae91b5b..78bf54b 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -223,14 +223,18 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamcirc_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                           R,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError elem_err = dreamcirc_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                         R,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
@@ -280,15 +284,20 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamcirc_serial(att, xc_vec, x_vec,
-                           xo - gx[n], yo - gy[n], zo - gz[n],
-                           R,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError elem_err = dreamcirc_serial(att, xc_vec, x_vec,
+                                         xo - gx[n], yo - gy[n], zo - gz[n],
+                                         R,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 88a4251..6b81535 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -232,14 +232,19 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = cylind.dreamcylind_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                             a, b, Rcurv,
-                             dx, dy, dt, nt,
-                             delay - foc_delay - steer_delay,
-                             v, cp,
-                             h,
-                             err_level,
-                             weight);
+    SIRError elem_err = cylind.dreamcylind_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                           a, b, Rcurv,
+                                           dx, dy, dt, nt,
+                                           delay - foc_delay - steer_delay,
+                                           v, cp,
+                                           h,
+                                           err_level,
+                                           weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
+
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
     }
@@ -285,15 +290,19 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = cylind.dreamcylind_serial(att, xc_vec, x_vec,
-                             xo - gx[n], yo - gy[n], zo - gz[n],
-                             a, b, Rcurv,
-                             dx, dy, dt, nt,
-                             delay - foc_delay - steer_delay,
-                             v, cp,
-                             h,
-                             err_level,
-                             weight);
+    SIRError elem_err = cylind.dreamcylind_serial(att, xc_vec, x_vec,
+                                           xo - gx[n], yo - gy[n], zo - gz[n],
+                                           a, b, Rcurv,
+                                           dx, dy, dt, nt,
+                                           delay - foc_delay - steer_delay,
+                                           v, cp,
+                                           h,
+                                           err_level,
+                                           weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 78e53af..ae76f5b 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -224,15 +224,18 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamrect_serial(xo - gx[n], yo - gy[n], zo - gz[n],
-                           a, b,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
-
+    SIRError elem_err = dreamrect_serial(xo - gx[n], yo - gy[n], zo - gz[n],
+                                         a, b,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
@@ -282,15 +285,19 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     }
 
     // Compute the response for the n:th element and add it to the impulse response vector h.
-    err = dreamrect_serial(att, xc_vec, x_vec,
-                           xo - gx[n], yo - gy[n], zo - gz[n],
-                           a, b,
-                           dx, dy, dt, nt,
-                           delay - foc_delay - steer_delay,
-                           v, cp,
-                           h,
-                           err_level,
-                           weight);
+    SIRError elem_err = dreamrect_serial(att, xc_vec, x_vec,
+                                         xo - gx[n], yo - gy[n], zo - gz[n],
+                                         a, b,
+                                         dx, dy, dt, nt,
+                                         delay - foc_delay - steer_delay,
+                                         v, cp,
+                                         h,
+                                         err_level,
+                                         weight);
+
+    if (elem_err != SIRError::none) {
+      err = elem_err; // Keep the status of earlier elements.
+    }
 
     if (err == SIRError::out_of_bounds) {
       return err; // Bail out.
-- 
2.43.0


From 341580314677c6c59f4af4bff14796aa270fee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 12/43] fix: keep the matrix alive that get_data() returns a
 pointer into

---
 include/arg_parser.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..77306f0 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -604,8 +604,10 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
-    return (double*) tmp_mat.data();
+    // Keep the matrix: for anything but a real double matrix (a range, a single
+    // matrix, ...) it is a temporary that holds the only copy of the data.
+    m_data = args(arg_num).matrix_value();
+    return (double*) m_data.data();
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
@@ -620,6 +622,10 @@ public:
     return args(arg_num).string_value();
   };
 
+private:
+
+  Matrix m_data; // The matrix the last get_data() result points into.
+
 #endif
 
 #ifdef DREAM_MATLAB
-- 
2.43.0


From a1b52cc1a76feccdb7f002ca6da02db13170bf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 13/43] fix: reject an empty delay argument

---
 include/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 77306f0..894c81f 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -238,7 +238,7 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is neither a scalar nor a vector of length No
 
       if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
         s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-- 
2.43.0


From 1b90021034db48c959064bedceb20d156c837333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 14/43] fix: reject a radii vector with an even number of
 elements

---
 include/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 894c81f..ccd7706 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -109,7 +109,7 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) || (get_m(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0


From e9f2db3ff2028a1014b4efbb7c3b5b60d4fe27bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:24 +0000
Subject: [PATCH 15/43] fix: python: one-dimensional arrays were read with a
 second dimension they do not have

---
 include/arg_parser_python.h       | 19 +++++--------------
 python/src/py_dream_arr_annu.cc   |  4 ++--
 python/src/py_dream_arr_circ.cc   |  4 ++--
 python/src/py_dream_arr_cylind.cc |  4 ++--
 python/src/py_dream_arr_rect.cc   |  4 ++--
 python/src/py_dreamcirc.cc        |  4 ++--
 python/src/py_dreamcirc_f.cc      |  4 ++--
 python/src/py_dreamcylind.cc      |  4 ++--
 python/src/py_dreamline.cc        |  4 ++--
 python/src/py_dreamrect.cc        |  4 ++--
 python/src/py_dreamrect_f.cc      |  4 ++--
 python/src/py_dreamsphere.cc      |  4 ++--
 12 files changed, 27 insertions(+), 36 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..1d86a7a 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,10 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
-
-    if (ro_n != 3) {
+    if (get_n(py_ro) != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -100,10 +97,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
-
-    if ( G_n != 3 ) {
+    if ( get_n(py_G) != 3 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
@@ -592,24 +586,21 @@ public:
 
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
+    auto m = py_arg_info.ndim > 0 ? py_arg_info.shape[0] : 1; // A 0-D array is a scalar.
 
     return (dream_idx_type) m;
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
+    auto n = py_arg_info.ndim > 1 ? py_arg_info.shape[1] : 1; // A 1-D array is a column vector.
 
     return (dream_idx_type) n;
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
-
-    return (dream_idx_type) len;
+    return get_m(py_arg)*get_n(py_arg);
   };
 
   T* get_data(const py::array_t<T,py::array::f_style> *py_arg) {
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..2e2bb8b 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -99,8 +99,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..d942b24 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..8f63a43 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..79d66b5 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..45290f7 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..29eaaca 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..6544a51 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..3403bb3 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..2676e73 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..ae7505e 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..0a9e415 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-- 
2.43.0


From c4440f8ab441be61451f3d87b3d53b4f299f2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:24 +0000
Subject: [PATCH 16/43] fix: python: reject an empty delay argument

---
 include/arg_parser_python.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 1d86a7a..50e84b1 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -253,7 +253,7 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
+    if ( (delay_len != 1) && (delay_len != No) ) { // delay is a vector
 
       if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
             (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-- 
2.43.0


From 28e15b18f851adf05d5615ec7f292f0228f29cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 17/43] fix: python: dream_arr_annu: take the radii from
 vectors of either orientation, reject an even number of them, and size the
 user defined vectors by the number of annuli

---
 include/arg_parser_python.h     | 4 ++--
 python/src/py_dream_arr_annu.cc | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 50e84b1..613b9e0 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -110,8 +110,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) ||
+         (get_m(py_G)*get_n(py_G) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 2e2bb8b..326879f 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -75,10 +75,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = ap.get_m(py_G)*ap.get_n(py_G);
+  dream_idx_type num_elements = (num_radii+1)/2;
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +178,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From af0fcb6eedc87b292a768de5302141fc8ca72412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:41 +0000
Subject: [PATCH 18/43] fix: python: hand the window parameter over to the
 arrays (it was ignored)

---
 include/arg_parser_python.h       | 15 ++-------------
 python/src/py_dream_arr_annu.cc   |  2 +-
 python/src/py_dream_arr_circ.cc   |  2 +-
 python/src/py_dream_arr_cylind.cc |  2 +-
 python/src/py_dream_arr_rect.cc   |  2 +-
 5 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 613b9e0..e52e33f 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -438,7 +438,7 @@ public:
 
   // A string arg, a vector, and a scalar.
   bool parse_apod_args(const char *func_name,  std::string apod_str, py::array_t<T,py::array::f_style> *py_apod, dream_idx_type num_elements,
-                       bool &do_apod, T *apod, ApodMet &apod_met, T &apod_par) {
+                       T win_par, bool &do_apod, T *apod, ApodMet &apod_met, T &apod_par) {
     bool retval=true;
     std::ostringstream s;
     bool is_set = false;
@@ -518,20 +518,9 @@ public:
       dream_err_msg(s.str().c_str());
     }
 
-    // Check that apod par is a scalar.
-    /*
-      if (!(get_m(args, arg_num+2)==1 && get_n(args, arg_num+2)==1)) {
-      retval=false;
-      s << func_name <<  " arg " << arg_num+3 << " must be a scalar!";
-      dream_err_msg(s.str().c_str());
-      }
-    */
-
-    /*
     if (is_set && retval) {
-      apod_par = get_scalar(args, arg_num+2);
+      apod_par = win_par;
     }
-    */
 
     return retval;
   };
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 326879f..eab4903 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -142,7 +142,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
 
   double apod_par=0.0;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
-                          do_apod, apod.get(), apod_met, apod_par)) {
+                          win_par, do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
   }
 
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index d942b24..f7fea96 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -166,7 +166,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
 
   double apod_par=0.0;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
-                          do_apod, apod.get(), apod_met, apod_par)) {
+                          win_par, do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
   }
 
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 8f63a43..f899ea9 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -166,7 +166,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
 
   double apod_par=0.0;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
-                          do_apod, apod.get(), apod_met, apod_par)) {
+                          win_par, do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
   }
 
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 79d66b5..7412c17 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -166,7 +166,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
 
   double apod_par=0.0;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
-                          do_apod, apod.get(), apod_met, apod_par)) {
+                          win_par, do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
   }
 
-- 
2.43.0


From 1274586ea4db177ed7126478170882ac33d6055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:44 +0000
Subject: [PATCH 19/43] fix: reject empty inputs of the FFT convolutions (the
 work arrays were too short)

---
 extra_src/oct_fftconv_ola.cc    | 5 +++++
 extra_src/oct_fftconv_p.cc      | 5 +++++
 extra_src/oct_sum_fftconv.cc    | 5 +++++
 python/include/py_fftconv_p.hpp | 4 ++++
 4 files changed, 19 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index c91c32b..65f5c9f 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -412,6 +412,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
 
   // The segment length (block length).
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..44b2e80 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -306,6 +306,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    error("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   fft_len = A_M+B_M-1;
 
   //std::mutex fft_mutex;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 04823ea..7c2a54a 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -333,6 +333,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (H_M < 1 || U_M < 1) {
+    dream_err_msg("Argument 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   fft_len = H_M+U_M-1;
 
   // NB We call the FFTW planners only from the main thread once
diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index 7fe3cce..bfaf724 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -68,6 +68,10 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
     B_N = 1;
   }
 
+  if (A_M < 1 || B_M < 1) {
+    throw std::runtime_error("Argument 1 and 2 must not be empty!");
+  }
+
   FFTConvP fftconvp;
 
   //
-- 
2.43.0


From 263c125752ca54cbb2d94412aaab8f731385502d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:14 +0000
Subject: [PATCH 20/43] fix: das: keep the argument matrices while their data
 is used

---
 extra_src/oct_das.cc | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..7a42cce 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -204,11 +204,13 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   float *Yf = nullptr;
   double *Yd = nullptr;
 
+  FloatMatrix tmp0f; // Keeps the data while it is used.
+  Matrix tmp0d;
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -226,11 +228,13 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const float *Gt_f=nullptr;
   const double *Gt_d=nullptr;
 
+  FloatMatrix tmp1f; // Keeps the data while it is used.
+  Matrix tmp1d;
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -241,6 +245,8 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   dream_idx_type num_r_elements = 0;
   const float *Gr_f = nullptr;
   const double *Gr_d = nullptr;
+  FloatMatrix tmp2f; // Keeps the data while it is used.
+  Matrix tmp2d;
 
   if (mxGetM(2) != 0) {         // SAFT is using an empty Gr.
 
@@ -252,10 +258,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -276,11 +282,13 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const float *Ro_f = nullptr;
   const double *Ro_d = nullptr;
 
+  FloatMatrix tmp3f; // Keeps the data while it is used.
+  Matrix tmp3d;
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -322,11 +330,13 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const float *delay_f = nullptr;
   const double *delay_d = nullptr;
 
+  FloatMatrix tmp5f; // Keeps the data while it is used.
+  Matrix tmp5d;
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
-- 
2.43.0


From f0cdb1d22da0ec8d6000ab410acbb6297e92407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:14 +0000
Subject: [PATCH 21/43] fix: das: single precision used the object for double
 precision, which may not exist

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 7a42cce..b6d18b7 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -474,7 +474,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+    das_f->set_running();
 
     // Register signal handler.
     std::signal(SIGABRT, DAS<float>::abort);
-- 
2.43.0


From 6308bde110c1f9968430629c0c104c0d2ef375ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:14 +0000
Subject: [PATCH 22/43] fix: das: the device argument was ignored when all
 eleven arguments are given

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index b6d18b7..2484cc9 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -393,7 +393,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
-- 
2.43.0


From 9e93340c84be0c4e6ca94fee3ac3974dd19c3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:14 +0000
Subject: [PATCH 23/43] fix: das: reject data with fewer A-scans than the
 elements need (read past its end)

---
 extra_src/oct_das.cc      | 11 +++++++++++
 python/include/py_das.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 2484cc9..6e43817 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -373,6 +373,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // There must be an A-scan for every element (SAFT) or for every pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements != 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+
+  if (num_t_elements < 1 || mxGetN(0) < num_a_scans) {
+    error("Argument 1 must have an A-scan for every transmit element or every transmit and receive element pair!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..fd05a19 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -91,6 +91,16 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // There must be an A-scan for every element (SAFT) or for every pair of elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements != 0) {
+    num_a_scans = num_t_elements*num_r_elements;
+  }
+
+  if (num_t_elements < 1 || (dream_idx_type) ap.get_n(py_Y) < num_a_scans) {
+    throw std::runtime_error("Argument 1 must have an A-scan for every transmit element or every transmit and receive element pair!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From cab972c13c49c8c395bc751dc0202bfd5dbaa152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:14 +0000
Subject: [PATCH 24/43] fix: Python das: reject unknown devices instead of gpu

---
 python/include/py_das.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index fd05a19..6cddadd 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -153,7 +153,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
-- 
2.43.0


From 743c4c49f8a433c7acb0f3d6decae323d2481289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:15 +0000
Subject: [PATCH 25/43] fix: Python das: name of the verbose argument

---
 python/src/py_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..dbcf00d 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("vebose"));
+        py::arg("verbose"));
 }
 #endif
-- 
2.43.0


From 882fa67c874e578df97ca09dd737bcfc78356c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:30 +0000
Subject: [PATCH 26/43] fix: Python das: the verbose argument is optional (as
 in Octave and in the tests)

---
 python/src/py_das.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index dbcf00d..18f9ac1 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -58,7 +58,7 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose") = "");
 }
 
 #else
@@ -84,6 +84,6 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("method"),
         py::arg("err_level"),
         py::arg("device"),
-        py::arg("verbose"));
+        py::arg("verbose") = "");
 }
 #endif
-- 
2.43.0


From d25aecf92c9a69be83bf0fe8d9e92eb846209e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:30 +0000
Subject: [PATCH 27/43] fix: das: pass the verbose option on in double
 precision

---
 extra_src/oct_das.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 6e43817..4984b60 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -513,7 +513,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
       catch (std::runtime_error &std_err) {
-- 
2.43.0


From 01d04fe9659b7e5bc44ec2d614cfe26a7d0540ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 28/43] fix: keep the in-place output matrix alive while the
 convolution threads run

---
 extra_src/oct_conv_p.cc      | 3 ++-
 extra_src/oct_fftconv_ola.cc | 3 ++-
 extra_src/oct_fftconv_p.cc   | 5 +++--
 extra_src/oct_sum_fftconv.cc | 3 ++-
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..2e215a8 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -163,6 +163,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool is_set = false;
   DATA *D = nullptr;
   ConvMode conv_mode = ConvMode::equ;
+  Matrix Ytmp; // Holds the in-place output data while the threads are running.
 
   octave_value_list oct_retval;
 
@@ -320,7 +321,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value();
+    Ytmp = args(2).matrix_value();
 
     Y = (double*) Ytmp.data();
   }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 65f5c9f..e033eb6 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -355,6 +355,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   bool is_set = false;
   dream_idx_type block_len;
   ConvMode conv_mode=ConvMode::equ;
+  Matrix Ytmp; // Holds the in-place output data while the threads are running.
 
   octave_value_list oct_retval;
 
@@ -632,7 +633,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(3).matrix_value();
+    Ytmp = args(3).matrix_value();
     Y = (double*) Ytmp.data();
   }
 
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 44b2e80..3d659f1 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -251,6 +251,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   bool return_wisdom = false, load_wisdom = false;
   bool is_set = false;
   ConvMode conv_mode=ConvMode::equ;
+  Matrix Ytmp; // Holds the in-place output data while the threads are running.
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -502,8 +503,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ymat = args(2).matrix_value();
-    Y = (double*) Ymat.data(); // NB. Do  not clear data here!
+    Ytmp = args(2).matrix_value();
+    Y = (double*) Ytmp.data(); // NB. Do  not clear data here!
   }
 
   //
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 7c2a54a..2347233 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -269,6 +269,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   dream_idx_type fft_len;
   bool return_wisdom = false, load_wisdom = false;
   ConvMode conv_mode=ConvMode::equ;
+  Matrix Ytmp; // Holds the in-place output data while the threads are running.
 
   octave_value_list oct_retval;
 
@@ -485,7 +486,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ytmp = args(2).matrix_value(); // This will make it stay in scope.
+    Ytmp = args(2).matrix_value(); // This will make it stay in scope.
     Y = (double*) Ytmp.data();
   }
 
-- 
2.43.0


From 2ab6db3491d58583c9d4dab17d44d437bb8db431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 29/43] fix: conv_p rejects a fourth argument that is not a
 string

---
 extra_src/oct_conv_p.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 2e215a8..632f133 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -224,6 +224,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+      return oct_retval;
     }
     break;
 
-- 
2.43.0


From 69843b2a83fc4ede1e684cee951d11d6118f425a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 30/43] fix: fftconv_p and fftconv_ola read the mode argument
 when wisdom is also given

---
 extra_src/oct_fftconv_ola.cc | 31 +++++++++++++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 31 +++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index e033eb6..7afe619 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -519,6 +519,37 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
+    if ( args(4).is_string() ) { // 5:th arg is a string ('=', '+=', or '-=').
+
+      std::string ip_mode = args(4).string_value();
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        error("Non-valid string in arg 5!");
+        return oct_retval;
+      }
+
+    } else { // 5:th arg not a string
+      error("Argument 5 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 3d659f1..7e9e88b 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -397,6 +397,37 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
+    if ( args(3).is_string() ) { // 4:th arg is a string ('=', '+=', or '-=').
+
+      std::string ip_mode = args(3).string_value();
+
+      is_set = false;
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+
+      if (is_set == false) {
+        error("Non-valid string in arg 4!");
+        return oct_retval;
+      }
+
+    } else { // 4:th arg not a string
+      error("Argument 4 is not a valid string format!");
+      return oct_retval;
+    }
+
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
       // Read the wisdom string.
-- 
2.43.0


From 8bf7727f64e4ff84de2a3e5bc2d8781a3003bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 31/43] fix: dream_apodwin takes one weight per element for
 'ud' and rejects a missing or negative length

---
 oct/oct_dream_apodwin.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..81299e4 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -108,7 +108,17 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   //
 
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = 0;
+  if (args(0).is_string() && args(0).string_value() == "ud") {
+    num_elements = tmp1.numel(); // One user defined weight per element.
+  } else if (tmp1.numel() == 1) {
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
+
+  if (num_elements < 1) {
+    error("Argument 2 must be a window length > 0 (or the apodization weights for 'ud')!");
+    return oct_retval;
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
-- 
2.43.0


From efaa1e7169600c261ebf4b4a0d72761632d83483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:12 +0000
Subject: [PATCH 32/43] fix: dream_apodwin returns unit weights when
 apodization is off

---
 oct/oct_dream_apodwin.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index 81299e4..e9f2718 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -130,7 +130,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Create an output matrix for the impulse response
-  Matrix h_mat(num_elements,1);
+  Matrix h_mat(num_elements,1,1.0); // Unit weights when apodization is off.
   h = (double*) h_mat.data();
 
   double weight = 1.0;
-- 
2.43.0


From 2c75f6082eba579e0a4d5756609e7ed1dbeaf070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:51 +0000
Subject: [PATCH 33/43] fix: OpenCL kernels in double precision take square
 roots in double precision

---
 opencl/das_double.cl | 14 +++++++-------
 opencl/rect_sir.cl   | 10 +++++-----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index b7daf59..907c968 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -34,7 +34,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gx_tr = G[n_tr] - xo;
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -81,7 +81,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
     DAS_DATATYPE gx_t = Gt[n_t] - xo;
     DAS_DATATYPE gy_t = Gt[n_t + 1*num_t_elements] - yo;
     DAS_DATATYPE gz_t = Gt[n_t + 2*num_t_elements] - zo;
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -90,7 +90,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
       DAS_DATATYPE gx_r = Gr[n_r] - xo;
       DAS_DATATYPE gy_r = Gr[n_r + 1*num_r_elements] - yo;
       DAS_DATATYPE gz_r = Gr[n_r + 2*num_r_elements] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -152,7 +152,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
     }
     DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
     t_c += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_rows; n_r++) {
@@ -170,7 +170,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
       DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
       DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -232,7 +232,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
     }
     DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
     DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
     for (int n_c=0; n_c<num_cols; n_c++) {
 
@@ -249,7 +249,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
         }
       }
       DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
       t_c += delay_ms;            // Compensate for pulse system delay.
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 2353149..f450eab 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -167,9 +167,9 @@ __kernel void rect_sir(__global const double *Ro,
     t_z = zo / cp;
 
     tau_1 = t_z;
-    tau_2 = native_sqrt(zo*zo + s_k*s_k) / cp;
-    tau_3 = native_sqrt(zo*zo + l_k*l_k) / cp;
-    tau_4 = native_sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
+    tau_2 = sqrt(zo*zo + s_k*s_k) / cp;
+    tau_3 = sqrt(zo*zo + l_k*l_k) / cp;
+    tau_4 = sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
 
     for (it=0; it<nt; it++) {
 
@@ -181,11 +181,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( s_k / (cp * sqrt(t*t - t_z*t_z)));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * acos( l_k / (cp * sqrt(t*t - t_z*t_z)));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From bdd8fc69bdfbbee0aaf3625d3edae684c18896a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:51 +0000
Subject: [PATCH 34/43] fix: no fixed work-group size in the OpenCL host code,
 which had to divide the number of observation points

---
 opencl/cl_das.cc       | 3 +--
 opencl/cl_dreamcirc.cc | 3 +--
 opencl/cl_dreamrect.cc | 3 +--
 opencl/cl_rect_sir.cc  | 3 +--
 4 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..e38facf 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -132,9 +132,8 @@ int DAS<T>::cl_das(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
   try {
-    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
+    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, cl::NullRange); // No work group size needs to divide m_No.
   }
 
   catch (const cl::Error &err) {
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..394f45d 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -203,8 +203,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL); // No work group size needs to divide No.
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..b1b8be4 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -206,8 +206,7 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL); // No work group size needs to divide No.
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..5b6db94 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -193,8 +193,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL); // No work group size needs to divide No.
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
-- 
2.43.0


From 623b1ccf44237114daba2857d01f3136139d5349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:58 +0000
Subject: [PATCH 35/43] fix: lengths of the OpenCL buffers in das do not wrap
 at 2 GB

---
 include/das.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/das.h b/include/das.h
index c79ad2d..f506e9c 100644
--- a/include/das.h
+++ b/include/das.h
@@ -446,11 +446,11 @@ private:
   cl::Buffer m_cl_buf_gr;
   cl::Buffer m_cl_buf_Ro;
   cl::Buffer m_cl_buf_Im;
-  cl_int m_buflen_Y;
-  cl_int m_buflen_gt;
-  cl_int m_buflen_gr;
-  cl_int m_buflen_Ro;
-  cl_int m_buflen_Im;
+  size_t m_buflen_Y;
+  size_t m_buflen_gt;
+  size_t m_buflen_gr;
+  size_t m_buflen_Ro;
+  size_t m_buflen_Im;
 #endif
 
 };
-- 
2.43.0


From bece8fa4e025aaa6ce6cb91f49003d35650fd3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:58 +0000
Subject: [PATCH 36/43] fix: das without receivers runs the SAFT kernel on the
 GPU too

---
 include/das.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/das.h b/include/das.h
index f506e9c..f98df37 100644
--- a/include/das.h
+++ b/include/das.h
@@ -100,11 +100,6 @@ public:
     std::string kernel_str;
     std::string kernel_name="das_tfm"; // Default function name of the OpenCL kernel
 
-    if (m_das_type == DASType::saft) {
-      kernel_name="das_saft";
-      m_num_r_elements = 0;
-    }
-
     if (m_das_type == DASType::tfm) {
       kernel_name="das_tfm";
     }
@@ -117,6 +112,11 @@ public:
       kernel_name="das_rca_rowtx";
     }
 
+    if (m_das_type == DASType::saft || m_num_r_elements == 0) { // Without receivers it is SAFT, as on the CPU.
+      kernel_name="das_saft";
+      m_num_r_elements = 0;
+    }
+
     //
     // Read OpenCL kernels
     //
@@ -308,7 +308,7 @@ public:
     // Data
 
     dream_idx_type n_r_el = m_num_r_elements;
-    if (m_das_type == DASType::saft) {
+    if (n_r_el == 0) {
       n_r_el = 1; // So we do not multiply by 0.
     }
 
-- 
2.43.0


From 444dd2790606da617036d128d8802041e1b95464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:47 +0000
Subject: [PATCH 37/43] fix: das and rect_sir: handle Ctrl-C (SIGINT), not
 SIGABRT

---
 extra_src/oct_das.cc      | 4 ++--
 extra_src/oct_rect_sir.cc | 2 +-
 python/include/py_das.hpp | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 4984b60..cd82f40 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -488,7 +488,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_f->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
+    std::signal(SIGINT, DAS<float>::abort);
 
   } else {
 
@@ -525,7 +525,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_d->set_running();
 
     // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
+    std::signal(SIGINT, DAS<double>::abort);
   }
 
   SIRError err = SIRError::none;
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..ac2c987 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -224,7 +224,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  std::signal(SIGINT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 6cddadd..908cb30 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -216,7 +216,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  std::signal(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
-- 
2.43.0


From 90625e73b206cf7c544a43a0e3309a3e8dfe2ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:47 +0000
Subject: [PATCH 38/43] fix: circ_sir, scirc_sir: make the run flag volatile;
 it is changed by a signal handler

---
 extra_src/oct_circ_sir.cc  | 2 +-
 extra_src/oct_scirc_sir.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..10ecf6d 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -42,7 +42,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+volatile int running;
 
 //
 // typedef:s
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..9d5fccb 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -39,7 +39,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+volatile int running;
 
 //
 // typedef:s
-- 
2.43.0


From 2c425d0ac55e06369d570936ca5542995aad87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:47 +0000
Subject: [PATCH 39/43] fix: fftconv_p (Python): stop and report on Ctrl-C

---
 python/include/py_fftconv_p.hpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index bfaf724..de1b851 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -83,9 +83,26 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
 
   T *Y = static_cast<T*>(Y_mat_info.ptr);
 
-  fftconvp.run(Y,
-               A, A_M, A_N,
-               B, B_M, B_N);
+  // Register signal handler.
+  auto old_handler = std::signal(SIGINT, FFTConvP::abort);
+
+  try {
+    fftconvp.run(Y,
+                 A, A_M, A_N,
+                 B, B_M, B_N);
+  }
+
+  catch (...) {
+    std::signal(SIGINT, old_handler);
+    throw;
+  }
+
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
+  if (!fftconvp.is_running()) {
+    throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
+  }
 
   return py_Y;
 }
-- 
2.43.0


From 4159fe877d758173d1a6296f50b3aec724c1cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:47 +0000
Subject: [PATCH 40/43] fix: register the signal handlers after the last early
 return, so that they are always restored

---
 extra_src/oct_add_p.cc       | 32 ++++++++++++++++----------------
 extra_src/oct_conv_p.cc      | 32 ++++++++++++++++----------------
 extra_src/oct_copy_p.cc      | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_ola.cc | 32 ++++++++++++++++----------------
 extra_src/oct_fftconv_p.cc   | 32 ++++++++++++++++----------------
 extra_src/oct_sum_fftconv.cc | 32 ++++++++++++++++----------------
 6 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 66e0c9f..9ab3aac 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -273,22 +273,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Call the add subroutine.
   //
@@ -309,6 +293,22 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
     col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 632f133..cfe26b2 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -281,22 +281,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
@@ -349,6 +333,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (octave_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
 
     col_start = thread_n * A_N/nthreads;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 22110fa..394da3c 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -271,22 +271,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Call the mem_copy subroutine.
   //
@@ -307,6 +291,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
     line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 7afe619..8e17d2c 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -602,22 +602,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   // ********************************************
   //
   // Init the FFTW plans.
@@ -684,6 +668,22 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   running = true;
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (dream_idx_type thread_n=0; thread_n<nthreads; thread_n++) {
 
     dream_idx_type col_start = thread_n * A_N/nthreads;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 7e9e88b..3f9f9aa 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -476,22 +476,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -558,6 +542,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
     col_start = thread_n * A_N/nthreads;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 2347233..544c53e 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -425,22 +425,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     nthreads = 1;
   }
 
-  //
-  // Register signal handlers.
-  //
-
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
-
   //
   // Init the FFTW plans.
   //
@@ -510,6 +494,22 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  //
+  // Register signal handlers.
+  //
+
+  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
+  }
+
+  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
+  }
+
+  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
+    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
+  }
+
   for (thread_n=0; thread_n < nthreads; thread_n++) {
 
     col_start = thread_n * H_N/nthreads;
-- 
2.43.0


From f0953681e0691ccdc1c710ae8ceb0c0345f09c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:47 +0000
Subject: [PATCH 41/43] fix: restore the previous SIGINT handler after the
 computation; register one in dream_arr_annu

---
 extra_src/oct_das.cc              | 16 ++++++++++++++--
 extra_src/oct_rect_sir.cc         |  8 +++++++-
 oct/oct_dream_arr_annu.cc         |  6 ++++++
 oct/oct_dream_arr_circ.cc         |  5 ++++-
 oct/oct_dream_arr_cylind.cc       |  5 ++++-
 oct/oct_dream_arr_rect.cc         |  5 ++++-
 oct/oct_dreamcirc.cc              |  8 +++++++-
 oct/oct_dreamcirc_f.cc            |  5 ++++-
 oct/oct_dreamcylind.cc            |  5 ++++-
 oct/oct_dreamline.cc              |  5 ++++-
 oct/oct_dreamrect.cc              |  8 +++++++-
 oct/oct_dreamrect_f.cc            |  5 ++++-
 oct/oct_dreamsphere.cc            |  5 ++++-
 python/include/py_das.hpp         |  9 ++++++++-
 python/src/py_dream_arr_annu.cc   |  5 ++++-
 python/src/py_dream_arr_circ.cc   |  5 ++++-
 python/src/py_dream_arr_cylind.cc |  5 ++++-
 python/src/py_dream_arr_rect.cc   |  5 ++++-
 python/src/py_dreamcirc.cc        |  5 ++++-
 python/src/py_dreamcirc_f.cc      |  5 ++++-
 python/src/py_dreamcylind.cc      |  5 ++++-
 python/src/py_dreamline.cc        |  5 ++++-
 python/src/py_dreamrect.cc        |  5 ++++-
 python/src/py_dreamrect_f.cc      |  5 ++++-
 python/src/py_dreamsphere.cc      |  5 ++++-
 25 files changed, 125 insertions(+), 25 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index cd82f40..f91b4ce 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -442,6 +442,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   FloatMatrix Im_mat_f;
   float *Im_f = nullptr;
   double *Im_d = nullptr;
+  void (*old_handler)(int) = SIG_DFL;
 
   bool init_das = true;
 
@@ -488,7 +489,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_f->set_running();
 
     // Register signal handler.
-    std::signal(SIGINT, DAS<float>::abort);
+    old_handler = std::signal(SIGINT, DAS<float>::abort);
 
   } else {
 
@@ -525,7 +526,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     das_d->set_running();
 
     // Register signal handler.
-    std::signal(SIGINT, DAS<double>::abort);
+    old_handler = std::signal(SIGINT, DAS<double>::abort);
   }
 
   SIRError err = SIRError::none;
@@ -541,6 +542,9 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
     }
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 
 #endif
@@ -553,6 +557,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     if (use_float) { // Single precision
 
       err = das_f->das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_type, delay_f, cp_f, Im_f, err_level);
+
+      // Restore the old signal handler.
+      std::signal(SIGINT, old_handler);
+
       if (!das_f->is_running()) {
         if (err == SIRError::out_of_bounds) {
           error("DAS out-of-bounds!\n"); // Bail out.
@@ -566,6 +574,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     } else { // Double precision
 
       err = das_d->das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_type, delay_d, cp_d, Im_d, err_level);
+
+      // Restore the old signal handler.
+      std::signal(SIGINT, old_handler);
+
       if (!das_d->is_running()) {
         if (err == SIRError::out_of_bounds) {
           error("DAS out-of-bounds!\n"); // Bail out.
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index ac2c987..8da0335 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -224,7 +224,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGINT, RectSir::abort);
+  auto old_handler = std::signal(SIGINT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
@@ -236,6 +236,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   if (device == "gpu") {
     rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -246,6 +249,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        v, cp,
                                        h);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!rect_sir.is_running()) {
       dream_err_msg("CTRL-C pressed!\n"); // Bail out.
     }
diff --git a/oct/oct_dream_arr_annu.cc b/oct/oct_dream_arr_annu.cc
index 991a3af..f363542 100644
--- a/oct/oct_dream_arr_annu.cc
+++ b/oct/oct_dream_arr_annu.cc
@@ -293,6 +293,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrAnnu arr_annu;
 
+  // Register signal handler.
+  auto old_handler = std::signal(SIGINT, ArrAnnu::abort);
+
   //
   // Call the DREAM subroutine.
   //
@@ -307,6 +310,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_annu.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..9ce7dd3 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -334,7 +334,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
@@ -352,6 +352,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..756c1df 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -338,7 +338,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -356,6 +356,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                              apod.get(), do_apod, apod_met, apod_par,
                                              h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..9c17268 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -336,7 +336,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -354,6 +354,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                 apod.get(), do_apod, apod_met, apod_par,
                                 h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..cd2d635 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -221,7 +221,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
@@ -236,6 +236,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
     circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -247,6 +250,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                          v,  cp,
                          h, err_level);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!circ.is_running()) {
       if (err == SIRError::out_of_bounds) {
         error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..ba49ebb 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -227,7 +227,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -242,6 +242,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..92e9035 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -213,7 +213,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
@@ -227,6 +227,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
                                     v,  cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..866872c 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -192,7 +192,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
@@ -206,6 +206,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                 v,cp,
                                 h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..88ab928 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -224,7 +224,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
@@ -238,6 +238,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   if (device == "gpu") {
     rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 #endif
 
@@ -249,6 +252,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                          v, cp,
                          h, err_level);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!rect.is_running()) {
       if (err == SIRError::out_of_bounds) {
         error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..4a82d54 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -230,7 +230,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
@@ -245,6 +245,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..cdbecc9 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -205,7 +205,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
@@ -219,6 +219,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
                                     v,cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       error("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 908cb30..a7ab3a0 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -216,7 +216,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGINT, DAS<T>::abort);
+  auto old_handler = std::signal(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
@@ -225,6 +225,9 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
 
     das->cl_das(Y, Ro, Gt, Gr, dt, delay[0], cp, Im);
 
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
   } else { // Otherwise use the cpu
 
 #endif
@@ -235,6 +238,10 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     }
 
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
+
+    // Restore the old signal handler.
+    std::signal(SIGINT, old_handler);
+
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
         dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index eab4903..1668cf8 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -165,7 +165,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  auto old_handler = std::signal(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
@@ -183,6 +183,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_annu.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index f7fea96..1b5afe8 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  auto old_handler = std::signal(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
@@ -209,6 +209,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index f899ea9..6bf7f23 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  auto old_handler = std::signal(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
@@ -209,6 +209,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
                                              apod.get(), do_apod, apod_met, apod_par,
                                              h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 7412c17..310eacd 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  auto old_handler = std::signal(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
@@ -209,6 +209,9 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
                                          apod.get(), do_apod, apod_met, apod_par,
                                          h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!arr_rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 45290f7..eadd2b4 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  auto old_handler = std::signal(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
@@ -143,6 +143,9 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index 29eaaca..8924657 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -142,7 +142,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  auto old_handler = std::signal(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
@@ -157,6 +157,9 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!circ_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 6544a51..b477581 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  auto old_handler = std::signal(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
@@ -143,6 +143,9 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!cylind.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index 3403bb3..b0a9c36 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -129,7 +129,7 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  auto old_handler = std::signal(SIGINT, Line::abort);
 
   //
   // Call DREAM function
@@ -143,6 +143,9 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!line.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index 2676e73..66b1d18 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -129,7 +129,7 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  auto old_handler = std::signal(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
@@ -143,6 +143,9 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
                        v, cp,
                        h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index ae7505e..e2bcc2f 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -142,7 +142,7 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  auto old_handler = std::signal(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
@@ -157,6 +157,9 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!rect_f.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index 0a9e415..e8ef328 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  auto old_handler = std::signal(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
@@ -143,6 +143,9 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
                                     v, cp,
                                     h, err_level);
 
+  // Restore the old signal handler.
+  std::signal(SIGINT, old_handler);
+
   if (!sphere.is_running()) {
     if (err == SIRError::out_of_bounds) {
       dream_err_msg("SIR out-of-bounds!\n"); // Bail out.
-- 
2.43.0


From 0d18d5b2ff01ad85f3e27efdf98e1c292cfa91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:40 +0000
Subject: [PATCH 42/43] fix: dreamline: look for Octave's interrupts at every
 observation point, not once per thread

---
 src/dreamline.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dreamline.cc b/src/dreamline.cc
index cdcb7f3..9d1f8f8 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -97,6 +97,18 @@ void* Line::smp_dream_line(void *arg)
     x_vec = std::make_unique<FFTVec>(nt);
   }
 
+  for (n=start; n<stop; n++) {
+    xo = Ro[n];
+    yo = Ro[n+1*No];
+    zo = Ro[n+2*No];
+
+    double dlay = 0.0;
+    if (D->delay_type == DelayType::single) {
+      dlay = delay[0];
+    } else { // DelayType::multiple.
+      dlay = delay[n];
+    }
+
 #ifdef OCTAVE
     // Octave throws an exception when pressing CTRL-C
     // so catch it here and set running to false.
@@ -111,18 +123,6 @@ void* Line::smp_dream_line(void *arg)
     catch (int &signum) {;}
 #endif
 
-  for (n=start; n<stop; n++) {
-    xo = Ro[n];
-    yo = Ro[n+1*No];
-    zo = Ro[n+2*No];
-
-    double dlay = 0.0;
-    if (D->delay_type == DelayType::single) {
-      dlay = delay[0];
-    } else { // DelayType::multiple.
-      dlay = delay[n];
-    }
-
     if (att == nullptr) {
       err = dreamline_serial(xo,yo,zo,a,dx,dy,dt,nt,dlay,v,cp, &h[n*nt], err_level);
     } else {
-- 
2.43.0


From 2b8c975c6205b3e6d6472a9b99f61f34a9eae603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:40 +0000
Subject: [PATCH 43/43] fix: das, rect_sir, convolution, copy, add and circ
 tools: look for Octave's interrupts in the threads

---
 extra_src/das.cc             | 18 ++++++++++++++++++
 extra_src/oct_add_p.cc       | 12 ++++++++++++
 extra_src/oct_circ_sir.cc    | 24 ++++++++++++++++++++++++
 extra_src/oct_conv_p.cc      | 12 ++++++++++++
 extra_src/oct_copy_p.cc      | 12 ++++++++++++
 extra_src/oct_fftconv_ola.cc | 24 ++++++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 24 ++++++++++++++++++++++++
 extra_src/oct_scirc_sir.cc   | 24 ++++++++++++++++++++++++
 extra_src/oct_sum_fftconv.cc | 12 ++++++++++++
 extra_src/rect_sir.cc        | 18 ++++++++++++++++++
 10 files changed, 180 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 4e3e564..d728e77 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -29,6 +29,10 @@
 #include "das.h"
 #include "affinity.h"
 
+#ifdef OCTAVE
+#include <octave/oct.h>
+#endif
+
 std::mutex err_mutex;
 std::atomic<bool> running;
 
@@ -180,6 +184,20 @@ void* DAS<T>::smp_das(void *arg)
       running = false; // Tell all threads to exit.
     }
 
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     if (!running) {
       std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
       return(NULL);
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 9ab3aac..392c423 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -95,6 +95,18 @@ void* smp_dream_add_p(void *arg)
       A[r+(k+n)*A_M + l] += B[l+n*B_M];
     }
 
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+
     if (running==false) {
       octave_stdout << "add_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
       break;
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 10ecf6d..39958fd 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -102,6 +102,18 @@ void* smp_dream_circ_sir(void *arg)
 
       circ_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (!running) {
         octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
@@ -116,6 +128,18 @@ void* smp_dream_circ_sir(void *arg)
 
       circ_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (!running) {
         octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index cfe26b2..d443b41 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -94,6 +94,18 @@ void* smp_dream_conv(void *arg)
     else // B is a vector.
       conv( &A[0+n*A_M], A_M, B, B_M, &Y[0+n*(A_M+B_M-1)], conv_mode);
 
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+
     if (running == false) {
       octave_stdout << "conv_p: thread for column " << col_start+1 << " -> " << col_stop << "bailing out!\n";
       break;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 394da3c..53cebb6 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -93,6 +93,18 @@ void* smp_dream_copy_p(void *arg)
 
     memcpy( &A[r+(k+n)*A_M], &B[0+n*B_M], len*sizeof(double));
 
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+
     if (running==false) {
       octave_stdout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!\n";
       break;
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 8e17d2c..a001361 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -182,6 +182,18 @@ void* smp_dream_fftconv_ola(void *arg)
         k += block_len;
       }
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (running==false) {
         octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
@@ -254,6 +266,18 @@ void* smp_dream_fftconv_ola(void *arg)
         k += block_len;
       } // while
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (running==false) {
         octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 3f9f9aa..c34e8ad 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -125,6 +125,18 @@ void* smp_dream_fftconv(void *arg)
       Bp += B_M;
       Yp += fft_len;
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (running==false) {
         octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
         break;
@@ -143,6 +155,18 @@ void* smp_dream_fftconv(void *arg)
       Ap += A_M;
       Yp += fft_len;
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (running==false) {
         octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
         break;
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 9d5fccb..2f1550d 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -100,6 +100,18 @@ void* smp_dream_scirc_sir(void *arg)
 
       scirc_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (!running) {
         octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
@@ -114,6 +126,18 @@ void* smp_dream_scirc_sir(void *arg)
 
       scirc_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+
       if (!running) {
         octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
         return(NULL);
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 544c53e..392aa01 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -120,6 +120,18 @@ void* smp_dream_sum_fftconv(void *arg)
                 a, b, c, af, bf, cf,
                 conv_mode);
 
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+
     if (running==false) {
       octave_stdout << "sum_fftconv: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
       break;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 411e15f..66d3f86 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -29,6 +29,10 @@
 #include "rect_sir.h"
 #include "affinity.h"
 
+#ifdef OCTAVE
+#include <octave/oct.h>
+#endif
+
 //std::mutex err_mutex;
 std::atomic<bool> running;
 
@@ -113,6 +117,20 @@ void* RectSir::smp_rect_sir(void *arg)
       }
     }
     */
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     if (!running) {
       std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
       return(NULL);
-- 
2.43.0

