From df2c865a23746ca7b50a97419491180254061c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:20 +0000
Subject: [PATCH 01/22] fix: zero the DS kernel at the surface only under a
 free top boundary

With a half-space or rigid top boundary the vertical dip-slip response of a
source and receiver both at depth 0 does not vanish.
---
 pygrt/C_extension/src/integral/kernel_template.c_ | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/kernel_template.c_ b/pygrt/C_extension/src/integral/kernel_template.c_
index 24d5436..7e71c2e 100644
--- a/pygrt/C_extension/src/integral/kernel_template.c_
+++ b/pygrt/C_extension/src/integral/kernel_template.c_
@@ -277,8 +277,8 @@ void __BUILD_QWV__(MODEL1D_STATE *mstat, cplxChnlGrid QWV, bool calc_uiz, cplxCh
     BEFORE_RETURN:
 
     // 对一些特殊情况的修正
-    // 当震源和场点均位于地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
-    if(mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0)
+    // 当震源和场点均位于自由地表时，可理论验证DS分量恒为0，这里直接赋0以避免后续的精度干扰
+    if(mod1d->depsrc == 0.0 && mod1d->deprcv == 0.0 && mod1d->topbound == GRT_BOUND_FREE)
     {
         for(int c=0; c<GRT_CHANNEL_NUM; ++c){
             QWV[GRT_SRC_M_DS_INDEX][c] = 0.0;
-- 
2.43.0


From 7e81e161a65a001d1af4c8bb1584b627f52e917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:18 +0000
Subject: [PATCH 02/22] fix: use the P-wave attenuation factor in the first
 Lame parameter

---
 pygrt/C_extension/src/common/model.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/common/model.c b/pygrt/C_extension/src/common/model.c
index 577838f..c800a13 100755
--- a/pygrt/C_extension/src/common/model.c
+++ b/pygrt/C_extension/src/common/model.c
@@ -411,7 +411,7 @@ void grt_update_mod1d_state_omega(MODEL1D_STATE *mstat, const cplx_t omega, cons
         mstat->atnb[i] = atnb;
         
         mstat->mu[i] = (Vb0*atnb)*(Vb0*atnb)*(mod1d->Rho[i]);
-        mstat->lambda[i] = (Va0*atnb)*(Va0*atnb)*(mod1d->Rho[i]) - 2*mstat->mu[i];
+        mstat->lambda[i] = (Va0*atna)*(Va0*atna)*(mod1d->Rho[i]) - 2*mstat->mu[i];
         mstat->delta[i] = (mstat->lambda[i] + mstat->mu[i]) / (mstat->lambda[i] + 3.0*mstat->mu[i]);
     }
 }
-- 
2.43.0


From e1328af0041099b5f7abcdb70a46b2524bd3605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:33 +0000
Subject: [PATCH 03/22] fix: periodic convolution read before the trace when
 the time function is longer than the trace

---
 pygrt/C_extension/src/dynamic/signals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index 849b3b0..bfe4905 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -137,7 +137,7 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
         for(int n=0; n<ny; ++n) {
             y[n] = 0.0;
             for(int k=0; k<nh; ++k) {
-                y[n] += x[(n - k + nx)%nx] * h[k];
+                y[n] += x[((n - k)%nx + nx)%nx] * h[k];
             }
         }
     } else {
-- 
2.43.0


From 289ca44091b8a734e98fb922e45120de06f11f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:33 +0000
Subject: [PATCH 04/22] fix: trapezoid area multiplies by the sampling interval

---
 pygrt/C_extension/src/dynamic/signals.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/signals.c b/pygrt/C_extension/src/dynamic/signals.c
index bfe4905..a1d82ae 100644
--- a/pygrt/C_extension/src/dynamic/signals.c
+++ b/pygrt/C_extension/src/dynamic/signals.c
@@ -156,7 +156,7 @@ void grt_oaconvolve(float *x, int nx, float *h, int nh, float *y, int ny, bool i
 float grt_trap_area(const float *x, int nx, float dt){
     float area = 0.0;
     for(int i=0; i<nx-1; ++i){
-        area += (x[i] + x[i+1])*0.5/dt;
+        area += (x[i] + x[i+1])*0.5*dt;
     }
     return area;
 }
-- 
2.43.0


From a6e69e44986dd89ef3f482f39f7f064f0959278f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:23 +0000
Subject: [PATCH 05/22] fix: damp the whole time function when it is longer
 than the trace

---
 pygrt/C_extension/src/dynamic/grt_syn.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_syn.c b/pygrt/C_extension/src/dynamic/grt_syn.c
index c81057a..39f8e05 100644
--- a/pygrt/C_extension/src/dynamic/grt_syn.c
+++ b/pygrt/C_extension/src/dynamic/grt_syn.c
@@ -929,8 +929,9 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
         float wI = sac->hd.user0;
         float fac = 1.0f;
         float dfac = expf(-wI * dt);
-        for(int n = 0; n < nt; ++n){
-            sac->data[n] *= fac;
+        int nmax = (nt > tfsac->hd.npts)? nt : tfsac->hd.npts;  // 时间函数可能比记录更长
+        for(int n = 0; n < nmax; ++n){
+            if(n < nt) sac->data[n] *= fac;
             if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
             fac *= dfac;
         }
@@ -939,8 +940,8 @@ static void syn_postprocess_trace(SACTRACE *sac, SACTRACE *tfsac, int int_times,
         grt_oaconvolve(sac->data, nt, tfsac->data, tfsac->hd.npts, convarr, nt, true);
         fac = 1.0f;
         dfac = expf(wI * dt);
-        for(int n = 0; n < nt; ++n){
-            sac->data[n] = convarr[n] * fac * dt;
+        for(int n = 0; n < nmax; ++n){
+            if(n < nt) sac->data[n] = convarr[n] * fac * dt;
             if(n < tfsac->hd.npts) tfsac->data[n] *= fac;
             fac *= dfac;
         }
-- 
2.43.0


From ddcc4f0631fff6967355b2b224229226641d2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:43 +0000
Subject: [PATCH 06/22] fix: find the distance bracket from the samples when
 the library distances are only nearly uniform

---
 pygrt/C_extension/src/static/grt_static_syn.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/static/grt_static_syn.c b/pygrt/C_extension/src/static/grt_static_syn.c
index aa07e37..936cc0d 100644
--- a/pygrt/C_extension/src/static/grt_static_syn.c
+++ b/pygrt/C_extension/src/static/grt_static_syn.c
@@ -702,7 +702,11 @@ static void static_syn_from_gf(
 
         size_t sort_ir_pick = 0, sort_ir_pick1 = 0;
         if(isUniform){
-            sort_ir_pick = (size_t)((dist - sort_rs0[0]) / dr);
+            // 等距判定有容差，仅作初值，再按实际采样点修正所在区间
+            sort_ir_pick = (size_t)GRT_MAX(0.0, (dist - sort_rs0[0]) / dr);
+            sort_ir_pick = GRT_MIN(sort_ir_pick, nr0-1);
+            while(sort_ir_pick > 0 && sort_rs0[sort_ir_pick] > dist)  --sort_ir_pick;
+            while(sort_ir_pick < nr0-1 && sort_rs0[sort_ir_pick+1] <= dist)  ++sort_ir_pick;
         } else {
             for(sort_ir_pick = 0; sort_ir_pick < nr0-1; ++sort_ir_pick)   if(sort_rs0[sort_ir_pick+1] > dist)  break;
         }
-- 
2.43.0


From 259597e92c84d92176af405f7d06b4834ce19b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 07/22] fix: drop the extra finite-fault block that rounding of
 an exact quotient can add

---
 pygrt/C_extension/src/common/finite_fault.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pygrt/C_extension/src/common/finite_fault.c b/pygrt/C_extension/src/common/finite_fault.c
index cf66b3d..531c6ac 100644
--- a/pygrt/C_extension/src/common/finite_fault.c
+++ b/pygrt/C_extension/src/common/finite_fault.c
@@ -190,6 +190,9 @@ void grt_finite_fault_subdiv(
     }
     *nW = GRT_MAX(1, (size_t)ceil(*W / dW));
     *nL = GRT_MAX(1, (size_t)ceil(*L / dL));
+    // 整除时商的舍入误差可能使末块尺寸不为正，此时末块不存在
+    if(*nW > 1 && *W - (*nW - 1) * dW <= 0.0)  --*nW;
+    if(*nL > 1 && *L - (*nL - 1) * dL <= 0.0)  --*nL;
 }
 
 
-- 
2.43.0


From da4ee964c077d5157eec02191067fca626b41c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:08 +0000
Subject: [PATCH 08/22] fix: scale the Okada tensile point source by its
 potency, as static_syn and Kode 500 do

---
 pygrt/C_extension/src/okada/grt_okada.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/okada/grt_okada.c b/pygrt/C_extension/src/okada/grt_okada.c
index ddc4711..b4f18fb 100644
--- a/pygrt/C_extension/src/okada/grt_okada.c
+++ b/pygrt/C_extension/src/okada/grt_okada.c
@@ -412,7 +412,7 @@ static void add_point_source(const GRT_MODULE_CTRL *ctrl, const OKADA_MEDIUM_PAR
         pot1 = scalar * cos(ctrl->M.rake * DEG1);
         pot2 = scalar * sin(ctrl->M.rake * DEG1);
     } else {
-        pot3 = ctrl->S.mult_src_mu ? ctrl->S.value * medium->mu / medium->lambda : ctrl->S.value / medium->lambda;
+        pot3 = scalar;
     }
 
     // Okada 点源输出的位移和偏导分别需要乘以 1e-10 和 1e-15
-- 
2.43.0


From 8250843eda8bc05decedbd56df08dd03bc1eb542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:57 +0000
Subject: [PATCH 09/22] fix: sign of the sine in the end terms of the linear
 Filon integral

---
 pygrt/C_extension/src/integral/k_integ.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/integral/k_integ.c b/pygrt/C_extension/src/integral/k_integ.c
index 5e840b0..efd7609 100644
--- a/pygrt/C_extension/src/integral/k_integ.c
+++ b/pygrt/C_extension/src/integral/k_integ.c
@@ -153,7 +153,7 @@ void grt_int_Pk(real_t k, real_t r, const cplxChnlGrid QWV, bool calc_uir, cplxI
 void grt_int_Pk_filon(real_t k, real_t r, bool iscos, const cplxChnlGrid QWV, bool calc_uir, cplxIntegGrid SUM)
 {
     real_t phi0 = 0.0;
-    if(! iscos)  phi0 = - HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数
+    if(! iscos)  phi0 = HALFPI;  // 在cos函数中添加的相位差，用于计算sin函数
 
     real_t kr = k*r;
     real_t kcoef = sqrt(k);
-- 
2.43.0


From 5fe930549b7751a0504fb231191576f14427dd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 10/22] fix: subtract the convergence term of the true upper
 limit when a Filon part follows the discrete sum

---
 pygrt/C_extension/src/integral/dwm.c           | 2 +-
 pygrt/C_extension/src/integral/integ_process.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/integral/dwm.c b/pygrt/C_extension/src/integral/dwm.c
index a5e2a21..5cacb3b 100644
--- a/pygrt/C_extension/src/integral/dwm.c
+++ b/pygrt/C_extension/src/integral/dwm.c
@@ -59,7 +59,7 @@ real_t grt_discrete_integ(
         }
 
         if(K->applyDCM){
-            grt_int_dcm_revision(kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
+            grt_int_dcm_revision(K->kmax, k, K->QWV, K->QWV_kmax, K->calc_upar, K->QWVz, K->QWVz_kmax);
         }
 
         // 记录积分核函数
diff --git a/pygrt/C_extension/src/integral/integ_process.c b/pygrt/C_extension/src/integral/integ_process.c
index 9945af0..cc2fc97 100644
--- a/pygrt/C_extension/src/integral/integ_process.c
+++ b/pygrt/C_extension/src/integral/integ_process.c
@@ -130,7 +130,7 @@ K_INTEG * grt_wavenumber_integral(
         if(mstat->stats==GRT_INVERSE_FAILURE)  goto BEFORE_RETURN;
     }
     else if(Kproc->cvgmet == K_INTEG_CONVERG_DCM){
-        grt_dcm_correction(nr, rs, Kproc->dk, kcut, Kint, !isFilon);
+        grt_dcm_correction(nr, rs, Kproc->dk, Kint->kmax, Kint, !isFilon);
     }
 
 
-- 
2.43.0


From c30ec76fc00b0b37c66ab3c4f804fa3091976a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 11/22] fix: start the Filon part where the cells of the
 discrete sum end

---
 pygrt/C_extension/src/integral/fim.c   | 8 +++++---
 pygrt/C_extension/src/integral/safim.c | 3 ++-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/integral/fim.c b/pygrt/C_extension/src/integral/fim.c
index 4407fdd..e23b9bf 100755
--- a/pygrt/C_extension/src/integral/fim.c
+++ b/pygrt/C_extension/src/integral/fim.c
@@ -32,7 +32,9 @@ real_t grt_linear_filon_integ(
     // 从0开始，存储第二部分Filon积分的结果
     K_INTEG *K2 = grt_init_K_INTEG(K->calc_upar, nr);
 
-    real_t k=k0; 
+    // 离散求和的最后一个节点 k0 代表到 k0 + dk0/2 的积分，Filon积分由该点开始
+    k0 += 0.5*dk0;
+    real_t k = k0 - dk; 
     
     // 所有震中距的k循环是否结束
     bool iendk = true;
@@ -41,7 +43,7 @@ real_t grt_linear_filon_integ(
     bool *iendkrs = (bool *)calloc(nr, sizeof(bool)); // 自动初始化为 false
     bool iendk0 = false;
 
-    size_t nk = floor((kmax - k0) / dk) + 1L;
+    size_t nk = floor((kmax - k0) / dk) + 2L;
 
     // k循环 
     for(size_t ik = 0; ik < nk; ++ik){
@@ -155,7 +157,7 @@ real_t grt_linear_filon_integ(
     for(int iik=0; iik<2; ++iik){ 
         real_t k0N;
         int sgn;
-        if(0==iik)       {k0N = k0+dk; sgn =  1.0;}
+        if(0==iik)       {k0N = k0; sgn =  1.0;}
         else if(1==iik)  {k0N = k;     sgn = -1.0;}
         else {
             GRTRaiseError("Filon error.\n");
diff --git a/pygrt/C_extension/src/integral/safim.c b/pygrt/C_extension/src/integral/safim.c
index b817540..ab02d71 100644
--- a/pygrt/C_extension/src/integral/safim.c
+++ b/pygrt/C_extension/src/integral/safim.c
@@ -286,7 +286,8 @@ real_t grt_sa_filon_integ(
     size_t nr, real_t *rs, K_INTEG *K, FILE *fstats, GRT_KernelFunc kerfunc)
 {   
     
-    real_t kmin = k0 + dk0;
+    // 离散求和的最后一个节点 k0 代表到 k0 + dk0/2 的积分，Filon积分由该点开始
+    real_t kmin = k0 + 0.5*dk0;
     if(kmin >= kmax)  return k0;
 
     // 从0开始，存储第二部分Filon积分的结果
-- 
2.43.0


From 01140454e9f8b787c2558ffa0f54545b9322add3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:24 +0000
Subject: [PATCH 12/22] fix: use the middle sample, not the extrapolation to
 zero, when a turning point falls outside its window

---
 pygrt/C_extension/src/integral/ptam.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pygrt/C_extension/src/integral/ptam.c b/pygrt/C_extension/src/integral/ptam.c
index 59dca8b..e47828b 100755
--- a/pygrt/C_extension/src/integral/ptam.c
+++ b/pygrt/C_extension/src/integral/ptam.c
@@ -78,7 +78,7 @@ static int _cplx_peak_or_trough(
 
     real_t k0 = x2;
     *pk = k0;
-    *value = 0.0;
+    *value = f2;
     if(a != 0.0+0.0*I){
         k0 = - b / (2*a);
 
@@ -88,11 +88,9 @@ static int _cplx_peak_or_trough(
             // printf("a=%f%+fI, b=%f%+fI, c=%f%+fI, xarr=(%f,%f,%f), yarr=(%f%+fI, %f%+fI, %f%+fI)\n", 
             //         creal(a),cimag(a),creal(b),cimag(b),creal(c),cimag(c),x1,x2,x3,creal(f1),cimag(f1),creal(f2),cimag(f2),creal(f3),cimag(f3));
             *pk = k0;
-            *value = a*k0*k0 + b*k0;
+            *value = a*k0*k0 + b*k0 + c;
         }
     } 
-    *value += c;
-    
     return stat;
 }
 
-- 
2.43.0


From 531bbd650ee7ac2f06388d472d13793fc3a8f9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 13/22] fix: keep searching deeper refractors after one is
 later than the current first arrival

A head wave along a barely faster layer needs a long detour, so its time
can exceed the current minimum while a faster layer further away still
carries the first arrival; ending the whole search there lost it.
---
 pygrt/C_extension/src/common/travt.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 8d741cb..0b23c08 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -209,8 +209,8 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
+            // 不考虑透射部分，走时已经超过当前最小走时，这一层的透射不必再讨论
+            if(sumt > travt) continue;
 
             if(badrefrac) continue;
 
@@ -236,8 +236,8 @@ real_t grt_compute_travt1d(
                 }
             }
 
-            // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-            if(sumt > travt) break;
+            // 不考虑透射部分，走时已经超过当前最小走时，这一层的透射不必再讨论
+            if(sumt > travt) continue;
 
             if(badrefrac) continue;
 
@@ -321,8 +321,8 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
+        // 不考虑透射部分，走时已经超过当前最小走时，这一层的透射不必再讨论
+        if(sumt > travt) continue;
 
         if(badrefrac) continue;
 
@@ -348,8 +348,8 @@ real_t grt_compute_travt1d(
             }
         }
 
-        // 不考虑透射部分，走时已经超过当前最小走时，透射循环可结束
-        if(sumt > travt) break;
+        // 不考虑透射部分，走时已经超过当前最小走时，这一层的透射不必再讨论
+        if(sumt > travt) continue;
 
         if(badrefrac) continue;
 
-- 
2.43.0


From 78cce83c83db29673fccc820df0cf6a9f3f2f8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:15 +0000
Subject: [PATCH 14/22] fix: a point on an interface must not bound its
 downgoing ray by the layer above

The zero-thickness layer of a point lying on an interface keeps the
velocity of the layer above. When the layer below is slower, the shooting
was limited to slownesses below that velocity, so distant receivers got the
time of a far nearer one (1.7 s at 100 km).
---
 pygrt/C_extension/src/common/travt.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pygrt/C_extension/src/common/travt.c b/pygrt/C_extension/src/common/travt.c
index 0b23c08..51f7e4b 100644
--- a/pygrt/C_extension/src/common/travt.c
+++ b/pygrt/C_extension/src/common/travt.c
@@ -39,6 +39,12 @@ real_t grt_compute_travt1d(
     }
     
 
+    // 若较浅的点恰好位于界面上，其零厚度层沿用了上覆层的速度，但两点之间的射线
+    // 并不经过上覆层，此时该速度不应限制射线
+    if(imax - imin > 1 && Thk[imin] == 0.0 && Vel[imin] > Vel[imin+1]){
+        Vel[imin] = Vel[imin+1];
+    }
+
     // 震源和场点速度
     real_t vsrc = Vel[isrc];
     real_t vrcv = Vel[ircv];
-- 
2.43.0


From 8210ae20f49aa99a0d7cd4d0db927baaad38d590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 15/22] fix: use the straight-line distance for the end of the
 time window

With -E<t0>/<v0> the window starts at t0 + hypot(r, dz)/v0, but the
automatic wavenumber step assumed t0 + r/v0, so for a deep source close to
the receiver the spurious periodic sources could arrive inside the window.
---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 82257c0..3af6011 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -873,7 +873,8 @@ static void prepare_grn_spec(
     real_t tmax = 0.0;
     if(!refFirstP){
         tmax = delayT0 + winT;
-        if(delayV0 > 0.0)   tmax += rmax / delayV0;
+        // 与实际的起始时间一致，使用直线距离
+        if(delayV0 > 0.0)   tmax += hypot(rmax, mod1d->deprcv - mod1d->depsrc) / delayV0;
     } else {
         real_t maxP = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, rmax);
         tmax = delayT0 + maxP + winT;
-- 
2.43.0


From 080b8db7bbbe3a8b8f86faae95fd5e706109df4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:36 +0000
Subject: [PATCH 16/22] fix: automatic wavenumber step at zero epicentral
 distance

With only zero distance the automatic length was left at its default, so
the step came from the minimum number of nodes alone and the spurious
periodic sources arrived inside the time window. Take the limit r -> 0 of
the same criterion instead.
---
 pygrt/C_extension/src/dynamic/grt_greenfn.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grt_greenfn.c b/pygrt/C_extension/src/dynamic/grt_greenfn.c
index 3af6011..21f6af7 100644
--- a/pygrt/C_extension/src/dynamic/grt_greenfn.c
+++ b/pygrt/C_extension/src/dynamic/grt_greenfn.c
@@ -880,12 +880,12 @@ static void prepare_grn_spec(
         tmax = delayT0 + maxP + winT;
     }
 
-    // 自动选择积分间隔；rmax=0 时保留默认值
+    // 自动选择积分间隔；rmax=0 时以阈值代替，即 dk 趋于 r -> 0 的极限
     if(Length == 0.0){
         Length = 15.0;
         real_t jus = GRT_SQUARE(vmax * tmax) - GRT_SQUARE(mod1d->deprcv - mod1d->depsrc);
-        if(jus >= 0.0 && !GRT_IS_ZERO(rmax)){
-            Length = GRT_MAX(1.0 + sqrt(jus) / rmax + 0.5, Length); // +0.5为保守值
+        if(jus >= 0.0){
+            Length = GRT_MAX(1.0 + sqrt(jus) / GRT_MAX(rmax, GRT_ZERO_DISTANCE) + 0.5, Length); // +0.5为保守值
         }
     }
 
-- 
2.43.0


From 5d4f701e52e3762959316dbc8d998970b757cdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:49 +0000
Subject: [PATCH 17/22] fix: keep the minimum number of wavenumber nodes when
 kmax is set with -K+f

At zero epicentral distance the step derived from the distance is
meaningless and is meant to be replaced by kmax/GRT_MIN_NK, which was done
only when kmax is searched; with -K+f the results were silently all zero.
---
 pygrt/C_extension/src/dynamic/grn.c       | 27 ++++++++++++-----------
 pygrt/C_extension/src/static/static_grn.c | 19 ++++++++--------
 2 files changed, 24 insertions(+), 22 deletions(-)

diff --git a/pygrt/C_extension/src/dynamic/grn.c b/pygrt/C_extension/src/dynamic/grn.c
index 33afeec..6343869 100755
--- a/pygrt/C_extension/src/dynamic/grn.c
+++ b/pygrt/C_extension/src/dynamic/grn.c
@@ -149,9 +149,10 @@ void grt_integ_grn_spec(MODEL1D *mod1d, K_INTEG_PROCESS *Kproc, GRNSPEC *grn, co
         //                          Wavenumber Integration
         // 每个频率根据 kmax_ref 与核函数振幅搜索实际积分上限
         real_t kmax_ref = hypot(local_Kproc->k0, local_Kproc->ampk * w / local_Kproc->vmin);
+        size_t nk = 0;
         if(local_Kproc->use_kmax_ref){
             local_Kproc->kmax = kmax_ref;
-            size_t nk = floor(local_Kproc->kmax / local_Kproc->dk) + 1;
+            nk = floor(local_Kproc->kmax / local_Kproc->dk) + 1;
             #pragma omp critical(grn_console)
             {
                 // 同步终端输出，避免日志覆盖进度条
@@ -167,7 +168,7 @@ void grt_integ_grn_spec(MODEL1D *mod1d, K_INTEG_PROCESS *Kproc, GRNSPEC *grn, co
             local_Kproc->kmax = grt_predict_kmax(local_mstat, grt_kernel, local_Kproc->dk,
                 w / local_Kproc->vmin, kmax_ref, &ncount);
                 
-            size_t nk = floor(local_Kproc->kmax / local_Kproc->dk) + 1;
+            nk = floor(local_Kproc->kmax / local_Kproc->dk) + 1;
             bool kmax_reaches_ref = (local_Kproc->cvgmet == K_INTEG_CONVERG_AUTO &&
                 local_Kproc->kmax >= kmax_ref);
             if(kmax_reaches_ref){
@@ -189,20 +190,20 @@ void grt_integ_grn_spec(MODEL1D *mod1d, K_INTEG_PROCESS *Kproc, GRNSPEC *grn, co
                     grt_printprogressBar("Computing Green Functions: ", progress*100/nf_valid);
                 }
             }
+        }
 
-            // 若 nk 不够，适当调整 dk（与静态解一致）
-            if(nk < GRT_MIN_NK){
-                real_t new_dk = local_Kproc->kmax / GRT_MIN_NK;
-                #pragma omp critical(grn_console)
-                {
-                    if(print_log){
-                        printf("\r\033[K");
-                        GRTRaiseInfo("iw=%zu, freq=%.3e: To increase nk(%zu) to %d, adjust dk from %.3e to %.3e",
-                            iw, w/PI2, nk, GRT_MIN_NK, local_Kproc->dk, new_dk);
-                    }
+        // 若 nk 不够，适当调整 dk（与静态解一致）
+        if(nk < GRT_MIN_NK && local_Kproc->kmax > 0.0){
+            real_t new_dk = local_Kproc->kmax / GRT_MIN_NK;
+            #pragma omp critical(grn_console)
+            {
+                if(print_log){
+                    printf("\r\033[K");
+                    GRTRaiseInfo("iw=%zu, freq=%.3e: To increase nk(%zu) to %d, adjust dk from %.3e to %.3e",
+                        iw, w/PI2, nk, GRT_MIN_NK, local_Kproc->dk, new_dk);
                 }
-                local_Kproc->dk = new_dk;
             }
+            local_Kproc->dk = new_dk;
         }
         // coef 必须用最终 dk（可能因 nk 下限被收紧）
         cplx_t coef = - local_Kproc->dk * fac / GRT_SQUARE(omega);
diff --git a/pygrt/C_extension/src/static/static_grn.c b/pygrt/C_extension/src/static/static_grn.c
index eaf2c17..b438174 100644
--- a/pygrt/C_extension/src/static/static_grn.c
+++ b/pygrt/C_extension/src/static/static_grn.c
@@ -106,12 +106,13 @@ void grt_integ_static_grn(
     // ===================================================================================
     //                          Wavenumber Integration
     // 波数积分上限：在 [dk, kmax_ref] 内基于核函数振幅搜索
+    size_t nk = 0;
     if(Kproc->use_kmax_ref){
         Kproc->kmax = Kproc->k0;
-        size_t nk = floor(Kproc->kmax / Kproc->dk) + 1;
+        nk = floor(Kproc->kmax / Kproc->dk) + 1;
         GRTRaiseInfo("kmax = %.3e, nk = %zu", Kproc->kmax, nk);
     } else {
-        size_t ncount = 0, nk = 0;
+        size_t ncount = 0;
         real_t static_kmax = 0.0;
         MODEL1D_STATE *kmax_mstat = grt_init_mod1d_state(mod1d);
         grt_update_mod1d_state_omega(kmax_mstat, 1.0, true);
@@ -121,13 +122,6 @@ void grt_integ_static_grn(
         nk = floor(static_kmax / Kproc->dk) + 1;
         GRTRaiseInfo("kmax = %.3e, (DWM)nk = %zu, kref = %.3e, ncount = %zu", static_kmax, nk, Kproc->k0, ncount);
         
-        // 若 nk 不够，适当调整 dk
-        if(nk < GRT_MIN_NK){
-            real_t new_dk = static_kmax / GRT_MIN_NK;
-            GRTRaiseInfo("To increase nk(%zu) to %d, adjust dk from %.3e to %.3e", nk, GRT_MIN_NK, Kproc->dk, new_dk);
-            Kproc->dk = new_dk;
-        }
-        
         if(Kproc->cvgmet == K_INTEG_CONVERG_AUTO && static_kmax >= Kproc->k0){
             Kproc->cvgmet = K_INTEG_CONVERG_DCM;
             Kproc->keps = 0.0;
@@ -137,6 +131,13 @@ void grt_integ_static_grn(
         Kproc->kmax = static_kmax;
     }
 
+    // 若 nk 不够，适当调整 dk
+    if(nk < GRT_MIN_NK && Kproc->kmax > 0.0){
+        real_t new_dk = Kproc->kmax / GRT_MIN_NK;
+        GRTRaiseInfo("To increase nk(%zu) to %d, adjust dk from %.3e to %.3e", nk, GRT_MIN_NK, Kproc->dk, new_dk);
+        Kproc->dk = new_dk;
+    }
+
 
     // 模型状态
     MODEL1D_STATE *mstat = grt_init_mod1d_state(mod1d);
-- 
2.43.0


From 0fb6a445c8a395a3e5fddcafd5aea1ef5aaf8cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 18/22] fix: refuse Love waves in an all-fluid model instead of
 reading past the layers

---
 pygrt/C_extension/src/modal/root.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/root.c b/pygrt/C_extension/src/modal/root.c
index 1b31c72..b22de02 100644
--- a/pygrt/C_extension/src/modal/root.c
+++ b/pygrt/C_extension/src/modal/root.c
@@ -745,7 +745,7 @@ static void get_secular_roots_single_freq(MODEL1D_STATE *mstat, EIGENV_INFO *eig
         for(iref = 0; iref < nlay; ++iref){
             if(! isLiquid[iref])  break;
         }
-        if(iref == nlay - 1){
+        if(iref >= nlay - 1){
             GRTRaiseError("Love wave can't exist in the model with full liquid.");
         }
         searchfunc(mstat, eigmet, eigv, iref, cpred, npred);
-- 
2.43.0


From aeb8070c01ea75ea695e514479da337724ee8b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 19/22] fix: group sensitivity no longer reads a mode missing
 at the next frequency

---
 pygrt/C_extension/src/modal/modal_util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/modal_util.c b/pygrt/C_extension/src/modal/modal_util.c
index 30edb05..998a09f 100644
--- a/pygrt/C_extension/src/modal/modal_util.c
+++ b/pygrt/C_extension/src/modal/modal_util.c
@@ -145,7 +145,7 @@ void grt_group_sensitivity(EIGENFN_INFO *eigfnmet)
                 for(int ia = 0; ia < GRT_SNSTVTY_MAX; ++ia){
                     // 计算相速度敏感核在频率上的差分
                     real_t ddCdwdX = 0.0;
-                    if(iw < eigfnmet->nf-1){
+                    if(iw < eigfnmet->nf-1 && ic < eigfnmet->eigv[iw+1].n){
                         EIGENFN *eigfn_w1 = &eigfnmet->eigfn[iw+1][ic];
 
                         ddCdwdX = eigfn_w1->csens[iz][ia] - eigfn->csens[iz][ia];
-- 
2.43.0


From 08bd41879a1a43bfc3ad0f9cbb3efeb8c9a79f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 20/22] fix: depth derivatives of modal Green's functions at
 receivers in a fluid

---
 pygrt/C_extension/src/modal/modgrn.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/modgrn.c b/pygrt/C_extension/src/modal/modgrn.c
index d5c44f2..3e806d5 100644
--- a/pygrt/C_extension/src/modal/modgrn.c
+++ b/pygrt/C_extension/src/modal/modgrn.c
@@ -78,9 +78,11 @@ void grt_modsum_grn_Rayl(
             {aa, bk, aa, -bk}
         };
 
-        if(! isLiquid){
-            grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
+        // 位于液体层
+        if(isLiquid){
+            T0_z[0][1] = T0_z[1][1] = T0_z[0][3] = T0_z[1][3] = 0.0;
         }
+        grt_get_eigenfn_single_depth_Rayl(mstat, mod_potRaylLove_Down, mod_potRaylLove_Up, T0_z, true, mstat->mod1d->deprcv, ircv, rcv_eigenfn_z);
     }
 
     // 计算该频点、该本征值下的频谱
-- 
2.43.0


From 401247495842fd57e75731a0736d5d10a4466947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 21/22] fix: modsum -Ep starts the traces relative to the first
 P arrival

---
 pygrt/C_extension/src/modal/grt_modsum.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 755a52e..17496ec 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -574,7 +574,7 @@ static void compute_modsum_one(
                 delayT = Ctrl->E.delayT0;
                 if(Ctrl->E.delayV0 > 0.0)   delayT += hypot( dist, Ctrl->D.deprcv - Ctrl->D.depsrc ) / Ctrl->E.delayV0;
             } else {
-                delayT = Ctrl->E.delayT0 + sac->hd.t0;
+                delayT = Ctrl->E.delayT0 + travtPS[ir][0];
             }
             begintimes[ir] = delayT;
         }
-- 
2.43.0


From 9aacde5461c36bf5365eda7839153a0b19953505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:07 +0000
Subject: [PATCH 22/22] fix: arrival times in modsum headers refer to the
 source and receiver depths

---
 pygrt/C_extension/src/modal/grt_modsum.c | 40 ++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/pygrt/C_extension/src/modal/grt_modsum.c b/pygrt/C_extension/src/modal/grt_modsum.c
index 17496ec..190032d 100644
--- a/pygrt/C_extension/src/modal/grt_modsum.c
+++ b/pygrt/C_extension/src/modal/grt_modsum.c
@@ -452,6 +452,23 @@ static void getopt_from_command(GRT_MODULE_CTRL *Ctrl, int argc, char **argv){
 }
 
 
+/** 在指定深度处从第 i 层（层顶深度 top）开始向下查找并分层，返回以该深度为顶界面的层索引 */
+static size_t split_layer_at_depth(
+    size_t n, size_t i, real_t *top, real_t depth, real_t *Thk, real_t *Va, real_t *Vb)
+{
+    while(i < n-1 && *top + Thk[i] < depth){
+        *top += Thk[i];
+        i++;
+    }
+    memmove(Thk + i + 1, Thk + i, sizeof(real_t)*(n - i));
+    memmove(Va + i + 1, Va + i, sizeof(real_t)*(n - i));
+    memmove(Vb + i + 1, Vb + i, sizeof(real_t)*(n - i));
+    Thk[i] = depth - *top;
+    Thk[i+1] -= Thk[i];
+    *top = depth;
+    return i + 1;
+}
+
 /** 计算一个震源深度和台站深度组合的面波格林函数 */
 static void compute_modsum_one(
     GRT_MODULE_CTRL *Ctrl, MODEL1D *mod1d, EIGENV_INFO *eigmet, const char *modelpath)
@@ -556,6 +573,22 @@ static void compute_modsum_one(
     real_t (*travtPS)[2] = (real_t (*)[2])calloc(grn->nr, sizeof(real_t)*2);
     real_t *begintimes = (real_t *)calloc(grn->nr, sizeof(real_t));
     char **outputdirs = (char **)calloc(grn->nr, sizeof(char *));
+    // 模型中未插入震源层和台站层，而走时计算要求震源和台站位于层的顶界面，故在此分层
+    size_t tn = mod1d->n + 2;
+    real_t *tThk = (real_t *)calloc(tn, sizeof(real_t));
+    real_t *tVa = (real_t *)calloc(tn, sizeof(real_t));
+    real_t *tVb = (real_t *)calloc(tn, sizeof(real_t));
+    size_t tisrc, tircv;
+    {
+        memcpy(tThk, mod1d->Thk, sizeof(real_t)*mod1d->n);
+        memcpy(tVa, mod1d->Va, sizeof(real_t)*mod1d->n);
+        memcpy(tVb, mod1d->Vb, sizeof(real_t)*mod1d->n);
+        real_t top = 0.0;
+        size_t imin = split_layer_at_depth(tn-2, 0, &top, GRT_MIN(Ctrl->D.depsrc, Ctrl->D.deprcv), tThk, tVa, tVb);
+        size_t imax = split_layer_at_depth(tn-1, imin, &top, GRT_MAX(Ctrl->D.depsrc, Ctrl->D.deprcv), tThk, tVa, tVb);
+        tisrc = (mod1d->ircvup)? imax : imin;
+        tircv = (mod1d->ircvup)? imin : imax;
+    }
     for(size_t ir = 0; ir < Ctrl->R.nr; ++ir){
         real_t dist = Ctrl->R.rs[ir];
 
@@ -564,8 +597,8 @@ static void compute_modsum_one(
             Ctrl->O.s_output_dir, grt_get_basename(modelpath), Ctrl->D.s_depsrc, Ctrl->D.s_deprcv, Ctrl->R.s_rs[ir]);
 
         // 计算理论走时
-        travtPS[ir][0] = grt_compute_travt1d(mod1d->Thk, mod1d->Va, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
-        travtPS[ir][1] = grt_compute_travt1d(mod1d->Thk, mod1d->Vb, mod1d->n, mod1d->isrc, mod1d->ircv, dist);
+        travtPS[ir][0] = grt_compute_travt1d(tThk, tVa, tn, tisrc, tircv, dist);
+        travtPS[ir][1] = grt_compute_travt1d(tThk, tVb, tn, tisrc, tircv, dist);
 
         // 时间延迟
         {
@@ -600,6 +633,9 @@ static void compute_modsum_one(
     }
     GRT_SAFE_FREE_PTR(outputdirs);
     GRT_SAFE_FREE_PTR(travtPS);
+    GRT_SAFE_FREE_PTR(tThk);
+    GRT_SAFE_FREE_PTR(tVa);
+    GRT_SAFE_FREE_PTR(tVb);
     GRT_SAFE_FREE_PTR(begintimes);
     GRT_SAFE_FREE_PTR(grn->freqs);
     grt_grnspec_free_u(grn);
-- 
2.43.0

