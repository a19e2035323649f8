From 8a6164691f274cfee8c3a0071e64a0e4b18b7f98 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 01/60] fix: do not truncate the accumulator when casting int16
 to acc40 (fx16 bias)

---
 lib/src/pal/ref/mli_math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 5796b55..01de2ed 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -361,7 +361,7 @@ MLI_FORCE_INLINE int32_t mli_math_cast_fx(mli_acc32_t in_val, int shift_right) {
 
 template <>
 MLI_FORCE_INLINE mli_acc40_t mli_math_cast_fx(int16_t in_val, int shift_right) {
-    return (int32_t)mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
+    return mli_math_asr_rnd_fx<mli_acc40_t>((mli_acc40_t)in_val, shift_right);
 }
 
 template <>
-- 
2.43.0


From 28d11746df927cef38933e56b37a31b6c2ea1bfb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 02/60] fix: compare full pointers when checking that buffers
 do not overlap

---
 lib/src/private/src/mli_check.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 2298717..8fba1fc 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -243,8 +243,11 @@ bool mli_tensor_is_scalar (const mli_tensor * in) {
 }
 
 bool mli_chk_containers_not_overlapped(const mli_data_container & data1, const mli_data_container & data2) {
-    if ((data1.mem.i32 >= (data2.mem.i32 + (int)(data2.capacity))) ||
-        (data2.mem.i32 >= (data1.mem.i32 + (int)(data1.capacity)))) {
+    // Compare whole addresses: mem.i32 holds only a part of a pointer wider than 32 bits.
+    const uintptr_t begin1 = reinterpret_cast<uintptr_t>(data1.mem.pi8);
+    const uintptr_t begin2 = reinterpret_cast<uintptr_t>(data2.mem.pi8);
+    if ((begin1 >= (begin2 + data2.capacity)) ||
+        (begin2 >= (begin1 + data1.capacity))) {
         return true;
     }
     return false;
-- 
2.43.0


From 1b598bd32659e1c8cc1f4181bbd000a86ff674d0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:49 +0000
Subject: [PATCH 03/60] fix: keep pooling border areas inside of the output
 when the kernel is larger than the input

---
 lib/src/kernels/pooling/mli_krn_pool_hwc.h | 24 ++++++++++++++--------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_pool_hwc.h b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
index 81b0ad1..91cb65c 100644
--- a/lib/src/kernels/pooling/mli_krn_pool_hwc.h
+++ b/lib/src/kernels/pooling/mli_krn_pool_hwc.h
@@ -321,6 +321,12 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
     // (usually significantly smaller part of computations)
     //=======================================================================
     if (padding_top || padding_left || padding_bot || padding_right) {
+        // Number of output rows/columns affected by each padding. There can't be more of them than
+        // there are output rows/columns (kernel size can be larger than input size).
+        const int border_top = MIN(CEIL_DIV(padding_top, stride_height), (int)out.height);
+        const int border_bot = MIN(CEIL_DIV(padding_bot, stride_height), (int)out.height);
+        const int border_left = MIN(CEIL_DIV(padding_left, stride_width), (int)out.width);
+        const int border_right = MIN(CEIL_DIV(padding_right, stride_width), (int)out.width);
         for(int i = 0; i < 4; i ++) {
             rect_t area;
             auto in_ = in;
@@ -337,11 +343,11 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 0) {
                 if (padding_top) {
                     area.row_beg = 0;
-                    area.row_end = CEIL_DIV(padding_top, stride_height);
+                    area.row_end = border_top;
                     area.clmn_beg = 0;
-                    area.clmn_end = out.width - CEIL_DIV(padding_right, stride_width);
+                    area.clmn_end = out.width - border_right;
                     // compensate for cases where kernel size is larger than input size
-                    area.clmn_end = MAX(CEIL_DIV(padding_left, stride_width), (int)area.clmn_end);
+                    area.clmn_end = MAX(border_left, (int)area.clmn_end);
                 } else {
                     continue;
                 }
@@ -349,8 +355,8 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             if (i == 1) {
                 if (padding_right) {
                     int row_beg = 0;
-                    int row_end = out.height - CEIL_DIV(padding_bot, stride_height);
-                    int clmn_beg = out.width - CEIL_DIV(padding_right, stride_width);
+                    int row_end = out.height - border_bot;
+                    int clmn_beg = out.width - border_right;
                     int clmn_end = out.width;
                     // rotate the right padding area to the top
                     area.clmn_beg = row_beg;
@@ -373,9 +379,9 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 2) {
                 if (padding_bot) {
-                    int row_beg = out.height - CEIL_DIV(padding_bot, stride_height);
+                    int row_beg = out.height - border_bot;
                     int row_end = out.height;
-                    int clmn_beg = CEIL_DIV(padding_left, stride_width);
+                    int clmn_beg = border_left;
                     int clmn_end = out.width;
                     // rotate the bottom padding area to the top
                     area.clmn_beg = out.width - clmn_end;
@@ -394,10 +400,10 @@ static MLI_FORCE_INLINE void mli_krn_pool_hwc_pad(
             }
             if (i == 3) {
                 if (padding_left) {
-                    int row_beg = CEIL_DIV(padding_top, stride_height);
+                    int row_beg = border_top;
                     int row_end = out.height;
                     int clmn_beg = 0;
-                    int clmn_end = CEIL_DIV(padding_left, stride_width);
+                    int clmn_end = border_left;
                     // rotate the left padding area to the top
                     area.clmn_beg = out.height - row_end;
                     area.clmn_end = out.height - row_beg;
-- 
2.43.0


From 760cb583cb8f6e2d791574f3f0d7b5c99ce922b2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:46 +0000
Subject: [PATCH 04/60] fix: eltwise check accepts a single element tensor
 together with a rank 0 scalar

---
 lib/src/private/src/mli_check.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 8fba1fc..dd4e8b8 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1583,7 +1583,8 @@ mli_status mli_chk_eltwise (
     if (!mli_tensor_is_scalar(in1) && !mli_tensor_is_scalar(in2)) {
         fail |= MLI_CHECK(check_same_shape(in1, in2), "If both tensors are not scalar, their shapes must be the same");
     }
-    if (!mli_tensor_is_scalar(in1)) {
+    // A typical tensor with single element is not a scalar operand if the other input is a true (rank 0) scalar
+    if (!mli_tensor_is_scalar(in1) || in2->rank == 0) {
         fail |= MLI_CHECK(check_same_shape(in1, out), "Output shape must match non-scalar input tensor");
     } else {
         fail |= MLI_CHECK(check_same_shape(in2, out), "Output shape must match non-scalar input tensor");
-- 
2.43.0


From 615a0f1b3716c7eae2875dbc0a76f858082bfa26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 05/60] fix: prelu takes the documented one-dimensional slope
 tensor for every axis

---
 .../kernels/transform/impl/mli_krn_prelu_ref.h |  4 ++--
 lib/src/private/src/mli_check.cc               | 18 ++++++++++++------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 906d347..85d6601 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -167,7 +167,7 @@ static MLI_FORCE_INLINE mli_status prelu_fx_run(const mli_tensor *in,
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(io_T)>(out);
 
     /* Define Slope Axis Params */
-    int axis_shape = slope_coeff->shape[cfg->axis];
+    int axis_shape = in->shape[cfg->axis];
     int axis_in_mem_stride = in_prv.mem_stride[cfg->axis];
     int axis_out_mem_stride = out_prv.mem_stride[cfg->axis];
     /* Broadcasting in case axis is not inner most dim */
@@ -324,7 +324,7 @@ static MLI_FORCE_INLINE mli_status prelu_sa8_run(const mli_tensor *in,
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(int8_t)>(out);
 
     /* Define Slope Axis Params */
-    int axis_shape = slope_coeff->shape[cfg->axis];
+    int axis_shape = in->shape[cfg->axis];
     int axis_in_mem_stride = in_prv.mem_stride[cfg->axis];
     int axis_out_mem_stride = out_prv.mem_stride[cfg->axis];
     /* Broadcasting in case axis is not inner most dim */
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index dd4e8b8..32a92f6 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1956,12 +1956,18 @@ mli_status mli_chk_prelu (
     if (cfg->axis != -1) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
-        /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
-        for (int i = 0; i < (int)in->rank; i++) {
-            if (i == cfg->axis) {
-                fail |= MLI_CHECK(in->shape[i] == slope_coeff->shape[i], "Bad Slope_Coeff Shape");
-            } else {
-                fail |= MLI_CHECK(slope_coeff->shape[i] == 1, "Bad Slope_Coeff Shape");
+        if (slope_coeff->rank == 1) {
+            /* one-dimensional slope tensor must be of the same length as input tensor at axis */
+            fail |= MLI_CHECK(in->shape[cfg->axis] == slope_coeff->shape[0], "Bad Slope_Coeff Shape");
+        } else {
+            /* slope tensor must be of the same shape of input tensor at axis and others should be 1 */
+            fail |= MLI_CHECK(slope_coeff->rank == in->rank, "Bad Slope_Coeff Shape");
+            for (int i = 0; i < (int)in->rank; i++) {
+                if (i == cfg->axis) {
+                    fail |= MLI_CHECK(in->shape[i] == slope_coeff->shape[i], "Bad Slope_Coeff Shape");
+                } else {
+                    fail |= MLI_CHECK(slope_coeff->shape[i] == 1, "Bad Slope_Coeff Shape");
+                }
             }
         }
     }
-- 
2.43.0


From e6f3ea0e35fcc794cafdac04040a89ecdad093bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:27 +0000
Subject: [PATCH 06/60] fix: prelu applies a scalar slope for every negative
 axis, as documented

---
 lib/src/kernels/transform/mli_krn_prelu.cc | 6 +++---
 lib/src/private/src/mli_check.cc           | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/kernels/transform/mli_krn_prelu.cc b/lib/src/kernels/transform/mli_krn_prelu.cc
index 16749cc..88f1ad8 100644
--- a/lib/src/kernels/transform/mli_krn_prelu.cc
+++ b/lib/src/kernels/transform/mli_krn_prelu.cc
@@ -26,7 +26,7 @@ mli_status mli_krn_prelu_fx8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
     
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int8_t>(in, slope_coeff, cfg, out);
@@ -41,7 +41,7 @@ mli_status mli_krn_prelu_fx16(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_fx16(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_fx_run<int16_t>(in, slope_coeff, cfg, out);
@@ -56,7 +56,7 @@ mli_status mli_krn_prelu_sa8(const mli_tensor *in,
     if (ret != MLI_STATUS_OK) return ret;
     MLI_PRINT_COMPILE_OPTIONS();
 
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         return mli_krn_leaky_relu_sa8(in, slope_coeff, out);
     } else {
         return mli::krn::prelu_sa8_run(in, slope_coeff, cfg, out);
diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 32a92f6..1818636 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -1935,7 +1935,7 @@ mli_status mli_chk_prelu (
     stat = MLI_CHECK_STATUS(mli_chk_tensor (in), "Bad input tensor");
     if (stat != MLI_STATUS_OK) return stat;
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (cfg->axis == -1) {
+    if (cfg->axis < 0) {
         // Check that slope tensors is valid scalar
         stat = MLI_CHECK_STATUS(mli_chk_scalar_tensor (slope_coeff), "Slope should be scalar tensor");
     } else {
@@ -1953,7 +1953,7 @@ mli_status mli_chk_prelu (
     if (MLI_CHECK(cfg->axis < (int)in->rank, "Wrong Axis Configuration")) return MLI_STATUS_BAD_FUNC_CFG;
     fail |= MLI_CHECK(check_inner_most_dimension_is_one(in),
                       "Memory stride of the innermost dimension should be equal to 1 for the input tensor");
-    if (cfg->axis != -1) {
+    if (cfg->axis >= 0) {
         fail |= MLI_CHECK(check_inner_most_dimension_is_one(slope_coeff),
                       "Memory stride of the innermost dimension should be equal to 1 for the slope_coeff tensor");
         if (slope_coeff->rank == 1) {
-- 
2.43.0


From 55fad6a2474731011b05f0b03a57259402f50fd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 07/60] fix: l2 normalization covers the whole tensor for every
 negative axis, as documented

---
 lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
index 4785a94..9400ec7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_l2_normalize_ref.h
@@ -192,7 +192,7 @@ static MLI_FORCE_INLINE mli_status mli_krn_l2_normalize_run(const mli_tensor *in
     }
 
     /* Per Tensor Case */
-    if ( cfg->axis == -1 ) {
+    if ( cfg->axis < 0 ) {
         int shape = mli_prv_squash_tensor_to_one_dim(in, out);
         if (shape) {
             int norm_shift;
-- 
2.43.0


From e294c7b6e7fc6ae8fdd91579b133e988dce18a81 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:36 +0000
Subject: [PATCH 08/60] fix: keep per-tensor quantization parameters of GRU
 weights intact for the new gate

---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 1561878..60eb5ea 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -33,11 +33,14 @@ namespace ref {
 //========================================================================================
 
 static inline void inc_scales_for_new_gate(mli_element_params* params, int prev_gates) {
-	params->sa.scale.mem.pi16 += prev_gates;
+    // In case of per-tensor quantization parameters are stored in place of pointers and are common for all gates
+    if (params->sa.dim < 0) return;
+    params->sa.scale.mem.pi16 += prev_gates;
     params->sa.scale_frac_bits.mem.pi8 += prev_gates;
 }
 
 static inline void dec_scales_for_new_gate(mli_element_params* params, int prev_gates) {
+    if (params->sa.dim < 0) return;
     params->sa.scale.mem.pi16 -= prev_gates;
     params->sa.scale_frac_bits.mem.pi8 -= prev_gates;
 }
-- 
2.43.0


From b0b93ee2e2d6dca6925f1acd4fa01d206a889b0f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:54 +0000
Subject: [PATCH 09/60] fix: intermediate format of recurrent cells takes
 hidden state product into account

---
 lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h  | 4 ++++
 lib/src/kernels/common/impl/mli_krn_lstm_cell_ref.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
index 60eb5ea..b35a85f 100644
--- a/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_gru_cell_ref.h
@@ -98,6 +98,10 @@ MLI_FORCE_INLINE void gru_cell_prepare_and_run(
         // 1 sign and 4 integer bits with range (-16, 16) is enough for TANH/SIGM input
         ir_asym_params.fx.frac_bits = (sizeof(io_T) * 8) - 1 - 4;
         ir_asym_params.fx.frac_bits = MIN(ir_asym_params.fx.frac_bits, in->el_params.fx.frac_bits + weights_in->el_params.fx.frac_bits);
+        // Intermediate result must not be finer than any of products
+        // (hidden state comes from prev_out for the first step and from out for others)
+        ir_asym_params.fx.frac_bits = MIN(ir_asym_params.fx.frac_bits, prev_out->el_params.fx.frac_bits + weights_out->el_params.fx.frac_bits);
+        ir_asym_params.fx.frac_bits = MIN(ir_asym_params.fx.frac_bits, out->el_params.fx.frac_bits + weights_out->el_params.fx.frac_bits);
     }
 
     mli_tensor one;
diff --git a/lib/src/kernels/common/impl/mli_krn_lstm_cell_ref.h b/lib/src/kernels/common/impl/mli_krn_lstm_cell_ref.h
index 8cd1521..19e5fb0 100644
--- a/lib/src/kernels/common/impl/mli_krn_lstm_cell_ref.h
+++ b/lib/src/kernels/common/impl/mli_krn_lstm_cell_ref.h
@@ -87,6 +87,10 @@ MLI_FORCE_INLINE void lstm_cell_prepare_and_run(
         // [-32, 32] is enough for TANH/SIGM input
         ir_tensor.el_params.fx.frac_bits = 10;
         ir_tensor.el_params.fx.frac_bits = MIN(ir_tensor.el_params.fx.frac_bits, in->el_params.fx.frac_bits + weights_in->el_params.fx.frac_bits);
+        // Intermediate result must not be finer than any of products
+        // (hidden state comes from prev_out for the first step and from out for others)
+        ir_tensor.el_params.fx.frac_bits = MIN(ir_tensor.el_params.fx.frac_bits, prev_out->el_params.fx.frac_bits + weights_out->el_params.fx.frac_bits);
+        ir_tensor.el_params.fx.frac_bits = MIN(ir_tensor.el_params.fx.frac_bits, out->el_params.fx.frac_bits + weights_out->el_params.fx.frac_bits);
     }
 
     quant_T in_to_out_params[2];
-- 
2.43.0


From 481b597c14aed44ce51fa66bea24f8074532ee7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 10/60] fix: mli_mov: no single transfer when a source or
 destination offset is set

With a crop and a destination offset which restore the source shape the
whole source tensor was copied over the start of the destination.
---
 lib/src/move/mli_mov_api.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 40f95c1..87da6d1 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -236,6 +236,7 @@ mli_status mli_mov_prepare(mli_mov_handle_t* h, const mli_tensor* src, const mli
         // this also means that the shape of src and dst needs to be the same.
         is_possible_in_single1d_transfer &= (src_mem_stride[i] == stride) && (dst->mem_stride[i] == stride);
         is_possible_in_single1d_transfer &= (src->shape[i] == dst->shape[i]);
+        is_possible_in_single1d_transfer &= (cfg->offset[i] == 0) && (cfg->dst_offset[i] == 0);
         no_padding &= !(cfg->padding_pre[i] || cfg->padding_post[i]);
         is_possible_in_single1d_transfer &= no_padding;
         is_possible_in_single1d_transfer &= (cfg->perm_dim[i] == i);
-- 
2.43.0


From 57f1d04890a496ed0e40cd91e27f2158aad4c320 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:03 +0000
Subject: [PATCH 11/60] fix: mli_mov_acquire_handle: keep the block of channels
 inside the pool

The search looked at (and handed out) channels beyond the pool and read
past the end of the channel_status array.
---
 lib/src/move/mli_mov_api.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 87da6d1..91c3fc3 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -384,7 +384,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
     mli_status retval = MLI_STATUS_NOT_ENGH_MEM; // TODO: add status for not enough dma channels
     MLI_ASSERT(h != NULL);
     // find first available channel, and check if enough adjacent channels are available.
-    for (int i = dma_pool.base_channel; i < dma_pool.base_channel + dma_pool.pool_size; i++) {
+    const int pool_end = dma_pool.base_channel + dma_pool.pool_size;
+    for (int i = dma_pool.base_channel; i < pool_end && i + num_ch <= pool_end; i++) {
         bool found = true;
         for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
             found &= (dma_pool.channel_status[i + ch_cnt] == MLI_MOV_DMA_CH_AVAILABLE);
-- 
2.43.0


From 21abd26ca574e7cee0988e5b1ca2489accd2cb40 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:13 +0000
Subject: [PATCH 12/60] fix: mli_mov: keep the completion callback in the
 handle it was registered for

The table was indexed by channel and never cleared: transfers which own no
channel (mli_mov_tensor_sync) and later users of a channel ran the callback
registered for another transfer.
---
 include/api/mli_mov_api.h   |  2 ++
 lib/src/move/mli_mov_api.cc | 14 +++++++-------
 lib/src/move/mli_mov_decl.h |  5 -----
 3 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/include/api/mli_mov_api.h b/include/api/mli_mov_api.h
index ea87fbc..95fda2b 100644
--- a/include/api/mli_mov_api.h
+++ b/include/api/mli_mov_api.h
@@ -38,6 +38,8 @@ typedef struct _mli_mov_handle_t {
     int dma_ch;
     int num_ch;
     mli_mov_state state;
+    void (*cb)(int32_t);  /**< callback registered for this handle */
+    int32_t cookie;
 } mli_mov_handle_t;
 
 //---------------------------------------------------------------------
diff --git a/lib/src/move/mli_mov_api.cc b/lib/src/move/mli_mov_api.cc
index 91c3fc3..b766a7b 100644
--- a/lib/src/move/mli_mov_api.cc
+++ b/lib/src/move/mli_mov_api.cc
@@ -28,9 +28,6 @@ extern "C" {
 // singleton for dma channel pool
 static mli_mov_dma_pool_t dma_pool = MLI_MOV_DMA_POOL_INIT;
 
-// singleton for callback functions
-static mli_mov_cb_t callbacktable[MAX_DMA_CHAN] = {{0}};
-
 //=====================================================================
 // Public functions
 //=====================================================================
@@ -286,8 +283,8 @@ mli_status mli_mov_registercallback(mli_mov_handle_t* h, void (*cb)(int32_t), in
     MLI_ASSERT(h != NULL);
     MLI_ASSERT(h->dma_ch < MAX_DMA_CHAN);
     // store the callback function ptr.
-    callbacktable[h->dma_ch].cb = cb;
-    callbacktable[h->dma_ch].cookie = cookie;
+    h->cb = cb;
+    h->cookie = cookie;
     // register isr to the DMA, and only call the cb once all channels are done
     // TODO
     return MLI_STATUS_OK;
@@ -314,8 +311,8 @@ mli_status mli_mov_start(mli_mov_handle_t* h, const mli_tensor* src, const mli_m
     {
     // in case DMA is not used, but direct copy was done, set state to DONE, and call callback.
         h->state = MLI_MOV_STATE_DONE;
-        if (callbacktable[h->dma_ch].cb != NULL) {
-            callbacktable[h->dma_ch].cb(callbacktable[h->dma_ch].cookie);
+        if (h->cb != NULL) {
+            h->cb(h->cookie);
         }
     }
     return MLI_STATUS_OK;
@@ -394,6 +391,8 @@ mli_status mli_mov_acquire_handle(int num_ch, mli_mov_handle_t* h) {
             h->state = MLI_MOV_STATE_OPEN;
             h->dma_ch = i;
             h->num_ch = num_ch;
+            h->cb = NULL;
+            h->cookie = 0;
             for (int ch_cnt = 0; ch_cnt < num_ch; ch_cnt++) {
                 dma_pool.channel_status[i + ch_cnt] = MLI_MOV_DMA_CH_IN_USE;
             }
@@ -419,6 +418,7 @@ mli_status mli_mov_release_handle(mli_mov_handle_t* h) {
     h->state = MLI_MOV_STATE_INVALID;
     h->dma_ch = 0;
     h->num_ch = 0;
+    h->cb = NULL;
     return MLI_STATUS_OK;
 }
 
diff --git a/lib/src/move/mli_mov_decl.h b/lib/src/move/mli_mov_decl.h
index adb7793..1343d32 100644
--- a/lib/src/move/mli_mov_decl.h
+++ b/lib/src/move/mli_mov_decl.h
@@ -30,11 +30,6 @@ typedef struct {
 } mli_mov_dma_pool_t;
 #define MLI_MOV_DMA_POOL_INIT {0, MAX_DMA_CHAN}
 
-typedef struct {
-    void (*cb)(int32_t);
-    int32_t cookie;
-} mli_mov_cb_t;
-
 namespace mli {
 namespace mov {
 namespace ref {
-- 
2.43.0


From 663ca0ed277ffd6cf92ff9d135e2297d7ed08a27 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 13/60] fix: mli_mov: fp32 tensors with strides trip the SA32
 assertion

Four byte elements are copied through an int32_t pointer, whose accessor
accepts MLI_EL_SA_32 only, so debug builds abort on valid fp32 moves.
---
 lib/src/move/impl/mli_mov_ref.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/move/impl/mli_mov_ref.h b/lib/src/move/impl/mli_mov_ref.h
index 3789c57..e79c858 100644
--- a/lib/src/move/impl/mli_mov_ref.h
+++ b/lib/src/move/impl/mli_mov_ref.h
@@ -129,8 +129,8 @@ static MLI_FORCE_INLINE void mli_mov_basic_operation (mli_mov_handle_t* h, const
                                     no_inner_src_stride, no_inner_dst_stride, small_size);
 
                         } else {
-                            int32_t* __restrict psrc = mli_prv_tensor_data_ptr<int32_t *>(src);
-                            int32_t* __restrict pdst = mli_prv_tensor_data_ptr<int32_t *>(dst);
+                            int32_t* __restrict psrc = (int32_t*)mli_prv_tensor_cast_data_ptr(src);
+                            int32_t* __restrict pdst = (int32_t*)mli_prv_tensor_cast_data_ptr(dst);
                             mli::mov::mov_inner_loop<int32_t>(h, &psrc[src_pos], &pdst[dst_pos],
                                     ordered_dst_write_size[3],
                                     ordered_src_mem_stride[ordered_pdim[3]], ordered_dst_mem_stride[3],
@@ -199,8 +199,8 @@ static MLI_FORCE_INLINE void mli_mov_basic_operation (mli_mov_handle_t* h, const
                                     no_inner_src_stride, no_inner_dst_stride, small_size, 0);
 
                         } else {
-                            int32_t* __restrict psrc = mli_prv_tensor_data_ptr<int32_t *>(src);
-                            int32_t* __restrict pdst = mli_prv_tensor_data_ptr<int32_t *>(dst);
+                            int32_t* __restrict psrc = (int32_t*)mli_prv_tensor_cast_data_ptr(src);
+                            int32_t* __restrict pdst = (int32_t*)mli_prv_tensor_cast_data_ptr(dst);
                             mli::mov::mov_inner_loop<int32_t>(h, &psrc[src_pos], &pdst[dst_pos],
                                     ordered_dst_write_size[3], ordered_src_cpy_size[3],
                                     ordered_src_mem_stride[ordered_pdim[3]], ordered_dst_mem_stride[3],
-- 
2.43.0


From 5861926c7c86b9ea44e776a2eb3a1e1e0a3d51ef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 14/60] fix: mli_hlp_point_to_subtensor: advance the pointer of
 fp32 tensors

The offset was added to the float which shares the storage of the pointer.
---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index d9a9e69..1bf2195 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -148,7 +148,7 @@ mli_status mli_hlp_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
         out->data.mem.pi16 = in->data.mem.pi16 + size;
         break;
     case MLI_EL_FP_32:
-        out->data.mem.f32 = in->data.mem.f32 + size;
+        out->data.mem.pf32 = in->data.mem.pf32 + size;
         break;
     case MLI_EL_SA_32:
         out->data.mem.pi32 = in->data.mem.pi32 + size;
-- 
2.43.0


From 8c9304e8e693a4f838e9014ed96d20b4efd75221 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 15/60] fix: mli_hlp_create_subtensor: quantization parameters
 of per-axis tensors

When the quantized dimension was removed the result was marked per-tensor
while its fields still held the array pointers; capacities of the parameter
arrays were not decremented together with their pointers.
---
 lib/src/helpers/src/mli_helpers.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 1bf2195..78ba81c 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -218,7 +218,8 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     int out_idx = 0;
     int skip_cnt = input_rank - out_rank;
     int out_asym_dim = -1;
-    int out_asym_offset = 0;
+    const bool is_per_axis = isAsym && (in->el_params.sa.dim >= 0);
+    const int out_asym_offset = is_per_axis ? (int)cfg->offset[in->el_params.sa.dim] : 0;
     for (int in_idx = 0; in_idx < input_rank; in_idx++) {
         if ((skip_cnt > 0) && (cfg->size[in_idx] == 1)) {
             skip_cnt--;
@@ -228,7 +229,6 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
         out->mem_stride[out_idx] = mem_strides[in_idx];
         if (isAsym && (in->el_params.sa.dim == in_idx)) {
             out_asym_dim = out_idx;
-            out_asym_offset = cfg->offset[in_idx];
         }
         out_idx++;
     }
@@ -236,12 +236,23 @@ mli_status mli_hlp_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     out->rank = out_rank;
     out->el_params = in->el_params;
 
-    if (isAsym){
-        if (out->el_params.sa.dim >= 0) {
+    if (is_per_axis) {
+        out->el_params.sa.dim = out_asym_dim;
+        if (out_asym_dim >= 0) {
             out->el_params.sa.scale.mem.pi16 += out_asym_offset;
+            out->el_params.sa.scale.capacity -= out_asym_offset * sizeof(int16_t);
             out->el_params.sa.scale_frac_bits.mem.pi8 += out_asym_offset;
-            out->el_params.sa.dim = out_asym_dim;
+            out->el_params.sa.scale_frac_bits.capacity -= out_asym_offset * sizeof(int8_t);
             out->el_params.sa.zero_point.mem.pi16 += out_asym_offset;
+            out->el_params.sa.zero_point.capacity -= out_asym_offset * sizeof(int16_t);
+        } else {
+            // The quantized dimension is removed: only one set of parameters is left for the whole sub tensor.
+            out->el_params.sa.scale.mem.i16 = in->el_params.sa.scale.mem.pi16[out_asym_offset];
+            out->el_params.sa.scale.capacity = 0;
+            out->el_params.sa.scale_frac_bits.mem.i8 = in->el_params.sa.scale_frac_bits.mem.pi8[out_asym_offset];
+            out->el_params.sa.scale_frac_bits.capacity = 0;
+            out->el_params.sa.zero_point.mem.i16 = in->el_params.sa.zero_point.mem.pi16[out_asym_offset];
+            out->el_params.sa.zero_point.capacity = 0;
         }
     }
     return MLI_STATUS_OK;
-- 
2.43.0


From d75246cc76391c159994b4c618833ffee758739a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 16/60] fix: mli_hlp_convert_tensor: saturate floats beyond the
 int32 range

Large positive values were converted to the minimum of the output type
(the float to int32 conversion is undefined there).
---
 lib/src/pal/dsp/mli_math.h  | 6 +++++-
 lib/src/pal/ref/mli_math.h  | 6 +++++-
 lib/src/pal/vdsp/mli_math.h | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/src/pal/dsp/mli_math.h b/lib/src/pal/dsp/mli_math.h
index 79e69d1..e01adf3 100644
--- a/lib/src/pal/dsp/mli_math.h
+++ b/lib/src/pal/dsp/mli_math.h
@@ -462,7 +462,11 @@ MLI_FORCE_INLINE acc_T mli_math_mul_fx_high(in_T L, in_T R);
 MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
     /* This function is taken from reference mli_math as is */
     const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
+    const float scaled_val = value * scale + round_val;
+    // 2^31: conversion of values which don't fit into int32_t is undefined
+    if (scaled_val >= 2147483648.0f) return INT32_MAX;
+    if (scaled_val <= -2147483648.0f) return INT32_MIN;
+    return (int32_t)scaled_val;
 }
 
 // Multipliers used to apply scale factors in asymetric data types
diff --git a/lib/src/pal/ref/mli_math.h b/lib/src/pal/ref/mli_math.h
index 01de2ed..934516b 100644
--- a/lib/src/pal/ref/mli_math.h
+++ b/lib/src/pal/ref/mli_math.h
@@ -285,7 +285,11 @@ MLI_FORCE_INLINE int64_t mli_math_ashift_right_fx(int64_t in_val, int shift_righ
 
 MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
     const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
+    const float scaled_val = value * scale + round_val;
+    // 2^31: conversion of values which don't fit into int32_t is undefined
+    if (scaled_val >= 2147483648.0f) return INT32_MAX;
+    if (scaled_val <= -2147483648.0f) return INT32_MIN;
+    return (int32_t)scaled_val;
 }
 
 // Cast accum to output type
diff --git a/lib/src/pal/vdsp/mli_math.h b/lib/src/pal/vdsp/mli_math.h
index aad1bcb..82b14ce 100644
--- a/lib/src/pal/vdsp/mli_math.h
+++ b/lib/src/pal/vdsp/mli_math.h
@@ -1117,7 +1117,11 @@ MLI_FORCE_INLINE vNx4char_t mli_math_cast_fx(vNx4short_t in_val, int shift_right
 MLI_FORCE_INLINE int32_t mli_math_float_scale(float value, float scale) {
     /* This function is taken from reference mli_math as is */
     const float round_val = value > 0 ? 0.5f : -0.5f;
-    return (int32_t)(value * scale + round_val);
+    const float scaled_val = value * scale + round_val;
+    // 2^31: conversion of values which don't fit into int32_t is undefined
+    if (scaled_val >= 2147483648.0f) return INT32_MAX;
+    if (scaled_val <= -2147483648.0f) return INT32_MIN;
+    return (int32_t)scaled_val;
 }
 
 // Cast accum to output type
-- 
2.43.0


From e4d1676e91b4da93bd9d4196ad980d521af05f0e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:32 +0000
Subject: [PATCH 17/60] fix: mli_hlp_convert_tensor: return the status of float
 conversions

---
 lib/src/helpers/src/mli_helpers.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/helpers/src/mli_helpers.cc b/lib/src/helpers/src/mli_helpers.cc
index 78ba81c..0da66fd 100644
--- a/lib/src/helpers/src/mli_helpers.cc
+++ b/lib/src/helpers/src/mli_helpers.cc
@@ -295,7 +295,7 @@ mli_status mli_hlp_convert_tensor(const mli_tensor * src, mli_tensor * dst) {
             ret = MLI_STATUS_TYPE_MISMATCH;
         }
     }
-    return MLI_STATUS_OK;
+    return ret;
 }
 
 const char* mli_hlp_compile_options_string() {
-- 
2.43.0


From e24b0f1190eda5ca93dbc986a54e9cbacb97bc7b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 18/60] fix: IteratorCfg from a lower rank tensor: extra
 iteration dimensions are skipped, with count 1

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 96f8092..32514f0 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -61,8 +61,8 @@ class IteratorCfg {
         m_diff_code[i] = SZ0_SZ0_SZ0;
       }
       for (uint32_t i = tensorRank; i < iterRank; ++i) {
-        m_order[i] = i;
-        m_count[i] = kSkipIterDim;
+        m_order[i] = kSkipIterDim;
+        m_count[i] = 1;
         m_size[i] = m_first_size[i] = m_last_size[i] = 0;
         m_pos_inc[i] = m_first_pos_inc[i] = m_last_pos_inc[i] = 0;
         m_diff_code[i] = SZ0_SZ0_SZ0;
-- 
2.43.0


From 94fcf3e3ca5b7da4dabf772e63459f2de78a6518 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:00 +0000
Subject: [PATCH 19/60] fix: BufferIterator: do not read dimensions the tensor
 does not have, no uninitialised increments

---
 include/mli_iterator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 32514f0..65f5e01 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -514,16 +514,23 @@ class BufferIterator {
                    const IteratorCfg<iterRank>& cfg)
         : m_buffer_offset{0} {
       m_buffer_size = 1;
+      for (uint32_t i = 0; i < iterRank; i++) {
+        m_first_offset_inc[i] = 0;
+        m_offset_inc[i] = 0;
+        m_last_offset_inc[i] = 0;
+        m_buffer_dec[i] = 0;
+      }
       for (uint32_t i = 0; i < iterRank; i++) {
         int32_t axis = cfg.get_order(i);
-        if (axis == kSkipIterDim) continue;
+        // Skipped iteration dimension, or a dimension that the tensor doesn't have
+        if (axis == kSkipIterDim || axis >= static_cast<int32_t>(tensorRank)) continue;
 
         uint32_t buffer_dim = MAX(cfg.get_size(axis), cfg.get_first_size(axis));
         // If tiles number equals to 0, that means attached buffer calculated for
         // full tensor, otherwise - for number of tiles. Also if dimension of the
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
-        if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(i) > 1) {
+        if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(axis) > 1) {
           m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
           m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
           m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
-- 
2.43.0


From 419148c73bb580079a3a5867f1efba61cdda3121 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 20/60] fix: DepthwiseConv2d 3.0: process every batch of a tile
 and report the tile's batch size

---
 .../mli_krn_depthwise_conv2d_runtime.cc          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
index 0ad28b2..0cda54d 100644
--- a/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_depthwise_conv2d_runtime.cc
@@ -82,16 +82,16 @@ mli_status DepthwiseConv2d::Issue() {
     InternalBuffer out_buf = m_tile_output.get_buf();
     InternalBuffer curr_inp_buf(inp_buf);
     InternalBuffer curr_out_buf(out_buf);
-    m_tile_input.set_buf(curr_inp_buf);
-    m_tile_output.set_buf(curr_out_buf);
-
-    QTensor<InternalBuffer, kDepthwiseIORank> qinput{
-      m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
     QTensor<InternalBuffer, kDepthwiseWRank> qweights{
       m_tile_weights, m_tile_wzp.get_buf(), m_metadata.wts_quant_axis};
 
-
     for (uint32_t i = 0; i < m_tile_batch_size; i++) {
+      m_tile_input.set_buf(curr_inp_buf);
+      m_tile_output.set_buf(curr_out_buf);
+
+      QTensor<InternalBuffer, kDepthwiseIORank> qinput{
+        m_tile_input, m_metadata.inpzp_buffer, m_metadata.inp_quant_axis};
+
       conv2d_prepare_and_run<int8_t, int8_t, int32_t, mli_8x8_accu_t, LAYOUT_HWC,
                             ::mli::CONV_DEPTHWISE, kDepthwiseIORank,
                             kDepthwiseWRank, DwConv2DConfig>(
@@ -121,6 +121,7 @@ mli_status DepthwiseConv2d::Update() {
   const auto input_tile_tensor = m_metadata.input.GetSubTensor();
   uint32_t input_tile_shape[kDepthwiseIORank];
   input_tile_tensor.get_dims(input_tile_shape);
+  m_tile_batch_size = input_tile_shape[kGroupTensorBatchDim];
   input_tile_shape[kGroupTensorBatchDim] = 1;
   m_tile_input = Tensor<InternalBuffer, kDepthwiseIORank>(m_tile_input, input_tile_shape);
 
@@ -198,6 +199,9 @@ void DepthwiseConv2d::GetIOSizesAndOffsets(uint32_t input_size[kDepthwiseIORank]
   m_tile_input.get_dims(input_size);
   m_tile_weights.get_dims(weights_size);
   m_tile_output.get_dims(output_size);
+  // the kernel is executed batch by batch, but the tile covers all of them
+  input_size[kGroupTensorBatchDim] = m_tile_batch_size;
+  output_size[kGroupTensorBatchDim] = m_tile_batch_size;
 }
 
 }  // namespace snps_arc::metaware::mli::ref
\ No newline at end of file
-- 
2.43.0


From 059f0e68d2a9b107a7beb3560b4247f7f651fe48 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 21/60] fix: MatMul 3.0: report the offsets of the right input
 tile

---
 lib/src/kernels/convolution/mli_krn_matmul_runtime.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
index b4acf02..81b610d 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
+++ b/lib/src/kernels/convolution/mli_krn_matmul_runtime.cc
@@ -92,7 +92,7 @@ void MatMul::GetIOSizesAndOffsets(uint32_t input_left_size[kMatMulRank], uint32_
                                   int32_t output_offsets[kMatMulRank]) const{
   
   m_input_left.get_pos(input_left_offsets);
-  m_input_left.get_pos(input_right_offsets);
+  m_input_right.get_pos(input_right_offsets);
   m_output.get_pos(output_offsets);
   
   m_tile_input_left.get_dims(input_left_size);
-- 
2.43.0


From 3332670b81c905624e6e550a8677c191f20e7806 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 22/60] fix: MatMul 3.0: do not wrap (value - zero point) to
 the input type

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index 126205f..ac13c35 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -45,8 +45,9 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   MLI_ASSERT(encoded_params.get_elem_size() == sizeof(int8_t));
   MLI_ASSERT(encoded_params.get_size() == kMatMulRank);
 
-  in1_t val1;
-  in2_t val2;
+  // value minus zero point doesn't fit the input types
+  out_t val1;
+  out_t val2;
   out_t acc;
 
   /**
-- 
2.43.0


From ac7c329bf7d38e23cdab269fed4912960af9d410 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:52 +0000
Subject: [PATCH 23/60] fix: MatMul 3.0: use the memory strides of the output
 and the innermost strides of the inputs

---
 lib/src/kernels/convolution/mli_krn_matmul_ref.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
index ac13c35..9d11355 100644
--- a/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
+++ b/lib/src/kernels/convolution/mli_krn_matmul_ref.hpp
@@ -63,15 +63,17 @@ void MatMul_prepare_and_run(Tensor<InternalBuffer, kMatMulRank> &in_left,
   int32_t right_mem_strides[kMatMulRank];
   in_left.get_mem_strides(left_mem_strides);
   in_right.get_mem_strides(right_mem_strides);
+  int32_t out_mem_strides[kMatMulRank];
+  output.get_mem_strides(out_mem_strides);
   for(uint32_t left_height_index = 0; left_height_index < left_h; ++left_height_index) {
     for (uint32_t right_width_index = 0; right_width_index < right_w; ++right_width_index) {
       acc = 0;
       for (uint32_t left_width_index = 0, right_height_index = 0; left_width_index < left_w; ++left_width_index, ++right_height_index) {
-          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index) - in_left_zp;
-          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index) - in_right_zp;
+          val1 = in_left.template read<in1_t>(left_height_index * left_mem_strides[0] + left_width_index * left_mem_strides[1]) - in_left_zp;
+          val2 = in_right.template read<in2_t>(right_height_index * right_mem_strides[0] + right_width_index * right_mem_strides[1]) - in_right_zp;
           acc += val1 * val2;
       }
-        output.template write<out_t>( left_height_index * right_w + right_width_index, static_cast<out_t>(acc) );
+        output.template write<out_t>( left_height_index * out_mem_strides[0] + right_width_index * out_mem_strides[1], static_cast<out_t>(acc) );
     }
   }
 }
-- 
2.43.0


From 9544d434d3678d987f323a4c37bc0e048419127b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:41 +0000
Subject: [PATCH 24/60] fix: FullyConnected 3.0: number of weights zero points
 is the dimension 0 of their tensor

---
 lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
index 72ff152..dbf19c1 100644
--- a/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
+++ b/lib/src/kernels/common/impl/mli_krn_fully_connected_compiler.cc
@@ -188,7 +188,7 @@ mli_status FullyConnected_CS::EncodeWtsZeroPts(const Tensor<Buffer, 1> &wtszerop
     else {
       MLI_ASSERT(encoded_wtszeropts.get_size() / encoded_wtszeropts.get_elem_size() ==
       m_weights.get_dim(kKernelFCChannelOutDim));
-      for (uint32_t i = 0; i < wtszeropts.get_dim(kKernelFCChannelOutDim); ++i) {
+      for (uint32_t i = 0; i < wtszeropts.get_dim(0); ++i) {
         encoded_wtszeropts.write(i, static_cast<int16_t>(wtszeropts.read<int8_t>(i)));
       }
     }
-- 
2.43.0


From 9a59bd36f3dc6a1bd68c84e3666086337c5d7e70 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 25/60] fix: Rescale 3.0: int8 input with int32 output was read
 as int32, int32 to int32 was never run

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index 855e7cb..bbe4c49 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -177,11 +177,6 @@ mli_status Rescale::Issue() {
             else if (out_elem_size == sizeof(int16_t)) {
                 MLI_ASSERT(0);
             }
-            break;
-        case (sizeof(int16_t)):
-            if (out_elem_size == sizeof(int8_t)) {
-                MLI_ASSERT(0);
-            }
             else if (out_elem_size == sizeof(int32_t)) {
               mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
@@ -192,6 +187,9 @@ mli_status Rescale::Issue() {
                                                          &m_tile_metadata.output);
             }
             break;
+        case (sizeof(int16_t)):
+            MLI_ASSERT(0);
+            break;
         case (sizeof(int8_t)):
             if (out_elem_size == sizeof(int8_t)) {
               mli_krn::mli_krn_rescale<int8_t, int8_t>(&m_tile_metadata.input,
@@ -206,7 +204,7 @@ mli_status Rescale::Issue() {
                 MLI_ASSERT(0);
             }
             else if (out_elem_size == sizeof(int32_t)) {
-              mli_krn::mli_krn_rescale<int32_t, int32_t>(&m_tile_metadata.input,
+              mli_krn::mli_krn_rescale<int8_t, int32_t>(&m_tile_metadata.input,
                                                          &m_tile_metadata.in_bias,
                                                          &m_tile_metadata.scale,
                                                          &m_tile_metadata.shift,
-- 
2.43.0


From 9b0baa3707416af3df7bb3ddbf0438e8efdbc75e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:54 +0000
Subject: [PATCH 26/60] fix: Rescale 3.0: do not saturate (value - zero point)
 to the int8 input type

---
 lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
index 39fa599..c5501d3 100644
--- a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
@@ -29,8 +29,8 @@ static MLI_FORCE_INLINE o_T rescale_value(
     constexpr int max_shift_left = -63;
     int32_t shift = MAX(max_shift_left, MIN(shift_right, max_shift_right));
 
-    i_T value = mli_math_sub_fx(in_val, in_bias);
-    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (static_cast<int32_t>(value),
+    int32_t value = mli_math_sub_fx(static_cast<int32_t>(in_val), static_cast<int32_t>(in_bias));
+    int64_t scaled_value = mli_math_mul_fx<int32_t, int64_t> (value,
                                                               static_cast<int32_t>(scale));
     scaled_value = mli_math_ashift_right_fx(scaled_value, shift);
     scaled_value = mli_math_add_fx(scaled_value, static_cast<int64_t>(out_bias));
-- 
2.43.0


From b7f157cedcd45986a1f8d3b5ae2b051ff14a28b0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 27/60] fix: 3.0: read of misaligned parameters (Rescale with 8
 bit input and an odd number of parameters)

---
 include/mli_types.hpp                          |  6 +++++-
 .../conversion/impl/mli_krn_rescale_ref.hpp    | 18 +++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index bd3b63e..4d52585 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -10,6 +10,7 @@
 #define _MLI_TYPES_HPP_
 
 #include <stdint.h>
+#include <string.h>
 #include <assert.h>
 #include "mli_math_macros.h"
 
@@ -468,7 +469,10 @@ public:
   template <typename T>
   T read(uint32_t offset) const {
     assert(sizeof(T) == elem_size_);
-    return *(reinterpret_cast<T*>(ptr_) + offset);
+    // the data might be misaligned (e.g. encoded parameters)
+    T data;
+    memcpy(&data, reinterpret_cast<const char*>(ptr_) + offset * sizeof(T), sizeof(T));
+    return data;
   }
 
   template <typename T>
diff --git a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
index c5501d3..619cf90 100644
--- a/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_krn_rescale_ref.hpp
@@ -10,6 +10,8 @@
 #ifndef _MLI_KRN_RESCALE_REF_HPP_
 #define _MLI_KRN_RESCALE_REF_HPP_
 
+#include <string.h>
+
 #include "mli_math.h"
 #include "mli_types.h"
 
@@ -38,6 +40,14 @@ static MLI_FORCE_INLINE o_T rescale_value(
     return result;
 }
 
+// Encoded parameters follow each other without padding and might be misaligned
+template <typename T>
+static MLI_FORCE_INLINE T rescale_param(const T *params, const int idx) {
+    T value;
+    memcpy(&value, reinterpret_cast<const char *>(params) + idx * sizeof(T), sizeof(T));
+    return value;
+}
+
 template <typename i_T, typename o_T>
 static MLI_FORCE_INLINE void compute_rescale_per_axis(
         const generic_tensor_private_t<MLI_PTR(i_T)> &in_data,
@@ -63,9 +73,11 @@ static MLI_FORCE_INLINE void compute_rescale_per_axis(
                     const int param_idx = pos[rescale_axis];
                     i_T in_val = mli_prv_tensor_read(in_data, pos[0], pos[1],
                             pos[2], pos[3]);
-                    o_T out_val = rescale_value(in_val, in_bias[param_idx],
-                            out_bias[param_idx], scale[param_idx],
-                            shift[param_idx]);
+                    o_T out_val = rescale_value(in_val,
+                            rescale_param(in_bias, param_idx),
+                            rescale_param(out_bias, param_idx),
+                            rescale_param(scale, param_idx),
+                            rescale_param(shift, param_idx));
                     mli_prv_tensor_write(out_val, out_data, pos[0],
                             pos[1], pos[2], pos[3]);
                 }
-- 
2.43.0


From 44e142c58cf66fb0e7610995c98cd6aec65d17cb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 28/60] fix: Prelu 3.0: signed overflow selecting the slope of
 far apart value and zero point

---
 lib/src/kernels/transform/impl/mli_krn_prelu_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
index 85d6601..1bd3de7 100644
--- a/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
+++ b/lib/src/kernels/transform/impl/mli_krn_prelu_ref.h
@@ -431,7 +431,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_axis(
                         const int param_idx = pos[prelu_axis];
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias[param_idx] >= 0) {
+                        if(in_val >= in_bias[param_idx]) {
                             out_val = scale_value(in_val, in_bias[param_idx],
                                                   out_bias[param_idx], posscale[param_idx],
                                                   posshift[param_idx]);
@@ -470,7 +470,7 @@ static MLI_FORCE_INLINE void compute_prelu_per_tensor(
                     for (pos[4] = 0; pos[4] < in.get_dim(4); pos[4]++) {
                         i_T in_val = mli_prv_tensor_read<i_T>(in, pos[0], pos[1], pos[2], pos[3], pos[4]);
                         o_T out_val;
-                        if(in_val - in_bias >= 0) {
+                        if(in_val >= in_bias) {
                             out_val = scale_value(in_val, in_bias,
                                                   out_bias, posscale, posshift);
                         } else {
-- 
2.43.0


From 5caa0bb89ee7a8d31fa6dcb3335cfddeae07194f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:43 +0000
Subject: [PATCH 29/60] fix: ReduceMax 3.0: the first tile was processed with
 the shape of the whole tensor

---
 lib/src/kernels/conversion/mli_reduce_max_runtime.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
index 8540068..e722b5a 100644
--- a/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
+++ b/lib/src/kernels/conversion/mli_reduce_max_runtime.cc
@@ -33,6 +33,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     m_reduce_axis = private_buffer.reduce_axis;
 
     // construct Input tensor
+    const auto input_tile_tensor = m_input.GetSubTensor();
     m_tile_input.rank = private_buffer.io_rank;
     InternalBuffer input_internal(private_buffer.input.get_buf(), membases, num_mems);
     if(m_in_elem_size == sizeof(int32_t)){
@@ -49,12 +50,13 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
 
     for(unsigned int i = 0; i < m_tile_input.rank ; i++){
-        m_tile_input.shape[i] = private_buffer.input.get_dim(i);
+        m_tile_input.shape[i] = input_tile_tensor.get_dim(i);
         m_tile_input.mem_stride[i] = private_buffer.input.get_mem_stride(i);
     }
 
 
     // construct Output tensor
+    const auto output_tile_tensor = m_output.GetSubTensor();
     m_tile_output.rank = private_buffer.io_rank;
     InternalBuffer output_internal(private_buffer.output.get_buf(), membases, num_mems);
     if(m_out_elem_size == sizeof(int32_t)){
@@ -71,7 +73,7 @@ ReduceMax::ReduceMax(void* kernel_private_data_buffer, size_t size, uint64_t mem
     }
     
     for(unsigned int i = 0; i < m_tile_output.rank ; i++){
-        m_tile_output.shape[i] = private_buffer.output.get_dim(i);
+        m_tile_output.shape[i] = output_tile_tensor.get_dim(i);
         m_tile_output.mem_stride[i] = private_buffer.output.get_mem_stride(i);
     }
 }
-- 
2.43.0


From 61ca043247765168d9431d6a05b522a83e64ac72 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:03 +0000
Subject: [PATCH 30/60] fix: ResizeBilinear 3.0: out of bounds read for offsets
 below -1 pixel

---
 lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
index 13b722d..fb3b996 100644
--- a/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_resize_bilinear_ref.hpp
@@ -40,13 +40,13 @@ mli_status mli_resize_bilinear(const mli_tensor* in, const ResizeOpConfig& cfg,
             row_int = row_fx >> cfg.shift;
             delta_row_fx = row_fx - (row_int << cfg.shift);
             input_row0_int = MIN(MAX(row_int, 0), in_prv.shape[kTensorHeightDim] - 1);
-            input_row1_int = MIN(row_int + 1, in_prv.shape[kTensorHeightDim] - 1);
+            input_row1_int = MIN(MAX(row_int + 1, 0), in_prv.shape[kTensorHeightDim] - 1);
             for (w = 0; w < out_prv.shape[kTensorWidthDim]; w++) {
                 col_fx = w * cfg.stride[1] + cfg.offset[1];
                 col_int = col_fx >> cfg.shift;
                 delta_col_fx = col_fx - (col_int << cfg.shift);
                 input_col0_int = MIN(MAX(col_int, 0), in_prv.shape[kTensorWidthDim] - 1);
-                input_col1_int = MIN(col_int + 1, in_prv.shape[kTensorWidthDim] - 1);
+                input_col1_int = MIN(MAX(col_int + 1, 0), in_prv.shape[kTensorWidthDim] - 1);
                 for (c = 0; c < out_prv.shape[kTensorChannelDim]; c++) {
                     // read the nearest 4 input values around the output point
                     v00 = mli_prv_tensor_read(in_prv, b, input_row0_int, input_col0_int, c);
-- 
2.43.0


From aafa737ed5b5719ed94b9a34a5dcdf7a12ce1716 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:04 +0000
Subject: [PATCH 31/60] fix: ResizeBilinear 3.0: limit of stride and offset
 overflowed int16 for shift 11

---
 lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc | 2 +-
 lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
index 0da0183..daeacbc 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_compiler.cc
@@ -30,7 +30,7 @@ ResizeBilinear_CS::ResizeBilinear_CS(const lib_mli::PlatformDescription pd,
   }
  
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(m_cfg.stride[0] < val_16_fx);
   MLI_ASSERT(m_cfg.stride[1] < val_16_fx);
 
diff --git a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
index 2f04745..c321992 100644
--- a/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
+++ b/lib/src/kernels/conversion/mli_resize_bilinear_runtime.cc
@@ -31,7 +31,7 @@ void run_mli_resize_bilinear_standalone(const mli_tensor* in, const ResizeOpConf
     MLI_ASSERT(cfg.stride[1] > (1 << (cfg.shift - 4)));
   }
   // resizing factor is limited to x16 upscaling
-  const int16_t val_16_fx = 16 << cfg.shift;
+  const int32_t val_16_fx = 16 << cfg.shift;
   MLI_ASSERT(cfg.stride[0] < val_16_fx);
   MLI_ASSERT(cfg.stride[1] < val_16_fx);
 
-- 
2.43.0


From e28ba7a4de77a9c3410d14036961ae936a6696d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:16 +0000
Subject: [PATCH 32/60] fix: Move 3.0: AttachBufferOffsets with tensors did not
 attach the buffers

---
 include/api/mli_ref_compiler_api.hpp | 2 --
 lib/src/move/mli_mov_compiler.cc     | 4 ++--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index a308817..9e20ab7 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -910,8 +910,6 @@ private:
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_src_it;
   TensorIterator<OffsetBuffer, kMoveRank, kMoveIterRank> m_dst_it;
 
-  OffsetBuffer m_src_offset_buf;
-  OffsetBuffer m_dst_offset_buf;
 
 };
 
diff --git a/lib/src/move/mli_mov_compiler.cc b/lib/src/move/mli_mov_compiler.cc
index 7ac4e36..1c8d218 100644
--- a/lib/src/move/mli_mov_compiler.cc
+++ b/lib/src/move/mli_mov_compiler.cc
@@ -53,8 +53,8 @@ mli_status Move_CS::GetKernelPrivateData(void *kernel_private_data_buffer) {
 
 mli_status Move_CS::AttachBufferOffsets(const Tensor<OffsetBuffer, kMoveRank> &src,
                                         const Tensor<OffsetBuffer, kMoveRank> &dst) {
-  m_src_offset_buf = src.get_buf();
-  m_dst_offset_buf = dst.get_buf();
+  m_src_it.set_buf(src.get_buf());
+  m_dst_it.set_buf(dst.get_buf());
 
   assert(src.get_elem_size() == dst.get_elem_size());
 
-- 
2.43.0


From 6e08d549b3e73a87d16dd8b25f20443b06009bea Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 33/60] fix: runtime kernels 3.0: element params of the tile
 tensors were used uninitialized

---
 include/api/mli_ref_runtime_api.hpp | 54 ++++++++++++++---------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/include/api/mli_ref_runtime_api.hpp b/include/api/mli_ref_runtime_api.hpp
index d57471f..335c9b7 100644
--- a/include/api/mli_ref_runtime_api.hpp
+++ b/include/api/mli_ref_runtime_api.hpp
@@ -300,8 +300,8 @@ private:
 
     // Tile state
     uint32_t m_tile_batch_size;
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
     mli_pool_cfg m_tile_cfg;
 };
 
@@ -408,8 +408,8 @@ private:
 
     // Tile state
     uint32_t m_tile_batch_size;
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
     mli_pool_cfg m_tile_cfg;
 };
 
@@ -460,9 +460,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -516,9 +516,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -572,9 +572,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -629,9 +629,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -685,9 +685,9 @@ private:
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_left;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_input_right;
     TensorIterator<OffsetBuffer, kEltwiseRank, kEltwiseIterRank> m_output;
-    mli_tensor m_tile_input_left;
-    mli_tensor m_tile_input_right;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input_left{};
+    mli_tensor m_tile_input_right{};
+    mli_tensor m_tile_output{};
     uint32_t m_i_elem_size;
     uint32_t m_o_elem_size;
 
@@ -742,11 +742,11 @@ private:
     TensorIterator<OffsetBuffer, kClipRank, kClipIterRank> m_input;
     TensorIterator<OffsetBuffer, kClipRank, kClipIterRank> m_output;
 
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
 
-    mli_tensor m_min;
-    mli_tensor m_max;
+    mli_tensor m_min{};
+    mli_tensor m_max{};
 };
 
 /**
@@ -794,8 +794,8 @@ public:
 private:
     TensorIterator<OffsetBuffer, kReduceMaxRank, kReduceMaxIterRank> m_input;
     TensorIterator<OffsetBuffer, kReduceMaxRank, kReduceMaxIterRank> m_output;
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
 
     int32_t m_reduce_axis;
 
@@ -1033,8 +1033,8 @@ private:
     TensorIterator<OffsetBuffer, kReduceSumRank, kReduceSumIterRank> m_output;
     int32_t m_reduce_axis;
     
-    mli_tensor m_tile_input;
-    mli_tensor m_tile_output;
+    mli_tensor m_tile_input{};
+    mli_tensor m_tile_output{};
 
     uint32_t m_in_elem_size;
     uint32_t m_out_elem_size;
-- 
2.43.0


From bc456a282df0f8fdce79d55b4278d8a31f02d5ff Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 34/60] fix: SumPool2D 3.0: top and left padding of the second
 and later tiles

---
 lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
index afd86a2..d009373 100644
--- a/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
+++ b/lib/src/kernels/pooling/mli_krn_sumpool_runtime.cc
@@ -137,11 +137,18 @@ void SumPool2D::UpdateTilePaddings() {
   m_input.get_pos(tile_input_offsets);
 
   const auto& input_it_cfg = m_input.get_config();
-  if (tile_input_offsets[kTensorHeightDim]) m_tile_cfg.padding_top = 0;
+  int32_t tile_idx[kPoolRank];
+  m_input.get_tile_idx(tile_idx);
+
+  // a tile begins after the first ones, which may have used only a part of the padding
+  const uint32_t pad_used_top = input_it_cfg.get_inc(kTensorHeightDim) * tile_idx[kTensorHeightDim];
+  const uint32_t pad_used_left = input_it_cfg.get_inc(kTensorWidthDim) * tile_idx[kTensorWidthDim];
+
+  m_tile_cfg.padding_top -= MIN(pad_used_top, m_tile_cfg.padding_top);
   if (tile_input_offsets[kTensorHeightDim] + (int32_t) input_it_cfg.get_size(kTensorHeightDim) < (int32_t)m_input.get_dim(kTensorHeightDim)) {
     m_tile_cfg.padding_bottom = 0;
   }
-  if (tile_input_offsets[kTensorWidthDim]) m_tile_cfg.padding_left = 0;
+  m_tile_cfg.padding_left -= MIN(pad_used_left, m_tile_cfg.padding_left);
   if (tile_input_offsets[kTensorWidthDim] + (int32_t) input_it_cfg.get_size(kTensorWidthDim) < (int32_t)m_input.get_dim(kTensorWidthDim)) {
     m_tile_cfg.padding_right = 0;
   }
-- 
2.43.0


From 0f5e341f174b571aa71467310221a289961ede94 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:10 +0000
Subject: [PATCH 35/60] fix: Rescale 3.0: element types of the 8 bit input and
 32 bit output biases

---
 lib/src/kernels/conversion/mli_krn_rescale_runtime.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
index bbe4c49..bcb60f9 100644
--- a/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
+++ b/lib/src/kernels/conversion/mli_krn_rescale_runtime.cc
@@ -99,7 +99,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.in_bias.data.mem.pi8 = encoded_params_internal.get_ptr<int8_t>();
       }
       encoded_params_internal.inc(m_tile_param_max_size);
-      m_tile_metadata.in_bias.el_type = MLI_EL_SA_32;
+      m_tile_metadata.in_bias.el_type = MLI_EL_SA_8;
     }
     else {
         MLI_ASSERT(0);
@@ -151,7 +151,7 @@ Rescale::Rescale(void* kernel_private_data_buffer, size_t size,
         m_tile_metadata.out_bias.rank = 1;
         m_tile_metadata.out_bias.data.mem.pi32 = encoded_params_internal.get_ptr<int32_t>();
       }
-      m_tile_metadata.out_bias.el_type = MLI_EL_SA_8;
+      m_tile_metadata.out_bias.el_type = MLI_EL_SA_32;
     }
     else {
         MLI_ASSERT(0);
-- 
2.43.0


From 62a049a59ee5e32615a4d6e9d4cd3d71fd2c56d9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:29 +0000
Subject: [PATCH 36/60] fix: Permute 3.0: quantization axis of the tile tensors
 was used uninitialized

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index c103cc5..0dbc330 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -33,6 +33,12 @@ Permute::Permute(void* kernel_private_data_buffer, size_t size, uint64_t membase
         m_perm_dim[i] = private_buffer.perm_dim[i];
     }
 
+    // element parameters aren't part of the operation: no quantization axis
+    memset(&m_metadata.m_tile_input, 0, sizeof(m_metadata.m_tile_input));
+    memset(&m_metadata.m_tile_output, 0, sizeof(m_metadata.m_tile_output));
+    m_metadata.m_tile_input.el_params.sa.dim = -1;
+    m_metadata.m_tile_output.el_params.sa.dim = -1;
+
     // construct Input tensor
     m_metadata.m_input = private_buffer.input;
     // check if dim less than rank.
-- 
2.43.0


From 69531f72bac6d312fb08767d34987c940f59d3b9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:42 +0000
Subject: [PATCH 37/60] fix: Permute 3.0: 16 bit data, accepted by the
 constructor, was not processed

---
 lib/src/kernels/diverse/mli_krn_permute_runtime.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
index 0dbc330..39df0a4 100644
--- a/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
+++ b/lib/src/kernels/diverse/mli_krn_permute_runtime.cc
@@ -120,6 +120,13 @@ mli_status Permute::Issue() {
             }
             break;
 
+        case (sizeof(int16_t)):
+            for(uint32_t i = 0; i < kPermuteRank; i++) {
+                cfg.perm_dim[i] = m_perm_dim[i];
+            }
+            mli_ref::mli_krn_permute_run<int16_t, false>(&m_metadata.m_tile_input, &cfg, &m_metadata.m_tile_output);
+            break;
+
         case (sizeof(int8_t)):
             for(uint32_t i = 0; i < kPermuteRank; i++) {
                 cfg.perm_dim[i] = m_perm_dim[i];
-- 
2.43.0


From 79d22891340e94aaddd31801fc2245a94d4deb5b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:19 +0000
Subject: [PATCH 38/60] fix: Move 3.0: the form without iterator configuration
 moved one element only

---
 include/mli_kernels_factory_ref.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mli_kernels_factory_ref.hpp b/include/mli_kernels_factory_ref.hpp
index 29f843b..8428368 100644
--- a/include/mli_kernels_factory_ref.hpp
+++ b/include/mli_kernels_factory_ref.hpp
@@ -125,7 +125,10 @@ public:
          */
         assert(kernel_buffer != nullptr);
         assert(((size_t) kernel_buffer % kMliAlignment) == 0);
-        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst);
+        // no tiling: a single tile of the tensors' size
+        return new(kernel_buffer) lib_ref::Move_CS(m_pd, src, dst,
+                                                   IteratorCfg<kMoveIterRank>(src),
+                                                   IteratorCfg<kMoveIterRank>(dst));
     }
 
     lib_mli::Move_CS* Move_CS(void *kernel_buffer,
-- 
2.43.0


From 20499060bf3e5ef46342d68246c10e67b007430f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:39 +0000
Subject: [PATCH 39/60] fix: TensorIterator 3.0: buffer offsets wrong for
 dimensions of one tile and uneven tiles

---
 include/mli_iterator.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 65f5e01..e1bdd82 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -531,19 +531,16 @@ class BufferIterator {
         // tensor/tile is 1 or 0, that simply means that dimension doesn't exist
         // in terms of buffer, so offset must be 0.
         if (cfg.get_buf_tiles_num() == 0 && full_tensor.get_dim(axis) > 1) {
-          m_first_offset_inc[axis] = cfg.get_first_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_first_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_offset_inc[axis] = cfg.get_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_inc(axis) * full_tensor.get_mem_stride(axis);
-          m_last_offset_inc[axis] = cfg.get_last_inc(axis) == 0 ? full_tensor.get_mem_stride(axis) : cfg.get_last_inc(axis) * full_tensor.get_mem_stride(axis);
-
+          const int32_t mem_stride = full_tensor.get_mem_stride(axis);
+          m_first_offset_inc[axis] = cfg.get_first_inc(axis) * mem_stride;
+          m_offset_inc[axis] = cfg.get_inc(axis) * mem_stride;
+          m_last_offset_inc[axis] = cfg.get_last_inc(axis) * mem_stride;
+          // A positive last increment makes the increments add up to the dimension,
+          // which is subtracted at its end. Otherwise it leads back to the beginning.
+          if (cfg.get_last_inc(axis) > 0) m_buffer_dec[axis] = full_tensor.get_dim(axis) * mem_stride;
         } else {
-          m_first_offset_inc[axis] = 0;
-          m_offset_inc[axis] = 0;
-          m_last_offset_inc[axis] = 0;
           m_buffer_size *= buffer_dim;
         }
-        m_buffer_dec[axis] = cfg.get_buf_tiles_num() == 0
-                             ? full_tensor.get_dim(axis) * full_tensor.get_mem_stride(axis)
-                             : buffer_dim * full_tensor.get_mem_stride(axis);
       }
     };
 
-- 
2.43.0


From 070a51b674128ff29244ce8d6da6f2cf94dfaee6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:40 +0000
Subject: [PATCH 40/60] fix: mli_chk_point_to_subtensor refused every output of
 more than one dimension

---
 lib/src/private/src/mli_check.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 1818636..b5c3f1a 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2802,7 +2802,13 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     const uint32_t subtsr_start_axis = cfg->coord_num - 1;
     const uint32_t out_rank = in->rank - subtsr_start_axis;
     fail |= MLI_CHECK(check_layout_is_contiguous(in), "Memory Layout of input tensor must be contiguous");
-    fail |= MLI_CHECK(check_layout_is_contiguous(out->mem_stride, out_rank),
+    // Output shape is not set yet: it follows from the input shape and the configuration
+    uint32_t out_shape[MLI_MAX_RANK];
+    out_shape[0] = cfg->first_out_dim_size;
+    for (uint32_t i = 1; i < out_rank; i++) {
+        out_shape[i] = in->shape[subtsr_start_axis + i];
+    }
+    fail |= MLI_CHECK(check_layout_is_contiguous(out_shape, out->mem_stride, out_rank),
                       "Memory Layout of output tensor must be contiguous");
     if (fail) return MLI_STATUS_INCOMPATEBLE_TENSORS;
 
-- 
2.43.0


From 5506e7ba589aee50cffc66b9bfcce69a38f93725 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 41/60] fix: IteratorCfg: dropping an axis swapped the first
 and the other increments

---
 include/mli_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index e1bdd82..ea6ed47 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -202,8 +202,8 @@ class IteratorCfg {
         m_first_size[j] = icfg.get_first_size(i);
         m_size[j] = icfg.get_size(i);
         m_last_size[j] = icfg.get_last_size(i);
-        m_pos_inc[j] = icfg.get_first_inc(i);
-        m_first_pos_inc[j] = icfg.get_inc(i);
+        m_pos_inc[j] = icfg.get_inc(i);
+        m_first_pos_inc[j] = icfg.get_first_inc(i);
         m_last_pos_inc[j] = icfg.get_last_inc(i);
         m_diff_code[j] = icfg.get_diff_code(i);
         j++;
-- 
2.43.0


From 5004dc7d043351c2e026b2cd189216b4fff81bd9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 42/60] fix: IteratorCfg::transpose_order renamed the
 dimensions by the inverse permutation

---
 include/mli_iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index ea6ed47..11cb82f 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -340,12 +340,16 @@ class IteratorCfg {
         IteratorCfg<iterRank> iter;
         // change order of axes
         uint32_t c = 0;
+        int32_t new_axis[iterRank];  // axis of the transposed tensor for each axis of the original one
         for (uint32_t axis = 0; axis < iterRank; axis++) {
           assert(new_order[axis] >= 0 && new_order[axis] < iterRank);
           // axis can only be selected once
           assert((c & (1 << new_order[axis])) == 0);
           c |= (1 << new_order[axis]);
-          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_order[m_order[axis]];
+          new_axis[new_order[axis]] = axis;
+        }
+        for (uint32_t axis = 0; axis < iterRank; axis++) {
+          iter.m_order[axis] = m_order[axis] < 0 ? -1 : new_axis[m_order[axis]];
           iter.m_count[axis] = m_count[axis];
           iter.m_size[axis] = m_size[axis];
           iter.m_first_size[axis] = m_first_size[axis];
-- 
2.43.0


From b59967345aaf4f48a4c2e584d6447d24f549b4d6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 43/60] fix: TensorIterator::Reset kept the buffer offset of
 the current tile

---
 include/mli_iterator.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 11cb82f..a241b14 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -516,7 +516,7 @@ class BufferIterator {
     template <uint32_t tensorRank, class src_buf_T>
     BufferIterator(const Tensor<src_buf_T, tensorRank>& full_tensor,
                    const IteratorCfg<iterRank>& cfg)
-        : m_buffer_offset{0} {
+        : m_buffer_offset{0}, m_start_offset{0} {
       m_buffer_size = 1;
       for (uint32_t i = 0; i < iterRank; i++) {
         m_first_offset_inc[i] = 0;
@@ -563,7 +563,14 @@ class BufferIterator {
         m_last_offset_inc[i] = cfg.get_last_inc(i)>0 ? cfg.get_last_inc(i) * full_tensor.get_mem_stride(i) :full_tensor.get_mem_stride(i);
         m_buffer_dec[i] = full_tensor.get_dim(i) * full_tensor.get_mem_stride(i);
       }
-      m_buffer_offset = buffer_offset;
+      m_buffer_offset = m_start_offset = buffer_offset;
+    }
+
+    /**
+     * @brief Going back to the offset of the first tile
+     */
+    void Reset() {
+      m_buffer_offset = m_start_offset;
     }
 
     /**
@@ -626,6 +633,7 @@ class BufferIterator {
 
   int32_t m_buffer_offset;                  /**< Offset in elements inside attached memory
                                                  buffer */
+  int32_t m_start_offset;                   /**< Offset in elements of the first tile */
   int32_t m_buffer_size;
 
 };
@@ -904,6 +912,7 @@ class TensorIterator {
       for (uint32_t i = 0; i < iterRank; i++) {
         m_pos[i] = m_tile_idx[i] = 0;
       }
+      m_buffer_itr.Reset();
       m_offset = m_buffer_itr.GetBufferOffset();
       return MLI_STATUS_OK;
     }
-- 
2.43.0


From 2b66fd2dc303effe0e852186276709bf4d9e76ab Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:11 +0000
Subject: [PATCH 44/60] fix: Nop 3.0: reported run-time object size was 0,
 which Create refuses

---
 include/api/mli_ref_compiler_api.hpp | 8 +++++++-
 lib/src/private/src/mli_runtime.cc   | 5 +++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/api/mli_ref_compiler_api.hpp b/include/api/mli_ref_compiler_api.hpp
index 9e20ab7..b8a7917 100644
--- a/include/api/mli_ref_compiler_api.hpp
+++ b/include/api/mli_ref_compiler_api.hpp
@@ -23,7 +23,13 @@ using lib_mli::NoBuffer;
 class Conv2DPrivateData;
 class Pool2DPrivateData;
 
-class Nop_CS : public lib_mli::Nop_CS {};
+class Nop_CS : public lib_mli::Nop_CS {
+public:
+    /**
+     * @brief Method to get the size of the runtime object
+     */
+    unsigned GetRuntimeObjectSize() const override;
+};
 
 class Conv2d_CS : public lib_mli::Conv2d_CS {
 public:
diff --git a/lib/src/private/src/mli_runtime.cc b/lib/src/private/src/mli_runtime.cc
index d25ffd2..96e6de3 100644
--- a/lib/src/private/src/mli_runtime.cc
+++ b/lib/src/private/src/mli_runtime.cc
@@ -11,6 +11,7 @@
 #include <new>
 
 #include "mli_debug.h"
+#include "mli_ref_compiler_api.hpp"
 #include "mli_ref_runtime_api.hpp"
 #include "mli_sync_interface.hpp"
 
@@ -219,6 +220,10 @@ ExecutionInterface* ExecutionInterface::Create(
     return obj;
 }
 
+unsigned ref::Nop_CS::GetRuntimeObjectSize() const {
+    return sizeof(Nop);
+}
+
 mli_status SynchronizationInterface::WaitEvent(int32_t mask) {
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From 80d4bfc56bcf21a77bde4e7b2fb26339b7a3cc9c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 45/60] fix: tensor checks computed sizes in 32 bits, so
 wrapping sizes passed the capacity check

---
 lib/src/private/src/mli_check.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index b5c3f1a..fa7de1e 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -84,19 +84,21 @@ static MLI_FORCE_INLINE mli_status check_tensor_private(
     }
     if (fail) return MLI_STATUS_BAD_TENSOR;
 
-    int size = 1;
-    int previous_shape = 1;
-    int previous_mem_stride = 1;
+    // Shapes and strides take up to 31 bits each, so their products need 64 bits.
+    // As soon as the strides are consistent the total fits 62 bits (plus bits of the element size).
+    uint64_t size = 1;
+    int64_t previous_shape = 1;
+    int64_t previous_mem_stride = 1;
     for (int i = rank - 1; i >= 0; i--) {
         fail |= MLI_CHECK(mem_stride[i] >= (previous_shape * previous_mem_stride), "Tensor mem stride too small");
+        if (fail) return MLI_STATUS_BAD_TENSOR;
         previous_shape = shape[i];
         previous_mem_stride = mem_stride[i];
-        size += (previous_shape - 1) * previous_mem_stride;
+        size += (uint64_t)((previous_shape - 1) * previous_mem_stride);
     }
     size *= element_size;
 
-    if (fail) return MLI_STATUS_BAD_TENSOR;
-    fail |= MLI_CHECK((int)capacity >= size, "Insufficient tensor capacity");
+    fail |= MLI_CHECK(capacity >= size, "Insufficient tensor capacity");
     if (fail) return MLI_STATUS_NOT_ENGH_MEM;
     return MLI_STATUS_OK;
 }
-- 
2.43.0


From bbfc00f9a1fb7c9f5b052e7983005cf30dfe48dd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 46/60] fix: group convolution check divided by zero for
 operands it is about to refuse

---
 lib/src/private/src/mli_check.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index fa7de1e..627fad3 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -758,9 +758,11 @@ mli_status mli_chk_group_conv2d_hwcn(
     fail |= MLI_CHECK(weights->rank == 4, "Wrong weights rank");
     fail |= MLI_CHECK(bias->rank == 1, "Wrong bias rank");
     fail |= MLI_CHECK(bias->shape[0] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch bias and weights");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
 
     int group_count = in->shape[FMAP_C_DIM_HWC] / weights->shape[KRNL_D_DIM_HWCN];
-    fail |= MLI_CHECK(in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    fail |= MLI_CHECK(group_count > 0 && in->shape[FMAP_C_DIM_HWC] % weights->shape[KRNL_D_DIM_HWCN] == 0, "Input channel count must be multiple of group count");
+    if (fail) return MLI_STATUS_SHAPE_MISMATCH;
     fail |= MLI_CHECK(weights->shape[KRNL_C_DIM_HWCN] % group_count == 0, "Number of filters must be multiple of group count");
     fail |= MLI_CHECK(out->shape[FMAP_C_DIM_HWC] == weights->shape[KRNL_C_DIM_HWCN], "Shape mismatch out and weights");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From ba6d49a572bc13173ea84e7d4ab7b767019db661 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 47/60] fix: element-wise check read beyond the shape of a
 tensor with too high rank

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 627fad3..cca0c78 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -240,6 +240,7 @@ mli_status mli_chk_scalar_tensor (const mli_tensor * in) {
 bool mli_tensor_is_scalar (const mli_tensor * in) {
     if (in == NULL) return false;
     if (in->rank == 0) return true;
+    if (in->rank > MLI_MAX_RANK) return false;
     if (mli_prv_count_elem_num(in) == 1) return true;
     return false;
 }
-- 
2.43.0


From 7254ec95b4e44c587b387b9cf606e8b3e84b8aef Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 48/60] fix: argmax check accepted an output of any rank

---
 lib/src/private/src/mli_check.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index cca0c78..453a940 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2962,6 +2962,7 @@ mli_status mli_chk_argmax(const mli_tensor *in, const mli_argmax_cfg *cfg, mli_t
     if (fail) return MLI_STATUS_BAD_FUNC_CFG;
 
     // Check out shape
+    fail |= MLI_CHECK(out->rank == 2, "Wrong output rank");
     fail |= MLI_CHECK(out->shape[0] == dim_size, "Out shape[0] should equal dim size");
     fail |= MLI_CHECK((int)out->shape[1] == cfg->topk, "Out shape[1] should equal topk");
     if (fail) return MLI_STATUS_SHAPE_MISMATCH;
-- 
2.43.0


From 86db42679e040590a706e8ca279bc7fda1b0acf3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 49/60] fix: permute check ignored the output rank and invalid
 per-axis parameters of the input

---
 lib/src/private/src/mli_check.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 453a940..7d6ab7b 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2664,6 +2664,9 @@ mli_status mli_chk_permute (const mli_tensor * in, const mli_permute_cfg * cfg,
     if (MLI_CHECK(out->el_type == in->el_type, "Wrong output type"))
         return MLI_STATUS_TYPE_MISMATCH;
 
+    if (MLI_CHECK(out->rank == in->rank, "Wrong output rank"))
+        return MLI_STATUS_SHAPE_MISMATCH;
+
     // Check config structure
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
 
@@ -2715,6 +2718,8 @@ mli_status mli_chk_permute_sa8 (const mli_tensor * in, const mli_permute_cfg * c
         return MLI_STATUS_TYPE_MISMATCH;
     if (in->el_params.sa.dim >= 0) {
         bool fail = false;
+        ret = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad quantization parameters of input tensor");
+        if (ret != MLI_STATUS_OK) return ret;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16) \
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == in->el_params.sa.scale_frac_bits.mem.pi8),
-- 
2.43.0


From c3f6b88b798b91c74d23134300fb06bd9e9e7523 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 50/60] fix: convert check ignored invalid per-axis
 quantization parameters

---
 lib/src/private/src/mli_check.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 7d6ab7b..dbcf646 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2784,6 +2784,15 @@ mli_status mli_chk_convert_tensor(const mli_tensor *in, mli_tensor *out) {
 
     if (fail) return MLI_STATUS_SIZE_MISMATCH;
 
+    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && in->el_params.sa.dim >= 0) {
+        stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad quantization parameters of input tensor");
+        if (stat != MLI_STATUS_OK) return stat;
+    }
+    if ((out->el_type == MLI_EL_SA_8 || out->el_type == MLI_EL_SA_32) && out->el_params.sa.dim >= 0) {
+        stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(out), "Bad quantization parameters of output tensor");
+        if (stat != MLI_STATUS_OK) return stat;
+    }
+
     return MLI_STATUS_OK;
 }
 
-- 
2.43.0


From a67eb557e539e01b0035c60c9371c4a9fe83a9b1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 51/60] fix: data movement check validated the configuration of
 per-axis tensors only

---
 lib/src/private/src/mli_check.cc | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index dbcf646..09fc172 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2864,8 +2864,22 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
     if (stat != MLI_STATUS_OK) return stat;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
+
+    //check that the configurations are valid
+    for (uint32_t i=0; i < in->rank; i++) {
+        const uint32_t padded_shape = in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i];
+        if (MLI_CHECK(cfg->offset[i] <= padded_shape && cfg->size[i] <= padded_shape - cfg->offset[i],"Size is larger than padded input"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+        if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
+            return MLI_STATUS_BAD_FUNC_CFG;
+    }
+
     if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && (in->el_params.sa.dim != -1)) {
         bool fail = false;
+        stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad quantization parameters of input tensor");
+        if (stat != MLI_STATUS_OK) return stat;
         if (out->el_params.sa.zero_point.mem.pi16 == in->el_params.sa.zero_point.mem.pi16)
             fail |= MLI_CHECK((out->el_params.sa.scale.mem.pi16 == in->el_params.sa.scale.mem.pi16)
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == in->el_params.sa.scale_frac_bits.mem.pi8),
@@ -2881,16 +2895,6 @@ mli_status mli_chk_data_movement(const mli_tensor *in, const mli_mov_cfg_t *cfg,
                     && (out->el_params.sa.scale_frac_bits.mem.pi8 == nullptr),
                     "El_params data for out tensor wasn`t initialized in a consistent way");
 
-        //check that the configurations are valid
-        for (uint32_t i=0; i < in->rank; i++) {
-            if (MLI_CHECK((cfg->size[i] + cfg->offset[i]) <= in->shape[i] + cfg->padding_pre[i] + cfg->padding_post[i],"Size is larger than padded input"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->sub_sample_step[i] > 0,"sub_sample_step should be greater than 0"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-            if (MLI_CHECK(cfg->perm_dim[i] < in->rank,"permute out of range"))
-                return MLI_STATUS_BAD_FUNC_CFG;
-        }
-
         int32_t in_dim = in->el_params.sa.dim;
         int32_t out_dim = 0;
         for (int dim = 0; dim < (int)in->rank; dim++) {
-- 
2.43.0


From e920d3c43bbe04ba07d9ef5d42f19ba0fa2532fa Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 52/60] fix: subtensor checks accepted wrapping sizes, a
 missing coordinate, an unreachable rank and invalid per-axis parameters

---
 lib/src/private/src/mli_check.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/src/private/src/mli_check.cc b/lib/src/private/src/mli_check.cc
index 09fc172..b0a1840 100644
--- a/lib/src/private/src/mli_check.cc
+++ b/lib/src/private/src/mli_check.cc
@@ -2806,7 +2806,7 @@ mli_status mli_chk_point_to_subtensor(const mli_tensor *in, const mli_point_to_s
     if (MLI_CHECK(out != NULL , "Bad Output tensor  pointer")) return MLI_STATUS_BAD_TENSOR;
 
     if (MLI_CHECK(cfg != NULL , "Bad cfg pointer")) return MLI_STATUS_BAD_FUNC_CFG;
-    if (MLI_CHECK(cfg->coord_num <= in->rank, "incorrect number of coordinates"))
+    if (MLI_CHECK(cfg->coord_num > 0 && cfg->coord_num <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
     for (int i = 0; i < cfg->coord_num; i++) {
@@ -2846,11 +2846,21 @@ mli_status mli_chk_create_subtensor(const mli_tensor *in, const mli_sub_tensor_c
     if (MLI_CHECK(cfg->sub_tensor_rank <= in->rank, "incorrect number of coordinates"))
         return MLI_STATUS_BAD_FUNC_CFG;
 
+    uint32_t removable_dims = 0;
     for (int i = 0; i < (int)in->rank; i++) {
         if (MLI_CHECK(cfg->offset[i] < in->shape[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
-        if (MLI_CHECK(cfg->offset[i] + cfg->size[i] <= in->shape[i], "bad config"))
+        if (MLI_CHECK(cfg->size[i] <= in->shape[i] - cfg->offset[i], "bad config"))
             return MLI_STATUS_BAD_FUNC_CFG;
+        if (cfg->size[i] == 1) removable_dims++;
+    }
+    // Only dimensions with a size of 1 can be removed
+    if (MLI_CHECK(in->rank - cfg->sub_tensor_rank <= removable_dims, "incorrect number of coordinates"))
+        return MLI_STATUS_BAD_FUNC_CFG;
+
+    if ((in->el_type == MLI_EL_SA_8 || in->el_type == MLI_EL_SA_32) && in->el_params.sa.dim >= 0) {
+        stat = MLI_CHECK_STATUS(mli_chk_tensor_quant_params(in), "Bad quantization parameters of input tensor");
+        if (stat != MLI_STATUS_OK) return stat;
     }
 
     return MLI_STATUS_OK;
-- 
2.43.0


From 40ab05048420a17a7a83aaf274a3ad1726c6f350 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:46 +0000
Subject: [PATCH 53/60] fix: apply a per-tensor weights zero point in 3.0
 convolutions

A convolution with one output channel encodes its single weights zero point
as per-tensor, which define_quant_params() left unset (release) or refused
with an assertion (debug).
---
 lib/src/bricks/impl/mli_prv_quant_ref.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/src/bricks/impl/mli_prv_quant_ref.h b/lib/src/bricks/impl/mli_prv_quant_ref.h
index 2071d0f..715a9e3 100644
--- a/lib/src/bricks/impl/mli_prv_quant_ref.h
+++ b/lib/src/bricks/impl/mli_prv_quant_ref.h
@@ -702,8 +702,7 @@ MLI_FORCE_INLINE void define_quant_params(
     MLI_ASSERT(weights.quant_axis >= -1 &&
                weights.quant_axis < static_cast<int>(weights.t.get_rank()));
     if (weights.quant_axis == -1) {
-        // not supported yet
-        MLI_ASSERT(false);
+        params->weights_offset = get_per_tensor_zp<w_T>(weights.zp);
     } else {
         // If only weights zero points are all zero
         params->weights_offset = get_per_channel_zp<w_T>(
-- 
2.43.0


From c9702361a72ab28e1f663fb8277d24ee05b32a76 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:34 +0000
Subject: [PATCH 54/60] fix: accept lower rank tensors in ReduceMax and
 ReduceSum

The rank assertions were the wrong way round: tensors of a rank below four,
which the code below extends, were refused in debug builds.
---
 lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp | 4 ++--
 lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
index 5755b75..b6d3c3c 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_max_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_max(const mli_tensor *in,
 
     constexpr int kMaxSupportedRank = 4;
 
-    MLI_ASSERT(kMaxSupportedRank <= in_prv.rank);
-    MLI_ASSERT(kMaxSupportedRank <= out_prv.rank);
+    MLI_ASSERT(in_prv.rank <= kMaxSupportedRank);
+    MLI_ASSERT(out_prv.rank <= kMaxSupportedRank);
 
     // for tensors with rank less than kMaxSupportedRank, the tensor is automatically extended to the  kMaxSupportedRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
diff --git a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
index eab7db3..57e24aa 100644
--- a/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
+++ b/lib/src/kernels/conversion/impl/mli_reduce_sum_ref.hpp
@@ -32,8 +32,8 @@ mli_status MLI_FORCE_INLINE mli_reduce_sum(const mli_tensor *in,
     auto in_prv = mli_prv_get_generic_tensor<MLI_PTR(io_T)>(in);
     auto out_prv = mli_prv_get_generic_tensor<MLI_OUT_PTR(io_T)>(out);
 
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= in_prv.rank);
-    MLI_ASSERT(static_cast<int>(kReduceSumRank) <= out_prv.rank);
+    MLI_ASSERT(in_prv.rank <= static_cast<int>(kReduceSumRank));
+    MLI_ASSERT(out_prv.rank <= static_cast<int>(kReduceSumRank));
 
     // for tensors with rank less than kReduceSumRank, the tensor is automatically extended to the  kReduceSumRank but with dim = 0
     // any dim = 0 should be dim = 1 to be able to go inside it 
-- 
2.43.0


From c9d36a7e8844f4ca667a797663fcf7d51aa3bd7f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:59 +0000
Subject: [PATCH 55/60] fix: initialise the unused operand view of element-wise
 kernels with a scalar

---
 lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h b/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
index 3fa9774..3e06ff7 100644
--- a/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
+++ b/lib/src/kernels/eltwise/impl/mli_krn_eltwise_ref.h
@@ -451,8 +451,8 @@ void eltwise_prepare_and_run(
     }
 
     auto out_prv = mli_prv_get_generic_tensor<MLI_PTR(o_T)>(out);
-    generic_tensor_private_t<MLI_PTR(i_T)>  in1_prv;
-    generic_tensor_private_t<MLI_PTR(i_T)>  in2_prv;
+    generic_tensor_private_t<MLI_PTR(i_T)>  in1_prv = {};
+    generic_tensor_private_t<MLI_PTR(i_T)>  in2_prv = {};
     if (params.scalar_op1 && !params.scalar_op2) {
         in2_prv = mli_prv_get_generic_tensor<MLI_PTR(i_T)>(in2);
         mli_prv_squash_generic_tensor<MLI_PTR(i_T), MLI_PTR(o_T)>(&in2_prv, &out_prv);
-- 
2.43.0


From 56163c50cd7aa3c5f4e5d5d4271c55c93bafec5c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 56/60] fix: convert negative last increments to another
 granularity

---
 include/mli_iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index a241b14..1e1ea52 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -302,7 +302,11 @@ class IteratorCfg {
         m_last_size[i] = CEIL_DIV(m_last_size[i] * old_vector_size, new_vector_size);
         m_first_pos_inc[i] = CEIL_DIV(m_first_pos_inc[i] * old_vector_size, new_vector_size);
         m_pos_inc[i] = CEIL_DIV(m_pos_inc[i] * old_vector_size, new_vector_size);
-        m_last_pos_inc[i] = CEIL_DIV(m_last_pos_inc[i] * old_vector_size, new_vector_size);
+        // the last increment is negative when it leads back to the beginning
+        if (m_last_pos_inc[i] < 0)
+          m_last_pos_inc[i] = -CEIL_DIV(-m_last_pos_inc[i] * old_vector_size, new_vector_size);
+        else
+          m_last_pos_inc[i] = CEIL_DIV(m_last_pos_inc[i] * old_vector_size, new_vector_size);
       }
     }
 
-- 
2.43.0


From be0550bb94197c75f2f222517e132b04c2a03870 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 57/60] fix: convert the offset of a tensor to another
 granularity

---
 include/mli_types.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 4d52585..22e9b18 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -822,6 +822,7 @@ class Tensor {
     buf_.set_elem_size(new_vector_size);
     buf_.set_size(buf_.get_size()*old_vector_size/new_vector_size);
     assert(mem_stride_[tns_dim] == 1);
+    offset_ = offset_ * old_vector_size / new_vector_size;
     shape_[tns_dim] = CEIL_DIV(shape_[tns_dim] * old_vector_size, new_vector_size);
     if (rank_ > 1) {
       int32_t oldstride = mem_stride_[reverse_order ? tns_dim + 1 : tns_dim - 1];
-- 
2.43.0


From e9226ba08027e17e654b05f2841ef027f2b03612 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 58/60] fix: stride of dimensions combined in the direct order

---
 include/mli_types.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_types.hpp b/include/mli_types.hpp
index 22e9b18..10f1069 100644
--- a/include/mli_types.hpp
+++ b/include/mli_types.hpp
@@ -797,7 +797,7 @@ class Tensor {
           assert(mem_stride_[r] == (int)shape_[r+1]*mem_stride_[r+1]);
         }
         tns.set_dim(s, shape_[r]*shape_[r+1]);
-        tns.set_mem_stride(s, mem_stride_[r]);
+        tns.set_mem_stride(s, mem_stride_[reverse_order ? r : r + 1]);
         ++r;
       }
       ++s;
-- 
2.43.0


From 944b930ed42457ca39299bee4969bc98ae3ae88b Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 59/60] fix: count the tiles of a shrunk buffer once

---
 include/mli_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index 1e1ea52..e5f92f7 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -873,8 +873,8 @@ class TensorIterator {
         } else {
           dims[m_config.get_order(i)] = CEIL_RND(dimsz, align);
         }
-        if (!cyclic) dims[0] *= nTiles;
       }
+      if (!cyclic) dims[0] *= nTiles;
       Tensor<buf_T, tensorRank> new_tensor(m_full_tensor.get_buf(), dims, tensorRank);
       for (uint32_t i = 0; i < tensorRank; ++i) m_full_tensor.set_mem_stride(i, new_tensor.get_mem_stride(i));
       m_config.ShrinkCfg(cyclic);
-- 
2.43.0


From 3f389781835d8020442e6e603acc4da6cb9e5aa8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:37 +0000
Subject: [PATCH 60/60] fix: update the buffer increments of an iterator
 converted to another granularity

---
 include/mli_iterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/mli_iterator.hpp b/include/mli_iterator.hpp
index e5f92f7..fa64e1c 100644
--- a/include/mli_iterator.hpp
+++ b/include/mli_iterator.hpp
@@ -905,6 +905,8 @@ class TensorIterator {
       int tns_dim = reverse_order ? 0 : get_rank() - 1;
       m_config.ConvertGran(tns_dim, get_elem_size(), new_vector_size);
       m_full_tensor.ConvertGran(new_vector_size, reverse_order);
+      m_buffer_itr = BufferIterator<buf_T, iterRank>(m_full_tensor, m_config);
+      Reset();
     }
 
     /**
-- 
2.43.0

