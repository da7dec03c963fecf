From b1acd53b8c17253588967c62fbdd075f4128cad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:38 +0000
Subject: [PATCH 01/33] fix: connect() returned FSAs with disconnected cycles
 unchanged

---
 k2/python/k2/fsa_algo.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..83fed81 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,8 +519,12 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
+    # ACCESSIBLE and COACCESSIBLE only say that every state has an entering
+    # and a leaving arc; this implies that the FSA is connected only if it
+    # has no cycles.
     if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
-            fsa.properties & fsa_properties.COACCESSIBLE != 0:
+            fsa.properties & fsa_properties.COACCESSIBLE != 0 and \
+            fsa.properties & fsa_properties.TOPSORTED_AND_ACYCLIC != 0:
         return fsa
 
     need_arc_map = True
-- 
2.43.0


From 9e011f66bcf754a55a440e71f5386136803b4957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 02/33] fix: closure() left its new arc uninitialised for an
 FSA without arcs

---
 k2/csrc/fsa_algo.cu | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..f449580 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1407,7 +1407,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1427,12 +1426,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
 
   K2_EVAL(
       c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
-
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1450,22 +1443,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
@@ -1474,6 +1451,17 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  // The new arc comes just after the last arc of the original start state.
+  // It is not set by lambda_set_arcs since there may be no arcs at all.
+  K2_EVAL(
+      c, 1, lambda_set_new_arc, (int32_t i) {
+        int32_t out_arc_idx01 = fsa_row_splits_data[1] + i;
+        Arc new_arc(0, fsa_final_state, -1, 0.0f);
+        out_arcs_data[out_arc_idx01] = new_arc;
+        out_row_ids_data[out_arc_idx01] = 0;
+        tmp_arc_map_data[out_arc_idx01] = -1;
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From 2c4aa742a6f06e23b049ea3b713364d81464ce40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 03/33] fix: union() left the new arc of an FSA without arcs
 uninitialised

---
 k2/csrc/fsa_algo.cu | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index f449580..b0252d1 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,16 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // Add a new arc from the new start state to the start state of each fsa.
+  // It is not set by lambda_set_out since an fsa may have no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_set_start, (int32_t fsas_idx0) {
+        int32_t start_state_idx01 = fsas_row_splits1_data[fsas_idx0];
+        Arc arc(0, start_state_idx01 + 1 - fsas_idx0, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From 03b1a7f4ed39617aa81876b56b93bdb7a4be9c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 04/33] fix: closure() kept the auxiliary label -1 on the first
 arc after those of the start state

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 83fed81..01eeb3f 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -862,7 +862,7 @@ def closure(fsa: Fsa) -> Fsa:
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
+        minus_one_index[minus_one_index >= src_start_state_last_arc_index] += 1
 
         # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-- 
2.43.0


From 676cfead4ebd6a5aaddb5cfae3886eaf5f57ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:30 +0000
Subject: [PATCH 05/33] fix: closure() ignored the filler of an attribute

---
 k2/python/k2/fsa_algo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 01eeb3f..496ac26 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -878,7 +878,8 @@ def closure(fsa: Fsa) -> Fsa:
         if name == 'aux_labels':
             new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
         else:
-            new_value = index_select(value, arc_map)
+            new_value = index_select(value, arc_map,
+                                     default_value=fsa.get_filler(name))
         setattr(out_fsa, name, new_value)
 
     for name, value in fsa.named_non_tensor_attr():
-- 
2.43.0


From b20f315f86494c93ec9f50d86ea0124447c53e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:23 +0000
Subject: [PATCH 06/33] fix: index_select() returned too few entries when
 selecting only -1 from an empty source

---
 k2/python/csrc/torch/index_select.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..c1d3db1 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,9 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
+  // If src is an empty tensor, all the indexes have to be -1.
   if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +123,9 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
+  // If src is an empty tensor, all the indexes have to be -1.
   if (index_array.Dim() == 0 || src.sizes()[0] == 0)
-    return torch::empty({0, src.sizes()[1]}, src.options());
+    return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From 3a2e81939e27e1ad408554a88fd14da1adb7ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:32 +0000
Subject: [PATCH 07/33] fix: RaggedTensor.to(dtype) rejected a positional dtype

---
 k2/python/csrc/torch/v2/any.cu | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..35091ee 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -177,6 +177,13 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // It has to come before the overload with a generic python object, which
+  // accepts everything.
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -190,11 +197,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From 05e7258b0ed8c8da5a70c3386cb42bf190fbcedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:20 +0000
Subject: [PATCH 08/33] fix: an empty range of a ragged tensor was rejected
 when it began after the number of values

---
 k2/csrc/ragged_ops.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..12d8e92 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1862,8 +1862,8 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
     // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // `src.values.Arange(0, 0)`; begin may exceed the number of values
+    if (value_range != nullptr) *value_range = std::make_pair(0, 0);
     return ans;
   }
 
-- 
2.43.0


From 877b02f42abc5314d825789e9269337d2f87d206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:13 +0000
Subject: [PATCH 09/33] fix: indexing a RaggedTensor with a tensor of one
 element returned its row instead of a RaggedTensor

---
 k2/python/csrc/torch/v2/any.cu | 43 +++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 35091ee..1868219 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,6 +91,30 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  // It has to come before the overload with an integer, which also accepts
+  // a tensor with a single element.
+  any.def(
+      "__getitem__",
+      [](py::object obj, torch::Tensor key) -> py::object {
+        if (key.dim() == 0) return obj.attr("__getitem__")(key.item<int32_t>());
+
+        // key is a 1-d torch tensor with dtype torch.int32
+        RaggedAny &self = obj.cast<RaggedAny &>();
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return py::cast(RaggedAny(ans.Generic()));
+        });
+        // Unreachable code
+        return py::none();
+      },
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
@@ -132,25 +156,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From 618e45467bd06ab69abe99c476216eaed6fdd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 10/33] fix: a tensor with one element and a stride other than
 1 was rejected

---
 k2/csrc/torch_util.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..d4fbd54 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -120,8 +120,10 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << "Expected scalar type: " << ToScalarType<T>::value
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
-  // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // clone() method, it is valid here, so we won't check its strieds.  The same
+  // holds for a tensor with one element, which torch considers contiguous
+  // whatever its stride is.
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 0cd98996ca9be4a323aa8726f1b010ee03a50ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 11/33] fix: determinize() of an FsaVec accessed the arc map
 out of bounds

---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b0252d1..e031ce6 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From 523c1115724d723e674fb0dffd8f0e204022a717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 12/33] fix: Fsa.from_str() could not read ragged labels as
 Fsa.to_str() writes them

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..e8ed071 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From a54fb34356a3fec101438890ce777c6f5e918a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 13/33] fix: renaming an attribute to a prefix of
 'labels_version' broke the Fsa

---
 k2/python/k2/fsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..e93c454 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -905,7 +905,9 @@ class Fsa(object):
         dest_name_len = len(dest_name)
         to_move = []
         for name, value in list(self._non_tensor_attr.items()):
-            if name[:src_name_len] == src_name and name != "labels_version":
+            if name == "labels_version":
+                continue  # internal, not an attribute of any tensor
+            if name[:src_name_len] == src_name:
                 # remove src_name from prefix and replace with dest_name
                 new_name = dest_name + name[src_name_len:]
                 to_move.append((name, new_name, value))
-- 
2.43.0


From b1571ad72baced3650abeca53fe9370946ae4ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:58 +0000
Subject: [PATCH 14/33] fix: intersect_dense: let the beam reach zero when
 max_states or max_arcs cannot be met

Paths that tie with the best one are within any positive beam, so with a
total score of 0 the beam was decreased forever.
---
 k2/csrc/intersect_dense.cu | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index fbb53ca..632acd7 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -858,6 +858,10 @@ class MultiGraphDenseIntersect {
       next_beam = cur_beam * 0.25;
     if (next_beam > cur_beam * 0.75)
       next_beam = cur_beam * 0.75;
+    // Paths that tie with the best one are within any beam > 0, so don't let
+    // the beam stay at the smallest positive float forever.
+    if (next_beam < 1.0e-30f)
+      next_beam = 0;
     output_beam_ = next_beam;
   }
 
-- 
2.43.0


From adb8df0c5c2feab759be673d5606ae381cc28c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 15/33] fix: give each attribute its own filler in
 RnntDecodingStreams.format_output

---
 k2/python/k2/rnnt_decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..5941c09 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -242,7 +242,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         assert isinstance(value, Tensor)
                         new_value = index_select(
-                            value, arc_map, default_value=filler
+                            value, arc_map, default_value=info["filler"]
                         )
                     else:
                         assert isinstance(value, RaggedTensor)
@@ -256,7 +256,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         # fill with filler value
                         new_value = torch.tensor(
-                            [filler] * num_arcs,
+                            [info["filler"]] * num_arcs,
                             dtype=info["dtype"],
                             device=device,
                         )
-- 
2.43.0


From 78ebc8f39503d83408d573ece16f19997eacde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 16/33] fix: accept None for a new sequence in
 OnlineDenseIntersecter.decode

---
 k2/python/k2/online_dense_intersecter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/k2/python/k2/online_dense_intersecter.py b/k2/python/k2/online_dense_intersecter.py
index efb7510..a9ea3bd 100644
--- a/k2/python/k2/online_dense_intersecter.py
+++ b/k2/python/k2/online_dense_intersecter.py
@@ -132,6 +132,10 @@ class OnlineDenseIntersecter(object):
           lattices. See the example in the constructor to get more info about
           how to use the list of new decoding states.
         """
+        decode_states = [
+            DecodeStateInfo() if state is None else state
+            for state in decode_states
+        ]
         ragged_arc, arc_map, new_decode_states = self.intersecter.decode(
             dense_fsas.dense_fsa_vec, decode_states
         )
-- 
2.43.0


From a47c9a2995439aaf33ec42607e4ff511e501a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 17/33] fix: leave the caller's hyps unchanged in
 levenshtein_alignment

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 496ac26..a0faf87 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1440,6 +1440,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # rename in a copy, the caller's FsaVec is not to be changed
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From 5b0a9b578be32342004832545ab4799cd326a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:39 +0000
Subject: [PATCH 18/33] fix: Nbest.intersect() called shape.dim0, which is a
 property, not a method

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..0eb4e50 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -217,8 +217,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 6859981a41e69ef986cc7125198a0c9e304aa21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 19/33] fix: Nbest.top_k() failed when every utterance had less
 than k paths

---
 k2/python/k2/nbest.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 0eb4e50..23d64f8 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -282,6 +282,13 @@ class Nbest(object):
                 'Some utterances contain empty ' \
                 f'n-best: {self.shape.row_splits(1)}'
 
+        if padded_indexes.shape[1] < k:
+            # All utterances have less than k paths; repeat the last one
+            last = padded_indexes[:, -1:]
+            padded_indexes = torch.cat(
+                [padded_indexes,
+                 last.expand(-1, k - padded_indexes.shape[1])], dim=1)
+
         # Select the idx01's of top-k paths of each utterance
         top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
 
-- 
2.43.0


From 517bf4ff83465a963f9897990c2a846d6018f78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 20/33] fix: Nbest.from_lattice() scaled the scores of the
 lattice in place

---
 k2/python/k2/nbest.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 23d64f8..42d109c 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,15 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # Scale the scores of a copy: lattice.scores may be a leaf that requires
+        # grad, or be used elsewhere.
+        scaled = Fsa(lattice.arcs.clone())
+        scaled.scores = lattice.scores.detach() * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled, num_paths=num_paths, use_double_scores=use_double_scores
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From 7843d3c4b0a634405803c6c5deca2a4c184d18ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 21/33] fix: get_best_matching_stats ignores the scores of
 queries

---
 k2/csrc/nbest.cu | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 30244f2..7510fdb 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -492,11 +492,13 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
   for (int32_t i = 0; i < suffix_array.Dim(); ++i) {
     // we reverse the sequence above, the order of counts and scores should be
     // reversed accordingly, and make sure that the counts and scores be zero
-    // in the positions of eos and terminator.
-    int32_t rindex = seq_len - 2 - suffix_array_data[i] - 1;
-    reorder_counts_data[i] = rindex < 0 ? 0 : counts_data[rindex];
-    reorder_scores_data[i] = rindex < 0 ? 0 : scores_data[rindex];
-    reorder_scores_squre_data[i] = rindex < 0 ? 0 :
+    // in the positions of eos and terminator.  Scores of queries (count == 0)
+    // must not contribute to the statistics.
+    int32_t rindex = seq_len - 2 - suffix_array_data[i] - 1,
+            count = rindex < 0 ? 0 : counts_data[rindex];
+    reorder_counts_data[i] = count;
+    reorder_scores_data[i] = count == 0 ? 0 : scores_data[rindex];
+    reorder_scores_squre_data[i] = count == 0 ? 0 :
                                    scores_data[rindex] * scores_data[rindex];
   }
   ExclusiveSum(reorder_counts, &reorder_counts);
-- 
2.43.0


From 75338e83ef06e7d3979647654d4328df32792be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 22/33] fix: swoosh backward reads the contiguous gradient
 without its last stride

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 02abcd9..06dbbfe 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -234,7 +234,6 @@ class SwooshFunction
     torch::Tensor out_grad = y_grad[0];
     out_grad = out_grad.contiguous();
 
-    int32_t stride = out_grad.stride(-1);
     const float *out_grad_data = out_grad.data_ptr<float>();
 
     auto context = GetContext(out_grad);
@@ -248,7 +247,7 @@ class SwooshFunction
     float coeff = kCoeff;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
-          float oi = out_grad_data[i * stride];
+          float oi = out_grad_data[i];
           float gi = g_data[i];  // cast uint8_t to float
           float ii = 1;
           float fi = 1;  // functional grad
-- 
2.43.0


From fcf6804e31b63bf06592817c32096f37d207afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:29 +0000
Subject: [PATCH 23/33] fix: swoosh without gradient keeps the shape of a 0-dim
 input

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 06dbbfe..176dc4c 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -154,7 +154,7 @@ class SwooshFunction
     x = x.to(torch::kFloat32);
 
     if (!requires_grad) {
-      torch::Tensor zero = torch::zeros({1}, x.options());
+      torch::Tensor zero = torch::zeros({}, x.options());
       return torch::logaddexp(zero, x - kShift) - kCoeff * x - kOffset;
     }
 
-- 
2.43.0


From a505b24b09be514378d16a89d8eaeb530bb14fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 24/33] fix: whole_lattice_rescoring() changed the scores of
 the lattice it was given and removed its lm_scores

---
 k2/python/k2/nbest.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 42d109c..6e86d4d 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -327,18 +327,21 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
-    lats.scores = lats.scores - lats.lm_scores
-    # Now lats contains only acoustic scores
-
-    # We will use lm_scores from the given G, so remove lats.lm_scores here
-    del lats.lm_scores
-    assert hasattr(lats, 'lm_scores') is False
 
     # inverted_lats has word IDs as labels.
     # Its aux_labels are token IDs, which is a ragged tensor
     #  k2.RaggedTensor (dtype is torch.int32)
     # if lats.aux_labels is a ragged tensor
     inverted_lats = k2.invert(lats)
+
+    inverted_lats.scores = inverted_lats.scores - inverted_lats.lm_scores
+    # Now inverted_lats contains only acoustic scores
+
+    # We will use lm_scores from the given G, so remove lm_scores here.
+    # Note that `lats` is left as it is.
+    del inverted_lats.lm_scores
+    assert hasattr(inverted_lats, 'lm_scores') is False
+
     num_seqs = lats.shape[0]
 
     b_to_a_map = torch.zeros(num_seqs, device=device, dtype=torch.int32)
@@ -394,7 +397,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     assert hasattr(lats, 'phones')
 
     assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
+    tokens = lats.phones
     # we use tokens instead of phones in the following code
 
     # First, extract `num_paths` paths for each sequence.
-- 
2.43.0


From e5655c602c92892492df4baa88285b5e5812c62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 25/33] fix: generate_nbest_list() added an attribute to the
 lattice, and so failed when called again

---
 k2/python/k2/nbest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 6e86d4d..52d3c1c 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -408,7 +408,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From 6a54b4d0bc5a70f81a87f82d982ebfbd9e0988e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 26/33] fix: rnnt_loss_smoothed() was NaN when the scales of lm
 only and am only add up to 1

---
 k2/python/k2/rnnt_loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..ed205d5 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1684,6 +1684,8 @@ def get_rnnt_logprobs_smoothed(
         lm_only_scale = 1.0e-20
     if am_only_scale == 0.0:
         am_only_scale = 1.0e-20
+    if combined_scale == 0.0:
+        combined_scale = 1.0e-20
 
     px_interp = (
         px * combined_scale
-- 
2.43.0


From d264646fdd8cdbad2d2a358aec065b2c4e962edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:17 +0000
Subject: [PATCH 27/33] fix: comparing symbol tables with different symbols
 raised KeyError

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..91ba31e 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -264,7 +264,7 @@ class SymbolTable(Generic[Symbol]):
             return False
 
         for s in self.symbols:
-            if self[s] != other[s]:
+            if s not in other or self[s] != other[s]:
                 return False
 
         return True
-- 
2.43.0


From 7171785a47c3ddbd9b9309ea20db66bd38e03e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:27 +0000
Subject: [PATCH 28/33] fix: accept arcs without a score in k2's text format

The score is documented as optional, but skipping white space at the end of
the line set failbit, so that such a line was refused.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index e8ed071..d8cab1f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -139,7 +139,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       line_is >> score;
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From 1f0c11a21b1e532252222aa3d25807afb0130e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:27 +0000
Subject: [PATCH 29/33] fix: accept arcs without a cost in OpenFst's text
 format

The cost is documented as optional, but a line of three fields ends the
stream and was taken for a final state.
---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index d8cab1f..33e7082 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
-- 
2.43.0


From 176b76045bb54feabcef990b5a22350152348b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:26 +0000
Subject: [PATCH 30/33] fix: keep integer attributes when remove_filler is
 False

remove_epsilon_and_add_self_loops(fsa, remove_filler=False) failed with
AssertionError if the FSA had an integer attribute such as aux_labels.
---
 k2/python/k2/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..61eaaa2 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -497,15 +497,14 @@ def fsa_from_unary_function_ragged(src: Fsa,
     dest = Fsa(dest_arcs)
 
     for name, value in src.named_tensor_attr(include_scores=False):
-        if remove_filler and isinstance(value, torch.Tensor) and \
-           value.dtype == torch.int32:
+        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
             filler = src.get_filler(name)
             # when removing fillers for `aux_labels`, we need to treat -1 as a
             # filler where it is on a final-arc (i.e. turn it into the actual
             # filler, so it will be later removed by remove_values_eq).  We
             # assume that `dest` has been checked for validity, so the presence
             # of -1 as the label precisely indicates final-arcs.
-            if filler != -1:
+            if remove_filler and filler != -1:
                 value = value.clone()
                 if hasattr(torch, 'logical_and'):
                     # torch.logical_and requires torch>=1.5.0
@@ -518,7 +517,9 @@ def fsa_from_unary_function_ragged(src: Fsa,
             # Since value.dtype is torch.int32, the resulting attr
             # is a ragged tensor also with dtype torch.int32
             new_value = k2.ragged.index(value, arc_map, default_value=filler)
-            setattr(dest, name, new_value.remove_values_eq(filler))
+            if remove_filler:
+                new_value = new_value.remove_values_eq(filler)
+            setattr(dest, name, new_value)
         else:
             # at this point, value can be either
             # (1) a torch.tensor with dtype other than torch.int32
-- 
2.43.0


From e404fe8a98caab7d67b772d4a16c9d84eba1d126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 31/33] fix: linear_fst() of an empty list of labels

It raised IndexError, while linear_fsa([]) gives the FSA of the empty string.
---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index a0faf87..d7796c5 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -118,7 +118,7 @@ def linear_fst(labels: Union[List[int], List[List[int]]],
       A vector of FSTs (FsaVec) if the input is a list of list of integers.
     '''
     ragged_arc = _k2.linear_fsa(labels)
-    if isinstance(labels[0], List):
+    if len(labels) > 0 and isinstance(labels[0], List):
         assert isinstance(aux_labels[0],
                           list), 'aux_labels and labels do not match.'
         buf = []
-- 
2.43.0


From 1dca8bcd4a005c4001b99a5aad2af9c59846c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 32/33] fix: refuse symbol tables in which epsilon has an id
 other than 0

SymbolTable() gave the null symbol id 0 even where it had another id
already, so that two ids stood for the same symbol.
---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 91ba31e..b7990db 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,9 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id, \
+                    f'{self.eps} must have id 0. ' \
+                    f'Given: {self._sym2id[self.eps]}'
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From e4b18fa21d7cbf1f91077503c6209c643af5820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:41 +0000
Subject: [PATCH 33/33] fix: write symbol tables in utf-8, in which from_file()
 reads them

SymbolTable.to_file() used the encoding of the locale.
---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index b7990db..5eea32e 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -161,7 +161,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0

