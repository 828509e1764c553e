From ec55661e2971b165fe782c121ce82b544fdf8d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 01/36] fix: accept policy planes padded to fixed_board_size
 when collating samples

---
 dataset/core.py   | 10 +++++++---
 dataset/stream.py |  8 ++++----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/dataset/core.py b/dataset/core.py
index 1f1e5c3..e1510c1 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -1656,9 +1656,13 @@ class PipelineStateComposer:
                     )
                 spatial_policy = (
                     len(shape) == 3
-                    and np.all(
-                        board_sizes
-                        == np.asarray(shape[-2:], dtype=np.int64)[None, :]
+                    and (
+                        tuple(shape[-2:])
+                        == tuple(data["board_input"].shape[-2:])
+                        or np.all(
+                            board_sizes
+                            == np.asarray(shape[-2:], dtype=np.int64)[None, :]
+                        )
                     )
                 )
                 logical_policy_sizes = board_sizes[:, 0] * board_sizes[:, 1]
diff --git a/dataset/stream.py b/dataset/stream.py
index 3910fcf..e8d98b6 100644
--- a/dataset/stream.py
+++ b/dataset/stream.py
@@ -182,10 +182,10 @@ def collate_sample_dicts(
                         int(item)
                         for item in np.asarray(samples[index]["board_size"])
                     )
-                    spatial = (
-                        array.ndim == 2
-                        and tuple(array.shape) == board_size
-                    )
+                    spatial = array.ndim == 2 and tuple(array.shape) in {
+                        board_size,
+                        tuple(np.asarray(samples[index]["board_input"]).shape[-2:]),
+                    }
                     flat = (
                         array.ndim == 1
                         and array.shape[0]
-- 
2.43.0


From 9fe83e77651254974773d538c1c76f534eb040ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:54 +0000
Subject: [PATCH 02/36] fix: keep padded boards anchored when applying a
 symmetry

---
 utils/data_utils.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/utils/data_utils.py b/utils/data_utils.py
index fbfa7c3..6b64d4b 100644
--- a/utils/data_utils.py
+++ b/utils/data_utils.py
@@ -237,28 +237,37 @@ class SamplePostProcessor:
                     (digest.digest(),),
                 )
             picked_symmetry = symmetries[symmetry_index]
+            logical_h, logical_w = (int(v) for v in data["board_size"])
+            plane_shape = tuple(data["board_input"].shape[-2:])
+
+            def apply_symmetry(plane):
+                # Planes may already be padded beyond the logical board, which
+                # occupies the leading rows and columns and must stay there.
+                if plane.shape[-2:] == (logical_h, logical_w):
+                    return picked_symmetry.apply_to_array(plane)
+                result = plane.copy()
+                result[..., :logical_h, :logical_w] = picked_symmetry.apply_to_array(
+                    plane[..., :logical_h, :logical_w]
+                )
+                return result
 
             # Apply symmetry to the board_input, policy_target
-            data["board_input"] = picked_symmetry.apply_to_array(data["board_input"])
+            data["board_input"] = apply_symmetry(data["board_input"])
             if "sparse_feature_input" in data:
-                data["sparse_feature_input"] = picked_symmetry.apply_to_array(
-                    data["sparse_feature_input"]
-                )
+                data["sparse_feature_input"] = apply_symmetry(data["sparse_feature_input"])
             if data["policy_target"].ndim == 1:
-                if (
-                    data["policy_target"].shape[0]
-                    != np.prod(data["board_size"]) + 1
-                ):
+                if data["policy_target"].shape[0] != np.prod(plane_shape) + 1:
                     raise ValueError(
                         "flattened policy target does not match board_size"
                     )
-                policy_target_sym = data["policy_target"][:-1].reshape(tuple(data["board_size"]))
-                policy_target_sym = picked_symmetry.apply_to_array(policy_target_sym)
+                policy_target_sym = apply_symmetry(
+                    data["policy_target"][:-1].reshape(plane_shape)
+                )
                 data["policy_target"] = np.concatenate(
                     [policy_target_sym.reshape(-1), data["policy_target"][-1:]]
                 )
             else:
-                data["policy_target"] = picked_symmetry.apply_to_array(data["policy_target"])
+                data["policy_target"] = apply_symmetry(data["policy_target"])
 
             # Apply symmetry to the optional position
             if "position" in data:
-- 
2.43.0


From 6f203e4c4ac1e10cafcd6edeb988d03db0b6409d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 03/36] fix: transform move fields together with the board in
 binary datasets

---
 dataset/packed_binary.py | 52 +++++++++++++++++++++-------------------
 dataset/simple_binary.py | 37 +++++++++++++---------------
 2 files changed, 45 insertions(+), 44 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index 490dad4..ade7fb2 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from utils.winrate_model import WinrateModel
@@ -272,7 +271,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             has_pass_move=self.has_pass_move,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -308,25 +307,19 @@ class PackedBinaryDataset(PlannedBatchDataset):
             return raw_entry_metadata(raw_entry)[2]
 
         def materialize_entry(entry, record_key, epoch, subrecord):
-            data = reader._process_subrecord(entry, subrecord)
-            if data is None or not self.apply_symmetry:
-                return data
-            from utils.data_utils import Symmetry
-
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
-            kind = "default" if self.apply_symmetry is True else self.apply_symmetry
-            choices = Symmetry.available_symmetries(board_size, kind)
-            symmetry_index, _ = uniform_below(
-                len(choices),
-                runtime_context.seed,
-                "symmetry",
-                (epoch, record_key, 0),
-            )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
-            )
+            symmetry_index = None
+            if self.apply_symmetry:
+                board_size = (entry.boardsize, entry.boardsize)
+                kind = "default" if self.apply_symmetry is True else self.apply_symmetry
+                choices = Symmetry.available_symmetries(board_size, kind)
+                symmetry_index, _ = uniform_below(
+                    len(choices),
+                    runtime_context.seed,
+                    "symmetry",
+                    (epoch, record_key, 0),
+                )
+            # Moves and boards must be transformed together.
+            return reader._process_subrecord(entry, subrecord, symmetry_index)
 
         self._record_source = InterleavedSequentialSource(
             self.file_list,
@@ -427,7 +420,12 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return policy if self.has_pass_move else policy.reshape(boardsize)
 
-    def _process_entry(self, entry: EntryData, selected_subrecord: int) -> dict | None:
+    def _process_entry(
+        self,
+        entry: EntryData,
+        selected_subrecord: int,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         # Skip other rules and board sizes
         boardsize = (entry.boardsize, entry.boardsize)
         if str(entry.rule) not in self.rules:
@@ -484,6 +482,7 @@ class PackedBinaryDataset(PlannedBatchDataset):
                     fixed_side_input=self.fixed_side_input,
                     fixed_board_size=self.fixed_board_size,
                     symmetry_type=self.apply_symmetry,
+                    symmetry_index=symmetry_index,
                     drop_extra=self.drop_extra,
                 )
 
@@ -496,6 +495,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         return None
 
-    def _process_subrecord(self, entry: EntryData, subrecord: int) -> dict | None:
+    def _process_subrecord(
+        self,
+        entry: EntryData,
+        subrecord: int,
+        symmetry_index: int | None = None,
+    ) -> dict | None:
         """Replay only far enough to materialize the selected move sample."""
-        return self._process_entry(entry, int(subrecord))
+        return self._process_entry(entry, int(subrecord), symmetry_index)
diff --git a/dataset/simple_binary.py b/dataset/simple_binary.py
index 976686f..285406e 100644
--- a/dataset/simple_binary.py
+++ b/dataset/simple_binary.py
@@ -1,7 +1,6 @@
 import numpy as np
 import lz4.frame
 import ctypes
-import copy
 import io
 from utils.data_utils import *
 from . import DATASETS
@@ -143,7 +142,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             boardsizes=self.boardsizes,
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
-            apply_symmetry=False,
+            apply_symmetry=self.apply_symmetry,
             drop_extra=self.drop_extra,
             shuffle=False,
             sample_rate=1.0,
@@ -165,24 +164,20 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             return self.fixed_board_size or boardsize
 
         def materialize_entry(entry, record_key, epoch):
-            data = reader._prepare_data_from_entry(*entry)
-            if data is None or not self.apply_symmetry:
-                return data
-            from utils.data_utils import Symmetry
-
-            board_size = tuple(int(value) for value in np.asarray(data["board_size"]))
-            kind = "default" if self.apply_symmetry is True else self.apply_symmetry
-            choices = Symmetry.available_symmetries(board_size, kind)
-            symmetry_index, _ = uniform_below(
-                len(choices),
-                runtime_context.seed,
-                "symmetry",
-                (epoch, record_key, 0),
-            )
-            return post_process_data(
-                copy.deepcopy(data),
-                symmetry_type=self.apply_symmetry,
-                symmetry_index=symmetry_index,
+            symmetry_index = None
+            if self.apply_symmetry:
+                boardsize = int(entry[2])
+                kind = "default" if self.apply_symmetry is True else self.apply_symmetry
+                choices = Symmetry.available_symmetries((boardsize, boardsize), kind)
+                symmetry_index, _ = uniform_below(
+                    len(choices),
+                    runtime_context.seed,
+                    "symmetry",
+                    (epoch, record_key, 0),
+                )
+            # Moves and boards must be transformed together.
+            return reader._prepare_data_from_entry(
+                *entry, symmetry_index=symmetry_index
             )
 
         self._record_source = InterleavedSequentialSource(
@@ -237,6 +232,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
         rule: Rule,
         move: Move,
         position: list[Move],
+        symmetry_index: int | None = None,
     ):
         # Skip other rules and board sizes
         boardsize = (bsize, bsize)
@@ -277,6 +273,7 @@ class SimpleBinaryDataset(PlannedBatchDataset):
             fixed_side_input=self.fixed_side_input,
             fixed_board_size=self.fixed_board_size,
             symmetry_type=self.apply_symmetry,
+            symmetry_index=symmetry_index,
             drop_extra=self.drop_extra,
         )
         return data
-- 
2.43.0


From 70d1b7cafcbf851accb53c720d0b88b10ecd441d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:06 +0000
Subject: [PATCH 04/36] fix: keep the side to move of packed games with an odd
 opening

---
 dataset/packed_binary.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index ade7fb2..dab4164 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -440,10 +440,11 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
         # setup inital board input
         current_board_input = np.zeros((2, boardsize[0], boardsize[1]), dtype=np.int8)
+        stone_side = -1  # Black plays the first move of the position
         for move in current_position:
             if not move.is_pass:
-                current_board_input[max(current_stm_input, 0), move.y, move.x] = 1
-            current_stm_input = -current_stm_input
+                current_board_input[max(stone_side, 0), move.y, move.x] = 1
+            stone_side = -stone_side
 
         for moveidx, movedata in enumerate(entry.moves):
             bestmove, bestmove_eval = movedata[0]
-- 
2.43.0


From 61f762dcf85290d714f17d99830f073ebbcbcbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:06 +0000
Subject: [PATCH 05/36] fix: reject packed moves outside the board instead of
 wrapping them onto other cells

---
 dataset/packed_binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index dab4164..f6f952c 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -384,6 +384,9 @@ class PackedBinaryDataset(PlannedBatchDataset):
 
     def _setup_policy_target(self, boardsize: tuple[int, int], movedata: MoveData):
         H, W = boardsize
+        for move in movedata.moves:
+            if not move.is_pass and not (move.x < W and move.y < H):
+                raise ValueError(f"packed move {move!r} is outside board {boardsize}")
         policy = np.zeros(H * W + (1 if self.has_pass_move else 0), dtype=np.float32)
 
         # single bestmove
-- 
2.43.0


From 190ac0770771b2408eb93888483d56b6ddea34e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 06/36] fix: refuse output arguments in filter function calls

---
 dataset/filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dataset/filter.py b/dataset/filter.py
index cf0dc5c..c8d76ca 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -217,6 +217,9 @@ class SafeFilterEvaluator:
                 raise self._error(node, "only whitelisted NumPy functions may be called")
             if node.keywords:
                 raise self._error(node, "keyword arguments are forbidden")
+            if len(node.args) != function.nin:
+                # Extra positional arguments of a ufunc are output arrays.
+                raise self._error(node, f"function takes {function.nin} argument(s)")
             args = [self._eval(arg) for arg in node.args]
             arrays = [arg for arg in args if isinstance(arg, np.ndarray)]
             if arrays:
-- 
2.43.0


From 75f29766d08edf5b77e0636a60cb16ccb650f31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 07/36] fix: bound integer scalars computed inside filter
 expressions

---
 dataset/filter.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/dataset/filter.py b/dataset/filter.py
index c8d76ca..d46506d 100644
--- a/dataset/filter.py
+++ b/dataset/filter.py
@@ -166,10 +166,21 @@ class SafeFilterEvaluator:
             left = self._eval(node.left)
             right = self._eval(node.right)
             self._check_broadcast(left, right, node)
-            try:
-                result = _BINARY[type(node.op)](left, right)
-            except Exception as exc:
-                raise self._error(node, str(exc)) from exc
+            oversized = (
+                isinstance(node.op, ast.Pow)
+                and isinstance(left, int)
+                and (left.bit_length() - 1) * right >= 64
+            )
+            if not oversized:
+                try:
+                    result = _BINARY[type(node.op)](left, right)
+                except Exception as exc:
+                    raise self._error(node, str(exc)) from exc
+                oversized = isinstance(result, int) and not (
+                    -(1 << 63) <= result < (1 << 63)
+                )
+            if oversized:
+                raise self._error(node, "integer result is outside signed 64-bit range")
             return self._check_array(result, "binary intermediate")
         if isinstance(node, ast.Compare):
             if len(node.ops) != len(node.comparators):
-- 
2.43.0


From 64e3badbb2c8dfd4689c6def8916788f95d73dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 08/36] fix: reject NPZ archives whose fields have different
 row counts

---
 dataset/katago.py       | 9 ++++++++-
 dataset/sparse_numpy.py | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/dataset/katago.py b/dataset/katago.py
index 88ec305..81bd3f2 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -190,6 +190,8 @@ class KatagoNumpyDataset(Dataset):
             "globalTargetsNC": raw_npz_data["globalTargetsNC"],
             "policyTargetsNCMove": raw_npz_data["policyTargetsNCMove"],
         }
+        if len({len(array) for array in raw_data_dict.values()}) != 1:
+            raise ValueError("NPZ fields have unequal row counts")
         if self.filter_stm is not None:
             if raw_data_dict["globalInputNC"].shape[1] == 1:
                 condition = raw_data_dict["globalInputNC"][:, 0] == self.filter_stm
@@ -438,13 +440,18 @@ class ProcessedKatagoNumpyDataset(Dataset):
             data = np.load(filename)
 
             # Skip other board size file
-            if tuple(data["bf"].shape[2:]) not in self.boardsizes:
+            bf_shape = data["bf"].shape
+            if tuple(bf_shape[2:]) not in self.boardsizes:
                 continue
 
             for k in self.data_dict:
                 if k in data:
                     if len(data[k]) <= 0:
                         raise ValueError(f"empty tensor {k} in file {filename}")
+                    if len(data[k]) != bf_shape[0]:
+                        raise ValueError(
+                            f"processed NPZ fields have unequal row counts in file {filename}"
+                        )
                     self.data_dict[k].append(data[k])
 
         # Concatenate tensors across files
diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index b63843f..8fa9f61 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -195,6 +195,13 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
         if sparseInputDim.shape[0] != feature_input_stm.shape[1]:
             raise ValueError("sparseInputDim does not match feature channels")
 
+        length = len(stm_input)
+        if any(
+            len(array) != length
+            for array in (board_input_stm, feature_input_stm, value_target, policy_target)
+        ):
+            raise ValueError("NPZ fields have unequal row counts")
+
         return {
             "board_input": board_input_stm,
             "sparse_feature_input": feature_input_stm,
@@ -202,7 +209,7 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             "stm_input": stm_input,
             "value_target": value_target,
             "policy_target": policy_target,
-        }, len(stm_input)
+        }, length
 
     def _prepare_entry_data(self, data_dict, index):
         data = {}
-- 
2.43.0


From 5a9840401f3507ddd29e293579d1e689a805a6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 09/36] fix: a move completing exactly five is never a
 forbidden point

---
 dataset/pipeline/forbidden_point_cpp/board.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataset/pipeline/forbidden_point_cpp/board.cpp b/dataset/pipeline/forbidden_point_cpp/board.cpp
index 4fe412a..6f584ec 100644
--- a/dataset/pipeline/forbidden_point_cpp/board.cpp
+++ b/dataset/pipeline/forbidden_point_cpp/board.cpp
@@ -17,7 +17,10 @@ Board::Board(int width, int height) : boardWidth(width), boardHeight(height)
 
 ForbiddenType Board::isForbidden(Pos pos)
 {
-    if (isDoubleThree(pos, BLACK))
+    // Five in a row wins even if another direction makes an overline
+    if (isFive(pos, BLACK))
+        return FORBIDDEN_NONE;
+    else if (isDoubleThree(pos, BLACK))
         return DOUBLE_THREE;
     else if (isDoubleFour(pos, BLACK))
         return DOUBLE_FOUR;
-- 
2.43.0


From eb2a487b65591db304d97a8a1842a255773c810b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 10/36] fix: scale the replicated-constant tolerance with the
 number of combined replicas

---
 dataset/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dataset/core.py b/dataset/core.py
index e1510c1..be35743 100644
--- a/dataset/core.py
+++ b/dataset/core.py
@@ -967,8 +967,12 @@ def _constant_mean(
         raise ValueError(f"replicated constant {sum_key!r} has no replicas")
     mean = tensors[sum_key] / replicas
     variance = tensors[square_sum_key] / replicas - mean.square()
-    tolerance = 16 * torch.finfo(mean.dtype).eps * torch.maximum(
-        torch.ones_like(mean), mean.square()
+    # Both sums were accumulated one replica at a time, so their rounding error
+    # grows with the number of combined replicas.
+    tolerance = (
+        (16 + 2 * replicas)
+        * torch.finfo(mean.dtype).eps
+        * torch.maximum(torch.ones_like(mean), mean.square())
     )
     if torch.any(variance.abs() > tolerance):
         raise ValueError(f"replicated constant {sum_key!r} differs across ranks")
-- 
2.43.0


From f4cb392850a3f6104a1124b48513c899e01a8c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 11/36] fix: compute loss statistics for a rank whose
 evaluation rows are all padding

---
 utils/training_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index 145a5bb..cac910c 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1221,10 +1221,11 @@ def cross_entropy_with_softlabel(
 
     if input.ndim > 1:
         # Cross-entropy Loss
-        input = input.view(input.shape[0], -1)
-        target = target.view(target.shape[0], -1)
+        # flatten (unlike view with -1) also accepts a batch without rows
+        input = torch.flatten(input, start_dim=1)
+        target = torch.flatten(target, start_dim=1)
         if weight is not None:
-            target = target * weight.view(weight.shape[0], -1)
+            target = target * torch.flatten(weight, start_dim=1)
 
         logprobs = F.log_softmax(input, dim=1)
         if focal_gamma > 0.0:
-- 
2.43.0


From 225d07c5c08fcf2a36f91b12ecfa37161ae50614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:57 +0000
Subject: [PATCH 12/36] fix: accept a textual policy_reg_lambda for auxiliary
 policy regularizers in training

---
 trainer/loss/supervised.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trainer/loss/supervised.py b/trainer/loss/supervised.py
index 152b60d..f9549bb 100644
--- a/trainer/loss/supervised.py
+++ b/trainer/loss/supervised.py
@@ -965,7 +965,7 @@ def _apply_aux_losses(
                 aux_loss = policy_reg_loss(aux_input, mask=board_mask)
                 print_name = aux_name
                 if weight is None:
-                    weight = policy_reg_lambda
+                    weight = float(policy_reg_lambda)
             elif loss_type == "vq_loss":
                 if (
                     not isinstance(aux_input, dict)
-- 
2.43.0


From f19aea34a340ab4c6b65dc138ce081915614ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 13/36] fix: let one stream transaction span an epoch boundary
 (gradient accumulation)

---
 dataset/planner.py | 56 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/dataset/planner.py b/dataset/planner.py
index 1060ed1..c96e778 100644
--- a/dataset/planner.py
+++ b/dataset/planner.py
@@ -120,6 +120,7 @@ class PreparedPlannerCommit:
     after_pipeline_blob: bytes
     token_count: int
     coordination_descriptor: tuple
+    ends_epoch: bool = False
 
 
 class DatasetPlanner:
@@ -196,6 +197,9 @@ class DatasetPlanner:
         self._shape_queues: dict[int, list[RecordEnvelope]] = {}
         self._source_exhausted = False
         self._finished = False
+        # Whether the committed position is the end of an epoch whose successor
+        # has already started yielding (see begin_next_epoch).
+        self._committed_at_epoch_end = False
         self.start_epoch(0)
         self._committed_state = self.state() if source.capabilities.resumable else None
         self._yield_state = self._committed_state
@@ -341,7 +345,7 @@ class DatasetPlanner:
         self._source_exhausted = True
         self._finished = True
 
-    def _initial_digest(self, epoch: int) -> str:
+    def _initial_digest(self, epoch: int, pipeline_blob: bytes | None = None) -> str:
         return hashlib.sha256(
             canonical_pipeline_state_bytes(
                 {
@@ -351,7 +355,11 @@ class DatasetPlanner:
                     "config": asdict(self.config),
                     "epoch": epoch,
                     "kind": "epoch-start",
-                    "pipeline_state": self._committed_pipeline_blob,
+                    "pipeline_state": (
+                        self._committed_pipeline_blob
+                        if pipeline_blob is None
+                        else pipeline_blob
+                    ),
                 }
             )
         ).hexdigest()
@@ -870,7 +878,27 @@ class DatasetPlanner:
             if self._committed_state is not None
             else tokens[0].batch_index
         )
+        ends_epoch = self._committed_at_epoch_end
+        if (
+            self._committed_state is None
+            and ends_epoch
+            and tokens[0].batch_index == 0
+        ):
+            expected_epoch -= 1
         for token in tokens:
+            if ends_epoch and token.epoch == expected_epoch + 1:
+                # One transaction may span an epoch boundary, e.g. when
+                # gradient accumulation does not divide the epoch length.
+                expected_epoch += 1
+                expected_batch = 0
+                expected_state = token.before_state
+                digest = self._initial_digest(expected_epoch, pipeline_blob)
+                if self.source.capabilities.resumable and (
+                    expected_state is None
+                    or expected_state.epoch != expected_epoch
+                    or expected_state.batch_index != 0
+                ):
+                    raise RuntimeError("planner token does not start at its epoch")
             if token.before_digest != digest:
                 raise RuntimeError("non-contiguous planner token digest")
             if (token.epoch, token.batch_index) != (
@@ -898,6 +926,7 @@ class DatasetPlanner:
             expected_batch += 1
             expected_state = token.after_state
             pipeline_blob = token.after_pipeline_blob
+            ends_epoch = bool(token.batch.is_last)
         coordination_descriptor = (
             (
                 self.distributed_policy,
@@ -923,6 +952,7 @@ class DatasetPlanner:
             after_pipeline_blob=pipeline_blob,
             token_count=len(tokens),
             coordination_descriptor=coordination_descriptor,
+            ends_epoch=ends_epoch,
         )
 
     def commit_prepared(self, candidate: PreparedPlannerCommit) -> None:
@@ -930,6 +960,7 @@ class DatasetPlanner:
             raise RuntimeError("prepared planner commit no longer matches state")
         self._committed_digest = candidate.after_digest
         self._committed_pipeline_blob = candidate.after_pipeline_blob
+        self._committed_at_epoch_end = candidate.ends_epoch
         if self.source.capabilities.resumable:
             if candidate.after_state is None:
                 raise RuntimeError("resumable planner token is missing cursor state")
@@ -941,16 +972,20 @@ class DatasetPlanner:
     def begin_next_epoch(self) -> None:
         if not self.finished:
             raise RuntimeError("cannot advance an unfinished planner epoch")
-        if self._yield_digest != self._committed_digest:
-            raise RuntimeError("cannot advance with uncommitted planner batches")
+        uncommitted = self._yield_digest != self._committed_digest
         self.start_epoch(self.epoch + 1)
-        self._committed_state = (
-            self.state() if self.source.capabilities.resumable else None
+        self._yield_state = self.state() if self.source.capabilities.resumable else None
+        self._yield_digest = self._initial_digest(
+            self.epoch, self._yield_pipeline_blob
         )
-        self._yield_state = self._committed_state
-        self._committed_digest = self._initial_digest(self.epoch)
-        self._yield_digest = self._committed_digest
-        self._yield_pipeline_blob = self._committed_pipeline_blob
+        if uncommitted:
+            # Batches of the finished epoch still await their commit: keep the
+            # committed position until the transaction that contains them lands.
+            return
+        self._committed_state = self._yield_state
+        self._committed_digest = self._yield_digest
+        self._committed_pipeline_blob = self._yield_pipeline_blob
+        self._committed_at_epoch_end = False
 
     def rollback_uncommitted(self) -> None:
         if not self.source.capabilities.resumable:
@@ -1204,6 +1239,7 @@ class DatasetPlanner:
         self._yield_digest = digest
         self._committed_pipeline_blob = pipeline_blob
         self._yield_pipeline_blob = pipeline_blob
+        self._committed_at_epoch_end = cursor.finished
 
     def signature_state(self) -> dict:
         return {
-- 
2.43.0


From 86fabfa6a1f833849d88f1e28a5d15de3c302ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:25 +0000
Subject: [PATCH 14/36] fix: accept metrics that every rank starts reporting at
 the same step (VQ codebook initialisation)

---
 trainer/base.py | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/trainer/base.py b/trainer/base.py
index 0f3e9ff..c06b04e 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -3472,6 +3472,7 @@ class BaseTrainer:
     ):
         accelerator = self.accelerator
         expected_schema = getattr(self, "_train_metric_schema", None)
+        schema_grew = False
         if expected_schema is None:
             rank_schemas = (
                 [schema]
@@ -3488,9 +3489,17 @@ class BaseTrainer:
                 )
             self._train_metric_schema = schema
         elif schema != expected_schema:
-            errors.append(
+            schema_error = (
                 f"metric schema changed from {expected_schema!r} to {schema!r}"
             )
+            # Models may start reporting more metrics at one common step, e.g.
+            # when k-means initialization of VQ codebooks completes. Metrics
+            # that vanish or change their type remain errors.
+            schema_grew = set(schema) > set(expected_schema)
+            if not schema_grew:
+                errors.append(schema_error)
+            elif accelerator.num_processes == 1:
+                self._train_metric_schema = schema
 
         valid_loss = (
             isinstance(loss, torch.Tensor)
@@ -3564,6 +3573,12 @@ class BaseTrainer:
                 torch.tensor(False, dtype=torch.bool, device=accelerator.device)
             )
         local_valid = torch.stack(checks).all()
+        schema_grew = schema_grew and accelerator.num_processes > 1
+        if schema_grew:
+            # Reach the collective comparison below on every rank.
+            local_grown_schema = schema if bool(local_valid.item()) else None
+            local_valid = torch.zeros_like(local_valid)
+            errors.append(schema_error)
         if accelerator.num_processes == 1 and defer_sync:
             # Queue the combined check into the pipelined readback: a pinned
             # slot plus a CUDA event on GPU (a plain bool on CPU), drained one
@@ -3580,6 +3595,15 @@ class BaseTrainer:
             raise RuntimeError("defer_sync requires a single process")
         if int(global_valid_count.item()) == accelerator.num_processes:
             return None
+        if accelerator.num_processes > 1:
+            grown_schemas = gather_object(
+                [local_grown_schema if schema_grew else None]
+            )
+            if grown_schemas[0] is not None and all(
+                item == grown_schemas[0] for item in grown_schemas[1:]
+            ):
+                self._train_metric_schema = schema
+                return None
         if not errors:
             errors.append("non-finite loss, metric, or gradient norm")
         rank_error = (
-- 
2.43.0


From e153ecad56172770cde84ef1606da6a7d56bb044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:17 +0000
Subject: [PATCH 15/36] fix: keep DataLoader base seeds of stream loaders off
 the global RNG (exact resume of stochastic models)

---
 utils/training_utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index cac910c..d3c7476 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1111,6 +1111,16 @@ def build_data_loader(
         # than the vectorized assembly itself) and disable automatic batching.
         # Pinning costs more per batch than the pageable H2D copy it saves at
         # these batch sizes, so default it off here (still overridable).
+        # DataLoader draws a base seed whenever an iterator is built, even with
+        # zero workers.  Keep that bookkeeping off the global torch RNG so that
+        # rebuilding an iterator (resume, evaluation) does not shift the random
+        # numbers drawn by the model.
+        kwargs.setdefault(
+            "generator",
+            torch.Generator().manual_seed(
+                int(getattr(runtime_context, "seed", 0)) & ((1 << 63) - 1)
+            ),
+        )
         return DataLoader(
             dataset,
             batch_size=None,
-- 
2.43.0


From 2f025b8c698e1affe16eed8dfbde3b07923f49cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 16/36] fix: ignore look-alike files when selecting and
 retaining checkpoints

---
 trainer/base.py     | 17 +++++++++++------
 utils/file_utils.py | 16 ++++++++++++++--
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/trainer/base.py b/trainer/base.py
index c06b04e..2c22c76 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -125,6 +125,7 @@ _RUNTIME_TEMP_RE = re.compile(
     r"_rank_(?P<rank>(?:0|[1-9][0-9]*))_"
     r"(?P<pid>(?:0|[1-9][0-9]*))_(?P<nonce>[0-9a-f]{32})\.pt"
 )
+_STATE_FILE_RE = re.compile(r"state_(?P<iteration>[0-9]+)\.pt")
 _RUNTIME_SIDECAR_VERSION = 1
 _RUNTIME_MANIFEST_VERSION = 1
 _RUNTIME_SERIALIZATION_ALLOWANCE = 1024 * 1024
@@ -3041,7 +3042,8 @@ class BaseTrainer:
         Only snapshots recorded in ``_temp_snapshot_iters`` (i.e. saved by this
         session at a non-``save_interval`` iteration) are ever deleted, so
         pre-existing snapshots survive even if ``save_interval`` changed
-        between runs.
+        between runs. Files that merely resemble a checkpoint (backup copies,
+        notes, another model's snapshots) are never counted nor deleted.
         """
         if not os.path.isdir(self.ckpt_dir):
             return
@@ -3053,12 +3055,15 @@ class BaseTrainer:
             path = os.path.join(self.ckpt_dir, fn)
             if not os.path.isfile(path):
                 continue
-            iteration = get_iteration_from_ckpt_filename(fn)
-            if iteration is None:
+            state_match = _STATE_FILE_RE.fullmatch(fn)
+            if state_match is not None:
+                state_files.append((int(state_match["iteration"]), path))
                 continue
-            if fn.startswith("state_"):
-                state_files.append((iteration, path))
-            elif fn.startswith("ckpt_"):
+            iteration = get_iteration_from_ckpt_filename(fn)
+            if iteration is not None and any(
+                path == self._model_ckpt_path(name, iteration)
+                for name in self._checkpointed_models()
+            ):
                 model_groups.setdefault(iteration, []).append(path)
 
         state_files.sort()
diff --git a/utils/file_utils.py b/utils/file_utils.py
index c956f0b..1600e27 100644
--- a/utils/file_utils.py
+++ b/utils/file_utils.py
@@ -1,4 +1,5 @@
 import os
+import re
 import torch
 from torch import Tensor
 
@@ -149,10 +150,21 @@ def find_latest_ckpt(
 
     # Sort numerically by the iteration embedded in the filename: a plain
     # string sort ranks 'state_9999999' above 'state_10000000' once the
-    # zero-padding overflows. Files without a parsable iteration sort first.
+    # zero-padding overflows. Files without a parsable iteration sort first, and
+    # files that merely share the prefix (backup copies, another model whose name
+    # starts alike) never outrank one named exactly "<prefix>_<iteration>".
+    separator = "" if prefix.endswith("_") else "_"
+    exact_name = re.compile(re.escape(prefix + separator) + r"[0-9]+")
+
     def sort_key(filepath):
+        stem = os.path.splitext(os.path.basename(filepath))[0]
         iteration = get_iteration_from_ckpt_filename(filepath)
-        return (iteration is not None, iteration if iteration is not None else 0, filepath)
+        return (
+            exact_name.fullmatch(stem) is not None,
+            iteration is not None,
+            iteration if iteration is not None else 0,
+            filepath,
+        )
 
     ckpt_list.sort(key=sort_key)
     return ckpt_list[-1]
-- 
2.43.0


From efc0637ada724e479eef7b2a5ebb56d7e6a7a056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:31 +0000
Subject: [PATCH 17/36] fix: judge the queued finite check before saving after
 an interrupt

---
 trainer/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trainer/base.py b/trainer/base.py
index 2c22c76..21bd012 100644
--- a/trainer/base.py
+++ b/trainer/base.py
@@ -4134,6 +4134,9 @@ class BaseTrainer:
                 and self._last_state_save_iteration != st.iteration
             ):
                 try:
+                    # An interrupt can arrive while this step's pipelined
+                    # finite check is still queued.
+                    self._drain_pending_step_validity(include_current=True)
                     self._save_checkpoint(force_state=True)
                 except BaseException as save_exc:
                     accelerator.print(
-- 
2.43.0


From 61e00f9b2030265966252094e56c65111a0cadb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 18/36] fix: let the multi dataset combine children in
 evaluation modes

---
 dataset/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dataset/__init__.py b/dataset/__init__.py
index eac4a77..55406c5 100644
--- a/dataset/__init__.py
+++ b/dataset/__init__.py
@@ -97,6 +97,16 @@ class MultiDataset(Dataset):
             shuffle=shuffle,
             runtime_context=runtime_context,
         )
+        from .stream import EvaluationBatchPlannerDataset
+
+        # Evaluation children arrive as batch planners; only the combined
+        # dataset plans batches, so index the map datasets they wrap.
+        self.datasets = [
+            dataset.dataset
+            if isinstance(dataset, EvaluationBatchPlannerDataset)
+            else dataset
+            for dataset in self.datasets
+        ]
         # check if all datasets have __len__ and __getitem__ method
         if not all(
             hasattr(dataset, "__len__") and hasattr(dataset, "__getitem__")
-- 
2.43.0


From b468c7d33fb605694bfb85c63bfaf40a580ec4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:28 +0000
Subject: [PATCH 19/36] fix: serialise flushes of the buffered TensorBoard
 writer

---
 utils/tb_writer.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/utils/tb_writer.py b/utils/tb_writer.py
index c224a58..14c90bf 100644
--- a/utils/tb_writer.py
+++ b/utils/tb_writer.py
@@ -23,6 +23,7 @@ training run.
 """
 
 import logging
+import threading
 
 from torch.utils.tensorboard import SummaryWriter
 
@@ -30,17 +31,23 @@ _DEFAULT_BUFFER_CAPACITY = 256 * 1024
 
 
 class _BufferedFileLike:
-    """File-like shim aggregating small writes; byte stream identical to inner."""
+    """File-like shim aggregating small writes; byte stream identical to inner.
+
+    Tensorboard's writer thread flushes on its own schedule while other threads
+    flush or close, so the buffer is handed to the file under a lock.
+    """
 
     def __init__(self, inner, capacity=_DEFAULT_BUFFER_CAPACITY):
         self._inner = inner
         self._buf = bytearray()
         self._capacity = capacity
+        self._lock = threading.RLock()
 
     def write(self, data):
-        self._buf += data
-        if len(self._buf) >= self._capacity:
-            self._drain()
+        with self._lock:
+            self._buf += data
+            if len(self._buf) >= self._capacity:
+                self._drain()
         return len(data)
 
     def _drain(self):
@@ -49,14 +56,16 @@ class _BufferedFileLike:
             self._buf.clear()
 
     def flush(self):
-        self._drain()
-        self._inner.flush()
+        with self._lock:
+            self._drain()
+            self._inner.flush()
 
     def close(self):
-        try:
-            self._drain()
-        finally:
-            self._inner.close()
+        with self._lock:
+            try:
+                self._drain()
+            finally:
+                self._inner.close()
 
     @property
     def closed(self):
-- 
2.43.0


From 2adc95fd8989e4a308e4186c9fb845f3deaf8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:13 +0000
Subject: [PATCH 20/36] fix: clip flat value weights to the range of each
 layer's own quantisation scale

---
 model/flatnet.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/model/flatnet.py b/model/flatnet.py
index d43c0c7..b6befee 100644
--- a/model/flatnet.py
+++ b/model/flatnet.py
@@ -33,12 +33,14 @@ class FlatValueModel(TraceableModel):
 
     @property
     def weight_clipping(self):
+        # Each layer is clipped to the int8 range of its own weight scale.
         return [
             {
-                "params": [f"value_linears.{i}.fc.weight" for i in range(len(self.value_linears))],
-                "min_weight": -128 / 128,
-                "max_weight": 127 / 128,
-            },
+                "params": [f"value_linears.{i}.fc.weight"],
+                "min_weight": -128 / layer.weight_quant_scale,
+                "max_weight": 127 / layer.weight_quant_scale,
+            }
+            for i, layer in enumerate(self.value_linears)
         ]
 
 
-- 
2.43.0


From 341d96ba71cd5945312f059f4c6817cac1f78de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:13 +0000
Subject: [PATCH 21/36] fix: flatten the side-to-move column in fixed-side
 linear models

---
 model/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/model/linear.py b/model/linear.py
index 157f22e..5ab7011 100644
--- a/model/linear.py
+++ b/model/linear.py
@@ -53,7 +53,7 @@ class LinearModel(nn.Module):
             value = value[:, 0] - value[:, 1]  # [B, 1] no draw value
 
         if self.fixed_side_input:
-            flip = data["stm_input"]  # Black = -1, White = 1
+            flip = data["stm_input"].flatten()  # [B], Black = -1, White = 1
             flip_cond = flip < 0
 
             if self.has_draw_value:
-- 
2.43.0


From a2aff279ee359e9fe6a94e9915f344ba79278b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:13 +0000
Subject: [PATCH 22/36] fix: keep padded cells of masked input planes empty

---
 model/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/model/input.py b/model/input.py
index 1e19f88..6aac049 100644
--- a/model/input.py
+++ b/model/input.py
@@ -88,8 +88,10 @@ class MaskedInputPlane(BasicInputPlane):
         mask_rows = rows < board_size[:, 0].view(B, 1, 1)  # [B, H, 1]
         mask_cols = cols < board_size[:, 1].view(B, 1, 1)  # [B, 1, W]
         mask_plane = (mask_rows & mask_cols).unsqueeze(1)  # [B, 1, H, W]
+        mask_plane = mask_plane.to(input_plane.dtype)
 
-        return input_plane, mask_plane.to(input_plane.dtype)
+        # the side to move fills whole planes: keep it off the padding
+        return input_plane * mask_plane, mask_plane
 
 
 class SparseEmbeddingInputPlane(BasicInputPlane):
-- 
2.43.0


From 5e146f093dec1e4b3b2c2756bbab1a9219a5617e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 23/36] fix: normalise and clamp directional features in the
 mix10 export like the model

---
 model/serialization/mixnet.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 301f967..6f909bb 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -2468,6 +2468,10 @@ class Mix10NetSerializer(BaseSerializer):
 
             mapping = getattr(model, f"mapping{mapping_idx}")
             feature = mapping(line[:, :, start:end], dirs=[0])[0, 0]  # [dim_feature, batch, L]
+            # same normalization and clamping as Mix10Net.get_feature()
+            if model.spherical_feature:
+                feature = torch.nn.functional.normalize(feature, p=2, dim=0) * (511 / 32)
+            feature = torch.clamp(feature, min=-511 / 32, max=511 / 32)
             feature = torch.permute(feature, (1, 2, 0)).cpu().numpy()  # [batch, L, dim_feature]
             map_table.append(feature)
 
-- 
2.43.0


From a1c34a566ebe64ac21f3b8bb9bcab02e9a97378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:07 +0000
Subject: [PATCH 24/36] fix: refuse to export mix10 models whose feature_norm
 the format cannot hold

---
 model/serialization/mixnet.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 6f909bb..989df36 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -2617,6 +2617,12 @@ class Mix10NetSerializer(BaseSerializer):
         )
 
     def serialize(self, out: io.IOBase, model: Mix10Net, device):
+        if model.feature_norm is not None:
+            raise ValueError(
+                "Mix10 weight format has no field for feature_norm, "
+                "a model trained with it can not be exported."
+            )
+
         feature_map1, usage_flags1 = self._export_feature_map(model, device, 1)
         feature_map2, usage_flags2 = self._export_feature_map(model, device, 2)
         feat_dwconv_weight, feat_dwconv_bias = self._export_feature_dwconv(model)
-- 
2.43.0


From 8de75bd94a2122efba7c7efc7135d70768649e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:08 +0000
Subject: [PATCH 25/36] fix: print int16 policy weights unwrapped in the mix9
 text export

---
 model/serialization/mixnet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/model/serialization/mixnet.py b/model/serialization/mixnet.py
index 989df36..7825b80 100644
--- a/model/serialization/mixnet.py
+++ b/model/serialization/mixnet.py
@@ -1826,7 +1826,8 @@ class Mix9NetSerializer(BaseSerializer):
 
             def print_linear_block(name, weight, bias):
                 print(f"{name}_weight", file=out)
-                weight.astype("i1").tofile(out, sep=" ")
+                # weights are already quantized, int8 except for the int16 policy pwconv
+                weight.tofile(out, sep=" ")
                 print(file=out)
                 print(f"{name}_bias", file=out)
                 bias.astype("i4").tofile(out, sep=" ")
-- 
2.43.0


From ab79752593571c2847b20230af76206bb447cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:08 +0000
Subject: [PATCH 26/36] fix: trace exports with tensors when the sample batch
 holds numpy arrays

---
 export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/export.py b/export.py
index f5d1a30..3f5ca29 100644
--- a/export.py
+++ b/export.py
@@ -1,4 +1,5 @@
 import torch
+import numpy as np
 import configargparse
 import yaml
 import os
@@ -86,7 +87,8 @@ def _get_sample_data(
     from dataset.stream import BatchEnvelope
     if isinstance(data, BatchEnvelope):
         data = data.data
-    return data
+    # built-in streams deliver numpy arrays, which can not be traced
+    return {k: torch.as_tensor(v) if isinstance(v, np.ndarray) else v for k, v in data.items()}
 
 
 def _get_git_revision_short_hash(fallback: str = "(unknown)") -> str:
-- 
2.43.0


From 8a631b388a4a20b8d29037cd9d2f357ae17332a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 27/36] fix: sparse_numpy drop_extra no longer requires
 sparse_feature_dim

---
 dataset/sparse_numpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/sparse_numpy.py b/dataset/sparse_numpy.py
index 8fa9f61..0ea83c8 100644
--- a/dataset/sparse_numpy.py
+++ b/dataset/sparse_numpy.py
@@ -231,6 +231,8 @@ class IterativeSparseNumpyDataset(PlannedBatchDataset):
             symmetry_type=self.apply_symmetry,
             drop_extra=self.drop_extra,
         )
+        if self.drop_extra:
+            return data
         # Convert unsigned feature storage to PyTorch-compatible signed types.
         if data["sparse_feature_dim"].max() > np.iinfo(np.int32).max:
             raise ValueError("sparse feature dimension exceeds int32")
-- 
2.43.0


From 2aa86e030e28c4a8f82363810cfcd2fa75f58a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 28/36] fix: negative value_td_level selects the TD channel it
 names

---
 dataset/katago.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/katago.py b/dataset/katago.py
index 81bd3f2..6cf7efb 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -99,6 +99,8 @@ class KatagoNumpyDataset(Dataset):
         self._active_epoch = 0
         if filter_stm is not None and not isinstance(filter_stm, int):
             raise TypeError("filter_stm must be an integer")
+        if value_td_level < 0:
+            raise ValueError("value_td_level must be a non-negative integer")
 
         self.data_dict = {}
 
-- 
2.43.0


From c51bc041570cb717098c054c526d840316fbf330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 29/36] fix: refuse raw filter_stm values other than -1 and 1

---
 dataset/katago.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dataset/katago.py b/dataset/katago.py
index 6cf7efb..6da93d1 100644
--- a/dataset/katago.py
+++ b/dataset/katago.py
@@ -99,6 +99,8 @@ class KatagoNumpyDataset(Dataset):
         self._active_epoch = 0
         if filter_stm is not None and not isinstance(filter_stm, int):
             raise TypeError("filter_stm must be an integer")
+        if filter_stm not in (None, -1, 1):
+            raise ValueError("filter_stm must be -1 (black) or 1 (white)")
         if value_td_level < 0:
             raise ValueError("value_td_level must be a non-negative integer")
 
-- 
2.43.0


From b629aa0e061175ff95058d4c4830544728826168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 30/36] fix: refuse packed value_td_lambda outside [0, 1] and
 negative multipv_temperature

---
 dataset/packed_binary.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataset/packed_binary.py b/dataset/packed_binary.py
index f6f952c..8303e46 100644
--- a/dataset/packed_binary.py
+++ b/dataset/packed_binary.py
@@ -226,6 +226,12 @@ class PackedBinaryDataset(PlannedBatchDataset):
             use_mate_multipv: Whether to use mate score for multipv softmax
         """
         super().__init__()
+        if not 0.0 <= value_td_lambda <= 1.0:
+            raise ValueError(f"value_td_lambda must be in [0, 1], got {value_td_lambda}")
+        if not multipv_temperature >= 0.0:
+            raise ValueError(
+                f"multipv_temperature must be non-negative, got {multipv_temperature}"
+            )
         self.batch_pipelines = tuple(batch_pipelines)
         self.file_list = file_list
         self.rules = rules
-- 
2.43.0


From 7050229cc637f01c07014b4ef2a2136de2ff74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 31/36] fix: refuse unknown rule names instead of dropping
 their games

---
 dataset/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataset/__init__.py b/dataset/__init__.py
index 55406c5..aef7f95 100644
--- a/dataset/__init__.py
+++ b/dataset/__init__.py
@@ -468,7 +468,13 @@ def build_dataset(
     else:
         file_list = make_file_list(data_paths, dataset_cls.FILE_EXTS)
 
-    rules = rules or ["freestyle", "standard", "renju"]
+    known_rules = ["freestyle", "standard", "renju"]
+    rules = rules or known_rules
+    unknown_rules = sorted(set(rules) - set(known_rules))
+    if unknown_rules:
+        raise ValueError(
+            f"unknown rule(s) {unknown_rules}; valid rules are {', '.join(known_rules)}"
+        )
     if boardsizes is None:
         boardsizes = [(s, s) for s in range(9, 22)]
     elif isinstance(boardsizes, int):
-- 
2.43.0


From 3c553ae0f6740dd66c56f2bb863645877a437dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 32/36] fix: apply the dataloader's shuffle_buffer_size to NPZ
 streams

---
 utils/training_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/training_utils.py b/utils/training_utils.py
index d3c7476..1de94b1 100644
--- a/utils/training_utils.py
+++ b/utils/training_utils.py
@@ -1065,6 +1065,8 @@ def build_data_loader(
             dataset.shuffle_window_size = requested_window
             if planner is not None:
                 planner.shuffle_window_size = requested_window
+            elif "shuffle_window_size" in getattr(dataset, "extra_kwargs", {}):
+                dataset.extra_kwargs["shuffle_window_size"] = requested_window
         else:
             requested_window = configured_window
         mode = getattr(runtime_context, "mode", None)
-- 
2.43.0


From 18ebc72f0aa5c5f96b3fa0bd40a7c52a094aee8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 33/36] fix: refuse autotune float options given as strings

---
 dataset/telemetry.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index b0b69f1..6208088 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -10,7 +10,7 @@ from __future__ import annotations
 
 from collections import deque
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 import hashlib
 import json
 import os
@@ -142,7 +142,7 @@ class PipelineAutotuneConfig:
         )
         _positive_int("autotune.decision_interval", config.decision_interval)
         _positive_int("autotune.freeze_after", config.freeze_after)
-        _finite_positive_float(
+        headroom = _finite_positive_float(
             "autotune.target_producer_headroom", config.target_producer_headroom
         )
         wait_fraction = float(config.max_data_wait_fraction)
@@ -158,7 +158,12 @@ class PipelineAutotuneConfig:
             raise TypeError("autotune.respect_explicit must be a boolean")
         if config.cache_dir is not None and not isinstance(config.cache_dir, str):
             raise TypeError("autotune.cache_dir must be a string or null")
-        return config
+        # YAML reads exponents without a dot ("2e-2") as strings.
+        return replace(
+            config,
+            target_producer_headroom=headroom,
+            max_data_wait_fraction=wait_fraction,
+        )
 
 
 class _LatencyHistogram:
-- 
2.43.0


From 0626a05316608bddfa6f2015d9936f587fa3aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 34/36] fix: count processed cache evictions from the entries
 really dropped

---
 dataset/telemetry.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 6208088..22ca2df 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -512,7 +512,6 @@ class ObservedProcessedNpzDecoder(ProcessedNpzDecoder):
                     time.perf_counter_ns() - start,
                 )
                 return cached
-            before_keys = frozenset(self._array_cache_values)
             self._array_cache_loading.add(canonical)
         reloaded = canonical in self._observed_loaded_paths
         try:
@@ -525,16 +524,18 @@ class ObservedProcessedNpzDecoder(ProcessedNpzDecoder):
         with self._array_cache_condition:
             self._array_cache_values[canonical] = arrays
             self._array_cache_values.move_to_end(canonical)
+            # Counted under this lock: other workers insert and evict meanwhile.
+            resident = len(self._array_cache_values)
             self._evict_array_cache()
+            evictions = resident - len(self._array_cache_values)
+            self._observed_loaded_paths.add(canonical)
             self._array_cache_loading.remove(canonical)
             self._array_cache_condition.notify_all()
-            after_keys = frozenset(self._array_cache_values)
-        self._observed_loaded_paths.add(canonical)
         self.pipeline_stats.record_cache_access(
             "miss",
             time.perf_counter_ns() - start,
             reload=reloaded,
-            evictions=len(before_keys.difference(after_keys)),
+            evictions=evictions,
         )
         return arrays
 
-- 
2.43.0


From 8b2f4d03a3f54f800755918c12af5957f9aa6cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 35/36] fix: ignore cached autotune profiles with unusable
 resolved values

---
 dataset/telemetry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 22ca2df..2fc7a8a 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -566,6 +566,7 @@ class PipelineProfileStore:
             and isinstance(record.get("exact_key"), str)
             and isinstance(record.get("compatible_key"), str)
             and isinstance(record.get("resolved"), dict)
+            and all(type(value) is int for value in record["resolved"].values())
         )
 
     def _profile_paths(self):
-- 
2.43.0


From 9f6cb68b9a35d31fe7300d1c7d37f9ed583f1f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:32 +0000
Subject: [PATCH 36/36] fix: tolerate profiles another run expires while the
 store is scanned

---
 dataset/telemetry.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dataset/telemetry.py b/dataset/telemetry.py
index 2fc7a8a..a3bbc44 100644
--- a/dataset/telemetry.py
+++ b/dataset/telemetry.py
@@ -577,6 +577,14 @@ class PipelineProfileStore:
             and all(character in "0123456789abcdef" for character in path.stem)
         ]
 
+    @staticmethod
+    def _modified_ns(path) -> int:
+        # Another run sharing the cache may expire a profile at any time.
+        try:
+            return path.stat().st_mtime_ns
+        except OSError:
+            return -1
+
     def load(self, exact_key: str, compatible_key: str, reuse: str):
         if reuse == "off" or not self.cache_dir.is_dir():
             return None, None
@@ -586,7 +594,7 @@ class PipelineProfileStore:
             candidates.extend(
                 sorted(
                     self._profile_paths(),
-                    key=lambda path: path.stat().st_mtime_ns,
+                    key=self._modified_ns,
                     reverse=True,
                 )
             )
@@ -618,7 +626,7 @@ class PipelineProfileStore:
         os.replace(temporary, destination)
         profiles = sorted(
             self._profile_paths(),
-            key=lambda path: path.stat().st_mtime_ns,
+            key=self._modified_ns,
             reverse=True,
         )
         for expired in profiles[self.max_entries :]:
-- 
2.43.0

