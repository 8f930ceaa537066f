From d80f899fb862a0e671d0c4eb6d4234ffb249484e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:46 +0000
Subject: [PATCH 01/35] fix: dense adjacency sums repeated edges like the
 sparse format

---
 src/modssc/graph/featurization/ops/adjacency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/graph/featurization/ops/adjacency.py b/src/modssc/graph/featurization/ops/adjacency.py
index b3ec6a4..080c440 100644
--- a/src/modssc/graph/featurization/ops/adjacency.py
+++ b/src/modssc/graph/featurization/ops/adjacency.py
@@ -41,10 +41,10 @@ def adjacency_from_edge_index(
         A = np.zeros((n_nodes, n_nodes), dtype=np.float32)
         if edge_weight is None:
             if src.size:
-                A[src, dst] = 1.0
+                np.add.at(A, (src, dst), 1.0)
         else:
             data = np.asarray(edge_weight, dtype=np.float32)
-            A[src, dst] = data
+            np.add.at(A, (src, dst), data)
         return A
 
     if format == "csr":
-- 
2.43.0


From f932fcf46c1e25b7a1649555b39fa4e958e2712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 02/35] fix: an interrupted re-download or purge no longer
 leaves a dataset marked as cached

---
 src/modssc/data_loader/cache.py            | 3 ++-
 src/modssc/data_loader/services/service.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 5f0321e..58b1115 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -265,9 +265,10 @@ def rebuild_index(layout: CacheLayout) -> None:
 
 
 def purge_fingerprint(layout: CacheLayout, fingerprint: str) -> None:
-    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
+    # The manifest goes first: without it a half-removed entry is not considered cached.
     with contextlib.suppress(Exception):
         layout.manifest_path(fingerprint).unlink(missing_ok=True)
+    shutil.rmtree(layout.processed_dir(fingerprint), ignore_errors=True)
     index_delete(layout, [fingerprint])
 
 
diff --git a/src/modssc/data_loader/services/service.py b/src/modssc/data_loader/services/service.py
index 124c009..5a1397f 100644
--- a/src/modssc/data_loader/services/service.py
+++ b/src/modssc/data_loader/services/service.py
@@ -464,7 +464,8 @@ def _download_and_store(
             ds = replace(ds, meta={})
         ds.meta["dataset_fingerprint"] = fp
 
-        # store processed
+        # store processed (drop the manifest first: it marks the entry as complete)
+        layout.manifest_path(fp).unlink(missing_ok=True)
         processed_dir = layout.processed_dir(fp)
         if processed_dir.exists():
             # clean partial state
-- 
2.43.0


From 49275939f06f86778441babcd9540b0201a6b690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:22 +0000
Subject: [PATCH 03/35] fix: a failed attempt to take the cache lock no longer
 removes the holder's lock

---
 src/modssc/data_loader/cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index 58b1115..a4fff41 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -101,9 +101,9 @@ def cache_lock(layout: CacheLayout, fingerprint: str) -> Iterator[None]:
     finally:
         if fd is not None:
             os.close(fd)
-        # best effort cleanup
-        with contextlib.suppress(Exception):
-            lock_path.unlink(missing_ok=True)
+            # best effort cleanup (only of our own lock)
+            with contextlib.suppress(Exception):
+                lock_path.unlink(missing_ok=True)
 
 
 def is_cached(layout: CacheLayout, fingerprint: str) -> bool:
-- 
2.43.0


From 9588bdaae9c125536097b42e3d8d38b27e56a0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 04/35] fix: an interrupted overwrite of a saved split no
 longer pairs the new metadata with the old arrays

---
 src/modssc/sampling/storage.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/modssc/sampling/storage.py b/src/modssc/sampling/storage.py
index b26bd72..d713dd8 100644
--- a/src/modssc/sampling/storage.py
+++ b/src/modssc/sampling/storage.py
@@ -25,15 +25,17 @@ def save_split(result: SamplingResult, out_dir: Path, *, overwrite: bool = False
         "stats": dict(result.stats),
         "mode": "graph" if result.is_graph() else "inductive",
     }
-    _atomic_write_text(out_dir / "split.json", json.dumps(meta, indent=2, sort_keys=True) + "\n")
-
     arrays: dict[str, np.ndarray] = {}
     for k, v in result.indices.items():
         arrays[f"idx__{k}"] = np.asarray(v, dtype=np.int64)
     for k, v in result.masks.items():
         arrays[f"mask__{k}"] = np.asarray(v, dtype=bool)
 
+    # split.json marks the split as complete: drop it before touching the arrays, write it last.
+    meta_text = json.dumps(meta, indent=2, sort_keys=True) + "\n"
+    (out_dir / "split.json").unlink(missing_ok=True)
     np.savez_compressed(out_dir / "arrays.npz", **arrays)
+    _atomic_write_text(out_dir / "split.json", meta_text)
     return out_dir
 
 
-- 
2.43.0


From 039f62b81ff60209255633382574d4727563673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:17 +0000
Subject: [PATCH 05/35] fix: an interrupted overwrite of a cached graph never
 leaves the graph without its weights

---
 src/modssc/graph/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modssc/graph/cache.py b/src/modssc/graph/cache.py
index b8d4694..a2df88e 100644
--- a/src/modssc/graph/cache.py
+++ b/src/modssc/graph/cache.py
@@ -124,6 +124,9 @@ class GraphCache(_FingerprintCacheOps):
     def _clear_entry_dir(self, d: Path) -> None:
         if not d.exists():
             return
+        # The manifest goes first: an interrupted clear must not leave a readable entry.
+        with contextlib.suppress(FileNotFoundError):
+            (d / "manifest.json").unlink()
         # Only remove files we create, keep directory (for resumable work dirs).
         for p in d.iterdir():
             if p.is_dir():
@@ -301,6 +304,7 @@ class ViewsCache(_FingerprintCacheOps):
         d = self.entry_dir(fingerprint)
         d.mkdir(parents=True, exist_ok=True)
         if overwrite and d.exists():
+            (d / "manifest.json").unlink(missing_ok=True)
             for p in d.iterdir():
                 if p.is_file():
                     p.unlink()
-- 
2.43.0


From f522f006f95b9cedae0d57d3d31956d478924bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:11 +0000
Subject: [PATCH 06/35] fix: cached graph views are keyed by all edges, the
 weights and the features

---
 src/modssc/graph/featurization/api.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/modssc/graph/featurization/api.py b/src/modssc/graph/featurization/api.py
index 893f695..4d8bfa4 100644
--- a/src/modssc/graph/featurization/api.py
+++ b/src/modssc/graph/featurization/api.py
@@ -8,7 +8,7 @@ import numpy as np
 
 from ..artifacts import DatasetViews, NodeDataset
 from ..cache import ViewsCache
-from ..fingerprint import fingerprint_dict
+from ..fingerprint import fingerprint_array, fingerprint_dict
 from ..specs import GraphFeaturizerSpec
 from ..validation import validate_featurizer_spec, validate_view_matrix
 from .views.attr import attr_view
@@ -41,13 +41,14 @@ def graph_to_views(
 
     graph_fp = str(dataset.graph.meta.get("fingerprint", "")) if dataset.graph.meta else ""
     if not graph_fp:
-        # fallback: fingerprint of graph structure not available
+        # fallback: no fingerprint recorded, derive one from everything the views depend on
+        edge_weight = dataset.graph.edge_weight
         graph_fp = fingerprint_dict(
             {
                 "n_nodes": int(dataset.graph.n_nodes),
-                "edge_index": dataset.graph.edge_index[
-                    :2, : min(1000, dataset.graph.edge_index.shape[1])
-                ].tolist(),
+                "edge_index": fingerprint_array(dataset.graph.edge_index),
+                "edge_weight": None if edge_weight is None else fingerprint_array(edge_weight),
+                "features": fingerprint_array(dataset.X),
             }
         )
 
-- 
2.43.0


From ac6b433e85aa62d6689641d1ab80b871c287f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:51 +0000
Subject: [PATCH 07/35] fix: label propagation/spreading accept datasets whose
 hidden labels use more classes

---
 .../methods/classic/label_propagation.py      | 22 +++----------------
 .../methods/classic/label_spreading.py        | 21 +++---------------
 2 files changed, 6 insertions(+), 37 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/label_propagation.py b/src/modssc/transductive/methods/classic/label_propagation.py
index cfd713e..b6dfc84 100644
--- a/src/modssc/transductive/methods/classic/label_propagation.py
+++ b/src/modssc/transductive/methods/classic/label_propagation.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -90,16 +91,7 @@ def label_propagation_numpy(
     if labeled_mask.shape != (n_nodes,):
         raise ValueError("labeled_mask must have shape (n_nodes,)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -159,15 +151,7 @@ def label_propagation_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    # Determine n_classes from labeled nodes if possible
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(to_numpy(y))
 
     # Build Y in torch then reuse the numpy helper to keep consistent behavior
     y_np = to_numpy(y)
diff --git a/src/modssc/transductive/methods/classic/label_spreading.py b/src/modssc/transductive/methods/classic/label_spreading.py
index 8d8444e..79fbb9c 100644
--- a/src/modssc/transductive/methods/classic/label_spreading.py
+++ b/src/modssc/transductive/methods/classic/label_spreading.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from modssc.runtime.device import resolve_device_name
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import (
     DiffusionResult,
     NormMode,
@@ -72,16 +73,7 @@ def label_spreading_numpy(
     if not (0.0 <= float(spec.alpha) < 1.0):
         raise ValueError("alpha must be in [0, 1)")
 
-    y_valid = y[y >= 0]
-    if labeled_mask.any():
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = (
-            int(np.unique(y_labeled).size) if y_labeled.size else int(np.unique(y_valid).size)
-        )
-    else:
-        n_classes = int(np.unique(y_valid).size)
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -142,14 +134,7 @@ def label_spreading_torch(
     if int(y.shape[0]) != int(n_nodes) or int(labeled_mask.shape[0]) != int(n_nodes):
         raise ValueError("y and labeled_mask must have shape (n_nodes,)")
 
-    if bool(labeled_mask.any().item()):
-        y_labeled = y[labeled_mask]
-        y_labeled = y_labeled[y_labeled >= 0]
-        n_classes = int(torch.unique(y_labeled).numel()) if y_labeled.numel() else 0
-    else:
-        y_valid = y[y >= 0]
-        n_classes = int(torch.unique(y_valid).numel()) if y_valid.numel() else 0
-    n_classes = max(1, n_classes)
+    n_classes = _infer_num_classes(to_numpy(y))
 
     y_np = to_numpy(y)
     Y_np = labels_to_onehot(y_np, n_classes=n_classes).astype(np.float32)
-- 
2.43.0


From 7d1ca6faf1e7039ded50c0c95d596b2418df7777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:28 +0000
Subject: [PATCH 08/35] fix: poisson learning counts classes as the other
 transductive methods do

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index f429911..1f9e190 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -8,6 +8,7 @@ from typing import Any, Literal
 import numpy as np
 
 from modssc.transductive.base import MethodInfo, TransductiveMethod
+from modssc.transductive.methods.classic.common import infer_num_classes as _infer_num_classes
 from modssc.transductive.methods.utils import DiffusionResult, _validate_graph_inputs, to_numpy
 from modssc.transductive.operators.clamp import labels_to_onehot
 from modssc.transductive.operators.laplacian import laplacian_matvec_numpy, laplacian_matvec_torch
@@ -111,9 +112,7 @@ def poisson_learning_numpy(
     if labeled_idx.size == 0:
         raise ValueError("PoissonLearning requires at least 1 labeled node.")
 
-    # Number of classes inferred from labeled nodes only
-    classes = np.unique(y[labeled_idx])
-    n_classes = int(classes.size)
+    n_classes = _infer_num_classes(y)
 
     Y = labels_to_onehot(y, n_classes=n_classes).astype(np.float32, copy=False)
     Y[~labeled_mask] = 0.0
@@ -185,8 +184,7 @@ def poisson_learning_torch(
     if int(labeled_idx.numel()) == 0:
         raise ValueError("PoissonLearning requires at least 1 labeled node.")
 
-    classes = torch.unique(y_t[labeled_idx]).detach().cpu().numpy()
-    n_classes = int(classes.size)
+    n_classes = _infer_num_classes(to_numpy(y_t))
 
     # Build Y one-hot on CPU via numpy helper then move to torch (keeps consistent encoding)
     Y_np = labels_to_onehot(to_numpy(y_t), n_classes=n_classes).astype(np.float32, copy=False)
-- 
2.43.0


From a9d58042453eeb77a777191f45824742c236a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:47 +0000
Subject: [PATCH 09/35] fix: poisson learning torch backend accepts graphs
 without weights

---
 src/modssc/transductive/methods/pde/poisson_learning.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/pde/poisson_learning.py b/src/modssc/transductive/methods/pde/poisson_learning.py
index 1f9e190..ca16776 100644
--- a/src/modssc/transductive/methods/pde/poisson_learning.py
+++ b/src/modssc/transductive/methods/pde/poisson_learning.py
@@ -173,7 +173,11 @@ def poisson_learning_torch(
     if edge_index_t.ndim != 2 or edge_index_t.shape[0] != 2:
         raise ValueError(f"edge_index must have shape (2, E), got {tuple(edge_index_t.shape)}")
 
-    edge_weight_t = torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    edge_weight_t = (
+        None
+        if edge_weight is None
+        else torch.as_tensor(edge_weight, dtype=torch.float32, device=device)
+    )
     labeled_mask_t = torch.as_tensor(labeled_mask, dtype=torch.bool, device=device)
 
     n_nodes_i = int(n_nodes)
-- 
2.43.0


From 6baec52c0c384f941bd5a4906eca39953a936d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:13 +0000
Subject: [PATCH 10/35] fix: numpy laplace learning treats self-loops as the
 torch backend does

---
 src/modssc/transductive/methods/classic/laplace_learning.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modssc/transductive/methods/classic/laplace_learning.py b/src/modssc/transductive/methods/classic/laplace_learning.py
index 5fd93e8..2bbe262 100644
--- a/src/modssc/transductive/methods/classic/laplace_learning.py
+++ b/src/modssc/transductive/methods/classic/laplace_learning.py
@@ -62,8 +62,7 @@ def laplace_learning_numpy(
     np.add.at(W, (dst, src), w)
 
     deg = W.sum(axis=1)
-    L = -W
-    np.fill_diagonal(L, deg)
+    L = np.diag(deg) - W
 
     labeled_idx = np.flatnonzero(labeled_mask)
     unlabeled_idx = np.flatnonzero(~labeled_mask)
-- 
2.43.0


From 939615cbda1e4dad0cc2b4c1c8fee56ac5a65c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:09 +0000
Subject: [PATCH 11/35] fix: tri-training uses class labels, not score columns,
 for pseudo-labels and predictions

Pseudo-labels (and the agreement of two classifiers) were column indices of the
score matrices, which are wrong whenever the labels are not 0..k-1 or a bootstrap
misses a class; predict indexed the first classifier's classes with a column of
the union of all classes.
---
 src/modssc/inductive/methods/tri_training.py | 43 +++++++++++++++-----
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/modssc/inductive/methods/tri_training.py b/src/modssc/inductive/methods/tri_training.py
index 4287bfd..19cb6c1 100644
--- a/src/modssc/inductive/methods/tri_training.py
+++ b/src/modssc/inductive/methods/tri_training.py
@@ -34,6 +34,21 @@ from modssc.inductive.types import DeviceSpec
 logger = logging.getLogger(__name__)
 
 
+def _predicted_labels_numpy(clf: Any, scores: np.ndarray) -> np.ndarray:
+    """Class labels of the highest scores (columns follow ``classes_`` when exposed)."""
+    idx = scores.argmax(axis=1)
+    classes = getattr(clf, "classes_", None)
+    return idx if classes is None else np.asarray(classes)[idx]
+
+
+def _predicted_labels_torch(clf: Any, scores: Any) -> Any:
+    """Class labels of the highest scores (columns follow ``classes_t_`` when exposed)."""
+    torch = optional_import("torch", extra="inductive-torch")
+    idx = scores.argmax(dim=1)
+    classes_t = getattr(clf, "classes_t_", None)
+    return classes_t.to(idx.device)[idx] if torch.is_tensor(classes_t) else idx
+
+
 @dataclass(frozen=True)
 class TriTrainingSpec(BaseClassifierSpec):
     max_iter: int = 20
@@ -123,8 +138,8 @@ class TriTrainingMethod(InductiveMethod):
                     j, k = [x for x in range(3) if x != i]
                     scores_j = predict_scores(clfs[j], X_u, backend=backend)
                     scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                    pred_j = scores_j.argmax(axis=1)
-                    pred_k = scores_k.argmax(axis=1)
+                    pred_j = _predicted_labels_numpy(clfs[j], scores_j)
+                    pred_k = _predicted_labels_numpy(clfs[k], scores_k)
                     agree = pred_j == pred_k
                     if not np.any(agree):
                         continue
@@ -220,8 +235,8 @@ class TriTrainingMethod(InductiveMethod):
                 j, k = [x for x in range(3) if x != i]
                 scores_j = predict_scores(clfs[j], X_u, backend=backend)
                 scores_k = predict_scores(clfs[k], X_u, backend=backend)
-                pred_j = scores_j.argmax(dim=1)
-                pred_k = scores_k.argmax(dim=1)
+                pred_j = _predicted_labels_torch(clfs[j], scores_j)
+                pred_k = _predicted_labels_torch(clfs[k], scores_k)
                 agree = pred_j == pred_k
                 if not bool(agree.any()):
                     continue
@@ -393,12 +408,20 @@ class TriTrainingMethod(InductiveMethod):
         backend = detect_backend(X)
         if backend == "numpy":
             idx = proba.argmax(axis=1)
-            classes = getattr(self._clfs[0], "classes_", None)
-            if classes is None:
+            classes = [getattr(clf, "classes_", None) for clf in self._clfs]
+            if classes[0] is None:
                 return idx
-            return np.asarray(classes)[idx]
+            # predict_proba aligns columns on the union of the classes when they differ
+            if all(c is not None and np.array_equal(c, classes[0]) for c in classes[1:]):
+                return np.asarray(classes[0])[idx]
+            known = [np.asarray(c) for c in classes if c is not None]
+            return np.unique(np.concatenate(known))[idx]
         idx = proba.argmax(dim=1)
-        classes_t = getattr(self._clfs[0], "classes_t_", None)
-        if classes_t is None:
+        torch = optional_import("torch", extra="inductive-torch")
+        classes_t = [getattr(clf, "classes_t_", None) for clf in self._clfs]
+        if classes_t[0] is None:
             return idx
-        return classes_t[idx]
+        if all(c is not None and torch.equal(c, classes_t[0]) for c in classes_t[1:]):
+            return classes_t[0][idx]
+        known_t = [c for c in classes_t if c is not None]
+        return torch.unique(torch.cat(known_t), sorted=True)[idx]
-- 
2.43.0


From 415d9d5207776cc562f316b2b6c792c272c48cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:09 +0000
Subject: [PATCH 12/35] fix: SETRED's k-NN graph does not count a sample as its
 own neighbour

With duplicate samples the sample itself need not sort first among its
distances, so it took one of its own k neighbour slots.
---
 src/modssc/inductive/methods/setred.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/setred.py b/src/modssc/inductive/methods/setred.py
index b165b46..18b3d29 100644
--- a/src/modssc/inductive/methods/setred.py
+++ b/src/modssc/inductive/methods/setred.py
@@ -70,7 +70,8 @@ def _build_knn_graph_numpy(X: np.ndarray, *, k: int) -> tuple[list[np.ndarray],
     neighbors: list[set[int]] = [set() for _ in range(n)]
     for i in range(n):
         order = np.argsort(dist[i])
-        for j in order[1 : k + 1]:
+        # duplicates may sort before the sample itself
+        for j in order[order != i][:k]:
             neighbors[i].add(int(j))
             neighbors[int(j)].add(int(i))
     return [np.asarray(sorted(nbrs), dtype=np.int64) for nbrs in neighbors], dist
-- 
2.43.0


From 9180e7e061b3b911af89b0e3da0d4795bd73d22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:51 +0000
Subject: [PATCH 13/35] fix: declare every artifact the preprocessing steps
 read

ensure_2d, attach_edge_weight, sparse_adjacency, dgi, to_torch, standard_scaler and impute read artifacts
they did not list in consumes, so cached outputs survived changes of the steps that produced them and
purging removed inputs they needed.
---
 src/modssc/preprocess/catalog.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/modssc/preprocess/catalog.py b/src/modssc/preprocess/catalog.py
index 48ee9d1..cd75428 100644
--- a/src/modssc/preprocess/catalog.py
+++ b/src/modssc/preprocess/catalog.py
@@ -11,7 +11,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Ensure numeric arrays are 2D (n_samples, n_features) and store as features.X.",
         required_extra=None,
         modalities=(),
-        consumes=("raw.X",),
+        consumes=("raw.X", "features.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -113,7 +113,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Standardize features by removing the mean and scaling to unit variance.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -123,7 +123,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Impute missing values using mean/median/etc.",
         required_extra="preprocess-sklearn",
         modalities=("tabular",),
-        consumes=("features.X",),
+        consumes=("features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Text
@@ -287,7 +287,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Create uniform edge weights if missing.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index",),
+        consumes=("graph.edge_index", "graph.edge_weight"),
         produces=("graph.edge_weight",),
     ),
     StepSpec(
@@ -317,7 +317,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Pack X and edge_index into a dict for Inductive GNNs.",
         required_extra=None,
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     StepSpec(
@@ -327,7 +327,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Learn DGI embeddings from graph edges and write features.X.",
         required_extra="transductive-torch",
         modalities=("graph",),
-        consumes=("graph.edge_index", "features.X", "raw.X"),
+        consumes=("graph.edge_index", "graph.edge_weight", "features.X", "raw.X"),
         produces=("features.X",),
     ),
     # Labels
@@ -368,7 +368,7 @@ BUILTIN_STEPS: tuple[StepSpec, ...] = (
         description="Convert raw.y to a torch tensor and store as labels.y.",
         required_extra="inductive-torch",
         modalities=(),
-        consumes=("raw.y",),
+        consumes=("raw.y", "labels.y"),
         produces=("labels.y",),
     ),
 )
-- 
2.43.0


From b2a1e6470835d86ac836a09479f7875540cc186e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 14/35] fix: purging preprocessing artifacts no longer requires
 the purged ones

The fallback to raw.X / raw.y was evaluated eagerly, so purge_unused_artifacts raised KeyError whenever the
raw artifact had been dropped in favour of the processed one.
---
 src/modssc/preprocess/services/pipeline.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 5567758..376ffee 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -673,8 +673,8 @@ def preprocess(
 
     # Choose final X for downstream training.
     out_key = plan.output_key
-    X_train = train_store.get(out_key, train_store.require("raw.X"))
-    y_train = train_store.get("labels.y", train_store.require("raw.y"))
+    X_train = train_store.require(out_key if train_store.has(out_key) else "raw.X")
+    y_train = train_store.require("labels.y" if train_store.has("labels.y") else "raw.y")
 
     edges_train = train_store.get("graph.edge_index", dataset.train.edges)
     if train_store.has("graph.edge_weight"):
@@ -687,8 +687,8 @@ def preprocess(
 
     test_out = None
     if dataset.test is not None and test_store is not None:
-        X_test = test_store.get(out_key, test_store.require("raw.X"))
-        y_test = test_store.get("labels.y", test_store.require("raw.y"))
+        X_test = test_store.require(out_key if test_store.has(out_key) else "raw.X")
+        y_test = test_store.require("labels.y" if test_store.has("labels.y") else "raw.y")
         edges_test = test_store.get("graph.edge_index", dataset.test.edges)
         if test_store.has("graph.edge_weight"):
             edges_test = {
-- 
2.43.0


From 568a2b299daa48e0dde72e65eca2fc69adb75590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:45 +0000
Subject: [PATCH 15/35] fix: preprocessing cache returns values as they were
 saved

Object arrays lost their shape, tuples and non-string keys changed type through JSON, and object arrays with
items JSON cannot hold made preprocess() fail instead of going uncached.
---
 src/modssc/preprocess/cache.py | 44 ++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 7f95172..d61f6f6 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -90,11 +90,21 @@ def _is_scipy_sparse(obj: Any) -> bool:
     return mod.startswith("scipy.sparse")
 
 
-def _save_json(path: Path, payload: Any, *, extra: dict[str, Any] | None = None) -> dict[str, Any]:
+def _save_json(
+    path: Path, payload: Any, *, extra: dict[str, Any] | None = None
+) -> dict[str, Any] | None:
     import json
 
+    try:
+        text = json.dumps(payload, ensure_ascii=False)
+        text.encode("utf-8")
+    except (TypeError, ValueError):
+        return None
+    if repr(json.loads(text)) != repr(payload):
+        # JSON would change the value (tuples, non-string keys, numpy scalars): do not cache it.
+        return None
     path_json = path.with_suffix(".json")
-    atomic_write_text(path_json, json.dumps(payload, ensure_ascii=False))
+    atomic_write_text(path_json, text)
     desc: dict[str, Any] = {"type": "json", "path": path_json.name}
     if extra:
         desc.update(extra)
@@ -113,10 +123,14 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
                     "allow_pickle": True,
                 }
             try:
-                payload = value.tolist()
+                items = value.reshape(-1).tolist()
             except TypeError:
                 return None
-            return _save_json(path, payload, extra={"format": "ndarray", "dtype": "object"})
+            return _save_json(
+                path,
+                items,
+                extra={"format": "ndarray", "dtype": "object", "shape": list(value.shape)},
+            )
         np.save(path.with_suffix(".npy"), value, allow_pickle=False)
         return {"type": "npy", "path": path.with_suffix(".npy").name}
 
@@ -148,14 +162,10 @@ def _save_value(path: Path, value: Any) -> dict[str, Any] | None:
     # Support simple JSON-serializable payloads (lists of strings, small dicts, etc.).
     if isinstance(value, (str, int, float, bool)) or value is None:
         return _save_json(path, value)
-    if isinstance(value, (list, tuple, dict)):
-        try:
-            payload = value
-            if isinstance(value, tuple):
-                payload = list(value)
-            return _save_json(path, payload)
-        except TypeError:
-            return None
+    if isinstance(value, (list, dict)):
+        return _save_json(path, value)
+    if isinstance(value, tuple):
+        return _save_json(path, list(value), extra={"format": "tuple"})
 
     if _is_scipy_sparse(value):
         # Lazy import to keep base install light.
@@ -221,7 +231,15 @@ def _load_value(path: Path, desc: dict[str, Any]) -> Any:
 
         payload = json.loads(fp.read_text(encoding="utf-8"))
         if desc.get("format") == "ndarray":
-            return np.asarray(payload, dtype=object)
+            shape = desc.get("shape")
+            if shape is None:
+                return np.asarray(payload, dtype=object)
+            out = np.empty(len(payload), dtype=object)
+            for i, item in enumerate(payload):
+                out[i] = item
+            return out.reshape(shape)
+        if desc.get("format") == "tuple":
+            return tuple(payload)
         return payload
     if t == "npz":
         try:
-- 
2.43.0


From 8add52118bb9ffe484c20c45740e769c7e604951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 16/35] fix: preprocessing cache keeps artifacts with similar
 names apart

Keys such as a.b and a__b map to the same file name, so the last one saved was returned for both.
---
 src/modssc/preprocess/cache.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index d61f6f6..21ce21c 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -298,8 +298,14 @@ class CacheManager:
         d.mkdir(parents=True, exist_ok=True)
 
         saved: dict[str, dict[str, Any]] = {}
+        names: set[str] = set()
         for key, value in produced.items():
-            name = _safe_name(key)
+            base = name = _safe_name(key)
+            n = 1
+            while name.lower() in names:
+                n += 1
+                name = f"{base}-{n}"
+            names.add(name.lower())
             desc = _save_value(d / name, value)
             if desc is not None:
                 saved[key] = desc
-- 
2.43.0


From d9eee37a5619e108e3e9393b78063a044b705f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 17/35] fix: a damaged preprocessing cache value is recomputed

An empty, missing or otherwise unreadable value file (left by an interrupted run) made every later
preprocess() call with that cache fail instead of counting as a cache miss.
---
 src/modssc/preprocess/cache.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/cache.py b/src/modssc/preprocess/cache.py
index 21ce21c..e2b8680 100644
--- a/src/modssc/preprocess/cache.py
+++ b/src/modssc/preprocess/cache.py
@@ -5,7 +5,9 @@ import logging
 import os
 from dataclasses import dataclass
 from pathlib import Path
+from pickle import UnpicklingError
 from typing import Any
+from zipfile import BadZipFile
 
 import numpy as np
 from platformdirs import user_cache_dir
@@ -349,7 +351,10 @@ class CacheManager:
         split_path = self.split_dir(step_fingerprint, split)
         for key, desc in saved.items():
             if isinstance(desc, dict):
-                out[str(key)] = _load_value(split_path, desc)
+                try:
+                    out[str(key)] = _load_value(split_path, desc)
+                except (OSError, EOFError, ValueError, BadZipFile, UnpicklingError) as e:
+                    raise PreprocessCacheError(f"Damaged cache value for {key!r}: {e}") from e
         return out
 
 
-- 
2.43.0


From e42ea24f8c6e377cc7f66467c165cb16f5b3fe95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:02 +0000
Subject: [PATCH 18/35] fix: recomputing a test split draws the same random
 numbers as an uncached run

When only the train outputs of a random preprocessing step were cached, the test split was computed with the
numbers meant for the train split, so the result depended on what the cache held.
---
 src/modssc/preprocess/services/pipeline.py | 56 ++++++++++++----------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 376ffee..03c6d4f 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -17,7 +17,13 @@ from modssc.preprocess.fingerprint import derive_seed, fingerprint
 from modssc.preprocess.plan import PreprocessPlan
 from modssc.preprocess.registry import StepRegistry, default_step_registry
 from modssc.preprocess.store import ArtifactStore
-from modssc.preprocess.types import PreprocessResult, ResolvedPlan, ResolvedStep, SkippedStep
+from modssc.preprocess.types import (
+    PreprocessResult,
+    ResolvedPlan,
+    ResolvedStep,
+    SkippedStep,
+    StepSpec,
+)
 from modssc.runtime.device import _try_import_torch, resolve_device_name
 from modssc.utils.shape import shape_of as _shape_of
 
@@ -270,6 +276,21 @@ def _cache_outputs_complete(outputs: dict[str, Any], produces: tuple[str, ...])
     return expected.issubset(outputs.keys())
 
 
+def _load_cached_outputs(
+    cm: CacheManager | None, step_fp: str, step_id: str, spec: StepSpec, *, split: str
+) -> dict[str, Any] | None:
+    if cm is None or not cm.has_step_outputs(step_fp, split=split):
+        return None
+    try:
+        produced = cm.load_step_outputs(step_fingerprint=step_fp, split=split)
+        if not _cache_outputs_complete(produced, spec.produces):
+            raise PreprocessCacheError(f"Incomplete cached outputs for step {step_id!r} ({split})")
+    except PreprocessCacheError as e:
+        logger.warning("Preprocess cache miss for %s (%s): %s", step_id, split, e)
+        return None
+    return produced
+
+
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
@@ -547,19 +568,15 @@ def preprocess(
             step_obj.fit(train_store, fit_indices=np.asarray(fit_indices, dtype=np.int64), rng=rng)
 
         # Load from cache if available, otherwise compute and save.
-        produced_train: dict[str, Any] | None = None
-        train_from_cache = False
-        if cm is not None and cm.has_step_outputs(step_fp, split="train"):
-            try:
-                produced_train = cm.load_step_outputs(step_fingerprint=step_fp, split="train")
-                if not _cache_outputs_complete(produced_train, spec.produces):
-                    raise PreprocessCacheError(
-                        f"Incomplete cached outputs for step {step_id!r} (train)"
-                    )
-                train_from_cache = True
-            except PreprocessCacheError as e:
-                logger.warning("Preprocess cache miss for %s (train): %s", step_id, e)
+        produced_train = _load_cached_outputs(cm, step_fp, step_id, spec, split="train")
+        produced_test: dict[str, Any] | None = None
+        if test_store is not None:
+            produced_test = _load_cached_outputs(cm, step_fp, step_id, spec, split="test")
+            if produced_test is None:
+                # rng draws for the train split come first: computing test means computing both.
                 produced_train = None
+        train_from_cache = produced_train is not None
+        test_from_cache = produced_test is not None
         if produced_train is None:
             produced_train = step_obj.transform(train_store, rng=rng)
             if not isinstance(produced_train, dict):
@@ -595,20 +612,7 @@ def preprocess(
             perf_counter() - step_start,
         )
 
-        produced_test: dict[str, Any] | None = None
-        test_from_cache = False
         if test_store is not None:
-            if cm is not None and cm.has_step_outputs(step_fp, split="test"):
-                try:
-                    produced_test = cm.load_step_outputs(step_fingerprint=step_fp, split="test")
-                    if not _cache_outputs_complete(produced_test, spec.produces):
-                        raise PreprocessCacheError(
-                            f"Incomplete cached outputs for step {step_id!r} (test)"
-                        )
-                    test_from_cache = True
-                except PreprocessCacheError as e:
-                    logger.warning("Preprocess cache miss for %s (test): %s", step_id, e)
-                    produced_test = None
             if produced_test is None:
                 produced_test = step_obj.transform(test_store, rng=rng)
                 if not isinstance(produced_test, dict):
-- 
2.43.0


From c0a00c825d25caf1140cc32de906b6e222bda2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:56 +0000
Subject: [PATCH 19/35] fix: the test split is encoded with the train split's
 label codes

labels.encode and labels.ensure_onehot fitted the code of every split on its own labels, so the same label got
different codes in train and test whenever a class was missing from one of them.
---
 src/modssc/preprocess/steps/labels/classes.py | 15 +++++++++++++++
 src/modssc/preprocess/steps/labels/encode.py  | 19 ++++++++++++++++---
 .../preprocess/steps/labels/ensure_onehot.py  | 12 ++++++++++--
 3 files changed, 41 insertions(+), 5 deletions(-)
 create mode 100644 src/modssc/preprocess/steps/labels/classes.py

diff --git a/src/modssc/preprocess/steps/labels/classes.py b/src/modssc/preprocess/steps/labels/classes.py
new file mode 100644
index 0000000..2678f12
--- /dev/null
+++ b/src/modssc/preprocess/steps/labels/classes.py
@@ -0,0 +1,15 @@
+from __future__ import annotations
+
+import numpy as np
+
+
+def extend_classes(classes: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Known classes followed by the sorted labels of ``y`` that are not among them."""
+    observed = np.unique(y)
+    return np.concatenate([classes, observed[~np.isin(observed, classes)]])
+
+
+def class_positions(classes: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """Position of every label of ``y`` in ``classes`` (distinct, in any order)."""
+    order = np.argsort(classes, kind="stable")
+    return order[np.searchsorted(classes, y, sorter=order)].astype(np.int64)
diff --git a/src/modssc/preprocess/steps/labels/encode.py b/src/modssc/preprocess/steps/labels/encode.py
index 373cd96..d31b02e 100644
--- a/src/modssc/preprocess/steps/labels/encode.py
+++ b/src/modssc/preprocess/steps/labels/encode.py
@@ -1,18 +1,31 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 
 import numpy as np
 
+from modssc.preprocess.numpy_adapter import to_numpy
+from modssc.preprocess.steps.labels.classes import class_positions, extend_classes
 from modssc.preprocess.store import ArtifactStore
 from modssc.supervised.utils import encode_labels
 
 
 @dataclass
 class EncodeLabelsStep:
-    """Encode raw.y to contiguous int64 labels and store labels.y/classes."""
+    """Encode raw.y to contiguous int64 labels and store labels.y/classes.
+
+    Later splits keep the codes of the first (train) split; labels it lacks get new codes after them.
+    """
+
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
 
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, object]:  # noqa: ARG002
         y = store.require("raw.y")
-        y_enc, classes = encode_labels(y)
+        if self._classes is None:
+            y_enc, classes = encode_labels(y)
+            self._classes = classes
+        else:
+            y_arr = to_numpy(y).reshape(-1)
+            classes = extend_classes(self._classes, y_arr)
+            y_enc = class_positions(classes, y_arr)
         return {"labels.y": y_enc, "labels.classes": classes}
diff --git a/src/modssc/preprocess/steps/labels/ensure_onehot.py b/src/modssc/preprocess/steps/labels/ensure_onehot.py
index 3c0123f..b0811a3 100644
--- a/src/modssc/preprocess/steps/labels/ensure_onehot.py
+++ b/src/modssc/preprocess/steps/labels/ensure_onehot.py
@@ -1,10 +1,11 @@
 from __future__ import annotations
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from typing import Any
 
 import numpy as np
 
+from modssc.preprocess.steps.labels.classes import class_positions, extend_classes
 from modssc.preprocess.store import ArtifactStore
 
 
@@ -13,6 +14,9 @@ class EnsureOneHotLabelsStep:
     unlabeled_value: int = -1
     dtype: str = "float32"
 
+    # Later splits keep the columns of the first (train) split; labels it lacks get new columns.
+    _classes: np.ndarray | None = field(default=None, init=False, repr=False)
+
     def transform(self, store: ArtifactStore, *, rng: np.random.Generator) -> dict[str, Any]:
         y = np.asarray(store.require("raw.y"))
         y_flat = y.reshape(-1)
@@ -22,12 +26,16 @@ class EnsureOneHotLabelsStep:
             classes = np.unique(y_flat[labeled])
         else:
             classes = np.asarray([], dtype=y_flat.dtype)
+        if self._classes is None:
+            self._classes = classes
+        else:
+            classes = extend_classes(self._classes, classes)
 
         C = int(classes.size)
         onehot = np.zeros((y_flat.size, C), dtype=self.dtype)
         if C > 0 and labeled.any():
             rows = np.nonzero(labeled)[0]
-            cols = np.searchsorted(classes, y_flat[labeled])
+            cols = class_positions(classes, y_flat[labeled])
             onehot[rows, cols] = 1.0
 
         return {"labels.y_onehot": onehot, "labels.is_labeled": labeled.astype(bool)}
-- 
2.43.0


From 14611902f63e3562a68f4543f54082a0bdcf50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 20/35] fix: preprocessing an already preprocessed dataset or
 view does not reuse the original's cache

Preprocessed datasets and views keep the fingerprint of the dataset they derive from, so the same step on raw and on
derived features shared a cache entry (and chained runs a preprocessing fingerprint).
---
 src/modssc/preprocess/services/pipeline.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modssc/preprocess/services/pipeline.py b/src/modssc/preprocess/services/pipeline.py
index 03c6d4f..c02806c 100644
--- a/src/modssc/preprocess/services/pipeline.py
+++ b/src/modssc/preprocess/services/pipeline.py
@@ -294,7 +294,9 @@ def _load_cached_outputs(
 def _dataset_fingerprint(dataset: LoadedDataset) -> str:
     fp = dataset.meta.get("dataset_fingerprint") if hasattr(dataset, "meta") else None
     if isinstance(fp, str) and fp:
-        return fp
+        # Preprocessed datasets and views keep the fingerprint of the dataset they derive from.
+        derived = {k: dataset.meta[k] for k in ("preprocess_fingerprint", "views") if k in dataset.meta}
+        return fingerprint({"dataset": fp, **derived}, prefix="dataset:") if derived else fp
 
     # Fallback: structural fingerprint only (no full data hashing).
     train_x = getattr(dataset.train, "X", None)
-- 
2.43.0


From 9d719efee50c24d3f6e4b33b3355160e0d8577a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 21/35] fix: benchmark graphs over train and test nodes do not
 share the train-only graph's cache entry

---
 bench/orchestrators/graph.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bench/orchestrators/graph.py b/bench/orchestrators/graph.py
index 9d282c3..b51310d 100644
--- a/bench/orchestrators/graph.py
+++ b/bench/orchestrators/graph.py
@@ -84,6 +84,9 @@ def build(
 
     if X_test is not None:
         X = np.concatenate([_to_numpy(X_train), _to_numpy(X_test)], axis=0)
+        if dataset_fingerprint is not None:
+            # Not the same nodes as the train-only graph: must not share its cache entry.
+            dataset_fingerprint = f"{dataset_fingerprint}:train+test"
     else:
         X = _to_numpy(X_train)
     _LOGGER.debug("Graph features: shape=%s", tuple(np.asarray(X).shape))
-- 
2.43.0


From 8acadc79adafd0c1f4e036ad393820f3ec4e40d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:30 +0000
Subject: [PATCH 22/35] fix: benchmark evaluation uses predicted labels, not
 score column positions

A method trained on a labelled set that misses a class has one score column per known class, so every column after
the missing class was read as the wrong label.
---
 bench/orchestrators/evaluation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bench/orchestrators/evaluation.py b/bench/orchestrators/evaluation.py
index bea37d4..adb3bab 100644
--- a/bench/orchestrators/evaluation.py
+++ b/bench/orchestrators/evaluation.py
@@ -286,14 +286,14 @@ def evaluate_inductive(
                 backend_ref=X,
                 strict=strict,
             )
-            data = InductiveDataset(X_l=X, y_l=y, views=views_payload)
-            scores = method.predict_proba(data)
+            payload = InductiveDataset(X_l=X, y_l=y, views=views_payload)
         else:
-            scores = method.predict_proba(X)
+            payload = X
 
-        scores_np = to_numpy(scores)
+        # Score columns are the classes the method was trained on, not all classes: prefer its labels.
+        predict = getattr(method, "predict", None) or method.predict_proba
         y_true = labels_1d(y)
-        y_pred = predict_labels(scores_np)
+        y_pred = predict_labels(to_numpy(predict(payload)))
         results[split] = compute_metrics(y_true, y_pred, metrics)
         _log_split_metrics(
             kind="inductive",
-- 
2.43.0


From d99e87148fa99aa37c6deb51a2ac71fa98c3ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:24 +0000
Subject: [PATCH 23/35] fix: hyper-parameter trials respect the configured
 memory limits

---
 bench/orchestrators/hpo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bench/orchestrators/hpo.py b/bench/orchestrators/hpo.py
index 308e106..ee91cbb 100644
--- a/bench/orchestrators/hpo.py
+++ b/bench/orchestrators/hpo.py
@@ -12,6 +12,7 @@ import numpy as np
 from modssc.hpo import Space, deep_merge
 
 from ..context import RunContext
+from ..limits import apply_limits
 from ..schema import BenchConfigError, ExperimentConfig
 from . import evaluation as eval_orch
 from . import method_inductive as inductive_orch
@@ -99,6 +100,11 @@ def run_hpo(
             trial_start = perf_counter()
             _LOGGER.debug("HPO trial %s params=%s", trial.index, trial.params)
             patched_dict = deep_merge(base_cfg_dict, trial.patch)
+            patched_dict, _, _ = apply_limits(
+                patched_dict,
+                limits=base_cfg.limits,
+                strict=base_cfg.run.benchmark_mode,
+            )
             trial_cfg = ExperimentConfig.from_dict(patched_dict)
 
             scores = []
-- 
2.43.0


From 763a2615c0d374e9734010b22f71663e7236d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:03 +0000
Subject: [PATCH 24/35] fix: swap noise on torch tensors draws from the
 sample's own generator

---
 src/modssc/data_augmentation/ops/tabular.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_augmentation/ops/tabular.py b/src/modssc/data_augmentation/ops/tabular.py
index cf32383..fef281c 100644
--- a/src/modssc/data_augmentation/ops/tabular.py
+++ b/src/modssc/data_augmentation/ops/tabular.py
@@ -82,8 +82,11 @@ class SwapNoise(AugmentationOp):
 
             torch = importlib.import_module("torch")
 
-            mask_swap = torch.rand(x.shape, device=x.device) < p
-            noise = torch.randn(x.shape, device=x.device, dtype=x.dtype)
+            # Use a torch generator but keep it deterministic from rng
+            seed = int(rng.integers(0, 1 << 31))
+            gen = torch.Generator(device=x.device).manual_seed(seed)
+            mask_swap = torch.rand(x.shape, generator=gen, device=x.device) < p
+            noise = torch.randn(x.shape, generator=gen, device=x.device, dtype=x.dtype)
 
             # Where mask_swap is True, use noise, else x
             return torch.where(mask_swap, noise, x)
-- 
2.43.0


From 43a2538582c93badcbe8faadfa72b2d4c96d987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 25/35] fix: torch logistic regression seeds the global
 generator before building its layer

---
 src/modssc/supervised/backends/torch/logreg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/supervised/backends/torch/logreg.py b/src/modssc/supervised/backends/torch/logreg.py
index 988b101..82384fe 100644
--- a/src/modssc/supervised/backends/torch/logreg.py
+++ b/src/modssc/supervised/backends/torch/logreg.py
@@ -87,12 +87,13 @@ class TorchLogRegClassifier(TorchScoresClassifierBase):
         n_features = int(X.shape[1])
         n_classes = int(classes.numel())
 
+        torch.manual_seed(int(self.seed or 0))
+
         model = torch.nn.Linear(n_features, n_classes).to(X.device)
         optimizer = torch.optim.AdamW(
             model.parameters(), lr=float(self.lr), weight_decay=float(self.weight_decay)
         )
 
-        torch.manual_seed(int(self.seed or 0))
         model.train()
         n = int(X.shape[0])
         for _epoch in range(int(self.max_epochs)):
-- 
2.43.0


From 2b77dadf5b3ffc2b42536fd94bf2dfd3a6a449c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:07 +0000
Subject: [PATCH 26/35] fix: naive Bayes classifiers accept the runtime n_jobs
 argument

---
 .../backends/sklearn/naive_bayes.py           | 24 +++++++++++++++----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/modssc/supervised/backends/sklearn/naive_bayes.py b/src/modssc/supervised/backends/sklearn/naive_bayes.py
index 2f38eee..3a62714 100644
--- a/src/modssc/supervised/backends/sklearn/naive_bayes.py
+++ b/src/modssc/supervised/backends/sklearn/naive_bayes.py
@@ -16,8 +16,14 @@ class SklearnGaussianNBClassifier(SklearnProbaClassifier):
     classifier_id = "gaussian_nb"
     backend = "sklearn"
 
-    def __init__(self, *, var_smoothing: float = 1e-9, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        var_smoothing: float = 1e-9,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.var_smoothing = float(var_smoothing)
         self._model: Any | None = None
 
@@ -50,8 +56,15 @@ class SklearnMultinomialNBClassifier(SklearnProbaClassifier):
     classifier_id = "multinomial_nb"
     backend = "sklearn"
 
-    def __init__(self, *, alpha: float = 1.0, fit_prior: bool = True, seed: int | None = 0):
-        super().__init__(seed=seed, n_jobs=None)
+    def __init__(
+        self,
+        *,
+        alpha: float = 1.0,
+        fit_prior: bool = True,
+        seed: int | None = 0,
+        n_jobs: int | None = None,
+    ):
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.fit_prior = bool(fit_prior)
         self._model: Any | None = None
@@ -92,8 +105,9 @@ class SklearnBernoulliNBClassifier(SklearnProbaClassifier):
         binarize: float | None = 0.0,
         fit_prior: bool = True,
         seed: int | None = 0,
+        n_jobs: int | None = None,
     ):
-        super().__init__(seed=seed, n_jobs=None)
+        super().__init__(seed=seed, n_jobs=n_jobs)
         self.alpha = float(alpha)
         self.binarize = binarize if binarize is None else float(binarize)
         self.fit_prior = bool(fit_prior)
-- 
2.43.0


From 288c05deaa82d0ef72c55bd6842cb638dbac159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 27/35] fix: temporal ensembling corrects the bias for the
 updates made so far

---
 src/modssc/inductive/methods/temporal_ensembling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modssc/inductive/methods/temporal_ensembling.py b/src/modssc/inductive/methods/temporal_ensembling.py
index 4a8733e..76ca086 100644
--- a/src/modssc/inductive/methods/temporal_ensembling.py
+++ b/src/modssc/inductive/methods/temporal_ensembling.py
@@ -160,7 +160,8 @@ class TemporalEnsemblingMethod(TorchBundlePredictMixin, InductiveMethod):
         for epoch in range(int(self.spec.max_epochs)):
             if ensemble_predictions is not None:
                 epoch_predictions = torch.zeros_like(ensemble_predictions)
-                bias = 1.0 - float(self.spec.alpha) ** float(epoch + 1)
+                # one ensemble update per finished epoch
+                bias = 1.0 - float(self.spec.alpha) ** float(epoch)
                 bias = max(bias, 1e-12)
                 targets = ensemble_predictions / bias
             else:
-- 
2.43.0


From 2d18477588226a2ca7992d7ebe93e263ace102d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:42 +0000
Subject: [PATCH 28/35] fix: adaptive pseudo-label methods start every fit from
 fresh statistics

---
 src/modssc/inductive/methods/adamatch.py   | 3 +++
 src/modssc/inductive/methods/flexmatch.py  | 3 +++
 src/modssc/inductive/methods/free_match.py | 4 ++++
 src/modssc/inductive/methods/softmatch.py  | 5 +++++
 4 files changed, 15 insertions(+)

diff --git a/src/modssc/inductive/methods/adamatch.py b/src/modssc/inductive/methods/adamatch.py
index a1f42d2..89ec1b1 100644
--- a/src/modssc/inductive/methods/adamatch.py
+++ b/src/modssc/inductive/methods/adamatch.py
@@ -181,6 +181,9 @@ class AdaMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.ema_p) < 1.0):
             raise InductiveValidationError("ema_p must be in [0, 1).")
 
+        self._p_model = None
+        self._p_target = None
+
         steps_l = num_batches(int(_get_len(X_l)), int(self.spec.batch_size))
         steps_u = num_batches(int(_get_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
diff --git a/src/modssc/inductive/methods/flexmatch.py b/src/modssc/inductive/methods/flexmatch.py
index 8cf3316..f66134b 100644
--- a/src/modssc/inductive/methods/flexmatch.py
+++ b/src/modssc/inductive/methods/flexmatch.py
@@ -229,6 +229,9 @@ class FlexMatchMethod(TorchBundlePredictMixin, InductiveMethod):
             ds, device=get_torch_device(X_u_w), n_u=int(get_torch_len(X_u_w))
         )
 
+        self._selected_label = None
+        self._classwise_acc = None
+
         steps_l = num_batches(int(get_torch_len(X_l)), int(self.spec.batch_size))
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
diff --git a/src/modssc/inductive/methods/free_match.py b/src/modssc/inductive/methods/free_match.py
index e5b137e..1dfb8ae 100644
--- a/src/modssc/inductive/methods/free_match.py
+++ b/src/modssc/inductive/methods/free_match.py
@@ -211,6 +211,10 @@ class FreeMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.ema_p) < 1.0):
             raise InductiveValidationError("ema_p must be in [0, 1).")
 
+        self._p_model = None
+        self._label_hist = None
+        self._time_p = None
+
         steps_l = num_batches(int(get_torch_len(X_l)), int(self.spec.batch_size))
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
diff --git a/src/modssc/inductive/methods/softmatch.py b/src/modssc/inductive/methods/softmatch.py
index 5b4e2c7..e4e62a9 100644
--- a/src/modssc/inductive/methods/softmatch.py
+++ b/src/modssc/inductive/methods/softmatch.py
@@ -219,6 +219,11 @@ class SoftMatchMethod(TorchBundlePredictMixin, InductiveMethod):
         if not (0.0 <= float(self.spec.ema_p) < 1.0):
             raise InductiveValidationError("ema_p must be in [0, 1).")
 
+        self._p_model = None
+        self._p_target = None
+        self._prob_max_mu_t = None
+        self._prob_max_var_t = None
+
         steps_l = num_batches(int(get_torch_len(X_l)), int(self.spec.batch_size))
         steps_u = num_batches(int(get_torch_len(X_u_w)), int(self.spec.batch_size))
         steps_per_epoch = max(int(steps_l), int(steps_u))
-- 
2.43.0


From d7ebd53de4f0e168d8972bc9e8ae2eab0c6a760d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 29/35] fix: MixMatch draws its mixing weights from the seeded
 generator

---
 src/modssc/inductive/methods/mixmatch.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modssc/inductive/methods/mixmatch.py b/src/modssc/inductive/methods/mixmatch.py
index d7f7b44..ef754e4 100644
--- a/src/modssc/inductive/methods/mixmatch.py
+++ b/src/modssc/inductive/methods/mixmatch.py
@@ -6,6 +6,8 @@ from dataclasses import dataclass
 from time import perf_counter
 from typing import Any
 
+import numpy as np
+
 from modssc.inductive.base import InductiveMethod, MethodInfo
 from modssc.inductive.deep import TorchModelBundle
 from modssc.inductive.errors import InductiveValidationError
@@ -63,8 +65,13 @@ def _mixup(
     if alpha <= 0:
         lam = torch.ones((batch,), device=base.device, dtype=base.dtype)
     else:
-        dist = torch.distributions.Beta(float(alpha), float(alpha))
-        lam = dist.sample((batch,)).to(device=base.device, dtype=base.dtype)
+        # torch's Beta only samples from the global stream; derive the draw from `generator`
+        lam_seed = int(torch.randint(0, 2**31 - 1, (1,), generator=generator).item())
+        lam = torch.as_tensor(
+            np.random.default_rng(lam_seed).beta(float(alpha), float(alpha), size=batch),
+            device=base.device,
+            dtype=base.dtype,
+        )
         lam = torch.max(lam, 1.0 - lam)
 
     perm = torch.randperm(batch, generator=generator, device="cpu")
-- 
2.43.0


From cfed6b9a9611bfaf2d2aa75798e5726bd899b380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:47 +0000
Subject: [PATCH 30/35] fix: concatenated graphs keep edge weights aligned with
 their edges

---
 src/modssc/inductive/methods/helpers/torch_support.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/modssc/inductive/methods/helpers/torch_support.py b/src/modssc/inductive/methods/helpers/torch_support.py
index f77db81..2e1e9c9 100644
--- a/src/modssc/inductive/methods/helpers/torch_support.py
+++ b/src/modssc/inductive/methods/helpers/torch_support.py
@@ -257,6 +257,7 @@ def concat_data(items: list[Any]) -> Any:
     if all(isinstance(g, dict) and "edge_index" in g for g in graphs):
         edge_indices = []
         edge_weights = []
+        weighted = any(g.get("edge_weight") is not None for g in graphs)
         offset = 0
         for g in graphs:
             ei = g["edge_index"]
@@ -264,9 +265,12 @@ def concat_data(items: list[Any]) -> Any:
                 ei = torch.as_tensor(ei, device=x_cat.device, dtype=torch.long)
             ei = ei + offset
             edge_indices.append(ei)
-            if "edge_weight" in g:
-                ew = g["edge_weight"]
-                if not isinstance(ew, torch.Tensor):
+            if weighted:
+                ew = g.get("edge_weight")
+                if ew is None:
+                    # unweighted edges count once, so that weights stay aligned with edges
+                    ew = torch.ones((int(ei.shape[1]),), device=x_cat.device, dtype=x_cat.dtype)
+                elif not isinstance(ew, torch.Tensor):
                     ew = torch.as_tensor(ew, device=x_cat.device)
                 edge_weights.append(ew)
             offset += int(g["x"].shape[0])
-- 
2.43.0


From 76e9e3660ec00b5c96285985bdd627069ec284e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 31/35] fix: graph neural network methods seed torch before
 building their model

---
 src/modssc/transductive/methods/gnn/appnp.py     |  2 ++
 src/modssc/transductive/methods/gnn/chebnet.py   |  2 ++
 src/modssc/transductive/methods/gnn/gat.py       |  9 ++++++++-
 src/modssc/transductive/methods/gnn/gcn.py       | 10 +++++++++-
 src/modssc/transductive/methods/gnn/gcnii.py     | 10 +++++++++-
 src/modssc/transductive/methods/gnn/grand.py     |  3 ++-
 src/modssc/transductive/methods/gnn/graphsage.py |  2 ++
 src/modssc/transductive/methods/gnn/h_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/n_gcn.py     |  2 ++
 src/modssc/transductive/methods/gnn/planetoid.py |  3 ++-
 src/modssc/transductive/methods/gnn/sgc.py       | 10 +++++++++-
 11 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index cc30179..44865e5 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -16,6 +16,7 @@ from .common import (
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -91,6 +92,7 @@ class APPNPMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index 70cf0c9..a32da9a 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -111,6 +112,7 @@ class ChebNetMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 65c4300..51dd002 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -10,7 +10,13 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -205,6 +211,7 @@ class GATMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 379cb1e..82549fe 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -82,6 +89,7 @@ class GCNMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 43484c0..341a88d 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -11,7 +11,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -104,6 +111,7 @@ class GCNIIMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index 8f92109..fb98433 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -11,7 +11,7 @@ from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
 from .common import TwoLayerMLP as _MLP
-from .common import normalize_device_name, prepare_data_cached, spmm, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, spmm, torch
 
 logger = logging.getLogger(__name__)
 
@@ -69,6 +69,7 @@ class GRANDMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 2e1dd5c..41e96b4 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -13,6 +13,7 @@ from modssc.transductive.optional import optional_import
 from .common import (
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     spmm,
     torch,
     train_fullbatch,
@@ -84,6 +85,7 @@ class GraphSAGEMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index 3abce80..ea872c9 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -293,6 +294,7 @@ class HGCNMethod(TransductiveMethod):
             raise ValueError("weight_embed_dim must be >= 1")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index 32bd7e8..fac6e46 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -15,6 +15,7 @@ from .common import (
     _as_numpy,
     normalize_device_name,
     prepare_data_cached,
+    set_torch_seed,
     torch,
     train_fullbatch,
 )
@@ -213,6 +214,7 @@ class NGCNMethod(TransductiveMethod):
             raise ValueError("classifier must be 'fc' or 'attention'")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index 790b5b6..bc0c6cd 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -17,7 +17,7 @@ from modssc.graph.featurization.node2vec import (
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, torch
+from .common import normalize_device_name, prepare_data_cached, set_torch_seed, torch
 
 logger = logging.getLogger(__name__)
 
@@ -84,6 +84,7 @@ class PlanetoidMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
 
         # Walk generation on CPU
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device="cpu",
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index b9811f3..09136ce 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -10,7 +10,14 @@ import numpy as np
 from modssc.transductive.base import MethodInfo, TransductiveMethod
 from modssc.transductive.optional import optional_import
 
-from .common import normalize_device_name, prepare_data_cached, spmm, torch, train_fullbatch
+from .common import (
+    normalize_device_name,
+    prepare_data_cached,
+    set_torch_seed,
+    spmm,
+    torch,
+    train_fullbatch,
+)
 
 logger = logging.getLogger(__name__)
 
@@ -62,6 +69,7 @@ class SGCMethod(TransductiveMethod):
         optional_import("torch", extra="transductive-torch")
 
         self._device = normalize_device_name(device)
+        set_torch_seed(seed)
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From bcdbd4c446394382edadbf9660ba9d5b9e88347e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 32/35] fix: refitting a graph neural network method on changed
 data does not reuse the prepared data of the earlier fit

---
 src/modssc/transductive/methods/gnn/appnp.py     | 1 +
 src/modssc/transductive/methods/gnn/chebnet.py   | 1 +
 src/modssc/transductive/methods/gnn/gat.py       | 1 +
 src/modssc/transductive/methods/gnn/gcn.py       | 1 +
 src/modssc/transductive/methods/gnn/gcnii.py     | 1 +
 src/modssc/transductive/methods/gnn/grafn.py     | 1 +
 src/modssc/transductive/methods/gnn/grand.py     | 1 +
 src/modssc/transductive/methods/gnn/graphhop.py  | 1 +
 src/modssc/transductive/methods/gnn/graphsage.py | 1 +
 src/modssc/transductive/methods/gnn/h_gcn.py     | 1 +
 src/modssc/transductive/methods/gnn/n_gcn.py     | 1 +
 src/modssc/transductive/methods/gnn/planetoid.py | 1 +
 src/modssc/transductive/methods/gnn/sgc.py       | 1 +
 13 files changed, 13 insertions(+)

diff --git a/src/modssc/transductive/methods/gnn/appnp.py b/src/modssc/transductive/methods/gnn/appnp.py
index 44865e5..99a377d 100644
--- a/src/modssc/transductive/methods/gnn/appnp.py
+++ b/src/modssc/transductive/methods/gnn/appnp.py
@@ -93,6 +93,7 @@ class APPNPMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/chebnet.py b/src/modssc/transductive/methods/gnn/chebnet.py
index a32da9a..94e1ca4 100644
--- a/src/modssc/transductive/methods/gnn/chebnet.py
+++ b/src/modssc/transductive/methods/gnn/chebnet.py
@@ -113,6 +113,7 @@ class ChebNetMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gat.py b/src/modssc/transductive/methods/gnn/gat.py
index 51dd002..375ad0c 100644
--- a/src/modssc/transductive/methods/gnn/gat.py
+++ b/src/modssc/transductive/methods/gnn/gat.py
@@ -212,6 +212,7 @@ class GATMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcn.py b/src/modssc/transductive/methods/gnn/gcn.py
index 82549fe..ac8b740 100644
--- a/src/modssc/transductive/methods/gnn/gcn.py
+++ b/src/modssc/transductive/methods/gnn/gcn.py
@@ -90,6 +90,7 @@ class GCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/gcnii.py b/src/modssc/transductive/methods/gnn/gcnii.py
index 341a88d..457078e 100644
--- a/src/modssc/transductive/methods/gnn/gcnii.py
+++ b/src/modssc/transductive/methods/gnn/gcnii.py
@@ -112,6 +112,7 @@ class GCNIIMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grafn.py b/src/modssc/transductive/methods/gnn/grafn.py
index be08d50..8267a0d 100644
--- a/src/modssc/transductive/methods/gnn/grafn.py
+++ b/src/modssc/transductive/methods/gnn/grafn.py
@@ -198,6 +198,7 @@ class GraFNMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/grand.py b/src/modssc/transductive/methods/gnn/grand.py
index fb98433..925b1a4 100644
--- a/src/modssc/transductive/methods/gnn/grand.py
+++ b/src/modssc/transductive/methods/gnn/grand.py
@@ -70,6 +70,7 @@ class GRANDMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphhop.py b/src/modssc/transductive/methods/gnn/graphhop.py
index 799545a..bab2032 100644
--- a/src/modssc/transductive/methods/gnn/graphhop.py
+++ b/src/modssc/transductive/methods/gnn/graphhop.py
@@ -219,6 +219,7 @@ class GraphHopMethod(TransductiveMethod):
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
 
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/graphsage.py b/src/modssc/transductive/methods/gnn/graphsage.py
index 41e96b4..18a7fe3 100644
--- a/src/modssc/transductive/methods/gnn/graphsage.py
+++ b/src/modssc/transductive/methods/gnn/graphsage.py
@@ -86,6 +86,7 @@ class GraphSAGEMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/h_gcn.py b/src/modssc/transductive/methods/gnn/h_gcn.py
index ea872c9..6c476ec 100644
--- a/src/modssc/transductive/methods/gnn/h_gcn.py
+++ b/src/modssc/transductive/methods/gnn/h_gcn.py
@@ -295,6 +295,7 @@ class HGCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/n_gcn.py b/src/modssc/transductive/methods/gnn/n_gcn.py
index fac6e46..650e71e 100644
--- a/src/modssc/transductive/methods/gnn/n_gcn.py
+++ b/src/modssc/transductive/methods/gnn/n_gcn.py
@@ -215,6 +215,7 @@ class NGCNMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
diff --git a/src/modssc/transductive/methods/gnn/planetoid.py b/src/modssc/transductive/methods/gnn/planetoid.py
index bc0c6cd..5c77249 100644
--- a/src/modssc/transductive/methods/gnn/planetoid.py
+++ b/src/modssc/transductive/methods/gnn/planetoid.py
@@ -85,6 +85,7 @@ class PlanetoidMethod(TransductiveMethod):
 
         # Walk generation on CPU
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device="cpu",
diff --git a/src/modssc/transductive/methods/gnn/sgc.py b/src/modssc/transductive/methods/gnn/sgc.py
index 09136ce..5640896 100644
--- a/src/modssc/transductive/methods/gnn/sgc.py
+++ b/src/modssc/transductive/methods/gnn/sgc.py
@@ -70,6 +70,7 @@ class SGCMethod(TransductiveMethod):
 
         self._device = normalize_device_name(device)
         set_torch_seed(seed)
+        self._prep_cache.clear()  # the data may have changed in place since an earlier fit
         prep = prepare_data_cached(
             data,
             device=self._device,
-- 
2.43.0


From d92b44b4f5b0d8a6ab27644e25e34e62f61ec7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 33/35] fix: TSVM balances one-sided pseudo-labels by score,
 not by distance from the boundary

When every unlabelled score was negative, ordering by absolute value labelled the most
negative half positive.
---
 src/modssc/transductive/methods/classic/tsvm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modssc/transductive/methods/classic/tsvm.py b/src/modssc/transductive/methods/classic/tsvm.py
index 4540d29..46fe565 100644
--- a/src/modssc/transductive/methods/classic/tsvm.py
+++ b/src/modssc/transductive/methods/classic/tsvm.py
@@ -191,7 +191,7 @@ class TSVMMethod(TransductiveMethod):
                 n_pos = int((y_u > 0).sum())
                 n_neg = int((y_u < 0).sum())
                 if n_pos == 0 or n_neg == 0:
-                    order = np.argsort(np.abs(scores_u))
+                    order = np.argsort(scores_u)
                     half = int(order.size // 2)
                     y_u[order[:half]] = -1.0
                     y_u[order[half:]] = 1.0
-- 
2.43.0


From e04e9082277c74d18fd292ab65756ed20b5a65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 34/35] fix: generating views leaves the metadata of the
 dataset and of other views alone

A dataset that already recorded views had its own metadata extended in place, and every
view listed the columns of its siblings.
---
 src/modssc/views/services/service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modssc/views/services/service.py b/src/modssc/views/services/service.py
index 7f53aea..54a1717 100644
--- a/src/modssc/views/services/service.py
+++ b/src/modssc/views/services/service.py
@@ -209,7 +209,7 @@ def generate_views(
 
         # 3) Meta
         meta: dict[str, Any] = dict(ds.meta) if isinstance(ds.meta, dict) else {}
-        meta.setdefault("views", {})
+        meta["views"] = dict(meta.get("views") or {})
         meta["views"][str(view.name)] = {
             "columns": cols.tolist(),
             "columns_mode": (view.columns.mode if view.columns is not None else "all"),
@@ -217,7 +217,7 @@ def generate_views(
         }
         if view.meta:
             # view-level metadata override/additions
-            meta.setdefault("view_meta", {})
+            meta["view_meta"] = dict(meta.get("view_meta") or {})
             meta["view_meta"][str(view.name)] = dict(view.meta)
 
         views[str(view.name)] = LoadedDataset(train=train_split, test=test_split, meta=meta)
-- 
2.43.0


From c682cca6507a78fb717986fa5ac3be036f749f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 35/35] fix: keep raw download directories below the cache root
 for any dataset name or version

---
 src/modssc/data_loader/cache.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modssc/data_loader/cache.py b/src/modssc/data_loader/cache.py
index a4fff41..051c5b5 100644
--- a/src/modssc/data_loader/cache.py
+++ b/src/modssc/data_loader/cache.py
@@ -37,6 +37,12 @@ def default_cache_dir() -> Path:
     return Path(user_cache_dir("modssc")) / "datasets"
 
 
+def _path_component(name: str) -> str:
+    """Return ``name`` as a single path component, so it cannot lead out of its parent."""
+    safe = name.replace("/", "_")
+    return safe.replace(".", "_") if safe in {".", ".."} else safe
+
+
 @dataclass(frozen=True)
 class CacheLayout:
     root: Path
@@ -73,8 +79,7 @@ class CacheLayout:
     def raw_dir(self, provider: str, dataset_id: str, version: str | None) -> Path:
         # Avoid overly deep trees, keep stable per dataset identity.
         v = version or "noversion"
-        safe_id = dataset_id.replace("/", "_")
-        return self.raw_root / provider / safe_id / v
+        return self.raw_root / provider / _path_component(dataset_id) / _path_component(v)
 
 
 def ensure_layout(layout: CacheLayout) -> None:
-- 
2.43.0

