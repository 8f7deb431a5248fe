From b6f435da1f4e7e8c268d6cafcc35dad79cb98fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 01/12] fix: pymatching predictions may omit observables that
 no matching edge flips

---
 src/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoding.py b/src/decoding.py
index e80611f..98f4c85 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -95,7 +95,9 @@ def decode_using_pymatching(circuit: stim.Circuit,
     for k in range(num_shots):
         expanded_det = np.resize(det_samples[k], num_dets + 1)
         expanded_det[-1] = 0
-        predictions[k] = matching_graph.decode(expanded_det)
+        prediction = matching_graph.decode(expanded_det)
+        # Observables that no edge of the matching graph flips may be missing from the end of the prediction.
+        predictions[k, :len(prediction)] = prediction
     return predictions
 
 
-- 
2.43.0


From 3651ac7db0a973f6664084530f3ddf6bc27e583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 02/12] fix: keep the first frame when parallel matching edges
 disagree

---
 src/decoding.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/decoding.py b/src/decoding.py
index 98f4c85..325b771 100644
--- a/src/decoding.py
+++ b/src/decoding.py
@@ -246,9 +246,10 @@ def detector_error_model_to_nx_graph(model: stim.DetectorErrorModel) -> nx.Graph
             old_p = edge_data["error_probability"]
             old_frame_changes = edge_data["qubit_id"]
             # If frame changes differ, the code has distance 2; just keep whichever was first.
-            if set(old_frame_changes) == set(frame_changes):
-                p = p * (1 - old_p) + old_p * (1 - p)
-                g.remove_edge(*dets)
+            if set(old_frame_changes) != set(frame_changes):
+                return
+            p = p * (1 - old_p) + old_p * (1 - p)
+            g.remove_edge(*dets)
         g.add_edge(*dets, weight=math.log((1 - p) / p), qubit_id=frame_changes, error_probability=p)
 
     def handle_detector_coords(detector: int, coords: np.ndarray):
-- 
2.43.0


From 1ccca5fc6c0160caec9025cb6a6988219682efa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:57 +0000
Subject: [PATCH 03/12] fix: the first batch must not exceed max_shots

---
 src/collect_data.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 8c411f1..3de1ed8 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -147,9 +147,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
 
     for problem in problems:
         num_seen_errors = 0
-        num_next_shots = min_shots
-        if max_batch is not None and max_batch < min_shots:
-            num_next_shots = max_batch
+        num_next_shots = min(min_shots, max_batch, max_shots)
         total_shots = 0
         while True:
             t0 = time.monotonic()
-- 
2.43.0


From 287b680b83a0bbd0369399faac96cffcbd26dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 04/12] fix: batching must not end sampling before min_shots

---
 src/collect_data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index 3de1ed8..cf6eddc 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -183,10 +183,11 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
             cur_sample_std_dev = math.sqrt(p * (1 - p) / total_shots)
             if total_shots >= max_shots:
                 break
-            if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
-                break
-            if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
-                break
+            if total_shots >= min_shots:
+                if num_seen_errors >= min_seen_logical_errors and cur_sample_std_dev <= max_sample_std_dev:
+                    break
+                if num_seen_errors >= total_shots * 0.48 and num_seen_errors >= 10:
+                    break
             num_next_shots = min(max_batch, min(2 * num_next_shots, max_shots - total_shots))
 
 
-- 
2.43.0


From 7d6c4f7b269a6afafc2139cb1371484b6fd310cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 05/12] fix: legend_label must not fail for noisy layouts

---
 src/honeycomb_layout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/honeycomb_layout.py b/src/honeycomb_layout.py
index ff6f120..4b2a5fd 100644
--- a/src/honeycomb_layout.py
+++ b/src/honeycomb_layout.py
@@ -420,7 +420,7 @@ class HoneycombLayout:
             f"{self.data_width}x{self.data_height} data",
         ]
         if self.noise:
-            terms.append(f"noise {self.noise:!r}")
+            terms.append(f"noise {self.noise!r}")
         return ", ".join(terms)
 
 
-- 
2.43.0


From 4a6d8f28570a4a587cf41997f2002889348ed36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:14 +0000
Subject: [PATCH 06/12] fix: the parity measurement ancilla inside loops must
 not collide with a data qubit

---
 src/noise.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/noise.py b/src/noise.py
index 03eceac..c8ae028 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -126,9 +126,14 @@ class NoiseModel:
         mid.append_operation(op.name, targets, args)
         return pre, mid, post
 
-    def noisy_circuit(self, circuit: stim.Circuit, *, qs: Optional[Set[int]] = None) -> stim.Circuit:
+    def noisy_circuit(self,
+                      circuit: stim.Circuit,
+                      *,
+                      qs: Optional[Set[int]] = None,
+                      ancilla: Optional[int] = None) -> stim.Circuit:
         result = stim.Circuit()
-        ancilla = circuit.num_qubits
+        if ancilla is None:
+            ancilla = circuit.num_qubits
 
         current_moment_pre = stim.Circuit()
         current_moment_mid = stim.Circuit()
@@ -164,7 +169,7 @@ class NoiseModel:
         for op in circuit:
             if isinstance(op, stim.CircuitRepeatBlock):
                 flush()
-                result += self.noisy_circuit(op.body_copy(), qs=qs) * op.repeat_count
+                result += self.noisy_circuit(op.body_copy(), qs=qs, ancilla=ancilla) * op.repeat_count
             elif isinstance(op, stim.CircuitInstruction):
                 if op.name == "TICK":
                     flush()
-- 
2.43.0


From fc691092e25aa6be610443dcd8d95a1e5ff94c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:08 +0000
Subject: [PATCH 07/12] fix: correlated parity measurements must respect
 inverted targets

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index c8ae028..c080d8e 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -280,6 +280,7 @@ def parity_measurement_with_correlated_measurement_noise(
     for error in errors:
         circuit.append_operation("CORRELATED_ERROR", error, ind_p)
 
-    circuit.append_operation('M', [ancilla])
+    is_inverted = t1.is_inverted_result_target != t2.is_inverted_result_target
+    circuit.append_operation('M', [stim.target_inv(ancilla) if is_inverted else ancilla])
 
     return circuit
-- 
2.43.0


From eeb1da3e27958551a3909e96d3472ea3a882fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:57 +0000
Subject: [PATCH 08/12] fix: measurement noise must accept inverted measurement
 targets

---
 src/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/noise.py b/src/noise.py
index c080d8e..2ee76f7 100644
--- a/src/noise.py
+++ b/src/noise.py
@@ -103,7 +103,8 @@ class NoiseModel:
                 if op.name in RESET_OPS:
                     post.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
                 if op.name in MEASURE_OPS:
-                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", targets, p)
+                    # Only the qubits matter to the error; it doesn't accept inverted targets like !5.
+                    pre.append_operation("Z_ERROR" if op.name.endswith("X") else "X_ERROR", [t.value for t in targets], p)
             elif op.name == "MPP":
                 assert len(targets) % 3 == 0 and all(t.is_combiner for t in targets[1::3]), repr(op)
                 assert args == [] or args == [0]
-- 
2.43.0


From 7886a10fef0f91e8c32e59e8de8ca74fe460a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:02 +0000
Subject: [PATCH 09/12] fix: plot_data must not fail for more than 30 curves

---
 src/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plotting.py b/src/plotting.py
index 3805e67..d5a5d90 100644
--- a/src/plotting.py
+++ b/src/plotting.py
@@ -38,7 +38,7 @@ def plot_data(data: ProblemShotData,
         ax = fig.add_subplot()
 
     markers = "ov*sp^<>8PhH+xXDd|" * 100
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     order = 0
     d: DecodingProblemDesc
     for key, vals in data.grouped_by(lambda e: e.with_changes(noise=0)).items():
-- 
2.43.0


From b2c439d57a521f787b01e15063c318d4f7eaad46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:28 +0000
Subject: [PATCH 10/12] fix: figures must not fail for more than 16 noise
 strengths

---
 src/paper/main_render_detection_fraction_figure.py | 4 ++--
 src/paper/main_render_lambda_figure.py             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/paper/main_render_detection_fraction_figure.py b/src/paper/main_render_detection_fraction_figure.py
index 949bcf3..7d89cae 100644
--- a/src/paper/main_render_detection_fraction_figure.py
+++ b/src/paper/main_render_detection_fraction_figure.py
@@ -50,8 +50,8 @@ def plot_detection_fraction(all_data: ProblemShotData) -> plt.Figure:
     nrows = 1
     gs = fig.add_gridspec(ncols=ncols + 1, nrows=nrows, hspace=0.05, wspace=0.1)
     axs = gs.subplots(sharex=True, sharey=True)
-    markers = "ov*sp^<>8P+xXDd|"
-    colors = list(mcolors.TABLEAU_COLORS) * 3
+    markers = "ov*sp^<>8P+xXDd|" * 100
+    colors = list(mcolors.TABLEAU_COLORS) * 100
     for col, style in enumerate(styles):
         ax: plt.Axes = axs[col]
         style_data = all_groups.get(style, ProblemShotData({})).grouped_by(lambda e: e.noise)
diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index f3849be..ec2044b 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -125,8 +125,8 @@ def plot_lambda_line_fits_combo(all_data: ProblemShotData, focus: bool) -> Tuple
             axs[row][col].set_title(name)
 
             groups = LambdaGroup.groups_from_data(style_data)
-            markers = "ov*sp^<>8P+xXDd|"
-            colors = list(mcolors.TABLEAU_COLORS) * 3
+            markers = "ov*sp^<>8P+xXDd|" * 100
+            colors = list(mcolors.TABLEAU_COLORS) * 100
             lambda_xs = []
             lambda_ys = []
             for noise in sorted(groups.keys()):
-- 
2.43.0


From 615ac0245b62404418fc2df0f07268dc9822f29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:28 +0000
Subject: [PATCH 11/12] fix: mark the low confidence points of the lambda
 figure

---
 src/paper/main_render_lambda_figure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/paper/main_render_lambda_figure.py b/src/paper/main_render_lambda_figure.py
index ec2044b..1796451 100644
--- a/src/paper/main_render_lambda_figure.py
+++ b/src/paper/main_render_lambda_figure.py
@@ -237,6 +237,7 @@ def plot_lambda_combo(all_data: ProblemShotData) -> Tuple[plt.Figure, plt.Axes]:
                 label += " (Standard)"
             ax.plot(lambda_xs, lambda_ys, marker="ov*s"[case_i], label=label, zorder=100 - i)
             ax.fill_between(lambda_xs, lambda_ys_low, lambda_ys_high, alpha=0.3)
+        have_any_poor |= bool(poor_ys)
         if have_any_poor:
             ax.scatter(poor_xs, poor_ys, s=200, color="red", zorder=100, alpha=0.3)
 
-- 
2.43.0


From a9c3bd33a8be368affb7ca2c5ff7217de069a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:30 +0000
Subject: [PATCH 12/12] fix: write the csv header into an existing but empty
 statistics file

An empty file (e.g. left by an interrupted run) got data rows without a
header, and reading it back swallowed the first row.
---
 src/collect_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collect_data.py b/src/collect_data.py
index cf6eddc..921de07 100644
--- a/src/collect_data.py
+++ b/src/collect_data.py
@@ -138,7 +138,7 @@ def collect_simulated_experiment_data(problems: List[DecodingProblem],
     """
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        if discard_previous_data or not pathlib.Path(out_path).exists() or pathlib.Path(out_path).stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
@@ -198,7 +198,7 @@ def collect_detection_fraction_data(problems: List[DecodingProblem],
                                     discard_previous_data: bool):
     print(CSV_HEADER, flush=True)
     if out_path is not None:
-        if discard_previous_data or not pathlib.Path(out_path).exists():
+        if discard_previous_data or not pathlib.Path(out_path).exists() or pathlib.Path(out_path).stat().st_size == 0:
             with open(out_path, "w") as f:
                 print(CSV_HEADER, file=f)
 
-- 
2.43.0

