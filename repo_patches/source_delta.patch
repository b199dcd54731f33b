From a3407dbf2d4b0a6d02edffe2eac51c92e67d3ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 01/21] fix: do not poll the abort signal again once it was
 received

After a termination request or a failure the abort branch of the select
stayed ready forever, so that the controller loop spun at full speed
(and never yielded to a caller's executor) until the last in-flight
evaluation had ended.
---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From fe21de7d1c33d451feba6fc88d24d218ee39ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 02/21] fix: do not start queued evaluations once an abort was
 requested

An evaluation that had been pushed but not yet polled when a termination
request or a failure was processed was still started afterwards.
---
 src/controller.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..505e967 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -78,7 +78,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => (),
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -168,7 +169,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
     obj_func: &F,
     abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    if !abort_signal_recv.is_empty() {
+        // Abort requested after this evaluation was queued, but before it was started
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -187,12 +193,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From 5d3328132e113a94c6b54c2d2dc93f88c5b0edde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 03/21] fix: wait for in-flight evaluations after a failure
 even if the target is reached

A result at or below the target that arrived after an evaluation had
failed ended the run at once, abandoning the evaluations still in flight.
---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 505e967..d2d2fb3 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -102,7 +102,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                 break;
                             }
                         }
-- 
2.43.0


From 181606ad93513e6a57062d26f06d7e1420b920e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 04/21] fix: reject initial guesses with a wrong array length

A guess with too many elements was accepted and evaluated, one with too
few elements made the crossover panic.
---
 src/error.rs      |  6 ++++++
 src/value_util.rs | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index e3c3850..455817d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -95,6 +95,12 @@ pub enum Error {
     InitNotAKnownValue { path_hint: String, init: String },
     #[error("at path {path_hint:?}: value not within bounds")]
     ValueNotWithinBounds { path_hint: String },
+    #[error("at path {path_hint:?}: array must have {expected_size} elements, found {actual_size}")]
+    WrongArraySize {
+        path_hint: String,
+        expected_size: usize,
+        actual_size: usize,
+    },
     #[error("at path {path_hint:?}: exactly one variant value must be present, found {}", .num_variant_values_found)]
     ExactlyOneVariantValueRequired {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..5388220 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,7 +25,10 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
         spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
         spec::Node::Variant {
             map: ref spec_map, ..
@@ -165,10 +168,19 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongArraySize {
+                    path_hint: format_path(path),
+                    expected_size: size,
+                    actual_size: json_values.len(),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
-- 
2.43.0


From dcf2eb453a0078b55190318404d1f8f06d9bd767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 05/21] fix: reject initial guesses with an anon map size
 outside its bounds

---
 src/error.rs      |  2 ++
 src/value_util.rs | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 455817d..fe7d2fa 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -101,6 +101,8 @@ pub enum Error {
         expected_size: usize,
         actual_size: usize,
     },
+    #[error("at path {path_hint:?}: size is not within bounds")]
+    SizeNotWithinBounds { path_hint: String },
     #[error("at path {path_hint:?}: exactly one variant value must be present, found {}", .num_variant_values_found)]
     ExactlyOneVariantValueRequired {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index 5388220..5083f69 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -29,7 +29,12 @@ fn build_node(
             ref value_type,
             size,
         } => build_array(json_val, value_type, size, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -202,9 +207,11 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
-    match json_val {
+    let result_mapping = match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
 
@@ -215,7 +222,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -236,12 +243,26 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
-        _ => Err(Error::WrongTypeForValue {
+        _ => {
+            return Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: "array or map".to_string(),
+            })
+        }
+    };
+
+    let size = result_mapping.len();
+    let out_of_bounds = min_size.map_or(false, |min_size| size < min_size)
+        || max_size.map_or(false, |max_size| size > max_size);
+
+    if out_of_bounds {
+        Err(Error::SizeNotWithinBounds {
             path_hint: format_path(path),
-            type_hint: "array or map".to_string(),
-        }),
+        })
+    } else {
+        Ok(Node::AnonMap(result_mapping))
     }
 }
 
-- 
2.43.0


From 0e530e474b01138dab6fd4010408aa10fb919ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 06/21] fix: never reuse the key of an existing anon map
 element for an added one

The key manager only knows the keys of the initial value. A map that was
materialized later (in an optional, a variant or an added map element)
started with unregistered keys, so that an added element could overwrite
an existing one instead of growing the map.
---
 src/mutation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..951de0a 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,10 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let mut key = path_node_ctx.next_key();
+            while value_map.contains_key(&key) {
+                key = path_node_ctx.next_key();
+            }
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
-- 
2.43.0


From f9fa719911adac71af168106c23346041c111bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 07/21] fix: do not overflow on an initial guess with the
 largest anon map key

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 77b7e67..dba2014 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.wrapping_add(1));
     }
 }
 
-- 
2.43.0


From 93b9167962a3eec7cba904cc6c8b56b0d7ea524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 08/21] fix: require at least two distinct enum values

An enum listing the same value several times was accepted, and mutating
it panicked for lack of an alternative value.
---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..3f39d49 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().unique().count() < 2 {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 2aa0aa3673d0b43ea920d8fa3b65c6fc027a7118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 09/21] fix: do not drop parameters whose name merely starts
 with "typeDef"

Only "typeDef <name>" declares a type; parameters called e.g. "typeDefault"
were silently left out of the spec.
---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 3f39d49..bc7e04f 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From 2d0829f043e0f9c95395ea32ad4978f436f3c0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 10/21] fix: keep mutated reals finite

A step of an unbounded real could overflow to an infinite (or NaN) value,
which has no JSON representation and made the run panic.
---
 src/mutation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 951de0a..ff249e6 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -418,6 +418,7 @@ fn mutate_real(
         .unwrap()
         .sample(rng)
     {
+        let orig_value = value;
         let mut value = mutate_cauchy(value, scale, mutation_params, rng);
 
         if let Some(min) = min {
@@ -428,7 +429,11 @@ fn mutate_real(
             value = value.min(max);
         }
 
-        value
+        if value.is_finite() {
+            value
+        } else {
+            orig_value
+        }
     } else {
         value
     }
-- 
2.43.0


From 61d4da0e1098cce220fab0b3a3759a0f1ffd1be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 11/21] fix: keep the adaptive mutation scale positive and
 finite

In long runs the scale could underflow to zero or overflow to infinity
and never recover from it.
---
 src/meta_adapt.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..630aa10 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -47,7 +47,8 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale(mutation_params.mutation_scale, rng)
+            .clamp(f64::MIN_POSITIVE, f64::MAX),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From cfb1f0c4baa54da2bd9174ecc65e12390ccba389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 12/21] fix: do not panic on non-UTF-8 stderr output of the
 objective function

The panic only occurred with verbose logging turned on.
---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 461db5dd5fc6095f3aa0a43b65b56e478b8d45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 13/21] fix: tolerate that a killed process group's leader is
 already reaped

The thread waiting for the child may reap it first. A timed out or
aborted evaluation was then turned into an error instead of a rejection.
---
 src/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..e098add 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,8 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                // ECHILD: the group leader has already been reaped
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
-- 
2.43.0


From f6190f28f987c4b47db40aa1a49a6a2d42c8eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 14/21] fix: do not leave objective function processes behind

When a run ended by reaching its target (or early with an error), the
evaluations in flight were dropped without killing their processes. The
same was true for background processes of an evaluation that completed.
---
 src/process.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index e098add..c84dc79 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -50,6 +50,18 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+// Makes sure that no process of the group outlives its evaluation, including when the evaluation is
+// dropped before it has completed.
+struct ChildProcGroupGuard {
+    pgid: Option<Pid>,
+}
+
+impl Drop for ChildProcGroupGuard {
+    fn drop(&mut self) {
+        kill_and_reap_child_proc_group(self.pgid).ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -116,6 +128,10 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
 
+        let _child_proc_group_guard = ChildProcGroupGuard {
+            pgid: unreaped_pgid,
+        };
+
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
         let mut timeout_fut = if let Some(kill_after_duration) = self.kill_obj_func_after {
-- 
2.43.0


From ffaeb949c05dee2f4a481a05259bc3e26714b235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 15/21] fix: flush the best-seen and detailed report files

Unflushed writes of two consecutive best-seen values could overlap, and a
failing last write went unnoticed.
---
 src/sync_launch.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..bf23d8d 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -74,6 +74,8 @@ async fn write_best_seen_file(
         .write_all(value.to_string().as_bytes())
         .await?;
 
+    best_seen_file.flush().await?;
+
     Ok(())
 }
 
@@ -114,6 +116,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From c723760b0140264e08733f4728fc7df28e64e948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 16/21] fix: reject objective function output that is not a
 JSON object

An array like [1.0] was accepted as if it were {"objFuncVal": 1.0}.
---
 src/process.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index c84dc79..96d05e5 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -69,6 +69,17 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+fn parse_child_result(stdout: &[u8]) -> Option<ObjFuncChildResult> {
+    // Must be a JSON object, whereas serde would accept an array of the field values as well
+    let first_byte = stdout.iter().find(|byte| !byte.is_ascii_whitespace());
+
+    if first_byte == Some(&b'{') {
+        serde_json::from_slice(stdout).ok()
+    } else {
+        None
+    }
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -86,14 +97,12 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
-            Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
-                obj_func_arg.to_owned(),
-                seed,
-                output,
-            ))
-        })?;
-        Ok(result.objFuncVal)
+        match parse_child_result(&output.stdout) {
+            Some(result) => Ok(result.objFuncVal),
+            None => Err(Error::ObjFuncProcInvalidOutput(
+                ProcOutputWithObjFuncArg::new(obj_func_arg.to_owned(), seed, output),
+            )),
+        }
     } else {
         trace!(
             "Child terminated unsuccessfully, status: {:?}",
-- 
2.43.0


From 6c4e239a65e41e1a57fcc6ae6814fc18864ef5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:08 +0000
Subject: [PATCH 17/21] fix: reject a non-finite target objective function
 value

---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..db4c1fd 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -28,6 +28,9 @@ where
 
     for criterion in termination_criteria {
         match criterion {
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
-- 
2.43.0


From ab6226c435a7f258916dc7c0761c15fecbbcdc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:26 +0000
Subject: [PATCH 18/21] fix: do not panic on a spec attribute key that cannot
 be serialised

---
 src/spec_util.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index bc7e04f..44ac7cf 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -641,7 +641,10 @@ fn check_for_unexpected_attributes<const N: usize>(
 }
 
 fn format_attribute_key(key: &serde_yaml::Value) -> String {
-    serde_yaml::to_string(key).unwrap().replace('\n', "")
+    // Not every key can be serialised (e.g. a mapping with complex keys)
+    serde_yaml::to_string(key)
+        .unwrap_or_else(|_| format!("{:?}", key))
+        .replace('\n', "")
 }
 
 #[cfg(test)]
-- 
2.43.0


From d81be61a2ab2838cde1f8cabc1b1bce4318f824c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 19/21] fix: reject tagged attribute keys in specs

---
 src/spec_util.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44ac7cf..c3499f2 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -219,7 +219,7 @@ fn build_sub(
 
     let mut sub_type_defs = type_defs.clone();
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_key_str(key) {
             Some(attribute_key) if attribute_key.starts_with("typeDef ") => {
                 let type_name = attribute_key.strip_prefix("typeDef ").unwrap();
 
@@ -248,7 +248,7 @@ fn build_sub(
     }
 
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_key_str(key) {
             Some(attribute_key)
                 if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
@@ -361,7 +361,7 @@ fn build_variant(
 
     let mut out_mapping = HashMap::default();
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_key_str(key) {
             Some(attribute_key) if !attribute_key.eq("type") && !attribute_key.eq("init") => {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
@@ -640,6 +640,14 @@ fn check_for_unexpected_attributes<const N: usize>(
     Ok(())
 }
 
+fn attribute_key_str(key: &serde_yaml::Value) -> Option<&str> {
+    // A tagged string is a key of its own and not the same as the plain string
+    match key {
+        serde_yaml::Value::String(key) => Some(key),
+        _ => None,
+    }
+}
+
 fn format_attribute_key(key: &serde_yaml::Value) -> String {
     // Not every key can be serialised (e.g. a mapping with complex keys)
     serde_yaml::to_string(key)
-- 
2.43.0


From e6cb8047ed318e2722475bc7ab28f4dbac5d7cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 20/21] fix: limit depth and size of expanded type definitions
 in specs

---
 src/error.rs     |  5 +++++
 src/spec_util.rs | 40 ++++++++++++++++++++++++++++++++++++++++
 2 files changed, 45 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index fe7d2fa..12c49dd 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -36,6 +36,11 @@ pub enum Error {
         path_hint: String,
         unknown_type_name: String,
     },
+    #[error("at path {path_hint:?}: expanding type {type_name:?} makes the spec too large or too deeply nested")]
+    ExpandedTypeTooLarge {
+        path_hint: String,
+        type_name: String,
+    },
     #[error("at path {path_hint:?}: initial value is not within bounds provided")]
     InitNotWithinBounds { path_hint: String },
     #[error("at path {path_hint:?}: initial size is not within bounds provided")]
diff --git a/src/spec_util.rs b/src/spec_util.rs
index c3499f2..c851036 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -34,6 +34,45 @@ const BUILT_IN_TYPE_NAMES: &[&str] = &[
     "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const",
 ];
 
+// The deepest nesting that both YAML documents and JSON values can have
+const MAX_DEPTH: usize = 128;
+
+const MAX_NODES_OF_EXPANDED_TYPE: usize = 100_000;
+
+fn depth_and_node_count(node: &Node) -> (usize, usize) {
+    let children: Vec<&Node> = match node {
+        Node::Sub { map } | Node::Variant { map, .. } => map.values().map(Box::as_ref).collect(),
+        Node::Array { value_type, .. }
+        | Node::AnonMap { value_type, .. }
+        | Node::Optional { value_type, .. } => vec![value_type],
+        Node::Bool { .. }
+        | Node::Real { .. }
+        | Node::Int { .. }
+        | Node::Enum { .. }
+        | Node::Const => vec![],
+    };
+
+    let (depth, count) = children
+        .into_iter()
+        .map(depth_and_node_count)
+        .fold((0, 0), |acc, child| (acc.0.max(child.0), acc.1 + child.1));
+
+    (depth + 1, count + 1)
+}
+
+fn check_expanded_size(node: &Node, type_name: &str, path: &[&str]) -> Result<(), Error> {
+    let (depth, node_count) = depth_and_node_count(node);
+
+    if path.len() + depth > MAX_DEPTH || node_count > MAX_NODES_OF_EXPANDED_TYPE {
+        Err(Error::ExpandedTypeTooLarge {
+            path_hint: format_path(path),
+            type_name: type_name.to_string(),
+        })
+    } else {
+        Ok(())
+    }
+}
+
 fn build_node(
     yaml_val: &serde_yaml::Value,
     type_defs: &HashMap<String, Node>,
@@ -65,6 +104,7 @@ fn build_node(
         type_name => match type_defs.get(type_name) {
             Some(node) => {
                 check_for_unexpected_attributes(mapping, ["type"], path)?;
+                check_expanded_size(node, type_name, path)?;
                 Ok(node.clone())
             }
             None => Err(Error::UnknownTypeName {
-- 
2.43.0


From 11165eed9c0fb8da142b5dee723b9730ddb67527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:17 +0000
Subject: [PATCH 21/21] fix: evaluate blocking objective functions on threads
 of their own

They ran as tasks on the worker threads of the runtime, whose queues are
not meant for tasks that block: now and then an evaluation was left in
the queue of a worker busy with another one while the remaining workers
were idle, so that it did not start until that other one had finished.
---
 src/sync_launch.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index bf23d8d..9c8b45f 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -30,6 +30,8 @@ use tokio::runtime;
 
 const CHANNEL_BUF_SIZE: usize = 256;
 
+const NUM_FILE_IO_THREADS: usize = 8;
+
 pub struct DetailedReportingFileInfo {
     pub detailed_report_file_path: PathBuf,
     pub best_seen_file_path: PathBuf,
@@ -150,6 +152,12 @@ where
         runtime::Builder::new_current_thread()
     };
 
+    runtime_builder.max_blocking_threads(
+        algo_config
+            .num_concurrent
+            .saturating_add(NUM_FILE_IO_THREADS),
+    );
+
     let termination_criteria = termination::compile(termination_criteria)?;
 
     let (mut cmd_sender, cmd_recv) = mpsc::channel::<Command>(CHANNEL_BUF_SIZE);
@@ -240,7 +248,7 @@ where
     ) -> Result<Option<f64>, Error> {
         let obj_func = self.obj_func.clone();
 
-        let join_handle = tokio::spawn(async move { obj_func.evaluate(value) });
+        let join_handle = tokio::task::spawn_blocking(move || obj_func.evaluate(value));
 
         tokio::select! {
             _ = abort_sig_recv.recv() => return Ok(None),
-- 
2.43.0

