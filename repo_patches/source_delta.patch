From cd6e813e474bc869a93b0fe7070d642c287bb46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:55 +0000
Subject: [PATCH 01/16] Re-export crate-private items for verification under
 cfg(cambrian_verif)

---
 src/lib.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 930abaf..0861a9d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)]
+
 pub(crate) mod algorithm;
 pub mod async_launch;
 pub(crate) mod common_util;
@@ -23,3 +25,13 @@ pub(crate) mod testutil;
 pub(crate) mod types;
 pub mod value;
 pub mod value_util;
+
+/// Crate-private items used by the verification harness (only with `--cfg cambrian_verif`).
+#[cfg(cambrian_verif)]
+pub mod verif_hooks {
+    pub use crate::algorithm::{AlgoContext, IndContext};
+    pub use crate::detailed_report::DetailedReportItem;
+    pub use crate::meta_adapt::{create_exploratory, mutate as mutate_meta_params};
+    pub use crate::path::PathContext;
+    pub use crate::selection::{Selection, SelectionImpl};
+}
-- 
2.43.0


From 5ee320fee7946a52313ce2f2628edd5bc7d55aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 02/16] fix: stop polling the abort signal once it has been
 received

---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From 5dfc87933f606015b8cf1d957cba0529e7c583dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:53 +0000
Subject: [PATCH 03/16] fix: do not abandon evaluations that were told to abort
 when the target is reached while draining

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..c81e68f 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -101,7 +101,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if best_seen_final.0.get() <= target_obj_func_val && !abort_signal_received {
                                 break;
                             }
                         }
-- 
2.43.0


From 3ae1a728586c126d56b04d1b91baff4e91d024ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 04/16] fix: start no evaluation once a terminate command has
 been delivered

---
 src/async_launch.rs |  1 +
 src/controller.rs   | 15 +++++++++------
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index b419f72..d1dbf12 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -39,6 +39,7 @@ pub async fn launch<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
             cmd = cmd_recv.next() => {
                 if let Some(Command::Terminate) = cmd {
                     abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
diff --git a/src/controller.rs b/src/controller.rs
index c81e68f..38a2fae 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -50,10 +50,12 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
     );
 
     let mut evaled_individuals = FuturesUnordered::new();
-    let mut abort_signal_received = false;
+    let mut abort_signal_received = matches!(in_abort_signal_recv.try_recv(), Ok(Some(())));
     let mut pushed_for_eval_count = 0;
 
-    let initial_num_individuals = if let Some(max_num_eval) = max_num_eval {
+    let initial_num_individuals = if abort_signal_received {
+        0
+    } else if let Some(max_num_eval) = max_num_eval {
         algo_config.num_concurrent.min(max_num_eval)
     } else {
         algo_config.num_concurrent
@@ -74,6 +76,11 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
+            }
             evaled_individual = &mut evaled_individuals.try_next() => {
                 match evaled_individual {
 
@@ -131,10 +138,6 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
-                abort_signal_received = true;
-                abort_signal_sender.broadcast(()).await.unwrap();
-            }
         }
     }
 
-- 
2.43.0


From c23990915403506c2989af76123c4300ded4135f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 05/16] fix: keep a mutated number finite (huge scale times
 mutation scale overflowed)

---
 src/mutation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..f4b14dd 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -396,10 +396,9 @@ fn mutate_cauchy(
         scale * mutation_params.mutation_scale,
     );
 
-    if let Ok(dist) = dist {
-        dist.sample(rng)
-    } else {
-        value
+    match dist.map(|dist| dist.sample(rng)) {
+        Ok(sample) if sample.is_finite() => sample,
+        _ => value,
     }
 }
 
-- 
2.43.0


From d0c573532c25a57dffea79efdf0454f012688a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:23 +0000
Subject: [PATCH 06/16] fix: keep the adapted mutation scale positive and
 finite

---
 src/meta_adapt.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..3b6aeab 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -5,6 +5,8 @@ use rand_distr::{Cauchy, Distribution};
 const META_PARAMS_MUTATION_EXPONENT_SCALE: f64 = 0.1;
 const META_PARAMS_MUTATION_RESCALE_FLOOR: f64 = 1e-12;
 const META_PARAMS_MUTATION_RESCALE_CEIL: f64 = 1e12;
+const META_PARAMS_MUTATION_SCALE_MIN: f64 = 1e-300;
+const META_PARAMS_MUTATION_SCALE_MAX: f64 = 1e300;
 
 fn rescale(value: f64, rng: &mut StdRng) -> f64 {
     let exponent: f64 = Cauchy::new(0.0, META_PARAMS_MUTATION_EXPONENT_SCALE)
@@ -17,6 +19,13 @@ fn rescale(value: f64, rng: &mut StdRng) -> f64 {
         * factor.clamp(META_PARAMS_MUTATION_RESCALE_FLOOR, META_PARAMS_MUTATION_RESCALE_CEIL)
 }
 
+fn rescale_scale(scale: f64, rng: &mut StdRng) -> f64 {
+    rescale(scale, rng).clamp(
+        META_PARAMS_MUTATION_SCALE_MIN,
+        META_PARAMS_MUTATION_SCALE_MAX,
+    )
+}
+
 fn rescale_prob(prob: f64, rng: &mut StdRng) -> f64 {
     rescale(prob, rng).min(1.0)
 }
@@ -47,7 +56,7 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale_scale(mutation_params.mutation_scale, rng),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From d9084177dfe65644aed7b86a2f0500df635cd6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 07/16] fix: an element added to a map never overwrites an
 existing one

---
 src/mutation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index f4b14dd..94d9ef4 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,12 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            // keys of maps that came into being during a mutation are unknown to the key manager
+            let mut key = path_node_ctx.next_key();
+            while value_map.contains_key(&key) {
+                key = path_node_ctx.next_key();
+            }
+
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
-- 
2.43.0


From 79fd78b1f4c7410069ac7caf38742e111542a3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:21 +0000
Subject: [PATCH 08/16] fix: do not overflow the key counter on the largest map
 key

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 77b7e67..dba2014 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.wrapping_add(1));
     }
 }
 
-- 
2.43.0


From 161c4803ffaa4f9387d2cb11520b05fb51fd6f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:42 +0000
Subject: [PATCH 09/16] fix: reject an initial guess whose array has the wrong
 length

---
 src/error.rs      |  6 ++++++
 src/value_util.rs | 14 +++++++++++++-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index e3c3850..c60c859 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -95,6 +95,12 @@ pub enum Error {
     InitNotAKnownValue { path_hint: String, init: String },
     #[error("at path {path_hint:?}: value not within bounds")]
     ValueNotWithinBounds { path_hint: String },
+    #[error("at path {path_hint:?}: expected {expected} array elements, found {found}")]
+    WrongArrayLength {
+        path_hint: String,
+        expected: usize,
+        found: usize,
+    },
     #[error("at path {path_hint:?}: exactly one variant value must be present, found {}", .num_variant_values_found)]
     ExactlyOneVariantValueRequired {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..b2de11f 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,7 +25,10 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
         spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
         spec::Node::Variant {
             map: ref spec_map, ..
@@ -165,10 +168,19 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongArrayLength {
+                    path_hint: format_path(path),
+                    expected: size,
+                    found: json_values.len(),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
-- 
2.43.0


From 5544909e525ba2c28fb19f606e0af03d3eca4b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:02 +0000
Subject: [PATCH 10/16] fix: reject an initial guess whose map size is outside
 the bounds

---
 src/error.rs      |  2 ++
 src/value_util.rs | 31 ++++++++++++++++++++++++++++---
 2 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index c60c859..a056236 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -95,6 +95,8 @@ pub enum Error {
     InitNotAKnownValue { path_hint: String, init: String },
     #[error("at path {path_hint:?}: value not within bounds")]
     ValueNotWithinBounds { path_hint: String },
+    #[error("at path {path_hint:?}: number of map elements not within bounds provided: {size}")]
+    SizeNotWithinBounds { path_hint: String, size: usize },
     #[error("at path {path_hint:?}: expected {expected} array elements, found {found}")]
     WrongArrayLength {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index b2de11f..518f623 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -29,7 +29,12 @@ fn build_node(
             ref value_type,
             size,
         } => build_array(json_val, value_type, size, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -202,8 +207,28 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
+    let mapping = build_anon_map_elements(json_val, spec_node, path)?;
+    let size = mapping.len();
+
+    if min_size.is_some_and(|min| size < min) || max_size.is_some_and(|max| size > max) {
+        return Err(Error::SizeNotWithinBounds {
+            path_hint: format_path(path),
+            size,
+        });
+    }
+
+    Ok(Node::AnonMap(mapping))
+}
+
+fn build_anon_map_elements(
+    json_val: &serde_json::Value,
+    spec_node: &spec::Node,
+    path: &[&str],
+) -> Result<HashMap<usize, Box<Node>>, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
@@ -215,7 +240,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            Ok(result_mapping)
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -236,7 +261,7 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            Ok(result_mapping)
         }
         _ => Err(Error::WrongTypeForValue {
             path_hint: format_path(path),
-- 
2.43.0


From 11766cef9b5791bc95085ab8fc3047369bc91bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 11/16] fix: keep sub members whose name starts with typeDef
 but is no type definition

---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..ef59cc1 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From e0d032048fd822210c77efdc3fe4e3aad94c96e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 12/16] fix: reject an enum whose values are all the same

---
 src/error.rs     | 2 +-
 src/spec_util.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index a056236..7319a38 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -62,7 +62,7 @@ pub enum Error {
     EmptySub { path_hint: String },
     #[error("at path {path_hint:?}: variant must have at least two variant values")]
     NotEnoughVariantValues { path_hint: String },
-    #[error("at path {path_hint:?}: enum must have at least two enum values")]
+    #[error("at path {path_hint:?}: enum must have at least two distinct enum values")]
     NotEnoughEnumValues { path_hint: String },
     #[error("at path {path_hint:?}: missing mandatory value")]
     MandatoryValueMissing { path_hint: String },
diff --git a/src/spec_util.rs b/src/spec_util.rs
index ef59cc1..766b014 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().all_equal() {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From dd5aecda6d68f1c19c7d6a334e65a7e896e02b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 13/16] fix: do not panic when a child writes non-UTF-8 to
 stderr and logging is on

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 30e4b4887ea066e68da77d849da0fd2d7efc6060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:27 +0000
Subject: [PATCH 14/16] fix: a JSON array printed by a child is no result

---
 src/process.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..2c4771e 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -56,6 +56,15 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+fn parse_child_result(stdout: &[u8]) -> Option<ObjFuncChildResult> {
+    // A derived Deserialize impl also accepts an array holding the fields in order
+    if !stdout.trim_ascii_start().starts_with(b"{") {
+        return None;
+    }
+
+    serde_json::from_slice(stdout).ok()
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -73,7 +82,7 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
+        let result = parse_child_result(&output.stdout).ok_or_else(|| {
             Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
                 obj_func_arg.to_owned(),
                 seed,
-- 
2.43.0


From 0224250f365389df57b54b226c92a063d0bd47f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:48 +0000
Subject: [PATCH 15/16] fix: leave no process of an evaluation behind, however
 the evaluation ends

The process group was killed on timeout and abort only: dropping the evaluation
(target reached or failure with siblings in flight) orphaned the child, and
descendants of a child that completed normally lived on. A child that closes
its output early is waited for by a blocking task that may reap it first, so
ECHILD is no failure to reap.
---
 src/process.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 2c4771e..86628f2 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -3,7 +3,7 @@ use crate::{error::Error, meta::AsyncObjectiveFunction};
 use async_trait::async_trait;
 use command_group::{AsyncCommandGroup, AsyncGroupChild};
 use futures::future::Either;
-use log::{info, trace};
+use log::{info, trace, warn};
 use nix::errno::Errno;
 use nix::sys::signal::{self, Signal};
 use nix::sys::wait;
@@ -34,13 +34,24 @@ impl ObjFuncProcessDef {
     }
 }
 
+/// The process group of a child; killed when the evaluation ends, if only by being dropped.
+struct ChildProcGroup(Option<Pid>);
+
+impl Drop for ChildProcGroup {
+    fn drop(&mut self) {
+        if let Err(err) = kill_and_reap_child_proc_group(self.0.take()) {
+            warn!("{}", err);
+        }
+    }
+}
+
 fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Error> {
     if let Some(pgid) = unreaped_pgid {
         match signal::killpg(pgid, Signal::SIGKILL) {
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
@@ -123,6 +134,7 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let mut child_proc_group = ChildProcGroup(unreaped_pgid);
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
@@ -142,11 +154,11 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
                 return result
             }
             _ = &mut timeout_fut => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                kill_and_reap_child_proc_group(child_proc_group.0.take())?;
                 return Ok(None)
             }
             _ = abort_sig_future => {
-                kill_and_reap_child_proc_group(unreaped_pgid)?;
+                kill_and_reap_child_proc_group(child_proc_group.0.take())?;
                 return Ok(None)
             }
         }
-- 
2.43.0


From 990ae723a0eacb15cca60e95fc095366fa3106d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:50 +0000
Subject: [PATCH 16/16] fix: finish writing the reporting files before going on

tokio files write in the background: the write of one best-seen value could
land after the file had been created anew for the next, leaving a mixture.
---
 src/sync_launch.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..bf23d8d 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -74,6 +74,8 @@ async fn write_best_seen_file(
         .write_all(value.to_string().as_bytes())
         .await?;
 
+    best_seen_file.flush().await?;
+
     Ok(())
 }
 
@@ -114,6 +116,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0

