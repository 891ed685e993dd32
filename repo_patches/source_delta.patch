From b471182776be885fd3fadd74ab1d3119e5fcf8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 1/4] fix: never pass an empty chunk size from the serial
 Worker::scope

---
 src/multicore.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index acd2cd6..8fcc041 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -168,7 +168,8 @@ mod implementation {
         where
             F: FnOnce(&DummyScope, usize) -> R,
         {
-            f(&DummyScope, elements)
+            // As in the parallel implementation, a chunk is never empty.
+            f(&DummyScope, elements.max(1))
         }
     }
 
-- 
2.43.0


From d1517c3fc9b97b71f9d7e56286fb4b478145f3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 2/4] fix: do not abort the process when a Waiter is dropped
 before its task ends

---
 src/multicore.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/multicore.rs b/src/multicore.rs
index 8fcc041..b3127cd 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -61,13 +61,15 @@ mod implementation {
                         current_num_threads(),
                         WORKER_SPAWN_COUNTER.load(Ordering::SeqCst));
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The waiter may have been dropped; nobody needs the result then.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             } else {
                 rayon::spawn(move || {
                     let res = f();
-                    sender.send(res).unwrap();
+                    // The waiter may have been dropped; nobody needs the result then.
+                    let _ = sender.send(res);
                     WORKER_SPAWN_COUNTER.fetch_sub(1, Ordering::SeqCst);
                 });
             }
-- 
2.43.0


From 1b7b2eb4a6ae794c47d20b3e666ebda193b772b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:08 +0000
Subject: [PATCH 3/4] fix: count a variable as dense only if its total
 coefficient is non-zero

---
 groth16/src/prover.rs | 50 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/groth16/src/prover.rs b/groth16/src/prover.rs
index c61c2a0..aa37429 100644
--- a/groth16/src/prover.rs
+++ b/groth16/src/prover.rs
@@ -30,18 +30,8 @@ fn eval<S: PrimeField>(
 
         if !coeff.is_zero_vartime() {
             match index.get_unchecked() {
-                Index::Input(i) => {
-                    tmp = input_assignment[i];
-                    if let Some(ref mut v) = input_density {
-                        v.inc(i);
-                    }
-                }
-                Index::Aux(i) => {
-                    tmp = aux_assignment[i];
-                    if let Some(ref mut v) = aux_density {
-                        v.inc(i);
-                    }
-                }
+                Index::Input(i) => tmp = input_assignment[i],
+                Index::Aux(i) => tmp = aux_assignment[i],
             }
 
             if coeff != S::ONE {
@@ -51,6 +41,42 @@ fn eval<S: PrimeField>(
         }
     }
 
+    if input_density.is_some() || aux_density.is_some() {
+        // A variable can appear several times in a linear combination, and its
+        // coefficients can cancel. The parameters have no element for it then,
+        // so it is its total coefficient that decides whether it is dense.
+        let mut terms: Vec<_> = lc
+            .as_ref()
+            .iter()
+            .map(|&(index, coeff)| match index.get_unchecked() {
+                Index::Input(i) => ((true, i), coeff),
+                Index::Aux(i) => ((false, i), coeff),
+            })
+            .collect();
+        terms.sort_unstable_by_key(|&(key, _)| key);
+
+        let mut terms = terms.into_iter().peekable();
+        while let Some(((is_input, i), mut total)) = terms.next() {
+            while let Some(&(key, coeff)) = terms.peek() {
+                if key != (is_input, i) {
+                    break;
+                }
+                total += coeff;
+                terms.next();
+            }
+
+            if !total.is_zero_vartime() {
+                if is_input {
+                    if let Some(ref mut v) = input_density {
+                        v.inc(i);
+                    }
+                } else if let Some(ref mut v) = aux_density {
+                    v.inc(i);
+                }
+            }
+        }
+    }
+
     acc
 }
 
-- 
2.43.0


From 275e3d8f498fc2ee67402245279741afc0671e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 4/4] hook: let a model checker intercept the spawn counter
 (cfg bellman_mc)

---
 src/multicore.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/multicore.rs b/src/multicore.rs
index b3127cd..e55c677 100644
--- a/src/multicore.rs
+++ b/src/multicore.rs
@@ -4,6 +4,11 @@
 
 #[cfg(feature = "multicore")]
 mod implementation {
+    // With `--cfg bellman_mc` (never set by cargo), accesses to the counter are
+    // scheduling points of the model checker that replaces the crates below.
+    #[cfg(bellman_mc)]
+    use crossbeam_channel::mc_atomic::{AtomicUsize, Ordering};
+    #[cfg(not(bellman_mc))]
     use std::sync::atomic::{AtomicUsize, Ordering};
 
     use crossbeam_channel::{bounded, Receiver};
-- 
2.43.0

