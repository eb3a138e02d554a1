From 303706842fb0f3e4f4df770e75f2290f4e0333b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:12 +0000
Subject: [PATCH 01/11] fix: keep queued Ry intact when flushing an Rx rotation
 by an odd multiple of pi

---
 sparsesim/src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..a0ae8f3 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1040,12 +1040,10 @@ impl QuantumSim {
             };
 
         if m00.is_nearly_zero() {
-            // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // This is just a Pauli rotation. Any rotations still queued on the target come after this one, so
+            // enqueue the Pauli directly rather than going through `mcx`/`mcy`, which would commute it past them.
+            let op = if sign_flip { OpCode::Y } else { OpCode::X };
+            self.enqueue_op(target, ctls.to_vec(), op);
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From fe5a81adc57c9e32facb607abe83c2e21ab80e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:37 +0000
Subject: [PATCH 02/11] fix: reject release of a qubit id that is not allocated

---
 sparsesim/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index a0ae8f3..a4f56a1 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,11 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
-- 
2.43.0


From 19f9e4c161f91fef341bb9ebced4c2df1cfc37da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:03 +0000
Subject: [PATCH 03/11] fix: drop the array reference, not its alias count, in
 qubit_release_array

---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From 3f7fca8d824a70e4b52595731e45d9101cddced9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:06 +0000
Subject: [PATCH 04/11] fix: round to nearest even in ieeeremainder

---
 stdlib/src/math.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..e6d7912 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,7 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    x - y * (x / y).round_ties_even()
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 0b320deeb3bc61e578c8b595c104dbdaf6e03e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:08 +0000
Subject: [PATCH 05/11] fix: bind assertmeasurementprobability__ctl with its
 two parameters

---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From 89cca5dcbfec02ff7ed8aee1619f5d659cfaf1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:26 +0000
Subject: [PATCH 06/11] fix: let apply target a location freed by a released
 qubit

---
 sparsesim/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index a4f56a1..0c11415 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1247,10 +1247,12 @@ impl QuantumSim {
                     .id_map
                     .iter()
                     .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
+                    .map(|(id, _)| id);
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                // The location may be unoccupied if the qubit that used it has been released.
+                if let Some(swap_id) = swap_id {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 9bda913f924b86f0e034446114878ba4e35429c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 07/11] fix: reject a gate on an unallocated qubit instead of
 leaving it pending

---
 sparsesim/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 0c11415..01e7505 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -573,7 +573,18 @@ impl QuantumSim {
         (target, ctls)
     }
 
+    /// Verifies that the given id corresponds to an allocated qubit, so that no operation is left pending on
+    /// an id that might only be allocated later.
+    fn check_allocated(&self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+    }
+
     fn enqueue_op(&mut self, target: usize, ctls: Vec<usize>, op: OpCode) {
+        self.check_allocated(target);
+        ctls.iter().for_each(|c| self.check_allocated(*c));
         if self.op_queue.len() == QUEUE_LIMIT {
             self.flush_ops();
         }
@@ -937,6 +948,7 @@ impl QuantumSim {
 
     /// Single qubit H gate.
     pub fn h(&mut self, target: usize) {
+        self.check_allocated(target);
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // YH = -HY, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -1140,6 +1152,7 @@ impl QuantumSim {
 
     /// Single qubit Rx gate.
     pub fn rx(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
         if self.h_flag.bit(target as u64) || self.ry_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
         }
@@ -1168,6 +1181,7 @@ impl QuantumSim {
 
     /// Single qubit Ry gate.
     pub fn ry(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
         if let Some(entry) = self.ry_queue.get_mut(target) {
             *entry += theta;
             if entry.is_nearly_zero() {
-- 
2.43.0


From 1ee3f27e58be679ca6ae6a43ea749ab3ac386b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:06 +0000
Subject: [PATCH 08/11] fix: compute ieeeremainder exactly, also for infinite
 and large operands

---
 stdlib/src/math.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index e6d7912..fa8cc0e 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,16 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round_ties_even()
+    let divisor = y.abs();
+    // Reduce exactly to less than two divisors, then step to the nearest multiple, ties going to the even one.
+    let mut rem = x.abs() % (divisor + divisor);
+    if rem + rem > divisor {
+        rem -= divisor;
+        if rem + rem >= divisor {
+            rem -= divisor;
+        }
+    }
+    if x.is_sign_negative() { -rem } else { rem }
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From 8e53a45d9235909fd26376f7da87f9ff8a4d330f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:47 +0000
Subject: [PATCH 09/11] fix: bind __quantum__rt__message_record_output, which
 the runner documents as implemented

---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..0b03de0 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -579,6 +579,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__int_to_string, 1);
     bind!(__quantum__rt__memory_allocate, 1);
     bind!(__quantum__rt__message, 1);
+    bind!(__quantum__rt__message_record_output, 1);
     bind!(__quantum__rt__pauli_to_string, 1);
     bind!(__quantum__rt__qubit_allocate, 0);
     bind!(__quantum__rt__qubit_allocate_array, 1);
-- 
2.43.0


From 691142806ba7a69a510d967eac42e38069d2b482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:07 +0000
Subject: [PATCH 10/11] fix: reject output recording functions declared with a
 parameter count that no implementation has

---
 runner/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 0b03de0..d93e6f7 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -369,6 +369,13 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                if !func.get_params().is_empty() {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 0, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
+                }
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -391,10 +398,16 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     );
                     declarations.remove(stringify!($func));
                     Some(true)
-                } else {
+                } else if func.get_params().len() == 2 {
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
+                } else {
+                    return Err(format!(
+                        "Function '{}' has mismatched parameters: expected 1 or 2, found {}",
+                        stringify!($func),
+                        func.get_params().len()
+                    ));
                 }
             } else {
                 None
@@ -502,13 +515,18 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
-            } else {
+            } else if func.get_params().len() == 2 {
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
                 );
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(false)
+            } else {
+                return Err(format!(
+                    "Function '__quantum__rt__result_record_output' has mismatched parameters: expected 1 or 2, found {}",
+                    func.get_params().len()
+                ));
             }
         } else {
             None
-- 
2.43.0


From 33949783e5855f60a20f64c0eec0eb9292b9485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 11/11] fix: reject an entry point with parameters before any
 shot starts

---
 runner/src/lib.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index d93e6f7..a4e47fc 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -170,6 +170,9 @@ fn run_module(
     bind_functions(module, &execution_engine)?;
 
     let entry_point = choose_entry_point(module_functions(module), entry_point)?;
+    if entry_point.count_params() != 0 {
+        return Err("Entry point has parameters or a non-void return type.".to_owned());
+    }
     // TODO: need a cleaner way to get the attr strings for metadata
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
@@ -207,7 +210,7 @@ fn run_module(
         }
 
         __quantum__rt__initialize(null_mut());
-        unsafe { run_entry_point(&execution_engine, entry_point)? }
+        unsafe { run_entry_point(&execution_engine, entry_point) }
 
         // Write the saved output records to the output_writer
         OUTPUT.with(|output| {
@@ -241,17 +244,9 @@ fn load_file(path: impl AsRef<Path>, context: &Context) -> Result<Module<'_>, St
     }
 }
 
-unsafe fn run_entry_point(
-    execution_engine: &ExecutionEngine,
-    entry_point: FunctionValue,
-) -> Result<(), String> {
+unsafe fn run_entry_point(execution_engine: &ExecutionEngine, entry_point: FunctionValue) {
     unsafe {
-        if entry_point.count_params() == 0 {
-            execution_engine.run_function(entry_point, &[]);
-            Ok(())
-        } else {
-            Err("Entry point has parameters or a non-void return type.".to_owned())
-        }
+        execution_engine.run_function(entry_point, &[]);
     }
 }
 
-- 
2.43.0

