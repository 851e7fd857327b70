From 3fbe0d327cdea8145d6af059d5d83f73b48133f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 01/16] fix: do not let a flushed half-turn rotation disturb
 other rotations queued on the qubit

Flushing a queued Rx/Ry by an odd multiple of pi went through x()/y(), which flip
the sign of a still queued Ry (or use a pending H) as if the Pauli came after it.
---
 sparsesim/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 52cb748..6e9535b 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1041,11 +1041,10 @@ impl QuantumSim {
 
         if m00.is_nearly_zero() {
             // This is just a Pauli rotation.
-            if sign_flip {
-                self.mcy(ctls, target);
-            } else {
-                self.mcx(ctls, target);
-            }
+            // Enqueue the operation directly rather than going through `mcx`/`mcy`, which would adjust
+            // other rotations still queued on the target that are applied after this one.
+            let op = if sign_flip { OpCode::Y } else { OpCode::X };
+            self.enqueue_op(target, ctls.into(), op);
             // Rx/Ry are different from X/Y by a global phase of -i, so apply that here when indicated by m01,
             // for mathematical correctness.
             let (_, ctls) = self.resolve_and_check_qubits(target, ctls);
-- 
2.43.0


From 9ecb8aa12e416fe627d9fc491ef5e17e87782d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:26 +0000
Subject: [PATCH 02/16] fix: apply a matrix when a lower state location is
 unused

QuantumSim::apply panicked when a qubit mapped to one of the target locations had been released.
---
 sparsesim/src/lib.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 6e9535b..3d370dd 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -1239,14 +1239,13 @@ impl QuantumSim {
                     .id_map
                     .get(*target)
                     .unwrap_or_else(|| panic!("Unable to find qubit with id {target}"));
-                let swap_id = self
-                    .id_map
-                    .iter()
-                    .find(|&(_, &value)| value == target_loc)
-                    .unwrap()
-                    .0;
                 self.swap_qubit_state(loc, target_loc);
-                *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                // The location may be unused when qubits have been released.
+                if let Some((swap_id, _)) =
+                    self.id_map.iter().find(|&(_, &value)| value == target_loc)
+                {
+                    *(self.id_map.get_mut(swap_id).unwrap()) = loc;
+                }
                 *(self.id_map.get_mut(*target).unwrap()) = target_loc;
             });
 
-- 
2.43.0


From 60d7a0a1a263bff70fe59320b12daf8eb28bb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 03/16] fix: reject releasing an unallocated qubit when one
 qubit remains

QuantumSim::release silently reset the state of the remaining qubit instead of panicking as documented.
---
 sparsesim/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 3d370dd..1d0e108 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,6 +178,11 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
             // When no qubits are allocated, we can reset the sparse state to a clean ground, so
-- 
2.43.0


From e8ede2b5ed32c653bfa66591d6cc94d1edd9b755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:10 +0000
Subject: [PATCH 04/16] fix: do not store vanishing amplitudes in Pauli
 exponentials

When a basis state is not in superposition, exp pushed both terms even if a coefficient is zero,
so exp(i*pi/2*X) doubled the number of stored entries.
---
 sparsesim/src/exp.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/sparsesim/src/exp.rs b/sparsesim/src/exp.rs
index 4368bc0..0fc1342 100644
--- a/sparsesim/src/exp.rs
+++ b/sparsesim/src/exp.rs
@@ -164,16 +164,21 @@ impl QuantumSim {
                 if ctls.iter().all(|c| index.bit(*c)) {
                     let alt_index = index ^ &xy_mask;
                     if !mapped_state.contains_key(&alt_index) {
-                        self.state.push((index.clone(), value * id_coeff));
-                        self.state.push((
-                            alt_index,
-                            value
-                                * if (index & &yz_mask).count_ones() & 1 == 0 {
-                                    pauli_coeff
-                                } else {
-                                    -pauli_coeff
-                                },
-                        ));
+                        // There is no superposition, so a coefficient that vanishes leaves no entry behind.
+                        if !id_coeff.is_nearly_zero() {
+                            self.state.push((index.clone(), value * id_coeff));
+                        }
+                        if !pauli_coeff.is_nearly_zero() {
+                            self.state.push((
+                                alt_index,
+                                value
+                                    * if (index & &yz_mask).count_ones() & 1 == 0 {
+                                        pauli_coeff
+                                    } else {
+                                        -pauli_coeff
+                                    },
+                            ));
+                        }
                     } else if index < &alt_index {
                         let parity = (index & &yz_mask).count_ones() & 1 != 0;
                         let alt_value = mapped_state[&alt_index] as Complex64;
-- 
2.43.0


From 1a66b7fe4cd080a6f4e6e479276be9598ab8c815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 05/16] fix: reject H, Rx and Ry on a qubit that is not
 allocated

These are queued per qubit, so on an unallocated identifier they were neither rejected nor resolved,
and took effect on whichever qubit was later allocated with that identifier.
---
 sparsesim/src/lib.rs | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index 1d0e108..c44e71b 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -178,10 +178,7 @@ impl QuantumSim {
     ///
     /// The function will panic if the given id does not correpsond to an allocated qubit.
     pub fn release(&mut self, id: usize) {
-        assert!(
-            self.id_map.contains_key(id),
-            "Unable to find qubit with id {id}"
-        );
+        self.check_allocated(id);
 
         if self.id_map.iter().count() == 1 {
             // This is a release of the last qubit.
@@ -546,6 +543,15 @@ impl QuantumSim {
         }
     }
 
+    /// Verifies that the given id corresponds to an allocated qubit. Needed by operations that are queued per
+    /// qubit, since the queue of an unallocated qubit would otherwise never be resolved.
+    fn check_allocated(&self, id: usize) {
+        assert!(
+            self.id_map.contains_key(id),
+            "Unable to find qubit with id {id}"
+        );
+    }
+
     /// Verifies that the given target and list of controls does not contain any duplicate entries, and returns
     /// those values mapped to internal identifiers and converted to `u64`.
     fn resolve_and_check_qubits(&self, target: usize, ctls: &[usize]) -> (u64, Vec<u64>) {
@@ -936,7 +942,11 @@ impl QuantumSim {
     }
 
     /// Single qubit H gate.
+    /// # Panics
+    ///
+    /// This function will panic if the given identifier does not correspond to an allocated qubit.
     pub fn h(&mut self, target: usize) {
+        self.check_allocated(target);
         if let Some(entry) = self.ry_queue.get_mut(target) {
             // YH = -HY, so flip the sign on any queued Ry rotations.
             *entry *= -1.0;
@@ -1140,7 +1150,11 @@ impl QuantumSim {
     }
 
     /// Single qubit Rx gate.
+    /// # Panics
+    ///
+    /// This function will panic if the given identifier does not correspond to an allocated qubit.
     pub fn rx(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
         if self.h_flag.bit(target as u64) || self.ry_queue.contains_key(target) {
             self.flush_queue(&[target], FlushLevel::HRxRy);
         }
@@ -1168,7 +1182,11 @@ impl QuantumSim {
     }
 
     /// Single qubit Ry gate.
+    /// # Panics
+    ///
+    /// This function will panic if the given identifier does not correspond to an allocated qubit.
     pub fn ry(&mut self, theta: f64, target: usize) {
+        self.check_allocated(target);
         if let Some(entry) = self.ry_queue.get_mut(target) {
             *entry += theta;
             if entry.is_nearly_zero() {
-- 
2.43.0


From d60ec455d4ce2e9a31889ca17a6287b3c865cc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:03 +0000
Subject: [PATCH 06/16] fix: slice arrays by element index so extreme ranges
 cannot overflow

---
 stdlib/src/range_support.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/stdlib/src/range_support.rs b/stdlib/src/range_support.rs
index 77ffea7..4ed3342 100644
--- a/stdlib/src/range_support.rs
+++ b/stdlib/src/range_support.rs
@@ -30,30 +30,32 @@ pub unsafe extern "C" fn quantum__rt__array_slice_1d(
     range: Range,
 ) -> *const QirArray {
     let array = unsafe { &*arr };
-    let item_size: i64 = array
-        .elem_size
-        .try_into()
-        .expect("Array element size too large for `usize` type on this platform.");
     let mut slice = QirArray {
         elem_size: array.elem_size,
         data: Vec::new(),
     };
-    let iter: Box<dyn Iterator<Item = i64>> = if range.step > 0 {
-        Box::new(range.start * item_size..=range.end * item_size)
-    } else {
-        Box::new((range.end * item_size..=range.start * item_size).rev())
-    };
+    assert!(range.step != 0, "Range step must not be zero.");
 
-    let step: i64 = range.step.abs();
-    for i in iter.step_by((step * item_size).try_into().expect(
-        "Range step multiplied by item size is too large for `usize` type on this platform",
-    )) {
-        let index = i
+    // Step through element indices rather than byte offsets so that ranges with extreme bounds or
+    // steps cannot overflow.
+    let mut next = Some(range.start);
+    while let Some(i) = next.filter(|i| {
+        if range.step > 0 {
+            *i <= range.end
+        } else {
+            *i >= range.end
+        }
+    }) {
+        let index: usize = i
             .try_into()
             .expect("Item index too large for `usize` type on this platform.");
-        let mut copy = vec![0; array.elem_size];
-        copy.copy_from_slice(&array.data[index..index + array.elem_size]);
-        slice.data.append(&mut copy);
+        let offset = index
+            .checked_mul(array.elem_size)
+            .expect("Item offset too large for `usize` type on this platform.");
+        slice
+            .data
+            .extend_from_slice(&array.data[offset..offset + array.elem_size]);
+        next = i.checked_add(range.step);
     }
 
     Rc::into_raw(Rc::new(slice))
-- 
2.43.0


From 51643700a45297bc7036562c622e45bb410a4ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 07/16] fix: reject array and tuple sizes that overflow

---
 stdlib/src/arrays.rs | 7 +++++--
 stdlib/src/tuples.rs | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/stdlib/src/arrays.rs b/stdlib/src/arrays.rs
index edc4953..4f342ef 100644
--- a/stdlib/src/arrays.rs
+++ b/stdlib/src/arrays.rs
@@ -21,13 +21,16 @@ pub struct QirArray {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__rt__array_create_1d(elem_size: u32, count: u64) -> *const QirArray {
-    let elem_size = elem_size
+    let elem_size: usize = elem_size
         .try_into()
         .expect("The `elem_size` argument should fit in the `usize` type for this platform.");
     let count: usize = count
         .try_into()
         .expect("The `count` argument should fit in the `usize` type for this platform.");
-    let data = vec![0_u8; elem_size * count];
+    let size = elem_size
+        .checked_mul(count)
+        .expect("The size of the array should fit in the `usize` type for this platform.");
+    let data = vec![0_u8; size];
     Rc::into_raw(Rc::new(QirArray { elem_size, data }))
 }
 
diff --git a/stdlib/src/tuples.rs b/stdlib/src/tuples.rs
index 9f5a48f..3765972 100644
--- a/stdlib/src/tuples.rs
+++ b/stdlib/src/tuples.rs
@@ -13,8 +13,9 @@ pub extern "C" fn __quantum__rt__tuple_create(size: u64) -> *mut *const Vec<u8>
     let mut mem = vec![
         0_u8;
         <usize as std::convert::TryFrom<u64>>::try_from(size)
+            .ok()
+            .and_then(|size| size.checked_add(size_of::<*const Vec<u8>>()))
             .expect("Tuple size too large for `usize` type on this platform.")
-            + size_of::<*const Vec<u8>>()
     ];
 
     unsafe {
-- 
2.43.0


From 57795aaf9a0af148755f2e9875c57f0fb3ac8a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 08/16] fix: give up the reference to a released qubit array
 instead of an alias

---
 backend/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/backend/src/lib.rs b/backend/src/lib.rs
index 4893ee9..a97e4c2 100644
--- a/backend/src/lib.rs
+++ b/backend/src/lib.rs
@@ -978,7 +978,7 @@ pub unsafe extern "C" fn __quantum__rt__qubit_release_array(arr: *const QirArray
             let elem = __quantum__rt__array_get_element_ptr_1d(arr, index).cast::<*mut c_void>();
             __quantum__rt__qubit_release(*elem);
         }
-        __quantum__rt__array_update_alias_count(arr, -1);
+        __quantum__rt__array_update_reference_count(arr, -1);
     }
 }
 
-- 
2.43.0


From 5510b743b2cff9f3e2ab3659b111abbed1ba5809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:46 +0000
Subject: [PATCH 09/16] fix: reject Pauli exponentials whose Pauli and target
 lists differ in size

---
 sparsesim/src/exp.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sparsesim/src/exp.rs b/sparsesim/src/exp.rs
index 0fc1342..a267b0c 100644
--- a/sparsesim/src/exp.rs
+++ b/sparsesim/src/exp.rs
@@ -29,9 +29,15 @@ impl QuantumSim {
 
     /// Multi-controlled Exp multi-qubit rotation gate.
     /// # Panics
-    /// Panics if any of the qubit ids in `ctls` or `targets` are not allocated.
+    /// Panics if any of the qubit ids in `ctls` or `targets` are not allocated, or if `paulis` and `targets`
+    /// are not of the same size.
     #[allow(clippy::too_many_lines)]
     pub fn mcexp(&mut self, ctls: &[usize], paulis: &[Pauli], theta: f64, targets: &[usize]) {
+        assert!(
+            paulis.len() == targets.len(),
+            "Pauli list and target list must be the same size."
+        );
+
         self.flush_queue(ctls, FlushLevel::HRxRy);
         self.flush_queue(targets, FlushLevel::HRxRy);
 
-- 
2.43.0


From d010b3fd049e076f55442299215cea78dc741d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 10/16] fix: compute the IEEE remainder exactly, with ties to
 the even quotient

---
 stdlib/src/math.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index 8338321..ad4bbbc 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -103,7 +103,16 @@ pub extern "C" fn __quantum__qis__log__body(val: c_double) -> c_double {
 
 #[unsafe(no_mangle)]
 pub extern "C" fn __quantum__qis__ieeeremainder__body(x: c_double, y: c_double) -> c_double {
-    x - y * (x / y).round()
+    // The remainder of a truncating division is exact and has the sign of `x`. It differs from the IEEE remainder
+    // only when the nearest integer to `x / y` is one further from zero, with ties going to the even integer.
+    let rem = x % y;
+    let to_next = y.abs() - rem.abs();
+    let is_odd = || (x % (2.0 * y)).abs() >= y.abs();
+    if rem.abs() >= to_next && (rem.abs() > to_next || is_odd()) {
+        to_next.copysign(-x)
+    } else {
+        rem
+    }
 }
 
 #[unsafe(no_mangle)]
-- 
2.43.0


From c30b0cb65bb7f06845ae7724f48ec85bfe932d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 11/16] fix: draw doubles from ranges wider than the largest
 double

---
 stdlib/src/math.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stdlib/src/math.rs b/stdlib/src/math.rs
index ad4bbbc..e6cc645 100644
--- a/stdlib/src/math.rs
+++ b/stdlib/src/math.rs
@@ -132,5 +132,10 @@ pub extern "C" fn __quantum__qis__drawrandomdouble__body(min: c_double, max: c_d
             __quantum__rt__fail(convert(&"Invalid Argument: minimum > maximum".to_string()));
         }
     }
-    rand::rng().random_range(min..=max)
+    if (max - min).is_finite() {
+        rand::rng().random_range(min..=max)
+    } else {
+        // The width of the range is too large for a double, so draw from the range of half the size.
+        rand::rng().random_range(min / 2.0..=max / 2.0) * 2.0
+    }
 }
-- 
2.43.0


From 7f57029eeb38bdb735bcf7ddfbdd5bd019f8a149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 12/16] fix: bind the controlled measurement assertion with its
 two parameters

__quantum__qis__assertmeasurementprobability__ctl takes the control array and the argument tuple,
so every program that uses it was rejected with a parameter count mismatch.
---
 runner/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 2b7f249..a30fddd 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -414,7 +414,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__qis__arctan__body, 1);
     bind!(__quantum__qis__arctan2__body, 2);
     bind!(__quantum__qis__assertmeasurementprobability__body, 6);
-    bind!(__quantum__qis__assertmeasurementprobability__ctl, 6);
+    bind!(__quantum__qis__assertmeasurementprobability__ctl, 2);
     bind!(__quantum__qis__barrier__body, 0);
     bind!(__quantum__qis__ccx__body, 3);
     bind!(__quantum__qis__cnot__body, 2);
-- 
2.43.0


From d8c67d90788f37e661ba2d84164a04ff95131322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 13/16] fix: bind __quantum__rt__message_record_output

The function is documented as implemented but programs using it failed to link.
---
 runner/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index a30fddd..0b03de0 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -579,6 +579,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     bind!(__quantum__rt__int_to_string, 1);
     bind!(__quantum__rt__memory_allocate, 1);
     bind!(__quantum__rt__message, 1);
+    bind!(__quantum__rt__message_record_output, 1);
     bind!(__quantum__rt__pauli_to_string, 1);
     bind!(__quantum__rt__qubit_allocate, 0);
     bind!(__quantum__rt__qubit_allocate_array, 1);
-- 
2.43.0


From 8204f7e727df747e55e380cc7e2bf46d6bc82f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:35 +0000
Subject: [PATCH 14/16] fix: check the parameter counts of output recording
 functions

The unlabeled and labeled variants are told apart by their parameter count, but any count other than
one was taken for the labeled variant, so a module declaring one of them with none or with more than
two parameters was run with an undefined label.
---
 runner/src/lib.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 0b03de0..83d2371 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -349,17 +349,23 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
         );
     }
 
+    macro_rules! check_params {
+        ($func:ident, $name:expr, $param_count:expr) => {
+            if $func.get_params().len() != $param_count {
+                return Err(format!(
+                    "Function '{}' has mismatched parameters: expected {}, found {}",
+                    $name,
+                    $param_count,
+                    $func.get_params().len()
+                ));
+            }
+        };
+    }
+
     macro_rules! bind {
         ($func:ident, $param_count:expr) => {
             if let Some(func) = declarations.get(stringify!($func)) {
-                if func.get_params().len() != $param_count {
-                    return Err(format!(
-                        "Function '{}' has mismatched parameters: expected {}, found {}",
-                        stringify!($func),
-                        $param_count,
-                        func.get_params().len()
-                    ));
-                }
+                check_params!(func, stringify!($func), $param_count);
                 execution_engine.add_global_mapping(func, $func as *const () as usize);
                 declarations.remove(stringify!($func));
             }
@@ -369,6 +375,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
     macro_rules! legacy_output {
         ($func:ident) => {
             if let Some(func) = declarations.get(stringify!($func)) {
+                check_params!(func, stringify!($func), 0);
                 execution_engine.add_global_mapping(
                     func,
                     qir_backend::output_recording::legacy::$func as *const () as usize,
@@ -392,6 +399,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                     declarations.remove(stringify!($func));
                     Some(true)
                 } else {
+                    check_params!(func, stringify!($func), 2);
                     execution_engine.add_global_mapping(func, $func as *const () as usize);
                     declarations.remove(stringify!($func));
                     Some(false)
@@ -503,6 +511,7 @@ fn bind_functions(module: &Module, execution_engine: &ExecutionEngine) -> Result
                 declarations.remove("__quantum__rt__result_record_output");
                 Some(true)
             } else {
+                check_params!(func, "__quantum__rt__result_record_output", 2);
                 execution_engine.add_global_mapping(
                     func,
                     __quantum__rt__result_record_output as *const () as usize,
-- 
2.43.0


From bc726210d0fe1891af2f61e1acc9a6a6e77245fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 15/16] fix: reject an entry point with parameters before
 starting a shot

The check ran inside the shot loop, after the start and metadata records of the first shot had been
written, and not at all when no shots were requested.
---
 runner/src/lib.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/runner/src/lib.rs b/runner/src/lib.rs
index 83d2371..e3b3d4c 100644
--- a/runner/src/lib.rs
+++ b/runner/src/lib.rs
@@ -170,6 +170,10 @@ fn run_module(
     bind_functions(module, &execution_engine)?;
 
     let entry_point = choose_entry_point(module_functions(module), entry_point)?;
+    if entry_point.count_params() != 0 {
+        return Err("Entry point has parameters or a non-void return type.".to_owned());
+    }
+
     // TODO: need a cleaner way to get the attr strings for metadata
     let attrs: Vec<(String, String)> = entry_point
         .attributes(AttributeLoc::Function)
@@ -207,7 +211,9 @@ fn run_module(
         }
 
         __quantum__rt__initialize(null_mut());
-        unsafe { run_entry_point(&execution_engine, entry_point)? }
+        unsafe {
+            execution_engine.run_function(entry_point, &[]);
+        }
 
         // Write the saved output records to the output_writer
         OUTPUT.with(|output| {
@@ -241,20 +247,6 @@ fn load_file(path: impl AsRef<Path>, context: &Context) -> Result<Module<'_>, St
     }
 }
 
-unsafe fn run_entry_point(
-    execution_engine: &ExecutionEngine,
-    entry_point: FunctionValue,
-) -> Result<(), String> {
-    unsafe {
-        if entry_point.count_params() == 0 {
-            execution_engine.run_function(entry_point, &[]);
-            Ok(())
-        } else {
-            Err("Entry point has parameters or a non-void return type.".to_owned())
-        }
-    }
-}
-
 fn choose_entry_point<'ctx>(
     functions: impl Iterator<Item = FunctionValue<'ctx>>,
     name: Option<&str>,
-- 
2.43.0


From 81a131b62afbf1f548b7cbe6af207327d9dbefd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:19 +0000
Subject: [PATCH 16/16] fix: verify the qubits of an operation when it is
 requested

Queued operations were only checked once the queue was applied, so one that named an unallocated qubit went
unnoticed if its identifier was allocated in the meantime, or the queue was discarded by the last release.
---
 sparsesim/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sparsesim/src/lib.rs b/sparsesim/src/lib.rs
index c44e71b..eb3205f 100644
--- a/sparsesim/src/lib.rs
+++ b/sparsesim/src/lib.rs
@@ -580,6 +580,10 @@ impl QuantumSim {
     }
 
     fn enqueue_op(&mut self, target: usize, ctls: Vec<usize>, op: OpCode) {
+        // Verify the qubits now, since an invalid operation might go unnoticed if allocation or release
+        // changes which identifiers are in use before the queue is applied.
+        let _ = self.resolve_and_check_qubits(target, &ctls);
+
         if self.op_queue.len() == QUEUE_LIMIT {
             self.flush_ops();
         }
-- 
2.43.0

