From a62bc1fcbc755882b679afca128ddcc7ed03e67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:20 +0000
Subject: [PATCH 01/34] fix: comparing a lazy cache or state table no longer
 holds both sides' locks (a == a deadlocked)

---
 rustfst/src/algorithms/determinize/state_table.rs  | 14 +++++++++++++-
 .../algorithms/lazy/cache/simple_hash_map_cache.rs |  6 ++++--
 .../src/algorithms/lazy/cache/simple_vec_cache.rs  |  6 ++++--
 rustfst/src/algorithms/lazy/state_table.rs         |  4 +++-
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/state_table.rs b/rustfst/src/algorithms/determinize/state_table.rs
index f972472..c15073b 100644
--- a/rustfst/src/algorithms/determinize/state_table.rs
+++ b/rustfst/src/algorithms/determinize/state_table.rs
@@ -47,7 +47,19 @@ impl<W: Semiring, B: Borrow<[W]> + fmt::Debug> fmt::Debug for DeterminizeStateTa
 
 impl<W: Semiring, B: Borrow<[W]> + PartialEq> PartialEq for DeterminizeStateTable<W, B> {
     fn eq(&self, other: &Self) -> bool {
-        self.0.lock().unwrap().eq(&*other.0.lock().unwrap())
+        // Never hold both locks: `a == a` would deadlock, and so would `a == b` against `b == a`.
+        let (table, in_dist, out_dist) = {
+            let other = other.0.lock().unwrap();
+            (
+                other.table.clone(),
+                other.in_dist.as_ref().map(|d| d.borrow().to_vec()),
+                other.out_dist.clone(),
+            )
+        };
+        let inner = self.0.lock().unwrap();
+        inner.table == table
+            && inner.in_dist.as_ref().map(|d| d.borrow()) == in_dist.as_deref()
+            && inner.out_dist == out_dist
     }
 }
 
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 2a3bcdf..6fd6c64 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -191,14 +191,16 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
 impl<W: SerializableSemiring> PartialEq for SimpleHashMapCache<W> {
     fn eq(&self, other: &Self) -> bool {
+        // Never hold both locks: `a == a` would deadlock, and so would `a == b` against `b == a`.
+        let other = other.clone();
         let cache_start_eq = self.get_start() == other.get_start();
         let cache_trs_a = self.trs.lock().unwrap();
-        let cache_trs_b = other.trs.lock().unwrap();
+        let cache_trs_b = other.trs.into_inner().unwrap();
         let cache_trs_eq = (cache_trs_a.data == cache_trs_b.data)
             & (cache_trs_a.num_known_states == cache_trs_b.num_known_states);
 
         let cache_final_weights_a = self.final_weights.lock().unwrap();
-        let cache_final_weights_b = other.final_weights.lock().unwrap();
+        let cache_final_weights_b = other.final_weights.into_inner().unwrap();
         let cache_final_weights_eq = (cache_final_weights_a.data == cache_final_weights_b.data)
             & (cache_final_weights_a.num_known_states == cache_final_weights_b.num_known_states);
 
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 47c19c5..2924c86 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -202,14 +202,16 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
 impl<W: SerializableSemiring> PartialEq for SimpleVecCache<W> {
     fn eq(&self, other: &Self) -> bool {
+        // Never hold both locks: `a == a` would deadlock, and so would `a == b` against `b == a`.
+        let other = other.clone();
         let cache_start_eq = self.get_start() == other.get_start();
         let cache_trs_a = self.trs.lock().unwrap();
-        let cache_trs_b = other.trs.lock().unwrap();
+        let cache_trs_b = other.trs.into_inner().unwrap();
         let cache_trs_eq = (cache_trs_a.data == cache_trs_b.data)
             & (cache_trs_a.num_known_states == cache_trs_b.num_known_states);
 
         let cache_final_weights_a = self.final_weights.lock().unwrap();
-        let cache_final_weights_b = other.final_weights.lock().unwrap();
+        let cache_final_weights_b = other.final_weights.into_inner().unwrap();
         let cache_final_weights_eq = (cache_final_weights_a.data == cache_final_weights_b.data)
             & (cache_final_weights_a.num_known_states == cache_final_weights_b.num_known_states);
 
diff --git a/rustfst/src/algorithms/lazy/state_table.rs b/rustfst/src/algorithms/lazy/state_table.rs
index a520294..78522f7 100644
--- a/rustfst/src/algorithms/lazy/state_table.rs
+++ b/rustfst/src/algorithms/lazy/state_table.rs
@@ -95,7 +95,9 @@ impl<T: Hash + Eq + Clone + fmt::Debug> fmt::Debug for StateTable<T> {
 
 impl<T: Hash + Eq + Clone + PartialEq> PartialEq for StateTable<T> {
     fn eq(&self, other: &Self) -> bool {
-        self.table.lock().unwrap().eq(&*other.table.lock().unwrap())
+        // Never hold both locks: `a == a` would deadlock, and so would `a == b` against `b == a`.
+        let other = other.table.lock().unwrap().clone();
+        self.table.lock().unwrap().eq(&other)
     }
 }
 
-- 
2.43.0


From eecdbfe0216e3440e95ee27ba85b5a5d81c3d4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:09 +0000
Subject: [PATCH 02/34] fix: write a lazy cache as one consistent snapshot of
 each table

---
 .../lazy/cache/simple_hash_map_cache.rs       | 37 ++++++-------------
 .../algorithms/lazy/cache/simple_vec_cache.rs | 35 ++++++------------
 2 files changed, 23 insertions(+), 49 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 6fd6c64..21c7568 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -216,51 +216,36 @@ pub fn write_simple_hashmap_cache<F: Write, W: SerializableSemiring>(
     let start_state = cache.start.lock().map_err(|err| anyhow!("{}", err))?;
     write_bin_u64(writter, start_state.num_known_states as u64)?;
     write_cache_start_state(writter, &start_state.data)?;
+    drop(start_state);
 
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    let trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, trs.num_known_states as u64)?;
 
     // Num computed states
-    let num_visited_states = cache.len_trs();
+    let num_visited_states = trs.data.len();
     write_bin_u64(writter, num_visited_states as u64)?;
 
     // Computed states serialization
-    for (state, cache_trs) in cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, cache_trs) in trs.data.iter() {
         // Write CacheTrs trs
         write_hashmap_cache_trs(writter, cache_trs, state)?;
     }
 
     // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    drop(trs);
+    let final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, final_weights.num_known_states as u64)?;
 
     // Num computed final weights
-    let num_final_weights = cache.len_final_weights();
+    let num_final_weights = final_weights.data.len();
     write_bin_u64(writter, num_final_weights as u64)?;
 
     // Final weights serialization
-    for (state, final_weight) in cache
-        .final_weights
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .data
-        .iter()
-    {
+    for (state, final_weight) in final_weights.data.iter() {
         // Write final weight for state
         write_hashmap_cache_final_weight(writter, final_weight, state)?;
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 2924c86..9ed99d1 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -227,49 +227,38 @@ pub fn write_simple_vec_cache<F: Write, W: SerializableSemiring>(
     let start_state = cache.start.lock().map_err(|err| anyhow!("{}", err))?;
     write_bin_u64(writter, start_state.num_known_states as u64)?;
     write_cache_start_state(writter, &start_state.data)?;
+    drop(start_state);
 
     // Trs num known states serialization
-    let trs_num_known_states = cache
-        .trs
-        .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, trs_num_known_states as u64)?;
+    let trs = cache.trs.lock().map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, trs.num_known_states as u64)?;
 
     // Num computed states serialization
-    let num_computed_states = cache.len_trs();
+    let num_computed_states = trs.data.len();
     write_bin_u64(writter, num_computed_states as u64)?;
 
     // Computed states serialization
     for state in 0..num_computed_states {
         let state = state as StateId;
-        write_vec_cache_trs(
-            writter,
-            &cache
-                .trs
-                .lock()
-                .map_err(|err| anyhow!("{}", err))?
-                .get(state),
-        )?;
+        write_vec_cache_trs(writter, &trs.get(state))?;
     }
 
     // Final weights num known states serialization
-    let final_weights_num_known_states = cache
+    drop(trs);
+    let final_weights = cache
         .final_weights
         .lock()
-        .map_err(|err| anyhow!("{}", err))?
-        .num_known_states;
-    write_bin_u64(writter, final_weights_num_known_states as u64)?;
+        .map_err(|err| anyhow!("{}", err))?;
+    write_bin_u64(writter, final_weights.num_known_states as u64)?;
 
     // Num final states serialization
-    let num_final_states = cache.len_final_weights();
+    let num_final_states = final_weights.data.len();
     write_bin_u64(writter, num_final_states as u64)?;
 
     // Final states serialization
-    for f_state in 0..num_final_states {
-        let f_state = f_state as StateId;
+    for final_weight in final_weights.data.iter() {
         // Write final weight for state
-        write_vec_cache_final_weight(writter, &cache.get_final_weight(f_state))?;
+        write_vec_cache_final_weight(writter, final_weight)?;
     }
 
     Ok(())
-- 
2.43.0


From 0119862e197c88d42d3a2cf8e471139e3d8aeb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:50 +0000
Subject: [PATCH 03/34] fix: export every FFI function with the C calling
 convention

---
 rustfst-ffi/src/algorithms/isomorphic.rs |  2 +-
 rustfst-ffi/src/fst/const_fst.rs         |  8 ++++----
 rustfst-ffi/src/fst/mod.rs               | 26 ++++++++++++------------
 rustfst-ffi/src/fst/vector_fst.rs        | 26 ++++++++++++------------
 rustfst-ffi/src/symbol_table.rs          |  2 +-
 5 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/rustfst-ffi/src/algorithms/isomorphic.rs b/rustfst-ffi/src/algorithms/isomorphic.rs
index cc97976..a0297f5 100644
--- a/rustfst-ffi/src/algorithms/isomorphic.rs
+++ b/rustfst-ffi/src/algorithms/isomorphic.rs
@@ -11,7 +11,7 @@ use rustfst::semirings::TropicalWeight;
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_isomorphic(
+pub unsafe extern "C" fn fst_isomorphic(
     fst: *const CFst,
     other_fst: *const CFst,
     is_isomorphic: *mut libc::size_t,
diff --git a/rustfst-ffi/src/fst/const_fst.rs b/rustfst-ffi/src/fst/const_fst.rs
index dc0a438..087e105 100644
--- a/rustfst-ffi/src/fst/const_fst.rs
+++ b/rustfst-ffi/src/fst/const_fst.rs
@@ -7,7 +7,7 @@ use std::ffi::CString;
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn const_fst_from_path(
+pub unsafe extern "C" fn const_fst_from_path(
     ptr: *mut *const CFst,
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
@@ -24,7 +24,7 @@ pub unsafe fn const_fst_from_path(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn const_fst_write_file(
+pub unsafe extern "C" fn const_fst_write_file(
     fst: *const CFst,
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
@@ -41,7 +41,7 @@ pub unsafe fn const_fst_write_file(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn const_fst_equals(
+pub unsafe extern "C" fn const_fst_equals(
     fst: *const CFst,
     other_fst: *const CFst,
     is_equal: *mut libc::size_t,
@@ -79,7 +79,7 @@ pub unsafe extern "C" fn const_fst_copy(
 /// The pointers should be valid.
 #[allow(clippy::too_many_arguments)]
 #[no_mangle]
-pub unsafe fn const_fst_draw(
+pub unsafe extern "C" fn const_fst_draw(
     fst_ptr: *mut CFst,
     isyms: *const CSymbolTable,
     osyms: *const CSymbolTable,
diff --git a/rustfst-ffi/src/fst/mod.rs b/rustfst-ffi/src/fst/mod.rs
index 58209ba..714d515 100644
--- a/rustfst-ffi/src/fst/mod.rs
+++ b/rustfst-ffi/src/fst/mod.rs
@@ -126,7 +126,7 @@ pub(crate) use as_mut_fst;
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_start(fst: *const CFst, mut state: *mut CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn fst_start(fst: *const CFst, mut state: *mut CStateId) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
         fst.fst_start()
@@ -141,7 +141,7 @@ pub unsafe fn fst_start(fst: *const CFst, mut state: *mut CStateId) -> RUSTFST_F
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_final_weight(
+pub unsafe extern "C" fn fst_final_weight(
     fst: *const CFst,
     state_id: CStateId,
     mut final_weight: *mut libc::c_float,
@@ -160,7 +160,7 @@ pub unsafe fn fst_final_weight(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_num_trs(
+pub unsafe extern "C" fn fst_num_trs(
     fst: *const CFst,
     state: CStateId,
     num_trs: *mut libc::size_t,
@@ -177,7 +177,7 @@ pub unsafe fn fst_num_trs(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_get_trs(
+pub unsafe extern "C" fn fst_get_trs(
     fst: *const CFst,
     state: CStateId,
     trs: *mut *const CTrs,
@@ -196,7 +196,7 @@ pub unsafe fn fst_get_trs(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_is_final(
+pub unsafe extern "C" fn fst_is_final(
     fst: *const CFst,
     state: CStateId,
     is_final: *mut libc::size_t,
@@ -214,7 +214,7 @@ pub unsafe fn fst_is_final(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_is_start(
+pub unsafe extern "C" fn fst_is_start(
     fst: *const CFst,
     state: CStateId,
     is_start: *mut libc::size_t,
@@ -242,7 +242,7 @@ pub unsafe fn fst_is_start(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_input_symbols(
+pub unsafe extern "C" fn fst_input_symbols(
     fst: *const CFst,
     mut input_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
@@ -264,7 +264,7 @@ pub unsafe fn fst_input_symbols(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_output_symbols(
+pub unsafe extern "C" fn fst_output_symbols(
     fst: *const CFst,
     mut output_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
@@ -286,7 +286,7 @@ pub unsafe fn fst_output_symbols(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_set_input_symbols(
+pub unsafe extern "C" fn fst_set_input_symbols(
     fst: *mut CFst,
     symt: *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
@@ -304,7 +304,7 @@ pub unsafe fn fst_set_input_symbols(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_set_output_symbols(
+pub unsafe extern "C" fn fst_set_output_symbols(
     fst: *mut CFst,
     symt: *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
@@ -321,7 +321,7 @@ pub unsafe fn fst_set_output_symbols(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_unset_input_symbols(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn fst_unset_input_symbols(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         fst.fst_take_input_symbols();
@@ -334,7 +334,7 @@ pub unsafe fn fst_unset_input_symbols(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_unset_output_symbols(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn fst_unset_output_symbols(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         fst.fst_take_output_symbols();
@@ -375,7 +375,7 @@ pub unsafe extern "C" fn fst_weight_zero(weight_zero: *mut libc::c_float) -> RUS
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn fst_destroy(fst_ptr: *mut CFst) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn fst_destroy(fst_ptr: *mut CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         if fst_ptr.is_null() {
             return Ok(());
diff --git a/rustfst-ffi/src/fst/vector_fst.rs b/rustfst-ffi/src/fst/vector_fst.rs
index 7fd7e9b..ae699cc 100644
--- a/rustfst-ffi/src/fst/vector_fst.rs
+++ b/rustfst-ffi/src/fst/vector_fst.rs
@@ -10,7 +10,7 @@ use std::ffi::CString;
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_new(ptr: *mut *const CFst) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_new(ptr: *mut *const CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = Box::new(VectorFst::new());
         let raw_pointer = CFst(fst).into_raw_pointer();
@@ -23,7 +23,7 @@ pub unsafe fn vec_fst_new(ptr: *mut *const CFst) -> RUSTFST_FFI_RESULT {
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_set_start(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_set_start(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let c_fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, c_fst);
@@ -36,7 +36,7 @@ pub unsafe fn vec_fst_set_start(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_set_final(
+pub unsafe extern "C" fn vec_fst_set_final(
     fst: *mut CFst,
     state: CStateId,
     weight: libc::c_float,
@@ -53,7 +53,7 @@ pub unsafe fn vec_fst_set_final(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_add_state(fst: *mut CFst, state: *mut CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_add_state(fst: *mut CFst, state: *mut CStateId) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
@@ -67,7 +67,7 @@ pub unsafe fn vec_fst_add_state(fst: *mut CFst, state: *mut CStateId) -> RUSTFST
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_delete_states(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_delete_states(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
@@ -80,7 +80,7 @@ pub unsafe fn vec_fst_delete_states(fst: *mut CFst) -> RUSTFST_FFI_RESULT {
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_add_tr(
+pub unsafe extern "C" fn vec_fst_add_tr(
     fst: *mut CFst,
     state: CStateId,
     tr: *const CTr,
@@ -98,7 +98,7 @@ pub unsafe fn vec_fst_add_tr(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_del_final_weight(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_del_final_weight(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
@@ -112,7 +112,7 @@ pub unsafe fn vec_fst_del_final_weight(fst: *mut CFst, state: CStateId) -> RUSTF
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_from_path(
+pub unsafe extern "C" fn vec_fst_from_path(
     ptr: *mut *const CFst,
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
@@ -129,7 +129,7 @@ pub unsafe fn vec_fst_from_path(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_write_file(
+pub unsafe extern "C" fn vec_fst_write_file(
     fst: *const CFst,
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
@@ -146,7 +146,7 @@ pub unsafe fn vec_fst_write_file(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_relabel_tables(
+pub unsafe extern "C" fn vec_fst_relabel_tables(
     fst: *mut CFst,
     old_isymbols: *const CSymbolTable,
     new_isymbols: *const CSymbolTable,
@@ -187,7 +187,7 @@ pub unsafe fn vec_fst_relabel_tables(
 /// The pointers should be valid.
 #[allow(clippy::too_many_arguments)]
 #[no_mangle]
-pub unsafe fn vec_fst_draw(
+pub unsafe extern "C" fn vec_fst_draw(
     fst_ptr: *mut CFst,
     isyms: *const CSymbolTable,
     osyms: *const CSymbolTable,
@@ -245,7 +245,7 @@ pub unsafe fn vec_fst_draw(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_num_states(
+pub unsafe extern "C" fn vec_fst_num_states(
     fst: *const CFst,
     num_states: *mut libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
@@ -262,7 +262,7 @@ pub unsafe fn vec_fst_num_states(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn vec_fst_equals(
+pub unsafe extern "C" fn vec_fst_equals(
     fst: *const CFst,
     other_fst: *const CFst,
     is_equal: *mut libc::size_t,
diff --git a/rustfst-ffi/src/symbol_table.rs b/rustfst-ffi/src/symbol_table.rs
index 8960225..d8d7ab4 100644
--- a/rustfst-ffi/src/symbol_table.rs
+++ b/rustfst-ffi/src/symbol_table.rs
@@ -219,7 +219,7 @@ pub unsafe extern "C" fn symt_copy(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe fn symt_equals(
+pub unsafe extern "C" fn symt_equals(
     symt: *const CSymbolTable,
     other_symt: *const CSymbolTable,
     is_equal: *mut libc::size_t,
-- 
2.43.0


From 62c20e6b85a684c67c1d582a946dba25988a1bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:18 +0000
Subject: [PATCH 04/34] fix: FFI out-parameters are written on every success
 and iterator constructors report errors

---
 rustfst-ffi/src/fst/mod.rs               | 47 +++++++-------
 rustfst-ffi/src/fst/vector_fst.rs        | 10 ++-
 rustfst-ffi/src/iterators.rs             | 79 ++++++++----------------
 rustfst-ffi/src/lib.rs                   |  3 +
 rustfst-python/rustfst/ffi_utils.py      |  3 +
 rustfst-python/rustfst/fst/__init__.py   |  9 +--
 rustfst-python/rustfst/fst/vector_fst.py |  4 +-
 rustfst-python/rustfst/iterators.py      |  8 +--
 8 files changed, 72 insertions(+), 91 deletions(-)

diff --git a/rustfst-ffi/src/fst/mod.rs b/rustfst-ffi/src/fst/mod.rs
index 714d515..fbf0a3e 100644
--- a/rustfst-ffi/src/fst/mod.rs
+++ b/rustfst-ffi/src/fst/mod.rs
@@ -6,7 +6,7 @@ pub mod vector_fst;
 use crate::symbol_table::CSymbolTable;
 use crate::tr::CTr;
 use crate::trs::CTrs;
-use crate::{get, get_mut, wrap, CStateId, RUSTFST_FFI_RESULT};
+use crate::{get, get_mut, wrap, CStateId, C_NO_STATE_ID, RUSTFST_FFI_RESULT};
 
 use anyhow::Result;
 use downcast_rs::Downcast;
@@ -121,22 +121,20 @@ pub(crate) use as_mut_fst;
 /// Core FST methods
 /// As defined in fst_traits
 
-/// Returns the ID of the start state of the wFST if it exists else none
+/// Returns the ID of the start state of the wFST if it exists else `C_NO_STATE_ID`
 /// # Safety
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe extern "C" fn fst_start(fst: *const CFst, mut state: *mut CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn fst_start(fst: *const CFst, state: *mut CStateId) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        fst.fst_start()
-            .map(|it| unsafe { *state = it })
-            .unwrap_or_else(|| state = std::ptr::null_mut());
+        unsafe { *state = fst.fst_start().unwrap_or(C_NO_STATE_ID) };
         Ok(())
     })
 }
 
-/// Retrieves the final weight of a state (if the state is a final one).
+/// Retrieves the final weight of a state (the weight zero if the state is not a final one).
 /// # Safety
 ///
 /// The pointers should be valid.
@@ -144,13 +142,14 @@ pub unsafe extern "C" fn fst_start(fst: *const CFst, mut state: *mut CStateId) -
 pub unsafe extern "C" fn fst_final_weight(
     fst: *const CFst,
     state_id: CStateId,
-    mut final_weight: *mut libc::c_float,
+    final_weight: *mut libc::c_float,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        fst.fst_final_weight(state_id)?
-            .map(|it| unsafe { *final_weight = *it.value() })
-            .unwrap_or_else(|| final_weight = std::ptr::null_mut());
+        let weight = fst
+            .fst_final_weight(state_id)?
+            .unwrap_or_else(TropicalWeight::zero);
+        unsafe { *final_weight = *weight.value() };
         Ok(())
     })
 }
@@ -244,16 +243,15 @@ pub unsafe extern "C" fn fst_is_start(
 #[no_mangle]
 pub unsafe extern "C" fn fst_input_symbols(
     fst: *const CFst,
-    mut input_symt: *mut *const CSymbolTable,
+    input_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        fst.fst_input_symbols()
-            .map(|it| {
-                let symt = CSymbolTable(it).into_raw_pointer();
-                unsafe { *input_symt = symt }
-            })
-            .unwrap_or_else(|| input_symt = std::ptr::null_mut());
+        let symt = match fst.fst_input_symbols() {
+            Some(it) => CSymbolTable(it).into_raw_pointer(),
+            None => std::ptr::null(),
+        };
+        unsafe { *input_symt = symt };
         Ok(())
     })
 }
@@ -266,16 +264,15 @@ pub unsafe extern "C" fn fst_input_symbols(
 #[no_mangle]
 pub unsafe extern "C" fn fst_output_symbols(
     fst: *const CFst,
-    mut output_symt: *mut *const CSymbolTable,
+    output_symt: *mut *const CSymbolTable,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        fst.fst_output_symbols()
-            .map(|it| {
-                let symt = CSymbolTable(it).into_raw_pointer();
-                unsafe { *output_symt = symt }
-            })
-            .unwrap_or_else(|| output_symt = std::ptr::null_mut());
+        let symt = match fst.fst_output_symbols() {
+            Some(it) => CSymbolTable(it).into_raw_pointer(),
+            None => std::ptr::null(),
+        };
+        unsafe { *output_symt = symt };
         Ok(())
     })
 }
diff --git a/rustfst-ffi/src/fst/vector_fst.rs b/rustfst-ffi/src/fst/vector_fst.rs
index ae699cc..33a154a 100644
--- a/rustfst-ffi/src/fst/vector_fst.rs
+++ b/rustfst-ffi/src/fst/vector_fst.rs
@@ -53,7 +53,10 @@ pub unsafe extern "C" fn vec_fst_set_final(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe extern "C" fn vec_fst_add_state(fst: *mut CFst, state: *mut CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_add_state(
+    fst: *mut CFst,
+    state: *mut CStateId,
+) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
@@ -98,7 +101,10 @@ pub unsafe extern "C" fn vec_fst_add_tr(
 ///
 /// The pointers should be valid.
 #[no_mangle]
-pub unsafe extern "C" fn vec_fst_del_final_weight(fst: *mut CFst, state: CStateId) -> RUSTFST_FFI_RESULT {
+pub unsafe extern "C" fn vec_fst_del_final_weight(
+    fst: *mut CFst,
+    state: CStateId,
+) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CFst, fst);
         let vec_fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index 6130cfd..e598730 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -1,6 +1,6 @@
 use crate::fst::{CFst, CVecFst};
 use crate::tr::CTr;
-use crate::{get, get_mut, wrap, CStateId, RUSTFST_FFI_RESULT};
+use crate::{get, get_mut, wrap, CStateId, C_NO_STATE_ID, RUSTFST_FFI_RESULT};
 use anyhow::Result;
 use ffi_convert::*;
 use rustfst::fst_traits::MutableFst;
@@ -44,21 +44,14 @@ pub struct CTrsIterator(pub(crate) TrsIterator);
 pub unsafe extern "C" fn trs_iterator_new(
     fst_ptr: *mut CFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CTrsIterator,
+    iter_ptr: *mut *const CTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst_ptr);
-        fst.fst_get_trs(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = TrsIterator { trs, index: 0 };
-                    CTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.fst_get_trs(state_id)?;
+        let trs_iterator = TrsIterator { trs, index: 0 };
+        let raw_ptr = CTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
@@ -69,21 +62,15 @@ pub unsafe extern "C" fn trs_iterator_new(
 #[no_mangle]
 pub unsafe extern "C" fn trs_iterator_next(
     iter_ptr: *mut CTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CTrsIterator, iter_ptr);
-        trs_iter
-            .next()
-            .map(|tr| {
-                let ctr = Box::into_raw(Box::new(CTr::c_repr_of(tr)?));
-                unsafe { *tr_ptr = ctr };
-                Ok(())
-            })
-            .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
-                Ok(())
-            })?;
+        let ctr = match trs_iter.next() {
+            Some(tr) => Box::into_raw(Box::new(CTr::c_repr_of(tr)?)),
+            None => std::ptr::null_mut(),
+        };
+        unsafe { *tr_ptr = ctr };
 
         Ok(())
     })
@@ -197,21 +184,14 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 pub unsafe extern "C" fn mut_trs_iterator_new(
     fst_ptr: *mut CVecFst,
     state_id: CStateId,
-    mut iter_ptr: *mut *const CMutTrsIterator,
+    iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get_mut!(CVecFst, fst_ptr);
-        fst.tr_iter_mut(state_id)
-            .map(|trs| {
-                let raw_ptr = {
-                    let trs_iterator = MutTrsIterator { trs, index: 0 };
-                    CMutTrsIterator(trs_iterator).into_raw_pointer()
-                };
-
-                unsafe { *iter_ptr = raw_ptr };
-            })
-            .unwrap_or_else(|_| iter_ptr = std::ptr::null_mut());
-
+        let trs = fst.tr_iter_mut(state_id)?;
+        let trs_iterator = MutTrsIterator { trs, index: 0 };
+        let raw_ptr = CMutTrsIterator(trs_iterator).into_raw_pointer();
+        unsafe { *iter_ptr = raw_ptr };
         Ok(())
     })
 }
@@ -236,21 +216,15 @@ pub unsafe extern "C" fn mut_trs_iterator_next(
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_value(
     iter_ptr: *mut CMutTrsIterator,
-    mut tr_ptr: *mut *const CTr,
+    tr_ptr: *mut *const CTr,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs_iter = get_mut!(CMutTrsIterator, iter_ptr);
-        trs_iter
-            .value()
-            .map(|tr| {
-                let ctr = Box::into_raw(Box::new(CTr::c_repr_of(tr)?));
-                unsafe { *tr_ptr = ctr };
-                Ok(())
-            })
-            .unwrap_or_else(|| -> Result<()> {
-                tr_ptr = std::ptr::null_mut();
-                Ok(())
-            })?;
+        let ctr = match trs_iter.value() {
+            Some(tr) => Box::into_raw(Box::new(CTr::c_repr_of(tr)?)),
+            None => std::ptr::null_mut(),
+        };
+        unsafe { *tr_ptr = ctr };
         Ok(())
     })
 }
@@ -344,14 +318,11 @@ pub unsafe extern "C" fn state_iterator_new(
 #[no_mangle]
 pub unsafe extern "C" fn state_iterator_next(
     iter_ptr: *mut CStateIterator,
-    mut state: *mut CStateId,
+    state: *mut CStateId,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let state_iter = get_mut!(CStateIterator, iter_ptr);
-        state_iter
-            .next()
-            .map(|it| unsafe { *state = it })
-            .unwrap_or_else(|| state = std::ptr::null_mut());
+        unsafe { *state = state_iter.next().unwrap_or(C_NO_STATE_ID) };
         Ok(())
     })
 }
diff --git a/rustfst-ffi/src/lib.rs b/rustfst-ffi/src/lib.rs
index 189262d..be7d790 100644
--- a/rustfst-ffi/src/lib.rs
+++ b/rustfst-ffi/src/lib.rs
@@ -26,6 +26,9 @@ pub type CStateId = libc::c_uint;
 #[cfg(not(feature = "rustfst-state-label-u32"))]
 pub type CStateId = libc::size_t;
 
+/// Written to a state out-parameter when there is no state to return.
+pub const C_NO_STATE_ID: CStateId = CStateId::MAX;
+
 #[repr(C)]
 #[allow(non_camel_case_types)]
 #[derive(Debug, PartialEq, Eq)]
diff --git a/rustfst-python/rustfst/ffi_utils.py b/rustfst-python/rustfst/ffi_utils.py
index dbacd2a..d887113 100644
--- a/rustfst-python/rustfst/ffi_utils.py
+++ b/rustfst-python/rustfst/ffi_utils.py
@@ -19,6 +19,9 @@ lib = cdll.LoadLibrary(str(dylib_path))
 
 PathOrStr = Union[Path, str]
 
+# What the library writes when there is no state to return.
+NO_STATE_ID = 0xFFFFFFFF
+
 
 class CStringArray(Structure):
     _fields_ = [("data", POINTER(c_char_p)), ("size", c_int32)]
diff --git a/rustfst-python/rustfst/fst/__init__.py b/rustfst-python/rustfst/fst/__init__.py
index 9a05b8b..c300e25 100644
--- a/rustfst-python/rustfst/fst/__init__.py
+++ b/rustfst-python/rustfst/fst/__init__.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 import ctypes
 from rustfst.ffi_utils import (
+    NO_STATE_ID,
     lib,
     check_ffi_error,
 )
@@ -31,7 +32,7 @@ class Fst:
         err_msg = "Error getting start state"
         check_ffi_error(ret_code, err_msg)
 
-        if start is None:
+        if start.value == NO_STATE_ID:
             return None
         return int(start.value)
 
@@ -52,7 +53,7 @@ class Fst:
         err_msg = "Error getting final weight"
         check_ffi_error(ret_code, err_msg)
 
-        if weight is None:
+        if weight.value == float("inf"):
             return None
 
         return weight.value
@@ -136,7 +137,7 @@ class Fst:
         err_msg = "Error getting input symbols"
         check_ffi_error(ret_code, err_msg)
 
-        if table.contents:
+        if table:
             return SymbolTable(ptr=table)
         return None
 
@@ -156,7 +157,7 @@ class Fst:
         err_msg = "Error getting output symbols"
         check_ffi_error(ret_code, err_msg)
 
-        if table.contents:
+        if table:
             return SymbolTable(ptr=table)
         return None
 
diff --git a/rustfst-python/rustfst/fst/vector_fst.py b/rustfst-python/rustfst/fst/vector_fst.py
index a1d2108..50f0e4b 100644
--- a/rustfst-python/rustfst/fst/vector_fst.py
+++ b/rustfst-python/rustfst/fst/vector_fst.py
@@ -35,7 +35,7 @@ class VectorFst(Fst):
             ret_code = lib.fst_input_symbols(self.ptr, ctypes.byref(isymt))
             err_msg = "Error getting input symbols"
             check_ffi_error(ret_code, err_msg)
-            if isymt.contents:
+            if isymt:
                 self._input_symbols = SymbolTable(ptr=isymt)
 
             # Check if osymt inside
@@ -43,7 +43,7 @@ class VectorFst(Fst):
             ret_code = lib.fst_output_symbols(self.ptr, ctypes.byref(osymt))
             err_msg = "Error getting input symbols"
             check_ffi_error(ret_code, err_msg)
-            if osymt.contents:
+            if osymt:
                 self._output_symbols = SymbolTable(ptr=osymt)
 
         else:
diff --git a/rustfst-python/rustfst/iterators.py b/rustfst-python/rustfst/iterators.py
index e8acd2e..e2c4c30 100644
--- a/rustfst-python/rustfst/iterators.py
+++ b/rustfst-python/rustfst/iterators.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 import ctypes
 from typing import Optional
-from rustfst.ffi_utils import lib, check_ffi_error
+from rustfst.ffi_utils import lib, check_ffi_error, NO_STATE_ID
 from rustfst.tr import Tr
 from typing import TYPE_CHECKING
 
@@ -51,7 +51,7 @@ class TrsIterator:
         err_msg = "`next` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
@@ -149,7 +149,7 @@ class MutableTrsIterator:
         err_msg = "`value` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if tr_ptr is None:
+        if not tr_ptr:
             return None
 
         return Tr(tr_ptr)
@@ -207,7 +207,7 @@ class StateIterator:
         err_msg = "`next` failed"
         check_ffi_error(ret_code, err_msg)
 
-        if next_state is None:
+        if next_state.value == NO_STATE_ID:
             return None
         return int(next_state.value)
 
-- 
2.43.0


From b2109d527886b8b55c5bd8db24973c253e6c3d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 05/34] fix: FFI reports a null string, a non-vector handle or
 an out-of-range transition index as an error

---
 rustfst-ffi/src/fst/const_fst.rs  | 11 +++++++----
 rustfst-ffi/src/fst/utils.rs      |  6 +++---
 rustfst-ffi/src/fst/vector_fst.rs | 11 +++++++----
 rustfst-ffi/src/iterators.rs      | 15 +++++++++------
 rustfst-ffi/src/symbol_table.rs   | 10 +++++-----
 rustfst-ffi/src/trs.rs            |  8 +++++++-
 6 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/rustfst-ffi/src/fst/const_fst.rs b/rustfst-ffi/src/fst/const_fst.rs
index 087e105..98f46e8 100644
--- a/rustfst-ffi/src/fst/const_fst.rs
+++ b/rustfst-ffi/src/fst/const_fst.rs
@@ -12,7 +12,7 @@ pub unsafe extern "C" fn const_fst_from_path(
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let path = unsafe { CStr::from_ptr(path) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path) }?.as_rust()?;
         let fst = Box::new(ConstFst::<TropicalWeight>::read(path)?);
         let raw_pointer = CFst(fst).into_raw_pointer();
         unsafe { *ptr = raw_pointer };
@@ -30,7 +30,7 @@ pub unsafe extern "C" fn const_fst_write_file(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        let path = unsafe { CStr::from_ptr(path) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path) }?.as_rust()?;
         let const_fst = as_fst!(ConstFst<TropicalWeight>, fst);
         const_fst.write(path)?;
         Ok(())
@@ -117,7 +117,7 @@ pub unsafe extern "C" fn const_fst_draw(
             } else {
                 None
             },
-            title: unsafe { CStr::from_ptr(title).as_rust()? },
+            title: unsafe { CStr::raw_borrow(title)?.as_rust()? },
             portrait: portrait > 0,
             ranksep: if ranksep >= 0.0 { Some(ranksep) } else { None },
             nodesep: if nodesep >= 0.0 { Some(nodesep) } else { None },
@@ -127,7 +127,10 @@ pub unsafe extern "C" fn const_fst_draw(
             print_weight: print_weight > 0,
         };
 
-        const_fst.draw(unsafe { CStr::from_ptr(fname).as_rust()? }, &drawing_config)?;
+        const_fst.draw(
+            unsafe { CStr::raw_borrow(fname)?.as_rust()? },
+            &drawing_config,
+        )?;
 
         Ok(())
     })
diff --git a/rustfst-ffi/src/fst/utils.rs b/rustfst-ffi/src/fst/utils.rs
index d72b632..23f1778 100644
--- a/rustfst-ffi/src/fst/utils.rs
+++ b/rustfst-ffi/src/fst/utils.rs
@@ -18,7 +18,7 @@ pub unsafe extern "C" fn utils_string_to_acceptor(
     fst_ptr: *mut *const CFst,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let astring: String = unsafe { CStr::from_ptr(astring) }.as_rust()?;
+        let astring: String = unsafe { CStr::raw_borrow(astring) }?.as_rust()?;
         let symt = get_mut!(CSymbolTable, symbol_table);
         let labels = astring
             .split(' ')
@@ -47,8 +47,8 @@ pub unsafe extern "C" fn utils_string_to_transducer(
     fst_ptr: *mut *const CFst,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let istring: String = unsafe { CStr::from_ptr(istring) }.as_rust()?;
-        let ostring: String = unsafe { CStr::from_ptr(ostring) }.as_rust()?;
+        let istring: String = unsafe { CStr::raw_borrow(istring) }?.as_rust()?;
+        let ostring: String = unsafe { CStr::raw_borrow(ostring) }?.as_rust()?;
         let isymt = get_mut!(CSymbolTable, isymt);
         let osymt = get_mut!(CSymbolTable, osymt);
         let ilabels = istring
diff --git a/rustfst-ffi/src/fst/vector_fst.rs b/rustfst-ffi/src/fst/vector_fst.rs
index 33a154a..bf864ce 100644
--- a/rustfst-ffi/src/fst/vector_fst.rs
+++ b/rustfst-ffi/src/fst/vector_fst.rs
@@ -123,7 +123,7 @@ pub unsafe extern "C" fn vec_fst_from_path(
     path: *const libc::c_char,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let path = unsafe { CStr::from_ptr(path) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path) }?.as_rust()?;
         let fst = Box::new(VectorFst::<TropicalWeight>::read(path)?);
         let raw_pointer = CFst(fst).into_raw_pointer();
         unsafe { *ptr = raw_pointer };
@@ -141,7 +141,7 @@ pub unsafe extern "C" fn vec_fst_write_file(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let fst = get!(CFst, fst);
-        let path = unsafe { CStr::from_ptr(path) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path) }?.as_rust()?;
         let vec_fst = as_fst!(VectorFst<TropicalWeight>, fst);
         vec_fst.write(path)?;
         Ok(())
@@ -231,7 +231,7 @@ pub unsafe extern "C" fn vec_fst_draw(
             } else {
                 None
             },
-            title: unsafe { CStr::from_ptr(title).as_rust()? },
+            title: unsafe { CStr::raw_borrow(title)?.as_rust()? },
             portrait: portrait > 0,
             ranksep: if ranksep >= 0.0 { Some(ranksep) } else { None },
             nodesep: if nodesep >= 0.0 { Some(nodesep) } else { None },
@@ -241,7 +241,10 @@ pub unsafe extern "C" fn vec_fst_draw(
             print_weight: print_weight > 0,
         };
 
-        vec_fst.draw(unsafe { CStr::from_ptr(fname).as_rust()? }, &drawing_config)?;
+        vec_fst.draw(
+            unsafe { CStr::raw_borrow(fname)?.as_rust()? },
+            &drawing_config,
+        )?;
 
         Ok(())
     })
diff --git a/rustfst-ffi/src/iterators.rs b/rustfst-ffi/src/iterators.rs
index e598730..fb6f26f 100644
--- a/rustfst-ffi/src/iterators.rs
+++ b/rustfst-ffi/src/iterators.rs
@@ -1,8 +1,9 @@
-use crate::fst::{CFst, CVecFst};
+use crate::fst::{as_fst, as_mut_fst, CFst};
 use crate::tr::CTr;
 use crate::{get, get_mut, wrap, CStateId, C_NO_STATE_ID, RUSTFST_FFI_RESULT};
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use ffi_convert::*;
+use rustfst::fst_impls::VectorFst;
 use rustfst::fst_traits::MutableFst;
 use rustfst::prelude::{StateIterator, Tr, TropicalWeight, TrsVec};
 use rustfst::trs_iter_mut::TrsIterMut;
@@ -182,12 +183,13 @@ impl<'a> RawPointerConverter<CMutTrsIterator<'a>> for CMutTrsIterator<'a> {
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn mut_trs_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     state_id: CStateId,
     iter_ptr: *mut *const CMutTrsIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get_mut!(CVecFst, fst_ptr);
+        let fst = get_mut!(CFst, fst_ptr);
+        let fst = as_mut_fst!(VectorFst<TropicalWeight>, fst);
         let trs = fst.tr_iter_mut(state_id)?;
         let trs_iterator = MutTrsIterator { trs, index: 0 };
         let raw_ptr = CMutTrsIterator(trs_iterator).into_raw_pointer();
@@ -300,11 +302,12 @@ pub struct CStateIterator(pub(crate) Peekable<Range<CStateId>>);
 /// The pointers should be valid.
 #[no_mangle]
 pub unsafe extern "C" fn state_iterator_new(
-    fst_ptr: *mut CVecFst,
+    fst_ptr: *mut CFst,
     iter_ptr: *mut *const CStateIterator,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let fst = get!(CVecFst, fst_ptr);
+        let fst = get!(CFst, fst_ptr);
+        let fst = as_fst!(VectorFst<TropicalWeight>, fst);
         let state_iter = fst.states_iter().peekable();
         let raw_ptr = CStateIterator(state_iter).into_raw_pointer();
         unsafe { *iter_ptr = raw_ptr };
diff --git a/rustfst-ffi/src/symbol_table.rs b/rustfst-ffi/src/symbol_table.rs
index d8d7ab4..cf122b3 100644
--- a/rustfst-ffi/src/symbol_table.rs
+++ b/rustfst-ffi/src/symbol_table.rs
@@ -33,7 +33,7 @@ pub unsafe extern "C" fn symt_add_symbol(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let symt = get_mut!(CSymbolTable, symt);
-        let symbol: String = unsafe { CStr::from_ptr(symbol) }.as_rust()?;
+        let symbol: String = unsafe { CStr::raw_borrow(symbol) }?.as_rust()?;
         let res = Arc::get_mut(symt)
             .ok_or_else(|| anyhow!("Could not get a mutable reference to the symbol table"))?
             .add_symbol(&symbol);
@@ -93,7 +93,7 @@ pub unsafe extern "C" fn symt_find_symbol(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let symt = get!(CSymbolTable, symt);
-        let symbol = unsafe { CStr::from_ptr(symbol) }.as_rust()?;
+        let symbol = unsafe { CStr::raw_borrow(symbol) }?.as_rust()?;
         let res = symt
             .get_label(&symbol)
             .ok_or_else(|| format_err!("No symbol `{}` found", symbol))?;
@@ -112,7 +112,7 @@ pub unsafe extern "C" fn symt_from_path(
     binary: *const libc::size_t,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let path = unsafe { CStr::from_ptr(path_ptr) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path_ptr) }?.as_rust()?;
         let binary = binary as i32 != 0;
         let symb = if binary {
             SymbolTable::read(&path)?
@@ -136,7 +136,7 @@ pub unsafe extern "C" fn symt_write_file(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let symt = get!(CSymbolTable, symt);
-        let path = unsafe { CStr::from_ptr(path_ptr) }.as_rust()?;
+        let path = unsafe { CStr::raw_borrow(path_ptr) }?.as_rust()?;
         let binary = binary as i32 != 0;
         if binary {
             symt.write(&path)?
@@ -176,7 +176,7 @@ pub unsafe extern "C" fn symt_member_symbol(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let symt = get!(CSymbolTable, symt);
-        let symbol = unsafe { CStr::from_ptr(symbol) }.as_rust()?;
+        let symbol = unsafe { CStr::raw_borrow(symbol) }?.as_rust()?;
         let res = symt.contains_symbol(symbol);
         unsafe { *is_present = res as libc::size_t };
         Ok(())
diff --git a/rustfst-ffi/src/trs.rs b/rustfst-ffi/src/trs.rs
index c5603fa..ec72724 100644
--- a/rustfst-ffi/src/trs.rs
+++ b/rustfst-ffi/src/trs.rs
@@ -2,7 +2,7 @@ use crate::tr::CTr;
 use crate::{get, get_mut, wrap, RUSTFST_FFI_RESULT};
 use std::ffi::CString;
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use ffi_convert::*;
 use rustfst::prelude::TrsVec;
 use rustfst::semirings::TropicalWeight;
@@ -35,6 +35,12 @@ pub unsafe extern "C" fn trs_vec_remove(
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
         let trs = get_mut!(CTrs, trs);
+        ensure!(
+            index < trs.len(),
+            "No transition at index {}: there are {}",
+            index,
+            trs.len()
+        );
         let removed_tr = trs.remove(index);
         let ctr = Box::into_raw(Box::new(CTr::c_repr_of(removed_tr)?));
         unsafe { *removed_tr_ptr = ctr };
-- 
2.43.0


From c06a73925fa0faeb51e0276d15620325f10e921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:06 +0000
Subject: [PATCH 06/34] fix: FFI accepts a null empty list instead of building
 a slice from a null pointer

---
 rustfst-ffi/src/algorithms/compose.rs | 16 ++++++++++++----
 rustfst-ffi/src/algorithms/replace.rs | 12 ++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/rustfst-ffi/src/algorithms/compose.rs b/rustfst-ffi/src/algorithms/compose.rs
index 24e2472..d4c04fd 100644
--- a/rustfst-ffi/src/algorithms/compose.rs
+++ b/rustfst-ffi/src/algorithms/compose.rs
@@ -1,4 +1,4 @@
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 
 use super::EnumConversionError;
 use crate::fst::CFst;
@@ -196,9 +196,17 @@ pub unsafe extern "C" fn fst_matcher_config_new(
     config: *mut *const CMatcherConfig,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let sigma_allowed_matches = unsafe {
-            std::slice::from_raw_parts(sigma_allowed_matches.data, sigma_allowed_matches.size)
-                .to_vec()
+        let sigma_allowed_matches = if sigma_allowed_matches.data.is_null() {
+            ensure!(
+                sigma_allowed_matches.size == 0,
+                "Null list of sigma allowed matches"
+            );
+            vec![]
+        } else {
+            unsafe {
+                std::slice::from_raw_parts(sigma_allowed_matches.data, sigma_allowed_matches.size)
+                    .to_vec()
+            }
         };
         let sigma_allowed_matches = sigma_allowed_matches
             .iter()
diff --git a/rustfst-ffi/src/algorithms/replace.rs b/rustfst-ffi/src/algorithms/replace.rs
index 80b0111..119529e 100644
--- a/rustfst-ffi/src/algorithms/replace.rs
+++ b/rustfst-ffi/src/algorithms/replace.rs
@@ -1,4 +1,4 @@
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 
 use crate::fst::CFst;
 use crate::CLabel;
@@ -27,10 +27,14 @@ pub unsafe extern "C" fn fst_replace(
     replaced_fst: *mut *const CFst,
 ) -> RUSTFST_FFI_RESULT {
     wrap(|| {
-        let label_fst_pairs =
-            unsafe { std::slice::from_raw_parts_mut(fst_list_ptr, fst_list_ptr_len) };
+        let label_fst_pairs: &[CLabelFstPair] = if fst_list_ptr.is_null() {
+            ensure!(fst_list_ptr_len == 0, "Null list of FSTs");
+            &[]
+        } else {
+            unsafe { std::slice::from_raw_parts(fst_list_ptr, fst_list_ptr_len) }
+        };
         let fst_list = label_fst_pairs
-            .iter_mut()
+            .iter()
             .map(|pair| -> Result<(CLabel, &VectorFst<TropicalWeight>)> {
                 let fst_ptr = pair.fst;
                 let fst = get!(CFst, fst_ptr);
-- 
2.43.0


From ba769c2cf3de49ae096a6372b877cf675f065ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:33 +0000
Subject: [PATCH 07/34] fix: Python top_sort, rm_epsilon and Trs.shallow_clone
 return what they computed; CIntArray has the C layout

---
 rustfst-python/rustfst/algorithms/compose.py    | 4 ++--
 rustfst-python/rustfst/algorithms/rm_epsilon.py | 6 ++----
 rustfst-python/rustfst/algorithms/top_sort.py   | 6 ++----
 rustfst-python/rustfst/trs.py                   | 2 +-
 4 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/rustfst-python/rustfst/algorithms/compose.py b/rustfst-python/rustfst/algorithms/compose.py
index ef6cd96..60f9492 100644
--- a/rustfst-python/rustfst/algorithms/compose.py
+++ b/rustfst-python/rustfst/algorithms/compose.py
@@ -20,7 +20,7 @@ class MatcherRewriteMode(Enum):
 
 
 class CIntArray(ctypes.Structure):
-    _fields_ = [("data", ctypes.POINTER(ctypes.c_uint32)), ("size", ctypes.c_uint32)]
+    _fields_ = [("data", ctypes.POINTER(ctypes.c_uint32)), ("size", ctypes.c_size_t)]
 
 
 class MatcherConfig:
@@ -35,7 +35,7 @@ class MatcherConfig:
             array = sigma_allowed_matches
 
         arr = CIntArray()
-        arr.size = ctypes.c_uint32(len(array))
+        arr.size = ctypes.c_size_t(len(array))
         arr.data = (ctypes.c_uint32 * len(array))(*array)
 
         config = ctypes.pointer(ctypes.c_void_p())
diff --git a/rustfst-python/rustfst/algorithms/rm_epsilon.py b/rustfst-python/rustfst/algorithms/rm_epsilon.py
index 9738689..48372d2 100644
--- a/rustfst-python/rustfst/algorithms/rm_epsilon.py
+++ b/rustfst-python/rustfst/algorithms/rm_epsilon.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -16,9 +15,8 @@ def rm_epsilon(fst: VectorFst):
     :return: Fst
     """
 
-    rm_epsilon_fst = ctypes.c_void_p()
-    ret_code = lib.fst_rm_epsilon(fst.ptr, ctypes.byref(rm_epsilon_fst))
+    ret_code = lib.fst_rm_epsilon(fst.ptr)
     err_msg = "Error during rm_epsilon"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=rm_epsilon_fst)
+    return fst
diff --git a/rustfst-python/rustfst/algorithms/top_sort.py b/rustfst-python/rustfst/algorithms/top_sort.py
index cdbf1c3..e2ef788 100644
--- a/rustfst-python/rustfst/algorithms/top_sort.py
+++ b/rustfst-python/rustfst/algorithms/top_sort.py
@@ -1,5 +1,4 @@
 from __future__ import annotations
-import ctypes
 from rustfst.ffi_utils import (
     lib,
     check_ffi_error,
@@ -28,9 +27,8 @@ def top_sort(fst: VectorFst) -> VectorFst:
         Equivalent top sorted Fst. Modification also happens in-place.
     """
 
-    top_sorted_fst = ctypes.c_void_p()
-    ret_code = lib.fst_top_sort(fst.ptr, ctypes.byref(top_sorted_fst))
+    ret_code = lib.fst_top_sort(fst.ptr)
     err_msg = "Error during top_sort"
     check_ffi_error(ret_code, err_msg)
 
-    return VectorFst(ptr=top_sorted_fst)
+    return fst
diff --git a/rustfst-python/rustfst/trs.py b/rustfst-python/rustfst/trs.py
index f9ee386..91a3808 100755
--- a/rustfst-python/rustfst/trs.py
+++ b/rustfst-python/rustfst/trs.py
@@ -57,7 +57,7 @@ class Trs:
 
     def shallow_clone(self) -> Trs:
         new_trs_ptr = c_void_p()
-        exit_code = lib.trs_vec_shallow_clone(self._ptr, new_trs_ptr)
+        exit_code = lib.trs_vec_shallow_clone(self._ptr, byref(new_trs_ptr))
         err_msg = "Something went wrong when cloning Trs"
         check_ffi_error(exit_code, err_msg)
 
-- 
2.43.0


From e2e5d7b827fbb898d838bb8f24964a69bcde1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:14 +0000
Subject: [PATCH 08/34] fix: the CLI exits with a failure status when the
 command failed

---
 rustfst-cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 1311e09..3bf5b98 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -202,7 +202,7 @@ fn main() {
 
     if let Err(e) = handle(matches) {
         error!("{:?}", e);
-        process::exit(exitcode::OK)
+        process::exit(exitcode::SOFTWARE)
     }
 }
 
-- 
2.43.0


From 54dd454f11ff56ac04f1e775af499dd4217c70de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:15 +0000
Subject: [PATCH 09/34] fix: the CLI runs the benchmark only when --bench is
 given

---
 rustfst-cli/src/binary_fst_algorithm.rs | 2 +-
 rustfst-cli/src/main.rs                 | 2 +-
 rustfst-cli/src/unary_fst_algorithm.rs  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rustfst-cli/src/binary_fst_algorithm.rs b/rustfst-cli/src/binary_fst_algorithm.rs
index c7c5835..6298139 100644
--- a/rustfst-cli/src/binary_fst_algorithm.rs
+++ b/rustfst-cli/src/binary_fst_algorithm.rs
@@ -46,7 +46,7 @@ pub trait BinaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
diff --git a/rustfst-cli/src/main.rs b/rustfst-cli/src/main.rs
index 3bf5b98..d9274da 100644
--- a/rustfst-cli/src/main.rs
+++ b/rustfst-cli/src/main.rs
@@ -364,7 +364,7 @@ fn two_in_one_out_options(command: Command) -> clap::Command {
         Arg::new("bench")
             .long("bench")
             .help("Whether to run multiple times the algorithm in order to have a reliable time measurement.")
-            .action(ArgAction::Set)
+            .action(ArgAction::SetTrue)
     ).arg(
         Arg::new("n_iters")
             .long("n_iters")
diff --git a/rustfst-cli/src/unary_fst_algorithm.rs b/rustfst-cli/src/unary_fst_algorithm.rs
index 5abd77a..e5a4797 100644
--- a/rustfst-cli/src/unary_fst_algorithm.rs
+++ b/rustfst-cli/src/unary_fst_algorithm.rs
@@ -38,7 +38,7 @@ pub trait UnaryFstAlgorithm {
     }
 
     fn run_cli_or_bench(&self, m: &ArgMatches) -> Result<()> {
-        if m.contains_id("bench") {
+        if m.get_flag("bench") {
             // Run bench
             self.run_bench(
                 m.get_one::<String>("n_warm_ups").unwrap().parse().unwrap(),
-- 
2.43.0


From 4cf8ab4593c7df3e8a585e26502a83f251f866f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:36 +0000
Subject: [PATCH 10/34] fix: writing a file reports the error of the final
 flush

---
 rustfst/src/algorithms/compose/compose_fst_op.rs           | 3 ++-
 rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs | 1 +
 rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs      | 1 +
 rustfst/src/fst_traits/serializable_fst.rs                 | 7 ++++++-
 rustfst/src/symbol_table.rs                                | 2 ++
 5 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/compose/compose_fst_op.rs b/rustfst/src/algorithms/compose/compose_fst_op.rs
index b947e3a..c7487a2 100644
--- a/rustfst/src/algorithms/compose/compose_fst_op.rs
+++ b/rustfst/src/algorithms/compose/compose_fst_op.rs
@@ -2,7 +2,7 @@ use std::borrow::Borrow;
 use std::fmt::Debug;
 use std::fs::{read, File};
 use std::hash::Hash;
-use std::io::BufWriter;
+use std::io::{BufWriter, Write};
 use std::path::Path;
 use std::sync::Arc;
 
@@ -60,6 +60,7 @@ impl<T: Hash + Eq + Clone + SerializeBinary> SerializableOpState for ComposeFstO
 
         // Write StateTable
         self.state_table.write_binary(&mut file)?;
+        file.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index 21c7568..a91c67e 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -184,6 +184,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleHashMapCache<W> {
 
         // Serialize SimpleHashMapCache
         write_simple_hashmap_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
index 9ed99d1..cb17cec 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_vec_cache.rs
@@ -195,6 +195,7 @@ impl<W: SerializableSemiring> SerializableCache for SimpleVecCache<W> {
 
         // Write SimpleVecCache
         write_simple_vec_cache(&mut file, self)?;
+        file.flush()?;
 
         Ok(())
     }
diff --git a/rustfst/src/fst_traits/serializable_fst.rs b/rustfst/src/fst_traits/serializable_fst.rs
index 28a53fb..f1f840b 100644
--- a/rustfst/src/fst_traits/serializable_fst.rs
+++ b/rustfst/src/fst_traits/serializable_fst.rs
@@ -45,7 +45,10 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
                 path_bin_fst.as_ref(),
             )
         })?;
-        self.store(BufWriter::new(output))
+        let mut writer = BufWriter::new(output);
+        self.store(&mut writer)?;
+        writer.flush()?;
+        Ok(())
     }
 
     // TEXT
@@ -70,6 +73,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
         let buffer = File::create(path_output.as_ref())?;
         let mut line_writer = LineWriter::new(buffer);
         write_fst!(self, line_writer, true, false);
+        line_writer.flush()?;
         Ok(())
     }
 
@@ -127,6 +131,7 @@ pub trait SerializableFst<W: SerializableSemiring>: ExpandedFst<W> {
 
             writeln!(f, "}}")?;
         }
+        f.flush()?;
         Ok(())
     }
 }
diff --git a/rustfst/src/symbol_table.rs b/rustfst/src/symbol_table.rs
index 8b08f2a..4843cd2 100644
--- a/rustfst/src/symbol_table.rs
+++ b/rustfst/src/symbol_table.rs
@@ -268,6 +268,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write!(writer, "{}", self)?;
+        writer.flush()?;
 
         Ok(())
     }
@@ -277,6 +278,7 @@ impl<H: BuildHasher> SymbolTable<H> {
         let mut writer = BufWriter::new(LineWriter::new(buffer));
 
         write_bin_symt(&mut writer, self)?;
+        writer.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From 94d132068f6bb47a3eb75fe61501a83d8c80fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:54 +0000
Subject: [PATCH 11/34] fix: union with an FST that has states but no start
 state starts at the other FST's start state

---
 rustfst/src/algorithms/union/union_static.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/union/union_static.rs b/rustfst/src/algorithms/union/union_static.rs
index 10c8220..012bfcf 100644
--- a/rustfst/src/algorithms/union/union_static.rs
+++ b/rustfst/src/algorithms/union/union_static.rs
@@ -87,8 +87,10 @@ where
 
     let start1 = fst_1.start();
     if start1.is_none() {
-        unsafe { fst_1.set_start_unchecked(start2) };
-        fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        unsafe { fst_1.set_start_unchecked(start2 + numstates1) };
+        if numstates1 == 0 {
+            fst_1.set_properties_with_mask(props2, FstProperties::copy_properties());
+        }
         return Ok(());
     }
     let start1 = unsafe { start1.unsafe_unwrap() };
-- 
2.43.0


From 4a23b6113d98f4adc77593b4420851e172ea2455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:52 +0000
Subject: [PATCH 12/34] fix: epsilon mappers no longer claim that an FST
 without transitions has epsilons

---
 rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs  | 4 +---
 rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
index 136c858..dfa682d 100644
--- a/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/input_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for InputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::I_EPSILONS
-            | FstProperties::I_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::I_LABEL_SORTED
     }
 }
 
diff --git a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
index 42e4ac4..73fe89a 100644
--- a/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
+++ b/rustfst/src/algorithms/tr_mappers/output_epsilon_mapper.rs
@@ -24,9 +24,7 @@ impl<S: Semiring> TrMapper<S> for OutputEpsilonMapper {
     }
 
     fn properties(&self, inprops: FstProperties) -> FstProperties {
-        (inprops & FstProperties::set_arc_properties())
-            | FstProperties::O_EPSILONS
-            | FstProperties::O_LABEL_SORTED
+        (inprops & FstProperties::set_arc_properties()) | FstProperties::O_LABEL_SORTED
     }
 }
 
-- 
2.43.0


From fb4c1982990cc22504e959e98dfa294a67b6a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 13/34] fix: lazy FST compute() keeps the symbol tables when
 there is no start state

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 12 ++++++------
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 60b0778..572f5a1 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -227,6 +227,12 @@ where
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -260,12 +266,6 @@ where
         }
         fst_out.set_properties(self.properties());
 
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 853f34e..73cfa90 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -223,6 +223,12 @@ where
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
         let mut fst_out = F2::new();
+        if let Some(isymt) = &self.isymt {
+            fst_out.set_input_symbols(Arc::clone(isymt));
+        }
+        if let Some(osymt) = &self.osymt {
+            fst_out.set_output_symbols(Arc::clone(osymt));
+        }
         let start_state = match start_state {
             Some(s) => s,
             None => return Ok(fst_out),
@@ -252,12 +258,6 @@ where
             }
         }
         fst_out.set_properties(self.properties());
-        if let Some(isymt) = &self.isymt {
-            fst_out.set_input_symbols(Arc::clone(isymt));
-        }
-        if let Some(osymt) = &self.osymt {
-            fst_out.set_output_symbols(Arc::clone(osymt));
-        }
         Ok(fst_out)
     }
 }
-- 
2.43.0


From e055574ccf0e5e70c97776d6949b8d26feb4aacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 14/34] fix: weight_convert keeps the symbol tables of an FST
 without start state

---
 rustfst/src/algorithms/weight_convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/weight_convert.rs b/rustfst/src/algorithms/weight_convert.rs
index a7fe862..fb612cc 100644
--- a/rustfst/src/algorithms/weight_convert.rs
+++ b/rustfst/src/algorithms/weight_convert.rs
@@ -28,6 +28,7 @@ where
 {
     let iprops = fst_in.properties();
     let mut fst_out = F2::new();
+    fst_out.set_symts_from_fst(fst_in);
     let final_action = mapper.final_action();
 
     // Empty FST.
@@ -130,7 +131,6 @@ where
         mapper.properties(iprops) | oprops,
         FstProperties::all_properties(),
     );
-    fst_out.set_symts_from_fst(fst_in);
 
     Ok(fst_out)
 }
-- 
2.43.0


From d4afb01ec249025c30f68b4d1562210e880dac0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 15/34] fix: shortest_path keeps the symbol tables when no path
 is requested

---
 rustfst/src/algorithms/shortest_path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/shortest_path.rs b/rustfst/src/algorithms/shortest_path.rs
index d4c54ce..cc2dcb9 100644
--- a/rustfst/src/algorithms/shortest_path.rs
+++ b/rustfst/src/algorithms/shortest_path.rs
@@ -119,7 +119,9 @@ where
     let unique = config.unique;
     let delta = config.delta;
     if nshortest == 0 {
-        return Ok(FO::new());
+        let mut fst_res = FO::new();
+        fst_res.set_symts_from_fst(ifst);
+        return Ok(fst_res);
     }
 
     if nshortest == 1 {
-- 
2.43.0


From 4510fbd4fd9e525ea36e2d0588ebb9df5de3a709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:45 +0000
Subject: [PATCH 16/34] fix: invert exchanges the symbol tables along with the
 labels

---
 rustfst/src/algorithms/inversion.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/algorithms/inversion.rs b/rustfst/src/algorithms/inversion.rs
index 169d25a..19710b6 100644
--- a/rustfst/src/algorithms/inversion.rs
+++ b/rustfst/src/algorithms/inversion.rs
@@ -4,7 +4,7 @@ use crate::fst_traits::MutableFst;
 use crate::semirings::Semiring;
 
 /// Invert the transduction corresponding to an FST
-/// by exchanging the FST's input and output labels.
+/// by exchanging the FST's input and output labels (and symbol tables).
 ///
 /// # Example 1
 /// ```
@@ -44,5 +44,14 @@ pub fn invert<W: Semiring, F: MutableFst<W>>(fst: &mut F) {
         }
     }
 
+    let isymt = fst.take_input_symbols();
+    let osymt = fst.take_output_symbols();
+    if let Some(symt) = osymt {
+        fst.set_input_symbols(symt);
+    }
+    if let Some(symt) = isymt {
+        fst.set_output_symbols(symt);
+    }
+
     fst.set_properties_with_mask(invert_properties(props), FstProperties::all_properties());
 }
-- 
2.43.0


From 28e79201d7e46f76ce84f3d10f60388863ac95a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:46 +0000
Subject: [PATCH 17/34] fix: project gives both sides the symbol table of the
 side it keeps

---
 rustfst/src/algorithms/projection.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/rustfst/src/algorithms/projection.rs b/rustfst/src/algorithms/projection.rs
index 3041524..938e299 100644
--- a/rustfst/src/algorithms/projection.rs
+++ b/rustfst/src/algorithms/projection.rs
@@ -74,6 +74,12 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
                     unsafe { it_trs.set_olabel_unchecked(idx_tr, ilabel) }
                 }
             }
+            match fst.input_symbols().cloned() {
+                Some(symt) => fst.set_output_symbols(symt),
+                None => {
+                    fst.take_output_symbols();
+                }
+            }
         }
         ProjectType::ProjectOutput => {
             for state in fst.states_range() {
@@ -84,6 +90,12 @@ pub fn project<W: Semiring, F: MutableFst<W>>(fst: &mut F, project_type: Project
                     unsafe { it_trs.set_ilabel_unchecked(idx_tr, olabel) }
                 }
             }
+            match fst.output_symbols().cloned() {
+                Some(symt) => fst.set_input_symbols(symt),
+                None => {
+                    fst.take_input_symbols();
+                }
+            }
         }
     };
     fst.set_properties_with_mask(
-- 
2.43.0


From 42151c8a975af81346a08e0a8242c4596cb7ae24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:47 +0000
Subject: [PATCH 18/34] fix: determinize gives the same subset the same state
 (subsets are ordered by state)

---
 .../src/algorithms/determinize/determinize_fsa_op.rs   | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
index c137f1a..26b273c 100644
--- a/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
+++ b/rustfst/src/algorithms/determinize/determinize_fsa_op.rs
@@ -1,7 +1,6 @@
 use std::borrow::Borrow;
 use std::collections::btree_map::Entry as EntryBTreeMap;
-use std::collections::hash_map::Entry as EntryHashMap;
-use std::collections::{BTreeMap, HashMap};
+use std::collections::BTreeMap;
 use std::fmt::Debug;
 use std::marker::PhantomData;
 use std::sync::Arc;
@@ -155,13 +154,14 @@ where
             det_tr.weight = CD::common_divisor(&det_tr.weight, &dest_elt.weight)?;
         }
 
-        let mut new_pairs = HashMap::new();
+        // Ordered by state: equal subsets must be equal sequences to be the same state.
+        let mut new_pairs = BTreeMap::new();
         for x in &mut det_tr.dest_tuple.subset.pairs {
             match new_pairs.entry(x.state) {
-                EntryHashMap::Vacant(e) => {
+                EntryBTreeMap::Vacant(e) => {
                     e.insert(x.clone());
                 }
-                EntryHashMap::Occupied(mut e) => {
+                EntryBTreeMap::Occupied(mut e) => {
                     e.get_mut().weight.plus_assign(&x.weight)?;
                 }
             };
-- 
2.43.0


From aef54981b426fc6ec1f5691ed9d4c7d79110d5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:47 +0000
Subject: [PATCH 19/34] fix: LabelReachableData::relabel_pairs returns the
 pairs in a fixed order

---
 rustfst/src/algorithms/compose/label_reachable.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/algorithms/compose/label_reachable.rs b/rustfst/src/algorithms/compose/label_reachable.rs
index 1269841..d58b288 100644
--- a/rustfst/src/algorithms/compose/label_reachable.rs
+++ b/rustfst/src/algorithms/compose/label_reachable.rs
@@ -102,6 +102,7 @@ impl LabelReachableData {
                 pairs.push((*key, *val));
             }
         }
+        pairs.sort_unstable();
 
         if avoid_collisions {
             for i in 1..=(self.label2index.len() as Label) {
-- 
2.43.0


From 416bbeeadba8d8988ae5bc320fa52e0d63866706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:47 +0000
Subject: [PATCH 20/34] fix: lazy caches and state tables are written in state
 order

---
 .../src/algorithms/lazy/cache/simple_hash_map_cache.rs    | 8 ++++++--
 rustfst/src/algorithms/lazy/state_table.rs                | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
index a91c67e..5852740 100644
--- a/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
+++ b/rustfst/src/algorithms/lazy/cache/simple_hash_map_cache.rs
@@ -228,7 +228,9 @@ pub fn write_simple_hashmap_cache<F: Write, W: SerializableSemiring>(
     write_bin_u64(writter, num_visited_states as u64)?;
 
     // Computed states serialization
-    for (state, cache_trs) in trs.data.iter() {
+    let mut visited_states: Vec<_> = trs.data.iter().collect();
+    visited_states.sort_unstable_by_key(|(state, _)| **state);
+    for (state, cache_trs) in visited_states {
         // Write CacheTrs trs
         write_hashmap_cache_trs(writter, cache_trs, state)?;
     }
@@ -246,7 +248,9 @@ pub fn write_simple_hashmap_cache<F: Write, W: SerializableSemiring>(
     write_bin_u64(writter, num_final_weights as u64)?;
 
     // Final weights serialization
-    for (state, final_weight) in final_weights.data.iter() {
+    let mut sorted_final_weights: Vec<_> = final_weights.data.iter().collect();
+    sorted_final_weights.sort_unstable_by_key(|(state, _)| **state);
+    for (state, final_weight) in sorted_final_weights {
         // Write final weight for state
         write_hashmap_cache_final_weight(writter, final_weight, state)?;
     }
diff --git a/rustfst/src/algorithms/lazy/state_table.rs b/rustfst/src/algorithms/lazy/state_table.rs
index 78522f7..aa77a74 100644
--- a/rustfst/src/algorithms/lazy/state_table.rs
+++ b/rustfst/src/algorithms/lazy/state_table.rs
@@ -159,7 +159,9 @@ impl<T: SerializeBinary + Hash + Eq + Clone> SerializeBinary for StateTable<T> {
         write_bin_u64(writer, table.tuple_to_id.len() as u64)?;
 
         // Final weights serialization
-        for (tuple, state) in table.tuple_to_id.iter() {
+        let mut tuples: Vec<_> = table.tuple_to_id.iter().collect();
+        tuples.sort_unstable_by_key(|(_, state)| **state);
+        for (tuple, state) in tuples {
             (*tuple).write_binary(writer)?;
             write_bin_u64(writer, *state as u64)?;
         }
-- 
2.43.0


From 1297e7f1ce6be099d8a3473d81e408914f8bbb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:39 +0000
Subject: [PATCH 21/34] fix: fst_convert keeps the transitions and final
 weights of an FST without start state

---
 rustfst/src/algorithms/fst_convert.rs | 40 +++++++++++++--------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rustfst/src/algorithms/fst_convert.rs b/rustfst/src/algorithms/fst_convert.rs
index ea96267..8b53645 100644
--- a/rustfst/src/algorithms/fst_convert.rs
+++ b/rustfst/src/algorithms/fst_convert.rs
@@ -16,18 +16,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for data in ifst.fst_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
-            }
-            for tr in data.trs.trs() {
-                unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
-            }
+    for data in ifst.fst_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(data.state_id, data.num_trs);
+        }
+        for tr in data.trs.trs() {
+            unsafe { ofst.add_tr_unchecked(data.state_id, tr.clone()) };
+        }
 
-            if let Some(final_weight) = data.final_weight {
-                unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
-            }
+        if let Some(final_weight) = data.final_weight {
+            unsafe { ofst.set_final_unchecked(data.state_id, final_weight.clone()) };
         }
     }
 
@@ -52,18 +52,18 @@ where
 
     if let Some(start) = ifst.start() {
         unsafe { ofst.set_start_unchecked(start) };
+    }
 
-        for fst_iter_data in ifst.fst_into_iter() {
-            unsafe {
-                ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
-            }
-            for tr in fst_iter_data.trs {
-                unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
-            }
+    for fst_iter_data in ifst.fst_into_iter() {
+        unsafe {
+            ofst.reserve_trs_unchecked(fst_iter_data.state_id, fst_iter_data.num_trs);
+        }
+        for tr in fst_iter_data.trs {
+            unsafe { ofst.add_tr_unchecked(fst_iter_data.state_id, tr) }
+        }
 
-            if let Some(w) = fst_iter_data.final_weight {
-                unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
-            }
+        if let Some(w) = fst_iter_data.final_weight {
+            unsafe { ofst.set_final_unchecked(fst_iter_data.state_id, w) };
         }
     }
 
-- 
2.43.0


From 0c4c3939740b61a7aa97bc70a0c8a0224968cd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 22/34] fix: del_states reports a state that does not exist
 instead of panicking

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index b7eb7d3..78d899b 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -133,7 +133,10 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
         let mut new_id = vec![0_i32; self.states.len()];
 
         for s in dstates {
-            new_id[s as usize] = -1;
+            match new_id.get_mut(s as usize) {
+                Some(id) => *id = -1,
+                None => bail!("State id {:?} doesn't exist", s),
+            }
         }
 
         let mut nstates = 0_usize;
-- 
2.43.0


From 2f8984f3f680a112128d774f18fab96220a38fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 23/34] fix: sort_trs_unchecked, a safe method, no longer reads
 out of bounds

---
 rustfst/src/fst_impls/vector_fst/mutable_fst.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
index 78d899b..206a567 100644
--- a/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/mutable_fst.rs
@@ -351,10 +351,8 @@ impl<W: Semiring> MutableFst<W> for VectorFst<W> {
 
     /// DOESN'T MODIFY THE PROPERTIES
     fn sort_trs_unchecked<F: Fn(&Tr<W>, &Tr<W>) -> Ordering>(&mut self, state: StateId, f: F) {
-        unsafe {
-            let trs = &mut self.states.get_unchecked_mut(state as usize).trs;
-            Arc::make_mut(&mut trs.0).sort_by(f);
-        }
+        let trs = &mut self.states[state as usize].trs;
+        Arc::make_mut(&mut trs.0).sort_by(f);
     }
 
     /// DOESN'T MODIFY THE PROPERTIES
-- 
2.43.0


From 5b3908d4631d1149f2c2f61eaccd3c4be175d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 24/34] fix: update_properties_after_add_tr, a safe method, no
 longer reads out of bounds

---
 rustfst/src/fst_impls/vector_fst/data_structure.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/fst_impls/vector_fst/data_structure.rs b/rustfst/src/fst_impls/vector_fst/data_structure.rs
index 50e3a79..e4ab7e7 100644
--- a/rustfst/src/fst_impls/vector_fst/data_structure.rs
+++ b/rustfst/src/fst_impls/vector_fst/data_structure.rs
@@ -78,7 +78,7 @@ impl<W: Semiring> VectorFstState<W> {
 
 impl<W: Semiring> VectorFst<W> {
     pub fn update_properties_after_add_tr(&mut self, state: StateId) {
-        let vector_state = unsafe { self.states.get_unchecked(state as usize) };
+        let vector_state = &self.states[state as usize];
 
         // Safe because at least one Tr has been added
         let new_tr = vector_state.trs.last().unwrap();
-- 
2.43.0


From bae358a4e9485ac63881b7a5b6ac2b18e4ed00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 25/34] fix: TrsIterMut::set_nextstate leaves the properties
 alone when it refuses

---
 rustfst/src/trs_iter_mut.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs_iter_mut.rs b/rustfst/src/trs_iter_mut.rs
index 73bfa1d..ce1bd95 100644
--- a/rustfst/src/trs_iter_mut.rs
+++ b/rustfst/src/trs_iter_mut.rs
@@ -126,11 +126,11 @@ impl<'a, W: Semiring> TrsIterMut<'a, W> {
     }
 
     pub fn set_nextstate(&mut self, idx: usize, nextstate: StateId) -> Result<()> {
-        keep_only_relevant_properties(self.properties);
         self.trs
             .get_mut(idx)
             .ok_or_else(|| format_err!("set_tr shouldn't be called when the iteration is over"))?
             .nextstate = nextstate;
+        keep_only_relevant_properties(self.properties);
         Ok(())
     }
 
-- 
2.43.0


From a73a0700996b0398b0595c7a0955036ef874ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:46 +0000
Subject: [PATCH 26/34] fix: is_final_unchecked agrees with is_final on a final
 weight of zero

---
 rustfst/src/fst_traits/fst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/fst_traits/fst.rs b/rustfst/src/fst_traits/fst.rs
index 9c59c69..a760d84 100644
--- a/rustfst/src/fst_traits/fst.rs
+++ b/rustfst/src/fst_traits/fst.rs
@@ -129,7 +129,9 @@ pub trait CoreFst<W: Semiring> {
     ///
     #[inline]
     unsafe fn is_final_unchecked(&self, state: StateId) -> bool {
-        self.final_weight_unchecked(state).is_some()
+        self.final_weight_unchecked(state)
+            .map(|final_weight| final_weight != W::zero())
+            .unwrap_or(false)
     }
 
     /// Check whether a state is the start state or not.
-- 
2.43.0


From 46b539b09469a559c7bc7d21124ed13fd0bc601a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 27/34] fix: report a string that is not UTF-8 as a parsing
 error when loading a binary FST

---
 rustfst/src/parsers/bin_fst/fst_header.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/rustfst/src/parsers/bin_fst/fst_header.rs b/rustfst/src/parsers/bin_fst/fst_header.rs
index 7a9ddae..1ca58e8 100644
--- a/rustfst/src/parsers/bin_fst/fst_header.rs
+++ b/rustfst/src/parsers/bin_fst/fst_header.rs
@@ -146,14 +146,8 @@ impl OpenFstString {
     }
     pub(crate) fn parse(i: &[u8]) -> IResult<&[u8], OpenFstString, NomCustomError<&[u8]>> {
         let (i, n) = parse_bin_i32(i)?;
-        let (i, s) = take(n as usize)(i)?;
-        Ok((
-            i,
-            OpenFstString {
-                n,
-                s: String::from_utf8(s.to_vec()).unwrap(),
-            },
-        ))
+        let (i, s) = map_res(take(n as usize), |s: &[u8]| String::from_utf8(s.to_vec()))(i)?;
+        Ok((i, OpenFstString { n, s }))
     }
 
     pub(crate) fn write<W: Write>(&self, file: &mut W) -> Result<()> {
-- 
2.43.0


From e25a16ae66d0a23e578eb3078cb71ad7ac568901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:40 +0000
Subject: [PATCH 28/34] fix: reject a binary FST whose start state, next states
 or transition ranges are out of range

---
 .../fst_impls/const_fst/serializable_fst.rs   | 13 +++++++-
 .../src/fst_impls/vector_fst/parse_const.rs   |  7 +++--
 .../fst_impls/vector_fst/serializable_fst.rs  |  6 +++-
 rustfst/src/parsers/bin_fst/utils_parsing.rs  | 30 +++++++++++++++++++
 4 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/fst_impls/const_fst/serializable_fst.rs b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
index da7fde4..c7d9a11 100644
--- a/rustfst/src/fst_impls/const_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/const_fst/serializable_fst.rs
@@ -16,7 +16,8 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{ExpandedFst, Fst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_nextstates, check_start_state, invalid_fst, parse_bin_fst_tr, parse_final_weight,
+    parse_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::parse_bin_i32;
@@ -223,6 +224,16 @@ fn parse_const_fst<W: SerializableSemiring>(
     }
     let (i, const_trs) = count(parse_bin_fst_tr, hdr.num_trs as usize)(i)?;
 
+    check_start_state(i, hdr.start, const_states.len())?;
+    check_nextstates(i, &const_trs, const_states.len())?;
+    for state in &const_states {
+        // The transitions of a state are a range of the transitions of the Fst.
+        match state.pos.checked_add(state.ntrs) {
+            Some(end) if end <= const_trs.len() => {}
+            _ => return Err(invalid_fst(i)),
+        }
+    }
+
     Ok((
         i,
         ConstFst {
diff --git a/rustfst/src/fst_impls/vector_fst/parse_const.rs b/rustfst/src/fst_impls/vector_fst/parse_const.rs
index e5ca2e9..fad6c99 100644
--- a/rustfst/src/fst_impls/vector_fst/parse_const.rs
+++ b/rustfst/src/fst_impls/vector_fst/parse_const.rs
@@ -17,7 +17,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::SerializableFst;
 use crate::parsers::bin_fst::fst_header::FstHeader;
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_nextstates, check_start_state, parse_bin_fst_tr, parse_final_weight, parse_start_state,
 };
 use crate::parsers::nom_utils::NomCustomError;
 use crate::semirings::SerializableSemiring;
@@ -94,10 +94,13 @@ fn parse_const_fst<W: SerializableSemiring>(
         i = take(CONST_ARCH_ALIGNMENT - (pos % CONST_ARCH_ALIGNMENT))(i)?.0;
     }
 
-    let mut vector_states = Vec::with_capacity(temp_states.len());
+    let num_states = temp_states.len();
+    check_start_state(i, hdr.start, num_states)?;
+    let mut vector_states = Vec::with_capacity(num_states);
     for temp_state in temp_states {
         let (j, trs) = count(parse_bin_fst_tr, temp_state.ntrs)(i)?;
         i = j;
+        check_nextstates(i, &trs, num_states)?;
         vector_states.push(VectorFstState {
             final_weight: temp_state.final_weight,
             trs: TrsVec(Arc::new(trs)),
diff --git a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
index 1ca8e1f..719771a 100644
--- a/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
+++ b/rustfst/src/fst_impls/vector_fst/serializable_fst.rs
@@ -12,7 +12,7 @@ use crate::fst_properties::FstProperties;
 use crate::fst_traits::{CoreFst, ExpandedFst, Fst, MutableFst, SerializableFst};
 use crate::parsers::bin_fst::fst_header::{FstFlags, FstHeader, OpenFstString, FST_MAGIC_NUMBER};
 use crate::parsers::bin_fst::utils_parsing::{
-    parse_bin_fst_tr, parse_final_weight, parse_start_state,
+    check_nextstates, check_start_state, parse_bin_fst_tr, parse_final_weight, parse_start_state,
 };
 use crate::parsers::bin_fst::utils_serialization::write_bin_fst_tr;
 use crate::parsers::nom_utils::NomCustomError;
@@ -155,6 +155,10 @@ fn parse_vector_fst<W: SerializableSemiring>(
         Tr::<W>::tr_type(),
     )?;
     let (i, states) = count(parse_vector_fst_state, header.num_states as usize)(i)?;
+    check_start_state(i, header.start, states.len())?;
+    for state in &states {
+        check_nextstates(i, state.trs.trs(), states.len())?;
+    }
     Ok((
         i,
         VectorFst {
diff --git a/rustfst/src/parsers/bin_fst/utils_parsing.rs b/rustfst/src/parsers/bin_fst/utils_parsing.rs
index a0c7d76..43b452f 100644
--- a/rustfst/src/parsers/bin_fst/utils_parsing.rs
+++ b/rustfst/src/parsers/bin_fst/utils_parsing.rs
@@ -1,3 +1,4 @@
+use nom::error::ErrorKind;
 use nom::number::complete::le_i32;
 use nom::IResult;
 
@@ -14,6 +15,35 @@ pub(crate) fn parse_start_state(s: i64) -> Option<StateId> {
     }
 }
 
+/// Error for a file that can be parsed but whose content is not a valid Fst.
+pub(crate) fn invalid_fst(i: &[u8]) -> nom::Err<NomCustomError<&[u8]>> {
+    nom::Err::Error(NomCustomError::Nom(i, ErrorKind::Verify))
+}
+
+/// Checks that the start state is one of the states of the Fst.
+pub(crate) fn check_start_state(
+    i: &[u8],
+    start: i64,
+    num_states: usize,
+) -> Result<(), nom::Err<NomCustomError<&[u8]>>> {
+    if start < -1 || start >= num_states as i64 {
+        return Err(invalid_fst(i));
+    }
+    Ok(())
+}
+
+/// Checks that the transitions lead to states of the Fst.
+pub(crate) fn check_nextstates<'a, W: SerializableSemiring>(
+    i: &'a [u8],
+    trs: &[Tr<W>],
+    num_states: usize,
+) -> Result<(), nom::Err<NomCustomError<&'a [u8]>>> {
+    if trs.iter().any(|tr| tr.nextstate as usize >= num_states) {
+        return Err(invalid_fst(i));
+    }
+    Ok(())
+}
+
 #[inline]
 pub(crate) fn parse_final_weight<W: SerializableSemiring>(weight: W) -> Option<W> {
     // TODO: Avoid this re-allocation
-- 
2.43.0


From ac35810471e0676645ef0004b74598109056766c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:57 +0000
Subject: [PATCH 29/34] fix: reject a text FST with a row that cannot be parsed
 instead of dropping the end of it

---
 rustfst/src/parsers/text_fst/parsed_text_fst.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rustfst/src/parsers/text_fst/parsed_text_fst.rs b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
index 4c88236..cc1037a 100644
--- a/rustfst/src/parsers/text_fst/parsed_text_fst.rs
+++ b/rustfst/src/parsers/text_fst/parsed_text_fst.rs
@@ -85,8 +85,11 @@ impl<W: SerializableSemiring> ParsedTextFst<W> {
     /// 3   0.67
     /// ```
     pub fn from_string(fst_string: &str) -> Result<Self> {
-        let (_, vec_rows_parsed) =
+        let (remainder, vec_rows_parsed) =
             vec_rows_parsed(fst_string).map_err(|_| format_err!("Error while parsing text fst"))?;
+        if !remainder.trim().is_empty() {
+            bail!("Error while parsing text fst. Unexpected content : {:?}", remainder)
+        }
 
         Ok(Self::from_vec_rows_parsed(vec_rows_parsed))
     }
-- 
2.43.0


From 136c879c229e1aa8ea82750b5b6e5f1894f2bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:57 +0000
Subject: [PATCH 30/34] fix: reject a text symbol table with a row that cannot
 be parsed instead of dropping the end of it

---
 rustfst/src/parsers/text_symt/nom_parser.rs       | 5 ++---
 rustfst/src/parsers/text_symt/parsed_text_symt.rs | 5 ++++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/rustfst/src/parsers/text_symt/nom_parser.rs b/rustfst/src/parsers/text_symt/nom_parser.rs
index 6d73061..76d7243 100644
--- a/rustfst/src/parsers/text_symt/nom_parser.rs
+++ b/rustfst/src/parsers/text_symt/nom_parser.rs
@@ -1,7 +1,6 @@
 use nom::bytes::complete::tag;
 use nom::character::complete::space1;
-use nom::multi::many0;
-use nom::sequence::terminated;
+use nom::multi::separated_list0;
 use nom::IResult;
 
 use crate::parsers::nom_utils::{num, word};
@@ -16,7 +15,7 @@ fn row(i: &str) -> IResult<&str, (Symbol, Label)> {
 }
 
 fn vec_rows(i: &str) -> IResult<&str, Vec<(Symbol, Label)>> {
-    many0(terminated(row, tag("\n")))(i)
+    separated_list0(tag("\n"), row)(i)
 }
 
 pub(crate) fn parse_text_symt(i: &str) -> IResult<&str, ParsedTextSymt> {
diff --git a/rustfst/src/parsers/text_symt/parsed_text_symt.rs b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
index 73a8b5c..80e8ca4 100644
--- a/rustfst/src/parsers/text_symt/parsed_text_symt.rs
+++ b/rustfst/src/parsers/text_symt/parsed_text_symt.rs
@@ -13,8 +13,11 @@ pub(crate) struct ParsedTextSymt {
 
 impl ParsedTextSymt {
     pub(crate) fn from_string(symt_string: &str) -> Result<Self> {
-        let (_, parsed_symt) = parse_text_symt(symt_string)
+        let (remainder, parsed_symt) = parse_text_symt(symt_string)
             .map_err(|_| format_err!("Error while parsing text symt"))?;
+        if !remainder.trim().is_empty() {
+            bail!("Error while parsing text symt. Unexpected content : {:?}", remainder)
+        }
         Ok(parsed_symt)
     }
 
-- 
2.43.0


From 2e34e0cb8232b1d92443dcb657b7c798d8baf5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:57 +0000
Subject: [PATCH 31/34] fix: compare the whole key when checking the labels of
 a binary symbol table

---
 rustfst/src/parsers/bin_symt/nom_parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/parsers/bin_symt/nom_parser.rs b/rustfst/src/parsers/bin_symt/nom_parser.rs
index 9967655..0e6f4ad 100644
--- a/rustfst/src/parsers/bin_symt/nom_parser.rs
+++ b/rustfst/src/parsers/bin_symt/nom_parser.rs
@@ -7,7 +7,7 @@ use crate::parsers::bin_fst::fst_header::OpenFstString;
 use crate::parsers::nom_utils::NomCustomError;
 use crate::parsers::{parse_bin_i32, parse_bin_i64};
 use crate::parsers::{write_bin_i32, write_bin_i64};
-use crate::{Label, SymbolTable};
+use crate::SymbolTable;
 use anyhow::Result;
 use std::io::Write;
 
@@ -31,7 +31,7 @@ pub(crate) fn parse_symbol_table_bin(
     let mut symt = SymbolTable::empty();
     for (key, symbol) in pairs_idx_symbols.into_iter() {
         let inserted_label = symt.add_symbol(symbol);
-        if inserted_label != key as Label {
+        if inserted_label as i64 != key {
             return Err(nom::Err::Error(NomCustomError::SymbolTableError(
                 format!("SymbolTable must contain increasing labels with no hole. Expected : {} and Got : {}", inserted_label, key)
             )));
-- 
2.43.0


From 39af86d2f585bcaf59264acd12fb79fbc4730f6d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Wed, 18 Nov 2026 14:50:22 +0000
Subject: [PATCH 32/34] fix: lazy FSTs count the transitions of states that are
 known but not expanded yet

---
 rustfst/src/algorithms/lazy/lazy_fst.rs   | 14 +++++++++++++-
 rustfst/src/algorithms/lazy/lazy_fst_2.rs | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/rustfst/src/algorithms/lazy/lazy_fst.rs b/rustfst/src/algorithms/lazy/lazy_fst.rs
index 572f5a1..d602cee 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst.rs
@@ -61,13 +61,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_known_state(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -90,12 +91,14 @@ impl<W: Semiring, Op: FstOp<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst<W, Op
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
@@ -223,6 +226,15 @@ where
         }
     }
 
+    /// Expands a state that is known but has not been visited yet, so that the cache can tell the
+    /// number of its transitions. Does nothing for an unknown state.
+    fn expand_known_state(&self, state: StateId) -> Result<()> {
+        if (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W> + AllocableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
diff --git a/rustfst/src/algorithms/lazy/lazy_fst_2.rs b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
index 73cfa90..16aa81a 100644
--- a/rustfst/src/algorithms/lazy/lazy_fst_2.rs
+++ b/rustfst/src/algorithms/lazy/lazy_fst_2.rs
@@ -56,13 +56,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_trs(&self, s: StateId) -> Result<usize> {
+        self.expand_known_state(s)?;
         self.cache
             .num_trs(s)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", s))
     }
 
     unsafe fn num_trs_unchecked(&self, s: StateId) -> usize {
-        self.cache.num_trs(s).unsafe_unwrap()
+        self.num_trs(s).unsafe_unwrap()
     }
 
     fn get_trs(&self, state_id: StateId) -> Result<Self::TRS> {
@@ -86,12 +87,14 @@ impl<W: Semiring, Op: FstOp2<W>, Cache: FstCache<W>> CoreFst<W> for LazyFst2<W,
     }
 
     fn num_input_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_input_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
     }
 
     fn num_output_epsilons(&self, state: StateId) -> Result<usize> {
+        self.expand_known_state(state)?;
         self.cache
             .num_output_epsilons(state)
             .ok_or_else(|| format_err!("State {:?} doesn't exist", state))
@@ -219,6 +222,15 @@ where
         }
     }
 
+    /// Expands a state that is known but has not been visited yet, so that the cache can tell the
+    /// number of its transitions. Does nothing for an unknown state.
+    fn expand_known_state(&self, state: StateId) -> Result<()> {
+        if (state as usize) < self.cache.num_known_states() {
+            self.get_trs(state)?;
+        }
+        Ok(())
+    }
+
     /// Turns the Lazy FST into a static one.
     pub fn compute<F2: MutableFst<W>>(&self) -> Result<F2> {
         let start_state = self.start();
-- 
2.43.0


From c227a3d8a835bfe28cf2db402eaf157987dc4672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:30 +0000
Subject: [PATCH 33/34] fix: TrsConst::to_trs_vec gives the transitions of its
 state, not of the whole FST

---
 rustfst/src/trs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rustfst/src/trs.rs b/rustfst/src/trs.rs
index b20ec1f..d1f8247 100644
--- a/rustfst/src/trs.rs
+++ b/rustfst/src/trs.rs
@@ -77,7 +77,7 @@ impl<W: Semiring> Trs<W> for TrsConst<W> {
     }
 
     fn to_trs_vec(&self) -> TrsVec<W> {
-        TrsVec(Arc::clone(&self.trs))
+        TrsVec(Arc::new(self.trs().to_vec()))
     }
 
     // Doesn't clone the data, only the Arc
-- 
2.43.0


From 05c731e1292cc0fe8e9629327704ebe3f0044ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:04 +0000
Subject: [PATCH 34/34] fix: dividing a zero union weight gives zero instead of
 an error

---
 rustfst/src/semirings/union_weight.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rustfst/src/semirings/union_weight.rs b/rustfst/src/semirings/union_weight.rs
index 3897971..ed45ed8 100644
--- a/rustfst/src/semirings/union_weight.rs
+++ b/rustfst/src/semirings/union_weight.rs
@@ -224,6 +224,7 @@ where
     fn divide_assign(&mut self, rhs: &Self, divide_type: DivideType) -> Result<()> {
         if self.is_zero() || rhs.is_zero() {
             self.list.clear();
+            return Ok(());
         }
         let mut quot = Self::zero();
         if self.len() == 1 {
-- 
2.43.0

