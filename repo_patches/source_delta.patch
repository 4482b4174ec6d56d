From bbc5e72344dce1fa8c30441b031313b1f1903a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 01/81] fix: inplace_row_swap exchanges rows, not columns

---
 gmatlib/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 455146a..bf129a9 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -252,9 +252,9 @@ where T: Element<T>
         let mut storage: T;
         for i in 0..self.cols
         {
-            storage       = self[(i, r1)];
-            self[(i, r1)] = self[(i, r2)];
-            self[(i, r2)] = storage;
+            storage       = self[(r1, i)];
+            self[(r1, i)] = self[(r2, i)];
+            self[(r2, i)] = storage;
         } 
     }
 
-- 
2.43.0


From 48fef170bc8c571e90cc1d806a1aa3420b157b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 02/81] fix: writing outside a matrix panics instead of
 changing another row

---
 gmatlib/src/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index d5999b4..9f11a11 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -805,6 +805,10 @@ where T: Element<T>
     #[inline]
     fn index_mut(&mut self, index: (usize, usize)) -> &mut T 
     {
+        if index.0 >= self.rows || index.1 >= self.cols 
+        {
+            panic!("index out of bounds: the matrix has {} rows and {} cols but the index was [({}, {})]", self.rows, self.cols, index.0, index.1)
+        }
         &mut (self.vals[index.0 * self.cols + index.1])
     }
 }
-- 
2.43.0


From 4654d25d97b140ef00a12067144801d40b371b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 03/81] fix: building a matrix with zero columns is an error,
 not a division by zero

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index bf129a9..cd14e6f 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -114,7 +114,7 @@ where T: Element<T>
     /// ```
     pub fn from_vec(cols: usize, vec: Vec<T>) -> Result<Matrix<T>>
     {
-        if vec.len() % cols != 0
+        if cols == 0 || vec.len() % cols != 0
         {
             return Err(MatrixFromVecError.into())
         }
-- 
2.43.0


From 9bbffaf3067081c24f5d0407419af72e785fcf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:32 +0000
Subject: [PATCH 04/81] fix: pivot while inverting matrices larger than 4 x 4

---
 gmatlib/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index cd14e6f..12f7a09 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -17,7 +17,7 @@ use error::*;
 use num_traits::Num;
 
 /// A helper trait to constrain the type of the elements of a `Matrix<T>`.
-pub trait Element<T>: Num + Copy + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
+pub trait Element<T>: Num + Copy + PartialOrd + Debug + Display + AddAssign + MulAssign + SubAssign + Neg<Output = T> {}
 
 impl Element<f32> for f32 {}
 impl Element<f64> for f64 {}
@@ -684,8 +684,22 @@ where T: Element<T>
         let n = self.rows;
         let mut inv: Matrix<T> = Matrix::new_identity(n);
 
+        let abs = |x: T| if x < T::zero() { -x } else { x };
+
         for j in 0..n
         {
+            // use the largest value available in this column as the pivot
+            let mut pivot = j;
+            for i in j+1..n
+            {
+                if abs(self[(i, j)]) > abs(self[(pivot, j)])
+                {
+                    pivot = i;
+                }
+            }
+            self.inplace_row_swap(j, pivot);
+            inv.inplace_row_swap(j, pivot);
+
             for i in 0..n
             {
                 if i == j
-- 
2.43.0


From 4494d7e5648ef10280eef79a16b3eaf6dfd6b21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:03 +0000
Subject: [PATCH 05/81] fix: the C interface borrows matrices, so a failed call
 no longer frees them

---
 gmatlib/src/ffi.rs | 67 ++++++++++++++--------------------------------
 1 file changed, 20 insertions(+), 47 deletions(-)

diff --git a/gmatlib/src/ffi.rs b/gmatlib/src/ffi.rs
index 16ed4e1..d94c824 100644
--- a/gmatlib/src/ffi.rs
+++ b/gmatlib/src/ffi.rs
@@ -1,5 +1,4 @@
 use std::ffi::{c_double, c_uint, c_void};
-use std::mem;
 use std::panic::catch_unwind;
 use std::ptr::null_mut;
 use crate::{Matrix, MatrixInversionError};
@@ -39,10 +38,8 @@ pub extern "C" fn new_double_identity_matrix(n: c_uint) -> *mut c_void
 pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_swap(r1 as usize, r2 as usize);
-        
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -56,10 +53,8 @@ pub extern "C" fn inplace_row_swap(ptr: *mut c_void, r1: c_uint, r2: c_uint) ->
 pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_scale(row as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -73,10 +68,8 @@ pub extern "C" fn inplace_row_scale(ptr: *mut c_void, row: c_uint, scalar: c_dou
 pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scale(scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -90,10 +83,8 @@ pub extern "C" fn inplace_scale(ptr: *mut c_void, scalar: c_double) -> c_uint
 pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_row_add(r1 as usize, r2 as usize);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -107,10 +98,8 @@ pub extern "C" fn inplace_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint) -> c
 pub extern "C" fn inplace_scaled_row_add(ptr: *mut c_void, r1: c_uint, r2: c_uint, scalar: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a.inplace_scaled_row_add(r1 as usize, r2 as usize, scalar);
-
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
     });
 
     match res
@@ -126,19 +115,16 @@ pub extern "C" fn multiply_matrix(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mu
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.multiply_matrix(&b) 
+        let ab = match a.multiply_matrix(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
 
@@ -155,19 +141,16 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
     let res = catch_unwind(|| {
         let (a, b) = unsafe 
         {(
-            Box::from_raw(ptr_a as *mut Matrix<c_double>),
-            Box::from_raw(ptr_b as *mut Matrix<c_double>),
+            &*(ptr_a as *const Matrix<c_double>),
+            &*(ptr_b as *const Matrix<c_double>),
         )};
     
-        let ab = match a.augment_with(&b) 
+        let ab = match a.augment_with(b) 
         {
             Ok(x)  => Box::new(x),
             Err(_) => return null_mut(), // return early and indicate failure via NULL
         };
     
-        mem::forget(a); // Prevent drop that would deallocate matrix data. We don't inform the
-        mem::forget(b); // caller that a or b will be deallocated, so we shouldn't do it here.
-    
         Box::into_raw(ab) as *mut c_void
     });
     
@@ -182,9 +165,8 @@ pub extern "C" fn augment_with(ptr_a: *mut c_void, ptr_b: *mut c_void) -> *mut c
 pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c2: c_uint) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.subset(r1 as usize, c1 as usize, r2 as usize, c2 as usize));
-        mem::forget(a); // Prevent drop that would deallocate matrix data.
         Box::into_raw(b) as *mut c_void
     });
 
@@ -199,15 +181,13 @@ pub extern "C" fn subset(ptr: *mut c_void, r1: c_uint, c1: c_uint, r2: c_uint, c
 pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let trace = match a.trace()
         {
             Ok(t) => t,
             Err(_) => c_double::NAN
         };
 
-        mem::forget(a); // Prevent drop that would deallocate the matrix data
-
         trace
     });
 
@@ -222,9 +202,8 @@ pub extern "C" fn trace(ptr: *mut c_void) -> c_double
 pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let b = Box::new(a.transpose());
-        mem::forget(a);
 
         Box::into_raw(b) as *mut c_void
     });
@@ -240,7 +219,7 @@ pub extern "C" fn transpose(ptr: *mut c_void) -> *mut c_void
 pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         let status = match a.try_inplace_invert()
         {
             Ok(_)  => c_uint::MAX,
@@ -255,8 +234,6 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
                 }
             }
         };
-    
-        mem::forget(a);
         status
     });
     
@@ -267,10 +244,8 @@ pub extern "C" fn try_inplace_invert(ptr: *mut c_void) -> c_uint
 pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint, value: c_double) -> c_uint
 {
     let res = catch_unwind(|| {
-        let mut a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &mut *(ptr as *mut Matrix<c_double>) };
         a[(i as usize, j as usize)] = value;
-
-        mem::forget(a);
     });
 
     match res
@@ -284,9 +259,8 @@ pub extern "C" fn index_mut_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint
 pub extern "C" fn index_double_matrix(ptr: *mut c_void, i: c_uint, j: c_uint) -> c_double
 {
     let res = catch_unwind(|| {
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
         let value = a[(i as usize, j as usize)];
-        mem::forget(a);
         value
     });
 
@@ -305,11 +279,10 @@ pub extern "C" fn clone_double_matrix(ptr: *mut c_void) -> *mut c_void
 {
     let res = catch_unwind(|| {
         // Get the actual matrix instance
-        let a = unsafe { Box::from_raw(ptr as *mut Matrix<c_double>) };
+        let a = unsafe { &*(ptr as *const Matrix<c_double>) };
 
-        // Use clone to allocate a new instance and mem::forget it AND the old instance
-        let b = a.clone();
-        mem::forget(a);
+        // Use clone to allocate a new instance, leaving the old instance with its owner
+        let b = Box::new(a.clone());
     
         Box::into_raw(b) as *mut c_void
     });
-- 
2.43.0


From d4ec2e75e348283dfe95d36300b5f0f028a13c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 06/81] fix: the single-unknown solver bounds the size of its
 last step in both directions

---
 geqslib/src/newton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 195bbae..8655159 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -48,7 +48,7 @@ where anyhow::Error: From<E>
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta <= margin // ...in both the y AND x directions...
+    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
     {
         return Ok(guess); // ...if so, exit early
     }
-- 
2.43.0


From ba2375905db4e1d855d81d59f34df6146f255742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 07/81] fix: compare the magnitude of the system vector with
 the margin, not its square

---
 geqslib/src/newton.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 8655159..5f9737d 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -165,7 +165,8 @@ where
     }
     let error = y.iter()
         .map(|v| v.powi(2))
-        .sum::<f64>();
+        .sum::<f64>()
+        .sqrt();
 
     // Calculate change vector and its magnitude
     let deltas = jacobian * Matrix::from_col_vec(y);
-- 
2.43.0


From 90e6cef1e2f8ffec6c5358420e38934eb9781997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 08/81] fix: solve_equation_with_context starts from the
 caller's guess

---
 geqslib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 5e58539..01e1d59 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -102,7 +102,7 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, 1.0, margin, limit)?))
+    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From a19375e1f0a8c63f7be246d86a4903b240aebb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 09/81] fix: a new variable starts inside its domain

---
 geqslib/src/variable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/variable.rs b/geqslib/src/variable.rs
index ca08bf9..bce93fd 100644
--- a/geqslib/src/variable.rs
+++ b/geqslib/src/variable.rs
@@ -13,12 +13,14 @@ impl Variable
     pub fn new<T>(value: T, min: T, max: T) -> Variable
     where T: Into<f64> + Copy
     {
-        Variable
+        let mut var = Variable
         {
             value: value.into(),
             min: min.into(),
             max: max.into(),
-        }
+        };
+        var.set(value); // keep the initial value in the domain as well
+        var
     }
 
     /// Sets the value of the variable, clamping its 
-- 
2.43.0


From e7ac518847bbfb5ea10f6d60793738e1f554f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 10/81] fix: equations of a system accept variables that later
 equations introduce

---
 geqslib/src/shunting.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index ddcb1c5..c01cd43 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -311,6 +311,7 @@ pub fn compile_to_fn_of_hashmap(expr: &str, context: &ContextHashMap) -> anyhow:
             match arg_lookup_table.get(var)
             {
                 Some(Token::Var(r)) => (*r.borrow_mut()).set(*value),
+                None => continue, // not a variable of this expression
                 _ => return Err(CompiledExpressionLookupError.into()),
             }
         }
-- 
2.43.0


From ab2f98d581921c9859962fd97f812ff58983e44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 11/81] fix: an equation that fails to compile leaves the
 context as it was

---
 geqslib/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 01e1d59..e34d163 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -56,12 +56,23 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         .collect();
 
     // Add a default guess value of 1 for all unspecified vars
-    for var in unknowns
+    for var in &unknowns
     {
-        ctx.add_var_with_domain_to_ctx(&var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
+        ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+
+    // Forget the unknowns of an equation that could not be compiled
+    if compiled.is_err()
+    {
+        for var in &unknowns
+        {
+            ctx.remove(var);
+        }
+    }
+
+    compiled
 }
 
 /// Solves an equation given as a string for the SINGLE
-- 
2.43.0


From 39147292a9ef88e26a22a1a4de29fb6acf7939bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:02 +0000
Subject: [PATCH 12/81] fix: solutions lie inside the domains of their
 variables

---
 geqslib/src/lib.rs    |  5 ++++-
 geqslib/src/system.rs | 15 +++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index e34d163..57b06ed 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -22,6 +22,7 @@ use errors::EquationSolverError;
 use newton::newton_raphson;
 use shunting::{ContextHashMap, compile_to_fn, compile_to_fn_of_hashmap, get_legal_variables_iter, new_context};
 use system::get_equation_unknowns;
+use variable::Variable;
 
 /// An internal function for formatting a single-unknown equation to an expression prior to tokenization 
 pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -> anyhow::Result<impl Fn(f64) -> anyhow::Result<f64>>
@@ -113,7 +114,9 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
     let f = compile_equation_to_fn(equation, ctx)?;
 
-    Ok((unknowns[0].to_owned(), newton_raphson(f, guess, margin, limit)?))
+    let soln = Variable::new(newton_raphson(f, guess, margin, limit)?, min, max); // keep the solution in its domain
+
+    Ok((unknowns[0].to_owned(), soln.into()))
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 1e41440..08c41e3 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -337,11 +337,15 @@ impl System
     pub fn solve(self, margin: f64, limit: usize) -> anyhow::Result<HashMap<String, f64>>
     {
         let mut guess = HashMap::new();
+        let mut vars = HashMap::new();
         for (key, var) in self.context
         {
             match var
             {
-                Token::Var(x) => guess.insert(key, (*x.borrow()).into()),
+                Token::Var(x) => {
+                    guess.insert(key.clone(), (*x.borrow()).into());
+                    vars.insert(key, x);
+                },
                 _ => continue,
             };
         }
@@ -353,7 +357,14 @@ impl System
             limit
         )?;
 
-        Ok(res.clone())
+        // Report the solution as the variables hold it: inside their domains
+        Ok(vars.into_iter()
+            .map(|(key, var)| {
+                var.borrow_mut().set(res[&key]);
+                let soln = (*var.borrow()).into();
+                (key, soln)
+            })
+            .collect())
     }
 }
 
-- 
2.43.0


From adac02f925f018e7236057c244762a617bee56ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 13/81] fix: an unknown that was not solved for stays unknown
 in the context

---
 geqslib/src/lib.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 57b06ed..4461f05 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -112,11 +112,20 @@ pub fn solve_equation_with_context(equation: &str, ctx: &mut ContextHashMap, gue
     }
     
     ctx.add_var_with_domain_to_ctx(unknowns[0], guess, min, max);
-    let f = compile_equation_to_fn(equation, ctx)?;
+    let root = compile_equation_to_fn(equation, ctx)
+        .and_then(|f| newton_raphson(f, guess, margin, limit));
 
-    let soln = Variable::new(newton_raphson(f, guess, margin, limit)?, min, max); // keep the solution in its domain
-
-    Ok((unknowns[0].to_owned(), soln.into()))
+    match root
+    {
+        Ok(x) => {
+            let soln = Variable::new(x, min, max); // keep the solution in its domain
+            Ok((unknowns[0].to_owned(), soln.into()))
+        },
+        Err(e) => {
+            ctx.remove(unknowns[0]); // it is still unknown
+            Err(e)
+        },
+    }
 }
 
 /// Solves an equation given as a string for a SINGLE unknown variable.
-- 
2.43.0


From e7f6d54c3c6dfa7aa669af2be0140815e55ef86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:21 +0000
Subject: [PATCH 14/81] fix: a function applies to its parenthesized arguments
 only

---
 geqslib/src/shunting.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index c01cd43..bb5155c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -174,6 +174,15 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         return Err(ShuntingYardError::UnclosedParenthesis.into())
                     }
                 }
+
+                // apply the function whose arguments were just closed
+                if let Some(Token::Func(_, _)) = stack.last().and_then(|op| context.get(*op))
+                {
+                    if let Some(func) = stack.pop()
+                    {
+                        queue.push(tokenize_with_context(func, context)?);
+                    }
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 4a8169bb2c98719b63ab2cf7db8bc272654dfdd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:47 +0000
Subject: [PATCH 15/81] fix: a closing parenthesis without an opening one is an
 error

---
 geqslib/src/shunting.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index bb5155c..7c3ca9c 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -159,20 +159,22 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             ")" => {
+                let mut found_opening = false;
                 while let Some(op) = stack.pop() 
                 {
                     if op != "(" 
                     {
                         queue.push(tokenize_with_context(op, context)?);
                     } 
-                    else if op == "(" 
+                    else 
                     {
+                        found_opening = true;
                         break;
                     } 
-                    else 
-                    {
-                        return Err(ShuntingYardError::UnclosedParenthesis.into())
-                    }
+                }
+                if !found_opening
+                {
+                    return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
 
                 // apply the function whose arguments were just closed
-- 
2.43.0


From 397cee67cc85493e4c913dbed311f4e2a8ebfd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 16/81] fix: reject expressions whose values, operators or
 arguments do not line up

---
 geqslib/src/shunting.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 7c3ca9c..4cf8ca6 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -131,10 +131,27 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
+    let mut arg_counts: Vec<usize> = Vec::new(); // Number of arguments started in each open parenthesis
     let mut unary_minus = true; // Indicator for whether the next '-' token is a unary operator
+    let mut last_word = "";
 
     for word in words 
     {
+        // A value may only appear where one is expected, i.e. where '-' would be a unary operator,
+        // and anything that follows a value only where there is one.
+        let is_empty_arg_list = word == ")" && last_word == "(";
+        match word
+        {
+            "-" => {},
+            "," | ")" | "^" | "/" | "*" | "+" if unary_minus && !is_empty_arg_list => {
+                return Err(ShuntingYardError::ExpectedArg.into())
+            },
+            "," | ")" | "^" | "/" | "*" | "+" => {},
+            _ if !unary_minus => return Err(ShuntingYardError::LeftoverToken.into()),
+            _ => {},
+        }
+        last_word = word;
+
         match word 
         {
             "," => {
@@ -150,11 +167,17 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                         break;
                     }
                 }
+                match arg_counts.last_mut()
+                {
+                    Some(count) => *count += 1,
+                    None => return Err(ShuntingYardError::LeftoverToken.into()),
+                }
                 unary_minus = true;
             },
 
             "(" => {
                 stack.push(word);
+                arg_counts.push(1);
                 unary_minus = true;
             },
 
@@ -177,14 +200,23 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
                     return Err(ShuntingYardError::UnclosedParenthesis.into())
                 }
 
+                let started_args = arg_counts.pop().unwrap_or(1);
+                let num_args = if is_empty_arg_list { 0 } else { started_args };
+                let mut expected_args = 1;
+
                 // apply the function whose arguments were just closed
-                if let Some(Token::Func(_, _)) = stack.last().and_then(|op| context.get(*op))
+                if let Some(Token::Func(args, _)) = stack.last().and_then(|op| context.get(*op))
                 {
+                    expected_args = *args;
                     if let Some(func) = stack.pop()
                     {
                         queue.push(tokenize_with_context(func, context)?);
                     }
                 }
+                if num_args != expected_args
+                {
+                    return Err(ShuntingYardError::ExpectedArg.into())
+                }
                 unary_minus = false;
             },
 
-- 
2.43.0


From 18315f1436cc12cf2eb1f5ded7317f42b9e90b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:13 +0000
Subject: [PATCH 17/81] fix: any white space separates the parts of an
 expression

---
 geqslib/src/shunting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 4cf8ca6..2acb88e 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -127,7 +127,7 @@ fn tokenize_with_context(tok: &str, context: &ContextHashMap) -> anyhow::Result<
 fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>> 
 {
     let punctuated = punctuate(expr);
-    let words = punctuated.split(' ').filter(|c| !c.is_empty());
+    let words = punctuated.split_whitespace();
 
     let mut stack: Vec<&str> = Vec::new();
     let mut queue: Vec<Token> = Vec::new();
-- 
2.43.0


From 043f7837b8e2891f284e2d8fed47d74175f16d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 18/81] fix: numbers may be written in scientific notation

---
 geqslib/src/shunting.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index 2acb88e..e7b68e3 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -30,9 +30,11 @@ pub fn get_legal_variables_iter(text: &str) -> impl Iterator<Item = &str>
 {
     lazy_static! 
     {
-        static ref RE: Regex = Regex::new(r"(?i)[a-z][a-z0-9_]*").unwrap();
+        static ref RE: Regex = Regex::new(r"(?i)[0-9.]+(?:e[+-]?[0-9]+)?|[a-z][a-z0-9_]*").unwrap();
     }
-    RE.find_iter(text).map(|i| i.as_str())
+    RE.find_iter(text)
+        .map(|i| i.as_str())
+        .filter(|i| i.starts_with(|c: char| c.is_ascii_alphabetic())) // skip numbers, e.g. "1e5"
 }
 
 const _OPERATORS_: &str = "()^*/+-";
@@ -64,10 +66,19 @@ fn prec_check(o1: &str, o2: &str) -> bool
 /// a `&str`. 
 fn punctuate(expr: &str) -> String 
 {
+    lazy_static! 
+    {
+        // The part of a number in scientific notation that precedes the sign of its exponent
+        static ref EXPONENT: Regex = Regex::new(r"(?i)(?:^|[^a-z0-9_.])[0-9.]+e$").unwrap();
+    }
     let mut output = String::new();
     for c in expr.chars() 
     {
-        if _OPERATORS_.contains(c) || c == ','
+        if "+-".contains(c) && output.ends_with(['e', 'E']) && EXPONENT.is_match(&output)
+        {
+            output.push(c);
+        }
+        else if _OPERATORS_.contains(c) || c == ','
         {
             output += &format!(" {c} ");
         }
-- 
2.43.0


From 02823e3c1b7d6aa6358d8aa73d7d929a56c88be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 19/81] fix: solve_equation works on a real copy of the
 caller's context

---
 geqslib/src/ffi.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index 40e3d88..c8d0b03 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -1,6 +1,6 @@
 use std::ffi::{c_char, c_int, c_void, c_double, c_uint, CStr, CString};
 use std::panic::catch_unwind;
-use std::ptr::{null, copy_nonoverlapping};
+use std::ptr::null;
 
 use crate::shunting::{ContextHashMap, new_context, ContextLike};
 use crate::solve_equation_with_context;
@@ -57,8 +57,7 @@ pub extern "C" fn solve_equation(equation: *const c_char, context: *const c_void
     let res = catch_unwind(|| {
         let equation_str = unsafe { new_owned_string(equation) };
 
-        let mut ctx = ContextHashMap::new();
-        unsafe { copy_nonoverlapping(context as *const ContextHashMap, &mut ctx, 1) };
+        let mut ctx = unsafe { (*(context as *const ContextHashMap)).clone() };
 
         let (var, val) = match solve_equation_with_context(&equation_str, &mut ctx, guess, min, max, margin, limit as usize)
         {
-- 
2.43.0


From 6f4f3e626c2c132f4eb4483a198fb7aaec99d112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:35 +0000
Subject: [PATCH 20/81] fix: specify_variable reports a variable that is not in
 the system

---
 geqslib/src/ffi.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index c8d0b03..ce27570 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -192,14 +192,14 @@ pub extern "C" fn specify_variable(p_system: *mut c_void, var: *const c_char, gu
         unsafe
         {    
             let var_str = new_owned_string(var);
-            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max);
+            (*(p_system as *mut System)).specify_variable(&var_str, guess, min, max)
         }
     });
 
     match res
     {
-        Ok(_) => 1,
-        Err(_) => -1,
+        Ok(true) => 1,
+        Ok(false) | Err(_) => -1,
     }
 }
 
-- 
2.43.0


From 6c9820b45147d69eddf622244cef26ed5405cf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:00 +0000
Subject: [PATCH 21/81] fix: build_system leaves the builder with its owner

---
 geqslib/src/ffi.rs    | 12 ++++++++++--
 geqslib/src/system.rs |  1 +
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/ffi.rs b/geqslib/src/ffi.rs
index ce27570..f476ab6 100644
--- a/geqslib/src/ffi.rs
+++ b/geqslib/src/ffi.rs
@@ -152,12 +152,20 @@ pub extern "C" fn is_fully_constrained(p_builder: *mut c_void) -> c_int
 
 /// Tries to create a system from a `SystemBuilder` located at the given pointer,
 /// returning a pointer to the created `System` if successful or `NULL` if not.
+/// 
+/// A builder whose system is not fully constrained keeps its equations. In either case, it still
+/// belongs to the caller and must be freed with `free_system_builder`.
 #[no_mangle]
 pub extern "C" fn build_system(p_builder: *mut c_void) -> *const c_void
 {
     let res = catch_unwind(|| {
-        let builder = unsafe { Box::from_raw(p_builder as *mut SystemBuilder) };
-        let system = match builder.build_system()
+        let builder = unsafe { &mut *(p_builder as *mut SystemBuilder) };
+        if !builder.is_fully_constrained()
+        {
+            return null();
+        }
+
+        let system = match std::mem::take(builder).build_system()
         {
             Some(s) => s,
             None => return null(),
diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 08c41e3..29629ba 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -26,6 +26,7 @@ type BoxedFnOfHashMapToResultF64 = Box<dyn Fn(&HashMap<String, f64>) -> anyhow::
 
 /// An object for building up a system of equations and ensuring that it is 
 /// fully constrained prior to attempting to solve it.
+#[derive(Default)]
 pub struct SystemBuilder
 {
     context: ContextHashMap,
-- 
2.43.0


From a6ba1f886f197d18190bb98e78d4e3cfac681ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 22/81] fix: a variable that was solved for is a known value in
 later equations

---
 nexsys/src/lib.rs | 402 +++++++++++++++++++++++-----------------------
 1 file changed, 201 insertions(+), 201 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index dfcd9a8..9f55068 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,202 +1,202 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_var_with_domain_to_ctx(&soln.0, soln.1, var_info[1], var_info[2]);
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        for (j, equation) in eqn_pool.iter().enumerate()
-        {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
-            {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1); // the value is known from here on
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        for (j, equation) in eqn_pool.iter().enumerate()
+        {
+            // Skip the current equation we're building a system with 
+            // OR an equation that we've already added to the system
+            if j == i || eqn_strings.contains(equation)
+            {
+                continue;
+            }
+
+            // println!("Constraint status: {}", builder.is_fully_constrained());
+
+            match builder.try_constrain_with(equation)?
+            {
+                ConstrainResult::WillConstrain => {
+                    eqn_strings.push(equation.to_owned());
+                    // println!("constrained with: {}", equation);
+                },
+                ConstrainResult::WillOverConstrain => break,
+                _ => {}
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
-- 
2.43.0


From f2ffc7ddc9013c6cef8d4adb3c404be4ce4e14f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 23/81] fix: find constrained subsystems whatever the order of
 the equations

---
 nexsys/src/lib.rs | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 9f55068..56c599c 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -56,25 +56,32 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
         let mut builder = SystemBuilder::new(equation, ctx.clone())?;
         let mut eqn_strings = vec![equation.to_owned()];
 
-        for (j, equation) in eqn_pool.iter().enumerate()
+        // Keep going over the pool, an equation may become useful once another one was added
+        let mut still_learning = true;
+        while still_learning
         {
-            // Skip the current equation we're building a system with 
-            // OR an equation that we've already added to the system
-            if j == i || eqn_strings.contains(equation)
+            still_learning = false;
+            for (j, equation) in eqn_pool.iter().enumerate()
             {
-                continue;
-            }
-
-            // println!("Constraint status: {}", builder.is_fully_constrained());
-
-            match builder.try_constrain_with(equation)?
-            {
-                ConstrainResult::WillConstrain => {
-                    eqn_strings.push(equation.to_owned());
-                    // println!("constrained with: {}", equation);
-                },
-                ConstrainResult::WillOverConstrain => break,
-                _ => {}
+                // Skip the current equation we're building a system with 
+                // OR an equation that we've already added to the system
+                if j == i || eqn_strings.contains(equation)
+                {
+                    continue;
+                }
+
+                // println!("Constraint status: {}", builder.is_fully_constrained());
+
+                match builder.try_constrain_with(equation)?
+                {
+                    ConstrainResult::WillConstrain => {
+                        eqn_strings.push(equation.to_owned());
+                        still_learning = true;
+                        // println!("constrained with: {}", equation);
+                    },
+                    ConstrainResult::WillOverConstrain => break,
+                    _ => {}
+                }
             }
         }
             
-- 
2.43.0


From e45ce3f427f6bdbde60845949a42fea6535bdc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 24/81] fix: removing comments changes nothing else in the
 program

---
 nexsys/src/parsing/mod.rs | 424 +++++++++++++++++++-------------------
 1 file changed, 209 insertions(+), 215 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index a8087d9..b0a2cd7 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,216 +1,210 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"//[^\n]*");
-    }
-    let mut output = text.to_string();
-
-    for f in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        output = output.replace(f, "");
-    }
-
-    output
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = text.to_string();
-
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
-    {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
-        {
-            output = output.replace(m, &c.to_string());
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(code); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        // Lines that only contain a comment are removed as a whole
+        static ref RE: Regex = nexsys_regex(r"(?m)^[ \t]*//[^\n]*\n|[ \t]*//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = text.to_string();
+
+    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    {
+        if let Some(c) = CONSTS.get(&m.to_string()) 
+        {
+            output = output.replace(m, &c.to_string());
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(code); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
-- 
2.43.0


From c32f60716c37c4c62a65656355ffde50b0efc3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 25/81] fix: a constant's name may contain digits or start with
 another constant's name

---
 nexsys/src/parsing/mod.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index b0a2cd7..b6324c1 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -108,23 +108,27 @@ pub fn consts(text: &str) -> anyhow::Result<String>
 {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z_]+");
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z0-9_]+");
         static ref CONSTS: HashMap<String, f64> = const_data();
     }
 
-    let mut output = text.to_string();
+    let mut output = String::new();
+    let mut copied = 0;
 
-    for m in RE.find_iter(text).map(|i| i.as_str()) 
+    for m in RE.find_iter(text) 
     {
-        if let Some(c) = CONSTS.get(&m.to_string()) 
+        if let Some(c) = CONSTS.get(m.as_str()) 
         {
-            output = output.replace(m, &c.to_string());
+            output += &text[copied..m.start()];
+            output += &c.to_string();
+            copied = m.end();
         } 
         else 
         {
             return Err(ConstFormatError.into())
         }
     }
+    output += &text[copied..];
     Ok(output)
 }
 
-- 
2.43.0


From 3895e768164ec5ead5068f580b6a12031911933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 26/81] fix: volume units are lengths cubed

---
 nexsys/src/units/mod.rs | 326 ++++++++++++++++++++--------------------
 1 file changed, 163 insertions(+), 163 deletions(-)

diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index ddbc04e..d175f83 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
-- 
2.43.0


From 5c58611f19aea54d1279341c6f8e3a55f2455ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 27/81] fix: digit in the volume of a bushel

---
 nexsys/src/units/units.json | 638 ++++++++++++++++++------------------
 1 file changed, 319 insertions(+), 319 deletions(-)

diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 07cc519..478b720 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -1,320 +1,320 @@
-{
-    "LENGTH": {
-        "m": 1.0,
-        "meter": 1.0,
-        "metre": 1.0,
-        "Angstrom": 1e-10,
-        "nm": 1e-09,
-        "ft": 0.3048,
-        "dm": 0.1,
-        "in": 0.0254,
-        "inch": 0.0254,
-        "mm": 0.001,
-        "micron": 1e-06,
-        "micrometer": 1e-06,
-        "\u00c2\u00b5m": 1e-06,
-        "nanometer": 1e-09,
-        "millimeter": 0.001,
-        "cm": 0.01,
-        "km": 1000.0,
-        "yd": 0.9144,
-        "yard": 0.9144,
-        "mi": 1609.344,
-        "mile": 1609.344,
-        "miles": 1609.344,
-        "fathom": 1.8288,
-        "mil": 2.54e-05,
-        "rod": 5.0292,
-        "furlong": 201.168,
-        "league": 5556.0,
-        "hectometer": 100.0
-    },
-    "MASS": {
-        "kg": 1.0,
-        "lbm": 0.453592374,
-        "lb_m": 0.453592374,
-        "g": 0.001,
-        "ton": 907.184749,
-        "grain": 6.4799e-05,
-        "mg": 1e-06,
-        "oz": 0.028349523,
-        "ozm": 0.028349523,
-        "slug": 14.593881,
-        "stone": 6.350293236,
-        "amu": 1.660531e-27,
-        "\u00c2\u00b5g": 1e-09,
-        "microgram": 1e-09,
-        "mt": 1000.0,
-        "tonne": 1000.0
-    },
-    "MOLES": {
-        "kgmole": 1.0,
-        "kgmol": 1.0,
-        "kmole": 1.0,
-        "kmol": 1.0,
-        "lbmole": 0.453592374,
-        "lbmol": 0.453592374,
-        "gmole": 0.001,
-        "gmol": 0.001,
-        "mole": 0.001,
-        "mol": 0.001
-    },
-    "TIME": {
-        "s": 1.0,
-        "sec": 1.0,
-        "second": 1.0,
-        "min": 60.0,
-        "minute": 60.0,
-        "h": 3600.0,
-        "hr": 3600.0,
-        "hour": 3600.0,
-        "day": 86400.0,
-        "days": 86400.0,
-        "week": 604800.0,
-        "weeks": 604800.0,
-        "fortnight": 1209600.0,
-        "year": 31556952.0,
-        "yr": 31556952.0,
-        "years": 31556952.0,
-        "millisec": 0.001,
-        "\u00c2\u00b5sec": 1e-06,
-        "microsec": 1e-06
-    },
-    "FREQUENCY": {
-        "cps": 1.0,
-        "cpm": 0.016666667,
-        "Bq": 1.0,
-        "ci": 37000000000.0,
-        "Hz": 1.0
-    },
-    "TEMPERATURE": {
-        "K": 1.0,
-        "C": 1.0,
-        "R": 0.55555556,
-        "F": 0.55555556,
-        "\u00c2\u00b0C": 1.0,
-        "\u00c2\u00b0F": 0.55555556
-    },
-    "TEMP. DIFFERENCE": {
-        "DELTAK": 1.0,
-        "DELTAC": 1.0,
-        "DELTAF": 0.55555556,
-        "DELTAR": 0.55555556
-    },
-    "VELOCITY": {
-        "mph": 0.44704,
-        "knot": 0.51444,
-        "m/s": 1.0,
-        "km/s": 0.001,
-        "ft/s": 0.3048,
-        "kph": 0.2777778,
-        "km/h": 0.2777778
-    },
-    "AREA": {
-        "sqm": 1.0,
-        "sqcm": 0.0001,
-        "sqft": 0.09290304,
-        "sqin": 0.00064516,
-        "acre": 4046.856,
-        "hectare": 10000.0,
-        "barn": 1e-28
-    },
-    "VOLUME": {
-        "gal": 0.0037854118,
-        "gallon": 0.0037854118,
-        "l": 0.001,
-        "L": 0.001,
-        "Bu": 0.03523007016688,
-        "ml": 1e-06,
-        "milliliter": 1e-06,
-        "\u00c2\u00b5l": 1e-09,
-        "microliter": 1e-09,
-        "liter": 0.001,
-        "quart": 0.0009463264,
-        "oz": 2.9572702e-05,
-        "ozv": 2.9572702e-05,
-        "pint": 0.000473163,
-        "bbl": 0.1589873
-    },
-    "VOLUMETRIC FLOW": {
-        "cfm": 0.00047194744,
-        "gph": 1.051503e-06,
-        "gpm": 6.30902e-05
-    },
-    "FORCE": {
-        "N": 1.0,
-        "kN": 1000.0,
-        "lbf": 4.448222,
-        "lb_f": 4.448222,
-        "dyne": 1e-05,
-        "kgf": 9.80665,
-        "kg_f": 9.80665
-    },
-    "PRESSURE": {
-        "Pa": 1.0,
-        "milliPa": 0.001,
-        "microPa": 1e-06,
-        "\u00c2\u00b5Pa": 1e-06,
-        "kPa": 1000.0,
-        "MPa": 1000000.0,
-        "GPa": 1000000000.0,
-        "gigaPa": 1000000000.0,
-        "bar": 100000.0,
-        "milliBar": 100.0,
-        "atm": 101325.0,
-        "psia": 6894.75788958,
-        "psi": 6894.75788958,
-        "ksi": 6894757.88958,
-        "psig": 6894.75788958,
-        "psf": 47.88055555,
-        "mmH2O": 9.80665,
-        "mH2O": 9806.65,
-        "mmHg": 133.3224,
-        "inHg": 3386.388,
-        "torr": 133.3224,
-        "inH2O": 249.088,
-        "in.H2O": 249.088,
-        "ftH2O": 2989.057
-    },
-    "ENERGY": {
-        "J": 1.0,
-        "milliJ": 0.001,
-        "kJ": 1000.0,
-        "MJ": 1000000.0,
-        "Wh": 3600.0,
-        "Whr": 3600.0,
-        "kWh": 3600000.0,
-        "kWhr": 3600000.0,
-        "MWh": 3600000000.0,
-        "MWhr": 3600000000.0,
-        "GWh": 3600000000000.0,
-        "GWhr": 3600000000000.0,
-        "GJ": 1000000000.0,
-        "Btu": 1055.056,
-        "MBtu": 1055056000.0,
-        "MMBtu": 1055056000.0,
-        "kBtu": 1055056.0,
-        "cal": 4.1868,
-        "kcal": 4186.8,
-        "erg": 1e-07,
-        "ev": 1.60207e-19,
-        "eV": 1.60207e-19,
-        "keV": 1.60207e-16,
-        "kev": 1.60207e-16,
-        "mev": 1.60207e-13,
-        "meV": 1.60207e-13,
-        "bev": 1.60207e-10,
-        "beV": 1.60207e-10,
-        "therm": 105505600.0,
-        "therms": 105505600.0,
-        "quad": 1.055056e+18,
-        "quads": 1.055056e+18
-    },
-    "POWER": {
-        "W": 1.0,
-        "hp": 745.7,
-        "ton": 3516.852,
-        "tons": 3516.852,
-        "microW": 1e-06,
-        "milliW": 0.001,
-        "kW": 1000.0,
-        "MW": 1000000.0,
-        "MegaW": 1000000.0,
-        "gW": 1000000000.0,
-        "gigaW": 1000000000.0
-    },
-    "VISCOSITY-DYNAMIC": {
-        "poise": 0.1,
-        "centipoise": 0.001,
-        "micropoise": 1e-07,
-        "cp": 0.001,
-        "Reyn": 6894.7
-    },
-    "VISCOSITY-KINEMATIC": {
-        "Stoke": 0.0001,
-        "centiStoke": 1e-06
-    },
-    "ANGLES": {
-        "radian": 1.0,
-        "radians": 1.0,
-        "rad": 1.0,
-        "deg": 0.017453293,
-        "degree": 0.017453293,
-        "degrees": 0.017453293,
-        "\u00c2\u00b0": 0.017453293,
-        "rev": 6.28318530718,
-        "revs": 6.28318530718,
-        "revolutions": 6.28318530718,
-        "minute": 0.000290888,
-        "quadrant": 1.5707963,
-        "cycle": 6.28318530718,
-        "cycles": 6.28318530718
-    },
-    "CHARGE": {
-        "Coulomb": 1.0,
-        "Faraday": 96517.844,
-        "Abcoulomb": 10.0
-    },
-    "ELECTRICAL CAPACITANCE": {
-        "Farad": 1.0,
-        "pFarad": 1e-12,
-        "pF": 1e-12
-    },
-    "DIPOLE MOMENT": {
-        "Debye": 3.33564e-30
-    },
-    "CURRENT": {
-        "Amp": 1.0,
-        "Ampere": 1.0,
-        "A": 1.0
-    },
-    "ELECTRICAL RESISTANCE": {
-        "ohm": 1.0,
-        "kohm": 1000.0
-    },
-    "ELECTROMOTIVE FORCE": {
-        "Volt": 1.0,
-        "millivolt": 0.001,
-        "kV": 1000.0,
-        "MegaVolt": 1000000.0,
-        "v": 1.0
-    },
-    "INDUCTANCE": {
-        "Henry": 1.0
-    },
-    "NON DIMENSIONAL": {
-        "-": 1.0,
-        "space": 1.0,
-        "Percent": 0.01,
-        "%": 0.01,
-        "person": 1.0,
-        "persons": 1.0,
-        "ppm": 1e-06,
-        "ppb": 1e-09,
-        "any": 1.0
-    },
-    "MAGNETIC FLUX DENSITY": {
-        "Gauss": 0.0001,
-        "G": 0.0001,
-        "Tesla": 1.0,
-        "T": 1.0
-    },
-    "MAGNETIC FLUX": {
-        "Maxwell": 1e-08,
-        "Mx": 1e-08,
-        "Weber": 1.0,
-        "Wb": 1.0
-    },
-    "MAGNETIC FIELD STRENGTH": {
-        "Oersted": 79.5774715459,
-        "Oe": 79.5774715459
-    },
-    "ILLUMINANCE": {
-        "lm": 1.0
-    },
-    "ILLUMINANCE FLUX": {
-        "lux": 1.0,
-        "ftcndl": 10.763910417,
-        "mcndl": 1.0
-    }
+{
+    "LENGTH": {
+        "m": 1.0,
+        "meter": 1.0,
+        "metre": 1.0,
+        "Angstrom": 1e-10,
+        "nm": 1e-09,
+        "ft": 0.3048,
+        "dm": 0.1,
+        "in": 0.0254,
+        "inch": 0.0254,
+        "mm": 0.001,
+        "micron": 1e-06,
+        "micrometer": 1e-06,
+        "\u00c2\u00b5m": 1e-06,
+        "nanometer": 1e-09,
+        "millimeter": 0.001,
+        "cm": 0.01,
+        "km": 1000.0,
+        "yd": 0.9144,
+        "yard": 0.9144,
+        "mi": 1609.344,
+        "mile": 1609.344,
+        "miles": 1609.344,
+        "fathom": 1.8288,
+        "mil": 2.54e-05,
+        "rod": 5.0292,
+        "furlong": 201.168,
+        "league": 5556.0,
+        "hectometer": 100.0
+    },
+    "MASS": {
+        "kg": 1.0,
+        "lbm": 0.453592374,
+        "lb_m": 0.453592374,
+        "g": 0.001,
+        "ton": 907.184749,
+        "grain": 6.4799e-05,
+        "mg": 1e-06,
+        "oz": 0.028349523,
+        "ozm": 0.028349523,
+        "slug": 14.593881,
+        "stone": 6.350293236,
+        "amu": 1.660531e-27,
+        "\u00c2\u00b5g": 1e-09,
+        "microgram": 1e-09,
+        "mt": 1000.0,
+        "tonne": 1000.0
+    },
+    "MOLES": {
+        "kgmole": 1.0,
+        "kgmol": 1.0,
+        "kmole": 1.0,
+        "kmol": 1.0,
+        "lbmole": 0.453592374,
+        "lbmol": 0.453592374,
+        "gmole": 0.001,
+        "gmol": 0.001,
+        "mole": 0.001,
+        "mol": 0.001
+    },
+    "TIME": {
+        "s": 1.0,
+        "sec": 1.0,
+        "second": 1.0,
+        "min": 60.0,
+        "minute": 60.0,
+        "h": 3600.0,
+        "hr": 3600.0,
+        "hour": 3600.0,
+        "day": 86400.0,
+        "days": 86400.0,
+        "week": 604800.0,
+        "weeks": 604800.0,
+        "fortnight": 1209600.0,
+        "year": 31556952.0,
+        "yr": 31556952.0,
+        "years": 31556952.0,
+        "millisec": 0.001,
+        "\u00c2\u00b5sec": 1e-06,
+        "microsec": 1e-06
+    },
+    "FREQUENCY": {
+        "cps": 1.0,
+        "cpm": 0.016666667,
+        "Bq": 1.0,
+        "ci": 37000000000.0,
+        "Hz": 1.0
+    },
+    "TEMPERATURE": {
+        "K": 1.0,
+        "C": 1.0,
+        "R": 0.55555556,
+        "F": 0.55555556,
+        "\u00c2\u00b0C": 1.0,
+        "\u00c2\u00b0F": 0.55555556
+    },
+    "TEMP. DIFFERENCE": {
+        "DELTAK": 1.0,
+        "DELTAC": 1.0,
+        "DELTAF": 0.55555556,
+        "DELTAR": 0.55555556
+    },
+    "VELOCITY": {
+        "mph": 0.44704,
+        "knot": 0.51444,
+        "m/s": 1.0,
+        "km/s": 0.001,
+        "ft/s": 0.3048,
+        "kph": 0.2777778,
+        "km/h": 0.2777778
+    },
+    "AREA": {
+        "sqm": 1.0,
+        "sqcm": 0.0001,
+        "sqft": 0.09290304,
+        "sqin": 0.00064516,
+        "acre": 4046.856,
+        "hectare": 10000.0,
+        "barn": 1e-28
+    },
+    "VOLUME": {
+        "gal": 0.0037854118,
+        "gallon": 0.0037854118,
+        "l": 0.001,
+        "L": 0.001,
+        "Bu": 0.03523907016688,
+        "ml": 1e-06,
+        "milliliter": 1e-06,
+        "\u00c2\u00b5l": 1e-09,
+        "microliter": 1e-09,
+        "liter": 0.001,
+        "quart": 0.0009463264,
+        "oz": 2.9572702e-05,
+        "ozv": 2.9572702e-05,
+        "pint": 0.000473163,
+        "bbl": 0.1589873
+    },
+    "VOLUMETRIC FLOW": {
+        "cfm": 0.00047194744,
+        "gph": 1.051503e-06,
+        "gpm": 6.30902e-05
+    },
+    "FORCE": {
+        "N": 1.0,
+        "kN": 1000.0,
+        "lbf": 4.448222,
+        "lb_f": 4.448222,
+        "dyne": 1e-05,
+        "kgf": 9.80665,
+        "kg_f": 9.80665
+    },
+    "PRESSURE": {
+        "Pa": 1.0,
+        "milliPa": 0.001,
+        "microPa": 1e-06,
+        "\u00c2\u00b5Pa": 1e-06,
+        "kPa": 1000.0,
+        "MPa": 1000000.0,
+        "GPa": 1000000000.0,
+        "gigaPa": 1000000000.0,
+        "bar": 100000.0,
+        "milliBar": 100.0,
+        "atm": 101325.0,
+        "psia": 6894.75788958,
+        "psi": 6894.75788958,
+        "ksi": 6894757.88958,
+        "psig": 6894.75788958,
+        "psf": 47.88055555,
+        "mmH2O": 9.80665,
+        "mH2O": 9806.65,
+        "mmHg": 133.3224,
+        "inHg": 3386.388,
+        "torr": 133.3224,
+        "inH2O": 249.088,
+        "in.H2O": 249.088,
+        "ftH2O": 2989.057
+    },
+    "ENERGY": {
+        "J": 1.0,
+        "milliJ": 0.001,
+        "kJ": 1000.0,
+        "MJ": 1000000.0,
+        "Wh": 3600.0,
+        "Whr": 3600.0,
+        "kWh": 3600000.0,
+        "kWhr": 3600000.0,
+        "MWh": 3600000000.0,
+        "MWhr": 3600000000.0,
+        "GWh": 3600000000000.0,
+        "GWhr": 3600000000000.0,
+        "GJ": 1000000000.0,
+        "Btu": 1055.056,
+        "MBtu": 1055056000.0,
+        "MMBtu": 1055056000.0,
+        "kBtu": 1055056.0,
+        "cal": 4.1868,
+        "kcal": 4186.8,
+        "erg": 1e-07,
+        "ev": 1.60207e-19,
+        "eV": 1.60207e-19,
+        "keV": 1.60207e-16,
+        "kev": 1.60207e-16,
+        "mev": 1.60207e-13,
+        "meV": 1.60207e-13,
+        "bev": 1.60207e-10,
+        "beV": 1.60207e-10,
+        "therm": 105505600.0,
+        "therms": 105505600.0,
+        "quad": 1.055056e+18,
+        "quads": 1.055056e+18
+    },
+    "POWER": {
+        "W": 1.0,
+        "hp": 745.7,
+        "ton": 3516.852,
+        "tons": 3516.852,
+        "microW": 1e-06,
+        "milliW": 0.001,
+        "kW": 1000.0,
+        "MW": 1000000.0,
+        "MegaW": 1000000.0,
+        "gW": 1000000000.0,
+        "gigaW": 1000000000.0
+    },
+    "VISCOSITY-DYNAMIC": {
+        "poise": 0.1,
+        "centipoise": 0.001,
+        "micropoise": 1e-07,
+        "cp": 0.001,
+        "Reyn": 6894.7
+    },
+    "VISCOSITY-KINEMATIC": {
+        "Stoke": 0.0001,
+        "centiStoke": 1e-06
+    },
+    "ANGLES": {
+        "radian": 1.0,
+        "radians": 1.0,
+        "rad": 1.0,
+        "deg": 0.017453293,
+        "degree": 0.017453293,
+        "degrees": 0.017453293,
+        "\u00c2\u00b0": 0.017453293,
+        "rev": 6.28318530718,
+        "revs": 6.28318530718,
+        "revolutions": 6.28318530718,
+        "minute": 0.000290888,
+        "quadrant": 1.5707963,
+        "cycle": 6.28318530718,
+        "cycles": 6.28318530718
+    },
+    "CHARGE": {
+        "Coulomb": 1.0,
+        "Faraday": 96517.844,
+        "Abcoulomb": 10.0
+    },
+    "ELECTRICAL CAPACITANCE": {
+        "Farad": 1.0,
+        "pFarad": 1e-12,
+        "pF": 1e-12
+    },
+    "DIPOLE MOMENT": {
+        "Debye": 3.33564e-30
+    },
+    "CURRENT": {
+        "Amp": 1.0,
+        "Ampere": 1.0,
+        "A": 1.0
+    },
+    "ELECTRICAL RESISTANCE": {
+        "ohm": 1.0,
+        "kohm": 1000.0
+    },
+    "ELECTROMOTIVE FORCE": {
+        "Volt": 1.0,
+        "millivolt": 0.001,
+        "kV": 1000.0,
+        "MegaVolt": 1000000.0,
+        "v": 1.0
+    },
+    "INDUCTANCE": {
+        "Henry": 1.0
+    },
+    "NON DIMENSIONAL": {
+        "-": 1.0,
+        "space": 1.0,
+        "Percent": 0.01,
+        "%": 0.01,
+        "person": 1.0,
+        "persons": 1.0,
+        "ppm": 1e-06,
+        "ppb": 1e-09,
+        "any": 1.0
+    },
+    "MAGNETIC FLUX DENSITY": {
+        "Gauss": 0.0001,
+        "G": 0.0001,
+        "Tesla": 1.0,
+        "T": 1.0
+    },
+    "MAGNETIC FLUX": {
+        "Maxwell": 1e-08,
+        "Mx": 1e-08,
+        "Weber": 1.0,
+        "Wb": 1.0
+    },
+    "MAGNETIC FIELD STRENGTH": {
+        "Oersted": 79.5774715459,
+        "Oe": 79.5774715459
+    },
+    "ILLUMINANCE": {
+        "lm": 1.0
+    },
+    "ILLUMINANCE FLUX": {
+        "lux": 1.0,
+        "ftcndl": 10.763910417,
+        "mcndl": 1.0
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 50b3e07dc660711f369d65ec71092088da1ce45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 28/81] fix: a const is the value of its whole definition

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index b6324c1..3c9067f 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -136,7 +136,7 @@ pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)
 {
     lazy_static!
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *(@N)");
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
     }
     let mut res = (text.to_owned(), HashMap::new());
     let const_vals = RE.captures_iter(text);
-- 
2.43.0


From 2806ae860402c94ba5e9290a831f912ae0e447cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 29/81] fix: a space between minus and number in a declaration
 does not panic

---
 nexsys/src/parsing/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 3c9067f..e769979 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -36,7 +36,7 @@ pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
         res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
         res.1.insert(
             g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().parse()
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse number in guess declaration")
         );
     }
@@ -58,9 +58,9 @@ pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
         res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
         res.1.insert(
             d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().parse()
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().parse()
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
                 .expect("failed to parse second number in domain declaration")]
         );
     }
-- 
2.43.0


From 5e6aff267ebe02c41c38553b2838aae4ea30fb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:33 +0000
Subject: [PATCH 30/81] fix: declarations accept numbers in scientific notation

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e769979..e4edd24 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -10,7 +10,7 @@ use crate::{units::{convert, const_data}, errors::ConstFormatError};
 pub use conditionals::*;
 
 const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?";
 
 /// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
 fn nexsys_regex(pattern: &str) -> Regex
-- 
2.43.0


From 643b6f884077074c3ed192e8d66afb5cb8ad5a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 31/81] fix: the power of a negative constant includes its sign

---
 nexsys/src/parsing/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e4edd24..e40f366 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -120,7 +120,14 @@ pub fn consts(text: &str) -> anyhow::Result<String>
         if let Some(c) = CONSTS.get(m.as_str()) 
         {
             output += &text[copied..m.start()];
-            output += &c.to_string();
+            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
+            {
+                output += &format!("({c})"); // raise the whole constant to the power, not just its digits
+            }
+            else
+            {
+                output += &c.to_string();
+            }
             copied = m.end();
         } 
         else 
-- 
2.43.0


From 1d6459c214d838352f242e12064f218d2c0875c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 32/81] fix: conditionals leave names that contain a keyword
 alone

---
 nexsys/src/parsing/conditionals.rs | 293 +++++++++++++++--------------
 1 file changed, 150 insertions(+), 143 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 95fd7ba..796eb45 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,144 +1,151 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    let mut args = cndl.replace("if ",  "if(")  // make start of function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",")        // delimit arguments
-    .replace("else", "")        // (ditto)
-    .replace("end", ")");       // close function call
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{
+        // Keywords are whole words, they may also occur in the names of variables
+        static ref IF: Regex = nexsys_regex(r"\bif ");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END: Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
+    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
+    args = END.replace_all(&args, ")")                       // close function call
+    .replace([' ', '\n'], "")   // strip whitespace
+    .replace(':',   ",");       // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end\b"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
-- 
2.43.0


From 4aeed6dc2533b5b1c23486febff9a39d6276be4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 33/81] fix: programs with CRLF line endings mean the same as
 with LF

---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index e40f366..92a5376 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -170,7 +170,7 @@ pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<Stri
     let sys_guesses: HashMap<String, f64>;
     let sys_consts:  HashMap<String, f64>;
     
-    let mut nil = comments(code); 
+    let mut nil = comments(&code.replace("\r\n", "\n")); 
 
     // Copy-paste all common engineering constants (this happens first so users can rename constants)
     nil = consts(&nil)?;
-- 
2.43.0


From b93430ab2bf304bd26c31dff4b848b4f57fd4164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 34/81] fix: nxc reports an option without a value instead of
 crashing

---
 nexsys/src/main.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 62f9350..472b0d4 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -35,24 +35,24 @@ OPTIONS:
 
     for i in 0..args.len() {
         if args[i] == *"--margin" || args[i] == *"-tol" {
-            match args[i+1].parse::<f64>() {
-                Ok(o) => {
+            match args.get(i+1).map(|a| a.parse::<f64>()) {
+                Some(Ok(o)) => {
                     println!("[nxc].....margin set to {o}");
                     margin = o;
                 },
-                Err(_) => {
+                _ => {
                     println!("[nxc].....ERR: margin is not a valid float value");
                     process::exit(1);
                 }
             }
         }
         if args[i] == *"--max-iterations" || args[i] == *"-max" {
-            match args[i+1].parse::<usize>() {
-                Ok(o) => {
+            match args.get(i+1).map(|a| a.parse::<usize>()) {
+                Some(Ok(o)) => {
                     println!("[nxc].....iteration limit set to: {o}");
                     limit = o;
                 },
-                Err(_) => {
+                _ => {
                     println!("[nxc].....ERR: iteration limit is not a valid integer value");
                     process::exit(1);
                 }
-- 
2.43.0


From a8c3cee31a20d5628364f8839f8e465eeda88be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 35/81] fix: nxc --verbose reports text that does not compile
 instead of crashing

---
 nexsys/src/main.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 472b0d4..2f8bc66 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -61,11 +61,17 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let mut preprocess = conversions(&system).unwrap();
-            preprocess = consts(&preprocess).unwrap();
-            preprocess = conditionals(&preprocess).unwrap();
-            
-            println!("\n{preprocess}\n");
+            let preprocess = conversions(&system)
+                .and_then(|p| consts(&p))
+                .and_then(|p| conditionals(&p));
+
+            match preprocess {
+                Ok(p) => println!("\n{p}\n"),
+                Err(e) => {
+                    println!("[nxc].....ERR: {e}");
+                    process::exit(1);
+                }
+            }
         }
         if args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
-- 
2.43.0


From 00e283b421ddae66d6631981e3ed1b1c060d75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 36/81] fix: nxc knows the --output-file option that it
 documents

---
 nexsys/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 2f8bc66..89f0bc3 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -73,7 +73,7 @@ OPTIONS:
                 }
             }
         }
-        if args[i] == *"--to-file" || args[i] == *"-o" {
+        if args[i] == *"--output-file" || args[i] == *"--to-file" || args[i] == *"-o" {
             println!("[nxc].....Writing to file...");
             output_file = true;
         }
-- 
2.43.0


From 81fe8826d55d0ef7a1b0c3c1570bbcefe7c0b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:11 +0000
Subject: [PATCH 37/81] fix: nxc -o never overwrites the file that it solves

---
 nexsys/src/main.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 89f0bc3..276a03d 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,5 +1,6 @@
 use std::{env, process};
 use std::fs::{read_to_string, write};
+use std::path::Path;
 use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
 
 fn main() {
@@ -98,7 +99,13 @@ OPTIONS:
     );
 
     if output_file {
-        match write(args[1].replace(".nxs", ".txt"), output) {
+        let input_path = Path::new(&args[1]);
+        let mut output_path = input_path.with_extension("txt");
+        if output_path == input_path {
+            output_path = input_path.with_extension("soln.txt"); // never replace the given file
+        }
+
+        match write(output_path, output) {
             Ok(_) => process::exit(0),
             Err(_) => {
                 println!("[nxc].....ERR: nxc could not write to the output file");
-- 
2.43.0


From e81a70de416580984fb23c70863bba200e51035e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 38/81] fix: flux through an element that drives its input node
 has the right sign

---
 neapolitan/src/flux_formulas.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/flux_formulas.rs b/neapolitan/src/flux_formulas.rs
index 3ac3fe8..27d19f8 100644
--- a/neapolitan/src/flux_formulas.rs
+++ b/neapolitan/src/flux_formulas.rs
@@ -55,7 +55,11 @@ pub fn observe_flux(
     let mut discrepancy = sub_ref.try_borrow()?
         .get_flux_discrepancy()?;
 
-    discrepancy.inplace_scale(-1.0);
+    // The flux enters a driven output node, but leaves a driven input node
+    if drives_output
+    {
+        discrepancy.inplace_scale(-1.0);
+    }
 
     Ok(discrepancy)
 }
-- 
2.43.0


From 651d391dc262e379c94cd61889662e3a93634be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:54 +0000
Subject: [PATCH 39/81] fix: an input node driven by a source is below the
 output node by the source's value

---
 neapolitan/src/dc_circuits.rs   | 2 +-
 neapolitan/src/heat_transfer.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index 25c65a5..d31ad85 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -54,7 +54,7 @@ pub fn voltage_source(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index c7a811a..91fe3bf 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -115,7 +115,7 @@ pub fn temperature_delta(
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
-- 
2.43.0


From df1a9d391be642cefe9f7e17edbb5fce9b8857ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:09 +0000
Subject: [PATCH 40/81] fix: driven nodes follow the nodes that drive them in
 every flux balance

---
 neapolitan/src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 222c295..9ff89fd 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -286,6 +286,7 @@ impl NodalAnalysisStudyBuilder
                 };
 
                 let local_nodes = nodes.to_vec();
+                let local_elements = elements.to_vec();
 
                 guess.insert(idx, 1.0);
                 partials.push(move |x: &HashMap<ComponentIndex, f64>| {
@@ -295,6 +296,7 @@ impl NodalAnalysisStudyBuilder
                             .try_borrow_mut()?
                             .potential[(component as usize, 0)] = val;
                     }
+                    update_driven_nodes(&local_elements)?;
 
                     let flux_discrepancy = local_nodes[node_idx]
                         .try_borrow()?
@@ -313,6 +315,7 @@ impl NodalAnalysisStudyBuilder
             let mut node = nodes[idx.node as usize].try_borrow_mut()?;
             node.potential[(idx.component as usize, 0)] = *component;
         }
+        update_driven_nodes(&elements)?;
 
         // Step 6 - gather results
         let mut result = NodalAnalysisStudyResult 
@@ -342,6 +345,18 @@ impl NodalAnalysisStudyBuilder
     }
 }
 
+/// Makes the potentials of driven nodes follow the potentials of the nodes 
+/// that drive them. Calculating the flux of an element that drives a node 
+/// updates that node and the nodes that it drives in turn.
+fn update_driven_nodes(elements: &[Rc<GenericElement>]) -> anyhow::Result<()>
+{
+    for elem in elements
+    {
+        elem.get_flux()?;
+    }
+    Ok(())
+}
+
 /// Returns a boolean indicating whether the `GenericNode` at the given pointer 
 /// is locked or not. This function will return a `DroppedNodeError` if the 
 /// node was dropped for some reason prior to checking the state of `is_locked`.
-- 
2.43.0


From a0b301df41446b38d2fcc5aab9c7205858ac59ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 41/81] fix: solve models in which every node is locked or
 driven

---
 neapolitan/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 9ff89fd..3fca792 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -307,10 +307,14 @@ impl NodalAnalysisStudyBuilder
             }
         }
 
-        let soln = multivariate_newton_raphson(partials, &mut guess, margin, limit)?;
+        // A model in which every node is locked or driven has nothing to solve for
+        if !partials.is_empty()
+        {
+            multivariate_newton_raphson(partials, &mut guess, margin, limit)?;
+        }
 
         // Step 5 - Set model state to solution
-        for (idx, component) in soln
+        for (idx, component) in &guess
         {
             let mut node = nodes[idx.node as usize].try_borrow_mut()?;
             node.potential[(idx.component as usize, 0)] = *component;
-- 
2.43.0


From 98e36cdd8adbbbdfeffb5937f6475af42834d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 42/81] fix: models that refer to unknown types or nodes are
 errors, not panics

---
 neapolitan/src/errors.rs |  4 ++++
 neapolitan/src/lib.rs    | 36 ++++++++++++++++++++++++------------
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 6e6f2dd..4d5ec44 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -41,4 +41,8 @@ pub enum NodalAnalysisModellingError
     NodeDoesNotExist,
     #[error("could not find desired model type in the given or default configurators")]
     ModelTypeNotFound,
+    #[error("could not find desired element type in the configurator for the model type")]
+    ElementTypeNotFound,
+    #[error("the number of values given for a node's potential or an element's gain does not fit the model")]
+    DimensionMismatch,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 3fca792..afb0149 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -183,16 +183,21 @@ impl NodalAnalysisStudyBuilder
         }
     }
 
-    fn get_element_constructor(&self, elem: &str) -> ElementConstructor
+    fn get_configurator(&self) -> Result<&NodalAnalysisStudyConfigurator, NodalAnalysisModellingError>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.elements[elem]
+        self.configurator.get(&self.model.model_type)
+            .ok_or(NodalAnalysisModellingError::ModelTypeNotFound)
     }
 
-    fn get_dimension(&self) -> usize
+    fn get_element_constructor(&self, elem: &str) -> Result<ElementConstructor, NodalAnalysisModellingError>
     {
-        let configurator = &self.configurator[&self.model.model_type];
-        configurator.dimension
+        self.get_configurator()?.elements.get(elem).copied()
+            .ok_or(NodalAnalysisModellingError::ElementTypeNotFound)
+    }
+
+    fn get_dimension(&self) -> anyhow::Result<usize>
+    {
+        Ok(self.get_configurator()?.dimension)
     }
 
     pub fn add_nodes(mut self, n: usize) -> NodalAnalysisStudyBuilder
@@ -232,7 +237,7 @@ impl NodalAnalysisStudyBuilder
 
     pub fn run_study(self, margin: f64, limit: usize) -> anyhow::Result<NodalAnalysisStudyResult>
     {
-        let n = self.get_dimension();
+        let n = self.get_dimension()?;
         let mut nodes = vec![];
         let mut elements = vec![];
 
@@ -254,7 +259,14 @@ impl NodalAnalysisStudyBuilder
         // Step 2 - set nodal metadata if it is given
         for (&i, node_data) in &self.model.configuration
         {
-            let mut node = nodes[i].borrow_mut();
+            if node_data.potential.len() != n
+            {
+                return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+            }
+
+            let mut node = nodes.get(i)
+                .ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?
+                .try_borrow_mut()?;
             node.potential = Matrix::from_col_vec(node_data.potential.to_vec());
             node.is_locked = node_data.is_locked;
             node._metadata = node_data.metadata.clone();
@@ -264,10 +276,10 @@ impl NodalAnalysisStudyBuilder
         for element_data in &self.model.elements
         {
             let NodalAnalysisElement { element_type, input, output, gain } = element_data;
-            let constructor = self.get_element_constructor(element_type);
+            let constructor = self.get_element_constructor(element_type)?;
             elements.push(constructor(
-                Rc::downgrade(&nodes[*input]), 
-                Rc::downgrade(&nodes[*output]), 
+                Rc::downgrade(nodes.get(*input).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?), 
+                Rc::downgrade(nodes.get(*output).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?), 
                 gain.to_vec(),
             )?);
         }
@@ -277,7 +289,7 @@ impl NodalAnalysisStudyBuilder
         let mut guess = HashMap::new();
         for (node_idx, _) in nodes.iter().enumerate().filter(|(_, x)| !x.borrow().is_locked)
         {
-            for comp_idx in 0..self.get_dimension()
+            for comp_idx in 0..n
             {
                 let idx = ComponentIndex 
                 { 
-- 
2.43.0


From 2a915b7b36c5e22d5c934532cacd001b4a3e4c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:58 +0000
Subject: [PATCH 43/81] fix: gains with the wrong number of values are errors,
 not panics

---
 neapolitan/src/dc_circuits.rs   | 23 +++++++++++++++++++----
 neapolitan/src/heat_transfer.rs | 18 ++++++++++++++----
 2 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/neapolitan/src/dc_circuits.rs b/neapolitan/src/dc_circuits.rs
index d31ad85..47e7dc0 100644
--- a/neapolitan/src/dc_circuits.rs
+++ b/neapolitan/src/dc_circuits.rs
@@ -3,10 +3,10 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 
 // Local modules
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
 
@@ -21,6 +21,11 @@ pub fn resistor(
     resistance: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if resistance.len() != 1
+    {
+        return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+    }
+
     GenericElement::try_new(
         vec![1.0 / resistance[0]],  // Conductance (gain) is reciprocal of resistance in ohms
         input_node, output_node,    // Input and output_node nodes
@@ -36,6 +41,11 @@ pub fn voltage_source(
     voltage: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if voltage.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -49,12 +59,12 @@ pub fn voltage_source(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![voltage[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(voltage.to_vec())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![voltage[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(voltage.to_vec())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -79,6 +89,11 @@ pub fn current_source(
     current: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if current.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+    }
+
     GenericElement::try_new(
         current,
         input_node, output_node,
diff --git a/neapolitan/src/heat_transfer.rs b/neapolitan/src/heat_transfer.rs
index 91fe3bf..ed629cb 100644
--- a/neapolitan/src/heat_transfer.rs
+++ b/neapolitan/src/heat_transfer.rs
@@ -3,10 +3,10 @@ use std::rc::{Rc, Weak};
 use std::cell::RefCell;
 
 // 3rd party modules
-use gmatlib::{col_vec, Matrix};
+use gmatlib::Matrix;
 use thiserror::Error;
 
-use crate::errors::ElementCreationError;
+use crate::errors::{ElementCreationError, NodalAnalysisModellingError};
 // Local modules
 use crate::{flux_formulas::*, get_node_potential, is_locked, lock_node, set_node_potential};
 use crate::{GenericElement, GenericNode};
@@ -97,6 +97,11 @@ pub fn temperature_delta(
     temp_delta: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if temp_delta.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+    }
+
     // Abort if we cannot remove a DOF from the problem
     if is_locked(&output_node)? && is_locked(&input_node)?
     {
@@ -110,12 +115,12 @@ pub fn temperature_delta(
     if drives_output
     {
         lock_node(&output_node)?;
-        set_node_potential(&output_node, (get_node_potential(&input_node)? + col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&output_node, (get_node_potential(&input_node)? + Matrix::from_col_vec(temp_delta.to_vec())).into())?;
     }
     else // driving input_node node:
     {
         lock_node(&input_node)?;
-        set_node_potential(&input_node, (get_node_potential(&output_node)? - col_vec![temp_delta[0]]).into())?;
+        set_node_potential(&input_node, (get_node_potential(&output_node)? - Matrix::from_col_vec(temp_delta.to_vec())).into())?;
     }
 
     // If we're driving the output node, we need to make the input node aware of this element.
@@ -140,6 +145,11 @@ pub fn heat_flux(
     flux: Vec<f64>,
 ) -> anyhow::Result<Rc<GenericElement>>
 {
+    if flux.len() != get_node_potential(&input_node)?.get_rows()
+    {
+        return Err(NodalAnalysisModellingError::DimensionMismatch.into());
+    }
+
     GenericElement::try_new(
         flux, 
         input_node, output_node, 
-- 
2.43.0


From 9c8c4522671eab27fe61c7f9d89fbce13f707873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:15 +0000
Subject: [PATCH 44/81] fix: whether a model can be built does not depend on
 the order of its elements

---
 neapolitan/src/lib.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index afb0149..703acc3 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -273,17 +273,35 @@ impl NodalAnalysisStudyBuilder
         }
 
         // Step 3 - build model 
-        for element_data in &self.model.elements
+        let mut ports = vec![];
+        for NodalAnalysisElement { input, output, .. } in &self.model.elements
         {
-            let NodalAnalysisElement { element_type, input, output, gain } = element_data;
+            ports.push((
+                nodes.get(*input).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?,
+                nodes.get(*output).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?,
+            ));
+        }
+
+        // Elements next to a locked node are built first. Otherwise an element might lock 
+        // a node that is the only one left for another element to drive.
+        let mut pending: Vec<usize> = (0..ports.len()).collect();
+        let mut built = vec![];
+        while !pending.is_empty()
+        {
+            let next = pending.iter()
+                .position(|&i| ports[i].0.borrow().is_locked || ports[i].1.borrow().is_locked)
+                .unwrap_or(0);
+            let idx = pending.remove(next);
+            let (input, output) = ports[idx];
+
+            let NodalAnalysisElement { element_type, gain, .. } = &self.model.elements[idx];
             let constructor = self.get_element_constructor(element_type)?;
-            elements.push(constructor(
-                Rc::downgrade(nodes.get(*input).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?), 
-                Rc::downgrade(nodes.get(*output).ok_or(NodalAnalysisModellingError::NodeDoesNotExist)?), 
-                gain.to_vec(),
-            )?);
+            built.push((idx, constructor(Rc::downgrade(input), Rc::downgrade(output), gain.to_vec())?));
         }
 
+        built.sort_by_key(|&(idx, _)| idx);
+        elements.extend(built.into_iter().map(|(_, elem)| elem));
+
         // Step 4 - solve model
         let mut partials = vec![];
         let mut guess = HashMap::new();
-- 
2.43.0


From d2b0c68c48f73d308cdf4999bfc60b3b397d6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:33 +0000
Subject: [PATCH 45/81] fix: neapolitan reports missing arguments instead of
 crashing

---
 neapolitan/src/main.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index ff50a91..c1a0d51 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -10,6 +10,12 @@ fn main()
     let mut precision: Option<f64> = None;
     let mut iteration_limit: Option<usize> = None;
 
+    if args.len() < 2
+    {
+        println!("[neapolitan].....ERR: no model file was specified!");
+        process::exit(1);
+    }
+
     let model_json = match read_to_string(&args[1]) 
     {
         Ok(o) => o,
@@ -29,7 +35,7 @@ fn main()
         if arg == "--precision" ||
            arg == "-p"
         {
-            precision = match args[i + 1].parse()
+            precision = match option_value(&args, i).parse()
             {
                 Ok(o) => 
                 {
@@ -50,7 +56,7 @@ fn main()
         else if arg == "--iterations" ||
                 arg == "-i"
         {
-            iteration_limit = match args[i + 1].parse()
+            iteration_limit = match option_value(&args, i).parse()
             {
                 Ok(o) => 
                 {
@@ -115,4 +121,18 @@ fn main()
             process::exit(1);
         }
     }
-}
\ No newline at end of file
+}
+
+/// Gets the value of the option at index `i`, or exits if it has none.
+fn option_value(args: &[String], i: usize) -> &str
+{
+    match args.get(i + 1)
+    {
+        Some(value) => value,
+        None =>
+        {
+            println!("[neapolitan].....ERR: option {} needs a value!", args[i]);
+            process::exit(1);
+        }
+    }
+}
-- 
2.43.0


From 48be08d66e4bf62e9e8fe27ecd684d4e3ce6a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:35 +0000
Subject: [PATCH 46/81] fix: neapolitan never writes its solution over the
 model file

---
 neapolitan/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neapolitan/src/main.rs b/neapolitan/src/main.rs
index c1a0d51..1c505e2 100644
--- a/neapolitan/src/main.rs
+++ b/neapolitan/src/main.rs
@@ -1,5 +1,6 @@
 use std::env::args;
 use std::fs::{read_to_string, write};
+use std::path::Path;
 use std::process;
 use serde_json::{from_str, to_string_pretty};
 use neapolitan::NodalAnalysisStudyBuilder;
@@ -111,7 +112,7 @@ fn main()
         }
     };
 
-    let solution_file = args[1].replace(".json", ".soln.json");
+    let solution_file = Path::new(&args[1]).with_extension("soln.json");
     match write(solution_file, solution_json) 
     {
         Ok(_) => process::exit(0),
-- 
2.43.0


From 76ea66490160f774b60b91a03bd6e311d6cc2f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:37 +0000
Subject: [PATCH 47/81] fix: the example circuit names a model type that exists

---
 neapolitan/neapolitan_json/circuit.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/neapolitan_json/circuit.json b/neapolitan/neapolitan_json/circuit.json
index f7bdf24..60ccb66 100644
--- a/neapolitan/neapolitan_json/circuit.json
+++ b/neapolitan/neapolitan_json/circuit.json
@@ -1,6 +1,6 @@
 {
   "$schema": "./neapolitan_model_schema.json",
-  "model_type": "ssdc_circuit",
+  "model_type": "dc_circuit",
   "nodes": 4,
   "configuration": {
     "0": {
-- 
2.43.0


From a7456c020ed132b185df266319461c583bf317a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:54 +0000
Subject: [PATCH 48/81] fix: a failed inversion leaves the matrix as it was

---
 gmatlib/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 12f7a09..09265d5 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -682,6 +682,7 @@ where T: Element<T>
     {
         // assertion that rows == cols has already happened prior to function call
         let n = self.rows;
+        let mut work = self.clone(); // `self` stays as it is if the inversion fails
         let mut inv: Matrix<T> = Matrix::new_identity(n);
 
         let abs = |x: T| if x < T::zero() { -x } else { x };
@@ -692,12 +693,12 @@ where T: Element<T>
             let mut pivot = j;
             for i in j+1..n
             {
-                if abs(self[(i, j)]) > abs(self[(pivot, j)])
+                if abs(work[(i, j)]) > abs(work[(pivot, j)])
                 {
                     pivot = i;
                 }
             }
-            self.inplace_row_swap(j, pivot);
+            work.inplace_row_swap(j, pivot);
             inv.inplace_row_swap(j, pivot);
 
             for i in 0..n
@@ -708,12 +709,12 @@ where T: Element<T>
                 }
                 else
                 {
-                    if self[(j, j)] == T::zero()
+                    if work[(j, j)] == T::zero()
                     {
                         return Err(MatrixInversionError::ZeroDuringInversion.into())
                     }
-                    let scalar = self[(i, j)] / self[(j, j)];
-                    self.inplace_scaled_row_add(i, j, -scalar);
+                    let scalar = work[(i, j)] / work[(j, j)];
+                    work.inplace_scaled_row_add(i, j, -scalar);
                     inv.inplace_scaled_row_add(i, j, -scalar);
                 }
             }
@@ -721,8 +722,8 @@ where T: Element<T>
 
         for i in 0..n
         {
-            let scalar: T = T::one() / self[(i, i)];
-            self.inplace_row_scale(i, scalar);
+            let scalar: T = T::one() / work[(i, i)];
+            work.inplace_row_scale(i, scalar);
             inv.inplace_row_scale(i, scalar);
         }
 
-- 
2.43.0


From c6d5e95362560d5360b3ceddfbca0d2bc840c788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:58 +0000
Subject: [PATCH 49/81] fix: the inverse of a 3 x 3 matrix is not transposed

---
 gmatlib/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 09265d5..67e7a47 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -593,13 +593,13 @@ where T: Element<T>
     fn try_inplace_invert_3(&mut self) -> Result<()>
     {
         let a11 = self[(0, 0)];
-        let a12 = self[(1, 0)];
-        let a13 = self[(2, 0)];
-        let a21 = self[(0, 1)];
+        let a12 = self[(0, 1)];
+        let a13 = self[(0, 2)];
+        let a21 = self[(1, 0)];
         let a22 = self[(1, 1)];
-        let a23 = self[(2, 1)];
-        let a31 = self[(0, 2)];
-        let a32 = self[(1, 2)];
+        let a23 = self[(1, 2)];
+        let a31 = self[(2, 0)];
+        let a32 = self[(2, 1)];
         let a33 = self[(2, 2)];
 
         let det  = a11*a22*a33 + a21*a32*a13 + a31*a12*a23 
-- 
2.43.0


From fc4264c5cc02971b2e9c94149b99f4afd131047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:09 +0000
Subject: [PATCH 50/81] fix: determinant of a 4 x 4 matrix

---
 gmatlib/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/src/lib.rs b/gmatlib/src/lib.rs
index 67e7a47..9c47841 100644
--- a/gmatlib/src/lib.rs
+++ b/gmatlib/src/lib.rs
@@ -646,7 +646,7 @@ where T: Element<T>
         let det  = a11*a22*a33*a44 + a11*a23*a34*a42 + a11*a24*a32*a43 +
                    a12*a21*a34*a43 + a12*a23*a31*a44 + a12*a24*a33*a41 + 
                    a13*a21*a32*a44 + a13*a22*a34*a41 + a13*a24*a31*a42 + 
-                   a14*a21*a33*a42 + a14*a22*a34*a43 + a14*a23*a32*a41 -
+                   a14*a21*a33*a42 + a14*a22*a31*a43 + a14*a23*a32*a41 -
                    a11*a22*a34*a43 - a11*a23*a32*a44 - a11*a24*a33*a42 -
                    a12*a21*a33*a44 - a12*a23*a34*a41 - a12*a24*a31*a43 -
                    a13*a21*a34*a42 - a13*a22*a31*a44 - a13*a24*a32*a41 -
-- 
2.43.0


From d7fe18bd25a18b85f2996c98d823aabf189d8f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:24 +0000
Subject: [PATCH 51/81] fix: both sides of an equation must be expressions

---
 geqslib/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/geqslib/src/lib.rs b/geqslib/src/lib.rs
index 4461f05..0894bcd 100644
--- a/geqslib/src/lib.rs
+++ b/geqslib/src/lib.rs
@@ -36,7 +36,10 @@ pub (in crate) fn compile_equation_to_fn(equation: &str, ctx: &ContextHashMap) -
         _ => return Err(EquationSolverError::FoundMultipleEquations.into()),
     }
     
-    compile_to_fn(&format!("{} - ({})", sides[0], sides[1]), ctx)
+    // Both sides have to be expressions on their own
+    let lhs = compile_to_fn(sides[0], ctx)?;
+    let rhs = compile_to_fn(sides[1], ctx)?;
+    Ok(move |x: f64| Ok(lhs(x)? - rhs(x)?))
 }
 
 /// An internal function for formatting an equation to an expression prior to tokenization 
@@ -62,7 +65,10 @@ pub (in crate) fn compile_equation_to_fn_of_hashmap(equation: &str, ctx: &mut Co
         ctx.add_var_with_domain_to_ctx(var, 1.0, f64::NEG_INFINITY, f64::INFINITY);
     }
 
-    let compiled = compile_to_fn_of_hashmap(&format!("{} - ({})", sides[0], sides[1]), ctx);
+    // Both sides have to be expressions on their own
+    let compiled = compile_to_fn_of_hashmap(sides[0], ctx)
+        .and_then(|lhs| Ok((lhs, compile_to_fn_of_hashmap(sides[1], ctx)?)))
+        .map(|(lhs, rhs)| move |x: &HashMap<String, f64>| Ok(lhs(x)? - rhs(x)?));
 
     // Forget the unknowns of an equation that could not be compiled
     if compiled.is_err()
-- 
2.43.0


From cb74b02d92ffdef73b88330d18543f02fbf6909c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 52/81] fix: an expression that ends where a value is expected
 does not compile

---
 geqslib/src/shunting.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index e7b68e3..e99706e 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -295,6 +295,12 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
         }   
     }
     
+    // The expression may not end where a value is expected
+    if unary_minus
+    {
+        return Err(ShuntingYardError::ExpectedArg.into())
+    }
+
     while let Some(tok) = stack.pop() 
     {
         if "()".contains(tok) 
-- 
2.43.0


From 8319cbdf27c98bfe932ddc83644cb010367f8584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 53/81] fix: the solutions in the result of
 solve_with_preprocessors are separated

---
 nexsys/src/ffi.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/ffi.rs b/nexsys/src/ffi.rs
index f34680f..ad30eae 100644
--- a/nexsys/src/ffi.rs
+++ b/nexsys/src/ffi.rs
@@ -96,7 +96,7 @@ pub unsafe extern "C" fn solve_with_preprocessors(system: *const c_char, margin:
                 let steps_str = log.join("\n");
                 let soln_str = soln.iter()
                     .fold(String::new(), |mut acc, (x, y)| {
-                        acc.push_str(&format!("{} {:#?}", x, y));
+                        acc.push_str(&format!("{}: {:#?}, ", x, y));
                         acc
                     });
                 CString::new(format!("{{ log: {:#?}, \nsoln: {:#?} }}", steps_str, soln_str))
-- 
2.43.0


From 5a6678e32b8ad9d3a5746996de7eb8a1a820357f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 54/81] fix: the nexsys sources keep their line endings

---
 nexsys/src/lib.rs                  | 416 +++++++++----------
 nexsys/src/parsing/conditionals.rs | 300 +++++++-------
 nexsys/src/parsing/mod.rs          | 440 ++++++++++----------
 nexsys/src/units/mod.rs            | 326 +++++++--------
 nexsys/src/units/units.json        | 638 ++++++++++++++---------------
 5 files changed, 1060 insertions(+), 1060 deletions(-)

diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index 56c599c..df7eaaa 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -1,209 +1,209 @@
-/// Different errors specific to Nexsys implementations of algorithms.
-pub mod errors;
-/// Provides `extern "C"` functions for use in other programming languages. Not 
-/// intended for use in other Rust projects.
-pub mod ffi;
-/// Provides tools for parsing text prior to passing to the equation solving engine.
-pub mod parsing;
-/// Provides data sets of common units and functions for converting between them.
-pub mod units;
-
-use std::collections::HashMap;
-
-use geqslib::solve_equation_with_context;
-use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
-use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
-
-use parsing::compile;
-
-/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
-fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
-        if unknowns.len() != 1
-        {
-            return Ok(false);
-        }
-
-        let var_info: [f64; 3];
-        if declared.contains_key(unknowns[0])
-        {
-            var_info = declared[unknowns[0]];
-        }
-        else
-        {
-            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
-        }
-
-        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
-        ctx.add_const_to_ctx(&soln.0, soln.1); // the value is known from here on
-        *log_step = format!(
-            "Var: {:#?} \nEquation: {}", 
-            soln.0, equation
-        );
-        eqn_pool.remove(i);
-        return Ok(true);
-    }
-    Ok(false)
-}
-
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
-{
-    for (i, equation) in eqn_pool.iter().enumerate()
-    {
-        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
-        let mut eqn_strings = vec![equation.to_owned()];
-
-        // Keep going over the pool, an equation may become useful once another one was added
-        let mut still_learning = true;
-        while still_learning
-        {
-            still_learning = false;
-            for (j, equation) in eqn_pool.iter().enumerate()
-            {
-                // Skip the current equation we're building a system with 
-                // OR an equation that we've already added to the system
-                if j == i || eqn_strings.contains(equation)
-                {
-                    continue;
-                }
-
-                // println!("Constraint status: {}", builder.is_fully_constrained());
-
-                match builder.try_constrain_with(equation)?
-                {
-                    ConstrainResult::WillConstrain => {
-                        eqn_strings.push(equation.to_owned());
-                        still_learning = true;
-                        // println!("constrained with: {}", equation);
-                    },
-                    ConstrainResult::WillOverConstrain => break,
-                    _ => {}
-                }
-            }
-        }
-            
-        *log_step = format!("{:#?}", eqn_strings);
-
-        // Solve the found constrained system:
-        if let Some(mut system) = builder.build_system()
-        {
-            for (var, var_info) in declared
-            {
-                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
-            }
-
-            let soln = system.solve(margin, limit)?;
-            for (var, val) in soln 
-            {
-                ctx.add_const_to_ctx(&var, val);
-            }
-            
-            let remaining_eqns: Vec<String> = eqn_pool.iter()
-                .filter(|x| !eqn_strings.contains(x) && x != &equation)
-                .map(|x| x.to_owned())
-                .collect();
-
-            eqn_pool.clear();
-            eqn_pool.extend(remaining_eqns);
-
-            // println!("{:#?}", eqn_pool);
-
-            return Ok(true);
-        }
-    }
-
-    Ok(false)
-}
-
-/// Solves a system of equations in plain-text format.
-/// For more supported syntax, see `solve_with_preprocessors`
-/// 
-/// # Example
-/// ```
-/// ```
-pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut log = vec![];
-    let mut eqn_pool = system.split('\n')
-        .filter(|x| x.contains('='))
-        .map(|x| x.to_owned())
-        .collect();
-
-    loop
-    {
-        let mut log_step = String::default();
-        // Get less expensive solutions:
-        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-
-        // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
-        {
-            log.push(log_step);
-            continue;
-        }
-        
-        break;
-    }
-
-    let mut soln_map = HashMap::new(); 
-    for (name, val) in ctx
-    {
-        match val
-        {
-            Token::Var(v) => {
-                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
-            },
-            Token::Num(n) => {
-                soln_map.insert(name.to_owned(), *n);
-            },
-            _ => {} 
-        }
-    }
-
-    Ok((log, soln_map))
-}
-
-/// Solves a system of equations with additional syntax used to indicate 
-/// unit conversions, constant known values, nicer if statements, and more.
-/// 
-/// # Example
-/// ```
-/// use nexsys::solve_with_preprocessors;
-/// 
-/// let system = r#"
-/// keep x on [0, 100]
-/// guess 3 for y
-/// const nine = 9
-/// 
-/// x + y = nine
-/// x - y = 4
-/// 
-/// if x > y:
-///     i = 1
-/// else:
-///     i = -1
-/// end
-/// "#;
-/// 
-/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
-///     .expect("failed to solve system!");
-/// 
-/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
-/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
-/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
-/// ```
-pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
-{
-    let mut ctx = new_context(); 
-    let mut declared = HashMap::new();
-    let compiled = compile(system, &mut ctx, &mut declared)?;
-
-    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
+/// Different errors specific to Nexsys implementations of algorithms.
+pub mod errors;
+/// Provides `extern "C"` functions for use in other programming languages. Not 
+/// intended for use in other Rust projects.
+pub mod ffi;
+/// Provides tools for parsing text prior to passing to the equation solving engine.
+pub mod parsing;
+/// Provides data sets of common units and functions for converting between them.
+pub mod units;
+
+use std::collections::HashMap;
+
+use geqslib::solve_equation_with_context;
+use geqslib::shunting::{new_context, ContextHashMap, ContextLike, Token};
+use geqslib::system::{ConstrainResult, get_equation_unknowns, SystemBuilder};
+
+use parsing::compile;
+
+/// Solves a single equation for a single unknown value, returning a `bool` indicating if the solution attempt was successful 
+fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let unknowns: Vec<&str> = get_equation_unknowns(&equation, ctx).collect();
+        if unknowns.len() != 1
+        {
+            return Ok(false);
+        }
+
+        let var_info: [f64; 3];
+        if declared.contains_key(unknowns[0])
+        {
+            var_info = declared[unknowns[0]];
+        }
+        else
+        {
+            var_info = [1.0, f64::NEG_INFINITY, f64::INFINITY];
+        }
+
+        let soln = solve_equation_with_context(equation, ctx, var_info[0], var_info[1], var_info[2], margin, limit)?;
+        ctx.add_const_to_ctx(&soln.0, soln.1); // the value is known from here on
+        *log_step = format!(
+            "Var: {:#?} \nEquation: {}", 
+            soln.0, equation
+        );
+        eqn_pool.remove(i);
+        return Ok(true);
+    }
+    Ok(false)
+}
+
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+{
+    for (i, equation) in eqn_pool.iter().enumerate()
+    {
+        let mut builder = SystemBuilder::new(equation, ctx.clone())?;
+        let mut eqn_strings = vec![equation.to_owned()];
+
+        // Keep going over the pool, an equation may become useful once another one was added
+        let mut still_learning = true;
+        while still_learning
+        {
+            still_learning = false;
+            for (j, equation) in eqn_pool.iter().enumerate()
+            {
+                // Skip the current equation we're building a system with 
+                // OR an equation that we've already added to the system
+                if j == i || eqn_strings.contains(equation)
+                {
+                    continue;
+                }
+
+                // println!("Constraint status: {}", builder.is_fully_constrained());
+
+                match builder.try_constrain_with(equation)?
+                {
+                    ConstrainResult::WillConstrain => {
+                        eqn_strings.push(equation.to_owned());
+                        still_learning = true;
+                        // println!("constrained with: {}", equation);
+                    },
+                    ConstrainResult::WillOverConstrain => break,
+                    _ => {}
+                }
+            }
+        }
+            
+        *log_step = format!("{:#?}", eqn_strings);
+
+        // Solve the found constrained system:
+        if let Some(mut system) = builder.build_system()
+        {
+            for (var, var_info) in declared
+            {
+                system.specify_variable(var, var_info[0], var_info[1], var_info[2]);
+            }
+
+            let soln = system.solve(margin, limit)?;
+            for (var, val) in soln 
+            {
+                ctx.add_const_to_ctx(&var, val);
+            }
+            
+            let remaining_eqns: Vec<String> = eqn_pool.iter()
+                .filter(|x| !eqn_strings.contains(x) && x != &equation)
+                .map(|x| x.to_owned())
+                .collect();
+
+            eqn_pool.clear();
+            eqn_pool.extend(remaining_eqns);
+
+            // println!("{:#?}", eqn_pool);
+
+            return Ok(true);
+        }
+    }
+
+    Ok(false)
+}
+
+/// Solves a system of equations in plain-text format.
+/// For more supported syntax, see `solve_with_preprocessors`
+/// 
+/// # Example
+/// ```
+/// ```
+pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut log = vec![];
+    let mut eqn_pool = system.split('\n')
+        .filter(|x| x.contains('='))
+        .map(|x| x.to_owned())
+        .collect();
+
+    loop
+    {
+        let mut log_step = String::default();
+        // Get less expensive solutions:
+        if try_solve_single_unknown_eqn(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Dig in and solve a more expensive subsystem:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        {
+            log.push(log_step);
+            continue;
+        }
+        
+        break;
+    }
+
+    let mut soln_map = HashMap::new(); 
+    for (name, val) in ctx
+    {
+        match val
+        {
+            Token::Var(v) => {
+                soln_map.insert(name.to_owned(), f64::from(*v.borrow()));
+            },
+            Token::Num(n) => {
+                soln_map.insert(name.to_owned(), *n);
+            },
+            _ => {} 
+        }
+    }
+
+    Ok((log, soln_map))
+}
+
+/// Solves a system of equations with additional syntax used to indicate 
+/// unit conversions, constant known values, nicer if statements, and more.
+/// 
+/// # Example
+/// ```
+/// use nexsys::solve_with_preprocessors;
+/// 
+/// let system = r#"
+/// keep x on [0, 100]
+/// guess 3 for y
+/// const nine = 9
+/// 
+/// x + y = nine
+/// x - y = 4
+/// 
+/// if x > y:
+///     i = 1
+/// else:
+///     i = -1
+/// end
+/// "#;
+/// 
+/// let (_log, soln) = solve_with_preprocessors(system, 0.0001, 100)
+///     .expect("failed to solve system!");
+/// 
+/// assert!((f64::from(soln["x"]) - 6.5).abs() < 0.001);
+/// assert!((f64::from(soln["y"]) - 2.5).abs() < 0.001);
+/// assert!((f64::from(soln["i"]) - 1.0).abs() < 0.001);
+/// ```
+pub fn solve_with_preprocessors(system: &str, margin: f64, limit: usize) -> anyhow::Result<(Vec<String>, HashMap<String, f64>)>
+{
+    let mut ctx = new_context(); 
+    let mut declared = HashMap::new();
+    let compiled = compile(system, &mut ctx, &mut declared)?;
+
+    basic_solve(&compiled, &mut ctx, &mut declared, margin, limit)
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 796eb45..456910f 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -1,151 +1,151 @@
-use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
-use lazy_static::lazy_static;
-use regex::Regex;
-
-/// Evaluates if the first expression contains any of the later expressions
-macro_rules! contains_any {
-    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
-        $s.contains($ch1) $( || $s.contains($ch) )*
-    }};
-}
-
-/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
-/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
-pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
-
-    lazy_static!{
-        // Keywords are whole words, they may also occur in the names of variables
-        static ref IF: Regex = nexsys_regex(r"\bif ");
-        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
-        static ref END: Regex = nexsys_regex(r"\bend\b");
-    }
-
-    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
-    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
-    args = END.replace_all(&args, ")")                       // close function call
-    .replace([' ', '\n'], "")   // strip whitespace
-    .replace(':',   ",");       // delimit arguments
-
-    //if(a<b,a-b=1,b-a=1)
-    // println!("SUBBED TOKENS: {}", args);
-
-    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
-        return Err(ConditionFormatError::ConditionalSyntax.into())
-    }
-
-    // replace conditional sign with f64 code number
-    if args.contains("==") {args = args.replace("==", ",1.0,");} 
-    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
-    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
-    if args.contains('<') {
-
-        if args.contains("=<") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('<',  ",4.0,");
-        
-    } 
-    if args.contains('>') {
-        
-        if args.contains("=>") {
-            return Err(ConditionFormatError::Comparator.into())
-        }
-
-        args = args.replace('>',  ",5.0,");
-                
-    } 
-    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
-
-    // println!("FINAL: {}", args);
-    // Conditional statement reformatted as function call
-    // This allows us to use `better` notation to call a function via meval
-    Ok(args + " = 0")
-}
-
-/// Identifies and returns conditional statements found in a Nexsys-legal string.
-pub fn conditionals(text: &str) -> anyhow::Result<String> {
-    lazy_static!{
-        static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
-^.*$
-^[ \t]*else:$
-^.*$
-^[ \t]*end\b"#
-        );
-    }
-    let mut output = text.to_string();
-    
-    loop {
-        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
-        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
-
-        // println!("{cdls:#?}");
-    
-        for raw in &cdls {
-    
-            let mut rows = raw
-                .split('\n')
-                .map(|i| i.to_string())
-                .collect::<Vec<String>>();
-    
-            // println!("{rows:#?}");
-    
-            for r in [1,3] {
-                if rows[r].contains('=') {
-                    let terms = rows[r].split('=').collect::<Vec<&str>>();
-                    if terms[1].replace(' ',"") == 0.to_string() {
-                        rows[r] = terms[0].to_string();
-                    } else {
-                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
-                    }
-                }
-            }
-            
-            let fmt_eqns = rows.join("\n");
-    
-            // println!("{}", fmt_eqns);
-    
-            let fmtd = &format_conditional(&fmt_eqns)?;
-    
-            output = output.replace(raw, fmtd);
-        }
-
-        if cdls.is_empty() { break } // keep going until there are no if statement matches left
-    }
-    
-    Ok(output)
-}
-
-/// Testing for non-public macros
-#[cfg(test)]
-mod test {
-
-    /// Tests the `contains_any!` macro
-    #[test]
-    fn test_contains_any_macro() {
-        assert_eq!(
-            contains_any!("test_string", "a", "b", "c"), 
-            false  
-        );
-
-        assert_eq!(
-            !(contains_any!("test_string", "a", "b", "c")),
-            true
-        );
-
-        assert_eq!(
-            contains_any!("test_string", "t", "b", "c"),
-            true
-        );
-    } 
-    
-    /// Additional testing for how the `contains_any!` macro works
-    #[test]
-    fn buggy_case() {
-        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
-            panic!()
-        }
-    }
-    
+use crate::{errors::ConditionFormatError, parsing::nexsys_regex};
+use lazy_static::lazy_static;
+use regex::Regex;
+
+/// Evaluates if the first expression contains any of the later expressions
+macro_rules! contains_any {
+    ($s:expr, $ch1:expr, $( $ch:tt ),* ) => {{
+        $s.contains($ch1) $( || $s.contains($ch) )*
+    }};
+}
+
+/// Formats a "curly braces" `if` statement to a `conditional(...)` function call that will work in meval.
+/// This function returns an `Err` if an invalid conditional operator is found in `cndl`.
+pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
+
+    lazy_static!{
+        // Keywords are whole words, they may also occur in the names of variables
+        static ref IF: Regex = nexsys_regex(r"\bif ");
+        static ref ELSE: Regex = nexsys_regex(r"\belse\b");
+        static ref END: Regex = nexsys_regex(r"\bend\b");
+    }
+
+    let mut args = IF.replace_all(cndl, "if(").into_owned(); // make start of function call
+    args = ELSE.replace_all(&args, "").into_owned();         // delimit arguments
+    args = END.replace_all(&args, ")")                       // close function call
+    .replace([' ', '\n'], "")   // strip whitespace
+    .replace(':',   ",");       // delimit arguments
+
+    //if(a<b,a-b=1,b-a=1)
+    // println!("SUBBED TOKENS: {}", args);
+
+    if !(contains_any!(args, "==", "<=", ">=", "<", ">", "!=")) {
+        return Err(ConditionFormatError::ConditionalSyntax.into())
+    }
+
+    // replace conditional sign with f64 code number
+    if args.contains("==") {args = args.replace("==", ",1.0,");} 
+    if args.contains("<=") {args = args.replace("<=", ",2.0,");} 
+    if args.contains(">=") {args = args.replace(">=", ",3.0,");} 
+    if args.contains('<') {
+
+        if args.contains("=<") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('<',  ",4.0,");
+        
+    } 
+    if args.contains('>') {
+        
+        if args.contains("=>") {
+            return Err(ConditionFormatError::Comparator.into())
+        }
+
+        args = args.replace('>',  ",5.0,");
+                
+    } 
+    if args.contains("!=") {args = args.replace("!=", ",6.0,");}
+
+    // println!("FINAL: {}", args);
+    // Conditional statement reformatted as function call
+    // This allows us to use `better` notation to call a function via meval
+    Ok(args + " = 0")
+}
+
+/// Identifies and returns conditional statements found in a Nexsys-legal string.
+pub fn conditionals(text: &str) -> anyhow::Result<String> {
+    lazy_static!{
+        static ref RE: Regex = nexsys_regex(            
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+^.*$
+^[ \t]*else:$
+^.*$
+^[ \t]*end\b"#
+        );
+    }
+    let mut output = text.to_string();
+    
+    loop {
+        let tmp = output.to_string(); //FIXME: this looks stupid. Is there a better way to do it?
+        let cdls: Vec<&str> = RE.find_iter(&tmp).map(|i| i.as_str()).collect();
+
+        // println!("{cdls:#?}");
+    
+        for raw in &cdls {
+    
+            let mut rows = raw
+                .split('\n')
+                .map(|i| i.to_string())
+                .collect::<Vec<String>>();
+    
+            // println!("{rows:#?}");
+    
+            for r in [1,3] {
+                if rows[r].contains('=') {
+                    let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms[1].replace(' ',"") == 0.to_string() {
+                        rows[r] = terms[0].to_string();
+                    } else {
+                        rows[r] = format!("{} - ({})", terms[0], terms[1]);
+                    }
+                }
+            }
+            
+            let fmt_eqns = rows.join("\n");
+    
+            // println!("{}", fmt_eqns);
+    
+            let fmtd = &format_conditional(&fmt_eqns)?;
+    
+            output = output.replace(raw, fmtd);
+        }
+
+        if cdls.is_empty() { break } // keep going until there are no if statement matches left
+    }
+    
+    Ok(output)
+}
+
+/// Testing for non-public macros
+#[cfg(test)]
+mod test {
+
+    /// Tests the `contains_any!` macro
+    #[test]
+    fn test_contains_any_macro() {
+        assert_eq!(
+            contains_any!("test_string", "a", "b", "c"), 
+            false  
+        );
+
+        assert_eq!(
+            !(contains_any!("test_string", "a", "b", "c")),
+            true
+        );
+
+        assert_eq!(
+            contains_any!("test_string", "t", "b", "c"),
+            true
+        );
+    } 
+    
+    /// Additional testing for how the `contains_any!` macro works
+    #[test]
+    fn buggy_case() {
+        if !(contains_any!("if(a<b,b-a-(1),if(a==b,b-(a),a-b-(1)))", "==", "<=", ">=", "<", ">", "!=")) {
+            panic!()
+        }
+    }
+    
 }
\ No newline at end of file
diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 92a5376..2eda8ac 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -1,221 +1,221 @@
-mod conditionals;
-// mod duplicate; TODO: need to polish this up.
-
-use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
-use lazy_static::lazy_static;
-use regex::Regex;
-use std::collections::HashMap;
-use crate::{units::{convert, const_data}, errors::ConstFormatError};
-
-pub use conditionals::*;
-
-const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
-const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?";
-
-/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
-fn nexsys_regex(pattern: &str) -> Regex
-{
-    Regex::new(&pattern
-        .replace("@N", LEGAL_NUM_PATTERN)
-        .replace("@V", LEGAL_VAR_PATTERN)
-    ).unwrap()
-}
-
-/// Identifies and returns guess values found in a Nexsys-legal string.
-pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let guesses = RE.captures_iter(text);
-
-    for g in guesses 
-    {
-        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            g.get(2).unwrap().as_str().to_owned(), 
-            g.get(1).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse number in guess declaration")
-        );
-    }
-    res
-}
-
-/// Identifies and returns domains found in a Nexsys-legal string.
-pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let domains = RE.captures_iter(text);
-
-    for d in domains 
-    {
-        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            d.get(1).unwrap().as_str().to_owned(),
-            [d.get(2).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse first number in domain declaration"),
-            d.get(3).unwrap().as_str().replace(' ', "").parse()
-                .expect("failed to parse second number in domain declaration")]
-        );
-    }
-    res
-}
-
-/// Identifies and removes comments found in a Nexsys-legal string.
-pub fn comments(text: &str) -> String 
-{
-    lazy_static! 
-    {
-        // Lines that only contain a comment are removed as a whole
-        static ref RE: Regex = nexsys_regex(r"(?m)^[ \t]*//[^\n]*\n|[ \t]*//[^\n]*");
-    }
-    RE.replace_all(text, "").into_owned()
-}
-
-/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
-pub fn conversions(text: &str) -> anyhow::Result<String> {
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
-    }
-
-    let mut output = text.to_string();
-
-    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
-
-    for m in res 
-    {
-        let pre = m.replace(['[', ']'], "");
-        
-        let args: Vec<&str> = pre.split("->").collect();
-        
-        output = output.replace(m, 
-            &format!("{}", convert(args[0], args[1])? )
-        );
-    }
-
-    Ok(output)
-}
-
-/// Identifies and replaces any constants in a Nexsys-legal string.
-pub fn consts(text: &str) -> anyhow::Result<String> 
-{
-    lazy_static! 
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z0-9_]+");
-        static ref CONSTS: HashMap<String, f64> = const_data();
-    }
-
-    let mut output = String::new();
-    let mut copied = 0;
-
-    for m in RE.find_iter(text) 
-    {
-        if let Some(c) = CONSTS.get(m.as_str()) 
-        {
-            output += &text[copied..m.start()];
-            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
-            {
-                output += &format!("({c})"); // raise the whole constant to the power, not just its digits
-            }
-            else
-            {
-                output += &c.to_string();
-            }
-            copied = m.end();
-        } 
-        else 
-        {
-            return Err(ConstFormatError.into())
-        }
-    }
-    output += &text[copied..];
-    Ok(output)
-}
-
-pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
-{
-    lazy_static!
-    {
-        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
-    }
-    let mut res = (text.to_owned(), HashMap::new());
-    let const_vals = RE.captures_iter(text);
-
-    for c in const_vals
-    {
-        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
-        res.1.insert(
-            c.get(1).unwrap().as_str().to_owned(), 
-            eval_str(c.get(2).unwrap().as_str())?
-        );
-    }
-    Ok(res)
-}
-
-/// Wraps most functions in `nexsys::parsing`, returning either an error that 
-/// prevents the code from being solvable or the intermediate language representation
-/// of the `.nxs`-formatted code.
-/// 
-/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
-pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
-{    
-    let sys_domains: HashMap<String, [f64; 2]>;
-    let sys_guesses: HashMap<String, f64>;
-    let sys_consts:  HashMap<String, f64>;
-    
-    let mut nil = comments(&code.replace("\r\n", "\n")); 
-
-    // Copy-paste all common engineering constants (this happens first so users can rename constants)
-    nil = consts(&nil)?;
-
-    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
-    nil = conversions(&nil)?;
-
-    // Set all constants used in the solution
-    (nil, sys_consts) = const_values(&nil)?;
-    for (var, val) in sys_consts
-    {
-        ctx.add_const_to_ctx(&var, val);
-    }
-
-    // Set all domains for variables in the solution
-    (nil, sys_domains) = domains(&nil);
-    for (var, bounds) in sys_domains
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[1] = bounds[0];
-            var_info[2] = bounds[1];
-        }
-        else 
-        {
-            declared.insert(var, [1.0, bounds[0], bounds[1]]);
-        }
-    }
-
-    // Set all initial guesses for variables in the solution
-    (nil, sys_guesses) = guess_values(&nil);
-    for (var, guess) in sys_guesses
-    {
-        if let Some(var_info) = declared.get_mut(&var)
-        {
-            var_info[0] = guess;
-        }
-        else 
-        {
-            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
-        }
-    }
-
-    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
-    nil = conditionals(&nil)?;
-
-    Ok(nil)
+mod conditionals;
+// mod duplicate; TODO: need to polish this up.
+
+use geqslib::shunting::{eval_str, ContextHashMap, ContextLike};
+use lazy_static::lazy_static;
+use regex::Regex;
+use std::collections::HashMap;
+use crate::{units::{convert, const_data}, errors::ConstFormatError};
+
+pub use conditionals::*;
+
+const LEGAL_VAR_PATTERN: &str = r"[a-z][a-z0-9_]*";
+const LEGAL_NUM_PATTERN: &str = r"-? ?[0-9]+\.?[0-9]*(?:[eE][+-]?[0-9]+)?";
+
+/// Replaces `"@N"` and `"@V"` literals with the nexsys-legal number and variable patterns, respectively.
+fn nexsys_regex(pattern: &str) -> Regex
+{
+    Regex::new(&pattern
+        .replace("@N", LEGAL_NUM_PATTERN)
+        .replace("@V", LEGAL_VAR_PATTERN)
+    ).unwrap()
+}
+
+/// Identifies and returns guess values found in a Nexsys-legal string.
+pub fn guess_values(text: &str) -> (String, HashMap<String, f64>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)guess +(@N) +for +(@V)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let guesses = RE.captures_iter(text);
+
+    for g in guesses 
+    {
+        res.0 = res.0.replace(g.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            g.get(2).unwrap().as_str().to_owned(), 
+            g.get(1).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse number in guess declaration")
+        );
+    }
+    res
+}
+
+/// Identifies and returns domains found in a Nexsys-legal string.
+pub fn domains(text: &str) -> (String, HashMap<String, [f64; 2]>)
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)keep +(@V) +on +\[ *(@N), *(@N) *\]");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let domains = RE.captures_iter(text);
+
+    for d in domains 
+    {
+        res.0 = res.0.replace(d.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            d.get(1).unwrap().as_str().to_owned(),
+            [d.get(2).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse first number in domain declaration"),
+            d.get(3).unwrap().as_str().replace(' ', "").parse()
+                .expect("failed to parse second number in domain declaration")]
+        );
+    }
+    res
+}
+
+/// Identifies and removes comments found in a Nexsys-legal string.
+pub fn comments(text: &str) -> String 
+{
+    lazy_static! 
+    {
+        // Lines that only contain a comment are removed as a whole
+        static ref RE: Regex = nexsys_regex(r"(?m)^[ \t]*//[^\n]*\n|[ \t]*//[^\n]*");
+    }
+    RE.replace_all(text, "").into_owned()
+}
+
+/// Identifies and replaces any unit conversion tokens in a Nexsys-legal string.
+pub fn conversions(text: &str) -> anyhow::Result<String> {
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+    }
+
+    let mut output = text.to_string();
+
+    let res: Vec<&str> = RE.find_iter(text).map(|i| i.as_str()).collect();
+
+    for m in res 
+    {
+        let pre = m.replace(['[', ']'], "");
+        
+        let args: Vec<&str> = pre.split("->").collect();
+        
+        output = output.replace(m, 
+            &format!("{}", convert(args[0], args[1])? )
+        );
+    }
+
+    Ok(output)
+}
+
+/// Identifies and replaces any constants in a Nexsys-legal string.
+pub fn consts(text: &str) -> anyhow::Result<String> 
+{
+    lazy_static! 
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)#[a-z0-9_]+");
+        static ref CONSTS: HashMap<String, f64> = const_data();
+    }
+
+    let mut output = String::new();
+    let mut copied = 0;
+
+    for m in RE.find_iter(text) 
+    {
+        if let Some(c) = CONSTS.get(m.as_str()) 
+        {
+            output += &text[copied..m.start()];
+            if *c < 0.0 && text[m.end()..].trim_start().starts_with('^')
+            {
+                output += &format!("({c})"); // raise the whole constant to the power, not just its digits
+            }
+            else
+            {
+                output += &c.to_string();
+            }
+            copied = m.end();
+        } 
+        else 
+        {
+            return Err(ConstFormatError.into())
+        }
+    }
+    output += &text[copied..];
+    Ok(output)
+}
+
+pub fn const_values(text: &str) -> anyhow::Result<(String, HashMap<String, f64>)>
+{
+    lazy_static!
+    {
+        static ref RE: Regex = nexsys_regex(r"(?i)const +(@V) *= *([^\n]+)");
+    }
+    let mut res = (text.to_owned(), HashMap::new());
+    let const_vals = RE.captures_iter(text);
+
+    for c in const_vals
+    {
+        res.0 = res.0.replace(c.get(0).unwrap().as_str(), "");
+        res.1.insert(
+            c.get(1).unwrap().as_str().to_owned(), 
+            eval_str(c.get(2).unwrap().as_str())?
+        );
+    }
+    Ok(res)
+}
+
+/// Wraps most functions in `nexsys::parsing`, returning either an error that 
+/// prevents the code from being solvable or the intermediate language representation
+/// of the `.nxs`-formatted code.
+/// 
+/// This also mutates the given `ctx` and `declared` arguments, adding any found constant or 
+pub fn compile(code: &str, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>) -> anyhow::Result<String> 
+{    
+    let sys_domains: HashMap<String, [f64; 2]>;
+    let sys_guesses: HashMap<String, f64>;
+    let sys_consts:  HashMap<String, f64>;
+    
+    let mut nil = comments(&code.replace("\r\n", "\n")); 
+
+    // Copy-paste all common engineering constants (this happens first so users can rename constants)
+    nil = consts(&nil)?;
+
+    // Copy-paste any unit conversions (this happens second so they can be used in const definitions)
+    nil = conversions(&nil)?;
+
+    // Set all constants used in the solution
+    (nil, sys_consts) = const_values(&nil)?;
+    for (var, val) in sys_consts
+    {
+        ctx.add_const_to_ctx(&var, val);
+    }
+
+    // Set all domains for variables in the solution
+    (nil, sys_domains) = domains(&nil);
+    for (var, bounds) in sys_domains
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[1] = bounds[0];
+            var_info[2] = bounds[1];
+        }
+        else 
+        {
+            declared.insert(var, [1.0, bounds[0], bounds[1]]);
+        }
+    }
+
+    // Set all initial guesses for variables in the solution
+    (nil, sys_guesses) = guess_values(&nil);
+    for (var, guess) in sys_guesses
+    {
+        if let Some(var_info) = declared.get_mut(&var)
+        {
+            var_info[0] = guess;
+        }
+        else 
+        {
+            declared.insert(var, [guess, f64::NEG_INFINITY, f64::INFINITY]);
+        }
+    }
+
+    // Format all conditional statements. (this happens last since most information is needed in order to evaluate the expression)
+    nil = conditionals(&nil)?;
+
+    Ok(nil)
 }
\ No newline at end of file
diff --git a/nexsys/src/units/mod.rs b/nexsys/src/units/mod.rs
index d175f83..b09636b 100644
--- a/nexsys/src/units/mod.rs
+++ b/nexsys/src/units/mod.rs
@@ -1,164 +1,164 @@
-use lazy_static::lazy_static;
-use serde_json::{Value, from_str};
-use std::collections::HashMap;
-
-use crate::errors::UnitConversionError;
-
-/// Handles generating additional units for various combinations of other units
-fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
-    
-    let mut temp = HashMap::new();
-    
-    for i in &data[&num.to_string()] {
-    
-        for j in &data[&denom.to_string()] {
-    
-            temp.insert(
-                format!("{}/{}", i.0, j.0),
-                *i.1 / *j.1
-            );
-        
-        }
-    
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    if fc1 == fc2 {
-        for i in &data[&fc1.to_string()] {
-            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
-        }
-    } else {
-        for i in &data[&fc1.to_string()] {
-            for j in &data[&fc2.to_string()] {
-                let val = *i.1 * *j.1;
-                temp.insert( format!("{}-{}", i.0, j.0), val);
-                temp.insert( format!("{}-{}", j.0, i.0), val);
-            }
-        }
-    }
-
-    if let Some(d) = data.get_mut(qty) {
-        d.extend(temp.into_iter());
-    }
-
-    data
-}
-
-/// Handles generating additional units for various combinations of other units
-fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
-
-    let mut temp = HashMap::new();
-    
-    for i in &data[&"LENGTH".to_string()] {
-        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
-    }
-
-    if let Some(d) = data.get_mut("VOLUME") {
-        d.extend(temp.into_iter());
-    }
-    
-    data
-}
-
-/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
-
-    let raw_text = include_str!("units.json");
-    let err = "failed to parse json... is the formatting of 'units.json' correct?";
-    
-    // again I ask, lord forgive me for what I am about to do...
-    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| (
-            i.0.to_string(), 
-            i.1.as_object().expect(err).into_iter()
-            .map(
-                |j| (
-                    j.0.to_string(), 
-                    j.1.as_f64().expect(err)
-                )
-            ).collect()
-        )
-    ).collect();
-
-    dejson
-}
-
-/// Generates a more complete set of unit conversion data by combining different units to create other common units.
-pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
-    let mut data = raw_unit_data();
-    data.insert("SPRING FORCE".to_string(), HashMap::new());
-
-    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
-    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
-    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
-    data =    generate_volume_units(data);
-
-
-    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
-    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
-    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
-    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
-    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
-    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
-
-    data
-}
-
-/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
-pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
-    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
-        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
-    }
-
-    let cf: Vec<f64> = UD.iter()
-    .filter(|&i| { 
-        let qty = UD.get(i.0).unwrap().clone();
-        qty.contains_key(fro) && qty.contains_key(to)
-    }).map(|i| {
-        i.1[fro] / i.1[to]
-    }).collect();
-
-    if cf.len() != 1 {
-        return Err(UnitConversionError.into())
-    }
-
-    Ok(cf[0])
-}
-
-/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
-pub fn const_data() -> HashMap<String, f64> {
-
-    let raw_text = include_str!("consts.json");
-    let err = "failed to parse json... is the formatting of consts.json correct?";
-    
-    // thankfully this isn't as bad as reading units.json
-    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
-    .map(
-        |i| {
-            let err = format!("failed to parse json: {:#?}", i.1);
-            let c1 = i.1.as_array().expect(&err);
-
-            let err = format!("failed to parse json: {:#?}", c1[1]);
-            let c2 = match c1[1].as_f64() {
-                Some(c) => c,
-                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
-            };
-
-            (i.0.to_string(), c2)
-
-    }).collect();
-
-    dejson
+use lazy_static::lazy_static;
+use serde_json::{Value, from_str};
+use std::collections::HashMap;
+
+use crate::errors::UnitConversionError;
+
+/// Handles generating additional units for various combinations of other units
+fn generate_num_denom_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, num: &str, denom: &str) -> HashMap<String, HashMap<String, f64>> {
+    
+    let mut temp = HashMap::new();
+    
+    for i in &data[&num.to_string()] {
+    
+        for j in &data[&denom.to_string()] {
+    
+            temp.insert(
+                format!("{}/{}", i.0, j.0),
+                *i.1 / *j.1
+            );
+        
+        }
+    
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_fact_fact_units(mut data:HashMap<String, HashMap<String, f64>>, qty: &str, fc1: &str, fc2: &str) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    if fc1 == fc2 {
+        for i in &data[&fc1.to_string()] {
+            temp.insert( format!("{}^2", i.0), *i.1 * *i.1);
+        }
+    } else {
+        for i in &data[&fc1.to_string()] {
+            for j in &data[&fc2.to_string()] {
+                let val = *i.1 * *j.1;
+                temp.insert( format!("{}-{}", i.0, j.0), val);
+                temp.insert( format!("{}-{}", j.0, i.0), val);
+            }
+        }
+    }
+
+    if let Some(d) = data.get_mut(qty) {
+        d.extend(temp.into_iter());
+    }
+
+    data
+}
+
+/// Handles generating additional units for various combinations of other units
+fn generate_volume_units(mut data:HashMap<String, HashMap<String, f64>>) -> HashMap<String, HashMap<String, f64>> {
+
+    let mut temp = HashMap::new();
+    
+    for i in &data[&"LENGTH".to_string()] {
+        temp.insert( format!("{}^3", i.0), *i.1 * *i.1 * *i.1);    
+    }
+
+    if let Some(d) = data.get_mut("VOLUME") {
+        d.extend(temp.into_iter());
+    }
+    
+    data
+}
+
+/// Returns the data contained in units.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn raw_unit_data() -> HashMap<String, HashMap<String, f64>> {
+
+    let raw_text = include_str!("units.json");
+    let err = "failed to parse json... is the formatting of 'units.json' correct?";
+    
+    // again I ask, lord forgive me for what I am about to do...
+    let dejson: HashMap<String, HashMap<String, f64>> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| (
+            i.0.to_string(), 
+            i.1.as_object().expect(err).into_iter()
+            .map(
+                |j| (
+                    j.0.to_string(), 
+                    j.1.as_f64().expect(err)
+                )
+            ).collect()
+        )
+    ).collect();
+
+    dejson
+}
+
+/// Generates a more complete set of unit conversion data by combining different units to create other common units.
+pub fn unit_data() -> HashMap<String, HashMap<String, f64>> {
+    let mut data = raw_unit_data();
+    data.insert("SPRING FORCE".to_string(), HashMap::new());
+
+    data = generate_fact_fact_units(data, "AREA",               "LENGTH",           "LENGTH");
+    data = generate_fact_fact_units(data, "VISCOSITY-DYNAMIC",  "PRESSURE",         "TIME");
+    data = generate_fact_fact_units(data, "ENERGY",             "FORCE",            "LENGTH"); // this is also torque units
+    data =    generate_volume_units(data);
+
+
+    data = generate_num_denom_units(data, "VELOCITY",           "LENGTH",           "TIME");
+    data = generate_num_denom_units(data, "FREQUENCY",          "NON DIMENSIONAL",  "TIME");
+    data = generate_num_denom_units(data, "VOLUMETRIC FLOW",    "VOLUME",           "TIME");
+    data = generate_num_denom_units(data, "POWER",              "ENERGY",           "TIME");
+    data = generate_num_denom_units(data, "PRESSURE",           "FORCE",            "AREA");
+    data = generate_num_denom_units(data, "SPRING FORCE",       "FORCE",            "LENGTH");
+
+    data
+}
+
+/// Returns a conversion factor between any unit in `unit_data()` for a given `fro` and `to` unit
+pub fn convert(fro: &str, to: &str) -> anyhow::Result<f64> {
+    lazy_static! { // Make it such that we don't need to generate this list more than once on runtime
+        static ref UD: HashMap<String, HashMap<String, f64>> = unit_data();
+    }
+
+    let cf: Vec<f64> = UD.iter()
+    .filter(|&i| { 
+        let qty = UD.get(i.0).unwrap().clone();
+        qty.contains_key(fro) && qty.contains_key(to)
+    }).map(|i| {
+        i.1[fro] / i.1[to]
+    }).collect();
+
+    if cf.len() != 1 {
+        return Err(UnitConversionError.into())
+    }
+
+    Ok(cf[0])
+}
+
+/// Returns the data contained in consts.json as a `HashMap`, allowing for easier access to this data in Rust.
+pub fn const_data() -> HashMap<String, f64> {
+
+    let raw_text = include_str!("consts.json");
+    let err = "failed to parse json... is the formatting of consts.json correct?";
+    
+    // thankfully this isn't as bad as reading units.json
+    let dejson: HashMap<String, f64> = from_str::<HashMap<&str, Value>>(raw_text).expect(err).into_iter()
+    .map(
+        |i| {
+            let err = format!("failed to parse json: {:#?}", i.1);
+            let c1 = i.1.as_array().expect(&err);
+
+            let err = format!("failed to parse json: {:#?}", c1[1]);
+            let c2 = match c1[1].as_f64() {
+                Some(c) => c,
+                None    => c1[1].as_str().expect(&err).parse::<f64>().expect(&err)
+            };
+
+            (i.0.to_string(), c2)
+
+    }).collect();
+
+    dejson
 }
\ No newline at end of file
diff --git a/nexsys/src/units/units.json b/nexsys/src/units/units.json
index 478b720..9afc3b4 100644
--- a/nexsys/src/units/units.json
+++ b/nexsys/src/units/units.json
@@ -1,320 +1,320 @@
-{
-    "LENGTH": {
-        "m": 1.0,
-        "meter": 1.0,
-        "metre": 1.0,
-        "Angstrom": 1e-10,
-        "nm": 1e-09,
-        "ft": 0.3048,
-        "dm": 0.1,
-        "in": 0.0254,
-        "inch": 0.0254,
-        "mm": 0.001,
-        "micron": 1e-06,
-        "micrometer": 1e-06,
-        "\u00c2\u00b5m": 1e-06,
-        "nanometer": 1e-09,
-        "millimeter": 0.001,
-        "cm": 0.01,
-        "km": 1000.0,
-        "yd": 0.9144,
-        "yard": 0.9144,
-        "mi": 1609.344,
-        "mile": 1609.344,
-        "miles": 1609.344,
-        "fathom": 1.8288,
-        "mil": 2.54e-05,
-        "rod": 5.0292,
-        "furlong": 201.168,
-        "league": 5556.0,
-        "hectometer": 100.0
-    },
-    "MASS": {
-        "kg": 1.0,
-        "lbm": 0.453592374,
-        "lb_m": 0.453592374,
-        "g": 0.001,
-        "ton": 907.184749,
-        "grain": 6.4799e-05,
-        "mg": 1e-06,
-        "oz": 0.028349523,
-        "ozm": 0.028349523,
-        "slug": 14.593881,
-        "stone": 6.350293236,
-        "amu": 1.660531e-27,
-        "\u00c2\u00b5g": 1e-09,
-        "microgram": 1e-09,
-        "mt": 1000.0,
-        "tonne": 1000.0
-    },
-    "MOLES": {
-        "kgmole": 1.0,
-        "kgmol": 1.0,
-        "kmole": 1.0,
-        "kmol": 1.0,
-        "lbmole": 0.453592374,
-        "lbmol": 0.453592374,
-        "gmole": 0.001,
-        "gmol": 0.001,
-        "mole": 0.001,
-        "mol": 0.001
-    },
-    "TIME": {
-        "s": 1.0,
-        "sec": 1.0,
-        "second": 1.0,
-        "min": 60.0,
-        "minute": 60.0,
-        "h": 3600.0,
-        "hr": 3600.0,
-        "hour": 3600.0,
-        "day": 86400.0,
-        "days": 86400.0,
-        "week": 604800.0,
-        "weeks": 604800.0,
-        "fortnight": 1209600.0,
-        "year": 31556952.0,
-        "yr": 31556952.0,
-        "years": 31556952.0,
-        "millisec": 0.001,
-        "\u00c2\u00b5sec": 1e-06,
-        "microsec": 1e-06
-    },
-    "FREQUENCY": {
-        "cps": 1.0,
-        "cpm": 0.016666667,
-        "Bq": 1.0,
-        "ci": 37000000000.0,
-        "Hz": 1.0
-    },
-    "TEMPERATURE": {
-        "K": 1.0,
-        "C": 1.0,
-        "R": 0.55555556,
-        "F": 0.55555556,
-        "\u00c2\u00b0C": 1.0,
-        "\u00c2\u00b0F": 0.55555556
-    },
-    "TEMP. DIFFERENCE": {
-        "DELTAK": 1.0,
-        "DELTAC": 1.0,
-        "DELTAF": 0.55555556,
-        "DELTAR": 0.55555556
-    },
-    "VELOCITY": {
-        "mph": 0.44704,
-        "knot": 0.51444,
-        "m/s": 1.0,
-        "km/s": 0.001,
-        "ft/s": 0.3048,
-        "kph": 0.2777778,
-        "km/h": 0.2777778
-    },
-    "AREA": {
-        "sqm": 1.0,
-        "sqcm": 0.0001,
-        "sqft": 0.09290304,
-        "sqin": 0.00064516,
-        "acre": 4046.856,
-        "hectare": 10000.0,
-        "barn": 1e-28
-    },
-    "VOLUME": {
-        "gal": 0.0037854118,
-        "gallon": 0.0037854118,
-        "l": 0.001,
-        "L": 0.001,
-        "Bu": 0.03523907016688,
-        "ml": 1e-06,
-        "milliliter": 1e-06,
-        "\u00c2\u00b5l": 1e-09,
-        "microliter": 1e-09,
-        "liter": 0.001,
-        "quart": 0.0009463264,
-        "oz": 2.9572702e-05,
-        "ozv": 2.9572702e-05,
-        "pint": 0.000473163,
-        "bbl": 0.1589873
-    },
-    "VOLUMETRIC FLOW": {
-        "cfm": 0.00047194744,
-        "gph": 1.051503e-06,
-        "gpm": 6.30902e-05
-    },
-    "FORCE": {
-        "N": 1.0,
-        "kN": 1000.0,
-        "lbf": 4.448222,
-        "lb_f": 4.448222,
-        "dyne": 1e-05,
-        "kgf": 9.80665,
-        "kg_f": 9.80665
-    },
-    "PRESSURE": {
-        "Pa": 1.0,
-        "milliPa": 0.001,
-        "microPa": 1e-06,
-        "\u00c2\u00b5Pa": 1e-06,
-        "kPa": 1000.0,
-        "MPa": 1000000.0,
-        "GPa": 1000000000.0,
-        "gigaPa": 1000000000.0,
-        "bar": 100000.0,
-        "milliBar": 100.0,
-        "atm": 101325.0,
-        "psia": 6894.75788958,
-        "psi": 6894.75788958,
-        "ksi": 6894757.88958,
-        "psig": 6894.75788958,
-        "psf": 47.88055555,
-        "mmH2O": 9.80665,
-        "mH2O": 9806.65,
-        "mmHg": 133.3224,
-        "inHg": 3386.388,
-        "torr": 133.3224,
-        "inH2O": 249.088,
-        "in.H2O": 249.088,
-        "ftH2O": 2989.057
-    },
-    "ENERGY": {
-        "J": 1.0,
-        "milliJ": 0.001,
-        "kJ": 1000.0,
-        "MJ": 1000000.0,
-        "Wh": 3600.0,
-        "Whr": 3600.0,
-        "kWh": 3600000.0,
-        "kWhr": 3600000.0,
-        "MWh": 3600000000.0,
-        "MWhr": 3600000000.0,
-        "GWh": 3600000000000.0,
-        "GWhr": 3600000000000.0,
-        "GJ": 1000000000.0,
-        "Btu": 1055.056,
-        "MBtu": 1055056000.0,
-        "MMBtu": 1055056000.0,
-        "kBtu": 1055056.0,
-        "cal": 4.1868,
-        "kcal": 4186.8,
-        "erg": 1e-07,
-        "ev": 1.60207e-19,
-        "eV": 1.60207e-19,
-        "keV": 1.60207e-16,
-        "kev": 1.60207e-16,
-        "mev": 1.60207e-13,
-        "meV": 1.60207e-13,
-        "bev": 1.60207e-10,
-        "beV": 1.60207e-10,
-        "therm": 105505600.0,
-        "therms": 105505600.0,
-        "quad": 1.055056e+18,
-        "quads": 1.055056e+18
-    },
-    "POWER": {
-        "W": 1.0,
-        "hp": 745.7,
-        "ton": 3516.852,
-        "tons": 3516.852,
-        "microW": 1e-06,
-        "milliW": 0.001,
-        "kW": 1000.0,
-        "MW": 1000000.0,
-        "MegaW": 1000000.0,
-        "gW": 1000000000.0,
-        "gigaW": 1000000000.0
-    },
-    "VISCOSITY-DYNAMIC": {
-        "poise": 0.1,
-        "centipoise": 0.001,
-        "micropoise": 1e-07,
-        "cp": 0.001,
-        "Reyn": 6894.7
-    },
-    "VISCOSITY-KINEMATIC": {
-        "Stoke": 0.0001,
-        "centiStoke": 1e-06
-    },
-    "ANGLES": {
-        "radian": 1.0,
-        "radians": 1.0,
-        "rad": 1.0,
-        "deg": 0.017453293,
-        "degree": 0.017453293,
-        "degrees": 0.017453293,
-        "\u00c2\u00b0": 0.017453293,
-        "rev": 6.28318530718,
-        "revs": 6.28318530718,
-        "revolutions": 6.28318530718,
-        "minute": 0.000290888,
-        "quadrant": 1.5707963,
-        "cycle": 6.28318530718,
-        "cycles": 6.28318530718
-    },
-    "CHARGE": {
-        "Coulomb": 1.0,
-        "Faraday": 96517.844,
-        "Abcoulomb": 10.0
-    },
-    "ELECTRICAL CAPACITANCE": {
-        "Farad": 1.0,
-        "pFarad": 1e-12,
-        "pF": 1e-12
-    },
-    "DIPOLE MOMENT": {
-        "Debye": 3.33564e-30
-    },
-    "CURRENT": {
-        "Amp": 1.0,
-        "Ampere": 1.0,
-        "A": 1.0
-    },
-    "ELECTRICAL RESISTANCE": {
-        "ohm": 1.0,
-        "kohm": 1000.0
-    },
-    "ELECTROMOTIVE FORCE": {
-        "Volt": 1.0,
-        "millivolt": 0.001,
-        "kV": 1000.0,
-        "MegaVolt": 1000000.0,
-        "v": 1.0
-    },
-    "INDUCTANCE": {
-        "Henry": 1.0
-    },
-    "NON DIMENSIONAL": {
-        "-": 1.0,
-        "space": 1.0,
-        "Percent": 0.01,
-        "%": 0.01,
-        "person": 1.0,
-        "persons": 1.0,
-        "ppm": 1e-06,
-        "ppb": 1e-09,
-        "any": 1.0
-    },
-    "MAGNETIC FLUX DENSITY": {
-        "Gauss": 0.0001,
-        "G": 0.0001,
-        "Tesla": 1.0,
-        "T": 1.0
-    },
-    "MAGNETIC FLUX": {
-        "Maxwell": 1e-08,
-        "Mx": 1e-08,
-        "Weber": 1.0,
-        "Wb": 1.0
-    },
-    "MAGNETIC FIELD STRENGTH": {
-        "Oersted": 79.5774715459,
-        "Oe": 79.5774715459
-    },
-    "ILLUMINANCE": {
-        "lm": 1.0
-    },
-    "ILLUMINANCE FLUX": {
-        "lux": 1.0,
-        "ftcndl": 10.763910417,
-        "mcndl": 1.0
-    }
+{
+    "LENGTH": {
+        "m": 1.0,
+        "meter": 1.0,
+        "metre": 1.0,
+        "Angstrom": 1e-10,
+        "nm": 1e-09,
+        "ft": 0.3048,
+        "dm": 0.1,
+        "in": 0.0254,
+        "inch": 0.0254,
+        "mm": 0.001,
+        "micron": 1e-06,
+        "micrometer": 1e-06,
+        "\u00c2\u00b5m": 1e-06,
+        "nanometer": 1e-09,
+        "millimeter": 0.001,
+        "cm": 0.01,
+        "km": 1000.0,
+        "yd": 0.9144,
+        "yard": 0.9144,
+        "mi": 1609.344,
+        "mile": 1609.344,
+        "miles": 1609.344,
+        "fathom": 1.8288,
+        "mil": 2.54e-05,
+        "rod": 5.0292,
+        "furlong": 201.168,
+        "league": 5556.0,
+        "hectometer": 100.0
+    },
+    "MASS": {
+        "kg": 1.0,
+        "lbm": 0.453592374,
+        "lb_m": 0.453592374,
+        "g": 0.001,
+        "ton": 907.184749,
+        "grain": 6.4799e-05,
+        "mg": 1e-06,
+        "oz": 0.028349523,
+        "ozm": 0.028349523,
+        "slug": 14.593881,
+        "stone": 6.350293236,
+        "amu": 1.660531e-27,
+        "\u00c2\u00b5g": 1e-09,
+        "microgram": 1e-09,
+        "mt": 1000.0,
+        "tonne": 1000.0
+    },
+    "MOLES": {
+        "kgmole": 1.0,
+        "kgmol": 1.0,
+        "kmole": 1.0,
+        "kmol": 1.0,
+        "lbmole": 0.453592374,
+        "lbmol": 0.453592374,
+        "gmole": 0.001,
+        "gmol": 0.001,
+        "mole": 0.001,
+        "mol": 0.001
+    },
+    "TIME": {
+        "s": 1.0,
+        "sec": 1.0,
+        "second": 1.0,
+        "min": 60.0,
+        "minute": 60.0,
+        "h": 3600.0,
+        "hr": 3600.0,
+        "hour": 3600.0,
+        "day": 86400.0,
+        "days": 86400.0,
+        "week": 604800.0,
+        "weeks": 604800.0,
+        "fortnight": 1209600.0,
+        "year": 31556952.0,
+        "yr": 31556952.0,
+        "years": 31556952.0,
+        "millisec": 0.001,
+        "\u00c2\u00b5sec": 1e-06,
+        "microsec": 1e-06
+    },
+    "FREQUENCY": {
+        "cps": 1.0,
+        "cpm": 0.016666667,
+        "Bq": 1.0,
+        "ci": 37000000000.0,
+        "Hz": 1.0
+    },
+    "TEMPERATURE": {
+        "K": 1.0,
+        "C": 1.0,
+        "R": 0.55555556,
+        "F": 0.55555556,
+        "\u00c2\u00b0C": 1.0,
+        "\u00c2\u00b0F": 0.55555556
+    },
+    "TEMP. DIFFERENCE": {
+        "DELTAK": 1.0,
+        "DELTAC": 1.0,
+        "DELTAF": 0.55555556,
+        "DELTAR": 0.55555556
+    },
+    "VELOCITY": {
+        "mph": 0.44704,
+        "knot": 0.51444,
+        "m/s": 1.0,
+        "km/s": 0.001,
+        "ft/s": 0.3048,
+        "kph": 0.2777778,
+        "km/h": 0.2777778
+    },
+    "AREA": {
+        "sqm": 1.0,
+        "sqcm": 0.0001,
+        "sqft": 0.09290304,
+        "sqin": 0.00064516,
+        "acre": 4046.856,
+        "hectare": 10000.0,
+        "barn": 1e-28
+    },
+    "VOLUME": {
+        "gal": 0.0037854118,
+        "gallon": 0.0037854118,
+        "l": 0.001,
+        "L": 0.001,
+        "Bu": 0.03523907016688,
+        "ml": 1e-06,
+        "milliliter": 1e-06,
+        "\u00c2\u00b5l": 1e-09,
+        "microliter": 1e-09,
+        "liter": 0.001,
+        "quart": 0.0009463264,
+        "oz": 2.9572702e-05,
+        "ozv": 2.9572702e-05,
+        "pint": 0.000473163,
+        "bbl": 0.1589873
+    },
+    "VOLUMETRIC FLOW": {
+        "cfm": 0.00047194744,
+        "gph": 1.051503e-06,
+        "gpm": 6.30902e-05
+    },
+    "FORCE": {
+        "N": 1.0,
+        "kN": 1000.0,
+        "lbf": 4.448222,
+        "lb_f": 4.448222,
+        "dyne": 1e-05,
+        "kgf": 9.80665,
+        "kg_f": 9.80665
+    },
+    "PRESSURE": {
+        "Pa": 1.0,
+        "milliPa": 0.001,
+        "microPa": 1e-06,
+        "\u00c2\u00b5Pa": 1e-06,
+        "kPa": 1000.0,
+        "MPa": 1000000.0,
+        "GPa": 1000000000.0,
+        "gigaPa": 1000000000.0,
+        "bar": 100000.0,
+        "milliBar": 100.0,
+        "atm": 101325.0,
+        "psia": 6894.75788958,
+        "psi": 6894.75788958,
+        "ksi": 6894757.88958,
+        "psig": 6894.75788958,
+        "psf": 47.88055555,
+        "mmH2O": 9.80665,
+        "mH2O": 9806.65,
+        "mmHg": 133.3224,
+        "inHg": 3386.388,
+        "torr": 133.3224,
+        "inH2O": 249.088,
+        "in.H2O": 249.088,
+        "ftH2O": 2989.057
+    },
+    "ENERGY": {
+        "J": 1.0,
+        "milliJ": 0.001,
+        "kJ": 1000.0,
+        "MJ": 1000000.0,
+        "Wh": 3600.0,
+        "Whr": 3600.0,
+        "kWh": 3600000.0,
+        "kWhr": 3600000.0,
+        "MWh": 3600000000.0,
+        "MWhr": 3600000000.0,
+        "GWh": 3600000000000.0,
+        "GWhr": 3600000000000.0,
+        "GJ": 1000000000.0,
+        "Btu": 1055.056,
+        "MBtu": 1055056000.0,
+        "MMBtu": 1055056000.0,
+        "kBtu": 1055056.0,
+        "cal": 4.1868,
+        "kcal": 4186.8,
+        "erg": 1e-07,
+        "ev": 1.60207e-19,
+        "eV": 1.60207e-19,
+        "keV": 1.60207e-16,
+        "kev": 1.60207e-16,
+        "mev": 1.60207e-13,
+        "meV": 1.60207e-13,
+        "bev": 1.60207e-10,
+        "beV": 1.60207e-10,
+        "therm": 105505600.0,
+        "therms": 105505600.0,
+        "quad": 1.055056e+18,
+        "quads": 1.055056e+18
+    },
+    "POWER": {
+        "W": 1.0,
+        "hp": 745.7,
+        "ton": 3516.852,
+        "tons": 3516.852,
+        "microW": 1e-06,
+        "milliW": 0.001,
+        "kW": 1000.0,
+        "MW": 1000000.0,
+        "MegaW": 1000000.0,
+        "gW": 1000000000.0,
+        "gigaW": 1000000000.0
+    },
+    "VISCOSITY-DYNAMIC": {
+        "poise": 0.1,
+        "centipoise": 0.001,
+        "micropoise": 1e-07,
+        "cp": 0.001,
+        "Reyn": 6894.7
+    },
+    "VISCOSITY-KINEMATIC": {
+        "Stoke": 0.0001,
+        "centiStoke": 1e-06
+    },
+    "ANGLES": {
+        "radian": 1.0,
+        "radians": 1.0,
+        "rad": 1.0,
+        "deg": 0.017453293,
+        "degree": 0.017453293,
+        "degrees": 0.017453293,
+        "\u00c2\u00b0": 0.017453293,
+        "rev": 6.28318530718,
+        "revs": 6.28318530718,
+        "revolutions": 6.28318530718,
+        "minute": 0.000290888,
+        "quadrant": 1.5707963,
+        "cycle": 6.28318530718,
+        "cycles": 6.28318530718
+    },
+    "CHARGE": {
+        "Coulomb": 1.0,
+        "Faraday": 96517.844,
+        "Abcoulomb": 10.0
+    },
+    "ELECTRICAL CAPACITANCE": {
+        "Farad": 1.0,
+        "pFarad": 1e-12,
+        "pF": 1e-12
+    },
+    "DIPOLE MOMENT": {
+        "Debye": 3.33564e-30
+    },
+    "CURRENT": {
+        "Amp": 1.0,
+        "Ampere": 1.0,
+        "A": 1.0
+    },
+    "ELECTRICAL RESISTANCE": {
+        "ohm": 1.0,
+        "kohm": 1000.0
+    },
+    "ELECTROMOTIVE FORCE": {
+        "Volt": 1.0,
+        "millivolt": 0.001,
+        "kV": 1000.0,
+        "MegaVolt": 1000000.0,
+        "v": 1.0
+    },
+    "INDUCTANCE": {
+        "Henry": 1.0
+    },
+    "NON DIMENSIONAL": {
+        "-": 1.0,
+        "space": 1.0,
+        "Percent": 0.01,
+        "%": 0.01,
+        "person": 1.0,
+        "persons": 1.0,
+        "ppm": 1e-06,
+        "ppb": 1e-09,
+        "any": 1.0
+    },
+    "MAGNETIC FLUX DENSITY": {
+        "Gauss": 0.0001,
+        "G": 0.0001,
+        "Tesla": 1.0,
+        "T": 1.0
+    },
+    "MAGNETIC FLUX": {
+        "Maxwell": 1e-08,
+        "Mx": 1e-08,
+        "Weber": 1.0,
+        "Wb": 1.0
+    },
+    "MAGNETIC FIELD STRENGTH": {
+        "Oersted": 79.5774715459,
+        "Oe": 79.5774715459
+    },
+    "ILLUMINANCE": {
+        "lm": 1.0
+    },
+    "ILLUMINANCE FLUX": {
+        "lux": 1.0,
+        "ftcndl": 10.763910417,
+        "mcndl": 1.0
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 7d8840e5222b727c7491a6137acd66d50f323501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:02 +0000
Subject: [PATCH 55/81] fix: conversions accept every unit of the table

Some units of the table have names with a '.' or '%', such as in.H2O. A token
with such a name was not recognised and left in the text.
---
 nexsys/src/parsing/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nexsys/src/parsing/mod.rs b/nexsys/src/parsing/mod.rs
index 2eda8ac..9a07246 100644
--- a/nexsys/src/parsing/mod.rs
+++ b/nexsys/src/parsing/mod.rs
@@ -82,7 +82,7 @@ pub fn comments(text: &str) -> String
 pub fn conversions(text: &str) -> anyhow::Result<String> {
     lazy_static! 
     {
-        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/-]+->[a-z0-9_^/-]+\]");
+        static ref RE: Regex = nexsys_regex(r"(?i)\[[a-z0-9_^/.%-]+->[a-z0-9_^/.%-]+\]");
     }
 
     let mut output = text.to_string();
-- 
2.43.0


From a7082fc25ca5016893e7689ad683383e8a79cffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:07 +0000
Subject: [PATCH 56/81] fix: nxc --verbose leaves comments out of what it
 compiles

A comment that mentions an unknown constant or conversion made nxc fail with
--verbose, though the system has a solution.
---
 nexsys/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/main.rs b/nexsys/src/main.rs
index 276a03d..23acc5f 100644
--- a/nexsys/src/main.rs
+++ b/nexsys/src/main.rs
@@ -1,7 +1,7 @@
 use std::{env, process};
 use std::fs::{read_to_string, write};
 use std::path::Path;
-use nexsys::{solve_with_preprocessors, parsing::{conditionals, conversions, consts}};
+use nexsys::{solve_with_preprocessors, parsing::{comments, conditionals, conversions, consts}};
 
 fn main() {
     let args: Vec<String> = env::args().collect();
@@ -62,7 +62,7 @@ OPTIONS:
         if args[i] == *"--verbose" || args[i] == *"-v" {
             println!("[nxc].....Printing compiled code...");
 
-            let preprocess = conversions(&system)
+            let preprocess = conversions(&comments(&system))
                 .and_then(|p| consts(&p))
                 .and_then(|p| conditionals(&p));
 
-- 
2.43.0


From cefbadcbe6b77f38a4cdd4fff38b1705bff10988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:03 +0000
Subject: [PATCH 57/81] fix: a model without a finite solution is refused

A resistor without resistance between two fixed nodes gave a flux of inf or
NaN, which the solution file shows as null, and the study counted as solved.
---
 neapolitan/src/errors.rs |  2 ++
 neapolitan/src/lib.rs    | 15 +++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/errors.rs b/neapolitan/src/errors.rs
index 4d5ec44..a9378f6 100644
--- a/neapolitan/src/errors.rs
+++ b/neapolitan/src/errors.rs
@@ -45,4 +45,6 @@ pub enum NodalAnalysisModellingError
     ElementTypeNotFound,
     #[error("the number of values given for a node's potential or an element's gain does not fit the model")]
     DimensionMismatch,
+    #[error("a potential or flux in the model has no finite value")]
+    NoFiniteSolution,
 }
\ No newline at end of file
diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 703acc3..76acc12 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -362,7 +362,7 @@ impl NodalAnalysisStudyBuilder
         {
             result.elements.insert(
                 format!("{}.{idx}", self.model.elements[idx].element_type),
-                elem.get_flux()?.into()
+                finite(elem.get_flux()?)?
             );
         }
 
@@ -371,7 +371,7 @@ impl NodalAnalysisStudyBuilder
         {
             result.nodes.insert(
                 idx as u32, 
-                node.try_borrow()?.potential.clone().into(),
+                finite(node.try_borrow()?.potential.clone())?,
             );
         }
 
@@ -379,6 +379,17 @@ impl NodalAnalysisStudyBuilder
     }
 }
 
+/// Returns the given quantities, unless the model leaves one of them without a finite value.
+fn finite(quantities: Matrix<f64>) -> anyhow::Result<Vec<f64>>
+{
+    let values: Vec<f64> = quantities.into();
+    if values.iter().any(|x| !x.is_finite())
+    {
+        return Err(NodalAnalysisModellingError::NoFiniteSolution.into());
+    }
+    Ok(values)
+}
+
 /// Makes the potentials of driven nodes follow the potentials of the nodes 
 /// that drive them. Calculating the flux of an element that drives a node 
 /// updates that node and the nodes that it drives in turn.
-- 
2.43.0


From e411f749f27043dfefede1d9fbc8d6d135fb0696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 58/81] fix: a model can be parsed from its text

---
 neapolitan/src/modelling/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neapolitan/src/modelling/mod.rs b/neapolitan/src/modelling/mod.rs
index 42fce1f..ebcde84 100644
--- a/neapolitan/src/modelling/mod.rs
+++ b/neapolitan/src/modelling/mod.rs
@@ -5,7 +5,7 @@ pub mod node;
 use std::{collections::HashMap, str::FromStr, usize};
 
 /// 3rd party modules
-use serde::de::{Deserialize, IntoDeserializer, value};
+use serde::de::{value, Error};
 
 /// Local modules
 pub use element::GenericElement;
@@ -55,6 +55,6 @@ impl FromStr for NodalAnalysisModel
 
     fn from_str(s: &str) -> Result<Self, Self::Err> 
     {
-        Self::deserialize(s.into_deserializer())
+        serde_json::from_str(s).map_err(value::Error::custom)
     }
 }
\ No newline at end of file
-- 
2.43.0


From 35900cc41b44433bd6f17b211dca3e083a1ca406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:17 +0000
Subject: [PATCH 59/81] fix: potentials can be read while a node is in use

---
 neapolitan/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neapolitan/src/lib.rs b/neapolitan/src/lib.rs
index 76acc12..736e925 100644
--- a/neapolitan/src/lib.rs
+++ b/neapolitan/src/lib.rs
@@ -447,7 +447,7 @@ pub fn get_node_potential(node_ref: &Weak<RefCell<GenericNode>>) -> anyhow::Resu
 {
     if let Some(node) = node_ref.upgrade()
     {
-        Ok(node.try_borrow_mut()?.potential.clone())
+        Ok(node.try_borrow()?.potential.clone())
     }
     else
     {
-- 
2.43.0


From 97afe0f4900e3ccdd5bacb5b31e849328f3ef3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:21 +0000
Subject: [PATCH 60/81] fix: appending a tag leaves the tags beside it alone

---
 ngineer_js/src/tagbuilder.ts    | 8 ++------
 ngineer_js/target/tagbuilder.js | 7 +------
 2 files changed, 3 insertions(+), 12 deletions(-)

diff --git a/ngineer_js/src/tagbuilder.ts b/ngineer_js/src/tagbuilder.ts
index dad3f53..597093a 100644
--- a/ngineer_js/src/tagbuilder.ts
+++ b/ngineer_js/src/tagbuilder.ts
@@ -183,13 +183,9 @@ export class TagBuilder
         if (append)
         {
             const el = parentTag.getter();
-            console.info(`refreshed element and children for: ${el.id}`);
-            el.innerHTML += preview;
+            // The elements that are already there stay as they are, callbacks included
+            el.insertAdjacentHTML('beforeend', preview);
             parentTag.children.push(getter);
-            for (let childGetter of parentTag.children)
-            { 
-                childGetter(); // Re-initialize old tags
-            }
         }
         else
         {
diff --git a/ngineer_js/target/tagbuilder.js b/ngineer_js/target/tagbuilder.js
index 8b1b48a..66df603 100644
--- a/ngineer_js/target/tagbuilder.js
+++ b/ngineer_js/target/tagbuilder.js
@@ -76,13 +76,8 @@ var TagBuilder = (function () {
         UNIQUE_ELEMENT_IDS.add(this.tagId);
         if (append) {
             var el = parentTag.getter();
-            console.info("refreshed element and children for: ".concat(el.id));
-            el.innerHTML += preview;
+            el.insertAdjacentHTML('beforeend', preview);
             parentTag.children.push(getter);
-            for (var _i = 0, _a = parentTag.children; _i < _a.length; _i++) {
-                var childGetter = _a[_i];
-                childGetter();
-            }
         }
         else {
             parentTag.getter().innerHTML = preview;
-- 
2.43.0


From fb4be72e98f64f6080092316603606b2503fbd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:24 +0000
Subject: [PATCH 61/81] fix: closing a file tab removes that tab

---
 ngineer_js/src/leftRibbonMenu.ts    | 5 +----
 ngineer_js/target/leftRibbonMenu.js | 4 +---
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index d1b110c..4962bea 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -18,12 +18,9 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
-    const newChildIndex = PROJ_TABS_BAR.children.length;
-
     const onclickCloseHandler = () => {
         const ptb = PROJ_TABS_BAR.getter();
-        const tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
+        const tagToRemove = document.getElementById(filename + '-tab');
         ptb.removeChild(tagToRemove);
         dropTagFromApplication(tagToRemove.id);
     }
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index 80197e0..33cc35e 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -12,11 +12,9 @@ export function createLeftRibbonMenuFileItem(filename) {
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
-    var newChildIndex = PROJ_TABS_BAR.children.length;
     var onclickCloseHandler = function () {
         var ptb = PROJ_TABS_BAR.getter();
-        var tagToRemove = ptb.children[newChildIndex];
-        console.log('chugya');
+        var tagToRemove = document.getElementById(filename + '-tab');
         ptb.removeChild(tagToRemove);
         dropTagFromApplication(tagToRemove.id);
     };
-- 
2.43.0


From 535a5b5f407a74a205d9c2a97a77faac7bf49d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:26 +0000
Subject: [PATCH 62/81] fix: showing the tab that is shown already keeps its
 content

---
 ngineer_js/src/panelManager.ts    | 21 +++++++++++++++------
 ngineer_js/target/panelManager.js | 17 +++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/ngineer_js/src/panelManager.ts b/ngineer_js/src/panelManager.ts
index 6ae7290..4489bf1 100644
--- a/ngineer_js/src/panelManager.ts
+++ b/ngineer_js/src/panelManager.ts
@@ -8,13 +8,18 @@ export const LEFT_PANEL_MANAGER =
     filesTabState: '', // This is the default tab. It's text is determined by the hard-coded html value.
     modelTabState: 'view a file to see modelling tools',
 
+    modelTabIsShown: false,
+
     focusModelTab(): void
     {
         let lr = LEFT_RIBBON.getter();
         
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabIsShown)
+        {
+            LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
+            lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
+            LEFT_PANEL_MANAGER.modelTabIsShown = true;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
@@ -25,9 +30,13 @@ export const LEFT_PANEL_MANAGER =
     focusFilesTab(): void
     {
         let lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+
+        if (LEFT_PANEL_MANAGER.modelTabIsShown)
+        {
+            LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
+            lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
+            LEFT_PANEL_MANAGER.modelTabIsShown = false;
+        }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
diff --git a/ngineer_js/target/panelManager.js b/ngineer_js/target/panelManager.js
index e4d265f..7a3a09d 100644
--- a/ngineer_js/target/panelManager.js
+++ b/ngineer_js/target/panelManager.js
@@ -4,20 +4,25 @@ export var SCREEN_PANEL_MANAGER = [];
 export var LEFT_PANEL_MANAGER = {
     filesTabState: '',
     modelTabState: 'view a file to see modelling tools',
+    modelTabIsShown: false,
     focusModelTab: function () {
         var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
-        LEFT_RIBBON.getter();
+        if (!LEFT_PANEL_MANAGER.modelTabIsShown) {
+            LEFT_PANEL_MANAGER.filesTabState = lr.innerHTML;
+            lr.innerHTML = LEFT_PANEL_MANAGER.modelTabState;
+            LEFT_PANEL_MANAGER.modelTabIsShown = true;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         DebugRibbon.print("now showing modelling tab.");
     },
     focusFilesTab: function () {
         var lr = LEFT_RIBBON.getter();
-        LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
-        lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
-        LEFT_RIBBON.getter();
+        if (LEFT_PANEL_MANAGER.modelTabIsShown) {
+            LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
+            lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
+            LEFT_PANEL_MANAGER.modelTabIsShown = false;
+        }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
         DebugRibbon.print("now showing the filetree tab.");
-- 
2.43.0


From 3a6bb0971fa61d6540caad5b335596f69842de33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:28 +0000
Subject: [PATCH 63/81] fix: files can be opened after showing the modelling
 tab

---
 ngineer_js/src/panelManager.ts    | 6 ++++++
 ngineer_js/target/panelManager.js | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/ngineer_js/src/panelManager.ts b/ngineer_js/src/panelManager.ts
index 4489bf1..4742af3 100644
--- a/ngineer_js/src/panelManager.ts
+++ b/ngineer_js/src/panelManager.ts
@@ -36,6 +36,12 @@ export const LEFT_PANEL_MANAGER =
             LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
             lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
             LEFT_PANEL_MANAGER.modelTabIsShown = false;
+
+            // The tags were made anew, without their callbacks
+            for (let childGetter of LEFT_RIBBON.children)
+            {
+                childGetter();
+            }
         }
 
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
diff --git a/ngineer_js/target/panelManager.js b/ngineer_js/target/panelManager.js
index 7a3a09d..754210c 100644
--- a/ngineer_js/target/panelManager.js
+++ b/ngineer_js/target/panelManager.js
@@ -22,6 +22,10 @@ export var LEFT_PANEL_MANAGER = {
             LEFT_PANEL_MANAGER.modelTabState = lr.innerHTML;
             lr.innerHTML = LEFT_PANEL_MANAGER.filesTabState;
             LEFT_PANEL_MANAGER.modelTabIsShown = false;
+            for (var _i = 0, _a = LEFT_RIBBON.children; _i < _a.length; _i++) {
+                var childGetter = _a[_i];
+                childGetter();
+            }
         }
         MODEL_TAB.getter().style.backgroundColor = CommonBGColors.Dark;
         FILES_TAB.getter().style.backgroundColor = CommonBGColors.Lightest;
-- 
2.43.0


From 07077c47babbfa5fdcc625b4c837220a9323a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:06 +0000
Subject: [PATCH 64/81] fix: files can be named like the tabs of the page

---
 ngineer_js/src/leftRibbonMenu.ts    | 9 ++++++---
 ngineer_js/target/leftRibbonMenu.js | 7 ++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/ngineer_js/src/leftRibbonMenu.ts b/ngineer_js/src/leftRibbonMenu.ts
index 4962bea..034d980 100644
--- a/ngineer_js/src/leftRibbonMenu.ts
+++ b/ngineer_js/src/leftRibbonMenu.ts
@@ -18,21 +18,24 @@ export function generateFocusCallback(filename: string, elementId?: string): (e:
 {
     const onclickFocusHandler = () => console.log(`clicked the ${filename} tab!`);
 
+    // Unlike the filename alone, this is not the id of one of the page's own tabs
+    const tabId = 'project-' + filename + '-tab';
+
     const onclickCloseHandler = () => {
         const ptb = PROJ_TABS_BAR.getter();
-        const tagToRemove = document.getElementById(filename + '-tab');
+        const tagToRemove = document.getElementById(tabId);
         ptb.removeChild(tagToRemove);
         dropTagFromApplication(tagToRemove.id);
     }
 
     return (event: Event) => {
-        const tabElement = document.getElementById(filename + '-tab');
+        const tabElement = document.getElementById(tabId);
 
         if (tabElement === null)
         {
             // If the tab doesn't exist, make one:
             const tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(tabId)
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
diff --git a/ngineer_js/target/leftRibbonMenu.js b/ngineer_js/target/leftRibbonMenu.js
index 33cc35e..512c17d 100644
--- a/ngineer_js/target/leftRibbonMenu.js
+++ b/ngineer_js/target/leftRibbonMenu.js
@@ -12,17 +12,18 @@ export function createLeftRibbonMenuFileItem(filename) {
 }
 export function generateFocusCallback(filename, elementId) {
     var onclickFocusHandler = function () { return console.log("clicked the ".concat(filename, " tab!")); };
+    var tabId = 'project-' + filename + '-tab';
     var onclickCloseHandler = function () {
         var ptb = PROJ_TABS_BAR.getter();
-        var tagToRemove = document.getElementById(filename + '-tab');
+        var tagToRemove = document.getElementById(tabId);
         ptb.removeChild(tagToRemove);
         dropTagFromApplication(tagToRemove.id);
     };
     return function (event) {
-        var tabElement = document.getElementById(filename + '-tab');
+        var tabElement = document.getElementById(tabId);
         if (tabElement === null) {
             var tab = new TagBuilder('span')
-                .setTagId(filename + '-tab')
+                .setTagId(tabId)
                 .setTagClass(CommonTagClasses.TopRibbonMenuFileItem)
                 .setTagCallback('onmouseup', onclickFocusHandler)
                 .buildInto(PROJ_TABS_BAR, true);
-- 
2.43.0


From 7d660c3a6c164a4519ca6ffc9589b588a4f4042e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 65/81] fix: the solvers iterate without using up the stack

---
 geqslib/src/newton.rs | 53 +++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/geqslib/src/newton.rs b/geqslib/src/newton.rs
index 5f9737d..d8e5907 100644
--- a/geqslib/src/newton.rs
+++ b/geqslib/src/newton.rs
@@ -37,26 +37,33 @@ where anyhow::Error: From<E>
         return Err(NewtonRaphsonSolverError::NegativeMargin.into());
     }
 
-    // Allow user to manually prevent stack overflow
-    if limit == 0
+    let mut guess = guess;
+    for _ in 0..limit
     {
-        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
+        let (next_guess, is_solution) = newton_raphson_step(&f, guess, margin)?;
+        if is_solution
+        {
+            return Ok(guess);
+        }
+        guess = next_guess;
     }
 
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
+}
+
+/// Performs one iteration of `newton_raphson`. Returns the next guess and whether
+/// the current one is sufficiently close to the solution already.
+fn newton_raphson_step<E>(f: &impl Fn(f64) -> Result<f64, E>, guess: f64, margin: f64) -> Result<(f64, bool), E>
+{
     let y = f(guess)?;
     let y_prime = (f(guess + _DX_)? - y) / _DX_;
     let delta = y / y_prime;
 
     // Check if we are sufficiently close to the solution:
-    if y.abs() <= margin && delta.abs() <= margin // ...in both the y AND x directions...
-    {
-        return Ok(guess); // ...if so, exit early
-    }
-
-    // ...if not, calculate next iteration
-    let next_guess = guess - delta;
+    let is_solution = y.abs() <= margin && delta.abs() <= margin; // ...in both the y AND x directions...
 
-    newton_raphson(f, next_guess, margin, limit - 1)
+    // ...if not, continue with the next iteration
+    Ok((guess - delta, is_solution))
 }
 
 /// A basic implementation of the Newton-Raphson method for multivariate
@@ -110,12 +117,24 @@ where
         return Err(NewtonRaphsonSolverError::NegativeMargin.into());
     }
 
-    // Allow user to manually prevent stack overflow
-    if limit == 0
+    for _ in 0..limit
     {
-        return Err(NewtonRaphsonSolverError::ReachedIterationLimit.into());
+        if multivariate_newton_raphson_step(&f, guess, margin)?
+        {
+            return Ok(guess);
+        }
     }
 
+    Err(NewtonRaphsonSolverError::ReachedIterationLimit.into())
+}
+
+/// Performs one iteration of `multivariate_newton_raphson`. Returns `true` if `guess` is 
+/// sufficiently close to the solution. If not, `guess` is set to the next guess.
+fn multivariate_newton_raphson_step<K, E>(f: &[impl Fn(&HashMap<K, f64>) -> Result<f64, E>], guess: &mut HashMap<K, f64>, margin: f64) -> anyhow::Result<bool>
+where 
+    K: Clone + Eq + Hash,
+    anyhow::Error: From<E>,
+{
     // Establish system size and ensure number of functions == number of vars
     let n = f.len();
     if guess.len() != n
@@ -125,7 +144,7 @@ where
 
     // Build jacobian w/ F(X) values... we will mutate them to F'(X) later
     let mut elements = vec![];
-    for func in &f 
+    for func in f 
     {
         let row = &mut vec![func(guess)?; n];
         elements.append(row);
@@ -177,7 +196,7 @@ where
 
     if error <= margin && change <= margin
     {
-        return Ok(guess);
+        return Ok(true);
     }
 
     // Build next guess vector
@@ -190,5 +209,5 @@ where
     }
 
     // COMPUTER, ENHANCE!
-    multivariate_newton_raphson(f, guess, margin, limit - 1)
+    Ok(false)
 }
\ No newline at end of file
-- 
2.43.0


From 574e9fb262170fb10d08507c94894fc619eb3980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 66/81] fix: gmatlib.h compiles as C++

---
 gmatlib/gmatlib.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 60e5ed1..0b4443b 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -3,9 +3,10 @@
 // includes
 #include <limits.h>
 #ifdef __cplusplus
-#include <exception>
 #include <sstream>
-#include <tuple>
+#include <stdexcept>
+#include <string>
+#include <utility>
 
 // uses
 using std::pair;
@@ -356,7 +357,7 @@ namespace ngineer
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
         inline void inplace_invert()
         {
-            constexpr char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
+            constexpr const char *ERROR_MESSAGE_PREFIX = "failed to invert matrix because ";
             unsigned result = _ngffi_::try_inplace_invert(ptr);
             string errorText;
             stringstream ss;
@@ -400,7 +401,7 @@ namespace ngineer
         /// @brief returns a copy of the value at the given index in the matrix
         /// @param indices the row and column of the element to get
         /// @return the `double` value located at that index
-        inline const double operator[](pair<unsigned, unsigned> indices)
+        inline double operator[](pair<unsigned, unsigned> indices) const
         {
             return _ngffi_::index_double_matrix(ptr, indices.first, indices.second);
         }
@@ -411,7 +412,7 @@ namespace ngineer
         /// @param out the stringstream to format this matrix in
         /// @param o the matrix to append to the stringstream with the stream operator `<<`
         /// @return a reference to the given stringstream
-        inline friend stringstream& operator<<(stringstream &out, Matrix &const o)
+        inline friend stringstream& operator<<(stringstream &out, const Matrix &o)
         {
             unsigned numElems = o.rows * o.cols;
 
-- 
2.43.0


From a8edf0c698e35800c58f5bae75c048372fb2e777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 67/81] fix: C++ matrices are copied, not shared and freed
 twice

---
 gmatlib/gmatlib.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 0b4443b..c5579be 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -183,6 +183,30 @@ namespace ngineer
         {
         }
 
+        /// @brief creates a copy of the given matrix that owns its own elements
+        /// @param other the matrix to copy
+        Matrix(const Matrix &other):
+            rows(other.rows),
+            cols(other.cols),
+            ptr(_ngffi_::clone_double_matrix(other.ptr))
+        {
+        }
+
+        /// @brief replaces this matrix with a copy of the given one
+        /// @param other the matrix to copy
+        inline Matrix &operator=(const Matrix &other)
+        {
+            if (this != &other)
+            {
+                void *copy = _ngffi_::clone_double_matrix(other.ptr);
+                _ngffi_::free_double_matrix(ptr);
+                rows = other.rows;
+                cols = other.cols;
+                ptr = copy;
+            }
+            return *this;
+        }
+
         /// @brief creates a new identity matrix with the specified edge length
         /// @param n the number of rows/columns that the matrix should have
         /// @return a new identity matrix
@@ -265,9 +289,9 @@ namespace ngineer
         /// @brief returns the matrix product between two matrices
         /// @param rhs the right-hand operand matrix
         /// @return the matrix product of `this` matrix and `rhs`
-        inline Matrix operator*(const Matrix rhs) const
+        inline Matrix operator*(const Matrix &rhs) const
         {
-            void* matrixProduct = _ngffi_::multiply_matrix(ptr, const_cast<Matrix *>(&rhs));
+            void* matrixProduct = _ngffi_::multiply_matrix(ptr, rhs.ptr);
             if (matrixProduct == nullptr)
             {
                 string errorText;
@@ -282,9 +306,9 @@ namespace ngineer
         /// @brief returns the augment of the two given matrices if their number of rows are equal
         /// @param rhs the right-hand operand matrix
         /// @return a new matrix produced by appending the rows of the right-hand matrix to the rows of the left 
-        inline Matrix operator|(const Matrix rhs) const
+        inline Matrix operator|(const Matrix &rhs) const
         {
-            void *augmentMatrix = _ngffi_::augment_with(ptr, const_cast<Matrix *>(&rhs));
+            void *augmentMatrix = _ngffi_::augment_with(ptr, rhs.ptr);
             if (augmentMatrix == nullptr)
             {
                 string errorText;
-- 
2.43.0


From e417ff801e10b6c3ec4320650a910a2e8a0c098c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 68/81] fix: transposing a C++ matrix returns the transpose

---
 gmatlib/gmatlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index c5579be..6bb093f 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -375,7 +375,7 @@ namespace ngineer
         inline Matrix transpose() const noexcept
         {
             void *transposed = _ngffi_::transpose(ptr);
-            return Matrix { cols, rows, ptr };
+            return Matrix { cols, rows, transposed };
         }
 
         /// @brief inverts the given matrix by mutating its values through gaussian elimination
-- 
2.43.0


From 9e3d306ae7192494cec60b59b3513c1b3dd38a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 69/81] fix: errors of C++ matrices carry their whole message

---
 gmatlib/gmatlib.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 6bb093f..4f267cc 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -233,7 +233,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to scale row " << row << " by " << scalar << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -248,7 +248,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to scale matrix by " << scalar << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -264,7 +264,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -281,7 +281,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
@@ -297,7 +297,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to multiply matrix: " << this << " by matrix: " << &rhs << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
             return Matrix { rows, rhs.cols, matrixProduct };
@@ -314,7 +314,7 @@ namespace ngineer
                 string errorText;
                 stringstream ss;
                 ss << "failed to augment matrix: " << this << " with matrix: " << &rhs << ".\n";
-                ss >> errorText;
+                errorText = ss.str();
                 throw runtime_error { errorText };
             }
             return Matrix { rows, cols + rhs.cols, augmentMatrix };
@@ -353,7 +353,7 @@ namespace ngineer
                 ss << "failed to slice matrix: "  ".\n";
             }
 
-            ss >> errorText;
+            errorText = ss.str();
 
             if (!errorText.empty())
             {
@@ -408,8 +408,7 @@ namespace ngineer
                 break;
             }
             ss << ERROR_MESSAGE_PREFIX << errorText;
-            errorText.clear(); // TODO: is this necessary?
-            ss >> errorText;
+            errorText = ss.str();
             throw runtime_error { errorText };
         }
 
-- 
2.43.0


From 39a95cf1303901852911c9d49dd7d0ebf3773183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 70/81] fix: a C++ matrix that cannot be allocated is an error

---
 gmatlib/gmatlib.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 4f267cc..5e33a4f 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -181,6 +181,10 @@ namespace ngineer
             cols(cols), 
             ptr(_ngffi_::new_double_matrix(rows, cols))
         {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to allocate matrix.\n" };
+            }
         }
 
         /// @brief creates a copy of the given matrix that owns its own elements
-- 
2.43.0


From 95469a279b556bb6f2a10ec9b62d40a5bf3cb002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 71/81] fix: gmatlib.h says which row an addition changes

---
 gmatlib/gmatlib.h | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/gmatlib/gmatlib.h b/gmatlib/gmatlib.h
index 5e33a4f..84f696b 100644
--- a/gmatlib/gmatlib.h
+++ b/gmatlib/gmatlib.h
@@ -69,18 +69,18 @@ namespace _ngffi_
         /// @return a boolean integer value indicating success (0 on failure) 
         unsigned inplace_scale(void *ptr, double scalar);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner
+        /// @brief adds the row r2 to the row r1 in an element-wise manner
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_row_add(void *ptr, unsigned r1, unsigned r2);
 
-        /// @brief adds the row r1 to the row r2 in an element-wise manner AFTER scaling row r1 by a given value
+        /// @brief adds the row r2 to the row r1 in an element-wise manner AFTER scaling row r2 by a given value
         /// @param ptr a raw pointer to the matrix to mutate
-        /// @param r1 the row to add without mutating
-        /// @param r2 the row to mutably add to
-        /// @param scalar the quantity to scale row r1 by
+        /// @param r1 the row to mutably add to
+        /// @param r2 the row to add without mutating
+        /// @param scalar the quantity to scale row r2 by
         /// @return a boolean integer value indicating success (0 on failure)
         unsigned inplace_scaled_row_add(void *ptr, unsigned r1, unsigned r2, double scalar);
 
@@ -257,9 +257,9 @@ namespace ngineer
             }
         }
 
-        /// @brief adds the row `r1` to row `r2` in an element-wise fashion
-        /// @param r1 the row to add to another row
-        /// @param r2 the row to mutate by the addition operation
+        /// @brief adds the row `r2` to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the addition operation
+        /// @param r2 the row to add to another row
         inline void inplace_row_add(unsigned r1, unsigned r2)
         {
             unsigned result = _ngffi_::inplace_row_add(ptr, r1, r2);
@@ -267,15 +267,15 @@ namespace ngineer
             {
                 string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " to row " << r1 << ".\n";
                 errorText = ss.str();
                 throw runtime_error { errorText };
             }
         }
 
-        /// @brief scales the row `r1` by `scalar` before adding it to row `r2` in an element-wise fashion
-        /// @param r1 the row to scale and add
-        /// @param r2 the row to mutate by the scaled addition operation
+        /// @brief scales the row `r2` by `scalar` before adding it to row `r1` in an element-wise fashion
+        /// @param r1 the row to mutate by the scaled addition operation
+        /// @param r2 the row to scale and add
         /// @param scalar the value to scaled 
         inline void inplace_scaled_row_add(unsigned r1, unsigned r2, double scalar)
         {
@@ -284,7 +284,7 @@ namespace ngineer
             {
                 string errorText;
                 stringstream ss;
-                ss << "failed to add row " << r1 << " scaled by " << scalar << " to row " << r2 << ".\n";
+                ss << "failed to add row " << r2 << " scaled by " << scalar << " to row " << r1 << ".\n";
                 errorText = ss.str();
                 throw runtime_error { errorText };
             }
-- 
2.43.0


From 805d26039c00cba3966920d233f8a5f7da7b6952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 72/81] fix: geqslib.h compiles as C++

---
 geqslib/geqslib.h | 50 +++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index c05f199..2b283a6 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -2,8 +2,8 @@
 #define _GEQSLIB_H_
 #ifdef __cplusplus
 // includes
-#include <exception>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 
 // uses
@@ -169,6 +169,30 @@ namespace ngineer
         }
     }; // class ContextHashMap
 
+    class ConstrainedSystem
+    {
+        // Allow SystemBuilder access to private constructor 
+        friend class SystemBuilder;
+
+    private:
+        void *ptr;
+
+        ConstrainedSystem(const void *ptr): ptr(const_cast<void *>(ptr))
+        {
+        }
+
+    public:
+        inline int specify_variable(string var, double guess, double min, double max)
+        {
+            return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
+        }
+
+        inline const char *solve_system(double margin, unsigned limit)
+        {
+            return _ngffi_::solve_system(ptr, margin, limit);
+        }
+    }; // class ConstrainedSystem
+
     class SystemBuilder
     {
     private:
@@ -222,30 +246,6 @@ namespace ngineer
             _ngffi_::free_system_builder(ptr);
         }
     }; // class SystemBuilder
-
-    class ConstrainedSystem
-    {
-        // Allow SystemBuilder access to private constructor 
-        friend class SystemBuilder;
-
-    private:
-        void *ptr;
-
-        ConstrainedSystem(const void *ptr): ptr(const_cast<void *>(ptr))
-        {
-        }
-
-    public:
-        inline int specify_variable(string var, double guess, double min, double max)
-        {
-            return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
-        }
-
-        inline const char *solve_system(double margin, unsigned limit)
-        {
-            return _ngffi_::solve_system(ptr, margin, limit);
-        }
-    }; // class ConstrainedSystem
 } // namespace ngineer
 #endif // __cplusplus
 #endif // _GEQSLIB_H_
\ No newline at end of file
-- 
2.43.0


From d37b0e7c79abde699370499ab8d9b28ecdf86f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 73/81] fix: geqslib.h knows that a system may be
 over-constrained

---
 geqslib/geqslib.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 2b283a6..8a2f1bf 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -23,13 +23,14 @@ namespace _ngffi_
         /// has yet to be fully constrained, or is over/improperly constrained.
         enum SystemBuilderConstraintStatus
         {
-            /// @brief The system is either over-constrained or otherwise 
-            /// experienced an error during the constraint-checking process
+            /// @brief an error occurred during the constraint-checking process
             ConstraintError = -1,
             /// @brief the system is under-constrained
             NotConstrained  =  0,
             /// @brief the system is properly constrained
             Constrained     =  1,
+            /// @brief the system would be over-constrained
+            OverConstrained =  2,
         };
 
         /// @brief
-- 
2.43.0


From 04863e12236e994b644cce2bfde03d24be2c33e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 74/81] fix: C++ contexts and builders are not freed twice

---
 geqslib/geqslib.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 8a2f1bf..54e4b0c 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -154,6 +154,15 @@ namespace ngineer
             ptr = _ngffi_::new_default_context_hash_map();
         }
 
+        // A context is owned by exactly one object
+        ContextHashMap(const ContextHashMap &) = delete;
+        ContextHashMap &operator=(const ContextHashMap &) = delete;
+
+        ContextHashMap(ContextHashMap &&other) noexcept: ptr(other.ptr)
+        {
+            other.ptr = nullptr;
+        }
+
         inline static ContextHashMap newEmpty() noexcept
         {
             return ContextHashMap { _ngffi_::new_context_hash_map() };
@@ -166,7 +175,10 @@ namespace ngineer
 
         ~ContextHashMap()
         {
-            _ngffi_::free_context_hash_map(ptr);
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_context_hash_map(ptr);
+            }
         }
     }; // class ContextHashMap
 
@@ -200,13 +212,17 @@ namespace ngineer
         void *ptr;
 
     public:
-        SystemBuilder(string equation, ContextHashMap context)
+        SystemBuilder(string equation, const ContextHashMap &context)
         {
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
                     equation.c_str(), context.ptr));
         }
 
+        // A builder is owned by exactly one object
+        SystemBuilder(const SystemBuilder &) = delete;
+        SystemBuilder &operator=(const SystemBuilder &) = delete;
+
         inline SystemBuilderConstraintStatus try_constrain_with(string equation)
         {
             SystemBuilderConstraintStatus result;
-- 
2.43.0


From 40f71f42e55b38ca091fb86c58614b31bd9a2e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 75/81] fix: C++ builders report equations and systems that
 cannot be used

---
 geqslib/geqslib.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 54e4b0c..339e499 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -217,6 +217,10 @@ namespace ngineer
             ptr = const_cast<void *>(
                 _ngffi_::new_system_builder(
                     equation.c_str(), context.ptr));
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to start a system with equation: " + equation + "\n" };
+            }
         }
 
         // A builder is owned by exactly one object
@@ -248,7 +252,7 @@ namespace ngineer
             const void *result = _ngffi_::build_system(ptr);
             if (result == nullptr)
             {
-                // TODO: throw exception
+                throw runtime_error { "failed to build system because it is not fully constrained.\n" };
             }
             return ConstrainedSystem { result };
         }
-- 
2.43.0


From 5dbccdc217a60d4a1cc12466c6606d27666b8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 76/81] fix: C++ systems are used up once, and their memory is
 given back

---
 geqslib/geqslib.h | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/geqslib/geqslib.h b/geqslib/geqslib.h
index 339e499..871f5b5 100644
--- a/geqslib/geqslib.h
+++ b/geqslib/geqslib.h
@@ -197,12 +197,48 @@ namespace ngineer
     public:
         inline int specify_variable(string var, double guess, double min, double max)
         {
+            if (ptr == nullptr)
+            {
+                return -1;
+            }
             return _ngffi_::specify_variable(ptr, var.c_str(), guess, min, max);
         }
 
-        inline const char *solve_system(double margin, unsigned limit)
+        /// @brief solves the system. This can be done only once, as it uses up the system.
+        inline string solve_system(double margin, unsigned limit)
+        {
+            if (ptr == nullptr)
+            {
+                throw runtime_error { "failed to solve system because it was used up already.\n" };
+            }
+
+            const char *result = _ngffi_::solve_system(ptr, margin, limit);
+            ptr = nullptr;
+            if (result == nullptr)
+            {
+                throw runtime_error { "failed to solve system.\n" };
+            }
+
+            string solution { result };
+            _ngffi_::free_solution_string(const_cast<char *>(result));
+            return solution;
+        }
+
+        // A system is owned by exactly one object
+        ConstrainedSystem(const ConstrainedSystem &) = delete;
+        ConstrainedSystem &operator=(const ConstrainedSystem &) = delete;
+
+        ConstrainedSystem(ConstrainedSystem &&other) noexcept: ptr(other.ptr)
         {
-            return _ngffi_::solve_system(ptr, margin, limit);
+            other.ptr = nullptr;
+        }
+
+        ~ConstrainedSystem()
+        {
+            if (ptr != nullptr)
+            {
+                _ngffi_::free_system(ptr);
+            }
         }
     }; // class ConstrainedSystem
 
-- 
2.43.0


From 151558c22c33db9c772efe25545b106351078630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:27 +0000
Subject: [PATCH 77/81] fix: equations that bring several unknowns each are
 solved together

---
 geqslib/src/system.rs | 44 +++++++++++++++++++++++++++++++++++++++++++
 nexsys/src/lib.rs     | 16 +++++++++++++---
 2 files changed, 57 insertions(+), 3 deletions(-)

diff --git a/geqslib/src/system.rs b/geqslib/src/system.rs
index 29629ba..4a68a18 100644
--- a/geqslib/src/system.rs
+++ b/geqslib/src/system.rs
@@ -151,6 +151,50 @@ impl SystemBuilder
         Ok(ConstrainResult::WillConstrain)
     }
 
+    /// Adds an equation to a system that is not fully constrained if they have unknowns in 
+    /// common, no matter how many new unknowns this brings to the system. Unlike `try_constrain_with`, 
+    /// this finds systems in which every equation brings several unknowns.
+    /// 
+    /// # Example
+    /// ```
+    /// use geqslib::system::{ConstrainResult, SystemBuilder};
+    /// use geqslib::shunting::new_context;
+    /// 
+    /// let mut my_sys = SystemBuilder::new("x + y = 9", new_context())
+    ///     .expect("failed to build system!");
+    /// 
+    /// // Nothing to do with the system
+    /// let res = my_sys.connect_with("i - j = 4").unwrap();
+    /// assert_eq!(res, ConstrainResult::WillNotConstrain);
+    /// 
+    /// // Adds 2 unknowns and 1 equation
+    /// let res = my_sys.connect_with("x - i = j").unwrap();
+    /// assert_eq!(res, ConstrainResult::WillConstrain);
+    /// ```
+    pub fn connect_with(&mut self, equation: &str) -> anyhow::Result<ConstrainResult> 
+    {
+        if self.is_fully_constrained() 
+        {
+            return Ok(ConstrainResult::WillOverConstrain);
+        }
+
+        if !get_legal_variables_iter(equation).any(|x| self.system_vars.iter().any(|v| v == x))
+        {
+            return Ok(ConstrainResult::WillNotConstrain);
+        }
+
+        let unknowns: Vec<String> = get_equation_unknowns(equation, &self.context)
+            .map(|x| x.to_owned())
+            .collect();
+
+        self.system_equations.push(
+            Box::new(compile_equation_to_fn_of_hashmap(equation, &mut self.context)?) 
+        );
+        self.system_vars.extend(unknowns);
+
+        Ok(ConstrainResult::WillConstrain)
+    }
+
     /// Returns a boolean value indicating whether a system is 
     /// fully constrained. I.e. the number of equations is equal to
     /// the number of degrees of freedom.
diff --git a/nexsys/src/lib.rs b/nexsys/src/lib.rs
index df7eaaa..1b2daa3 100644
--- a/nexsys/src/lib.rs
+++ b/nexsys/src/lib.rs
@@ -49,7 +49,9 @@ fn try_solve_single_unknown_eqn(eqn_pool: &mut Vec<String>, ctx: &mut ContextHas
     Ok(false)
 }
 
-fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize) -> anyhow::Result<bool>
+/// Solves a subsystem of the equations. These are found by adding one unknown at a time, or else (`connected`) by 
+/// taking every equation that is connected with another one.
+fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut ContextHashMap, declared: &mut HashMap<String, [f64; 3]>, log_step: &mut String, margin: f64, limit: usize, connected: bool) -> anyhow::Result<bool>
 {
     for (i, equation) in eqn_pool.iter().enumerate()
     {
@@ -72,7 +74,8 @@ fn try_solve_subsystem_of_equations(eqn_pool: &mut Vec<String>, ctx: &mut Contex
 
                 // println!("Constraint status: {}", builder.is_fully_constrained());
 
-                match builder.try_constrain_with(equation)?
+                let result = if connected { builder.connect_with(equation)? } else { builder.try_constrain_with(equation)? };
+                match result
                 {
                     ConstrainResult::WillConstrain => {
                         eqn_strings.push(equation.to_owned());
@@ -143,7 +146,14 @@ pub fn basic_solve(system: &str, ctx: &mut ContextHashMap, declared: &mut HashMa
         }
 
         // Dig in and solve a more expensive subsystem:
-        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit)?
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit, false)?
+        {
+            log.push(log_step);
+            continue;
+        }
+
+        // Equations that bring several unknowns each can only be solved together:
+        if try_solve_subsystem_of_equations(&mut eqn_pool, ctx, declared, &mut log_step, margin, limit, true)?
         {
             log.push(log_step);
             continue;
-- 
2.43.0


From aef5fe9e90dc77ee2977bf629c4be46f54d4d617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:10 +0000
Subject: [PATCH 78/81] fix: read names such as inf and nan as names where the
 context defines them

---
 geqslib/src/shunting.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/geqslib/src/shunting.rs b/geqslib/src/shunting.rs
index e99706e..432f60e 100644
--- a/geqslib/src/shunting.rs
+++ b/geqslib/src/shunting.rs
@@ -261,8 +261,10 @@ fn rpnify(expr: &str, context: &ContextHashMap) -> anyhow::Result<Vec<Token>>
             },
 
             other => {
+                // Names that read like numbers (e.g. inf, nan) are names if the context says so
+                let is_name = other.starts_with(char::is_alphabetic) && context.contains_key(other);
 
-                if let Ok(num) = other.parse::<f64>() 
+                if let (false, Ok(num)) = (is_name, other.parse::<f64>())
                 {
                     queue.push(Token::Num(num));
                     unary_minus = false;
-- 
2.43.0


From a7b796c431dfaa80b0f169b9395461c10de0546a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:02 +0000
Subject: [PATCH 79/81] fix: blanks at the end of a conditional's lines do not
 hide the conditional

---
 nexsys/src/parsing/conditionals.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 456910f..28c999b 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -67,9 +67,9 @@ pub (in crate) fn format_conditional(cndl: &str) -> anyhow::Result<String> {
 pub fn conditionals(text: &str) -> anyhow::Result<String> {
     lazy_static!{
         static ref RE: Regex = nexsys_regex(            
-r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:$
+r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t]*$
 ^.*$
-^[ \t]*else:$
+^[ \t]*else:[ \t]*$
 ^.*$
 ^[ \t]*end\b"#
         );
-- 
2.43.0


From f94a65a44e48242af651fdf60c2df3c369baaf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:47 +0000
Subject: [PATCH 80/81] fix: printing a matrix without values does not panic

---
 gmatlib/src/trait_impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gmatlib/src/trait_impls.rs b/gmatlib/src/trait_impls.rs
index 9f11a11..9c5adc1 100644
--- a/gmatlib/src/trait_impls.rs
+++ b/gmatlib/src/trait_impls.rs
@@ -8,6 +8,11 @@ where T: Element<T>
 {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         
+        if self.rows == 0 || self.cols == 0
+        {
+            return write!(f, "[]");
+        }
+
         let mut output = "[".to_string();
         let r = self.rows - 1;
         let c = self.cols - 1;
-- 
2.43.0


From fd79194c618c90122879c2661f8514f789d532fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:52 +0000
Subject: [PATCH 81/81] fix: branches of conditionals that are no equations are
 refused

---
 nexsys/src/parsing/conditionals.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nexsys/src/parsing/conditionals.rs b/nexsys/src/parsing/conditionals.rs
index 28c999b..9a6fc04 100644
--- a/nexsys/src/parsing/conditionals.rs
+++ b/nexsys/src/parsing/conditionals.rs
@@ -94,6 +94,9 @@ r#"(?m)^[ \t]*if [^<>=]+[<>=]{1,2}[^<>=]+:[ \t]*$
             for r in [1,3] {
                 if rows[r].contains('=') {
                     let terms = rows[r].split('=').collect::<Vec<&str>>();
+                    if terms.len() != 2 || terms.iter().any(|t| t.trim().is_empty()) {
+                        return Err(ConditionFormatError::ConditionalSyntax.into()) // not an equation
+                    }
                     if terms[1].replace(' ',"") == 0.to_string() {
                         rows[r] = terms[0].to_string();
                     } else {
-- 
2.43.0

