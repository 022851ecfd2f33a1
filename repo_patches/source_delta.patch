From ff304310f897539f87b6b72931abd8ce33b1dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 01/51] fix: lazy invariants leak stack slots and return a
 reference to the argument

---
 src/runtime/mod.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a79786c..a03cbfe 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1395,6 +1395,7 @@ impl Runtime {
         lazy_inv: crate::LazyInvariant,
         info: &ast::CallInfo,
     ) -> FlowResult {
+        let st = self.stack.len();
         for (i, arg) in args.iter().enumerate() {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => {
@@ -1405,22 +1406,32 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Do not return a reference, because the variable
+                                        // might not outlive the result of the call.
+                                        let x = self.get(&x).clone();
+                                        self.stack.truncate(st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
@@ -1474,6 +1485,7 @@ impl Runtime {
         // Copy the module to avoid problems with borrow checker.
         let mod_copy = self.module.clone();
         let f = &mod_copy.functions[new_index];
+        let prev_st = self.stack.len();
         // Arguments must be computed.
         if f.returns() {
             // Add return value before arguments on the stack.
@@ -1494,22 +1506,32 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Do not return a reference, because the variable
+                                        // might not outlive the result of the call.
+                                        let x = self.get(&x).clone();
+                                        self.stack.truncate(prev_st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
-- 
2.43.0


From a355b5cc258273057f66438722d8a45b15f21157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:12 +0000
Subject: [PATCH 02/51] fix: reading a property with ? overwrites it with the
 unwrapped value

---
 src/runtime/mod.rs | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a03cbfe..bd8d271 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2557,6 +2557,8 @@ impl Runtime {
 
         let v = {
             let item_len = item.ids.len();
+            // Stores value unwrapped by `?` when reading.
+            let mut unwrapped: Variable;
             // Get the first variable (a.x).y
             let mut var: *mut Variable = item_lookup(
                 &self.module,
@@ -2573,7 +2575,10 @@ impl Runtime {
             if !item.try_ids.is_empty() && item.try_ids[try_id_ind] == 0 {
                 // Check for error on `?` for first id.
                 let v = unsafe {
-                    match Runtime::try_msg(&*var) {
+                    match Runtime::try_msg(match *var {
+                        Variable::Ref(ind) => &stack[ind],
+                        _ => &*var,
+                    }) {
                         Some(v) => v,
                         None => {
                             return Err(self.module.error_fnindex(
@@ -2588,8 +2593,14 @@ impl Runtime {
                     }
                 };
                 match v {
-                    Ok(ref ok) => unsafe {
-                        *var = (**ok).clone();
+                    Ok(ok) => unsafe {
+                        if let Side::Right = side {
+                            // Do not change the object when reading from it.
+                            unwrapped = *ok;
+                            var = &mut unwrapped;
+                        } else {
+                            *var = *ok;
+                        }
                         try_id_ind += 1;
                     },
                     Err(ref err) => {
@@ -2649,7 +2660,10 @@ impl Runtime {
                 if item.try_ids.len() > try_id_ind && item.try_ids[try_id_ind] == i + 1 {
                     // Check for error on `?` for rest of ids.
                     let v = unsafe {
-                        match Runtime::try_msg(&*var) {
+                        match Runtime::try_msg(match *var {
+                            Variable::Ref(ind) => &stack[ind],
+                            _ => &*var,
+                        }) {
                             Some(v) => v,
                             None => {
                                 return Err(self.module.error_fnindex(
@@ -2664,8 +2678,14 @@ impl Runtime {
                         }
                     };
                     match v {
-                        Ok(ref ok) => unsafe {
-                            *var = (**ok).clone();
+                        Ok(ok) => unsafe {
+                            if let Side::Right = side {
+                                // Do not change the object when reading from it.
+                                unwrapped = *ok;
+                                var = &mut unwrapped;
+                            } else {
+                                *var = *ok;
+                            }
                             try_id_ind += 1;
                         },
                         Err(ref err) => {
-- 
2.43.0


From aff5f000e76b0dc217c51ee88897e9682fa50d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 03/51] fix: look up by array of indices panics or reads the
 wrong index expression

---
 src/runtime/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index bd8d271..966e691 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -223,8 +223,7 @@ fn item_lookup(
                     } else {
                         id
                     };
-                    let (prev_stack, stack) = stack.split_at_mut(id);
-                    match stack[0] {
+                    match stack[id] {
                         F64(id, _) => {
                             *expr_j += 1;
                             id
@@ -241,13 +240,15 @@ fn item_lookup(
                             // `[0, 1]` are indices to look up `b` in `[[a, b], [c, d]]`.
                             //   ^  ^---- to `b` in `[a, b]`.
                             //   \---- points to first array `[a, b]`.
+                            let indices = indices.clone();
+                            *expr_j += 1;
                             let mut arr: *mut Vec<Variable> = Arc::make_mut(arr);
                             let n = indices.len();
                             for (i, ind) in indices.iter().enumerate() {
                                 let id: f64 = match ind {
                                     F64(id, _) => *id,
                                     Ref(x) => {
-                                        if let F64(id, _) = prev_stack[*x] {
+                                        if let F64(id, _) = stack[*x] {
                                             id
                                         } else {
                                             break;
@@ -279,7 +280,7 @@ fn item_lookup(
                                         if last {
                                             Ok(v)
                                         } else {
-                                            Ok(&mut prev_stack[id])
+                                            Ok(&mut stack[id])
                                         }
                                     } else {
                                         Ok(v)
@@ -290,7 +291,7 @@ fn item_lookup(
                                         arr = Arc::make_mut(new_arr);
                                     }
                                     Ref(x) => {
-                                        if let Array(ref mut new_arr) = prev_stack[x]
+                                        if let Array(ref mut new_arr) = stack[x]
                                         {
                                             arr = Arc::make_mut(new_arr);
                                         } else {
-- 
2.43.0


From d09fd8495c44f017afd83536e7c2da15f86009db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 04/51] fix: `try` of a variable stores a reference which can
 dangle in the result

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 966e691..4fba4b0 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -714,6 +714,8 @@ impl Runtime {
         let cu = self.current_stack.len();
         match self.expression(&try_expr.expr, Side::Right) {
             Ok((Some(x), Flow::Continue)) => {
+                // Use deep clone, because results do not contain references.
+                let x = x.deep_clone(&self.stack);
                 Ok((Some(Variable::Result(Ok(Box::new(x)))), Flow::Continue))
             }
             Ok((None, Flow::Continue)) => self.err(try_expr.source_range, "Expected something"),
-- 
2.43.0


From b76bbfafe7074dcbad323fb382138720ea3f857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 05/51] fix: `for` condition does not accept a variable

---
 src/runtime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 4fba4b0..e015b33 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2820,7 +2820,7 @@ impl Runtime {
                     )
                 }
             };
-            let val = match val {
+            let val = match *self.get(&val) {
                 Variable::Bool(val, _) => val,
                 _ => return self.err(for_expr.cond.source_range(), "Expected bool"),
             };
-- 
2.43.0


From 274568e8cbc94fd07c4f6a775542d172ec445d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 06/51] fix: `swap` panics when an index is out of bounds

---
 src/dyon_std/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 6b78d42..e61bc6c 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -898,6 +898,13 @@ pub(crate) fn swap(rt: &mut Runtime) -> Result<(), String> {
     let v = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = v {
         let ok = if let Variable::Array(ref mut arr) = rt.stack[ind] {
+            let n = arr.len();
+            for (arg, ind) in [(1, i), (2, j)] {
+                if ind as usize >= n {
+                    rt.arg_err_index.set(Some(arg));
+                    return Err(format!("Out of bounds `{}`", ind));
+                }
+            }
             Arc::make_mut(arr).swap(i as usize, j as usize);
             true
         } else {
-- 
2.43.0


From 122a01d7fb36e02fb1537debacaa5c00b4f3f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 07/51] fix: `cv` returns the whole matrix instead of the
 column

---
 src/dyon_std/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index e61bc6c..e9762ce 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -426,7 +426,7 @@ pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
         return Err(format!("Index out of bounds `{}`", ind));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
-    Ok(Variable::Mat4(Box::new(m)))
+    Ok(Variable::Vec4(m[ind]))
 }
 
 pub(crate) fn clone(rt: &mut Runtime) -> Result<Variable, String> {
-- 
2.43.0


From 9129fabcb8bb9c04558eef237a727295ada4cb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 08/51] fix: alias of external function with mutable arguments
 is not found

---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index c8438d5..0e0e402 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -160,7 +160,7 @@ impl UseLookup {
                         // A function with mutable information.
                         let mut name: Arc<String> = use_fn.1.as_ref().unwrap_or(&use_fn.0).clone();
                         Arc::make_mut(&mut name).push_str(&f.name.as_str()[use_fn.0.len()..]);
-                        fns.insert(f.name.clone(), FnAlias::External(i));
+                        fns.insert(name, FnAlias::External(i));
                     }
                 }
             }
-- 
2.43.0


From 007b3b9dcafd3f81e97412c8479458ddc7a9e213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:38 +0000
Subject: [PATCH 09/51] fix: `>` and `>=` are true when an operand is NaN

---
 src/dyon_std/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index e9762ce..2bac265 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -57,22 +57,22 @@ pub(crate) fn less_or_equal(a: &Variable, b: &Variable) -> Result<Variable, Stri
 }
 
 pub(crate) fn greater(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less_or_equal(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a > b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a > b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
 pub(crate) fn greater_or_equal(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a >= b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a >= b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
-- 
2.43.0


From c2a4315d79086fa7f6b504b24b0f525cc472dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 10/51] fix: unsupported assignment operators panic instead of
 reporting an error

---
 src/runtime/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e015b33..ca9b8f3 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2126,7 +2126,12 @@ impl Runtime {
                         Variable::Bool(ref mut n, ref mut n_sec) => {
                             match op {
                                 Set => *n = b,
-                                _ => unimplemented!(),
+                                _ => {
+                                    return self.err(
+                                        left.source_range(),
+                                        "Can not use this assignment operator with `bool`",
+                                    )
+                                }
                             };
                             *n_sec = sec.clone();
                         }
@@ -2156,7 +2161,12 @@ impl Runtime {
                         Variable::Str(ref mut n) => match op {
                             Set => *n = b.clone(),
                             Add => Arc::make_mut(n).push_str(b),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `str`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2185,7 +2195,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Object(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2204,7 +2217,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Array(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `array`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2223,7 +2239,12 @@ impl Runtime {
                             Set => *n = b.clone(),
                             Add => **n = n.add(b),
                             Sub => **n = b.add(n),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `link`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2241,7 +2262,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Option(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `option`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2260,7 +2284,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Result(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `result`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2279,7 +2306,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::RustObject(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `rust_object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2301,7 +2331,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Closure(b.clone(), env.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `closure`",
+                                );
                             }
                         }
                         Variable::Return => {
-- 
2.43.0


From d857db3cbd3473adbc6d24fca4c32b4db276508a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 11/51] fix: `==` on arrays and objects does not follow
 references to elements

---
 src/runtime/mod.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index ca9b8f3..d92659c 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1331,8 +1331,23 @@ impl Runtime {
                 )
             }
         };
-        let left = self.get(&left);
-        let right = self.get(&right);
+        // Binary operators do not have access to the stack,
+        // so references inside arrays and objects must be resolved here.
+        let (deep_left, deep_right);
+        let left = match self.get(&left) {
+            x @ Variable::Array(_) | x @ Variable::Object(_) => {
+                deep_left = x.deep_clone(&self.stack);
+                &deep_left
+            }
+            x => x,
+        };
+        let right = match self.get(&right) {
+            x @ Variable::Array(_) | x @ Variable::Object(_) => {
+                deep_right = x.deep_clone(&self.stack);
+                &deep_right
+            }
+            x => x,
+        };
         Ok((
             Some((fun.0)(left, right).map_err(|err| {
                 let range = if let Some(ind) = self.arg_err_index.get() {
-- 
2.43.0


From 07870d64c8595d5fcdc7d372782ddff5e5f5aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:05 +0000
Subject: [PATCH 12/51] fix: in-loops over an empty receiver do not return a
 value

---
 src/runtime/for_in.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/runtime/for_in.rs b/src/runtime/for_in.rs
index 10e389e..7f2a5ff 100644
--- a/src/runtime/for_in.rs
+++ b/src/runtime/for_in.rs
@@ -18,11 +18,11 @@ macro_rules! iter(
 );
 
 macro_rules! iter_val(
-    ($iter:ident, $rt:ident, $for_in_expr:ident) => {
+    ($iter:ident, $rt:ident, $for_in_expr:ident, $empty:expr) => {
         match $iter.lock() {
             Ok(x) => match x.try_recv() {
                 Ok(x) => x,
-                Err(_) => return Ok((None, Flow::Continue)),
+                Err(_) => return Ok(($empty, Flow::Continue)),
             },
             Err(err) => {
                 return Err($rt.module.error($for_in_expr.source_range,
@@ -86,7 +86,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, None);
 
         // Initialize counter.
         self.local_stack
@@ -123,7 +123,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(0.0)));
 
         let mut sum = 0.0;
 
@@ -174,7 +174,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(1.0)));
 
         let mut prod = 1.0;
 
@@ -225,7 +225,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut min = ::std::f64::NAN;
         let mut sec = None;
@@ -293,7 +293,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut max = ::std::f64::NAN;
         let mut sec = None;
@@ -361,7 +361,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(false)));
 
         let mut any = false;
         let mut sec = None;
@@ -431,7 +431,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(true)));
 
         let mut all = true;
         let mut sec = None;
@@ -508,7 +508,7 @@ impl Runtime {
             let prev_lc = rt.local_stack.len();
 
             let iter = iter!(rt, for_in_expr);
-            let iter_val = iter_val!(iter, rt, for_in_expr);
+            let iter_val = iter_val!(iter, rt, for_in_expr, None);
 
             // Initialize counter.
             rt.local_stack
@@ -636,7 +636,7 @@ impl Runtime {
         let mut res: Vec<Variable> = vec![];
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::Array(Arc::new(res))));
 
         // Initialize counter.
         self.local_stack
-- 
2.43.0


From a696e3a8eef25f93cdb7505e856856415a13aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:17 +0000
Subject: [PATCH 13/51] fix: default value of `unwrap_or` can contain dangling
 references

---
 src/dyon_std/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 2bac265..2652cca 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1710,7 +1710,9 @@ pub(crate) fn unwrap_or(rt: &mut Runtime) -> Result<Variable, String> {
     Ok(match rt.get(&v) {
         &Variable::Option(Some(ref v)) => (**v).clone(),
         &Variable::Result(Ok(ref ok)) => (**ok).clone(),
-        &Variable::Option(None) | &Variable::Result(Err(_)) => rt.get(&def).clone(),
+        &Variable::Option(None) | &Variable::Result(Err(_)) => {
+            rt.get(&def).deep_clone(&rt.stack)
+        }
         x => return Err(rt.expected_arg(0, x, "some(_) or ok(_)")),
     })
 }
-- 
2.43.0


From fc6101e6b4a931880d96d32f3e4dcfcade21bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:53 +0000
Subject: [PATCH 14/51] fix: `join` replaces a variable that is not a thread

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5d84a00..0bfe396 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -131,12 +131,10 @@ impl Thread {
             Variable::Ref(ind) => {
                 use std::mem::replace;
 
-                match replace(
-                    &mut rt.stack[ind],
-                    Variable::Thread(Thread { handle: None }),
-                ) {
-                    Variable::Thread(th) => th,
-                    x => return Err(rt.expected(&x, "Thread")),
+                match &mut rt.stack[ind] {
+                    Variable::Thread(th) => replace(th, Thread { handle: None }),
+                    // Do not change the variable when it is not a thread.
+                    _ => return Err(rt.expected(&rt.stack[ind], "Thread")),
                 }
             }
             Variable::Thread(thread) => thread,
-- 
2.43.0


From 2a56a6dca9aabc4f463fffdbc653a599aba86584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:33 +0000
Subject: [PATCH 15/51] fix: variable of an in-loop is checked as if it had the
 type of the loop

---
 src/lifetime/typecheck.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 25ccec8..2cb8076 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -384,6 +384,10 @@ pub(crate) fn run(
                                 // All indices are numbers.
                                 this_ty = Some(Type::F64);
                             }
+                            kind if kind.is_in_loop() => {
+                                // The type of the loop is not the type of the message.
+                                this_ty = Some(Type::Any);
+                            }
                             Kind::Arg => {
                                 this_ty = Some(
                                     nodes[i]
-- 
2.43.0


From f0b9fe158ad21bb3a0a919488a87b423a804ef47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:44 +0000
Subject: [PATCH 16/51] fix: lifetime of an expression is the longest instead
 of the shortest of its parts

---
 src/lifetime/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 191095b..f6eed0f 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -380,7 +380,7 @@ impl Node {
             };
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Less)) => Some(lifetime),
+                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
                 Some(None) => return Err(LifetimeError::FailedToUnify),
                 _ => min,
             };
-- 
2.43.0


From 8860a8a2f2a59edf1d0dcbf17e55f48842e1cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 17/51] fix: inserting into an argument does not check the
 lifetime of the value

---
 src/lifetime/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 34bb68f..66a2edb 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -840,9 +840,9 @@ pub(crate) fn check_core(
 
     // Check the lifetime of assigned locals.
     for &(a, i) in &assigned_locals {
-        if let Some(j) = nodes[i].declaration {
+        if nodes[i].declaration.is_some() {
             let right = nodes[a].children[1];
-            let lifetime_left = &Ok(Lifetime::Local(j));
+            let lifetime_left = &nodes[i].lifetime(nodes, &arg_names);
             let lifetime_right = &nodes[right].lifetime(nodes, &arg_names);
             compare_lifetimes(lifetime_left, lifetime_right, nodes)
                 .map_err(|err| nodes[right].source.wrap(err))?;
-- 
2.43.0


From 674161e9fc4570509984a33ebb33f47b5ddac9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 18/51] fix: inserting into an argument does not require it to
 be mutable

---
 src/lifetime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 66a2edb..42ceca7 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1091,7 +1091,7 @@ pub(crate) fn check_core(
     }
 
     // Check that mutable locals are not immutable arguments.
-    for &(_, i) in &mutated_locals {
+    for &(_, i) in mutated_locals.iter().chain(assigned_locals.iter()) {
         if let Some(decl) = nodes[i].declaration {
             if (nodes[decl].kind == Kind::Arg || nodes[decl].kind == Kind::Current)
                 && !nodes[decl].mutable
-- 
2.43.0


From 571ba3b64dc072c435b1a20bc8e02716792164d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:16 +0000
Subject: [PATCH 19/51] fix: cyclic lifetimes after an argument with `'return`
 hang the lifetime checker

---
 src/lifetime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 42ceca7..7c4d540 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -782,7 +782,7 @@ pub(crate) fn check_core(
         {
             if let Some(ref lt) = nodes[c].lifetime {
                 if &**lt == "return" {
-                    break;
+                    continue;
                 }
                 // Reset visit flags.
                 for it in &mut visited {
-- 
2.43.0


From 48d5a469b0c4b40308f6d520ae4ad669a184c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:11 +0000
Subject: [PATCH 20/51] fix: an argument is taken to outlive another one when
 it merely has the longer list of lifetimes

---
 src/lifetime/lt.rs   | 40 ++++++++++++++++++++++++++++++----------
 src/lifetime/node.rs |  5 ++++-
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/lifetime/lt.rs b/src/lifetime/lt.rs
index ac80852..80d976e 100644
--- a/src/lifetime/lt.rs
+++ b/src/lifetime/lt.rs
@@ -54,19 +54,39 @@ impl PartialOrd for Lifetime {
     }
 }
 
-/// Takes two lists of arguments.
-/// If they have any argument in common, the longer list outlives the shorter.
-/// If they have no argument in common, it is not known whether one outlives
-/// the other.
+/// Takes two lists of arguments, where each argument outlives those after it.
+/// An argument outlives another if it has the other in its list.
+/// Otherwise, it is not known whether one outlives the other.
 fn compare_argument_outlives(a: &[usize], b: &[usize]) -> Option<Ordering> {
-    for &i in a {
-        for &j in b {
-            if i == j {
-                return Some(a.len().cmp(&b.len()));
-            }
+    if a[0] == b[0] {
+        Some(Ordering::Equal)
+    } else if a.contains(&b[0]) {
+        Some(Ordering::Greater)
+    } else if b.contains(&a[0]) {
+        Some(Ordering::Less)
+    } else {
+        None
+    }
+}
+
+impl Lifetime {
+    /// Gets a lifetime that outlives the arguments that both lifetimes outlive.
+    /// Returns `None` if there is no such argument.
+    pub fn unify(&self, other: &Lifetime) -> Option<Lifetime> {
+        use self::Lifetime::*;
+
+        let common = |a: &[usize], b: &[usize]| {
+            let i = a.iter().position(|arg| b.contains(arg))?;
+            let mut args = vec![a[0]];
+            args.extend_from_slice(&a[i..]);
+            Some(args)
+        };
+        match (self, other) {
+            (Return(a), Return(b)) => common(a, b).map(Return),
+            (Argument(a), Argument(b)) => common(a, b).map(Argument),
+            _ => None,
         }
     }
-    None
 }
 
 /// Gets the lifetime of a function argument.
diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index f6eed0f..cd51dfc 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -381,7 +381,10 @@ impl Node {
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
                 Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
-                Some(None) => return Err(LifetimeError::FailedToUnify),
+                Some(None) => match min.and_then(|l| l.unify(&lifetime)) {
+                    None => return Err(LifetimeError::FailedToUnify),
+                    lifetime => lifetime,
+                },
                 _ => min,
             };
         }
-- 
2.43.0


From 2147b20935e0f2ee7c4fb2f26ed13798d46a7ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 21/51] fix: arguments with lifetimes accept values that
 contain a variable

---
 src/lifetime/mod.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 7c4d540..7c1baa8 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -990,28 +990,19 @@ pub(crate) fn check_core(
         };
         let is_reference = |i: usize| {
             let mut n: usize = call.children[i];
-            let mut can_be_item = true;
             // Item is some levels down inside arg/add/expr/mul/val
             loop {
                 let node: &Node = &nodes[n];
                 match node.kind {
-                    Kind::Item => break,
-                    Kind::Call => {
-                        can_be_item = false;
-                        break;
-                    }
-                    _ => {}
+                    Kind::Item => return true,
+                    Kind::CallArg | Kind::Add | Kind::Expr | Kind::Mul | Kind::Val => {}
+                    _ => return false,
                 }
                 if node.children.is_empty() {
-                    can_be_item = false;
-                    break;
+                    return false;
                 }
                 n = node.children[0];
             }
-            if can_be_item && nodes[n].kind != Kind::Item {
-                can_be_item = false;
-            }
-            can_be_item
         };
 
         if let Some(declaration) = call.declaration {
-- 
2.43.0


From c1109de76294ffb6b8de715ad93b7f9c83b74317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:45 +0000
Subject: [PATCH 22/51] fix: an element passed to an argument with lifetime
 leaves a reference to the argument

---
 src/lifetime/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 7c1baa8..82900e0 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -994,7 +994,11 @@ pub(crate) fn check_core(
             loop {
                 let node: &Node = &nodes[n];
                 match node.kind {
-                    Kind::Item => return true,
+                    Kind::Item => {
+                        // A value inside the variable is copied to the argument.
+                        return call.declaration.is_none()
+                            || (!node.item_ids() && !node.try_flag);
+                    }
                     Kind::CallArg | Kind::Add | Kind::Expr | Kind::Mul | Kind::Val => {}
                     _ => return false,
                 }
-- 
2.43.0


From d57c7c3b5515eddb6ad1b7a58f74978c5ca65424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:30 +0000
Subject: [PATCH 23/51] fix: a loop range is inferred from a list or index that
 is declared inside the loop

---
 src/ast/infer_len.rs | 55 +++++++++++++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/ast/infer_len.rs b/src/ast/infer_len.rs
index 6c4ff41..9ae3ff0 100644
--- a/src/ast/infer_len.rs
+++ b/src/ast/infer_len.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use super::{AssignOp, Block, Call, CallClosure, CallInfo, Expression, ForN, Id, Item};
+use super::{AssignOp, Block, Call, CallClosure, CallInfo, Expression, For, ForN, Id, Item};
 use crate::FnIndex;
 
 pub fn infer(block: &Block, name: &str) -> Option<Expression> {
@@ -129,23 +129,10 @@ fn infer_expr(expr: &Expression, name: &str, decls: &mut Vec<Arc<String>>) -> Op
             }
         }
         For(ref for_expr) => {
-            // TODO: Declaring counter with same name probably leads to a bug.
-            let res = infer_expr(&for_expr.init, name, decls);
-            if res.is_some() {
-                return res;
-            }
-            let res = infer_expr(&for_expr.cond, name, decls);
-            if res.is_some() {
-                return res;
-            }
-            let res = infer_expr(&for_expr.step, name, decls);
-            if res.is_some() {
-                return res;
-            }
-            let res = infer_block(&for_expr.block, name, decls);
-            if res.is_some() {
-                return res;
-            }
+            let st = decls.len();
+            let res = infer_for(for_expr, name, decls);
+            decls.truncate(st);
+            return res;
         }
         ForN(ref for_n_expr) => return infer_for_n(for_n_expr, name, decls),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
@@ -301,6 +288,11 @@ fn infer_item(item: &Item, name: &str, decls: &mut Vec<Arc<String>>) -> Option<I
         if let Id::Expression(ref expr) = *id {
             if let Expression::Item(ref id) = *expr {
                 if &**id.name == name {
+                    if decls.iter().any(|decl| **decl == *item.name) {
+                        // The list is declared inside the loop,
+                        // so it does not exist when the loop starts.
+                        return None;
+                    }
                     return Some(item.trunc(i));
                 } else {
                     for decl in decls.iter().rev() {
@@ -356,6 +348,33 @@ fn infer_call_closure(
     None
 }
 
+fn infer_for(for_expr: &For, name: &str, decls: &mut Vec<Arc<String>>) -> Option<Item> {
+    let res = infer_expr(&for_expr.init, name, decls);
+    if res.is_some() {
+        return res;
+    }
+    // Check for declaration of same name.
+    if let Expression::Assign(ref assign_expr) = for_expr.init {
+        if let Expression::Item(ref item) = assign_expr.left {
+            if item.ids.is_empty() && assign_expr.op == AssignOp::Assign {
+                if &**item.name == name {
+                    return None;
+                }
+                decls.push(item.name.clone());
+            }
+        }
+    }
+    let res = infer_expr(&for_expr.cond, name, decls);
+    if res.is_some() {
+        return res;
+    }
+    let res = infer_expr(&for_expr.step, name, decls);
+    if res.is_some() {
+        return res;
+    }
+    infer_block(&for_expr.block, name, decls)
+}
+
 fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> Option<Item> {
     // Check for declaration of same name.
     if &**for_n_expr.name == name {
-- 
2.43.0


From 7de610eb2fafe7f77cd5dbda07dbff5609d731f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:44 +0000
Subject: [PATCH 24/51] fix: the counter of a nested loop hides an index of the
 same name after the loop when inferring a range

---
 src/ast/infer_len.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/infer_len.rs b/src/ast/infer_len.rs
index 9ae3ff0..2a1c412 100644
--- a/src/ast/infer_len.rs
+++ b/src/ast/infer_len.rs
@@ -376,6 +376,7 @@ fn infer_for(for_expr: &For, name: &str, decls: &mut Vec<Arc<String>>) -> Option
 }
 
 fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> Option<Item> {
+    let st = decls.len();
     // Check for declaration of same name.
     if &**for_n_expr.name == name {
         return None;
@@ -399,7 +400,6 @@ fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> O
         }
         None
     };
-    let st = decls.len();
     let res = { f(decls) };
     decls.truncate(st);
     res
-- 
2.43.0


From 0de28bf8629ea0ebcb23e5a9c87c16f8afd7f96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:04 +0000
Subject: [PATCH 25/51] fix: a call through a namespace alias with a wrong
 number of arguments panics in the type checker

---
 src/lifetime/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 82900e0..5305bca 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -666,6 +666,15 @@ pub(crate) fn check_core(
                 use_lookup.aliases.get(alias).and_then(|map| map.get(&name))
             {
                 node.lts = prelude.list[i].lts.clone();
+                if node.lts.len() != n {
+                    return Err(node.source.wrap(format!(
+                        "{}::{}: Expected {} arguments, found {}",
+                        alias,
+                        name,
+                        node.lts.len(),
+                        n
+                    )));
+                }
                 continue;
             } else {
                 return Err(node
-- 
2.43.0


From 1e73b1ae63d25db1cd9f33524d6d2045bfdbe841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:17 +0000
Subject: [PATCH 26/51] fix: an external function called through a namespace
 alias loses its lazy arguments

---
 src/ast/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 0e0e402..75815ae 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2844,6 +2844,7 @@ impl Call {
             FnReturnRef,
             FnUnOpRef,
             FnVoidRef,
+            LAZY_NO,
         };
 
         let st = stack.len();
@@ -2859,7 +2860,13 @@ impl Call {
                         let f = &module.ext_prelude[i];
                         match f.f {
                             FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
-                            FnExt::Return(ff) => FnIndex::Return(FnReturnRef(ff)),
+                            FnExt::Return(ff) => {
+                                if f.p.lazy == LAZY_NO {
+                                    FnIndex::Return(FnReturnRef(ff))
+                                } else {
+                                    FnIndex::Lazy(FnReturnRef(ff), f.p.lazy)
+                                }
+                            }
                             FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
                             FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
                         }
-- 
2.43.0


From 6adfd9983fb3347c58d7216d02ed9f018ce782bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:04:55 +0000
Subject: [PATCH 27/51] fix: go looks up its function by name when it runs, not
 where it was written

---
 src/ast/mod.rs     | 27 +++++++++++++++++++--------
 src/runtime/mod.rs |  3 +--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 75815ae..c676cb6 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2553,6 +2553,7 @@ impl Go {
         module: &Module,
         use_lookup: &UseLookup,
     ) {
+        self.call.f_index = self.call.find_function(relative, module, use_lookup);
         let st = stack.len();
         for arg in &mut self.call.args {
             let st = stack.len();
@@ -2830,14 +2831,13 @@ impl Call {
         ))
     }
 
-    fn get_locals(
-        &mut self,
+    /// Finds the function to call, relative to another function index.
+    fn find_function(
+        &self,
         relative: usize,
-        stack: &mut Vec<Option<Arc<String>>>,
-        closure_stack: &mut Vec<usize>,
         module: &Module,
         use_lookup: &UseLookup,
-    ) {
+    ) -> FnIndex {
         use crate::{
             FnBinOpRef,
             FnExt,
@@ -2847,8 +2847,7 @@ impl Call {
             LAZY_NO,
         };
 
-        let st = stack.len();
-        let f_index = if let Some(ref alias) = self.info.alias {
+        if let Some(ref alias) = self.info.alias {
             if let Some(&i) = use_lookup
                 .aliases
                 .get(alias)
@@ -2877,7 +2876,19 @@ impl Call {
             }
         } else {
             module.find_function(&self.info.name, relative)
-        };
+        }
+    }
+
+    fn get_locals(
+        &mut self,
+        relative: usize,
+        stack: &mut Vec<Option<Arc<String>>>,
+        closure_stack: &mut Vec<usize>,
+        module: &Module,
+        use_lookup: &UseLookup,
+    ) {
+        let st = stack.len();
+        let f_index = self.find_function(relative, module, use_lookup);
         self.f_index = f_index;
         match f_index {
             FnIndex::Loaded(f_index) => {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index d92659c..e825384 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -963,9 +963,8 @@ impl Runtime {
 
         let n = go.call.args.len();
         let mut stack = vec![];
-        let relative = self.call_stack.last().map(|c| c.index).expect(CSIE);
         let mut fake_call = ast::Call {
-            f_index: self.module.find_function(&go.call.info.name, relative),
+            f_index: go.call.f_index,
             args: Vec::with_capacity(n),
             custom_source: None,
             info: go.call.info.clone(),
-- 
2.43.0


From 9c90135447778454dabc95d215870ccec0a9b109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:14 +0000
Subject: [PATCH 28/51] fix: a run or call that fails leaves its variables,
 current objects and calls behind in the runtime

---
 src/runtime/mod.rs | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e825384..fb09642 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -883,9 +883,6 @@ impl Runtime {
 
     /// Run `main` function in a module.
     pub fn run(&mut self, module: &Arc<Module>) -> Result<(), String> {
-        use std::mem::replace;
-
-        let old_module = replace(&mut self.module, module.clone());
         let name: Arc<String> = MAIN.clone();
         let call = ast::Call {
             f_index: module.find_function(&name, 0),
@@ -901,33 +898,19 @@ impl Runtime {
             FnIndex::Loaded(f_index) => {
                 let f = &module.functions[f_index as usize];
                 if !f.args.is_empty() {
-                    self.module = old_module;
                     return Err(module.error(
                         f.args[0].source_range,
                         "`main` should not have arguments",
                         self,
                     ));
                 }
-                let loader = false;
-                match self.call_internal(&call, loader) {
-                    Ok(_) => {
-                        self.module = old_module;
-                        Ok(())
-                    }
-                    Err(x) => {
-                        self.module = old_module;
-                        Err(x)
-                    }
-                }
-            }
-            _ => {
-                self.module = old_module;
-                Err(module.error(
-                    call.info.source_range,
-                    "Could not find function `main`",
-                    self,
-                ))
+                self.call(&call, module).map(|_| ())
             }
+            _ => Err(module.error(
+                call.info.source_range,
+                "Could not find function `main`",
+                self,
+            )),
         }
     }
 
@@ -1222,10 +1205,19 @@ impl Runtime {
         // Keep track of the call state,
         // since `call` might be called from an external function.
         let call_stack_len = self.call_stack.len();
+        let st = self.stack.len();
+        let lc = self.local_stack.len();
+        let cu = self.current_stack.len();
         let res = self.call_internal(call, true);
         // Restore call state.
         self.call_stack.truncate(call_stack_len);
         self.module = old_module;
+        if res.is_err() {
+            // Remove what the failed call left behind.
+            self.stack.truncate(st);
+            self.local_stack.truncate(lc);
+            self.current_stack.truncate(cu);
+        }
         res
     }
 
-- 
2.43.0


From cb9389aad3d020661594bc6191c7a77ec26bc0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:16 +0000
Subject: [PATCH 29/51] fix: a source that is rejected leaves its functions in
 the module

---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0bfe396..74d1b12 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -660,6 +660,7 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
 
     // Convert to AST.
     let mut ignored = vec![];
+    let functions_len = module.functions.len();
     let conv_res = ast::convert(
         Arc::new(source.into()),
         d.clone(),
@@ -689,11 +690,16 @@ pub fn load_str(source: &str, d: Arc<String>, module: &mut Module) -> Result<(),
             ParseErrorHandler::new(&d)
                 .write_msg(&mut buf, range, &msg)
                 .unwrap();
+            // Do not keep functions that did not pass.
+            module.functions.truncate(functions_len);
             return Err(String::from_utf8(buf).unwrap());
         }
     }
 
-    check_ignored_meta_data(conv_res, source, &d, &data, &ignored)
+    check_ignored_meta_data(conv_res, source, &d, &data, &ignored).map_err(|err| {
+        module.functions.truncate(functions_len);
+        err
+    })
 }
 
 /// Loads a source from meta data.
-- 
2.43.0


From 92ce93abc97642abfbabcd98045a6930a629b751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:32 +0000
Subject: [PATCH 30/51] fix: a function called from the host with a wrong
 number of arguments runs with other variables in their place

---
 src/runtime/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index fb09642..d5aae2a 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1770,6 +1770,7 @@ impl Runtime {
         let name: Arc<String> = Arc::new(function.into());
         match module.find_function(&name, 0) {
             FnIndex::Loaded(f_index) => {
+                check_args_len(&module.functions[f_index as usize], args)?;
                 let call = ast::Call {
                     f_index: FnIndex::Loaded(f_index),
                     args: args
@@ -1804,6 +1805,9 @@ impl Runtime {
         if let FnIndex::None = fn_index {
             return Err(format!("Could not find function `{}`", function));
         }
+        if let FnIndex::Loaded(f_index) = fn_index {
+            check_args_len(&module.functions[f_index as usize], args)?;
+        }
 
         let call = ast::Call {
             f_index: fn_index,
@@ -3012,6 +3016,19 @@ impl Runtime {
     }
 }
 
+fn check_args_len(f: &ast::Function, args: &[Variable]) -> Result<(), String> {
+    if f.args.len() == args.len() {
+        Ok(())
+    } else {
+        Err(format!(
+            "{}: Expected {} arguments, found {}",
+            f.name,
+            f.args.len(),
+            args.len()
+        ))
+    }
+}
+
 fn stack_trace(call_stack: &[Call]) -> String {
     let mut s = String::new();
     for call in call_stack.iter() {
-- 
2.43.0


From 75ad1ee3616eb4d45ef4c23e9789f563db1c6770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:52 +0000
Subject: [PATCH 31/51] fix: the result of a function called from the host
 refers to arguments that are gone

---
 src/runtime/mod.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index d5aae2a..6607b3b 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1809,11 +1809,22 @@ impl Runtime {
             check_args_len(&module.functions[f_index as usize], args)?;
         }
 
+        // Keep the arguments on the stack until the result is resolved,
+        // since it might refer to them.
+        let st = self.stack.len();
         let call = ast::Call {
             f_index: fn_index,
             args: args
                 .iter()
-                .map(|arg| ast::Expression::Variable(Box::new((Range::empty(0), arg.clone()))))
+                .map(|arg| {
+                    let arg = if let Variable::Ref(_) = *arg {
+                        arg.clone()
+                    } else {
+                        self.stack.push(arg.clone());
+                        Variable::Ref(self.stack.len() - 1)
+                    };
+                    ast::Expression::Variable(Box::new((Range::empty(0), arg)))
+                })
                 .collect(),
             custom_source: None,
             info: Box::new(ast::CallInfo {
@@ -1822,15 +1833,17 @@ impl Runtime {
                 source_range: Range::empty(0),
             }),
         };
-        match self.call(&call, module) {
-            Ok((Some(val), Flow::Continue)) => Ok(val),
+        let res = match self.call(&call, module) {
+            Ok((Some(val), Flow::Continue)) => Ok(val.deep_clone(&self.stack)),
             Err(err) => Err(err),
             _ => Err(module.error(
                 call.info.source_range,
                 &format!("{}\nExpected something", self.stack_trace()),
                 self,
             )),
-        }
+        };
+        self.stack.truncate(st);
+        res
     }
 
     fn swizzle(&mut self, sw: &ast::Swizzle) -> Result<Flow, String> {
-- 
2.43.0


From c98baf44b214dff6971cb6d3021f90d791c2de06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:27 +0000
Subject: [PATCH 32/51] fix: the data reader does not step over a color it has
 read

---
 src/dyon_std/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 11f5822..0670e6f 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -69,6 +69,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
         let (range, _) = read.until_any_or_whitespace(SEPS);
         let val = read.raw_string(range.length);
         if let Some((rgb, a)) = rgb_maybe_a(&mut val.chars()) {
+            *read = read.consume(range.length);
             let v = [
                 f32::from(rgb[0]) / 255.0,
                 f32::from(rgb[1]) / 255.0,
-- 
2.43.0


From aed9779a815550ac97ce54a999ec03dba804319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:27 +0000
Subject: [PATCH 33/51] fix: an empty key of an object is written without
 quotes, and cannot be read back

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index 16b3c97..d4562dd 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -99,7 +99,7 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
-- 
2.43.0


From 8a5608cdd54c3f7f2a0d83cce671ca9d2bc44891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 34/51] fix: the data reader changes numbers that were written
 out, or cannot read them back

---
 src/dyon_std/data.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 0670e6f..81e86a1 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -3,6 +3,7 @@ use std::collections::HashSet;
 use std::fs::File;
 #[cfg(feature = "file")]
 use std::io::Read;
+use std::num::ParseFloatError;
 use std::sync::Arc;
 
 use range::Range;
@@ -43,6 +44,12 @@ static NUMBER_SETTINGS: NumberSettings = NumberSettings {
     allow_underscore: true,
 };
 
+/// Parses a number to the nearest `f64`, such that numbers that are written
+/// out are the same when read back.
+fn parse_number(read: &ReadToken, range: Range) -> Result<f64, ParseFloatError> {
+    read.raw_string(range.length).replace('_', "").parse()
+}
+
 const SEPS: &str = "(){}[],.:;\n\"\\";
 
 fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Variable, String> {
@@ -109,7 +116,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     }
     // Number.
     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(val) => {
                 *read = read.consume(range.length);
                 return Ok(Variable::f64(val));
@@ -267,7 +274,7 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(x) => {
                 *read = read.consume(range.length);
                 x
@@ -279,7 +286,7 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     comma(read);
     let y = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match parse_number(read, range) {
             Ok(y) => {
                 *read = read.consume(range.length);
                 y
@@ -291,12 +298,12 @@ fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     };
     let (z, w) = if comma(read) {
         if let Some(range) = read.number(&NUMBER_SETTINGS) {
-            match read.parse_number(&NUMBER_SETTINGS, range.length) {
+            match parse_number(read, range) {
                 Ok(z) => {
                     *read = read.consume(range.length);
                     comma(read);
                     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-                        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+                        match parse_number(read, range) {
                             Ok(w) => {
                                 *read = read.consume(range.length);
                                 (z, w)
-- 
2.43.0


From de81c02cad48d51f1776ceac477e5fdd5c99bfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:47 +0000
Subject: [PATCH 35/51] fix: the data reader does not allow white space at the
 start of a vector

---
 src/dyon_std/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 81e86a1..e149eb9 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -273,6 +273,7 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 }
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
+    opt_w(read);
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
         match parse_number(read, range) {
             Ok(x) => {
-- 
2.43.0


From 418329d25c825dcc048cfd95f411d13c5665b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:58 +0000
Subject: [PATCH 36/51] fix: a field that refers to a variable is not looked up
 when an object is handed to Rust

---
 src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/embed.rs b/src/embed.rs
index 172e775..0960bb1 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -21,7 +21,7 @@ pub fn obj_field<T: PopVariable>(rt: &Runtime, obj: &Object, name: &str) -> Resu
     let var = obj
         .get(&Arc::new(name.into()))
         .ok_or_else(|| format!("Object has no key `{}`", name))?;
-    PopVariable::pop_var(rt, var)
+    PopVariable::pop_var(rt, rt.get(var))
 }
 
 /// Implemented by types that can be popped from the runtime stack.
-- 
2.43.0


From a66c28540cfb7219c1e3d1ea5a93765162ae6e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:58 +0000
Subject: [PATCH 37/51] fix: an array with too few items panics when it is
 handed to Rust as a fixed number of items

---
 src/embed.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/embed.rs b/src/embed.rs
index 0960bb1..8cf99b1 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -168,6 +168,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for Result<T, U> {
 impl<T: PopVariable> PopVariable for [T; 2] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -181,6 +184,9 @@ impl<T: PopVariable> PopVariable for [T; 2] {
 impl<T: PopVariable> PopVariable for [T; 3] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -195,6 +201,9 @@ impl<T: PopVariable> PopVariable for [T; 3] {
 impl<T: PopVariable> PopVariable for [T; 4] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -210,6 +219,9 @@ impl<T: PopVariable> PopVariable for [T; 4] {
 impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -223,6 +235,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -237,6 +252,9 @@ impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable, W: PopVariable> PopVariable for (T, U, V, W) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
-- 
2.43.0


From aeb567909dbc4769423e7a659ca2e6925e72ff9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:19 +0000
Subject: [PATCH 38/51] fix: an array fill in a closure prints as an array of
 two items

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index d4562dd..4d1d873 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -638,7 +638,7 @@ fn write_arr_fill<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "[")?;
     write_expr(w, rt, &arr_fill.fill, tabs + 1)?;
-    write!(w, ", ")?;
+    write!(w, "; ")?;
     write_expr(w, rt, &arr_fill.n, tabs + 1)?;
     write!(w, "]")?;
     Ok(())
-- 
2.43.0


From e6767f06447cdcae419bfb5feee597f5e0ef7e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:19 +0000
Subject: [PATCH 39/51] fix: operands in a closure print without the
 parentheses they need

---
 src/write.rs | 104 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 65 insertions(+), 39 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 4d1d873..a97eb4e 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -357,7 +357,8 @@ fn write_expr<W: io::Write>(
         }
         E::If(ref if_expr) => write_if(w, rt, if_expr, tabs)?,
         E::Try(ref expr) => {
-            write_expr(w, rt, expr, tabs)?;
+            let parens = expr_binop(expr).is_some() || operand_needs_parens(expr, false);
+            write_operand(w, rt, expr, parens, tabs)?;
             write!(w, "?")?;
         }
         E::Swizzle(ref swizzle) => write_swizzle(w, rt, swizzle, tabs)?,
@@ -416,29 +417,64 @@ fn write_block<W: io::Write>(
     Ok(())
 }
 
-fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bool {
+/// Gets the binary operator that an expression is written with.
+fn expr_binop(expr: &ast::Expression) -> Option<ast::BinOp> {
     use ast::Expression as E;
 
-    let binop: ast::BinOp = match *expr {
-        E::Call(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallBinOp(ref call) => match standard_binop(&call.info.name,
-            &[call.left.clone(), call.right.clone()])
-        {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallLazy(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallReturn(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        _ => return false
+    match *expr {
+        E::Call(ref call) => standard_binop(&call.info.name, &call.args),
+        E::CallBinOp(ref call) => standard_binop(
+            &call.info.name,
+            &[call.left.clone(), call.right.clone()]
+        ),
+        E::CallLazy(ref call) => standard_binop(&call.info.name, &call.args),
+        E::CallReturn(ref call) => standard_binop(&call.info.name, &call.args),
+        _ => None
+    }
+}
+
+/// Whether an expression can not be an operand without parentheses.
+fn operand_needs_parens(expr: &ast::Expression, right: bool) -> bool {
+    use ast::Expression as E;
+
+    let is_neg = |name: &Arc<String>| &***name == "neg";
+    match *expr {
+        E::Call(ref call) => is_neg(&call.info.name),
+        E::CallReturn(ref call) => is_neg(&call.info.name),
+        E::CallUnOp(ref call) => is_neg(&call.info.name),
+        E::If(_) | E::Closure(_) | E::Block(_) | E::Try(_) => true,
+        E::Object(_) | E::Array(_) | E::ArrayFill(_) => !right,
+        E::Variable(ref range_var) => match range_var.1 {
+            Variable::F64(x, _) => x.is_sign_negative(),
+            Variable::Closure(_, _) => true,
+            Variable::Object(_) | Variable::Array(_) => !right,
+            _ => false,
+        },
+        _ => false,
+    }
+}
+
+fn write_operand<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    expr: &ast::Expression,
+    parens: bool,
+    tabs: u32,
+) -> Result<(), io::Error> {
+    if parens {
+        write!(w, "(")?;
+    }
+    write_expr(w, rt, expr, tabs)?;
+    if parens {
+        write!(w, ")")?;
+    }
+    Ok(())
+}
+
+fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bool {
+    let binop: ast::BinOp = match expr_binop(expr) {
+        Some(x) => x,
+        None => return operand_needs_parens(expr, right),
     };
     match (op.precedence(), binop.precedence()) {
         (ast::BINOP_PREC_POW, _) => true,
@@ -446,6 +482,7 @@ fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bo
         (ast::BINOP_PREC_MUL, ast::BINOP_PREC_MUL) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_ADD) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_EQ) => true,
+        (ast::BINOP_PREC_EQ, _) if !right => true,
         _ => false,
     }
 }
@@ -461,22 +498,9 @@ fn write_binop<W: io::Write>(
     let left_needs_parens = binop_needs_parens(op, left, false);
     let right_needs_parens = binop_needs_parens(op, right, true);
 
-    if left_needs_parens {
-        write!(w, "(")?;
-    }
-    write_expr(w, rt, left, tabs)?;
-    if left_needs_parens {
-        write!(w, ")")?;
-    }
+    write_operand(w, rt, left, left_needs_parens, tabs)?;
     write!(w, " {} ", op.symbol())?;
-    if right_needs_parens {
-        write!(w, "(")?;
-    }
-    write_expr(w, rt, right, tabs)?;
-    if right_needs_parens {
-        write!(w, ")")?;
-    }
-    Ok(())
+    write_operand(w, rt, right, right_needs_parens, tabs)
 }
 
 fn write_not<W: io::Write>(
@@ -486,7 +510,8 @@ fn write_not<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "!")?;
-    write_expr(w, rt, expr, tabs)
+    let parens = expr_binop(expr).is_some() || operand_needs_parens(expr, true);
+    write_operand(w, rt, expr, parens, tabs)
 }
 
 fn write_neg<W: io::Write>(
@@ -496,7 +521,8 @@ fn write_neg<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "-")?;
-    write_expr(w, rt, expr, tabs)
+    let parens = expr_binop(expr).is_some() || operand_needs_parens(expr, true);
+    write_operand(w, rt, expr, parens, tabs)
 }
 
 fn write_item<W: io::Write>(
-- 
2.43.0


From daac22945aa57891fa87269a7c96bbddcbd0571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:20 +0000
Subject: [PATCH 40/51] fix: calls in a closure print without namespace and
 with the wrong form of mut

---
 src/write.rs | 62 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 18 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index a97eb4e..cf1a0f6 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -212,19 +212,19 @@ fn write_expr<W: io::Write>(
         E::Object(ref obj) => write_obj(w, rt, obj, tabs)?,
         E::Array(ref arr) => write_arr(w, rt, arr, tabs)?,
         E::ArrayFill(ref arr_fill) => write_arr_fill(w, rt, arr_fill, tabs)?,
-        E::Call(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallVoid(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallReturn(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::Call(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallVoid(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallReturn(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
         E::CallBinOp(ref call) => write_call(
             w,
             rt,
-            &call.info.name,
+            &call.info,
             &[call.left.clone(), call.right.clone()],
             tabs,
         )?,
-        E::CallUnOp(ref call) => write_call(w, rt, &call.info.name, &[call.arg.clone()], tabs)?,
-        E::CallLazy(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallLoaded(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::CallUnOp(ref call) => write_call(w, rt, &call.info, &[call.arg.clone()], tabs)?,
+        E::CallLazy(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallLoaded(ref call) => write_fn_call(w, rt, &call.info, &call.args, tabs)?,
         E::Return(ref expr) => {
             write!(w, "return ")?;
             write_expr(w, rt, expr, tabs)?;
@@ -248,7 +248,7 @@ fn write_expr<W: io::Write>(
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::Go(ref go) => {
             write!(w, "go ")?;
-            write_call(w, rt, &go.call.info.name, &go.call.args, tabs)?;
+            write_fn_call(w, rt, &go.call.info, &go.call.args, tabs)?;
         }
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::Go(ref go) => match **go {},
@@ -368,7 +368,11 @@ fn write_expr<W: io::Write>(
         E::CallClosure(ref call) => write_call_closure(w, rt, call, tabs)?,
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::In(ref in_expr) => {
-            write!(w, "in {}", in_expr.name)?;
+            write!(w, "in ")?;
+            if let Some(ref alias) = in_expr.alias {
+                write!(w, "{}::", alias)?;
+            }
+            write!(w, "{}", in_expr.name)?;
         } // x => panic!("Unimplemented `{:#?}`", x),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::In(ref in_expr) => match **in_expr {},
@@ -595,10 +599,11 @@ fn write_obj<W: io::Write>(
 fn write_call<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
-    name: &Arc<String>,
+    info: &ast::CallInfo,
     args: &[ast::Expression],
     tabs: u32,
 ) -> Result<(), io::Error> {
+    let name = &info.name;
     if &**name == "norm" && args.len() == 1 {
         write_norm(w, rt, &args[0], tabs)
     } else if &**name == "not" && args.len() == 1 {
@@ -608,16 +613,37 @@ fn write_call<W: io::Write>(
     } else if let Some(op) = standard_binop(name, args) {
         write_binop(w, rt, op, &args[0], &args[1], tabs)
     } else {
-        write!(w, "{}(", name)?;
-        for (i, arg) in args.iter().enumerate() {
-            write_expr(w, rt, arg, tabs)?;
-            if i + 1 < args.len() {
-                write!(w, ", ")?;
-            }
+        write_fn_call(w, rt, info, args, tabs)
+    }
+}
+
+fn write_fn_call<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    info: &ast::CallInfo,
+    args: &[ast::Expression],
+    tabs: u32,
+) -> Result<(), io::Error> {
+    if let Some(ref alias) = info.alias {
+        write!(w, "{}::", alias)?;
+    }
+    // The name tells which arguments are mutable, e.g. `push(mut,_)`.
+    let (name, muts) = match info.name.find('(') {
+        Some(ind) => (&info.name[..ind], &info.name[ind + 1..info.name.len() - 1]),
+        None => (&info.name[..], ""),
+    };
+    let mut muts = muts.split(',');
+    write!(w, "{}(", name)?;
+    for (i, arg) in args.iter().enumerate() {
+        if muts.next() == Some("mut") {
+            write!(w, "mut ")?;
+        }
+        write_expr(w, rt, arg, tabs)?;
+        if i + 1 < args.len() {
+            write!(w, ", ")?;
         }
-        write!(w, ")")?;
-        Ok(())
     }
+    write!(w, ")")
 }
 
 fn write_call_closure<W: io::Write>(
-- 
2.43.0


From aa2535e0b8eab224850115eb4bdedec8445875cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 41/51] fix: loops in a closure print without their labels

---
 src/write.rs | 76 +++++++++++++++++++++++-----------------------------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index cf1a0f6..6ddf2d1 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -257,13 +257,11 @@ fn write_expr<W: io::Write>(
         E::Mat4(ref mat4) => write_mat4(w, rt, mat4, tabs)?,
         E::For(ref f) => write_for(w, rt, f, tabs)?,
         E::ForN(ref for_n) => {
-            write!(w, "for ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "for", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ForIn(ref for_in) => {
-            write!(w, "for ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "for", for_in, tabs)?;
         }
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::ForIn(ref for_in) |
@@ -276,84 +274,66 @@ fn write_expr<W: io::Write>(
         E::AllIn(ref for_in) |
         E::LinkIn(ref for_in) => match **for_in {},
         E::Sum(ref for_n) => {
-            write!(w, "sum ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "sum", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SumIn(ref for_in) => {
-            write!(w, "sum ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "sum", for_in, tabs)?;
         }
         E::SumVec4(ref for_n) => {
-            write!(w, "sum_vec4 ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "sum_vec4", for_n, tabs)?;
         }
         E::Prod(ref for_n) => {
-            write!(w, "prod ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "prod", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ProdIn(ref for_in) => {
-            write!(w, "prod ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "prod", for_in, tabs)?;
         }
         E::ProdVec4(ref for_n) => {
-            write!(w, "prod_vec4 ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "prod_vec4", for_n, tabs)?;
         }
         E::Min(ref for_n) => {
-            write!(w, "min ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "min", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MinIn(ref for_in) => {
-            write!(w, "min ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "min", for_in, tabs)?;
         }
         E::Max(ref for_n) => {
-            write!(w, "max ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "max", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MaxIn(ref for_in) => {
-            write!(w, "max ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "max", for_in, tabs)?;
         }
         E::Sift(ref for_n) => {
-            write!(w, "sift ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "sift", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SiftIn(ref for_in) => {
-            write!(w, "sift ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "sift", for_in, tabs)?;
         }
         E::Any(ref for_n) => {
-            write!(w, "any ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "any", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AnyIn(ref for_in) => {
-            write!(w, "any ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "any", for_in, tabs)?;
         }
         E::All(ref for_n) => {
-            write!(w, "all ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "all", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AllIn(ref for_in) => {
-            write!(w, "all ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "all", for_in, tabs)?;
         }
         E::LinkFor(ref for_n) => {
-            write!(w, "link ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_for_n(w, rt, "link", for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::LinkIn(ref for_in) => {
-            write!(w, "link ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_for_in(w, rt, "link", for_in, tabs)?;
         }
         E::If(ref if_expr) => write_if(w, rt, if_expr, tabs)?,
         E::Try(ref expr) => {
@@ -787,12 +767,20 @@ fn write_swizzle<W: io::Write>(
     Ok(())
 }
 
+fn write_label<W: io::Write>(w: &mut W, label: &Option<Arc<String>>) -> Result<(), io::Error> {
+    if let Some(ref label) = *label {
+        write!(w, "'{}: ", label)?;
+    }
+    Ok(())
+}
+
 fn write_for<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
     f: &ast::For,
     tabs: u32,
 ) -> Result<(), io::Error> {
+    write_label(w, &f.label)?;
     if let ast::Expression::Block(ref b) = f.init {
         if b.expressions.is_empty() {
             if let ast::Expression::Variable(ref range_var) = f.cond {
@@ -854,10 +842,12 @@ fn standard_binop(name: &Arc<String>, args: &[ast::Expression]) -> Option<ast::B
 fn write_for_n<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
+    kind: &str,
     for_n: &ast::ForN,
     tabs: u32,
 ) -> Result<(), io::Error> {
-    write!(w, "{} ", for_n.name)?;
+    write_label(w, &for_n.label)?;
+    write!(w, "{} {} ", kind, for_n.name)?;
     if let Some(ref start) = for_n.start {
         write!(w, "[")?;
         write_expr(w, rt, start, tabs)?;
@@ -876,10 +866,12 @@ fn write_for_n<W: io::Write>(
 fn write_for_in<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
+    kind: &str,
     for_in: &ast::ForIn,
     tabs: u32,
 ) -> Result<(), io::Error> {
-    write!(w, "{} in ", for_in.name)?;
+    write_label(w, &for_in.label)?;
+    write!(w, "{} {} in ", kind, for_in.name)?;
     write_expr(w, rt, &for_in.iter, tabs)?;
     write!(w, " ")?;
     write_block(w, rt, &for_in.block, tabs + 1)?;
-- 
2.43.0


From 14a6cf637ee6c373ca62f9607f01243d813dbdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 42/51] fix: closures print without their current objects

---
 src/write.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index 6ddf2d1..0bd682b 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -186,7 +186,15 @@ fn write_closure<W: io::Write>(
             write!(w, ", ")?;
         }
     }
-    write!(w, ") = ")?;
+    write!(w, ")")?;
+    for (i, current) in closure.currents.iter().enumerate() {
+        write!(w, "{}", if i == 0 { " ~ " } else { ", " })?;
+        if current.mutable {
+            write!(w, "mut ")?;
+        }
+        write!(w, "{}", current.name)?;
+    }
+    write!(w, " = ")?;
     write_expr(w, rt, &closure.expr, tabs)?;
     Ok(())
 }
-- 
2.43.0


From cd94319c290ee0976dd3ad535850403eff12ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:22 +0000
Subject: [PATCH 43/51] fix: items and keys in a closure print without `?` and
 quotes

---
 src/write.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 0bd682b..7bc6077 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -99,7 +99,7 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if is_name(k) {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
@@ -517,6 +517,11 @@ fn write_neg<W: io::Write>(
     write_operand(w, rt, expr, parens, tabs)
 }
 
+/// Whether a key can be written without quotes.
+fn is_name(key: &str) -> bool {
+    !key.is_empty() && key.chars().all(|c| c.is_alphanumeric() || c == '_')
+}
+
 fn write_item<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
@@ -529,13 +534,25 @@ fn write_item<W: io::Write>(
         write!(w, "~ ")?;
     }
     write!(w, "{}", item.name)?;
+    if item.try_flag {
+        write!(w, "?")?;
+    }
     for (i, id) in item.ids.iter().enumerate() {
         match *id {
-            Id::String(_, ref prop) => write!(w, ".{}", prop)?,
+            Id::String(_, ref prop) => {
+                if is_name(prop) {
+                    write!(w, ".{}", prop)?
+                } else {
+                    write!(w, "[")?;
+                    json::write_string(w, prop)?;
+                    write!(w, "]")?;
+                }
+            }
             Id::F64(_, ind) => write!(w, "[{}]", ind)?,
             Id::Expression(ref expr) => {
+                // A number or text followed by an operator does not parse.
                 write!(w, "[")?;
-                write_expr(w, rt, expr, tabs)?;
+                write_operand(w, rt, expr, expr_binop(expr).is_some(), tabs)?;
                 write!(w, "]")?;
             }
         }
@@ -569,7 +586,7 @@ fn write_obj<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "{{")?;
     for (i, key_value) in obj.key_values.iter().enumerate() {
-        if key_value.0.chars().all(|c| c.is_alphanumeric()) {
+        if is_name(&key_value.0) {
             write!(w, "{}: ", key_value.0)?;
         } else {
             json::write_string(w, &key_value.0)?;
-- 
2.43.0


From e25215470da9c305b470568fa2f20dfb36d86f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:22 +0000
Subject: [PATCH 44/51] fix: items of a link in a closure print on one line,
 where they can parse as one item

---
 src/write.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 7bc6077..14f83f4 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -569,11 +569,14 @@ fn write_link<W: io::Write>(
     link: &ast::Link,
     tabs: u32,
 ) -> Result<(), io::Error> {
-    write!(w, "link {{ ")?;
+    // Use one line per item, because `x -1` and `f (1, 2)` parse as one item.
+    writeln!(w, "link {{")?;
     for item in &link.items {
-        write_expr(w, rt, item, tabs)?;
-        write!(w, " ")?;
+        write_tabs(w, tabs + 1)?;
+        write_expr(w, rt, item, tabs + 1)?;
+        writeln!(w)?;
     }
+    write_tabs(w, tabs)?;
     write!(w, "}}")?;
     Ok(())
 }
-- 
2.43.0


From 0a27f4af6734d6d3bb529ed61cd8bfe29506481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:23 +0000
Subject: [PATCH 45/51] fix: a zero vector in a closure prints as `()`

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index 14f83f4..30b2bdf 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -723,7 +723,7 @@ fn write_vec4<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     let mut n = vec4.args.len();
-    for expr in vec4.args.iter().rev() {
+    for expr in vec4.args[1..].iter().rev() {
         if let ast::Expression::Variable(ref range_var) = *expr {
             if let (_, Variable::F64(num, _)) = **range_var {
                 if num == 0.0 {
-- 
2.43.0


From 57c0da2fe5a01de73f0d3a141add2ccfd9d25d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:26 +0000
Subject: [PATCH 46/51] fix: fmt takes the quote after an escaped character for
 one that is escaped itself

---
 src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b2bdf..a765e02 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -1020,8 +1020,8 @@ pub fn fmt(tab: i32, text: &str) -> String {
     let mut string_escape = false;
     for ch in text.chars() {
         match ch {
-            '"' if string_escape => string_escape = false,
-            '"' if !string_escape => {
+            _ if string_escape => string_escape = false,
+            '"' => {
                 string = !string;
                 res.push(ch);
                 continue;
-- 
2.43.0


From f094c1e392289cd997f7e23468f9c03d4c88ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 47/51] fix: the library does not build without the feature
 dynload, nor with threading but without rand

---
 src/runtime/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 6607b3b..ff9d276 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -982,6 +982,7 @@ impl Runtime {
             stack,
             local_stack: vec![],
             current_stack: vec![],
+            #[cfg(feature = "dynload")]
             module_lookup: self.module_lookup,
             // Add last call because of loaded functions
             // use relative index to the function it is calling from.
@@ -993,6 +994,8 @@ impl Runtime {
                 local_len: 0,
                 current_len: 0,
             }],
+            #[cfg(feature = "rand")]
+            #[cfg(not(target_family = "wasm"))]
             rng: self.rng.clone(),
             arg_err_index: Cell::new(None),
             #[cfg(feature = "async")]
@@ -3024,6 +3027,7 @@ impl Runtime {
         stack_trace(&self.call_stack)
     }
 
+    #[cfg(feature = "dynload")]
     pub(crate) fn get_module(&self, source: &str, target: &mut String) -> Result<(), String> {
         (self.module_lookup)(source, target)
     }
-- 
2.43.0


From 0ad49e347cd20b9a9b76fdafb0444f883414d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 48/51] fix: without threads every call with a lifetime
 constraint is refused

---
 src/lifetime/mod.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 5305bca..9d6efe9 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -924,7 +924,6 @@ pub(crate) fn check_core(
     // Check that `go` functions does not have lifetime constraints.
     for &c in &calls {
         let call = &nodes[c];
-        #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         if let Some(parent) = call.parent {
             if nodes[parent].kind != Kind::Go {
                 continue;
@@ -932,10 +931,6 @@ pub(crate) fn check_core(
         } else {
             continue;
         }
-        #[cfg(any(target_family = "wasm", not(feature = "threading")))]
-        if call.parent.is_none() {
-            continue;
-        }
         if let Some(declaration) = call.declaration {
             let function = &nodes[declaration];
             for (i, &a) in function
-- 
2.43.0


From 964c481149d8333fdfa9700898ecc2766e87c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 49/51] fix: with async, join inside of a thread panics

---
 src/threading.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/threading.rs b/src/threading.rs
index 0d26e05..0906b49 100644
--- a/src/threading.rs
+++ b/src/threading.rs
@@ -42,6 +42,7 @@ macro_rules! join {
 #[macro_export]
 macro_rules! join {
     ($rt:expr, $e:expr) => {
-        $rt.block_on($e)
+        // The current thread might be a task itself.
+        tokio::task::block_in_place(|| $rt.block_on($e))
     }
 }
-- 
2.43.0


From 3f751cb9e6851000ae6b1acee8983ade3ab6afaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 50/51] fix: without threads, `go` and `in` panic in the
 lifetime checker instead of an error

---
 src/lifetime/node.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index cd51dfc..a4df089 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -263,7 +263,6 @@ impl Node {
                 (_, Kind::ReturnVoid) => {}
                 (_, Kind::Swizzle) => {}
                 (_, Kind::Loop) => {}
-                #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
                 (_, Kind::Go) => {}
                 (_, Kind::For) => {}
                 (_, Kind::ForN) => {}
@@ -299,7 +298,6 @@ impl Node {
                 (_, Kind::Add) => {}
                 (_, Kind::Mul) => {}
                 (_, Kind::Call) => {}
-                #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
                 (_, Kind::In) => {}
                 (_, Kind::Closure) => {}
                 (_, Kind::CallClosure) => {}
-- 
2.43.0


From d4c6a619b2bed5ae5fa381f4540dec51e5a0fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:20 +0000
Subject: [PATCH 51/51] fix: json_from_meta_data panics on arrays that hold no
 tokens and leaves out what refers to variables

---
 src/dyon_std/meta.rs | 22 +++++++++++++++++++++-
 src/dyon_std/mod.rs  |  7 ++++---
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index bee0504..1abef05 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -207,6 +207,26 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
         }
     }
 
+    // Whether an item has the form of meta data.
+    fn is_meta_data(v: &Variable) -> bool {
+        if let Variable::Array(ref arr) = *v {
+            if let (Some(Variable::Str(t)), Some(Variable::Str(_))) = (arr.get(2), arr.get(3)) {
+                return match (&***t, arr.get(4)) {
+                    ("start", _) | ("end", _) => true,
+                    ("bool", Some(Variable::Bool(_, _))) => true,
+                    ("f64", Some(Variable::F64(_, _))) => true,
+                    ("str", Some(Variable::Str(_))) => true,
+                    _ => false,
+                };
+            }
+        }
+        false
+    }
+
+    if !data.iter().all(is_meta_data) {
+        return Err(io::Error::new(io::ErrorKind::InvalidData, "Expected meta data"));
+    }
+
     use piston_meta::json::write_string;
     use std::cmp::{max, min};
     use std::io::Write;
@@ -221,7 +241,7 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
     let mut first = true;
     for (i, d) in data.iter().enumerate() {
         let is_end = if is_end_node(d) {
-            indent -= 1;
+            indent = indent.saturating_sub(1);
             true
         } else {
             false
diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 2652cca..ce15de9 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1993,15 +1993,16 @@ pub(crate) fn save__data_file(_: &mut Runtime) -> Result<Variable, String> {
 
 pub(crate) fn json_from_meta_data(rt: &mut Runtime) -> Result<Variable, String> {
     let meta_data = rt.stack.pop().expect(TINVOTS);
-    let json = match rt.get(&meta_data) {
-        &Variable::Array(ref arr) => meta::json_from_meta_data(arr).map_err(|err| {
+    // Items can refer to variables.
+    let json = match rt.get(&meta_data).deep_clone(&rt.stack) {
+        Variable::Array(ref arr) => meta::json_from_meta_data(arr).map_err(|err| {
             format!(
                 "{}\nError when generating JSON:\n{}",
                 rt.stack_trace(),
                 err.to_string()
             )
         })?,
-        x => return Err(rt.expected_arg(0, x, "array")),
+        ref x => return Err(rt.expected_arg(0, x, "array")),
     };
     Ok(Variable::Str(Arc::new(json)))
 }
-- 
2.43.0

