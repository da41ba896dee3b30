From fa884d931ed89590464ec11f912792f7543b4935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 01/39] fix: a hash map created with capacity 0 no longer reads
 outside its table

---
 std/hash-map.llrl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/std/hash-map.llrl b/std/hash-map.llrl
index 2ea41f3..6076d7d 100644
--- a/std/hash-map.llrl
+++ b/std/hash-map.llrl
@@ -227,6 +227,7 @@
 
 (function (next-power-of-two n) {(-> U64 U64)}
   (assert (<= n 0x4000000000000000))
+  (when (eq? n 0) (return 1))
   @let* (
     [n (- n 1)]
     [n (bw| n (bw>> n 1))]
-- 
2.43.0


From 07f4241f49d82a02df968911528f8f933e11d635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 02/39] fix: array/ref and array/update reject indices past the
 last element

---
 std/internal/array-vector.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 1fa90b0..5ecc876 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -66,7 +66,7 @@
   (= (array/length t) 0))
 
 (function (array/ref index t) {(forall A) (-> U64 (Array A) (Ref A))}
-  (assert (<= index (array/length t)) "array/ref: out of range")
+  (assert (< index (array/length t)) "array/ref: out of range")
   (ref/unsafe-from-ptr (ptr/add index (array/ptr t))))
 
 (function (array/subarray start end t) {(forall A) (-> U64 U64 (Array A) (Array A))}
@@ -120,7 +120,7 @@
   (array/insert 0 value t))
 
 (function (array/update index value t) {(forall A) (-> U64 A (Array A) (Array A))}
-  (assert (<= 0 index (- (array/length t) 1)) "array/update: out of range")
+  (assert (< index (array/length t)) "array/update: out of range")
   (let1 s (shallow-copy t)
     (unsafe-set! s[index] value)
     s))
-- 
2.43.0


From bd0bfec60ade1fa37c9ea3b8ea351c3dbe01ecd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 03/39] fix: vector/with-capacity evaluates its argument once

---
 std/internal/array-vector.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/array-vector.llrl b/std/internal/array-vector.llrl
index 5ecc876..9923850 100644
--- a/std/internal/array-vector.llrl
+++ b/std/internal/array-vector.llrl
@@ -228,10 +228,12 @@
   (vector/unsafe-from-ptr ptr len len))
 
 (transparent-function (vector/with-capacity capacity) {(forall A) (-> U64 (Vector A))}
+  @let ([capacity capacity])
   (vector/unsafe-from-ptr (array/ptr (array/unsafe-alloc-uninitialized capacity)) 0 capacity))
 
 ; Caller must ensure that the returned Vector never escapes.
 (transparent-function (vector/unsafe-stackalloc-with-capacity capacity) {(forall A) (-> U64 (Vector A))}
+  @let ([capacity capacity])
   (vector/unsafe-from-ptr (array/ptr (array/unsafe-stackalloc-uninitialized capacity)) 0 capacity))
 
 ; Caller must ensure that the specified pointer is valid for the specified capacity and
-- 
2.43.0


From 619b079c4173318202c125ba46ed164dba314030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 04/39] fix: encode and decode UTF-8 up to U+10FFFF

---
 std/internal/utf-8.llrl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/std/internal/utf-8.llrl b/std/internal/utf-8.llrl
index f8a6b2e..fe7c63b 100644
--- a/std/internal/utf-8.llrl
+++ b/std/internal/utf-8.llrl
@@ -41,7 +41,7 @@
         (if (and (<= 2048 x 65535) (not (<= 55296 x 57343))) (decode:produce x) decode:invalid))]
     [(complete:4 (let a) (let b) (let c) (let d))
       (let1 x (bw| (&<< a 7 18) (bw| (&<< b 63 12) (bw| (&<< c 63 6) (&<< d 63 0))))
-        (if (<= 65536 x 111411) (decode:produce x) decode:invalid))]))
+        (if (<= 65536 x 1114111) (decode:produce x) decode:invalid))]))
 
 (function (decode-step s n) {(-> (Option Incomplete) U8 Decode)}
   (match (: s (input-class n))
@@ -86,7 +86,7 @@
       (encode:success (complete:2 (>>&| x 6 31 192) (>>&| x 0 63 128)))]
     [(and (<= 2048 x 65535) (not (<= 55296 x 57343)))
       (encode:success (complete:3 (>>&| x 12 15 224) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
-    [(<= 65536 x 111411)
+    [(<= 65536 x 1114111)
       (encode:success (complete:4 (>>&| x 18 7 240) (>>&| x 12 63 128) (>>&| x 6 63 128) (>>&| x 0 63 128)))]
     [else
       encode:invalid]))
-- 
2.43.0


From 800f8abaac9e10685814e8dbd83cf6a82f93b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 05/39] fix: string/remove-start and string/remove-end return
 on an empty part

---
 std/internal/string-text.llrl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 0065018..7b9dc91 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -181,6 +181,7 @@
       s]))
 
 (function (string/remove-start prefix s) {(-> String String String)}
+  (when (string/empty? prefix) (return s))
   @let (
     [s (ref s)]
     [l (string/length prefix)])
@@ -188,6 +189,7 @@
   ~s)
 
 (function (string/remove-end suffix s) {(-> String String String)}
+  (when (string/empty? suffix) (return s))
   @let (
     [s (ref s)]
     [l (string/length suffix)])
-- 
2.43.0


From 34d854dfc6a3677f97a49737501bd48a0bc41f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 06/39] fix: string/reverse reverses characters, not bytes

---
 std/internal/string-text.llrl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/std/internal/string-text.llrl b/std/internal/string-text.llrl
index 7b9dc91..01d0884 100644
--- a/std/internal/string-text.llrl
+++ b/std/internal/string-text.llrl
@@ -234,9 +234,9 @@
 
 (function (string/reverse s) {(-> String String)}
   (when (<= (string/length s) 1) (return s))
-  @let1 buf (shallow-copy (string/unsafe-array s))
-  (array/reverse! buf)
-  (string/unsafe-from-array buf))
+  @let1 chars (collect (string/chars s))
+  (array/reverse! chars)
+  (string/from-chars chars))
 
 (function (string/join sep it) {(forall T) (-> String (T String) String) (where (Iterate T))}
   @let1 buf text/empty
-- 
2.43.0


From a3ca1c11846b4fb76f40221407d1dec4765a012f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 07/39] fix: an empty list tail after @ is not located
 backwards

---
 llrl0/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl0/src/parser.rs b/llrl0/src/parser.rs
index 396698e..79a192c 100644
--- a/llrl0/src/parser.rs
+++ b/llrl0/src/parser.rs
@@ -100,7 +100,7 @@ where
     ) -> Result<S> {
         let start = self.next_token_start();
         let body = parse_body(self)?;
-        let end = self.latest_token_end();
+        let end = self.latest_token_end().max(start);
         Ok(produce_with_location(
             self.issue_source_location(start, end),
             body,
-- 
2.43.0


From 523df48d8d5d7e5c77f2f4dceecf4a17e8559fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:08 +0000
Subject: [PATCH 08/39] fix: display quoted and tried forms under a suffix
 unambiguously

---
 llrl0/src/sexp.rs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/sexp.rs b/llrl0/src/sexp.rs
index c6bb394..ecf5773 100644
--- a/llrl0/src/sexp.rs
+++ b/llrl0/src/sexp.rs
@@ -280,6 +280,38 @@ impl SexpRep {
         ls.append(&mut ss);
         Self::List(ls)
     }
+
+    /// Is this displayed in the form of a prefix followed by an S-expression?
+    /// A suffix put after such a form would belong to the S-expression following the prefix.
+    fn has_prefix(&self) -> bool {
+        match self {
+            Self::List(ls) => match ls.as_slice() {
+                [Sexp {
+                    rep: Self::Symbol(sym),
+                    ..
+                }, _] => matches!(
+                    sym.as_ref(),
+                    QUOTE | QUASIQUOTE | UNQUOTE | UNQUOTE_SPLICING | LOAD | CAPTURE
+                ),
+                _ => false,
+            },
+            _ => false,
+        }
+    }
+
+    /// Can `?` or `!` be put immediately after the displayed form of this?
+    fn accepts_try_suffix(&self) -> bool {
+        match self {
+            Self::List(ls) => match ls.as_slice() {
+                [Sexp {
+                    rep: Self::Symbol(sym),
+                    ..
+                }, _] if matches!(sym.as_ref(), TRY_QUESTION | TRY_EXCLAMATION) => false,
+                _ => !self.has_prefix(),
+            },
+            _ => false,
+        }
+    }
 }
 
 impl Default for SexpRep {
@@ -302,9 +334,9 @@ impl fmt::Display for SexpRep {
                     (UNQUOTE_SPLICING, [s]) => return write!(f, ",@{}", s),
                     (LOAD, [s]) => return write!(f, "~{}", s),
                     (CAPTURE, [s]) => return write!(f, "\\{}", s),
-                    (TRY_QUESTION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}?", s),
-                    (TRY_EXCLAMATION, [s @ Sexp { rep: Self::List(_), .. }]) => return write!(f, "{}!", s),
-                    (ANNOTATE, [s, ss @ ..]) => {
+                    (TRY_QUESTION, [s]) if s.rep.accepts_try_suffix() => return write!(f, "{}?", s),
+                    (TRY_EXCLAMATION, [s]) if s.rep.accepts_try_suffix() => return write!(f, "{}!", s),
+                    (ANNOTATE, [s, ss @ ..]) if !s.rep.has_prefix() => {
                         write!(f, "{} {{", s)?;
                         for (i, s) in ss.iter().enumerate() {
                             if i == 0 {
-- 
2.43.0


From 9d01cd6d832d348f32493f151ca973d32ebb8969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:28 +0000
Subject: [PATCH 09/39] fix: leaving a $let or $for that binds a name twice
 restores the outer binding

---
 llrl0/src/preprocess.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/llrl0/src/preprocess.rs b/llrl0/src/preprocess.rs
index 0a1b202..39d7215 100644
--- a/llrl0/src/preprocess.rs
+++ b/llrl0/src/preprocess.rs
@@ -331,7 +331,7 @@ impl<'a> State<'a> {
 
         let result = f(self);
 
-        for (name, prev_expr) in prev_binds {
+        for (name, prev_expr) in prev_binds.into_iter().rev() {
             if let Some(prev_expr) = prev_expr {
                 self.vars.insert(name, prev_expr);
             } else {
-- 
2.43.0


From e85e52eb74017ce2f1d6e895e08acf37947ce16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:24 +0000
Subject: [PATCH 10/39] fix: instance search does not bind the type variables
 of the constraint it matches

---
 .../module/sema/type_inference/unification.rs |  3 ++-
 llrl0/src/unification/types.rs                | 20 +++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference/unification.rs b/llrl0/src/module/sema/type_inference/unification.rs
index a20cfee..a099f26 100644
--- a/llrl0/src/module/sema/type_inference/unification.rs
+++ b/llrl0/src/module/sema/type_inference/unification.rs
@@ -118,8 +118,9 @@ impl Constraint {
             (&self.rep, &other.rep),
             (ConstraintRep::Class(a, _), ConstraintRep::Class(b, _)) if a == b
         ));
+        let rigid_vars = other.get_vars(Level::top(), ctx);
         for (a, b) in self.types().zip(other.types()) {
-            ctx.match_to_right(a, b)?;
+            ctx.match_to_right_on(&rigid_vars, a, b)?;
         }
         Ok(())
     }
diff --git a/llrl0/src/unification/types.rs b/llrl0/src/unification/types.rs
index 39f612f..77514cd 100644
--- a/llrl0/src/unification/types.rs
+++ b/llrl0/src/unification/types.rs
@@ -170,6 +170,21 @@ impl<E: KindEnvironment> Context<E> {
     }
 
     pub fn match_to_right<A, B>(&mut self, a: A, b: B) -> Result<(), Error>
+    where
+        Self: Resolve<A> + Resolve<B>,
+    {
+        let b = self.resolve(b);
+        let rigid_vars = self.get_vars(b, Level::top());
+        self.match_to_right_on(&rigid_vars, a, b)
+    }
+
+    /// `rigid_vars` are the type variables of the right side, which must not be bound.
+    pub fn match_to_right_on<A, B>(
+        &mut self,
+        rigid_vars: &BTreeSet<Var>,
+        a: A,
+        b: B,
+    ) -> Result<(), Error>
     where
         Self: Resolve<A> + Resolve<B>,
     {
@@ -177,6 +192,7 @@ impl<E: KindEnvironment> Context<E> {
         let b = self.resolve(b);
         match (a, b) {
             (a, b) if a == b => Ok(()),
+            (Type::Var(var, _, _), _) if rigid_vars.contains(&var) => Err(Error::Mismatch),
             (Type::Var(var, k, lv), t) => {
                 // In fact, occurs check is not required for all use cases of `match_to_right`.
                 // Add an option to skip occurs check for optimization?
@@ -194,9 +210,9 @@ impl<E: KindEnvironment> Context<E> {
                 if a_args.len() != b_args.len() {
                     return Err(Error::Mismatch);
                 }
-                self.match_to_right(a_callee, b_callee)?;
+                self.match_to_right_on(rigid_vars, a_callee, b_callee)?;
                 for (a, b) in a_args.iter().zip(b_args.iter()) {
-                    self.match_to_right(a, b)?;
+                    self.match_to_right_on(rigid_vars, a, b)?;
                 }
                 Ok(())
             }
-- 
2.43.0


From 972be88fea054f931f9c608c4cf460ad3dc16026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:32 +0000
Subject: [PATCH 11/39] fix: default the type variables a group of mutually
 recursive functions does not share at once

---
 llrl0/src/module/sema/type_inference.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c003087..c82f5e4 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -575,8 +575,10 @@ impl<'a, E: External> Context<'a, E> {
 
         // We only quantify type variables that appear in every function type.
         let quantify_vars = self.compute_common_type_vars(&scope, functions.iter().map(|f| f.id));
+        let level = scope.level();
         let (ty_params, s_params) =
             self.finalize_scope_on(functions[0].id, scope, quantify_vars, None)?;
+        self.default_remaining_type_vars(level, functions.iter().map(|f| f.id))?;
         let instantiation = Self::finalized_scope_instantiation(&ty_params, &s_params);
 
         for f in functions.iter() {
@@ -627,6 +629,23 @@ impl<'a, E: External> Context<'a, E> {
             .unwrap_or_default()
     }
 
+    /// Type variables that are not quantified must not be left to be bound by the uses of the functions.
+    fn default_remaining_type_vars<It>(&mut self, level: u::Level, constructs: It) -> Result<()>
+    where
+        It: Iterator,
+        It::Item: Into<ast::Construct>,
+    {
+        for construct in constructs {
+            let construct = construct.into();
+            let ty = self.u_types.schemes[&construct].body;
+            for var in self.u_ctx.get_vars(ty, level) {
+                self.resolve_ambiguity(var, &[])
+                    .map_err(|e| e.on(construct))?;
+            }
+        }
+        Ok(())
+    }
+
     fn infer_expl_function(&mut self, f: &ast::Function) -> Result<()> {
         debug_assert!(f.ann.is_some());
         let mut scope = u::Scope::new();
@@ -926,8 +945,10 @@ impl<'a, E: External> Context<'a, E> {
         }
 
         let quantify_vars = self.compute_common_type_vars(&scope, functions.iter().map(|f| f.id));
+        let level = scope.level();
         let (ty_params, s_params) =
             self.finalize_scope_on(functions[0].id, scope, quantify_vars, Some(outer_scope))?;
+        self.default_remaining_type_vars(level, functions.iter().map(|f| f.id))?;
         let instantiation = Self::finalized_scope_instantiation(&ty_params, &s_params);
 
         for f in functions.iter() {
-- 
2.43.0


From 9c85346c7517d973d0c65df7558aa7c780e2c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 12/39] fix: reject a class that is its own superclass

---
 llrl0/src/module/sema/type_inference.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/module/sema/type_inference.rs b/llrl0/src/module/sema/type_inference.rs
index c82f5e4..8fd1f6c 100644
--- a/llrl0/src/module/sema/type_inference.rs
+++ b/llrl0/src/module/sema/type_inference.rs
@@ -2,7 +2,7 @@ use super::{
     AvailableInstances, Error, External, InferredKinds, Module, ModuleId, Result, SymbolMap,
 };
 use crate::ast::{self, Dfs as _};
-use crate::topological_sort;
+use crate::topological_sort::{self, DependencyList as _};
 use derive_new::new;
 use either::*;
 use if_chain::if_chain;
@@ -495,7 +495,9 @@ impl<'a, E: External> Context<'a, E> {
         classes: &HashMap<ast::NodeId<ast::ClassCon>, ast::ClassCon>,
     ) -> Result<()> {
         for group in topological_sort::run(classes.values().map(|con| (con.id, con))) {
-            if group.len() >= 2 {
+            let mut depends_on_itself = false;
+            group[0].traverse_dependencies(&mut |id| depends_on_itself |= *id == group[0].id);
+            if group.len() >= 2 || depends_on_itself {
                 let ids = group.iter().map(|cls| cls.id).collect();
                 Err(Error::CyclicClasses(ids))?
             }
-- 
2.43.0


From 81e5be54dce3b6b585c2e9829d0a01cb09e747a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 13/39] fix: keep a repeated opcode byte when generating
 instruction encodings (pminsb)

---
 xten0/src/asm/inst.rs            | 6 ++++--
 xten1/asm/inst.llrl              | 6 ++++--
 xtencg/src/instr/encoding.rs     | 6 +-----
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 9c994c7..32e8b52 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -14831,12 +14831,13 @@ pub struct Pminsb<Op0, Op1>(pub Op0, pub Op1);
 /// pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
@@ -14847,12 +14848,13 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Xmm> {
 /// pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pminsb<Xmm, Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 0F 38 /r
+        // 66 0F 38 38 /r
         let modrm = ModRM::new(self.0, self.1);
         put(w, 0x66)?;
         puts(w, modrm.rex_byte(false))?;
         put(w, 0x0F)?;
         put(w, 0x38)?;
+        put(w, 0x38)?;
         put(w, modrm.byte())?;
         puts(w, modrm.sib_byte())?;
         puts(w, modrm.disp_bytes().into_iter().flatten())?;
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 567046d..b993329 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -11814,13 +11814,14 @@
 ; pminsb xmm xmm: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Xmm (forall W Error) (WriteInst W Error (Pminsb Xmm Xmm)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
@@ -11829,13 +11830,14 @@
 ; pminsb xmm m128: Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1.
 (instance WriteInst.Pminsb.Xmm.Memory (forall W Error) (WriteInst W Error (Pminsb Xmm Memory)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; 66 0F 38 /r
+    ; 66 0F 38 38 /r
     (with1 (pminsb: (let op0) (let op1)) inst
       (let ([modrm (mod-rm/new op0 op1)])
         (write-u8! 102 w)!
         (when-match1 (some (let b)) (mod-rm/rex-byte? modrm #f) (write-u8! b w)!)
         (write-u8! 15 w)!
         (write-u8! 56 w)!
+        (write-u8! 56 w)!
         (write-u8! (mod-rm/byte modrm) w)!
         (when-match1 (some (let b)) (mod-rm/sib-byte? modrm) (write-u8! b w)!)
         (write-bytes! (mod-rm/disp-bytes modrm) w)!
diff --git a/xtencg/src/instr/encoding.rs b/xtencg/src/instr/encoding.rs
index 0b297a0..36916cf 100644
--- a/xtencg/src/instr/encoding.rs
+++ b/xtencg/src/instr/encoding.rs
@@ -155,11 +155,7 @@ impl Encoding {
     }
 
     pub fn put_opcode_part(&mut self, byte: u8) -> Result<(), &'static str> {
-        if self.opcode().any(|b| b == byte) {
-            Ok(())
-        } else {
-            self.opcode.push(byte).map_err(|_| "Too much opcode")
-        }
+        self.opcode.push(byte).map_err(|_| "Too much opcode")
     }
 
     pub fn reg_in_opcode(&self) -> Option<Size> {
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index cdcdd9d..2ccd8e8 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -1673,7 +1673,7 @@
 # pminsb
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| pminsb xmm xmm/m128 | `66 0F 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
+| pminsb xmm xmm/m128 | `66 0F 38 38 /r [reg=0, rm=1]` | Compare packed signed byte integers in xmm1 and xmm2/m128 and store packed minimum values in xmm1. |
 
 # pminsd
 | Instruction | Encoding | Description |
-- 
2.43.0


From e2439077a6284a1646b9a0042a38b81a465cf998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:42 +0000
Subject: [PATCH 14/39] fix: encode jecxz with the address-size prefix

---
 xten0/src/asm/inst.rs            | 3 ++-
 xten1/asm/inst.llrl              | 3 ++-
 xtencg/src/x86.csv               | 2 +-
 xtencg/supported-instructions.md | 2 +-
 4 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 32e8b52..257c5c5 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -9527,7 +9527,8 @@ pub struct Jecxz<Op0>(pub Op0);
 /// jecxz rel8: Jump short if ECX register is 0.
 impl<W: io::Write + ?Sized> WriteInst<W> for Jecxz<i8> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // E3 cb
+        // 67 E3 cb
+        put(w, 0x67)?;
         put(w, 0xE3)?;
         puts(w, self.0.to_le_bytes())?;
         Ok(())
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index b993329..32a8273 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -6783,9 +6783,10 @@
 ; jecxz rel8: Jump short if ECX register is 0.
 (instance WriteInst.Jecxz.I8 (forall W Error) (WriteInst W Error (Jecxz I8)) (where (Write W Error))
   (function (write-inst! w inst)
-    ; E3 cb
+    ; 67 E3 cb
     (with1 (jecxz: (let op0)) inst
       (let ()
+        (write-u8! 103 w)!
         (write-u8! 227 w)!
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index c3cf568..d71e754 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -839,7 +839,7 @@ REX.W+ CF 	IRETQ 	NP		???	???	???			V	NE		iretq		Interrupt return (64-bit operan
 76 cb 	JBE rel8 	D	R	E.CF E.ZF					V	V		jbe		Jump short if below or equal (CF=1 or ZF=1).
 72 cb 	JC rel8 	D	R	E.CF					V	V		jc		Jump short if carry (CF=1).
 E3 cb 	JCXZ rel8 								NE	V				Jump short if CX register is 0.
-E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
+67 E3 cb 	JECXZ rel8 	D	R	ECX					V	V		jecxz		Jump short if ECX register is 0.
 E3 cb 	JRCXZ rel8 	D	R	RCX					V	NE		jrcxz		Jump short if RCX register is 0.
 74 cb 	JE rel8 	D	R	E.ZF					V	V		je		Jump short if equal (ZF=1).
 7F cb 	JG rel8 	D	R	E.ZF E.SF E.OF					V	V		jg		Jump short if greater (ZF=0 and SF=OF).
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index 2ccd8e8..c555448 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -813,7 +813,7 @@
 # jecxz
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
-| jecxz rel8 | `E3 cb [c=0]` | Jump short if ECX register is 0. |
+| jecxz rel8 | `67 E3 cb [c=0]` | Jump short if ECX register is 0. |
 
 # jg
 | Instruction | Encoding | Description |
-- 
2.43.0


From d1ef12fa9306ae4e6a58631c7ead2cb23446e550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 15/39] fix: the 16-bit immediate push is pushw, not pushq

---
 xten0/src/asm/inst.rs            | 22 +++++++++++-----------
 xten1/asm/inst.llrl              | 22 +++++++++++-----------
 xtencg/src/x86.csv               |  2 +-
 xtencg/supported-instructions.md |  2 +-
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/xten0/src/asm/inst.rs b/xten0/src/asm/inst.rs
index 257c5c5..007bd94 100644
--- a/xten0/src/asm/inst.rs
+++ b/xten0/src/asm/inst.rs
@@ -17128,17 +17128,6 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pushq<i8> {
     }
 }
 
-/// pushq imm16: Push imm16 (sign-extended to 64-bits).
-impl<W: io::Write + ?Sized> WriteInst<W> for Pushq<i16> {
-    fn write_inst(&self, w: &mut W) -> io::Result<()> {
-        // 66 68 iw
-        put(w, 0x66)?;
-        put(w, 0x68)?;
-        puts(w, self.0.to_le_bytes())?;
-        Ok(())
-    }
-}
-
 /// pushq imm32: Push imm32 (sign-extended to 64-bits).
 impl<W: io::Write + ?Sized> WriteInst<W> for Pushq<i32> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
@@ -17177,6 +17166,17 @@ impl<W: io::Write + ?Sized> WriteInst<W> for Pushw<Gpr16> {
     }
 }
 
+/// pushw imm16: Push imm16.
+impl<W: io::Write + ?Sized> WriteInst<W> for Pushw<i16> {
+    fn write_inst(&self, w: &mut W) -> io::Result<()> {
+        // 66 68 iw
+        put(w, 0x66)?;
+        put(w, 0x68)?;
+        puts(w, self.0.to_le_bytes())?;
+        Ok(())
+    }
+}
+
 /// pushw m16: Push r/m16.
 impl<W: io::Write + ?Sized> WriteInst<W> for Pushw<Memory> {
     fn write_inst(&self, w: &mut W) -> io::Result<()> {
diff --git a/xten1/asm/inst.llrl b/xten1/asm/inst.llrl
index 32a8273..08e0c23 100644
--- a/xten1/asm/inst.llrl
+++ b/xten1/asm/inst.llrl
@@ -13981,17 +13981,6 @@
         (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
         (ok unit)))))
 
-; pushq imm16: Push imm16 (sign-extended to 64-bits).
-(instance WriteInst.Pushq.I16 (forall W Error) (WriteInst W Error (Pushq I16)) (where (Write W Error))
-  (function (write-inst! w inst)
-    ; 66 68 iw
-    (with1 (pushq: (let op0)) inst
-      (let ()
-        (write-u8! 102 w)!
-        (write-u8! 104 w)!
-        (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
-        (ok unit)))))
-
 ; pushq imm32: Push imm32 (sign-extended to 64-bits).
 (instance WriteInst.Pushq.I32 (forall W Error) (WriteInst W Error (Pushq I32)) (where (Write W Error))
   (function (write-inst! w inst)
@@ -14028,6 +14017,17 @@
         (write-u8! (+ 80 (reg-in-opcode/byte-added-to-opcode rio)) w)!
         (ok unit)))))
 
+; pushw imm16: Push imm16.
+(instance WriteInst.Pushw.I16 (forall W Error) (WriteInst W Error (Pushw I16)) (where (Write W Error))
+  (function (write-inst! w inst)
+    ; 66 68 iw
+    (with1 (pushw: (let op0)) inst
+      (let ()
+        (write-u8! 102 w)!
+        (write-u8! 104 w)!
+        (write-bytes! (array/unsafe-temporary-bytearray op0) w)!
+        (ok unit)))))
+
 ; pushw m16: Push r/m16.
 (instance WriteInst.Pushw.Memory (forall W Error) (WriteInst W Error (Pushw Memory)) (where (Write W Error))
   (function (write-inst! w inst)
diff --git a/xtencg/src/x86.csv b/xtencg/src/x86.csv
index d71e754..07ae06f 100644
--- a/xtencg/src/x86.csv
+++ b/xtencg/src/x86.csv
@@ -1938,7 +1938,7 @@ FF /6	PUSH r/m64	M	R	RSP	RSP				V	NE		pushq		Push r/m64.
 50 +rd	PUSH r32			RSP	RSP				NE	V				Push r32.
 50 +ro	PUSH r64	O	R	RSP	RSP				V	NE		pushq	YES	Push r64.
 6A	PUSHQ imm8	I	R	RSP	RSP				V	V		pushq		Push imm8 (sign-extended to 64-bits).
-68	PUSHQ imm16	I	R	RSP	RSP				V	V		pushq		Push imm16 (sign-extended to 64-bits).
+68	PUSH imm16	I	R	RSP	RSP				V	V		pushw		Push imm16.
 68	PUSHQ imm32	I	R	RSP	RSP				V	V		pushq		Push imm32 (sign-extended to 64-bits).
 0E	PUSH CS			RSP	RSP				I	V				Push CS.
 16	PUSH SS			RSP	RSP				I	V				Push SS.
diff --git a/xtencg/supported-instructions.md b/xtencg/supported-instructions.md
index c555448..f82b5d7 100644
--- a/xtencg/supported-instructions.md
+++ b/xtencg/supported-instructions.md
@@ -2015,7 +2015,6 @@
 | ----------- | -------- | ----------- |
 | pushq r64 | `50 +ro [r=0]` | Push r64. |
 | pushq imm8 | `6A ib [i=0]` | Push imm8 (sign-extended to 64-bits). |
-| pushq imm16 | `66 68 iw [i=0]` | Push imm16 (sign-extended to 64-bits). |
 | pushq imm32 | `68 id [i=0]` | Push imm32 (sign-extended to 64-bits). |
 | pushq r/m64 | `FF /6 [rm=0]` | Push r/m64. |
 
@@ -2023,6 +2022,7 @@
 | Instruction | Encoding | Description |
 | ----------- | -------- | ----------- |
 | pushw r16 | `66 50 +rw [r=0]` | Push r16. |
+| pushw imm16 | `66 68 iw [i=0]` | Push imm16. |
 | pushw r/m16 | `66 FF /6 [rm=0]` | Push r/m16. |
 
 # pxor
-- 
2.43.0


From 0c82a09305860e8575b9bb36a88528070d42c3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 16/39] fix: movq label, imm32 refers to the label from its
 displacement, not its immediate

---
 xten0/src/asm/writer.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 93fece2..53526f0 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -426,7 +426,7 @@ impl_conditional_jmp!(Js::js);
 impl_conditional_jmp!(Jz::jz);
 
 macro_rules! impl_movq_label_o {
-    ($o:tt) => {
+    ($o:tt, $offset:expr) => {
         /// movq Label O
         impl<W> WriteInst<W> for super::inst::Movq<Label, $o>
         where
@@ -434,16 +434,17 @@ macro_rules! impl_movq_label_o {
         {
             fn write_inst(&self, w: &mut W) -> io::Result<()> {
                 w.movq(memory(Rip + 0i32), self.1)?;
-                w.use_relative(-4, self.0, -4, RelocType::PcRel32);
+                w.use_relative($offset, self.0, $offset, RelocType::PcRel32);
                 Ok(())
             }
         }
     };
 }
 
-impl_movq_label_o!(Gpr64);
-impl_movq_label_o!(Xmm);
-impl_movq_label_o!(i32);
+// The displacement is followed by the immediate, if any.
+impl_movq_label_o!(Gpr64, -4);
+impl_movq_label_o!(Xmm, -4);
+impl_movq_label_o!(i32, -8);
 
 macro_rules! impl_movq_o_label {
     ($o:tt) => {
-- 
2.43.0


From beab4b15dca1027660af9388441907f69a4f61b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 17/39] fix: JIT linking reports out-of-range references
 instead of truncating them

---
 xten0/src/jit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index ff21ee5..3b2f39d 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -186,7 +186,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i8::MIN as isize) && (i8::MAX as isize) < value {
+                if value < (i8::MIN as isize) || (i8::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i8, value as i8) };
@@ -195,7 +195,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // S + A - P
                 let src = self.reloc_target_direct(reloc)?;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
@@ -204,7 +204,7 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
                 // <AddressTableEntry> + A - P
                 let src = self.reloc_target_address_table_entry(reloc)? as *const u8;
                 let value = unsafe { src.wrapping_offset(addend).offset_from(dest) };
-                if value < (i32::MIN as isize) && (i32::MAX as isize) < value {
+                if value < (i32::MIN as isize) || (i32::MAX as isize) < value {
                     Err(Error::OffsetOutOfRange(reloc.ty, value))?;
                 }
                 unsafe { ptr::write(dest as *mut i32, value as i32) };
-- 
2.43.0


From e97ce641079330eea0fac6aa125065c8ac4c9e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 18/39] fix: address table references to local symbols refer to
 the symbols of the object itself

---
 xten0/src/jit.rs               | 12 ++++++++----
 xten0/src/jit/address_table.rs |  5 +++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/xten0/src/jit.rs b/xten0/src/jit.rs
index 3b2f39d..6a3d2eb 100644
--- a/xten0/src/jit.rs
+++ b/xten0/src/jit.rs
@@ -237,10 +237,14 @@ impl<'a, R: SymbolResolver> Linker<'a, R> {
         reloc: &'a Reloc,
     ) -> Result<*const *const u8, Error> {
         match reloc.target {
-            RelocTarget::Symbol(ref symbol) => self
-                .address_table
-                .prepare(symbol, || self.symbol_table.resolve(symbol))?
-                .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned())),
+            RelocTarget::Symbol(ref symbol) => {
+                if let Some(ptr) = self.local_symbols.get(symbol.as_str()) {
+                    return Ok(self.address_table.put(*ptr)?);
+                }
+                self.address_table
+                    .prepare(symbol, || self.symbol_table.resolve(symbol))?
+                    .ok_or_else(|| Error::UndefinedSymbol(symbol.to_owned()))
+            }
             RelocTarget::Section(_) => Err(Error::UnsupportedSectionRelocation(reloc.ty)),
         }
     }
diff --git a/xten0/src/jit/address_table.rs b/xten0/src/jit/address_table.rs
index 8129c76..a7a385d 100644
--- a/xten0/src/jit/address_table.rs
+++ b/xten0/src/jit/address_table.rs
@@ -16,6 +16,11 @@ impl AddressTable {
         }
     }
 
+    /// Add an entry that is not shared by symbol name.
+    pub fn put(&mut self, ptr: *const u8) -> Result<*const *const u8, Error> {
+        self.payload.put(ptr)
+    }
+
     pub fn prepare(
         &mut self,
         symbol: &str,
-- 
2.43.0


From 92fd5d4999537761f4e2b879b66277749ff6f854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 19/39] fix: report address table references to labels without
 names instead of misdirecting them

---
 xten0/src/asm/writer.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xten0/src/asm/writer.rs b/xten0/src/asm/writer.rs
index 53526f0..1e0b116 100644
--- a/xten0/src/asm/writer.rs
+++ b/xten0/src/asm/writer.rs
@@ -123,6 +123,14 @@ impl Writer {
                 offset = 0;
             }
 
+            if matches!(
+                (&target, u.ty),
+                (Some(RelocTarget::Section(_)), RelocType::PcRelToAddressTable32)
+            ) {
+                // Address table entries are per symbol.
+                target = None;
+            }
+
             if let Some(target) = target {
                 relocs.push(Reloc::new(u.location, target, offset + u.addend, u.ty));
             } else {
-- 
2.43.0


From cb5ecb84340aa0c8319c0491441a9f637aeb7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 20/39] fix: floating point comparisons with NaN are false on
 the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index ae754a5..3a17056 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -972,17 +972,22 @@ impl<'a> FunctionCodegen<'a> {
             }
             FEq | FLt | FLe | FGt | FGe => {
                 self.pop_eightbyte(Xmm1)?; // left operand
-                match b_layout.size {
-                    4 => self.w.comiss(Xmm1, Xmm0)?,
-                    8 => self.w.comisd(Xmm1, Xmm0)?,
-                    s => unsupported_op!(op, size: s),
+                // The conditions used below must not hold if the operands are unordered.
+                match (op, b_layout.size) {
+                    (FLt | FLe, 4) => self.w.comiss(Xmm0, Xmm1)?,
+                    (FLt | FLe, 8) => self.w.comisd(Xmm0, Xmm1)?,
+                    (_, 4) => self.w.comiss(Xmm1, Xmm0)?,
+                    (_, 8) => self.w.comisd(Xmm1, Xmm0)?,
+                    (_, s) => unsupported_op!(op, size: s),
                 }
                 match op {
-                    FEq => self.w.sete(Al)?,
-                    FLt => self.w.setb(Al)?,
-                    FLe => self.w.setbe(Al)?,
-                    FGt => self.w.seta(Al)?,
-                    FGe => self.w.setae(Al)?,
+                    FEq => {
+                        self.w.sete(Al)?;
+                        self.w.setnp(Cl)?;
+                        self.w.andb(Al, Cl)?;
+                    }
+                    FLt | FGt => self.w.seta(Al)?,
+                    FLe | FGe => self.w.setae(Al)?,
                     _ => panic!(),
                 }
                 Some(Layout::integer(1))
-- 
2.43.0


From 67202dc0566a49fa7e281d9ab8e54d25979f2243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:27 +0000
Subject: [PATCH 21/39] fix: convert floating point numbers of 2^63 and above
 to U64 on the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 43 +++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index 3a17056..c1173e7 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -795,13 +795,50 @@ impl<'a> FunctionCodegen<'a> {
                     (FToS(_) | FToU(_), 8, 1 | 2) | (FToS(_), 8, 4) => {
                         self.w.cvttsd2si(Eax, Xmm0)?;
                     }
-                    (FToU(_), 4, 4) | (FToS(_) | FToU(_), 4, 8) => {
+                    (FToU(_), 4, 4) | (FToS(_), 4, 8) => {
                         self.w.cvttss2si(Rax, Xmm0)?;
                     }
-                    (FToU(_), 8, 4) | (FToS(_) | FToU(_), 8, 8) => {
-                        // FIXME: More precise convertion for (FToS(_) | FToU(_), 8, 8)
+                    (FToU(_), 8, 4) | (FToS(_), 8, 8) => {
                         self.w.cvttsd2si(Rax, Xmm0)?;
                     }
+                    (FToU(_), s @ (4 | 8), 8) => {
+                        let large_label = self.w.issue_label();
+                        let cont_label = self.w.issue_label();
+                        // Xmm1 <- 2^63
+                        match s {
+                            4 => self.w.movq(Rcx, (2f32.powi(63)).to_bits() as i64)?,
+                            8 => self.w.movq(Rcx, (2f64.powi(63)).to_bits() as i64)?,
+                            _ => panic!(),
+                        }
+                        self.w.movq(Xmm1, Rcx)?;
+                        match s {
+                            4 => self.w.comiss(Xmm0, Xmm1)?,
+                            8 => self.w.comisd(Xmm0, Xmm1)?,
+                            _ => panic!(),
+                        }
+                        self.w.jae(Short(large_label))?;
+                        match s {
+                            4 => self.w.cvttss2si(Rax, Xmm0)?,
+                            8 => self.w.cvttsd2si(Rax, Xmm0)?,
+                            _ => panic!(),
+                        }
+                        self.w.jmpq(Short(cont_label))?;
+                        self.w.define(large_label, false);
+                        match s {
+                            4 => {
+                                self.w.subss(Xmm0, Xmm1)?;
+                                self.w.cvttss2si(Rax, Xmm0)?;
+                            }
+                            8 => {
+                                self.w.subsd(Xmm0, Xmm1)?;
+                                self.w.cvttsd2si(Rax, Xmm0)?;
+                            }
+                            _ => panic!(),
+                        }
+                        self.w.movq(Rcx, i64::MIN)?;
+                        self.w.xorq(Rax, Rcx)?;
+                        self.w.define(cont_label, false);
+                    }
                     (FTrunc(_), 8, 4) => self.w.cvtsd2ss(Xmm0, Xmm0)?,
                     (FExt(_), 4, 8) => self.w.cvtss2sd(Xmm0, Xmm0)?,
                     (_, from, to) => unsupported_op!(op, from: from, to: to),
-- 
2.43.0


From 811e7d926ed6391dfb5095acd5e7269c254b6620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 22/39] fix: load modules whose name contains a dot from the
 file of that name

---
 llrl0/src/source/loader.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/llrl0/src/source/loader.rs b/llrl0/src/source/loader.rs
index fc8920c..9f48a24 100644
--- a/llrl0/src/source/loader.rs
+++ b/llrl0/src/source/loader.rs
@@ -78,15 +78,15 @@ impl LoadablePackage {
             Self::FileSystem(fs_path) => {
                 let fs_path = {
                     let mut fs_path = fs_path.clone();
-                    match path.module.raw_parts().as_slice() {
-                        [] => fs_path.push("prelude"),
-                        parts => {
-                            for part in parts {
-                                fs_path.push(part);
-                            }
-                        }
+                    let (last, parents) = match path.module.raw_parts().split_last() {
+                        Some((last, parents)) => (last.as_str(), parents),
+                        None => ("prelude", [].as_slice()),
+                    };
+                    for part in parents {
+                        fs_path.push(part);
                     }
-                    fs_path.set_extension(SOURCE_CODE_EXTENSION);
+                    // The name of a module may contain dots, so this cannot be `set_extension`.
+                    fs_path.push(format!("{}.{}", last, SOURCE_CODE_EXTENSION));
                     fs_path
                 };
 
-- 
2.43.0


From 3c31c19735b88ae35c1adb77c220fae8d08d5344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 23/39] fix: restore the stack depth after loop bodies that
 never return on the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index c1173e7..f0bd1bc 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -584,11 +584,13 @@ impl<'a> FunctionCodegen<'a> {
         self.w.cmpb(Al, 0i8)?;
         self.w.je(cont_label)?;
 
+        let depth = self.stack_frame.depth;
         if let Some(l) = self.eval(body)? {
             self.discard(&l)?;
             self.w.jmpq(init_label)?;
         }
 
+        self.stack_frame.depth = depth;
         self.w.define(cont_label, false);
         Ok(Some(Layout::unit()))
     }
-- 
2.43.0


From 4ea0dad3427736650cdd4c6115b9053f15da1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:59 +0000
Subject: [PATCH 24/39] fix: read struct elements of another register class
 through the stack on the chibi backend

---
 llrl0/src/backend/chibi/codegen.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/llrl0/src/backend/chibi/codegen.rs b/llrl0/src/backend/chibi/codegen.rs
index f0bd1bc..d6450fb 100644
--- a/llrl0/src/backend/chibi/codegen.rs
+++ b/llrl0/src/backend/chibi/codegen.rs
@@ -642,7 +642,11 @@ impl<'a> FunctionCodegen<'a> {
             }
             StructElem(_, i) => {
                 let (offset, layout) = a_layout.composite.as_ref().unwrap().elems[*i].clone();
-                if offset != 0 || a_layout.num_eightbytes() > layout.num_eightbytes() {
+                if offset != 0
+                    || a_layout.num_eightbytes() > layout.num_eightbytes()
+                    || !(a_layout.eightbytes().map(|e| e.class))
+                        .eq(layout.eightbytes().map(|e| e.class))
+                {
                     let diff = (a_layout.num_eightbytes() - layout.num_eightbytes()) * 8;
                     self.push(&a_layout)?;
                     self.slide_in_stack(offset, diff, &layout)?;
-- 
2.43.0


From 59ff9e948fce337e78bef54b40b95f7dd90b665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:35 +0000
Subject: [PATCH 25/39] fix: exit with failure when the program run is killed
 by a signal

---
 llrl0/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/llrl0/src/main.rs b/llrl0/src/main.rs
index a7107a6..f4cf1b0 100644
--- a/llrl0/src/main.rs
+++ b/llrl0/src/main.rs
@@ -1,14 +1,16 @@
 use llrl::prelude::*;
 use std::env;
 use std::io;
+use std::os::unix::process::ExitStatusExt as _;
 use std::path;
 use std::process::{exit, ExitStatus};
 
 fn main() {
     match run_pipeline() {
         Ok(status) => {
-            if let Some(code) = status.and_then(|s| s.code()) {
-                exit(code);
+            if let Some(status) = status {
+                // A program killed by a signal has no exit code, report it in the same way as shells
+                exit(status.code().unwrap_or_else(|| 128 + status.signal().unwrap_or(0)));
             }
         }
         Err(e) => {
-- 
2.43.0


From 7d48f8af58e6242b7256a50d338b61a503c472fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 26/39] fix: leave room for the sign of the least i64 in radix
 2

---
 rt/rt.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index b42251a..28d76d6 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -316,22 +316,22 @@ static char digit_to_char(uint8_t digit) {
 
 rt_string llrt_i64_to_string(uint8_t radix, int64_t value) {
   if (value == 0) return zero_string;
-  char buf[64];
+  char buf[65]; // sign + 64 digits
   int64_t sign = value < 0 ? -1 : 1;
   size_t len = 0;
   while (value != 0) {
-    buf[63 - len] = digit_to_char((uint8_t)((value % radix) * sign));
+    buf[64 - len] = digit_to_char((uint8_t)((value % radix) * sign));
     value /= radix;
     len++;
   }
   if (sign < 0) {
-    buf[63 - len] = '-';
+    buf[64 - len] = '-';
     len++;
   }
   rt_string ret;
   ret.len = len;
   ret.ptr = GC_malloc(ret.len);
-  memcpy(ret.ptr, &buf[64 - len], ret.len);
+  memcpy(ret.ptr, &buf[65 - len], ret.len);
   return ret;
 }
 
-- 
2.43.0


From db904741f9b090f23e808cf34e4eda24ffb413b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 27/39] fix: print floating point numbers with as many digits
 as they need

---
 rt/rt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt/rt.c b/rt/rt.c
index 28d76d6..adb66fa 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -291,6 +291,7 @@ rt_string llrt_string_concat(rt_string a, rt_string b) {
 rt_string llrt_f32_to_string(float a) {
   char buf[64];
   sprintf(buf, "%.8g", a);
+  if (strtof(buf, NULL) != a) sprintf(buf, "%.9g", a); // 9 digits are always enough
   rt_string ret;
   ret.len = strlen(buf);
   ret.ptr = GC_malloc(ret.len);
@@ -301,6 +302,7 @@ rt_string llrt_f32_to_string(float a) {
 rt_string llrt_f64_to_string(double a) {
   char buf[64];
   sprintf(buf, "%.16g", a);
+  if (strtod(buf, NULL) != a) sprintf(buf, "%.17g", a); // 17 digits are always enough
   rt_string ret;
   ret.len = strlen(buf);
   ret.ptr = GC_malloc(ret.len);
-- 
2.43.0


From fb137968b9dc5167e23f83212ed832555dd3df85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 28/39] fix: parse subnormal floating point numbers

---
 rt/rt.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index adb66fa..6cdc355 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -413,7 +413,8 @@ to_f32 llrt_string_to_f32(rt_string s) {
   errno = 0;
   char *end = NULL;
   float value = strtof(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f32){.success = 0};
+  // ERANGE is also set for subnormal numbers
+  if ((errno != 0 && (value == 0 || isinf(value))) || end != buf + s.len) return (to_f32){.success = 0};
   return (to_f32){.success = 1, .value = value};
 }
 
@@ -430,7 +431,8 @@ to_f64 llrt_string_to_f64(rt_string s) {
   errno = 0;
   char *end = NULL;
   double value = strtod(buf, &end);
-  if (errno != 0 || end != buf + s.len) return (to_f64){.success = 0};
+  // ERANGE is also set for subnormal numbers
+  if ((errno != 0 && (value == 0 || isinf(value))) || end != buf + s.len) return (to_f64){.success = 0};
   return (to_f64){.success = 1, .value = value};
 }
 
-- 
2.43.0


From 76be06ad8f5034db95a48f5207865cadc055196b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 29/39] fix: parse floating point numbers of any length

---
 rt/rt.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 6cdc355..e1dab70 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -406,8 +406,9 @@ to_u64 llrt_string_to_u64(uint8_t radix, rt_string s) {
 }
 
 to_f32 llrt_string_to_f32(rt_string s) {
-  if (s.len == 0 || 64 <= s.len) return (to_f32){.success = 0};
-  char buf[64];
+  if (s.len == 0) return (to_f32){.success = 0};
+  char small[64];
+  char *buf = s.len < sizeof(small) ? small : GC_malloc(s.len + 1);
   memcpy(buf, s.ptr, s.len);
   buf[s.len] = 0; // NULL-terminated
   errno = 0;
@@ -419,13 +420,14 @@ to_f32 llrt_string_to_f32(rt_string s) {
 }
 
 to_f64 llrt_string_to_f64(rt_string s) {
-  if (s.len == 0 || 64 <= s.len) return (to_f64){.success = 0};
+  if (s.len == 0) return (to_f64){.success = 0};
   if (s.len >= 2 &&
       s.ptr[0] == '0' &&
       (('0' <= s.ptr[1] && s.ptr[1] <= '9') || s.ptr[1] == 'x' || s.ptr[1] == 'X')) {
     return (to_f64){.success = 0};
   }
-  char buf[64];
+  char small[64];
+  char *buf = s.len < sizeof(small) ? small : GC_malloc(s.len + 1);
   memcpy(buf, s.ptr, s.len);
   buf[s.len] = 0; // NULL-terminated
   errno = 0;
-- 
2.43.0


From fa7d11b78be776137904448a14eea061ee95fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 30/39] fix: refuse whitespace before floating point numbers

---
 rt/rt.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index e1dab70..77ca329 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -1,6 +1,7 @@
 #define _GNU_SOURCE
 
 #include <rt.h>
+#include <ctype.h>
 #include <stdlib.h>
 #include <string.h>
 #include <math.h>
@@ -406,7 +407,7 @@ to_u64 llrt_string_to_u64(uint8_t radix, rt_string s) {
 }
 
 to_f32 llrt_string_to_f32(rt_string s) {
-  if (s.len == 0) return (to_f32){.success = 0};
+  if (s.len == 0 || isspace((unsigned char)s.ptr[0])) return (to_f32){.success = 0};
   char small[64];
   char *buf = s.len < sizeof(small) ? small : GC_malloc(s.len + 1);
   memcpy(buf, s.ptr, s.len);
@@ -420,7 +421,7 @@ to_f32 llrt_string_to_f32(rt_string s) {
 }
 
 to_f64 llrt_string_to_f64(rt_string s) {
-  if (s.len == 0) return (to_f64){.success = 0};
+  if (s.len == 0 || isspace((unsigned char)s.ptr[0])) return (to_f64){.success = 0};
   if (s.len >= 2 &&
       s.ptr[0] == '0' &&
       (('0' <= s.ptr[1] && s.ptr[1] <= '9') || s.ptr[1] == 'x' || s.ptr[1] == 'X')) {
-- 
2.43.0


From 62ca755154a9cdf17a712fe66fadde8fc89b2389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 31/39] fix: keep reading when a reader returns fewer bytes
 than asked for

---
 std/rw.llrl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/std/rw.llrl b/std/rw.llrl
index 6320336..92e9db6 100644
--- a/std/rw.llrl
+++ b/std/rw.llrl
@@ -63,9 +63,12 @@
   (ok ~total-len))
 
 (function (read-bytes! bytes r) {(forall R Error) (-> (Array U8) R (Result unit Error)) (where (Read R Error) (UnexpectedEof Error))}
-  (if (eq? (read-into-buf! bytes r)! (array/length bytes))
-    (ok unit)
-    (err unexpected-eof)))
+  @let1 rest (ref bytes)
+  (while (not (array/empty? ~rest)) @begin
+    @let1 len (read-into-buf! ~rest r)!
+    (when (eq? len 0) (return (err unexpected-eof)))
+    (set! rest (array/skip len ~rest)))
+  (ok unit))
 
 (class (InvalidData E)
   (function invalid-data {E}))
-- 
2.43.0


From 8ad92d230fc2cb581e26cfa6f1b17202f155d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 32/39] fix: keep relative paths relative when joining them to
 the empty path

---
 std/io/path.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 204eaf2..1f8c96d 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -137,7 +137,7 @@
 
 (function (path/join p q) {(-> String String String)}
   (cond
-    [(path/absolute? q) q]
+    [(or (string/empty? p) (path/absolute? q)) q]
     [(= p "/") (string p q)]
     [else (string (string/take (last-component-end p) p) #\/ q)]))
 
-- 
2.43.0


From c55dbb8fa858146fb315bac1ff64fe86f9c5271b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 33/39] fix: canonicalize the root directory to /

---
 std/io/path.llrl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 1f8c96d..686de4d 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -133,7 +133,9 @@
     buf)
 
 (function (canonicalize/complete buf) {(-> (Vector String) String)}
-  (string/join "/" (it/chain (iterator/only "") buf)))
+  (if (vector/empty? buf)
+    "/"
+    (string/join "/" (it/chain (iterator/only "") buf))))
 
 (function (path/join p q) {(-> String String String)}
   (cond
-- 
2.43.0


From 39635b2da18bad6a69347a8ff6e5dcec2a6f0353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 34/39] fix: do not take the parent directory for a name with
 an extension

---
 std/io/path.llrl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/std/io/path.llrl b/std/io/path.llrl
index 686de4d..3e741bd 100644
--- a/std/io/path.llrl
+++ b/std/io/path.llrl
@@ -169,7 +169,7 @@
 ;         ^   ^  ^
 (function (last-component-start-dot-end p) {(-> String (: U64 U64 U64))}
   @with1 (: (let l) (let r)) (last-component-start-end p)
-  @let1 e (ref r)
+  @let1 e (ref (if (eq? (string/substring l r p) "..") l r)) ; the parent directory has no extension
   (while (and (< l ~e) (ne? (string/byte-at (- ~e 1) p) (conv (char/unicode-scalar #\.))))
     (set! e (- ~e 1)))
   (: l ~e r))
-- 
2.43.0


From ee7ec6576f54ecb7feaf8c4d20a2a16be5389ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 35/39] fix: report errors of closing a file from with-file!

---
 std/io/file.llrl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/std/io/file.llrl b/std/io/file.llrl
index caf9ab9..6eabc77 100644
--- a/std/io/file.llrl
+++ b/std/io/file.llrl
@@ -4,6 +4,7 @@
 (import "std/integer" _.I32 _.U64)
 (import "std/memory" Ptr ptr:null ptr/cast _.Ptr)
 (import "std/ref" Ref ref _.Ref)
+(import "std/result" result/and)
 (import "std/array" Array array/_)
 (import "std/rw" Read Write)
 (import "std/string" string/c-compatible-ptr)
@@ -81,8 +82,10 @@
 (function (with-file! pathname mode f) {(forall A) (-> String String (-> File (Result A IoError)) (Result A IoError))}
   @let1 handle (file/open! pathname mode)!
   @let1 ret (f handle)
-  (ignore (file/close! handle))
-  ret)
+  @let1 close-result (file/close! handle)
+  (match ret
+    [(ok _) (result/and close-result ret)]
+    [(err _) ret]))
 
 (data <File>)
 (c-function <fopen> {(-> (Ptr U8) (Ptr U8) (Ptr <File>))} "fopen")
-- 
2.43.0


From 8fe962fbcb0d8e844ac401700b787212163ecc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 36/39] fix: do not follow symbolic links when removing
 recursively

---
 std/io.llrl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/std/io.llrl b/std/io.llrl
index 2d13321..03cef35 100644
--- a/std/io.llrl
+++ b/std/io.llrl
@@ -2,7 +2,9 @@
 
 (import "std/prelude/stage-1" _)
 (import "std/iterator" _)
+(import "std/integer" _.I64)
 (import "std/memory" Ptr)
+(import "std/array" array/_)
 (import "std/string" string/c-compatible-ptr)
 (import "std/string-writer" string-writer)
 (import "std/io/error" _)
@@ -71,8 +73,9 @@
     [0 (ok unit)]
     [_ (err (io-error/from-current-errno))]))
 
-; Remove the all files and directories recursively.
+; Remove the all files and directories recursively. Symbolic links are removed without following them.
 (function (remove-all! pathname) {(-> String (Result unit IoError))}
+  (when (symbolic-link? pathname) (return (remove! pathname)))
   (when-match1 (ok (let handle)) (directory/open! pathname)
     @let1 result (remove-directory-contents! pathname handle)
     (ignore (directory/close! handle))
@@ -84,4 +87,9 @@
     (remove-all! (path pathname entry))!)
   (ok unit))
 
+(function (symbolic-link? pathname) {(-> String Bool)}
+  @let1 tmp (array/unsafe-temporary-bytearray 0 {U8})
+  (<= 0 (<readlink> (string/c-compatible-ptr pathname) (array/ptr tmp) (array/length tmp))))
+
 (c-function <remove> {(-> (Ptr U8) I32)} "remove")
+(c-function <readlink> {(-> (Ptr U8) (Ptr U8) U64 I64)} "readlink")
-- 
2.43.0


From e08ed4cb29f0dcd8fd3487374d2f93c18ded3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 37/39] fix: report errors of reading a directory

---
 rt/rt.c               | 1 +
 std/io/directory.llrl | 4 +++-
 std/io/error.llrl     | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/rt/rt.c b/rt/rt.c
index 77ca329..37b4d6e 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -440,6 +440,7 @@ to_f64 llrt_string_to_f64(rt_string s) {
 }
 
 rt_string llrt_readdir(DIR *dir) {
+  errno = 0; // tells the end of the directory from an error
   struct dirent *ent = readdir(dir);
   if (ent == NULL) return (rt_string){.len = 0, .ptr = NULL};
   rt_string ret;
diff --git a/std/io/directory.llrl b/std/io/directory.llrl
index 37422ec..cc5c0e7 100644
--- a/std/io/directory.llrl
+++ b/std/io/directory.llrl
@@ -27,7 +27,9 @@
     (err io-error:closed)
     (let1 entry (<readdir> ~handle)
       (match entry
-        ["" (ok none)]
+        ["" (match (io-error/from-current-errno?)
+          [(some (let e)) (err e)]
+          [none (ok none)])]
         ["." (directory/next! dir)]
         [".." (directory/next! dir)]
         [(let s) (ok (some s))]))))
diff --git a/std/io/error.llrl b/std/io/error.llrl
index 1e74973..d7aef57 100644
--- a/std/io/error.llrl
+++ b/std/io/error.llrl
@@ -28,6 +28,11 @@
 (function (io-error/from-current-errno) {(-> IoError)}
   (io-error/from-errno <current-errno>))
 
+(function (io-error/from-current-errno?) {(-> (Option IoError))}
+  (match <current-errno>
+    [0 none]
+    [(let errno) (some (io-error/from-errno errno))]))
+
 (c-function <current-errno> {I32} "llrt_current_errno")
 
 (function (io-error/from-errno errno) {(-> I32 IoError)}
-- 
2.43.0


From 84086f207c7c800443895441419e04587e29d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 38/39] fix: do not write the buffered output of the parent
 when a process fails to start

---
 rt/rt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt/rt.c b/rt/rt.c
index 37b4d6e..f4e8731 100644
--- a/rt/rt.c
+++ b/rt/rt.c
@@ -142,7 +142,7 @@ rt_process llrt_spawn_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // the buffered output is the parent's to write
   }
 
   // fork parent
@@ -206,7 +206,7 @@ rt_process llrt_execute_process(const char *name, char *const argv[]) {
     char buf[4];
     *(int32_t *)buf = errno;
     write(init[1], buf, 4); // FIXME: Ensure that writing succeeds atomically
-    exit(1);
+    _exit(1); // the buffered output is the parent's to write
   }
 
   // fork parent
-- 
2.43.0


From f6743a465fb9ab9ba06cca04c54ce178e2fa9253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 39/39] fix: compare integer literals of floating-point
 patterns as floating-point numbers

---
 llrl0/src/lowering/branch_expander.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/llrl0/src/lowering/branch_expander.rs b/llrl0/src/lowering/branch_expander.rs
index e1b9b15..e0b298f 100644
--- a/llrl0/src/lowering/branch_expander.rs
+++ b/llrl0/src/lowering/branch_expander.rs
@@ -380,6 +380,18 @@ impl PatPart {
     }
 
     fn const_(&self, c: Const) -> Self {
+        // An integer literal can be typed as a floating-point number.
+        let c = match c {
+            Const::Integer(ty @ (Ct::F32 | Ct::F64), signed, value) => {
+                let value = if signed {
+                    value as i64 as f64
+                } else {
+                    value as f64
+                };
+                Const::FPNumber(ty, value.into())
+            }
+            c => c,
+        };
         Self::Const(c, Box::new(self.clone()))
     }
 
-- 
2.43.0

