From 12055264bdc9b296fa0a13092bf8ef30d6d117b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:12 +0000
Subject: [PATCH 01/21] fix: compare rust::Str and rust::String bytewise as
 unsigned, as Rust does

---
 src/cxx.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cxx.cc b/src/cxx.cc
index 45d9aac..e6e5b8b 100644
--- a/src/cxx.cc
+++ b/src/cxx.cc
@@ -357,8 +357,11 @@ bool Str::operator==(const Str &rhs) const noexcept {
 bool Str::operator!=(const Str &rhs) const noexcept { return !(*this == rhs); }
 
 bool Str::operator<(const Str &rhs) const noexcept {
-  return std::lexicographical_compare(this->begin(), this->end(), rhs.begin(),
-                                      rhs.end());
+  // Rust compares strings bytewise as unsigned, while char may be signed.
+  return std::lexicographical_compare(
+      this->begin(), this->end(), rhs.begin(), rhs.end(), [](char l, char r) {
+        return static_cast<unsigned char>(l) < static_cast<unsigned char>(r);
+      });
 }
 
 bool Str::operator<=(const Str &rhs) const noexcept {
@@ -374,7 +377,8 @@ bool Str::operator<=(const Str &rhs) const noexcept {
   } else if (riter == rend) {
     return false; // rhs is a prefix of *this
   } else {
-    return *liter <= *riter;
+    return static_cast<unsigned char>(*liter) <=
+           static_cast<unsigned char>(*riter);
   }
 }
 
-- 
2.43.0


From 4168575f799818328057c8d48645905cefefcac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 02/21] fix: keep rust::Vec valid when copying an element
 throws during copy assignment

---
 include/cxx.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index 4e261a3..aaf0c1c 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -898,8 +898,8 @@ Vec<T> &Vec<T>::operator=(Vec &&other) & noexcept {
 template <typename T>
 Vec<T> &Vec<T>::operator=(const Vec &other) & {
   if (this != &other) {
-    this->drop();
-    new (this) Vec(other);
+    // Copying an element may throw, so this must stay valid until it is done.
+    *this = Vec(other);
   }
   return *this;
 }
-- 
2.43.0


From 17409e72d06a831c15166ebfabe0941272e0d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:56 +0000
Subject: [PATCH 03/21] fix: rust::Vec push_back and emplace_back of an element
 of the same Vec

---
 include/cxx.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/cxx.h b/include/cxx.h
index aaf0c1c..71f1c3f 100644
--- a/include/cxx.h
+++ b/include/cxx.h
@@ -987,10 +987,18 @@ template <typename T>
 template <typename... Args>
 void Vec<T>::emplace_back(Args &&...args) {
   auto size = this->size();
-  this->reserve_total(size + 1);
-  ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
-                               size * size_of<T>()))
-      T(std::forward<Args>(args)...);
+  if (size == this->capacity()) {
+    // The arguments may refer to elements of this Vec, so the new element must
+    // be constructed before the existing ones are relocated.
+    T value(std::forward<Args>(args)...);
+    this->reserve_total(size + 1);
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>())) T(std::move(value));
+  } else {
+    ::new (reinterpret_cast<T *>(reinterpret_cast<char *>(this->data()) +
+                                 size * size_of<T>()))
+        T(std::forward<Args>(args)...);
+  }
   this->set_len(size + 1);
 }
 
-- 
2.43.0


From f8cba3489c9e822528817a69c0fd9d8714c0b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:19 +0000
Subject: [PATCH 04/21] fix: declare the std::hash specialization of a
 derive(Hash) struct in the generated header

---
 gen/src/write.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 8833f74..5a14c40 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -171,10 +171,10 @@ fn write_functions<'a>(out: &mut OutFile<'a>, apis: &'a [Api]) {
                 _ => {}
             }
         }
-
-        write_std_specializations(out, apis);
     }
 
+    write_std_specializations(out, apis);
+
     for api in apis {
         match api {
             Api::Struct(strct) => write_struct_operators(out, strct),
@@ -199,20 +199,32 @@ fn write_std_specializations(out: &mut OutFile, apis: &[Api]) {
                 out.include.cstddef = true;
                 out.include.functional = true;
                 let qualified = strct.name.to_fully_qualified();
+                let guard = format!("CXXBRIDGE1_HASH_{}", strct.name.to_symbol());
+                writeln!(out, "#ifndef {}", guard);
+                writeln!(out, "#define {}", guard);
                 writeln!(out, "template <> struct hash<{}> {{", qualified);
                 writeln!(
                     out,
-                    "  ::std::size_t operator()({} const &self) const noexcept {{",
+                    "  ::std::size_t operator()({} const &self) const noexcept;",
                     qualified,
                 );
+                writeln!(out, "}};");
+                writeln!(out, "#endif // {}", guard);
+                if out.header {
+                    continue;
+                }
+                writeln!(
+                    out,
+                    "::std::size_t hash<{}>::operator()({} const &self) const noexcept {{",
+                    qualified, qualified,
+                );
                 let link_name = mangle::operator(&strct.name, "hash");
-                write!(out, "    return ::");
+                write!(out, "  return ::");
                 for name in &strct.name.namespace {
                     write!(out, "{}::", name);
                 }
                 writeln!(out, "{}(self);", link_name);
-                writeln!(out, "  }}");
-                writeln!(out, "}};");
+                writeln!(out, "}}");
             }
         }
     }
-- 
2.43.0


From 49d15d72b0ca78d66f9e7d1d0aae3172bedcc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:41 +0000
Subject: [PATCH 05/21] fix: do not destroy a let_cxx_string whose initializer
 never produced a value

---
 src/cxx_string.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cxx_string.rs b/src/cxx_string.rs
index c58d8d8..ca2c4af 100644
--- a/src/cxx_string.rs
+++ b/src/cxx_string.rs
@@ -299,6 +299,8 @@ pub struct StackString {
     // Static assertions in cxx.cc validate that this is large enough and
     // aligned enough.
     space: MaybeUninit<[usize; 8]>,
+    // False if evaluating the initializer diverged before `init` was reached.
+    initialized: bool,
 }
 
 #[allow(missing_docs)]
@@ -306,6 +308,7 @@ impl StackString {
     pub fn new() -> Self {
         StackString {
             space: MaybeUninit::uninit(),
+            initialized: false,
         }
     }
 
@@ -314,6 +317,7 @@ impl StackString {
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_init(this, value.as_ptr(), value.len());
+            self.initialized = true;
             Pin::new_unchecked(&mut *this.as_mut_ptr())
         }
     }
@@ -321,6 +325,9 @@ impl StackString {
 
 impl Drop for StackString {
     fn drop(&mut self) {
+        if !self.initialized {
+            return;
+        }
         unsafe {
             let this = &mut *self.space.as_mut_ptr().cast::<MaybeUninit<CxxString>>();
             string_destroy(this);
-- 
2.43.0


From c546e485c859198f85c153f7233a126c431e0431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:16 +0000
Subject: [PATCH 06/21] fix: keep the unsafe of a function pointer argument in
 the generated Rust signature

---
 syntax/tokens.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/syntax/tokens.rs b/syntax/tokens.rs
index fea8515..437d5ae 100644
--- a/syntax/tokens.rs
+++ b/syntax/tokens.rs
@@ -255,7 +255,7 @@ impl ToTokens for Signature {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let Signature {
             asyncness: _,
-            unsafety: _,
+            unsafety,
             fn_token,
             generics: _,
             receiver: _,
@@ -265,6 +265,7 @@ impl ToTokens for Signature {
             paren_token,
             throws_tokens,
         } = self;
+        unsafety.to_tokens(tokens);
         fn_token.to_tokens(tokens);
         paren_token.surround(tokens, |tokens| {
             args.to_tokens(tokens);
-- 
2.43.0


From 5fc10141a6622942e9221412c0fd0c522828d1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 07/21] fix: emit a valid C++ expression for a discriminant
 equal to i64::MIN

---
 gen/src/write.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 5a14c40..5063fc0 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -10,8 +10,8 @@ use crate::syntax::set::UnorderedSet;
 use crate::syntax::symbol::{self, Symbol};
 use crate::syntax::trivial::{self, TrivialReason};
 use crate::syntax::{
-    derive, mangle, Api, Doc, Enum, EnumRepr, ExternFn, ExternType, Pair, Signature, Struct, Trait,
-    Type, TypeAlias, Types, Var,
+    derive, mangle, Api, Discriminant, Doc, Enum, EnumRepr, ExternFn, ExternType, Pair, Signature,
+    Struct, Trait, Type, TypeAlias, Types, Var,
 };
 use proc_macro2::Ident;
 
@@ -450,7 +450,9 @@ fn write_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     writeln!(out, " {{");
     for variant in &enm.variants {
         write_doc(out, "  ", &variant.doc);
-        writeln!(out, "  {} = {},", variant.name.cxx, variant.discriminant);
+        write!(out, "  {} = ", variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ",");
     }
     writeln!(out, "}};");
     writeln!(out, "#endif // {}", guard);
@@ -475,11 +477,20 @@ fn check_enum<'a>(out: &mut OutFile<'a>, enm: &'a Enum) {
     for variant in &enm.variants {
         write!(out, "static_assert(static_cast<");
         write_atom(out, repr);
-        writeln!(
-            out,
-            ">({}::{}) == {}, \"disagrees with the value in #[cxx::bridge]\");",
-            enm.name.cxx, variant.name.cxx, variant.discriminant,
-        );
+        write!(out, ">({}::{}) == ", enm.name.cxx, variant.name.cxx);
+        write_discriminant(out, variant.discriminant);
+        writeln!(out, ", \"disagrees with the value in #[cxx::bridge]\");");
+    }
+}
+
+fn write_discriminant(out: &mut OutFile, discriminant: Discriminant) {
+    // There is no C++ literal for i64::MIN. The expression -9223372036854775808
+    // is the negation of a literal which is out of range of every signed type.
+    let literal = discriminant.to_string();
+    if literal == i64::MIN.to_string() {
+        write!(out, "-{} - 1", i64::MAX);
+    } else {
+        write!(out, "{}", literal);
     }
 }
 
-- 
2.43.0


From 9836510c6ff13baf8cc7fd82589658fe18eee53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:36 +0000
Subject: [PATCH 08/21] fix: treat a -0 enum discriminant as zero

---
 syntax/discriminant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/syntax/discriminant.rs b/syntax/discriminant.rs
index a8400aa..577b46f 100644
--- a/syntax/discriminant.rs
+++ b/syntax/discriminant.rs
@@ -117,8 +117,8 @@ fn expr_to_discriminant(expr: &Expr) -> Result<(Discriminant, Option<Atom>)> {
             if let UnOp::Neg(_) = unary.op {
                 let (mut discriminant, repr) = expr_to_discriminant(&unary.expr)?;
                 discriminant.sign = match discriminant.sign {
-                    Sign::Positive => Sign::Negative,
-                    Sign::Negative => Sign::Positive,
+                    Sign::Positive if discriminant.magnitude != 0 => Sign::Negative,
+                    Sign::Positive | Sign::Negative => Sign::Positive,
                 };
                 return Ok((discriminant, repr));
             }
-- 
2.43.0


From 0d4b5d4b1f4988f74ed23ea181d7fc49616f35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:11 +0000
Subject: [PATCH 09/21] fix: order structs after those they hold in arrays, and
 reject cycles through arrays

---
 syntax/toposort.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/syntax/toposort.rs b/syntax/toposort.rs
index 9c97eb1..6a15739 100644
--- a/syntax/toposort.rs
+++ b/syntax/toposort.rs
@@ -36,7 +36,12 @@ fn visit<'a>(
     }
     let mut result = Ok(());
     for field in &strct.fields {
-        if let Type::Ident(ident) = &field.ty {
+        // An array holds its elements by value.
+        let mut ty = &field.ty;
+        while let Type::Array(array) = ty {
+            ty = &array.inner;
+        }
+        if let Type::Ident(ident) = ty {
             if let Some(inner) = types.structs.get(&ident.rust) {
                 if visit(cx, inner, sorted, marks, types).is_err() {
                     cx.error(field, "unsupported cyclic data structure");
-- 
2.43.0


From 0f1e36eb7dae790eb6c92727f4f509080a4c9a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:19 +0000
Subject: [PATCH 10/21] fix: symbols of methods use the namespace of the
 receiver type

Methods of the same name on two types of the same C++ name in different
namespaces got the same link symbol.
---
 syntax/mangle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax/mangle.rs b/syntax/mangle.rs
index 6f01965..e996a0a 100644
--- a/syntax/mangle.rs
+++ b/syntax/mangle.rs
@@ -89,7 +89,7 @@ pub(crate) fn extern_fn(efn: &ExternFn, types: &Types) -> Symbol {
         Some(receiver) => {
             let receiver_ident = types.resolve(&receiver.ty);
             join!(
-                efn.name.namespace,
+                receiver_ident.name.namespace,
                 CXXBRIDGE,
                 receiver_ident.name.cxx,
                 efn.name.rust,
-- 
2.43.0


From 5862429303c4f163cbb6901ad593fde9f655a5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 11/21] fix: honor cfg attributes on include! in an extern
 block

The attributes of include! were ignored, so that a conditional include
was always emitted.
---
 syntax/parse.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/syntax/parse.rs b/syntax/parse.rs
index 875e1d3..2176988 100644
--- a/syntax/parse.rs
+++ b/syntax/parse.rs
@@ -387,6 +387,15 @@ fn parse_foreign_mod(
                 match foreign.mac.parse_body_with(parse_include) {
                     Ok(mut include) => {
                         include.cfg = cfg.clone();
+                        attrs::parse(
+                            cx,
+                            foreign.attrs,
+                            attrs::Parser {
+                                cfg: Some(&mut include.cfg),
+                                ignore_unrecognized: true,
+                                ..Default::default()
+                            },
+                        );
                         items.push(Api::Include(include));
                     }
                     Err(err) => cx.push(err),
-- 
2.43.0


From 741cf93510be95fa2f63a547cf0cbfd148159636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:39 +0000
Subject: [PATCH 12/21] fix: look up Cargo features whose name contains a
 hyphen

Cargo sets CARGO_FEATURE_FOO_BAR for the feature foo-bar, so
cfg(feature = "foo-bar") was always taken for false.
---
 gen/build/src/cargo.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/gen/build/src/cargo.rs b/gen/build/src/cargo.rs
index 0293c5f..2714d02 100644
--- a/gen/build/src/cargo.rs
+++ b/gen/build/src/cargo.rs
@@ -134,9 +134,19 @@ impl PartialEq for Lookup {
 
 struct CaseAgnosticByte(u8);
 
+impl CaseAgnosticByte {
+    // Cargo spells the feature `foo-bar` as CARGO_FEATURE_FOO_BAR.
+    fn normalize(&self) -> u8 {
+        match self.0 {
+            b'-' => b'_',
+            byte => byte.to_ascii_lowercase(),
+        }
+    }
+}
+
 impl Ord for CaseAgnosticByte {
     fn cmp(&self, rhs: &Self) -> Ordering {
-        self.0.to_ascii_lowercase().cmp(&rhs.0.to_ascii_lowercase())
+        self.normalize().cmp(&rhs.normalize())
     }
 }
 
-- 
2.43.0


From 6056090b42e3d60f2558bb28ade69b027bffc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 13/21] fix: reject struct or enum that reuses the name of a
 type alias

---
 syntax/types.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/syntax/types.rs b/syntax/types.rs
index e972ee4..64f7015 100644
--- a/syntax/types.rs
+++ b/syntax/types.rs
@@ -73,12 +73,13 @@ impl<'a> Types<'a> {
                     let ident = &strct.name.rust;
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
+                            || aliases.contains_key(ident)
                             || structs.contains_key(ident)
                             || enums.contains_key(ident))
                     {
-                        // If already declared as a struct or enum, or if
-                        // colliding with something other than an extern C++
-                        // type, then error.
+                        // If already declared as a struct, enum or type alias,
+                        // or if colliding with something other than an extern
+                        // C++ type, then error.
                         duplicate_name(cx, strct, ident);
                     }
                     structs.insert(&strct.name.rust, strct);
@@ -98,12 +99,13 @@ impl<'a> Types<'a> {
                     let ident = &enm.name.rust;
                     if !type_names.insert(ident)
                         && (!cxx.contains(ident)
+                            || aliases.contains_key(ident)
                             || structs.contains_key(ident)
                             || enums.contains_key(ident))
                     {
-                        // If already declared as a struct or enum, or if
-                        // colliding with something other than an extern C++
-                        // type, then error.
+                        // If already declared as a struct, enum or type alias,
+                        // or if colliding with something other than an extern
+                        // C++ type, then error.
                         duplicate_name(cx, enm, ident);
                     }
                     enums.insert(ident, enm);
-- 
2.43.0


From 5d442f47b51b643b02d25c26346842bf2db6a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 14/21] fix: reject opaque types by value in function pointer
 signatures

---
 syntax/check.rs   | 12 ++++++++++++
 syntax/trivial.rs | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 39ee0b0..33169d3 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -311,6 +311,18 @@ fn check_type_fn(cx: &mut Check, ty: &Signature) {
                     "pointer argument requires that the function pointer be marked unsafe",
                 );
             }
+        } else if is_unsized(cx, &arg.ty) {
+            let desc = describe(cx, &arg.ty);
+            let msg = format!("passing {} by value is not supported", desc);
+            cx.error(arg, msg);
+        }
+    }
+
+    if let Some(ty) = &ty.ret {
+        if is_unsized(cx, ty) {
+            let desc = describe(cx, ty);
+            let msg = format!("returning {} by value is not supported", desc);
+            cx.error(ty, msg);
         }
     }
 }
diff --git a/syntax/trivial.rs b/syntax/trivial.rs
index 9533400..3e61737 100644
--- a/syntax/trivial.rs
+++ b/syntax/trivial.rs
@@ -67,6 +67,18 @@ pub(crate) fn required_trivial_reasons<'a>(
                                 }
                             }
                         }
+                        Type::Fn(sig) => {
+                            for arg in &sig.args {
+                                if let Type::Ident(ident) = &arg.ty {
+                                    let reason = TrivialReason::FunctionArgument(efn);
+                                    insist_extern_types_are_trivial(ident, reason);
+                                }
+                            }
+                            if let Some(Type::Ident(ident)) = &sig.ret {
+                                let reason = TrivialReason::FunctionReturn(efn);
+                                insist_extern_types_are_trivial(ident, reason);
+                            }
+                        }
                         _ => {}
                     }
                 }
-- 
2.43.0


From fe18bd0a11311228947ae27d165849c939ab4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 15/21] fix: reject type alias with a reserved name

---
 syntax/check.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/syntax/check.rs b/syntax/check.rs
index 33169d3..9ae93cb 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -513,6 +513,7 @@ fn check_api_fn(cx: &mut Check, efn: &ExternFn) {
 }
 
 fn check_api_type_alias(cx: &mut Check, alias: &TypeAlias) {
+    check_reserved_name(cx, &alias.name.rust);
     check_lifetimes(cx, &alias.generics);
 
     for derive in &alias.derives {
-- 
2.43.0


From a34be0adecefb9b43a0fb9908b0ab7258e027d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 16/21] fix: apply &mut return restriction to arrays, and do
 not count callback arguments

---
 syntax/check.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/syntax/check.rs b/syntax/check.rs
index 9ae93cb..9454d47 100644
--- a/syntax/check.rs
+++ b/syntax/check.rs
@@ -558,7 +558,12 @@ fn check_mut_return_restriction(cx: &mut Check, efn: &ExternFn) {
         return;
     }
 
-    match &efn.ret {
+    let mut ret = efn.ret.as_ref();
+    while let Some(Type::Array(array)) = ret {
+        ret = Some(&array.inner);
+    }
+
+    match ret {
         Some(Type::Ref(ty)) if ty.mutable => {}
         Some(Type::SliceRef(slice)) if slice.mutable => {}
         _ => return,
@@ -592,6 +597,9 @@ fn check_mut_return_restriction(cx: &mut Check, efn: &ExternFn) {
                         None => true,
                     }
                 }
+                // A mutable reference that goes to a callback is not borrowed
+                // from the caller.
+                Type::Fn(_) => return,
                 _ => false,
             };
             visit::visit_type(self, ty);
-- 
2.43.0


From c78ab864539bb5563adfbc49a9afd5948780f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 17/21] fix: emit quoted include paths verbatim

---
 gen/src/include.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/src/include.rs b/gen/src/include.rs
index 3f1f754..9926c7f 100644
--- a/gen/src/include.rs
+++ b/gen/src/include.rs
@@ -74,7 +74,7 @@ pub(super) fn write(out: &mut OutFile) {
     for include in &include.custom {
         match include.kind {
             IncludeKind::Quoted => {
-                writeln!(out, "#include \"{}\"", include.path.escape_default());
+                writeln!(out, "#include \"{}\"", include.path);
             }
             IncludeKind::Bracketed => {
                 writeln!(out, "#include <{}>", include.path);
-- 
2.43.0


From 6d16366411822ceb41b88c648702f90ab598bffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 18/21] fix: write raw identifiers without r# in C++ names and
 link symbols

---
 gen/src/write.rs    | 9 +++++----
 syntax/names.rs     | 2 +-
 syntax/namespace.rs | 3 ++-
 syntax/symbol.rs    | 3 ++-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index 5063fc0..ced6da0 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -14,6 +14,7 @@ use crate::syntax::{
     Struct, Trait, Type, TypeAlias, Types, Var,
 };
 use proc_macro2::Ident;
+use syn::ext::IdentExt;
 
 pub(super) fn gen(apis: &[Api], types: &Types, opt: &Opt, header: bool) -> Vec<u8> {
     let mut out_file = OutFile::new(header, opt, types);
@@ -806,12 +807,12 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
     write!(out, "  ");
     write_return_type(out, &efn.ret);
     match &efn.receiver {
-        None => write!(out, "(*{}$)(", efn.name.rust),
+        None => write!(out, "(*{}$)(", efn.name.rust.unraw()),
         Some(receiver) => write!(
             out,
             "({}::*{}$)(",
             out.types.resolve(&receiver.ty).name.to_fully_qualified(),
-            efn.name.rust,
+            efn.name.rust.unraw(),
         ),
     }
     for (i, arg) in efn.args.iter().enumerate() {
@@ -869,8 +870,8 @@ fn write_cxx_function_shim<'a>(out: &mut OutFile<'a>, efn: &'a ExternFn) {
         _ => {}
     }
     match &efn.receiver {
-        None => write!(out, "{}$(", efn.name.rust),
-        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust),
+        None => write!(out, "{}$(", efn.name.rust.unraw()),
+        Some(_) => write!(out, "(self.*{}$)(", efn.name.rust.unraw()),
     }
     for (i, arg) in efn.args.iter().enumerate() {
         if i > 0 {
diff --git a/syntax/names.rs b/syntax/names.rs
index 7afa5a9..3c6f34b 100644
--- a/syntax/names.rs
+++ b/syntax/names.rs
@@ -40,7 +40,7 @@ impl ForeignName {
         // non-alphanumeric characters (`operator++`).
         match Ident::parse_any.parse_str(text) {
             Ok(ident) => {
-                let text = ident.to_string();
+                let text = ident.unraw().to_string();
                 Ok(ForeignName { text })
             }
             Err(err) => Err(Error::new(span, err)),
diff --git a/syntax/namespace.rs b/syntax/namespace.rs
index 417fb34..3eefb6d 100644
--- a/syntax/namespace.rs
+++ b/syntax/namespace.rs
@@ -2,6 +2,7 @@ use crate::syntax::qualified::QualifiedName;
 use quote::IdentFragment;
 use std::fmt::{self, Display};
 use std::slice::Iter;
+use syn::ext::IdentExt;
 use syn::parse::{Error, Parse, ParseStream, Result};
 use syn::{Expr, Ident, Lit, Meta, Token};
 
@@ -56,7 +57,7 @@ impl Namespace {
                         .path
                         .segments
                         .iter()
-                        .map(|segment| segment.ident.clone())
+                        .map(|segment| segment.ident.unraw())
                         .collect();
                     return Ok(Namespace { segments });
                 }
diff --git a/syntax/symbol.rs b/syntax/symbol.rs
index f9fd32c..24eb85b 100644
--- a/syntax/symbol.rs
+++ b/syntax/symbol.rs
@@ -3,6 +3,7 @@ use crate::syntax::{ForeignName, Pair};
 use proc_macro2::{Ident, TokenStream};
 use quote::ToTokens;
 use std::fmt::{self, Display, Write};
+use syn::ext::IdentExt;
 
 // A mangled symbol consisting of segments separated by '$'.
 // For example: cxxbridge1$string$new
@@ -58,7 +59,7 @@ impl Segment for usize {
 
 impl Segment for Ident {
     fn write(&self, symbol: &mut Symbol) {
-        symbol.push(&self);
+        symbol.push(&self.unraw());
     }
 }
 
-- 
2.43.0


From 2eed833617d81f9f0f1e763cfd4df82896a69a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:49 +0000
Subject: [PATCH 19/21] fix: keep an include_prefix with parent components
 inside the output directory

The prefix was joined to OUT_DIR/cxxbridge/{crate,include,sources} and to
the shared target directory as given, so that one containing `..` made
build scripts remove and write files outside of those directories.
---
 gen/build/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index ec0e514..4bfa97f 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -163,7 +163,7 @@ impl Project {
     fn init() -> Result<Self> {
         let include_prefix = Path::new(CFG.include_prefix);
         assert!(include_prefix.is_relative());
-        let include_prefix = include_prefix.components().collect();
+        let include_prefix = paths::local_relative_path(include_prefix);
 
         let links_attribute = env::var_os("CARGO_MANIFEST_LINKS");
 
-- 
2.43.0


From 5b5ad15925b2a5046b1fde7bb98868fa221483f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:39 +0000
Subject: [PATCH 20/21] fix: accept every exported prefix and links attribute
 that matches a dependency

An element of CFG.exported_header_prefixes was reported as matching no
direct dependency if another prefix or links attribute listed before it
already matched the same one.
---
 gen/build/src/lib.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/gen/build/src/lib.rs b/gen/build/src/lib.rs
index 4bfa97f..eff5a94 100644
--- a/gen/build/src/lib.rs
+++ b/gen/build/src/lib.rs
@@ -299,27 +299,35 @@ fn make_this_crate(prj: &Project) -> Result<Crate> {
     for krate in deps::direct_dependencies() {
         let mut is_link_exported = || match &krate.links {
             None => false,
-            Some(links_attribute) => CFG.exported_header_links.iter().any(|&exported| {
-                let matches = links_attribute == exported;
-                if matches {
-                    used_header_links.insert(exported);
+            Some(links_attribute) => {
+                let mut any_matches = false;
+                for &exported in &CFG.exported_header_links {
+                    if links_attribute == exported {
+                        used_header_links.insert(exported);
+                        any_matches = true;
+                    }
                 }
-                matches
-            }),
+                any_matches
+            }
         };
 
         let mut is_prefix_exported = || match &krate.include_prefix {
             None => false,
-            Some(include_prefix) => CFG.exported_header_prefixes.iter().any(|&exported| {
-                let matches = include_prefix.starts_with(exported);
-                if matches {
-                    used_header_prefixes.insert(exported);
+            Some(include_prefix) => {
+                let mut any_matches = false;
+                for &exported in &CFG.exported_header_prefixes {
+                    if include_prefix.starts_with(exported) {
+                        used_header_prefixes.insert(exported);
+                        any_matches = true;
+                    }
                 }
-                matches
-            }),
+                any_matches
+            }
         };
 
-        let exported = is_link_exported() || is_prefix_exported();
+        // Not short-circuiting: each element of the configuration which matches
+        // this dependency needs to be recorded as used.
+        let exported = is_link_exported() | is_prefix_exported();
 
         for dir in krate.header_dirs {
             // Deduplicate dirs reachable via multiple transitive dependencies.
-- 
2.43.0


From ccfca322958746be9681aa32b009a67325c5a406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:55 +0000
Subject: [PATCH 21/21] fix: doc comment ending in a backslash swallowed the
 next line of C++

A doc comment line ending in a backslash (or ??/ where trigraphs are enabled),
or one containing a carriage return, made the C++ compiler see something else
than a comment: the following field or definition silently disappeared from the
generated code.
---
 gen/src/write.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/gen/src/write.rs b/gen/src/write.rs
index ced6da0..56ac21f 100644
--- a/gen/src/write.rs
+++ b/gen/src/write.rs
@@ -266,11 +266,21 @@ fn pick_includes_and_builtins(out: &mut OutFile, apis: &[Api]) {
 
 fn write_doc(out: &mut OutFile, indent: &str, doc: &Doc) {
     let mut lines = 0;
-    for line in doc.to_string().lines() {
+    // Some C++ compilers consider a lone carriage return to end a comment.
+    for line in doc.to_string().lines().flat_map(|line| line.split('\r')) {
+        // A backslash, or the trigraph for one, at the end of the line would
+        // make the following line of C++ code part of the comment. Compilers
+        // disregard whitespace after the backslash.
+        let last = line.trim_end();
+        let end = if last.ends_with('\\') || last.ends_with("??/") {
+            " //"
+        } else {
+            ""
+        };
         if out.opt.doxygen {
-            writeln!(out, "{}///{}", indent, line);
+            writeln!(out, "{}///{}{}", indent, line, end);
         } else {
-            writeln!(out, "{}//{}", indent, line);
+            writeln!(out, "{}//{}{}", indent, line, end);
         }
         lines += 1;
     }
-- 
2.43.0

