From 527f4f78e66f221c1fd9bc2c284792913d2cf916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 01/11] fix: panic in Buffer::reserve when the size overflows
 isize::MAX

In release builds the addition wrapped around and reserve returned with too
little capacity, although its documentation promises a panic.
---
 laby_common/src/internal/buffer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..6e4e556 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -159,6 +159,7 @@ impl Buffer {
             return;
         }
 
+        assert!(size <= core::isize::MAX as usize, "capacity is too large");
         self.reserve_internal(size);
     }
 
-- 
2.43.0


From cadb660ae1ea594f2ea0624b4c5431a5bae3719e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 02/11] fix: stop delimited iterator rendering at the first
 None

An iterator that is not fused was polled again after it had ended, rendering
a leading delimiter and items that are not part of the iteration.
---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 9290e41111ea75ff818a56adda499203eb97f9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 03/11] fix: use the AVX2 escape only if the processor has AVX2

It was selected on any processor with AVX, which would fault on those without
AVX2.
---
 laby_common/src/internal/escape.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..71f2688 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -102,9 +102,12 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
 
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
-        let fun = if let Some(features) = features {
-            if features.has_avx() {
+        let cpuid = raw_cpuid::CpuId::new();
+        let has_avx2 = cpuid
+            .get_extended_feature_info()
+            .map_or(false, |features| features.has_avx2());
+        let fun = if let Some(features) = cpuid.get_feature_info() {
+            if features.has_avx() && has_avx2 {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From b2512f21f7c91ab32b183c3f5c290eeb2d715811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 04/11] fix: render float literals according to their type
 suffix

A literal such as 1f64 was rendered as an integer, and one such as
0.1234567890123f32 with the digits of an f64, unlike the same value in a
variable.
---
 laby_macros/src/build.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..17adb81 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,15 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            Lit::Int(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_digits().parse::<f32>().ok()?),
+                "f64" => render!(v.base10_digits().parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From 4f59f0a3ae89b78255f8a38e0b50475d52e8b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 05/11] fix: render raw identifier attribute names without r#

Attributes named by a keyword, like type, can only be written as a raw
identifier, which was rendered as r#type.
---
 laby_macros/src/build.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 17adb81..6cc3cfa 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -189,7 +189,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
     {
         node.render.push_str(value);
     } else {
@@ -225,7 +225,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
             {
                 node.render.push_str(value);
             } else {
@@ -239,7 +239,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From 759a38a121816e1796fb1bb8d75202c7b4d7e05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:10 +0000
Subject: [PATCH 06/11] fix: accept where clauses on #[laby] functions

The where clause at the end of the encoded signature swallowed the comma and
the arguments following it, so that no call of the macro compiled.
---
 laby_macros/src/component.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..6a6463b 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,9 +26,12 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
     let func_name = func_sig.ident.clone();
 
+    // a where clause cannot be told apart from the arguments following the encoded signature
+    func_sig.generics.where_clause = None;
+
     for arg in func.sig.inputs.iter_mut() {
         let PatType { ref mut attrs, .. } = unwrap_typed_arg(arg)?;
 
-- 
2.43.0


From d49542a6a6824e7e33058d147a7f6ff4792f7890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:44 +0000
Subject: [PATCH 07/11] fix: name Option by path in frag_match expansions

A caller with its own None or Some in scope, such as imported enum variants,
could not use the macro.
---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0


From fe22a8fb5c9cf1381a01436bc68a3e30c7370473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 08/11] fix: render borrowed-or-owned values of unsized types
 such as Cow<str>

---
 laby_common/src/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laby_common/src/render.rs b/laby_common/src/render.rs
index 924460e..f49693a 100644
--- a/laby_common/src/render.rs
+++ b/laby_common/src/render.rs
@@ -207,7 +207,7 @@ where
 
 impl<'a, R> Render for Cow<'a, R>
 where
-    R: ToOwned,
+    R: ToOwned + ?Sized,
     &'a R: Render,
     R::Owned: Render,
 {
-- 
2.43.0


From d278243b69f174938bcac6e1dca7b72b77eee5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:55 +0000
Subject: [PATCH 09/11] fix: the braces of frag_match! branches raised
 unused_braces

---
 laby_macros/src/matching.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index 0754244..cbd4cc7 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -6,7 +6,7 @@
 //
 //   https://opensource.org/licenses/MIT
 //
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     parse::{Parse, Parser},
@@ -17,6 +17,11 @@ pub fn generate_frag_match(stream: TokenStream) -> syn::Result<TokenStream> {
     generate_from_if(stream.clone()).or_else(|_| generate_from_match(stream))
 }
 
+// braces of a branch are not the user's to remove, so `unused_braces` should not see them.
+fn hide_braces(block: &mut Block) {
+    block.brace_token.span = block.brace_token.span.resolved_at(Span::call_site());
+}
+
 fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
     let mut expr = Parser::parse2(ExprMatch::parse, stream)?;
     let mut vars = Vec::new();
@@ -24,6 +29,10 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
 
     for arm in expr.arms.iter_mut() {
         let name = format_ident!("__variant_{}", decls.len() + 1);
+
+        if let Expr::Block(ExprBlock { ref mut block, .. }) = *arm.body {
+            hide_braces(block);
+        }
         let ref body = arm.body;
 
         decls.push(quote!(let mut #name = ::core::option::Option::None));
@@ -48,6 +57,7 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
             decls.push(quote!(let mut #name = ::core::option::Option::None));
+            hide_braces(block);
             *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
-- 
2.43.0


From 16662af3032444c1f398d5af3e469899812ee0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:49 +0000
Subject: [PATCH 10/11] fix: no pointer beyond the end of the text in debug
 assertions

The vector paths of escape asserted that another vector would pass the end by
computing a pointer past the allocation, which is undefined behaviour.
---
 laby_common/src/internal/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 71f2688..5717941 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -407,7 +407,7 @@ mod avx2 {
             ptr = ptr.add(VECTOR_BYTES);
         }
 
-        debug_assert!(ptr.add(VECTOR_BYTES) > end_ptr);
+        debug_assert!(end_ptr as usize - (ptr as usize) < VECTOR_BYTES);
 
         if ptr < end_ptr {
             debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);
@@ -555,7 +555,7 @@ mod sse2 {
             ptr = ptr.add(VECTOR_BYTES);
         }
 
-        debug_assert!(ptr.add(VECTOR_BYTES) > end_ptr);
+        debug_assert!(end_ptr as usize - (ptr as usize) < VECTOR_BYTES);
 
         if ptr < end_ptr {
             debug_assert!((end_ptr as usize - ptr as usize) < VECTOR_BYTES);
-- 
2.43.0


From 86b7de07ea99d6ac5568089bf9be64f39d6f9370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:52 +0000
Subject: [PATCH 11/11] fix: no warning about the module behind a component's
 name

A component whose name is not in snake case, and is allowed not to be, raised the
warning again for the module generated for it, where the user cannot allow it.
---
 laby_macros/src/component.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 6a6463b..f790fc1 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -64,6 +64,7 @@ pub fn generate_component_macro(
             #vis use #func_name::call as #func_name;
 
             #[doc(hidden)]
+            #[allow(non_snake_case)]
             mod #func_name {
                 #[allow(unused_macros)]
                 macro_rules! call {
-- 
2.43.0

