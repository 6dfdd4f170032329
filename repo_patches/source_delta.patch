From 23844ce75089f81c013f50ea2506a87dfe44287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 01/19] fix: separate nested field path with a dot in
 ParseError message

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 7086605..9038502 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -569,7 +569,7 @@ impl<'a> FieldEntry<'a> {
             }
         }
         for (keys, idx) in &self.deep_captures {
-            let field_name = key.to_string() + &join(keys, ".");
+            let field_name = format!("{key}.{}", join(keys, "."));
             let expr = build_parse_capture_expr(
                 &field_name,
                 capture_index(*idx, names),
-- 
2.43.0


From 7eaf6d20c137842fe8d86088892937fa8b161aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 02/19] fix: use raw identifier variants by their plain name

---
 parse-display-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 2d47b5e..f0f58ba 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -617,7 +617,7 @@ impl DisplayStyle {
             }
         }
 
-        let s = ident.to_string();
+        let s = ident.unraw().to_string();
         let (line_head, word_head, normal, sep) = match self {
             DisplayStyle::None => {
                 return s;
-- 
2.43.0


From fdeb189c9f192ef50b40b37bea08c33729161997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 03/19] fix: use absolute paths in generated FromStrRegex impls

---
 parse-display-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index f0f58ba..a5d46fd 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -201,7 +201,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
@@ -292,7 +292,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 })
                 .collect::<Vec<_>>();
             let fmt = fmts.join("|");
-            quote! { format!(#fmt, #(#regex_args,)*) }
+            quote! { ::std::format!(#fmt, #(#regex_args,)*) }
         };
 
         ts.extend(impl_trait(
@@ -300,7 +300,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
             &parse_quote!(#crate_path::FromStrRegex),
             &wheres,
             quote! {
-                fn from_str_regex() -> String {
+                fn from_str_regex() -> ::std::string::String {
                     #body
                 }
             },
-- 
2.43.0


From c919fbfdb56b1034b4e0065186850c4fec15c999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 04/19] fix: allow nested path starting with a tuple index in
 regex capture name

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 9038502..c4e1628 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -125,7 +125,7 @@ impl<'a> ParserBuilder<'a> {
             s.len() % 2 == 1
         }
 
-        let regex_number = regex!("^[0-9]+$");
+        let regex_number = regex!("^[0-9]");
         let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
 
         let text = s.value();
-- 
2.43.0


From f129a69b620e844a795691ced569509537658d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:54 +0000
Subject: [PATCH 05/19] fix: do not let variables for `new` shadow internal
 names or break on raw identifiers

---
 parse-display-derive/src/lib.rs            | 5 ++---
 parse-display-derive/src/parser_builder.rs | 9 +++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index a5d46fd..5bf51fb 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1131,10 +1131,9 @@ impl FieldKey {
     }
     fn new_arg_var(&self) -> Ident {
         match self {
-            Self::Named(s) => parse_str(s),
-            Self::Unnamed(idx) => parse_str(&format!("_{idx}")),
+            Self::Named(s) => format_ident!("r#{s}"),
+            Self::Unnamed(idx) => format_ident!("_{idx}"),
         }
-        .unwrap()
     }
 }
 impl std::fmt::Display for FieldKey {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index c4e1628..bc00ce4 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -350,12 +350,13 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let code = if let Some(new_expr) = &self.new_expr {
-            let mut code = TokenStream::new();
+            let mut vars = Vec::new();
+            let mut exprs = Vec::new();
             for (key, field) in &self.fields {
-                let expr = field.build_field_init_expr(&names, key, self.span)?;
-                let var = key.new_arg_var();
-                code.extend(quote! { let #var = #expr; });
+                exprs.push(field.build_field_init_expr(&names, key, self.span)?);
+                vars.push(key.new_arg_var());
             }
+            let mut code = quote! { let (#(#vars,)*) = (#(#exprs,)*); };
             let crate_path = self.crate_path;
             code.extend(quote! {
                 if let ::core::result::Result::Ok(value) = #crate_path::IntoResult::into_result(#new_expr) {
-- 
2.43.0


From 2cc7419354645d8fc892e94bd532955d65306205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:48 +0000
Subject: [PATCH 06/19] fix: parse opt fields using with or regex_infer as the
 inner type

---
 parse-display-derive/src/parser_builder.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index bc00ce4..abc7a3e 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -14,7 +14,7 @@ use std::{
     mem,
 };
 use syn::{
-    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Variant, parse_quote,
+    DataStruct, Expr, Field, Fields, Ident, LitStr, Path, Result, Type, Variant, parse_quote,
     spanned::Spanned,
 };
 
@@ -226,8 +226,9 @@ impl<'a> ParserBuilder<'a> {
                             match vb {
                                 VarBase::Struct { .. } => {}
                                 VarBase::Variant { .. } => {}
-                                VarBase::Field { field, key, .. } => {
-                                    self.with.push(With::new(c, key, with_expr, &field.ty));
+                                VarBase::Field { key, .. } => {
+                                    let ty = self.fields[*key].value_ty();
+                                    self.with.push(With::new(c, key, with_expr, ty));
                                 }
                                 VarBase::FieldSome { key, ty } => {
                                     self.with.push(With::new(c, key, with_expr, ty));
@@ -535,6 +536,14 @@ impl<'a> FieldEntry<'a> {
         };
         capture_name(idx)
     }
+    fn value_ty(&self) -> &Type {
+        let ty = &self.source.ty;
+        if self.hattrs.opt.value() {
+            get_option_element(ty).unwrap_or(ty)
+        } else {
+            ty
+        }
+    }
     fn capture_index(&self, names: &HashMap<&str, usize>) -> Option<usize> {
         Some(capture_index(self.capture?, names))
     }
@@ -696,7 +705,7 @@ fn str_expr_to_parse_capture_expr(
     crate_path: &Path,
 ) -> TokenStream {
     if let Some(with) = &field.hattrs.with {
-        let ty = &field.source.ty;
+        let ty = field.value_ty();
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-- 
2.43.0


From 0874069484e0e9e8064a25bb3e408857e4141881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 07/19] fix: resolve names in a field format relative to that
 field in FromStr

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index abc7a3e..b9f4330 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -212,7 +212,7 @@ impl<'a> ParserBuilder<'a> {
                             continue;
                         }
                     }
-                    if keys.len() == 1 {
+                    if keys.len() == 1 && !matches!(vb, VarBase::Field { .. }) {
                         self.push_field(vb, &keys[0], format.span)?;
                         continue;
                     }
-- 
2.43.0


From 4a74c578f125be3fa79a7f9fe18b4e0a095230a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 08/19] fix: give from_str attributes priority over display
 attributes in any order

---
 parse-display-derive/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 5bf51fb..e69b626 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -422,6 +422,8 @@ impl HelperAttributes {
             if a.path().is_ident("display") {
                 hattrs.set_display_args(a.parse_args()?)?;
             }
+        }
+        for a in attrs {
             if use_from_str && a.path().is_ident("from_str") {
                 hattrs.push_from_str_warning_spans(a)?;
                 hattrs.set_from_str_args(a.parse_args()?);
-- 
2.43.0


From 016b4b1f42a8f85c9166d559d724f7774bfffadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 09/19] fix: support empty enums in derive(Display)

---
 parse-display-derive/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index e69b626..e7405ee 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -149,9 +149,14 @@ fn derive_display_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Token
         arms.push(make_arm(&hattrs, variant, &mut bounds, &cx)?);
     }
     let trait_path = parse_quote!(::core::fmt::Display);
+    let value = if arms.is_empty() {
+        quote!(*self)
+    } else {
+        quote!(self)
+    };
     let contents = quote! {
         fn fmt(&self, f: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {
-            match self {
+            match #value {
                 #(#arms)*
             }
         }
-- 
2.43.0


From ad33eb09b23217a938cc2b92beb12a85d723b903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 10/19] fix: apply format parameters to opt fields

---
 parse-display-derive/src/lib.rs |  3 ++-
 parse-display/src/helpers.rs    | 29 ++++++++++++++++++-----------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index e7405ee..c9b53e0 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -935,12 +935,13 @@ impl VarBase<'_> {
                 cx,
             )?;
             let ident = key.binding_var();
+            let tr = Ident::new(format_spec.format_type.trait_name(), Span::call_site());
             Ok(quote! {
                 (
                     #crate_path::helpers::OptionFormatHelper::<#inner_ty, _> {
                         value: &#in_expr,
                         f: |#ident : &#inner_ty, #formatter_ident : &mut ::core::fmt::Formatter| {
-                             ::core::write!(#formatter_ident, "{}", #out_expr)
+                             ::core::fmt::#tr::fmt(&#out_expr, #formatter_ident)
                         },
                         none_value: "",
                     }
diff --git a/parse-display/src/helpers.rs b/parse-display/src/helpers.rs
index 5659cba..5d148f0 100644
--- a/parse-display/src/helpers.rs
+++ b/parse-display/src/helpers.rs
@@ -1,5 +1,5 @@
 use ::core::{
-    fmt::{self, Display, Formatter},
+    fmt::{self, Formatter},
     ops::Fn,
 };
 
@@ -43,18 +43,25 @@ pub struct OptionFormatHelper<'a, T, F> {
     pub f: F,
     pub none_value: &'a str,
 }
-impl<'a, T, F> Display for OptionFormatHelper<'a, T, F>
-where
-    F: Fn(&'a T, &mut Formatter) -> fmt::Result,
-{
-    fn fmt(&self, f: &mut Formatter) -> fmt::Result {
-        if let Some(value) = self.value {
-            (self.f)(value, f)
-        } else {
-            Formatter::write_str(f, self.none_value)
+macro_rules! impl_option_format_helper {
+    ($($tr:ident),*) => {$(
+        impl<'a, T, F> fmt::$tr for OptionFormatHelper<'a, T, F>
+        where
+            F: Fn(&'a T, &mut Formatter) -> fmt::Result,
+        {
+            fn fmt(&self, f: &mut Formatter) -> fmt::Result {
+                if let Some(value) = self.value {
+                    (self.f)(value, f)
+                } else {
+                    Formatter::write_str(f, self.none_value)
+                }
+            }
         }
-    }
+    )*};
 }
+impl_option_format_helper!(
+    Display, Debug, Octal, LowerHex, UpperHex, Pointer, Binary, LowerExp, UpperExp
+);
 
 #[deprecated(
     note = "`#[from_str(default_fields)]` will be removed in a future version. Use `#[from_str(default)]` instead."
-- 
2.43.0


From 0eeb0b8017652b851e76d9e5fd8bfd8400615f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:42 +0000
Subject: [PATCH 11/19] fix: support variants named Err in derive(FromStr)

---
 parse-display-derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index c9b53e0..873a043 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -192,7 +192,7 @@ fn derive_from_str_for_struct(input: &DeriveInput, data: &DataStruct) -> Result<
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #body
             }
@@ -272,7 +272,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
         &wheres,
         quote! {
             type Err = #crate_path::ParseError;
-            fn from_str(s: &str) -> ::core::result::Result<Self, Self::Err> {
+            fn from_str(s: &str) -> ::core::result::Result<Self, #crate_path::ParseError> {
                 #warnings
                 #match_body
                 #({ #bodys })*
-- 
2.43.0


From 53e51fed9c969487ae378dd1b604905c5ea6dc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:56 +0000
Subject: [PATCH 12/19] fix: do not apply the s flag to a field regex used with
 a field format

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index b9f4330..369ed50 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -220,7 +220,7 @@ impl<'a> ParserBuilder<'a> {
                     let mut f = format!("(?<{c}>(?s:.*?))");
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?s:{regex}))");
+                            f = format!("(?<{c}>(?:{regex}))");
                         }
                         if let Some(with_expr) = with {
                             match vb {
-- 
2.43.0


From 8cef67190a96f90694ecec8ec79c8136c2116cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:03 +0000
Subject: [PATCH 13/19] fix: allow non-ASCII field names in regex capture names

---
 parse-display-derive/src/parser_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 369ed50..cee8021 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -126,7 +126,7 @@ impl<'a> ParserBuilder<'a> {
         }
 
         let regex_number = regex!("^[0-9]");
-        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[_0-9a-zA-Z.]*)>");
+        let regex_capture = regex!(r"(?<esc>\\*)\(\?(?<p>P?)<(?<key>[\w.]*)>");
 
         let text = s.value();
         let text_debug = regex_capture.replace_all(&text, |c: &Captures| {
-- 
2.43.0


From 3a5e45fec183aa0de9dc9bc35e1a26df7b0d5ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 14/19] fix: use absolute paths for Into and format_args in
 generated code

---
 parse-display-derive/src/lib.rs            | 4 ++--
 parse-display-derive/src/parser_builder.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 873a043..5b105cb 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -287,7 +287,7 @@ fn derive_from_str_for_enum(input: &DeriveInput, data: &DataEnum) -> Result<Toke
                 .map(|s| escape(&s.unwrap()))
                 .collect::<Vec<_>>();
             let s = fmts.join("|");
-            quote! { #s.into() }
+            quote! { ::core::convert::Into::into(#s) }
         } else {
             let fmts = regex_fmts
                 .into_iter()
@@ -969,7 +969,7 @@ impl VarBase<'_> {
     ) -> Result<TokenStream> {
         if let Some(format) = format {
             let args = format.format_args(self, with, bounds, cx)?;
-            Ok(quote! { format_args!(#args) })
+            Ok(quote! { ::core::format_args!(#args) })
         } else {
             self.format_arg("", format_spec, span, with, bounds, cx)
         }
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index cee8021..417e24a 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -306,7 +306,7 @@ impl<'a> ParserBuilder<'a> {
             }
             ParseFormat::String(s) => {
                 let s = escape(s);
-                Ok(quote! { #s.into() })
+                Ok(quote! { ::core::convert::Into::into(#s) })
             }
         }
     }
-- 
2.43.0


From ac8c606fd4786003e7c324727563493ae1911eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 15/19] fix: keep the hygiene of tokens when moving them to the
 span of a format literal

---
 parse-display-derive/src/lib.rs            | 11 ++++++++++-
 parse-display-derive/src/parser_builder.rs |  4 ++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 5b105cb..38b8661 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -756,7 +756,7 @@ impl DisplayFormat {
                         let crate_path = &cx.crate_path;
                         expr = quote!(#crate_path::helpers::fmt_pointer(#expr));
                     }
-                    expr = set_span(expr, self.span);
+                    expr = set_location(expr, self.span);
                     format_args.push(expr);
                 }
             }
@@ -1189,6 +1189,15 @@ fn trim_raw(s: &str) -> &str {
     }
 }
 
+/// Gives tokens the location of `span`, and leaves them their hygiene.
+fn set_location(ts: TokenStream, span: Span) -> TokenStream {
+    ts.into_iter()
+        .map(|mut ts| {
+            ts.set_span(span.resolved_at(ts.span()));
+            ts
+        })
+        .collect()
+}
 fn set_span(ts: TokenStream, span: Span) -> TokenStream {
     ts.into_iter()
         .map(|mut ts| {
diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 417e24a..8b04a98 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -1,6 +1,6 @@
 use crate::{
     Bounds, DisplayFormat, DisplayFormatPart, DisplayStyle, FieldKey, HelperAttributes, VarBase,
-    With, field_map, get_option_element, join, regex_utils::*, set_span, syn_utils::*,
+    With, field_map, get_option_element, join, regex_utils::*, set_location, syn_utils::*,
 };
 use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote, quote_spanned};
@@ -709,7 +709,7 @@ fn str_expr_to_parse_capture_expr(
         let expr = quote! {
             #crate_path::helpers::parse_with::<#ty, _>(#with, #str_expr)
         };
-        set_span(expr, with.span())
+        set_location(expr, with.span())
     } else {
         quote!(#str_expr.parse())
     }
-- 
2.43.0


From 88477a9779b28ef20b09d17120e1cfecdd27e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:22 +0000
Subject: [PATCH 16/19] fix: resolve generated code around a `with` expression
 at the call site

---
 parse-display-derive/src/parser_builder.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 8b04a98..00f925b 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -415,12 +415,13 @@ impl<'a> ParserBuilder<'a> {
             },
         ) in self.with.iter().enumerate()
         {
-            with.push(quote_spanned! {expr.span()=>
+            let span = expr.span().resolved_at(Span::call_site());
+            with.push(quote_spanned! {span=>
                 (#capture, #helpers::to_ast::<#ty, _>(&#expr))
             });
             let msg =
                 format!("The regex for the field `{key}` varies depending on the type parameter.");
-            debug_asserts.push(quote_spanned! {expr.span()=>
+            debug_asserts.push(quote_spanned! {span=>
                 ::core::debug_assert_eq!(&p.ss[#index], &#helpers::to_regex::<#ty, _>(&#expr), #msg);
             });
         }
-- 
2.43.0


From 50507fe269819ef2ec2613fdc944b35e5eea9d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:23 +0000
Subject: [PATCH 17/19] fix: look through parentheses and macro groups around
 types

---
 parse-display-derive/src/lib.rs       |  2 +-
 parse-display-derive/src/syn_utils.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/parse-display-derive/src/lib.rs b/parse-display-derive/src/lib.rs
index 38b8661..28b9eb6 100644
--- a/parse-display-derive/src/lib.rs
+++ b/parse-display-derive/src/lib.rs
@@ -1208,7 +1208,7 @@ fn set_span(ts: TokenStream, span: Span) -> TokenStream {
 }
 
 fn unref_ty(ty: &Type) -> Type {
-    if let Type::Reference(ty) = ty {
+    if let Type::Reference(ty) = ungroup_ty(ty) {
         unref_ty(&ty.elem)
     } else {
         ty.clone()
diff --git a/parse-display-derive/src/syn_utils.rs b/parse-display-derive/src/syn_utils.rs
index b11b4e6..bde22fb 100644
--- a/parse-display-derive/src/syn_utils.rs
+++ b/parse-display-derive/src/syn_utils.rs
@@ -178,8 +178,16 @@ pub fn dump_if(dump: bool, ts: &TokenStream) {
     }
 }
 
+/// The type without the parentheses and the invisible groups (of macro arguments) around it.
+pub fn ungroup_ty(ty: &Type) -> &Type {
+    match ty {
+        Type::Group(ty) => ungroup_ty(&ty.elem),
+        Type::Paren(ty) => ungroup_ty(&ty.elem),
+        _ => ty,
+    }
+}
 pub fn get_arguments_of<'a>(ty: &'a Type, ns: &[&[&str]], name: &str) -> Option<&'a PathArguments> {
-    if let Type::Path(ty) = ty {
+    if let Type::Path(ty) = ungroup_ty(ty) {
         if ty.qself.is_some() {
             return None;
         }
-- 
2.43.0


From 3617954ade0ccab4cb4e2802893615d8c03cb880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:38 +0000
Subject: [PATCH 18/19] fix: accept a newline as fill character

---
 parse-display-derive/src/format_syntax.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse-display-derive/src/format_syntax.rs b/parse-display-derive/src/format_syntax.rs
index 226b7f5..0f80f7b 100644
--- a/parse-display-derive/src/format_syntax.rs
+++ b/parse-display-derive/src/format_syntax.rs
@@ -96,7 +96,7 @@ impl<'a> FormatSpec<'a> {
     pub fn parse(s: &'a str) -> std::result::Result<Self, FormatParseError> {
         let re = regex!(
             "^\
-             ((?<fill>.)?\
+             ((?<fill>(?s:.))?\
              (?<align>[<>^]))??\
              (?<sign>[+-])?\
              (?<is_alternate>#)?\
-- 
2.43.0


From 6cd6e0b0e4675b00deb541cad6bcba3869cf9c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:43 +0000
Subject: [PATCH 19/19] fix: accept a field's verbose regex that ends in a
 comment

The regex was put into the text of a group, whose end was then part of the comment.
---
 parse-display-derive/src/parser_builder.rs | 11 ++++++-----
 parse-display-derive/src/regex_utils.rs    | 10 +++++++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/parse-display-derive/src/parser_builder.rs b/parse-display-derive/src/parser_builder.rs
index 00f925b..100ef0d 100644
--- a/parse-display-derive/src/parser_builder.rs
+++ b/parse-display-derive/src/parser_builder.rs
@@ -150,7 +150,7 @@ impl<'a> ParserBuilder<'a> {
         let mut has_capture = false;
         let mut has_capture_empty = false;
         let mut p = "";
-        let mut text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
+        let text = try_replace_all(regex_capture, &text, |c: &Captures| -> Result<String> {
             let esc = &c[IDX_ESC];
             if is_escaped(esc) {
                 return Ok(c[0].to_owned());
@@ -186,7 +186,8 @@ impl<'a> ParserBuilder<'a> {
                     return self.push_format(format, vb, None, Some(&text));
                 }
                 let name = self.set_capture(vb, &[], s.span())?;
-                text = format!("(?<{name}>{text})");
+                self.parse_format.push_hir(to_hir_with_name(&text, &name));
+                return Ok(());
             }
         }
         self.parse_format.push_hir(to_hir(&text));
@@ -217,10 +218,10 @@ impl<'a> ParserBuilder<'a> {
                         continue;
                     }
                     let c = self.set_capture(vb, &keys, format.span)?;
-                    let mut f = format!("(?<{c}>(?s:.*?))");
+                    let mut hir = to_hir(&format!("(?<{c}>(?s:.*?))"));
                     if keys.is_empty() {
                         if let Some(regex) = regex {
-                            f = format!("(?<{c}>(?:{regex}))");
+                            hir = to_hir_with_name(regex, &c);
                         }
                         if let Some(with_expr) = with {
                             match vb {
@@ -236,7 +237,7 @@ impl<'a> ParserBuilder<'a> {
                             }
                         }
                     }
-                    self.parse_format.push_hir(to_hir(&f));
+                    self.parse_format.push_hir(hir);
                 }
             }
         }
diff --git a/parse-display-derive/src/regex_utils.rs b/parse-display-derive/src/regex_utils.rs
index 35849f1..22fef2f 100644
--- a/parse-display-derive/src/regex_utils.rs
+++ b/parse-display-derive/src/regex_utils.rs
@@ -1,10 +1,18 @@
 use regex::{Captures, Regex};
 use regex_syntax::ast::Ast;
-use regex_syntax::hir::Hir;
+use regex_syntax::hir::{Capture, Hir};
 
 pub fn to_hir(s: &str) -> Hir {
     regex_syntax::Parser::new().parse(s).unwrap()
 }
+/// The named group of `s`. `s` may end with a comment of the verbose mode, so it is not put into a string.
+pub fn to_hir_with_name(s: &str, name: &str) -> Hir {
+    Hir::capture(Capture {
+        index: 1,
+        name: Some(name.into()),
+        sub: Box::new(to_hir(s)),
+    })
+}
 pub fn to_hir_with_expand(s: &str, name: &str, value: &str) -> Hir {
     let mut ast = to_ast(s);
     expand_capture(&mut ast, |group_name| {
-- 
2.43.0

