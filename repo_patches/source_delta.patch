From b645e848cf88e5bfa31d76feeefaa1055d10a6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 1/9] fix: reject float literals that overflow to infinity

---
 parsel/src/ast.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 328dde1..4d7531b 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -2649,7 +2649,12 @@ impl TryFrom<syn::LitFloat> for LitFloat {
     fn try_from(lit: syn::LitFloat) -> Result<Self> {
         let value: NotNan<f64> = lit.base10_parse()?;
         let span = lit.span();
-        Ok(LitFloat::new(value, span))
+
+        if value.is_finite() {
+            Ok(LitFloat::new(value, span))
+        } else {
+            Err(Error::new(span, "number too large to fit in target type"))
+        }
     }
 }
 
-- 
2.43.0


From ed911b56803e9873a3715c94d875f155de9d8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 2/9] fix: classify the literal -0 as unsigned, so that it
 survives printing and re-parsing

---
 parsel/src/ast.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 4d7531b..d8ec7e3 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -3177,7 +3177,11 @@ impl TryFrom<syn::Lit> for Lit {
             syn::Lit::Byte(lit) => Ok(Lit::Byte(lit.into())),
             syn::Lit::Int(lit) => {
                 if lit.base10_digits().trim().starts_with('-') {
-                    LitInt::try_from(lit).map(Lit::Int)
+                    // negative zero is not negative
+                    let lit = LitInt::try_from(lit)?;
+                    let LitInt { value, span } = lit;
+                    let uint = u64::try_from(value).map(|value| LitUint::new(value, span));
+                    Ok(uint.map_or(Lit::Int(lit), Lit::Uint))
                 } else {
                     LitUint::try_from(lit).map(Lit::Uint)
                 }
-- 
2.43.0


From ed5236db4456489e886b37c9bf3a42552025a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 3/9] fix: do not panic when printing a keyword defined as a
 raw identifier

---
 parsel/src/ast.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index d8ec7e3..81b21ac 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -311,7 +311,14 @@ macro_rules! define_keywords {
             }
 
             pub fn token(&self) -> ::parsel::ast::Ident {
-                ::parsel::ast::Ident::new($string, self.span)
+                match $string.strip_prefix("r#") {
+                    ::core::option::Option::Some(raw) => {
+                        ::parsel::ast::Ident::new_raw(raw, self.span)
+                    }
+                    ::core::option::Option::None => {
+                        ::parsel::ast::Ident::new($string, self.span)
+                    }
+                }
             }
         }
 
-- 
2.43.0


From 665356911d3c04c38d67c484f8d1cb34420ca649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 4/9] fix: derive(Parse) must not pick up an unrelated `Err` in
 scope

---
 parsel_derive/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parsel_derive/src/parse.rs b/parsel_derive/src/parse.rs
index fea02b3..e2691db 100644
--- a/parsel_derive/src/parse.rs
+++ b/parsel_derive/src/parse.rs
@@ -105,7 +105,7 @@ fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
 
         #parsers
 
-        Err(
+        ::parsel::Result::Err(
             error.unwrap_or_else(|| {
                 input.error("parsing an empty choice (enum) always fails")
             })
-- 
2.43.0


From 3f63bbc12679e4edbd00136c9fd8fa217424d7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 5/9] fix: derive(ToTokens) must not let a field named `tokens`
 shadow its output

---
 parsel_derive/src/to_tokens.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 3db27ae..8672171 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -107,15 +107,20 @@ fn expand_variants(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
                         .collect()
                 }
             };
+            // Named fields are bound to fresh names, too, so that
+            // they can't shadow (e.g.) the `tokens` parameter.
+            let binding_names: Vec<_> = (0..field_names.len())
+                .map(|i| format_ident!("parsel_field_{}_{}", variant_name, i))
+                .collect();
             let bindings = match &variant.fields {
                 Fields::Unit => TokenStream::new(),
-                Fields::Named(_) => quote!({ #(#field_names,)* }),
-                Fields::Unnamed(_) => quote!{ (#(#field_names),*) },
+                Fields::Named(_) => quote!({ #(#field_names: #binding_names,)* }),
+                Fields::Unnamed(_) => quote!{ (#(#binding_names),*) },
             };
 
             Ok(quote!{
                 #ty_name::#variant_name #bindings => {
-                    #(::parsel::ToTokens::to_tokens(#field_names, &mut *tokens);)*
+                    #(::parsel::ToTokens::to_tokens(#binding_names, &mut *tokens);)*
                 }
             })
         })
-- 
2.43.0


From bb5b7bcbe60451342cdccd739b24eff625e9769f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 6/9] fix: derive(ToTokens) must compile for enums without
 variants

---
 parsel_derive/src/to_tokens.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parsel_derive/src/to_tokens.rs b/parsel_derive/src/to_tokens.rs
index 8672171..767ac04 100644
--- a/parsel_derive/src/to_tokens.rs
+++ b/parsel_derive/src/to_tokens.rs
@@ -73,6 +73,11 @@ fn expand_struct(data: &DataStruct) -> Result<TokenStream> {
 fn expand_enum(ty_name: &Ident, data: &DataEnum) -> Result<TokenStream> {
     let body = expand_variants(ty_name, data)?;
 
+    // A reference to an empty enum is not considered uninhabited
+    if data.variants.is_empty() {
+        return Ok(quote!(match *self {}));
+    }
+
     Ok(quote!{
         match self {
             #body
-- 
2.43.0


From 263764319136aa721b48c8a8f8ee84c8e53cea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 7/9] fix: restore the indentation level of the formatter when
 writing a group fails

---
 parsel/src/util.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index d104f1b..207c399 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -446,11 +446,13 @@ where
                     // NOTE: this _also_ applies when _not_ pretty-printing.
                     if !inner_stream.is_empty() {
                         self.indent_level += 1;
-                        self.write_newline(Spacing::Joint)?;
-
-                        self.write(inner_stream)?;
+                        let result = self
+                            .write_newline(Spacing::Joint)
+                            .and_then(|()| self.write(inner_stream));
 
+                        // restore the indentation even if writing failed
                         self.indent_level -= 1;
+                        result?;
                         self.write_newline_and_indent(Spacing::Joint)?;
                     }
 
-- 
2.43.0


From a86849d3bbadfc256ed1cd01957f03351bda14d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:50 +0000
Subject: [PATCH 8/9] fix: groups without delimiters must not influence the
 layout of the formatter

---
 parsel/src/util.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parsel/src/util.rs b/parsel/src/util.rs
index 207c399..50f8d16 100644
--- a/parsel/src/util.rs
+++ b/parsel/src/util.rs
@@ -353,6 +353,20 @@ where
     }
 }
 
+/// Replaces groups without (visible) delimiters by their contents. There is nothing
+/// to be written for such a group, so it must not influence the layout, either.
+fn flatten_invisible_groups(stream: TokenStream) -> TokenStream {
+    stream
+        .into_iter()
+        .flat_map(|tt| match tt {
+            TokenTree::Group(group) if group.delimiter() == Delimiter::None => {
+                flatten_invisible_groups(group.stream())
+            }
+            tt => TokenStream::from(tt),
+        })
+        .collect()
+}
+
 /// Helper type for correctly and reasonably "pretty"-printing any `TokenStream` in
 /// a grammar- and language-agnostic way. This mostly means dealing with parentheses,
 /// so that nested structures don't end up on one single long line.
@@ -403,7 +417,7 @@ where
     pub fn write(&mut self, stream: TokenStream) -> fmt::Result {
         self.write_indent()?;
         let mut spacing = Spacing::Joint;
-        let mut iter = stream.into_iter().peekable();
+        let mut iter = flatten_invisible_groups(stream).into_iter().peekable();
 
         while let Some(tt) = iter.next() {
             if spacing == Spacing::Joint {
@@ -428,12 +442,9 @@ where
                     }
                 }
                 TokenTree::Group(group) => {
-                    let inner_stream = group.stream();
+                    let inner_stream = flatten_invisible_groups(group.stream());
                     let (open, close) = match group.delimiter() {
-                        Delimiter::None => {
-                            self.write(inner_stream)?;
-                            continue;
-                        }
+                        Delimiter::None => unreachable!("invisible groups have been flattened"),
                         Delimiter::Parenthesis => ('(', ')'),
                         Delimiter::Bracket => ('[', ']'),
                         Delimiter::Brace => ('{', '}'),
-- 
2.43.0


From beb208a1372976f2521142b6efab1501f94cef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:42 +0000
Subject: [PATCH 9/9] fix: define_keywords! must compile for keyword types
 named T or bool

---
 parsel/src/ast.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parsel/src/ast.rs b/parsel/src/ast.rs
index 81b21ac..2cdd336 100644
--- a/parsel/src/ast.rs
+++ b/parsel/src/ast.rs
@@ -341,22 +341,22 @@ macro_rules! define_keywords {
         }
 
         // These traits are implemented manually because `Span: !PartialEq + !Hash`
-        impl<T> ::core::cmp::PartialEq<T> for $name
+        impl<__T> ::core::cmp::PartialEq<__T> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            __T: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn eq(&self, other: &T) -> bool {
+            fn eq(&self, other: &__T) -> ::core::primitive::bool {
                 self.as_str() == ::core::convert::AsRef::as_ref(other)
             }
         }
 
         impl ::core::cmp::Eq for $name {}
 
-        impl<T> ::core::cmp::PartialOrd<T> for $name
+        impl<__T> ::core::cmp::PartialOrd<__T> for $name
         where
-            T: ::core::convert::AsRef<::core::primitive::str>
+            __T: ::core::convert::AsRef<::core::primitive::str>
         {
-            fn partial_cmp(&self, other: &T) -> ::core::option::Option<::core::cmp::Ordering> {
+            fn partial_cmp(&self, other: &__T) -> ::core::option::Option<::core::cmp::Ordering> {
                 ::core::option::Option::Some(
                     ::core::cmp::Ord::cmp(self.as_str(), ::core::convert::AsRef::as_ref(other))
                 )
-- 
2.43.0

