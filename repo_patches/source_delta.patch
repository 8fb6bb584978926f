From c7dc0d3f016222f972120c84f86439f1c769336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 01/13] fix: use the existing leptos paths for SVG and MathML
 elements

`tachys::svg::element` and `tachys::math` do not exist, so no SVG or
MathML element could be used in `mview!`.
---
 leptos-mview-core/src/expand.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 7acabe7..f6b5d78 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -86,8 +86,8 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
     let tag_path = match element.tag() {
         Tag::Component(..) => return None,
         Tag::Html(ident) => quote! { ::leptos::tachys::html::element::#ident() },
-        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::element::#ident() },
-        Tag::Math(ident) => quote! { ::leptos::tachys::math::element::#ident() },
+        Tag::Svg(ident) => quote! { ::leptos::tachys::svg::#ident() },
+        Tag::Math(ident) => quote! { ::leptos::tachys::mathml::#ident() },
         Tag::WebComponent(ident) => {
             let ident = ident.to_lit_str();
             let custom = syn::Ident::new("custom", ident.span());
-- 
2.43.0


From 10da0b1ac5eac7a7116f16b91fa4b0051f9acd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 02/13] fix: expand the `use_` svg tag to the existing `r#use`
 element

There is no `tachys::svg::use_`; Leptos' own `view!` maps `use_` to
`r#use` as well.
---
 leptos-mview-core/src/ast/tag.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/leptos-mview-core/src/ast/tag.rs b/leptos-mview-core/src/ast/tag.rs
index 3706477..6235488 100644
--- a/leptos-mview-core/src/ast/tag.rs
+++ b/leptos-mview-core/src/ast/tag.rs
@@ -75,6 +75,10 @@ impl Parse for Tag {
         Ok(match kind {
             TagKind::Html => Self::Html(ident.to_snake_ident()),
             TagKind::Component => Self::Component(syn::Path::from(ident.to_snake_ident().unraw())),
+            // leptos only exports this element as `r#use`
+            TagKind::Svg if ident.repr() == "use_" => {
+                Self::Svg(syn::Ident::new_raw("use", ident.span()))
+            }
             TagKind::Svg => Self::Svg(ident.to_snake_ident()),
             TagKind::Math => Self::Math(ident.to_snake_ident()),
             TagKind::WebComponent => Self::WebComponent(ident),
-- 
2.43.0


From 894d75c5cf77c15ffaa7efa140179a1f5ed67334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 03/13] fix: expand `prop:` on components to
 `property::prop(name, value)`

It used to expand to `property::name(value)`, which does not exist.
---
 leptos-mview-core/src/expand/subroutines.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 70852e5..1ca3ec3 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -411,10 +411,11 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
-            let prop = directive.key.to_ident_or_emit();
+            // avoid making it string coloured
+            let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
             quote! {
-                ::leptos::tachys::html::property::#prop(#value)
+                ::leptos::tachys::html::property::#dir(#key, #value)
             }
         }
         "on" => {
-- 
2.43.0


From 4b5393853efcdc58a726763cb37c03640cc9f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 04/13] fix: report unknown modifiers on component directives

`class:`, `style:`, `attr:` and `prop:` on components silently dropped
their modifier, unlike the same directives on elements.
---
 leptos-mview-core/src/expand/subroutines.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/leptos-mview-core/src/expand/subroutines.rs b/leptos-mview-core/src/expand/subroutines.rs
index 1ca3ec3..5c53967 100644
--- a/leptos-mview-core/src/expand/subroutines.rs
+++ b/leptos-mview-core/src/expand/subroutines.rs
@@ -372,6 +372,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
     let dir = &directive.dir;
     let path = match &*dir.to_string() {
         "class" | "style" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
@@ -382,6 +383,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "attr" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             let attr_kind = AttributeKind::from(&*directive.key.to_lit_str().value());
             match attr_kind {
                 AttributeKind::Class | AttributeKind::Style => {
@@ -411,6 +413,7 @@ pub(super) fn directive_to_any_attr_path(directive: &Directive) -> Option<TokenS
             }
         }
         "prop" => {
+            emit_error_if_modifier(directive.modifier.as_ref());
             // avoid making it string coloured
             let key = directive.key.to_unspanned_string();
             let value = directive.value.clone().unwrap_or_else(Value::new_true);
-- 
2.43.0


From e91acd67acdfe9588f9c6ef1afea98eda72abf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 05/13] fix: report slots placed inside of xml elements

They used to be silently left out of the expansion.
---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f6b5d78..0b9c7b8 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,6 +113,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    for slot in element.children().iter().flat_map(|c| c.slot_children()) {
+        emit_error!(
+            slot.tag().span(),
+            "slots should be inside a parent that supports slots"
+        );
+    }
+
     let children = element
         .children()
         .map(|children| xml_child_methods_tokens(children.element_children()));
-- 
2.43.0


From 8b32cd09735a61ea225b550b8d5c8a62a8f22bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 06/13] fix: report closure arguments on the children of xml
 elements

They used to be silently left out of the expansion.
---
 leptos-mview-core/src/expand.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 0b9c7b8..120f03b 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -113,6 +113,13 @@ pub fn xml_to_tokens(element: &Element) -> Option<TokenStream> {
         }
     }
 
+    if let Some(args) = element.children_args() {
+        emit_error!(
+            args.span(),
+            "closure arguments are not supported on the children of elements"
+        );
+    }
+
     for slot in element.children().iter().flat_map(|c| c.slot_children()) {
         emit_error!(
             slot.tag().span(),
-- 
2.43.0


From 448e18b887d734245414c5d6865b5f23f0a3af7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 07/13] fix: keep the children closure of components if its
 body is empty

`Component |args| {}` silently dropped the closure and passed no children.
---
 leptos-mview-core/src/expand.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 120f03b..62a7396 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -275,8 +275,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
         let mut it = children.element_children().peekable();
         // need to check that there are any element children at all,
         // as components that accept slots may not accept children.
-        it.peek()
-            .is_some()
+        (it.peek().is_some() || element.children_args().is_some())
             .then(|| component_children_tokens(it, element.children_args(), &clones))
     });
 
-- 
2.43.0


From 82d232bf03be251531cb586ab35f593064742c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:21 +0000
Subject: [PATCH 08/13] fix: pass on slots that are nested in slots

They were expanded but never added to the outer slot's builder.
---
 leptos-mview-core/src/expand.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 62a7396..eb7d4b5 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -294,6 +294,7 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
                 #path::builder()
                     #attrs
                     #children
+                    #slot_children
                     #build
             )
         })
-- 
2.43.0


From fe9ca513a540cfd94b079034c4f6d8f956ed162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 09/13] fix: report `slot:` on non-components instead of
 panicking

---
 leptos-mview-core/src/expand.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index eb7d4b5..f0a0209 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -358,7 +358,8 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
-            panic!("called `slots_to_tokens` on non-slot element")
+            emit_error!(el.tag().span(), "slots must be components");
+            continue;
         };
         let slot_name = if let Some(ident) = path.get_ident() {
             ident.clone()
-- 
2.43.0


From 057711b3610ca85876578a1bb51d6bd6a576ea3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 10/13] fix: report words that can't be raw identifiers instead
 of panicking

`self`, `Self`, `super`, `crate` and `_` (also written as `-`) made
`Ident::new_raw` panic, e.g. with `mview! { self.field }`.
---
 leptos-mview-core/src/ast/ident.rs | 13 ++++++++++++-
 leptos-mview-core/src/expand.rs    |  4 ++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/leptos-mview-core/src/ast/ident.rs b/leptos-mview-core/src/ast/ident.rs
index a61a9e9..69b7cf1 100644
--- a/leptos-mview-core/src/ast/ident.rs
+++ b/leptos-mview-core/src/ast/ident.rs
@@ -102,7 +102,18 @@ impl KebabIdent {
         // which means it starts with `_` or another valid identifier beginning. The int
         // literals within the ident (e.g. between `-`s, like `blue-100`) are allowed
         // since the ident does not start with a number.
-        syn::Ident::new_raw(&snake_string, self.span())
+        raw_ident_or_emit(&snake_string, self.span())
+    }
+}
+
+/// Creates a raw identifier, or emits an error and returns a placeholder if
+/// `name` is one of the few words that can't be a raw identifier.
+pub fn raw_ident_or_emit(name: &str, span: Span) -> syn::Ident {
+    if matches!(name, "_" | "self" | "Self" | "super" | "crate" | "$crate") {
+        emit_error!(span, "`{}` cannot be used as an identifier", name);
+        syn::Ident::new("__invalid_identifier", span)
+    } else {
+        syn::Ident::new_raw(name, span)
     }
 }
 
diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index f0a0209..424855c 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -12,7 +12,7 @@ use syn::{ext::IdentExt, parse_quote, parse_quote_spanned, spanned::Spanned};
 
 use crate::ast::{
     attribute::{directive::Directive, selector::SelectorShorthand},
-    Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
+    raw_ident_or_emit, Attr, Element, KebabIdent, KebabIdentOrStr, NodeChild, Tag, Value,
 };
 
 /// Functions for specific parts of an element's expansion.
@@ -380,7 +380,7 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
     slot_children
         .into_iter()
         .map(|(slot_name, slot_tokens)| {
-            let method = syn::Ident::new_raw(
+            let method = raw_ident_or_emit(
                 &utils::upper_camel_to_snake_case(&slot_name.unraw().to_string()),
                 slot_name.span(),
             );
-- 
2.43.0


From 25e5108d4945c2cb9e703e3ca39e12f71927fed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 11/13] fix: expand slots in source order instead of a random
 order

The slots were iterated out of a `HashMap`, so the expansion (and the
order in which the slots are evaluated) changed between compilations.
---
 leptos-mview-core/src/expand.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/leptos-mview-core/src/expand.rs b/leptos-mview-core/src/expand.rs
index 424855c..0a920c3 100644
--- a/leptos-mview-core/src/expand.rs
+++ b/leptos-mview-core/src/expand.rs
@@ -3,8 +3,6 @@
 // putting specific `-> TokenStream` implementations here to have it all
 // grouped instead of scattered throughout struct impls.
 
-use std::collections::HashMap;
-
 use proc_macro2::{Span, TokenStream};
 use proc_macro_error2::emit_error;
 use quote::{quote, quote_spanned};
@@ -351,11 +349,12 @@ pub fn component_to_tokens<const IS_SLOT: bool>(element: &Element) -> Option<Tok
 /// ```
 /// Where the slot's name is converted to snake_case for the method name.
 fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStream {
-    // collect to hashmap //
+    // group by slot name //
 
     // Mapping from the slot name (component, UpperCamelCase name, not snake_case)
-    // to a vec of the each slot's expansion.
-    let mut slot_children = HashMap::<syn::Ident, Vec<TokenStream>>::new();
+    // to a vec of the each slot's expansion. In order of first appearance, so that
+    // the expansion is the same every time.
+    let mut slot_children = Vec::<(syn::Ident, Vec<TokenStream>)>::new();
     for el in children {
         let Tag::Component(path) = el.tag() else {
             emit_error!(el.tag().span(), "slots must be components");
@@ -370,10 +369,10 @@ fn slots_to_tokens<'a>(children: impl Iterator<Item = &'a Element>) -> TokenStre
 
         let slot_component =
             component_to_tokens::<true>(el).expect("checked that element is a component");
-        slot_children
-            .entry(slot_name)
-            .or_default()
-            .push(slot_component);
+        match slot_children.iter_mut().find(|(name, _)| *name == slot_name) {
+            Some((_, slots)) => slots.push(slot_component),
+            None => slot_children.push((slot_name, vec![slot_component])),
+        }
     }
 
     // convert to tokens //
-- 
2.43.0


From b451b2dce8e0b1ac71f9ba768632c0d5f408ac13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 12/13] fix: accept component paths with a leading `::` as
 children

`Tag` already supports them, but `Child` rejected them.
---
 leptos-mview-core/src/ast/children.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/children.rs b/leptos-mview-core/src/ast/children.rs
index 796b9fb..93a4329 100644
--- a/leptos-mview-core/src/ast/children.rs
+++ b/leptos-mview-core/src/ast/children.rs
@@ -76,7 +76,7 @@ impl Parse for Child {
             <Token![:]>::parse(input).unwrap();
             let elem = Element::parse(input)?;
             Ok(Self::Slot(slot, elem))
-        } else if input.peek(syn::Ident::peek_any) {
+        } else if input.peek(syn::Ident::peek_any) || input.peek(Token![::]) {
             let elem = Element::parse(input)?;
             Ok(Self::Node(NodeChild::Element(elem)))
         } else {
-- 
2.43.0


From 165032eabf62b210853d1cfd1f01eae8faffe641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:41 +0000
Subject: [PATCH 13/13] fix: report missing children blocks after closure
 arguments on the arguments

If there is nothing after the arguments, the error was reported on the
whole macro call.
---
 leptos-mview-core/src/ast/element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/leptos-mview-core/src/ast/element.rs b/leptos-mview-core/src/ast/element.rs
index 57c545f..6cecc0d 100644
--- a/leptos-mview-core/src/ast/element.rs
+++ b/leptos-mview-core/src/ast/element.rs
@@ -3,6 +3,7 @@ use proc_macro_error2::emit_error;
 use quote::{ToTokens, TokenStreamExt};
 use syn::{
     parse::{Parse, ParseStream},
+    spanned::Spanned,
     Token,
 };
 
@@ -86,8 +87,10 @@ impl Parse for Element {
                 Some(parse::parenthesized::<Children>(input)?.1)
             } else {
                 // continue trying to parse as if there are no children
+                // avoid call-site span
+                let span = if input.is_empty() { args.span() } else { input.span() };
                 emit_error!(
-                    input.span(),
+                    span,
                     "expected children block after closure arguments"
                 );
                 None
-- 
2.43.0

