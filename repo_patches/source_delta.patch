From 29215dd9353bd5078a711d97e3eac2c01608e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:51 +0000
Subject: [PATCH 01/40] fix: do not panic on non-ASCII names when deriving
 virtual type names

---
 xsd-internal/src/xsd/parse/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index 694107a..eecb47b 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -47,9 +47,10 @@ where
 
     let mut virtual_name = String::new();
     for name in names.into_iter() {
-        if !name.name.is_empty() {
-            virtual_name += name.name[0..1].to_ascii_uppercase().as_str();
-            virtual_name += &name.name[1..];
+        let mut chars = name.name.chars();
+        if let Some(first) = chars.next() {
+            virtual_name.push(first.to_ascii_uppercase());
+            virtual_name += chars.as_str();
         }
     }
 
-- 
2.43.0


From e706d523287cb22dd55847ab6cecbbc2a5ca0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:51 +0000
Subject: [PATCH 02/40] fix: generate valid identifiers for keywords and other
 names Rust does not accept

---
 xsd-internal/src/ast/leaf.rs |  6 +++---
 xsd-internal/src/ast/root.rs | 23 ++++++++++++-----------
 xsd-internal/src/utils.rs    | 36 +++++++++++++++++++++++++++++++-----
 3 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c565ff9..c388ad3 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -4,7 +4,7 @@ use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 
 #[derive(Debug, Clone)]
 pub struct Leaf {
@@ -155,7 +155,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
                         let mut vec = Vec::new();
@@ -185,7 +185,7 @@ impl Leaf {
                     unreachable!()
                 };
 
-                let first_name = format_ident!("{}", name.name.to_pascal_case());
+                let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
                         Some(#value)
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 3b4944b..e545f96 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,11 +1,12 @@
 use std::collections::HashMap;
 
+use crate::utils::{escape_ident, is_ident_char};
 use crate::xsd::context::SchemaContext;
 
 use super::{ElementContent, ElementDefinition, Leaf, LeafContent, LeafDefinition, Name};
 use inflector::Inflector;
 use proc_macro2::TokenStream;
-use quote::{format_ident, quote, TokenStreamExt};
+use quote::{quote, TokenStreamExt};
 use syn::Ident;
 
 #[derive(Debug, Clone)]
@@ -84,17 +85,17 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| format_ident!("{}", k));
+                let variants = names.keys().map(|k| escape_ident(k));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #name_xml => #root_name::#variant
                     }
                 });
                 let as_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
-                    let variant = format_ident!("{}", variant);
+                    let variant = escape_ident(variant);
                     quote! {
                         #root_name::#variant => #name_xml
                     }
@@ -144,7 +145,7 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
                         type_ident = quote! { Vec<#type_ident> }
@@ -206,7 +207,7 @@ impl Root {
             }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let name_xml = &variant.name.name;
                     let inner = variant.definition.to_xml_impl(ctx);
                     let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
@@ -282,13 +283,13 @@ impl Root {
             Root::Choice(ChoiceDefinition { variants, .. }) => {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
-                    let variant_name = format_ident!("{}", variant.name.name.to_pascal_case());
+                    let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let inner = variant.definition.from_xml_impl(ctx);
                     let name_xml = &variant.name.name;
                     let namespace_xml = ctx.quote_xml_namespace(&variant.name);
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
-                            let first_name = format_ident!("{}", name.name.to_pascal_case());
+                            let first_name = escape_ident(&name.name.to_pascal_case());
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
@@ -365,7 +366,7 @@ impl Root {
                                 // TODO: reflect that in the type?
                                 unreachable!()
                             };
-                            let name = format_ident!("{}", name.name.to_pascal_case());
+                            let name = escape_ident(&name.name.to_pascal_case());
                             Some(quote! {
                                 #name::lookahead(node)
                             })
@@ -397,7 +398,7 @@ impl Root {
                             // TODO: reflect that in the type?
                             unreachable!()
                         };
-                        let name = format_ident!("{}", name.name.to_pascal_case());
+                        let name = escape_ident(&name.name.to_pascal_case());
                         quote! {
                             #name::lookahead(node)
                         }
@@ -429,7 +430,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             .filter_map(|c| match c {
                 '_' | '-' => Some('_'),
                 c => {
-                    if c.is_alphanumeric() {
+                    if is_ident_char(c) {
                         Some(c)
                     } else {
                         None
diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 656910f..99fec12 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -1,13 +1,39 @@
 use quote::format_ident;
 
+/// Whether the char can be used inside of an identifier.
+pub fn is_ident_char(c: char) -> bool {
+    c == '_'
+        || c.is_ascii_alphanumeric()
+        || (!c.is_ascii()
+            && c.is_alphanumeric()
+            && syn::parse_str::<syn::Ident>(&format!("a{c}")).is_ok())
+}
+
 pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
-        " break" | "const" | "continue" | "crate" | "else" | "enum" | "extern" | "false" | "fn"
-        | "for" | "if" | "impl" | "in" | "let" | "loop" | "match" | "mod" | "move" | "mut"
-        | "pub" | "ref" | "return" | "self" | "Self" | "static" | "struct" | "super" | "trait"
-        | "true" | "type" | "unsafe" | "use" | "where" | "while" | "async" | "await" | "dyn" => {
+        // not allowed as raw identifiers
+        "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
+        "abstract" | "async" | "await" | "become" | "box" | "break" | "const" | "continue"
+        | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final" | "fn" | "for" | "gen"
+        | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match" | "mod" | "move" | "mut"
+        | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct" | "trait"
+        | "true" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use" | "virtual"
+        | "where" | "while" | "yield" => {
             format_ident!("r#{}", name)
         }
-        _ => format_ident!("{}", name),
+        _ => {
+            let mut ident: String = name
+                .chars()
+                .map(|c| if is_ident_char(c) { c } else { '_' })
+                .collect();
+            // identifiers must neither be empty nor start with e.g. a digit
+            if ident == "_" || syn::parse_str::<syn::Ident>(&ident).is_err() {
+                ident.insert(0, '_');
+            }
+            if ident == "_" {
+                ident.push('_');
+            }
+            format_ident!("{}", ident)
+        }
     }
 }
-- 
2.43.0


From 50b9476da60a1b437b436db69a91effd3ca9580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:41 +0000
Subject: [PATCH 03/40] fix: generated code must not break when a schema
 shadows prelude names

---
 xsd-internal/src/ast/attribute.rs    | 10 +++++-----
 xsd-internal/src/ast/leaf.rs         | 30 ++++++++++++++--------------
 xsd-internal/src/ast/leaf_content.rs |  2 +-
 xsd-internal/src/ast/literal_type.rs | 18 ++++++++---------
 xsd-internal/src/ast/root.rs         | 22 ++++++++++----------
 xsd-internal/src/xsd/context.rs      |  4 ++--
 xsd-internal/src/xsd/schema.rs       | 20 +++++++++----------
 7 files changed, 53 insertions(+), 53 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b03c06..8b54188 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -19,7 +19,7 @@ impl Attribute {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let mut type_ident = self.content.to_impl(ctx);
         if self.is_optional {
-            type_ident = quote! { Option<#type_ident> };
+            type_ident = quote! { ::std::option::Option<#type_ident> };
         }
         let docs = self
             .docs
@@ -46,7 +46,7 @@ impl Attribute {
                 let val = self.#name_ident.as_ref().map(|val| {
                     #inner
                 });
-                if let Some(val) = val {
+                if let ::std::option::Option::Some(val) = val {
                     ctx.set_attr(#name_xml, val)
                 }
             }
@@ -67,10 +67,10 @@ impl Attribute {
         if self.is_optional {
             quote! {
                 #name_ident: {
-                    if let Some(val) = node.attribute(#name_xml) {
-                        Some(#inner)
+                    if let ::std::option::Option::Some(val) = node.attribute(#name_xml) {
+                        ::std::option::Option::Some(#inner)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 },
             }
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index c388ad3..a1a3d1b 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -51,10 +51,10 @@ impl Leaf {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let mut type_ident = self.definition.to_impl(ctx);
         if self.is_vec() {
-            type_ident = quote! { Vec<#type_ident> }
+            type_ident = quote! { ::std::vec::Vec<#type_ident> }
         }
         if self.is_optional() {
-            type_ident = quote! { Option<#type_ident> }
+            type_ident = quote! { ::std::option::Option<#type_ident> }
         }
         let docs = self
             .definition
@@ -125,7 +125,7 @@ impl Leaf {
         }
         if self.is_optional() {
             tn = quote! {
-                if let Some(val) = val {
+                if let ::std::option::Option::Some(val) = val {
                     #tn
                 }
             };
@@ -158,7 +158,7 @@ impl Leaf {
                 let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     {
-                        let mut vec = Vec::new();
+                        let mut vec = ::std::vec::Vec::new();
                         while #first_name::lookahead(node) {
                             vec.push(#value);
                         }
@@ -170,9 +170,9 @@ impl Leaf {
                     value = quote! {
                         let val = #value;
                         if val.is_empty() {
-                            None
+                            ::std::option::Option::None
                         } else {
-                            Some(val)
+                            ::std::option::Option::Some(val)
                         }
                     }
                 }
@@ -188,9 +188,9 @@ impl Leaf {
                 let first_name = escape_ident(&name.name.to_pascal_case());
                 value = quote! {
                     if #first_name::lookahead(node) {
-                        Some(#value)
+                        ::std::option::Option::Some(#value)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 };
             }
@@ -198,8 +198,8 @@ impl Leaf {
             value = if self.is_vec() {
                 let mut from_vec = quote! {
                     {
-                        let mut vec = Vec::new();
-                        while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        let mut vec = ::std::vec::Vec::new();
+                        while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -210,9 +210,9 @@ impl Leaf {
                     from_vec = quote! {
                         let val = #from_vec;
                         if val.is_empty() {
-                            None
+                            ::std::option::Option::None
                         } else {
-                            Some(val)
+                            ::std::option::Option::Some(val)
                         }
                     }
                 }
@@ -220,10 +220,10 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
-                        Some(#value)
+                    if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        ::std::option::Option::Some(#value)
                     } else {
-                        None
+                        ::std::option::Option::None
                     }
                 }
             } else if self.is_unordered {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 1c2733a..53a554c 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -64,7 +64,7 @@ impl LeafContent {
                     {
                         let val = node.text()?;
                         if val != #fixed {
-                            return Err(::xsd::decode::FromXmlError::FixedMismatch {
+                            return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
                                 expected: #fixed,
                                 received: val.to_string(),
                             }.into());
diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 9229eff..556ec20 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -45,22 +45,22 @@ impl LiteralType {
     pub fn to_impl(&self) -> TokenStream {
         use LiteralType::*;
         match self {
-            String => quote! { String },
+            String => quote! { ::std::string::String },
             Boolean => quote! { bool },
             Int64 => quote! { i64 },
             Uint64 => quote! { u64 },
             Int32 => quote! { i32 },
             Decimal => quote! { rust_decimal::Decimal },
             Float32 => quote! { f32 },
-            Any => quote! { String },
+            Any => quote! { ::std::string::String },
 
             // TODO: use proper types for the following
-            DateTime => quote! { String },
-            Time => quote! { String },
-            Date => quote! { String },
-            Duration => quote! { String },
-            Base64Binary => quote! { String },
-            HexBinary => quote! { String },
+            DateTime => quote! { ::std::string::String },
+            Time => quote! { ::std::string::String },
+            Date => quote! { ::std::string::String },
+            Duration => quote! { ::std::string::String },
+            Base64Binary => quote! { ::std::string::String },
+            HexBinary => quote! { ::std::string::String },
         }
     }
 
@@ -75,7 +75,7 @@ impl LiteralType {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
-                    err: Box::new(err),
+                    err: ::std::boxed::Box::new(err),
                 }
             })?
         }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index e545f96..38dcd9d 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -63,12 +63,12 @@ impl Root {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
 
-                            fn from_str(s: &str) -> Result<Self, Self::Err> {
-                                Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
+                            fn from_str(s: &str) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
+                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
                                     ::xsd::decode::FromXmlError::ParseType {
                                         type_: #type_.to_string(),
                                         value: s.to_string(),
-                                        err: Box::new(err),
+                                        err: ::std::boxed::Box::new(err),
                                     }
                                 })?))
                             }
@@ -109,10 +109,10 @@ impl Root {
                     impl ::std::str::FromStr for #root_name {
                         type Err = ::xsd::decode::FromXmlError;
 
-                        fn from_str(s: &str) -> Result<Self, Self::Err> {
-                            Ok(match s {
+                        fn from_str(s: &str) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
+                            ::std::result::Result::Ok(match s {
                                 #(#from_str_variants,)*
-                                _ => return Err(::xsd::decode::FromXmlError::InvalidVariant {
+                                _ => return ::std::result::Result::Err(::xsd::decode::FromXmlError::InvalidVariant {
                                     name: s.to_string(),
                                 })
                             })
@@ -148,7 +148,7 @@ impl Root {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
                     let mut type_ident = variant.definition.to_impl(ctx);
                     if variant.is_vec() {
-                        type_ident = quote! { Vec<#type_ident> }
+                        type_ident = quote! { ::std::vec::Vec<#type_ident> }
                     }
                     quote! {
                         #variant_name(#type_ident)
@@ -305,8 +305,8 @@ impl Root {
                         if variant.is_vec() {
                             quote! {
                                 if node.peek_child(#name_xml, #namespace_xml) {
-                                    let mut vec = Vec::new();
-                                    while let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                                    let mut vec = ::std::vec::Vec::new();
+                                    while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                         vec.push(#inner);
                                     }
                                     Self::#variant_name(vec)
@@ -314,7 +314,7 @@ impl Root {
                             }
                         } else {
                             quote! {
-                                if let Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                                if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
                                     Self::#variant_name(#inner)
                                 }
                             }
@@ -325,7 +325,7 @@ impl Root {
                 let variant_name = name.to_string();
                 quote! {
                     #(#variants else )* {
-                        return Err(::xsd::decode::FromXmlError::MissingVariant {
+                        return ::std::result::Result::Err(::xsd::decode::FromXmlError::MissingVariant {
                             name: #variant_name.to_string(),
                         }.into())
                     }
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f676c72..f0c2a91 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -165,11 +165,11 @@ impl SchemaContext {
 
     pub fn quote_xml_namespace(&self, name: &Name) -> TokenStream {
         match &name.namespace {
-            Namespace::None => quote!(None),
+            Namespace::None => quote!(::std::option::Option::None),
             Namespace::Id(id) => {
                 let ns = self.namespaces.get_by_id(*id);
                 let ns = &ns.namespace;
-                quote!(Some(#ns))
+                quote!(::std::option::Option::Some(#ns))
             }
         }
     }
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cc1a1b2..af0cada 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -255,36 +255,36 @@ impl Schema {
 
         result.append_all(quote! {
             impl #name_ident {
-                pub fn to_xml(&self) -> Result<Vec<u8>, ::xsd::xml::writer::Error> {
+                pub fn to_xml(&self) -> ::std::result::Result<::std::vec::Vec<u8>, ::xsd::xml::writer::Error> {
                     use ::xsd::xml::writer::events::XmlEvent;
 
-                    let mut body = Vec::new();
+                    let mut body = ::std::vec::Vec::new();
                     let mut writer = ::xsd::xml::writer::EmitterConfig::new()
                         .perform_indent(true)
                         .create_writer(&mut body);
 
                     writer.write(XmlEvent::StartDocument {
                         version: ::xsd::xml::common::XmlVersion::Version10,
-                        encoding: Some("UTF-8"),
-                        standalone: None,
+                        encoding: ::std::option::Option::Some("UTF-8"),
+                        standalone: ::std::option::Option::None,
                     })?;
                     let mut ctx = ::xsd::Context::new(#name_xml);
                     self.to_xml_writer(ctx, &mut writer)?;
 
-                    Ok(body)
+                    ::std::result::Result::Ok(body)
                 }
 
                 fn to_xml_writer<'a, 'b, W: ::std::io::Write>(
                     &'a self,
                     mut ctx: ::xsd::Context<'a, 'b>,
                     writer: &mut ::xsd::xml::writer::EventWriter<W>,
-                ) -> Result<(), ::xsd::xml::writer::Error> {
+                ) -> ::std::result::Result<(), ::xsd::xml::writer::Error> {
                     use ::xsd::xml::writer::events::XmlEvent;
 
                     #(ctx #element_ns;)*
                     #to_xml
 
-                    Ok(())
+                    ::std::result::Result::Ok(())
                 }
             }
         });
@@ -295,14 +295,14 @@ impl Schema {
 
         result.append_all(quote! {
             impl #name_ident {
-                pub fn from_xml(input: impl AsRef<str>) -> Result<Self, ::xsd::decode::FromXmlError> {
+                pub fn from_xml(input: impl ::std::convert::AsRef<str>) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
                     let doc = ::xsd::decode::decode(input.as_ref())?;
                     let node = doc.try_child(#name_xml, #namespace_xml)?;
                     Self::from_xml_node(&node)
                 }
 
-                fn from_xml_node(node: &::xsd::decode::Node) -> Result<Self, ::xsd::decode::FromXmlError> {
-                    Ok(#from_xml)
+                fn from_xml_node(node: &::xsd::decode::Node) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
+                    ::std::result::Result::Ok(#from_xml)
                 }
             }
         });
-- 
2.43.0


From 860eb0a1583de533647071b85f7462acc4a2ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:04 +0000
Subject: [PATCH 04/40] fix: choice variants and simple root elements must
 write their own element

A choice variant or root element whose content is a named simple type or a
fixed value was written without its element, and choice variants were
written without their namespace prefix.
---
 xsd-internal/src/ast/element_definition.rs | 10 ++--------
 xsd-internal/src/ast/leaf.rs               | 18 +-----------------
 xsd-internal/src/ast/leaf_content.rs       |  8 ++++++++
 xsd-internal/src/ast/root.rs               | 13 +++----------
 4 files changed, 14 insertions(+), 35 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 8504397..26fff43 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,4 @@
-use crate::ast::{LeafContent, LeafDefinition};
+use crate::ast::LeafDefinition;
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -43,13 +43,7 @@ impl ElementDefinition {
         // is still able to add attributes to the XML element
         let is_named_leaf = matches!(
             self.content,
-            Some(ElementContent::Leaf(
-                _,
-                LeafDefinition {
-                    content: LeafContent::Named(_),
-                    ..
-                },
-            ))
+            Some(ElementContent::Leaf(_, LeafDefinition { ref content, .. })) if !content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
         if wrap {
diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index a1a3d1b..74fa7bb 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -1,5 +1,4 @@
 use super::{LeafContent, LeafDefinition, Name};
-use crate::ast::Root;
 use crate::utils::escape_ident;
 use crate::xsd::context::SchemaContext;
 use inflector::Inflector;
@@ -85,22 +84,7 @@ impl Leaf {
             });
         }
 
-        let wrap = !self.is_virtual
-            && match &self.definition {
-                LeafDefinition {
-                    content: LeafContent::Named(name),
-                    ..
-                } => {
-                    matches!(
-                        ctx.resolve(name),
-                        Some(Root::Leaf(LeafDefinition {
-                            content: LeafContent::Literal(_),
-                            ..
-                        }))
-                    )
-                }
-                _ => true,
-            };
+        let wrap = !self.is_virtual && self.definition.content.is_text(ctx);
 
         if wrap {
             tn.append_all(quote! {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 53a554c..bbbe73a 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -12,6 +12,14 @@ pub enum LeafContent {
 }
 
 impl LeafContent {
+    /// Whether the content is only text. Other contents write their own element.
+    pub fn is_text(&self, ctx: &SchemaContext) -> bool {
+        match self {
+            LeafContent::Literal(_) | LeafContent::Fixed(_) => true,
+            LeafContent::Named(name) => matches!(ctx.resolve(name), Some(Root::Leaf(_))),
+        }
+    }
+
     pub fn to_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.to_impl(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 38dcd9d..534e012 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -173,13 +173,7 @@ impl Root {
                     #inner
                 };
                 // TODO: improve those cases to make them easier to understand
-                if !matches!(
-                    def,
-                    LeafDefinition {
-                        content: LeafContent::Named(_),
-                        ..
-                    }
-                ) {
+                if def.content.is_text(ctx) {
                     quote! {
                         ctx.write_start_element(writer)?;
                         #tn
@@ -208,10 +202,9 @@ impl Root {
                 // TODO: use escape_enum_names?
                 let variants = variants.iter().map(|variant| {
                     let variant_name = escape_ident(&variant.name.name.to_pascal_case());
-                    let name_xml = &variant.name.name;
+                    let name_xml = ctx.get_xml_element_name(&variant.name);
                     let inner = variant.definition.to_xml_impl(ctx);
-                    let is_literal = matches!(variant.definition.content, LeafContent::Literal(_));
-                    let mut inner = if is_literal {
+                    let mut inner = if variant.definition.content.is_text(ctx) {
                         quote! {
                             let mut ctx = ::xsd::Context::new(#name_xml);
                             ctx.write_start_element(writer)?;
-- 
2.43.0


From 7b2edf98372d7906fcefc558c85d118d204c69b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:13 +0000
Subject: [PATCH 05/40] fix: write the attributes of the base type of
 extensions with a sequence

---
 xsd-internal/src/ast/element_definition.rs | 19 +++++++++--
 xsd/src/lib.rs                             | 39 +++++++++++++---------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 26fff43..72812d2 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -1,4 +1,4 @@
-use crate::ast::LeafDefinition;
+use crate::ast::{LeafContent, LeafDefinition, Root};
 use crate::xsd::context::SchemaContext;
 
 use super::{Attribute, ElementContent};
@@ -46,7 +46,7 @@ impl ElementDefinition {
             Some(ElementContent::Leaf(_, LeafDefinition { ref content, .. })) if !content.is_text(ctx)
         );
         let wrap = !self.is_virtual && !is_named_leaf;
-        if wrap {
+        if wrap && !self.has_base(ctx) {
             ts.append_all(quote! { ctx.write_start_element(writer)?; });
         }
         if let Some(content) = &self.content {
@@ -58,6 +58,21 @@ impl ElementDefinition {
         ts
     }
 
+    /// Whether the first leaf is the base type of an extension.
+    fn has_base(&self, ctx: &SchemaContext) -> bool {
+        let Some(ElementContent::Leaves(leaves)) = &self.content else {
+            return false;
+        };
+        leaves
+            .first()
+            .is_some_and(|leaf| match &leaf.definition.content {
+                LeafContent::Named(name) if leaf.is_virtual => {
+                    matches!(ctx.resolve(name), Some(Root::Element(def)) if !def.is_virtual)
+                }
+                _ => false,
+            })
+    }
+
     pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let mut ts = TokenStream::new();
         if let Some(content) = &self.content {
diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6ad4798..6df506a 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -21,6 +21,7 @@ pub struct ContextInner<'a> {
     name: Name<'a>,
     attributes: Vec<(Name<'a>, Cow<'a, str>)>,
     namespace: Namespace,
+    started: bool,
 }
 
 impl<'a, 'b> Context<'a, 'b> {
@@ -29,6 +30,7 @@ impl<'a, 'b> Context<'a, 'b> {
             name: name.into(),
             attributes: Vec::new(),
             namespace: Namespace::empty(),
+            started: false,
         })
     }
 
@@ -72,23 +74,28 @@ impl<'a, 'b> Context<'a, 'b> {
         &mut self,
         writer: &mut ::xml::writer::EventWriter<W>,
     ) -> Result<(), xml::writer::Error> {
-        match self {
-            Context::Virtual(_) => {}
-            Context::Context(inner) => {
-                let attributes = mem::take(&mut inner.attributes);
-                let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
-                writer.write(XmlEvent::StartElement {
-                    name: inner.name,
-                    attributes: Cow::Owned(
-                        attributes
-                            .iter()
-                            .map(|(k, v)| Attribute::new(*k, v))
-                            .collect(),
-                    ),
-                    namespace: Cow::Owned(namespace),
-                })?
-            }
+        let inner = match self {
+            Context::Virtual(inner) => inner,
+            Context::Context(inner) => inner,
+        };
+        // e.g. already written by the base type (<xs:extension base="" />)
+        if inner.started {
+            return Ok(());
         }
+        inner.started = true;
+
+        let attributes = mem::take(&mut inner.attributes);
+        let namespace = mem::replace(&mut inner.namespace, Namespace::empty());
+        writer.write(XmlEvent::StartElement {
+            name: inner.name,
+            attributes: Cow::Owned(
+                attributes
+                    .iter()
+                    .map(|(k, v)| Attribute::new(*k, v))
+                    .collect(),
+            ),
+            namespace: Cow::Owned(namespace),
+        })?;
 
         Ok(())
     }
-- 
2.43.0


From 8218eb7dca173f7081c4fd5d60b07392a7ae6a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:19 +0000
Subject: [PATCH 06/40] fix: find optional elements of xs:all in any order

---
 xsd-internal/src/ast/leaf.rs | 16 ++++++++--------
 xsd-internal/src/ast/root.rs |  2 +-
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/ast/leaf.rs b/xsd-internal/src/ast/leaf.rs
index 74fa7bb..1ce5b0b 100644
--- a/xsd-internal/src/ast/leaf.rs
+++ b/xsd-internal/src/ast/leaf.rs
@@ -179,11 +179,16 @@ impl Leaf {
                 };
             }
         } else {
+            let (child, try_child) = if self.is_unordered {
+                (quote!(child), quote!(try_child))
+            } else {
+                (quote!(next_child), quote!(try_next_child))
+            };
             value = if self.is_vec() {
                 let mut from_vec = quote! {
                     {
                         let mut vec = ::std::vec::Vec::new();
-                        while let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                        while let ::std::option::Option::Some(node) = node.#child(#name_xml, #namespace_xml) {
                             vec.push(#value);
                         }
                         vec
@@ -204,20 +209,15 @@ impl Leaf {
                 from_vec
             } else if self.is_optional() {
                 quote! {
-                    if let ::std::option::Option::Some(node) = node.next_child(#name_xml, #namespace_xml) {
+                    if let ::std::option::Option::Some(node) = node.#child(#name_xml, #namespace_xml) {
                         ::std::option::Option::Some(#value)
                     } else {
                         ::std::option::Option::None
                     }
                 }
-            } else if self.is_unordered {
-                quote! {
-                    let node = node.try_child(#name_xml, #namespace_xml)?;
-                    #value
-                }
             } else {
                 quote! {
-                    let node = node.try_next_child(#name_xml, #namespace_xml)?;
+                    let node = node.#try_child(#name_xml, #namespace_xml)?;
                     #value
                 }
             };
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 534e012..dde80a1 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -349,7 +349,7 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional();
+                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
-- 
2.43.0


From ed578636c8661f1bc2fcb676b96563dec0770980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:36 +0000
Subject: [PATCH 07/40] fix: comments and processing instructions must not
 truncate text content

---
 xsd-internal/src/ast/leaf_content.rs |  1 +
 xsd-internal/src/ast/root.rs         |  2 +-
 xsd/src/decode.rs                    | 23 ++++++++++++++++-------
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index bbbe73a..131a658 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -59,6 +59,7 @@ impl LeafContent {
                 quote! {
                     {
                         let val = node.text()?;
+                        let val: &str = &val;
                         #inner
                     }
                 }
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index dde80a1..cf909a8 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -263,7 +263,7 @@ impl Root {
                 quote! {
                     {
                         let val = node.text()?;
-                        ::std::str::FromStr::from_str(val)?
+                        ::std::str::FromStr::from_str(&val)?
                     }
                 }
             }
diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index a627f2b..0dd2930 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -1,3 +1,4 @@
+use std::borrow::Cow;
 use std::cell::RefCell;
 use std::collections::VecDeque;
 use std::ops::Range;
@@ -177,14 +178,22 @@ impl<'a> Node<'a> {
             })
     }
 
-    pub fn text(&self) -> Result<&str, FromXmlError> {
-        if self.node.first_child().is_none() {
-            Ok("")
-        } else {
-            self.node.text().ok_or_else(|| FromXmlError::TextExpected {
-                name: self.node.tag_name().name().to_string(),
-            })
+    /// The text up to the first child element. Comments and processing instructions are ignored.
+    pub fn text(&self) -> Result<Cow<'a, str>, FromXmlError> {
+        let mut text = Cow::Borrowed("");
+        for child in self.node.children() {
+            if let Some(part) = child.text().filter(|_| child.is_text()) {
+                text += part;
+            } else if child.is_element() {
+                if text.is_empty() {
+                    return Err(FromXmlError::TextExpected {
+                        name: self.node.tag_name().name().to_string(),
+                    });
+                }
+                break;
+            }
         }
+        Ok(text)
     }
 
     pub fn range(&self) -> Range<usize> {
-- 
2.43.0


From e51b11ef0ab07bf62caf33c59d03186cc84b4601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:07 +0000
Subject: [PATCH 08/40] fix: decode attributes of named simple types and check
 fixed attribute values

---
 xsd-internal/src/ast/attribute.rs          |  6 ++---
 xsd-internal/src/ast/element_definition.rs |  2 +-
 xsd-internal/src/ast/leaf_content.rs       | 26 +++++++++++++---------
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index 8b54188..aa9e372 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -59,16 +59,16 @@ impl Attribute {
         }
     }
 
-    pub fn from_xml_impl(&self) -> TokenStream {
+    pub fn from_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = &self.name.name;
-        let inner = self.content.from_str_impl();
+        let inner = self.content.from_str_impl(ctx);
 
         if self.is_optional {
             quote! {
                 #name_ident: {
                     if let ::std::option::Option::Some(val) = node.attribute(#name_xml) {
-                        ::std::option::Option::Some(#inner)
+                        ::std::option::Option::Some({ #inner })
                     } else {
                         ::std::option::Option::None
                     }
diff --git a/xsd-internal/src/ast/element_definition.rs b/xsd-internal/src/ast/element_definition.rs
index 72812d2..cb96973 100644
--- a/xsd-internal/src/ast/element_definition.rs
+++ b/xsd-internal/src/ast/element_definition.rs
@@ -79,7 +79,7 @@ impl ElementDefinition {
             ts.append_all(content.from_xml_impl(ctx));
         }
         for attr in &self.attributes {
-            ts.append_all(attr.from_xml_impl());
+            ts.append_all(attr.from_xml_impl(ctx));
         }
         quote! {
             {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index 131a658..a9830c6 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -68,27 +68,33 @@ impl LeafContent {
                 Some(Root::Leaf(def)) => def.from_xml_impl(ctx),
                 _ => name.from_xml_impl(),
             },
-            LeafContent::Fixed(fixed) => {
+            LeafContent::Fixed(_) => {
+                let inner = self.from_str_impl(ctx);
                 quote! {
                     {
                         let val = node.text()?;
-                        if val != #fixed {
-                            return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
-                                expected: #fixed,
-                                received: val.to_string(),
-                            }.into());
-                        }
+                        #inner
                     }
                 }
             }
         }
     }
 
-    pub fn from_str_impl(&self) -> TokenStream {
+    pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
-            LeafContent::Named(name) => name.from_str_impl(),
-            LeafContent::Fixed(_) => quote! { () },
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.from_str_impl(ctx),
+                _ => name.from_str_impl(),
+            },
+            LeafContent::Fixed(fixed) => quote! {
+                if val != #fixed {
+                    return ::std::result::Result::Err(::xsd::decode::FromXmlError::FixedMismatch {
+                        expected: #fixed,
+                        received: val.to_string(),
+                    }.into());
+                }
+            },
         }
     }
 }
-- 
2.43.0


From 06336e4ee4d0710ebde5a1d95ac2d9a7bb0dcddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:45 +0000
Subject: [PATCH 09/40] fix: accept and write the lexical representations of
 XSD numbers and booleans

Leading and trailing whitespace is not significant for numbers and booleans,
1 and 0 are valid booleans, and infinity is written as INF.
---
 xsd-internal/src/ast/attribute.rs    |  6 +-----
 xsd-internal/src/ast/leaf_content.rs | 11 +++++++++++
 xsd-internal/src/ast/literal_type.rs | 26 ++++++++++++++++++++++++--
 xsd-internal/src/ast/root.rs         |  9 +++++----
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/xsd-internal/src/ast/attribute.rs b/xsd-internal/src/ast/attribute.rs
index aa9e372..aec4151 100644
--- a/xsd-internal/src/ast/attribute.rs
+++ b/xsd-internal/src/ast/attribute.rs
@@ -36,11 +36,7 @@ impl Attribute {
     pub fn to_xml_impl(&self, ctx: &SchemaContext) -> TokenStream {
         let name_ident = escape_ident(&self.name.name.to_snake_case());
         let name_xml = ctx.get_xml_element_name(&self.name);
-        let inner = match &self.content {
-            LeafContent::Literal(literal) => literal.to_xml_impl(),
-            LeafContent::Named(_) => quote! { val.to_string() },
-            LeafContent::Fixed(fixed) => quote! { #fixed },
-        };
+        let inner = self.content.to_str_impl(ctx);
         if self.is_optional {
             quote! {
                 let val = self.#name_ident.as_ref().map(|val| {
diff --git a/xsd-internal/src/ast/leaf_content.rs b/xsd-internal/src/ast/leaf_content.rs
index a9830c6..c9562f6 100644
--- a/xsd-internal/src/ast/leaf_content.rs
+++ b/xsd-internal/src/ast/leaf_content.rs
@@ -80,6 +80,17 @@ impl LeafContent {
         }
     }
 
+    pub fn to_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
+        match self {
+            LeafContent::Literal(literal) => literal.to_xml_impl(),
+            LeafContent::Named(name) => match ctx.elements.get(name) {
+                Some(Root::Leaf(def)) => def.content.to_str_impl(ctx),
+                _ => quote! { val.to_string() },
+            },
+            LeafContent::Fixed(fixed) => quote! { #fixed },
+        }
+    }
+
     pub fn from_str_impl(&self, ctx: &SchemaContext) -> TokenStream {
         match self {
             LeafContent::Literal(literal) => literal.from_str_impl(),
diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 556ec20..537382c 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -65,13 +65,35 @@ impl LiteralType {
     }
 
     pub fn to_xml_impl(&self) -> TokenStream {
-        quote!(val.to_string())
+        match self {
+            // infinity is `INF` in XSD, but `inf` in Rust
+            LiteralType::Float32 => quote!(val.to_string().replace("inf", "INF")),
+            _ => quote!(val.to_string()),
+        }
+    }
+
+    /// Bring the lexical representation of `val` into the one expected by Rust.
+    pub fn normalize_impl(&self) -> TokenStream {
+        use LiteralType::*;
+        let trimmed = quote!(val.trim_matches([' ', '\t', '\n', '\r']));
+        match self {
+            Boolean => quote! {
+                match #trimmed {
+                    "1" => "true",
+                    "0" => "false",
+                    val => val,
+                }
+            },
+            Int64 | Uint64 | Int32 | Decimal | Float32 => trimmed,
+            _ => quote!(val),
+        }
     }
 
     pub fn from_str_impl(&self) -> TokenStream {
         let type_ = self.xsd_name();
+        let normalized = self.normalize_impl();
         quote! {
-            std::str::FromStr::from_str(val).map_err(|err| {
+            ::std::str::FromStr::from_str(#normalized).map_err(|err| {
                 ::xsd::decode::FromXmlError::ParseType {
                     type_: #type_.to_string(),
                     value: val.to_string(),
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index cf909a8..c82ca86 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -57,17 +57,18 @@ impl Root {
                 let mut tn = quote! {
                     (pub #inner);
                 };
-                if matches!(def.content, LeafContent::Literal(_)) {
+                if let LeafContent::Literal(literal) = &def.content {
                     let type_ = root_name.to_string();
+                    let normalized = literal.normalize_impl();
                     tn.append_all(quote! {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
 
-                            fn from_str(s: &str) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
-                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(s).map_err(|err| {
+                            fn from_str(val: &str) -> ::std::result::Result<Self, ::xsd::decode::FromXmlError> {
+                                ::std::result::Result::Ok(#root_name(::std::str::FromStr::from_str(#normalized).map_err(|err| {
                                     ::xsd::decode::FromXmlError::ParseType {
                                         type_: #type_.to_string(),
-                                        value: s.to_string(),
+                                        value: val.to_string(),
                                         err: ::std::boxed::Box::new(err),
                                     }
                                 })?))
-- 
2.43.0


From 8c1aaf765714df30e3fa5502e252f5f723279324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:31 +0000
Subject: [PATCH 10/40] fix: do not skip optional sequences that start with a
 nested sequence without required elements

---
 xsd-internal/src/ast/root.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index c82ca86..2f41946 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -350,7 +350,8 @@ impl Root {
                         if *prev_required {
                             return None;
                         }
-                        *prev_required = !leaf.is_optional() && !leaf.is_unordered;
+                        *prev_required =
+                            !is_emptiable(leaf, ctx, &mut Vec::new()) && !leaf.is_unordered;
 
                         if leaf.is_virtual {
                             let name = if let LeafContent::Named(name) = &leaf.definition.content {
@@ -413,6 +414,29 @@ impl Root {
     }
 }
 
+/// Whether the leaf can be absent because it either is optional itself, or because it is virtual
+/// and everything it consists of can be absent.
+fn is_emptiable<'a>(leaf: &'a Leaf, ctx: &'a SchemaContext, seen: &mut Vec<&'a Name>) -> bool {
+    if leaf.is_optional() {
+        return true;
+    }
+    let name = match &leaf.definition.content {
+        LeafContent::Named(name) if leaf.is_virtual && !seen.contains(&name) => name,
+        _ => return false,
+    };
+    seen.push(name);
+    match ctx.resolve(name) {
+        Some(Root::Element(def)) => match &def.content {
+            Some(ElementContent::Leaves(leaves)) => {
+                leaves.iter().all(|leaf| is_emptiable(leaf, ctx, seen))
+            }
+            Some(ElementContent::Leaf(..)) => false,
+            None => true,
+        },
+        _ => false,
+    }
+}
+
 fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
     let mut unknown_count = 0;
     let mut enum_names = HashMap::with_capacity(names.len());
-- 
2.43.0


From 47d3ca0a8487a1ac9d24d7555fb4688f681d5cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:49 +0000
Subject: [PATCH 11/40] fix: decode all occurrences of repeated sequences
 inside of choices

---
 xsd-internal/src/ast/root.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 2f41946..a63fc44 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -284,6 +284,19 @@ impl Root {
                     if variant.is_virtual {
                         if let LeafContent::Named(name) = &variant.definition.content {
                             let first_name = escape_ident(&name.name.to_pascal_case());
+                            let inner = if variant.is_vec() {
+                                quote! {
+                                    {
+                                        let mut vec = ::std::vec::Vec::new();
+                                        while #first_name::lookahead(node) {
+                                            vec.push(#inner);
+                                        }
+                                        vec
+                                    }
+                                }
+                            } else {
+                                inner
+                            };
                             quote! {
                                 if #first_name::lookahead(node) {
                                     Self::#variant_name(#inner)
-- 
2.43.0


From 9a673d96b0453983ed9b349cf46af2d05091f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:06 +0000
Subject: [PATCH 12/40] fix: resolve unprefixed type names against the default
 namespace

---
 xsd-internal/src/xsd/context.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index f0c2a91..8ac4996 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -139,7 +139,11 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            Ok(LeafContent::Named(Name::new(name, Namespace::None)))
+            let namespace = match self.default_namespace {
+                Some(ns) if !ns.is_empty() => self.shared.namespaces.get_or_insert(ns),
+                _ => Namespace::None,
+            };
+            Ok(LeafContent::Named(Name::new(name, namespace)))
         }
     }
 
-- 
2.43.0


From d11023d416b4f86de49274002a06559786476e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:34 +0000
Subject: [PATCH 13/40] fix: parse each included schema file only once to
 support circular includes

---
 xsd-internal/src/xsd/context.rs |  7 +++++
 xsd-internal/src/xsd/schema.rs  | 46 +++++++++++++++++++++++----------
 2 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 8ac4996..239aeeb 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,5 @@
 use std::collections::{HashMap, HashSet};
+use std::path::PathBuf;
 
 use super::error::XsdError;
 use super::node::Attribute;
@@ -24,6 +25,8 @@ pub struct SharedContext {
     pub namespaces: Namespaces,
     /// Dependencies between structs. Key = parent, Value = child
     pub dependencies: HashMap<Name, HashSet<Name>>,
+    /// The schema files parsed so far (each one only has to be included/imported once).
+    pub files: HashSet<PathBuf>,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -64,6 +67,9 @@ impl<'input> Context<'input> {
     pub fn take_shared(&mut self) -> SharedContext {
         std::mem::take(&mut self.shared)
     }
+    pub fn shared(&self) -> &SharedContext {
+        &self.shared
+    }
     pub fn set_shared(&mut self, shared: SharedContext) {
         self.shared = shared
     }
@@ -81,6 +87,7 @@ impl<'input> Context<'input> {
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
+            files: self.shared.files,
         }
     }
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index af0cada..6e72d47 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -2,7 +2,10 @@ use std::collections::HashSet;
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
-use std::{collections::HashMap, path::Path};
+use std::{
+    collections::HashMap,
+    path::{Path, PathBuf},
+};
 
 use super::context::{Context, SchemaContext, SharedContext, NS_XSD};
 use super::error::XsdError;
@@ -18,6 +21,7 @@ use roxmltree::{Document, TextPos};
 pub struct Schema {
     pub(crate) dependencies: HashMap<Name, HashSet<Name>>,
     pub(crate) context: SchemaContext,
+    pub(crate) files: HashSet<PathBuf>,
 }
 
 impl Schema {
@@ -67,20 +71,25 @@ impl Schema {
             }
         };
 
+        let mut shared = shared.unwrap_or_default();
+        shared.files.insert(file_key(&path));
+
         let base_path = path.parent().unwrap_or(path.as_path());
         let root_node = doc.root_element().into();
-        Schema::parse_schema_with_context(&root_node, base_path, shared).map_err(|err| match err {
-            ParseError::Schema(err) => err,
-            ParseError::Xsd(err) => {
-                let pos = err
-                    .range()
-                    .map(|range| doc.text_pos_at(range.start))
-                    .unwrap_or_else(|| TextPos { row: 0, col: 0 });
-                SchemaError::Xsd {
-                    file: path.to_string_lossy().to_string(),
-                    row: pos.row,
-                    col: pos.col,
-                    err: Box::new(err),
+        Schema::parse_schema_with_context(&root_node, base_path, Some(shared)).map_err(|err| {
+            match err {
+                ParseError::Schema(err) => err,
+                ParseError::Xsd(err) => {
+                    let pos = err
+                        .range()
+                        .map(|range| doc.text_pos_at(range.start))
+                        .unwrap_or_else(|| TextPos { row: 0, col: 0 });
+                    SchemaError::Xsd {
+                        file: path.to_string_lossy().to_string(),
+                        row: pos.row,
+                        col: pos.col,
+                        err: Box::new(err),
+                    }
                 }
             }
         })
@@ -112,13 +121,16 @@ impl Schema {
         );
 
         for child in root.children().namespace(NS_XSD).iter() {
-            // TODO: prevent circular includes
             if child.name() == "include" || child.name() == "import" {
                 // TODO: make sure that it is a relative path
                 let location: &str = &child.try_attribute("schemaLocation")?.value();
                 let mut path = base_path.to_path_buf();
                 path.push(location);
 
+                if ctx.shared().files.contains(&file_key(&path)) {
+                    continue;
+                }
+
                 // merge imports
                 let mut schema = Schema::parse_file_with_context(path, Some(ctx.take_shared()))?;
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
@@ -142,6 +154,7 @@ impl Schema {
         SharedContext {
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
+            files: self.files,
         }
     }
 
@@ -326,6 +339,11 @@ impl Schema {
     }
 }
 
+/// Identifies a schema file independent of the path it has been reached through.
+fn file_key(path: &Path) -> PathBuf {
+    path.canonicalize().unwrap_or_else(|_| path.to_path_buf())
+}
+
 #[derive(Debug, thiserror::Error)]
 pub enum SchemaError {
     #[error("Error on line {row} (offset {col} in {file}): {err}")]
-- 
2.43.0


From a07e39f55ac4fd4f17af36e4d90fba14271ca2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:15 +0000
Subject: [PATCH 14/40] fix: do not hang on elements that are named like their
 type

---
 xsd-internal/src/ast/root.rs   | 11 +++++++++++
 xsd-internal/src/xsd/schema.rs | 27 ++++++++++++++++++++++++---
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index a63fc44..8936222 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -41,6 +41,17 @@ impl Root {
         matches!(self, Root::Enum(_) | Root::Choice(_))
     }
 
+    /// The name of the type this root is only another name of.
+    pub fn alias_of(&self) -> Option<&Name> {
+        match self {
+            Root::Leaf(LeafDefinition {
+                content: LeafContent::Named(name),
+                ..
+            }) => Some(name),
+            _ => None,
+        }
+    }
+
     pub fn docs(&self) -> Option<&str> {
         match self {
             Root::Leaf(def) => def.docs.as_deref(),
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 6e72d47..c5d1189 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -26,7 +26,7 @@ pub struct Schema {
 
 impl Schema {
     pub fn parse_file(path: impl AsRef<Path>) -> Result<Self, SchemaError> {
-        Self::parse_file_with_context(path, None)
+        Self::parse_file_with_context(path, None)?.prevent_circular_aliases()
     }
 
     fn parse_file_with_context(
@@ -49,7 +49,7 @@ impl Schema {
     }
 
     pub fn parse(data: &str, path: impl AsRef<Path>) -> Result<Self, SchemaError> {
-        Self::parse_with_context(data, path, None)
+        Self::parse_with_context(data, path, None)?.prevent_circular_aliases()
     }
 
     fn parse_with_context(
@@ -96,7 +96,7 @@ impl Schema {
     }
 
     pub fn parse_schema(root: &Node<'_, '_>, base_path: &Path) -> Result<Self, ParseError> {
-        Self::parse_schema_with_context(root, base_path, None)
+        Ok(Self::parse_schema_with_context(root, base_path, None)?.prevent_circular_aliases()?)
     }
 
     fn parse_schema_with_context(
@@ -144,12 +144,33 @@ impl Schema {
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
             let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
+            if root.alias_of() == Some(&name) {
+                // the element shares its name with its type, so the type already represents it
+                continue;
+            }
             ctx.add_root(name, root);
         }
 
         Ok(ctx.into_schema())
     }
 
+    /// Aliases that only refer to each other never resolve to an actual type.
+    fn prevent_circular_aliases(self) -> Result<Self, SchemaError> {
+        for name in self.context.elements.keys() {
+            let mut seen = HashSet::new();
+            let mut next = Some(name);
+            while let Some(name) = next {
+                if !seen.insert(name) {
+                    return Err(SchemaError::NotFound {
+                        name: name.name.clone(),
+                    });
+                }
+                next = self.context.elements.get(name).and_then(Root::alias_of);
+            }
+        }
+        Ok(self)
+    }
+
     fn into_shared(self) -> SharedContext {
         SharedContext {
             namespaces: self.context.namespaces,
-- 
2.43.0


From ac79ac84993ed11666368d54e2a34aa65f55bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:56 +0000
Subject: [PATCH 15/40] fix: respect the form of elements

---
 xsd-internal/src/xsd/parse/element.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 3f8fbf4..b591397 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -1,7 +1,7 @@
 use std::str::FromStr;
 
 use crate::ast::{
-    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Root,
+    Leaf, LeafContent, LeafDefinition, LiteralType, MaxOccurs, MinOccurs, Name, Namespace, Root,
 };
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
@@ -99,14 +99,26 @@ where
         }
     }
 
-    let name = ctx.get_node_name(&node.try_attribute("name")?.value(), false);
+    let name = node.try_attribute("name")?.value();
+    let name = match node.attribute("form") {
+        None => ctx.get_node_name(&name, false),
+        Some(attr) => match (&*attr.value(), ctx.get_node_name(&name, false)) {
+            ("qualified", _) => ctx.get_node_name(&name, true),
+            ("unqualified", name) if name.namespace == Namespace::None => name,
+            (value, _) => {
+                return Err(XsdError::UnsupportedAttributeValue {
+                    name: "form".to_string(),
+                    value: value.to_string(),
+                    element: node.name().to_string(),
+                    range: attr.range(),
+                })
+            }
+        },
+    };
 
     // mark `default` attribute as visited
     node.attribute("default");
 
-    // TODO: implement attribute?
-    node.attribute("form");
-
     let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
 
     // <element type="xs:string" /> | <element type="MyCustomType" />
-- 
2.43.0


From 5689ba63b9a714e9237b684c32c307584c22711d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:00 +0000
Subject: [PATCH 16/40] fix: reject mixed content that is enabled by its other
 boolean representation

---
 xsd-internal/src/xsd/parse/complex_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 79dc547..88caaec 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,10 +16,10 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if node.attribute("mixed").map(|a| a.value()).as_deref() == Some("true") {
+    if let Some(value @ ("true" | "1")) = node.attribute("mixed").map(|a| a.value()).as_deref() {
         return Err(XsdError::UnsupportedAttributeValue {
             name: "mixed".to_string(),
-            value: "true".to_string(),
+            value: value.to_string(),
             element: node.name().to_string(),
             range: node.range(),
         });
-- 
2.43.0


From aeff9405c75bde2ffbf1335deb1fa080228a2abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:04 +0000
Subject: [PATCH 17/40] fix: reject schemas with qualified attributes

---
 xsd-internal/src/xsd/schema.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index c5d1189..0eb8beb 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -112,6 +112,19 @@ impl Schema {
             .into());
         }
 
+        if let Some(attr) = root.attribute("attributeFormDefault") {
+            // attributes are always read and written without a namespace
+            if attr.value() == "qualified" {
+                return Err(XsdError::UnsupportedAttributeValue {
+                    name: "attributeFormDefault".to_string(),
+                    value: attr.value().to_string(),
+                    element: root.name().to_string(),
+                    range: attr.range(),
+                }
+                .into());
+            }
+        }
+
         let target_namespace = root.attribute("targetNamespace").map(|a| a.value());
 
         let mut ctx = Context::new(
-- 
2.43.0


From 8aef0fe0052910c8d4ce10095583a16f3d3128a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:35 +0000
Subject: [PATCH 18/40] fix: treat elements below xmlns="" as elements without
 a namespace

---
 xsd/src/decode.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/xsd/src/decode.rs b/xsd/src/decode.rs
index 0dd2930..2e0c51c 100644
--- a/xsd/src/decode.rs
+++ b/xsd/src/decode.rs
@@ -54,11 +54,17 @@ pub fn decode(input: &str) -> Result<Document<'_>, FromXmlError> {
     Ok(Document(doc))
 }
 
+fn is_named(node: &roxmltree::Node<'_, '_>, name: &str, namespace: Option<&str>) -> bool {
+    let tag_name = node.tag_name();
+    // `xmlns=""` is the absence of a namespace
+    let tag_namespace = tag_name.namespace().filter(|ns| !ns.is_empty());
+    tag_name.name() == name && tag_namespace == namespace
+}
+
 impl Document<'_> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let root = self.0.root_element();
-        let tag_name = root.tag_name();
-        if !root.is_element() || tag_name.name() != name || tag_name.namespace() != namespace {
+        if !root.is_element() || !is_named(&root, name, namespace) {
             None
         } else {
             Some(Node::new(root))
@@ -95,8 +101,7 @@ impl<'a> Node<'a> {
                 .or_else(|| children.children.next());
         }
         if let Some(next) = &children.next {
-            let tag_name = next.tag_name();
-            return tag_name.name() == name && tag_name.namespace() == namespace;
+            return is_named(next, name, namespace);
         }
         false
     }
@@ -109,8 +114,7 @@ impl<'a> Node<'a> {
             .or_else(|| children.peeked.pop_front())
             .or_else(|| children.children.next())
         {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
@@ -133,24 +137,21 @@ impl<'a> Node<'a> {
     pub fn child(&self, name: &str, namespace: Option<&str>) -> Option<Node<'_>> {
         let mut children = self.children.borrow_mut();
         if let Some(next) = children.next.take() {
-            let tag_name = next.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&next, name, namespace) {
                 return Some(Node::new(next));
             }
             children.next = Some(next)
         }
 
         for (ix, child) in children.peeked.iter().enumerate() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(child, name, namespace) {
                 return children.peeked.remove(ix).map(Node::new);
             }
         }
 
         #[allow(clippy::while_let_on_iterator)]
         while let Some(child) = children.children.next() {
-            let tag_name = child.tag_name();
-            if tag_name.name() == name && tag_name.namespace() == namespace {
+            if is_named(&child, name, namespace) {
                 return Some(Node::new(child));
             }
             children.peeked.push_back(child);
-- 
2.43.0


From b1b93bf1122a4c5e1b49ea8652ad92763bf3384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 19/40] fix: escape the keyword as like all other keywords

---
 xsd-internal/src/utils.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/xsd-internal/src/utils.rs b/xsd-internal/src/utils.rs
index 99fec12..22e9df2 100644
--- a/xsd-internal/src/utils.rs
+++ b/xsd-internal/src/utils.rs
@@ -13,12 +13,12 @@ pub fn escape_ident(name: &str) -> syn::Ident {
     match name {
         // not allowed as raw identifiers
         "crate" | "self" | "Self" | "super" => format_ident!("{}_", name),
-        "abstract" | "async" | "await" | "become" | "box" | "break" | "const" | "continue"
-        | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final" | "fn" | "for" | "gen"
-        | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match" | "mod" | "move" | "mut"
-        | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct" | "trait"
-        | "true" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use" | "virtual"
-        | "where" | "while" | "yield" => {
+        "abstract" | "as" | "async" | "await" | "become" | "box" | "break" | "const"
+        | "continue" | "do" | "dyn" | "else" | "enum" | "extern" | "false" | "final" | "fn"
+        | "for" | "gen" | "if" | "impl" | "in" | "let" | "loop" | "macro" | "match" | "mod"
+        | "move" | "mut" | "override" | "priv" | "pub" | "ref" | "return" | "static" | "struct"
+        | "trait" | "true" | "try" | "type" | "typeof" | "unsafe" | "unsized" | "use"
+        | "virtual" | "where" | "while" | "yield" => {
             format_ident!("r#{}", name)
         }
         _ => {
-- 
2.43.0


From 4bf26a89324194f3b37972c8d80475de33adf268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:51 +0000
Subject: [PATCH 20/40] fix: namespaced attributes must not replace the
 attributes of XSD elements

---
 xsd-internal/src/xsd/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 211ed72..cf082fd 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -66,9 +66,9 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
         // TODO: throw on non XSD namespace children/attributes instead of ignoring them?
         let attributes = node
             .attributes()
+            // XSD attributes have no namespace, ignore custom ones so that they don't replace them
+            .filter(|attr| attr.namespace().is_none())
             .map(|attr| {
-                // let ns = attr.namespace();
-                // TODO: filter by XSD attributes?
                 (
                     attr.name(),
                     Attribute {
-- 
2.43.0


From c77b1ee011aa1dd3383991f8fa755b9c2e7c5745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:56 +0000
Subject: [PATCH 21/40] fix: declare the variants of an enumeration in the
 order of the schema

---
 xsd-internal/src/ast/root.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 8936222..4be1538 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::HashSet;
 
 use crate::utils::{escape_ident, is_ident_char};
 use crate::xsd::context::SchemaContext;
@@ -97,7 +97,7 @@ impl Root {
             }
             Root::Enum(names) => {
                 let names = escape_enum_names(names.clone());
-                let variants = names.keys().map(|k| escape_ident(k));
+                let variants = names.iter().map(|(variant, _)| escape_ident(variant));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
                     let variant = escape_ident(variant);
@@ -461,9 +461,10 @@ fn is_emptiable<'a>(leaf: &'a Leaf, ctx: &'a SchemaContext, seen: &mut Vec<&'a N
     }
 }
 
-fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
+fn escape_enum_names(names: Vec<Name>) -> Vec<(String, Name)> {
     let mut unknown_count = 0;
-    let mut enum_names = HashMap::with_capacity(names.len());
+    let mut seen = HashSet::with_capacity(names.len());
+    let mut enum_names = Vec::with_capacity(names.len());
 
     for name in names.into_iter() {
         let mut variant_name = name
@@ -492,7 +493,7 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
         }
 
         loop {
-            if variant_name.is_empty() || enum_names.contains_key(&variant_name) {
+            if variant_name.is_empty() || seen.contains(&variant_name) {
                 unknown_count += 1;
                 variant_name = format!("Variant{}", unknown_count);
             } else {
@@ -500,7 +501,8 @@ fn escape_enum_names(names: Vec<Name>) -> HashMap<String, Name> {
             }
         }
 
-        enum_names.insert(variant_name, name);
+        seen.insert(variant_name.clone());
+        enum_names.push((variant_name, name));
     }
 
     enum_names
-- 
2.43.0


From 77c62dc941b9855f78439c4493362ea6c7c5467c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:49 +0000
Subject: [PATCH 22/40] fix: declare namespaces in a stable order

The namespace declarations of a generated encoder came out of a HashMap, so
that the code generated from one schema differed from build to build.
---
 xsd-internal/src/ast/namespaces.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/ast/namespaces.rs b/xsd-internal/src/ast/namespaces.rs
index c95fed4..996c235 100644
--- a/xsd-internal/src/ast/namespaces.rs
+++ b/xsd-internal/src/ast/namespaces.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::collections::{BTreeMap, HashMap};
 
 use super::Namespace;
 
@@ -11,7 +11,7 @@ pub struct NamespaceDefinition {
 #[derive(Debug, Default)]
 pub struct Namespaces {
     by_namespace: HashMap<String, usize>,
-    by_id: HashMap<usize, NamespaceDefinition>,
+    by_id: BTreeMap<usize, NamespaceDefinition>,
 }
 
 impl Namespaces {
-- 
2.43.0


From 3270eec3ab85882aac1f8dcf6965ec8c32fa01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:57 +0000
Subject: [PATCH 23/40] fix: write elements without a namespace next to
 qualified ones

The default namespace that a qualified schema is written with also applied to
the unqualified elements of the schemas it includes or imports, so that the
written document could not be read again.
---
 xsd-internal/src/xsd/context.rs | 11 +++++++++--
 xsd-internal/src/xsd/schema.rs  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 239aeeb..7091e80 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -27,6 +27,8 @@ pub struct SharedContext {
     pub dependencies: HashMap<Name, HashSet<Name>>,
     /// The schema files parsed so far (each one only has to be included/imported once).
     pub files: HashSet<PathBuf>,
+    /// Whether any of the schema files has elements that do not belong to a namespace.
+    pub has_unqualified: bool,
 }
 
 /// The context reduced to the data necessary for the code-generation.
@@ -52,6 +54,10 @@ impl<'input> Context<'input> {
                 document_namespaces.insert(prefix, ns.uri());
             }
         }
+        let is_qualified = schema.attribute("elementFormDefault") == Some("qualified");
+        if !is_qualified || target_namespace.is_none() {
+            shared.has_unqualified = true;
+        }
         Context {
             roots: Default::default(),
             default_namespace: schema.default_namespace(),
@@ -59,7 +65,7 @@ impl<'input> Context<'input> {
                 .map(|tn| shared.namespaces.get_or_insert(tn))
                 .unwrap_or_default(),
             document_namespaces,
-            is_qualified: schema.attribute("elementFormDefault") == Some("qualified"),
+            is_qualified,
             shared,
         }
     }
@@ -83,7 +89,8 @@ impl<'input> Context<'input> {
             context: SchemaContext {
                 target_namespace: self.target_namespace(),
                 elements: self.roots,
-                is_qualified: self.is_qualified,
+                // a default namespace would also apply to the elements without a namespace
+                is_qualified: !self.shared.has_unqualified,
                 namespaces: self.shared.namespaces,
             },
             dependencies: self.shared.dependencies,
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 0eb8beb..2d85e3f 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -186,6 +186,7 @@ impl Schema {
 
     fn into_shared(self) -> SharedContext {
         SharedContext {
+            has_unqualified: !self.context.is_qualified,
             namespaces: self.context.namespaces,
             dependencies: self.dependencies,
             files: self.files,
-- 
2.43.0


From f69fa511a970ae0baa9a5993e83cc0dbc33e2156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:42 +0000
Subject: [PATCH 24/40] fix: keep inner attributes inside of the module

---
 xsd-derive/src/generator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xsd-derive/src/generator.rs b/xsd-derive/src/generator.rs
index ad653fa..490d073 100644
--- a/xsd-derive/src/generator.rs
+++ b/xsd-derive/src/generator.rs
@@ -8,7 +8,10 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let schema = Schema::parse_file(path)?;
     let structs = schema.generate_all()?;
 
-    let attrs = &item.attrs;
+    let (attrs, inner_attrs): (Vec<_>, Vec<_>) = item
+        .attrs
+        .iter()
+        .partition(|attr| matches!(attr.style, syn::AttrStyle::Outer));
     let vis = &item.vis;
     let ident = &item.ident;
     let items = item
@@ -20,6 +23,7 @@ pub fn generate(item: &syn::ItemMod, path: impl AsRef<Path>) -> Result<TokenStre
     let result = quote! {
         #(#attrs)*
         #vis mod #ident {
+            #(#inner_attrs)*
             #(#items
             )*
 
-- 
2.43.0


From 5251f84d66e9dc3ab7977671628c4fd345051b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:18 +0000
Subject: [PATCH 25/40] fix: always report the same one of several unsupported
 attributes

---
 xsd-internal/src/xsd/node.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index cf082fd..544d8cc 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -172,11 +172,15 @@ impl<'a, 'input> Node<'a, 'input> {
     }
 
     pub fn prevent_unvisited_attributes(&self) -> Result<(), NodeError> {
-        for (name, attr) in self.attributes.iter() {
+        // in document order, so that it is always the same attribute that gets reported
+        for attr in self.inner.attributes() {
+            let Some(attr) = self.attributes.get(attr.name()) else {
+                continue;
+            };
             // ignore custom (aka namespaced) attributes
             if attr.namespace().is_none() && !attr.visited.get() {
                 return Err(NodeError::UnsupportedAttribute {
-                    name: name.to_string(),
+                    name: attr.inner.name().to_string(),
                     element: self.name().to_string(),
                     range: attr.range(),
                 });
-- 
2.43.0


From 082ffde58dd6692938ce714b81bc109352ab35b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:24 +0000
Subject: [PATCH 26/40] fix: generate the items of a schema in a stable order

---
 xsd-internal/src/ast/name.rs    | 4 ++--
 xsd-internal/src/xsd/context.rs | 6 +++---
 xsd-internal/src/xsd/schema.rs  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/ast/name.rs b/xsd-internal/src/ast/name.rs
index 4a9ac6a..b2021db 100644
--- a/xsd-internal/src/ast/name.rs
+++ b/xsd-internal/src/ast/name.rs
@@ -4,14 +4,14 @@ use inflector::Inflector;
 use proc_macro2::TokenStream;
 use quote::quote;
 
-#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Default)]
+#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
 pub enum Namespace {
     #[default]
     None,
     Id(usize),
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Hash)]
+#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
 pub struct Name {
     pub name: String,
     pub namespace: Namespace,
diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 7091e80..8e83b30 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -1,4 +1,4 @@
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::path::PathBuf;
 
 use super::error::XsdError;
@@ -11,7 +11,7 @@ use quote::quote;
 /// The context that holds all data that is either necessary during parsing a schema, or is
 /// pupulated during parsing a scheme with data necessary for the subsequent code-generation.
 pub struct Context<'input> {
-    roots: HashMap<Name, Root>,
+    roots: BTreeMap<Name, Root>,
     default_namespace: Option<&'input str>,
     target_namespace: Namespace,
     document_namespaces: HashMap<&'input str, &'input str>,
@@ -34,7 +34,7 @@ pub struct SharedContext {
 /// The context reduced to the data necessary for the code-generation.
 #[derive(Debug)]
 pub struct SchemaContext {
-    pub elements: HashMap<Name, Root>,
+    pub elements: BTreeMap<Name, Root>,
     pub target_namespace: Namespace,
     pub is_qualified: bool,
     pub namespaces: Namespaces,
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 2d85e3f..3405871 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -1,4 +1,4 @@
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::fs::read_to_string;
 use std::io;
 use std::ops::Range;
@@ -214,7 +214,7 @@ impl Schema {
     ) -> Result<TokenStream, SchemaError> {
         let mut result = TokenStream::new();
 
-        let mut names = HashSet::with_capacity(1);
+        let mut names = BTreeSet::new();
         let mut new_names = HashSet::with_capacity(1);
         new_names.insert(name);
 
-- 
2.43.0


From 3a481bed8ac20cc4f0438c4a4fcd149a9debf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:21 +0000
Subject: [PATCH 27/40] fix: reject unsupported children of local elements

---
 xsd-internal/src/xsd/parse/element.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index b591397..6bf4687 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -71,9 +71,13 @@ where
     let min_occurs = parse_min_occurs(node.attribute("minOccurs"))?;
     let max_occurs = parse_max_occurs(node.attribute("maxOccurs"))?;
 
+    let mut children = node.children().namespace(NS_XSD).collect();
+    let docs = super::parse_annotation(children.remove("annotation", Some(NS_XSD)))?;
+
     // <element ref="other:Type" />
     if let Some(attr) = node.attribute("ref") {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
         if let LeafContent::Named(name) = ctx.get_type_name(attr)? {
             ctx.discover_type(&name, Some(parent));
 
@@ -119,8 +123,6 @@ where
     // mark `default` attribute as visited
     node.attribute("default");
 
-    let docs = super::parse_annotation(node.child("annotation", Some(NS_XSD)))?;
-
     // <element type="xs:string" /> | <element type="MyCustomType" />
     if let Some(attr) = node.attribute("type") {
         let mut content = ctx.get_type_name(attr)?;
@@ -135,6 +137,7 @@ where
         }
 
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         Ok(Leaf {
             name,
@@ -152,6 +155,7 @@ where
         && node.child("complexType", Some(NS_XSD)).is_none()
     {
         node.prevent_unvisited_attributes()?;
+        children.prevent_unvisited_children()?;
 
         // TODO: add test for that case
         Ok(Leaf {
-- 
2.43.0


From 1c74d655a73675dc832300270cadf9c5bb53d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:49 +0000
Subject: [PATCH 28/40] fix: reject float and decimal literals that only Rust
 knows

---
 xsd-internal/src/ast/literal_type.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 537382c..695a0b9 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -84,7 +84,22 @@ impl LiteralType {
                     val => val,
                 }
             },
-            Int64 | Uint64 | Int32 | Decimal | Float32 => trimmed,
+            // no underscores between digits, which `rust_decimal` accepts
+            Decimal => quote! {
+                match #trimmed {
+                    val if val.contains('_') => "?",
+                    val => val,
+                }
+            },
+            // none of the other spellings that Rust accepts, such as `inf` and `nan`
+            Float32 => quote! {
+                match #trimmed {
+                    val @ ("INF" | "+INF" | "-INF" | "NaN") => val,
+                    val if val.contains(|c: char| !"0123456789.+-eE".contains(c)) => "?",
+                    val => val,
+                }
+            },
+            Int64 | Uint64 | Int32 => trimmed,
             _ => quote!(val),
         }
     }
-- 
2.43.0


From a6fa9e19d1e1fd3d6ed3c719be20d77257847d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:48 +0000
Subject: [PATCH 29/40] fix: show infinite values of named float types as XSD
 literals

---
 xsd-internal/src/ast/literal_type.rs | 12 ++++++++++++
 xsd-internal/src/ast/root.rs         |  3 ++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/xsd-internal/src/ast/literal_type.rs b/xsd-internal/src/ast/literal_type.rs
index 695a0b9..c397a71 100644
--- a/xsd-internal/src/ast/literal_type.rs
+++ b/xsd-internal/src/ast/literal_type.rs
@@ -72,6 +72,18 @@ impl LiteralType {
         }
     }
 
+    pub fn fmt_impl(&self) -> TokenStream {
+        match self {
+            LiteralType::Float32 => quote! {
+                if self.0.is_infinite() {
+                    return f.write_str(if self.0 > 0.0 { "INF" } else { "-INF" });
+                }
+                self.0.fmt(f)
+            },
+            _ => quote!(self.0.fmt(f)),
+        }
+    }
+
     /// Bring the lexical representation of `val` into the one expected by Rust.
     pub fn normalize_impl(&self) -> TokenStream {
         use LiteralType::*;
diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 4be1538..0ec966d 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -71,6 +71,7 @@ impl Root {
                 if let LeafContent::Literal(literal) = &def.content {
                     let type_ = root_name.to_string();
                     let normalized = literal.normalize_impl();
+                    let fmt = literal.fmt_impl();
                     tn.append_all(quote! {
                         impl ::std::str::FromStr for #root_name {
                             type Err = ::xsd::decode::FromXmlError;
@@ -88,7 +89,7 @@ impl Root {
 
                         impl ::std::fmt::Display for #root_name {
                             fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result {
-                                self.0.fmt(f)
+                                #fmt
                             }
                         }
                     })
-- 
2.43.0


From bac6e27597d44b88c79fcd1b12f45367133a5be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:38 +0000
Subject: [PATCH 30/40] fix: keep the documentation of references to elements

---
 xsd-internal/src/xsd/parse/element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index 6bf4687..e96a2b7 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -86,7 +86,7 @@ where
                 definition: LeafDefinition {
                     content: LeafContent::Named(name),
                     restrictions: Vec::new(),
-                    docs: None,
+                    docs,
                 },
                 is_unordered: false,
                 is_virtual: false,
-- 
2.43.0


From c7fbc8bd3a2be1ea5725ba53e36ba82d694ff46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:48 +0000
Subject: [PATCH 31/40] fix: keep the documentation of the alternatives of a
 choice

---
 xsd-internal/src/ast/root.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 0ec966d..6b46ef0 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -163,7 +163,15 @@ impl Root {
                     if variant.is_vec() {
                         type_ident = quote! { ::std::vec::Vec<#type_ident> }
                     }
+                    let docs = variant
+                        .definition
+                        .docs
+                        .as_ref()
+                        .filter(|docs| !docs.is_empty())
+                        .map(|docs| quote! { #[doc = #docs] })
+                        .unwrap_or_default();
                     quote! {
+                        #docs
                         #variant_name(#type_ident)
                     }
                 });
-- 
2.43.0


From db6f144d5213c636cfaee116ea48e61b49d94528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 32/40] fix: keep the documentation of enumerations

---
 xsd-internal/src/ast/root.rs              | 16 +++++++++++-----
 xsd-internal/src/xsd/parse/simple_type.rs |  7 +++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/xsd-internal/src/ast/root.rs b/xsd-internal/src/ast/root.rs
index 6b46ef0..3e6f865 100644
--- a/xsd-internal/src/ast/root.rs
+++ b/xsd-internal/src/ast/root.rs
@@ -12,11 +12,17 @@ use syn::Ident;
 #[derive(Debug, Clone)]
 pub enum Root {
     Leaf(LeafDefinition),
-    Enum(Vec<Name>),
+    Enum(EnumDefinition),
     Element(ElementDefinition),
     Choice(ChoiceDefinition),
 }
 
+#[derive(Debug, Clone)]
+pub struct EnumDefinition {
+    pub variants: Vec<Name>,
+    pub docs: Option<String>,
+}
+
 #[derive(Debug, Clone)]
 pub struct ChoiceDefinition {
     pub variants: Vec<Leaf>,
@@ -29,7 +35,7 @@ impl Root {
         if docs.is_some() {
             match &mut self {
                 Root::Leaf(def) => def.docs = docs,
-                Root::Enum(_) => {}
+                Root::Enum(def) => def.docs = docs,
                 Root::Element(def) => def.docs = docs,
                 Root::Choice(def) => def.docs = docs,
             }
@@ -55,7 +61,7 @@ impl Root {
     pub fn docs(&self) -> Option<&str> {
         match self {
             Root::Leaf(def) => def.docs.as_deref(),
-            Root::Enum(_) => None,
+            Root::Enum(def) => def.docs.as_deref(),
             Root::Element(def) => def.docs.as_deref(),
             Root::Choice(def) => def.docs.as_deref(),
         }
@@ -96,8 +102,8 @@ impl Root {
                 }
                 tn
             }
-            Root::Enum(names) => {
-                let names = escape_enum_names(names.clone());
+            Root::Enum(EnumDefinition { variants, .. }) => {
+                let names = escape_enum_names(variants.clone());
                 let variants = names.iter().map(|(variant, _)| escape_ident(variant));
                 let from_str_variants = names.iter().map(|(variant, name)| {
                     let name_xml = &name.name;
diff --git a/xsd-internal/src/xsd/parse/simple_type.rs b/xsd-internal/src/xsd/parse/simple_type.rs
index 1092522..d059191 100644
--- a/xsd-internal/src/xsd/parse/simple_type.rs
+++ b/xsd-internal/src/xsd/parse/simple_type.rs
@@ -2,7 +2,7 @@ use std::str::FromStr;
 
 use rust_decimal::Decimal;
 
-use crate::ast::{LeafContent, LeafDefinition, Name, Namespace, Restriction, Root};
+use crate::ast::{EnumDefinition, LeafContent, LeafDefinition, Name, Namespace, Restriction, Root};
 use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
 use crate::xsd::node::Node;
@@ -125,6 +125,9 @@ where
             docs,
         })
     } else {
-        Root::Enum(enumerations)
+        Root::Enum(EnumDefinition {
+            variants: enumerations,
+            docs,
+        })
     })
 }
-- 
2.43.0


From 862682bfe5e68576fc1dc21979b6ee842366dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 33/40] fix: accept documentation that is empty or contains
 markup or comments

---
 xsd-internal/src/xsd/node.rs             | 10 ++++++++++
 xsd-internal/src/xsd/parse/annotation.rs | 11 ++---------
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 544d8cc..98fe3c4 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -171,6 +171,16 @@ impl<'a, 'input> Node<'a, 'input> {
         })
     }
 
+    /// The text of the element and all the elements inside of it, e.g. of documentation that
+    /// contains markup.
+    pub fn all_text(&self) -> String {
+        self.inner
+            .descendants()
+            .filter(|node| node.is_text())
+            .filter_map(|node| node.text())
+            .collect()
+    }
+
     pub fn prevent_unvisited_attributes(&self) -> Result<(), NodeError> {
         // in document order, so that it is always the same attribute that gets reported
         for attr in self.inner.attributes() {
diff --git a/xsd-internal/src/xsd/parse/annotation.rs b/xsd-internal/src/xsd/parse/annotation.rs
index e0e6b1a..25d551d 100644
--- a/xsd-internal/src/xsd/parse/annotation.rs
+++ b/xsd-internal/src/xsd/parse/annotation.rs
@@ -6,15 +6,8 @@ pub fn parse(node: Node<'_, '_>) -> Result<Option<String>, XsdError> {
     let mut children = node.children().namespace(NS_XSD).collect();
     let docs = children
         .remove("documentation", Some(NS_XSD))
-        .map(|child| child.try_text())
-        .transpose()?
-        .and_then(|text| {
-            if !text.is_empty() {
-                Some(cleanup_docs(&text))
-            } else {
-                None
-            }
-        });
+        .map(|child| cleanup_docs(&child.all_text()))
+        .filter(|docs| !docs.is_empty());
 
     while children.remove("documentation", Some(NS_XSD)).is_some() {
         // TODO: actually use additional documentation tags
-- 
2.43.0


From 252db5848f087b0273a51d8c53bc993b80d45861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:26 +0000
Subject: [PATCH 34/40] fix: name the value an element has not been found for

---
 xsd-internal/src/xsd/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 98fe3c4..0e7664a 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -16,7 +16,7 @@ pub enum NodeError {
         namespace: Option<String>,
         range: Range<usize>,
     },
-    #[error("Cannot find element for filter: {element_name:?}, {element_namespace:?}, {attribute_name:?}, {attribute_name:?}")]
+    #[error("Cannot find element for filter: {element_name:?}, {element_namespace:?}, {attribute_name:?}, {attribute_value:?}")]
     ElementNotFound {
         element_name: Option<String>,
         element_namespace: Option<String>,
-- 
2.43.0


From c482ef9d082539220a83c80904dbc841edae38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:50 +0000
Subject: [PATCH 35/40] fix: find children without a namespace below xmlns=""

---
 xsd-internal/src/xsd/node.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 0e7664a..4c8bc42 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -86,6 +86,11 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
     }
 }
 
+fn tag_namespace<'a>(node: &roxmltree::Node<'a, '_>) -> Option<&'a str> {
+    // `xmlns=""` is the absence of a namespace
+    node.tag_name().namespace().filter(|ns| !ns.is_empty())
+}
+
 impl<'a, 'input> Node<'a, 'input> {
     pub fn name(&'a self) -> &'input str {
         let tag_name = self.inner.tag_name();
@@ -95,10 +100,7 @@ impl<'a, 'input> Node<'a, 'input> {
     pub fn namespace(&self) -> Option<Cow<'input, str>> {
         // TODO: this currently always returns a &str, but is internally a Cow, find a way to
         // retrieve the Cow instead of the &str to avoid unnecessary allocations
-        self.inner
-            .tag_name()
-            .namespace()
-            .map(|v| Cow::Owned(v.to_string()))
+        tag_namespace(&self.inner).map(|v| Cow::Owned(v.to_string()))
     }
 
     pub fn range(&self) -> Range<usize> {
@@ -113,8 +115,7 @@ impl<'a, 'input> Node<'a, 'input> {
                     return false;
                 }
 
-                let tag_name = child.tag_name();
-                tag_name.name() == name && tag_name.namespace() == namespace
+                child.tag_name().name() == name && tag_namespace(child) == namespace
             })
             .map(Node::from)
     }
@@ -229,7 +230,7 @@ impl<'a, 'input> Node<'a, 'input> {
     }
 
     pub fn default_namespace(&self) -> Option<&str> {
-        self.inner.default_namespace()
+        self.inner.default_namespace().filter(|ns| !ns.is_empty())
     }
 }
 
@@ -313,7 +314,7 @@ impl<'a, 'input, 'b> ChildrenFilterBuilder<'a, 'input, 'b> {
                 }
 
                 if let Some(namespace) = self.filter.element_namespace {
-                    if Some(namespace) != tag_name.namespace() {
+                    if Some(namespace) != tag_namespace(child) {
                         return false;
                     }
                 }
@@ -365,8 +366,7 @@ impl<'a, 'input> Children<'a, 'input, '_> {
                     return false;
                 }
 
-                let tag_name = child.tag_name();
-                tag_name.name() == name && tag_name.namespace() == namespace
+                child.tag_name().name() == name && tag_namespace(child) == namespace
             })
             .map(|i| self.children.remove(i))
     }
-- 
2.43.0


From 08b9814fee76d323947ba52fcb5df11e249e9212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:54 +0000
Subject: [PATCH 36/40] fix: report unsupported attributes in document order
 next to custom ones

---
 xsd-internal/src/xsd/node.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index 4c8bc42..deb1eb4 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -185,11 +185,14 @@ impl<'a, 'input> Node<'a, 'input> {
     pub fn prevent_unvisited_attributes(&self) -> Result<(), NodeError> {
         // in document order, so that it is always the same attribute that gets reported
         for attr in self.inner.attributes() {
+            // ignore custom (aka namespaced) attributes
+            if attr.namespace().is_some() {
+                continue;
+            }
             let Some(attr) = self.attributes.get(attr.name()) else {
                 continue;
             };
-            // ignore custom (aka namespaced) attributes
-            if attr.namespace().is_none() && !attr.visited.get() {
+            if !attr.visited.get() {
                 return Err(NodeError::UnsupportedAttribute {
                     name: attr.inner.name().to_string(),
                     element: self.name().to_string(),
-- 
2.43.0


From 411ead51271e9f97f9f60c3cbfa0e2b67666f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:03 +0000
Subject: [PATCH 37/40] fix: reject schemas in which several types share a name

---
 xsd-internal/src/xsd/context.rs | 20 +++++++++++++++++++-
 xsd-internal/src/xsd/error.rs   |  3 +++
 xsd-internal/src/xsd/schema.rs  | 11 ++++++-----
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 8e83b30..408610d 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -2,7 +2,7 @@ use std::collections::{BTreeMap, HashMap, HashSet};
 use std::path::PathBuf;
 
 use super::error::XsdError;
-use super::node::Attribute;
+use super::node::{Attribute, Node};
 use super::schema::Schema;
 use crate::ast::{LeafContent, LeafDefinition, LiteralType, Name, Namespace, Namespaces, Root};
 use proc_macro2::TokenStream;
@@ -12,6 +12,8 @@ use quote::quote;
 /// pupulated during parsing a scheme with data necessary for the subsequent code-generation.
 pub struct Context<'input> {
     roots: BTreeMap<Name, Root>,
+    /// A name that more than one root goes by (e.g. an element and a type).
+    duplicate: Option<Name>,
     default_namespace: Option<&'input str>,
     target_namespace: Namespace,
     document_namespaces: HashMap<&'input str, &'input str>,
@@ -60,6 +62,7 @@ impl<'input> Context<'input> {
         }
         Context {
             roots: Default::default(),
+            duplicate: None,
             default_namespace: schema.default_namespace(),
             target_namespace: target_namespace
                 .map(|tn| shared.namespaces.get_or_insert(tn))
@@ -81,9 +84,24 @@ impl<'input> Context<'input> {
     }
 
     pub fn add_root(&mut self, name: Name, root: Root) {
+        if self.roots.contains_key(&name) {
+            self.duplicate.get_or_insert(name);
+            return;
+        }
         self.roots.insert(name, root);
     }
 
+    /// Only one of the roots that share a name would make it into the generated code.
+    pub fn prevent_duplicates(&self, node: &Node<'_, '_>) -> Result<(), XsdError> {
+        match &self.duplicate {
+            Some(name) => Err(XsdError::DuplicateName {
+                name: name.name.clone(),
+                range: node.range(),
+            }),
+            None => Ok(()),
+        }
+    }
+
     pub fn into_schema(self) -> Schema {
         Schema {
             context: SchemaContext {
diff --git a/xsd-internal/src/xsd/error.rs b/xsd-internal/src/xsd/error.rs
index 786cbe5..40adfee 100644
--- a/xsd-internal/src/xsd/error.rs
+++ b/xsd-internal/src/xsd/error.rs
@@ -49,6 +49,8 @@ pub enum XsdError {
         err: rust_decimal::Error,
         range: Range<usize>,
     },
+    #[error("Multiple types named `{name}`")]
+    DuplicateName { name: String, range: Range<usize> },
     #[error("Unsupported XSD type {name}")]
     UnsupportedType { name: String, range: Range<usize> },
 }
@@ -68,6 +70,7 @@ impl XsdError {
             // XsdError::MultipleTypes { range, .. } => Some(range),
             XsdError::ParseInt { range, .. } => Some(range),
             XsdError::ParseDecimal { range, .. } => Some(range),
+            XsdError::DuplicateName { range, .. } => Some(range),
             XsdError::UnsupportedType { range, .. } => Some(range),
         }
     }
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index 3405871..cac1435 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -149,6 +149,7 @@ impl Schema {
                 for (name, root) in std::mem::take(&mut schema.context.elements) {
                     ctx.add_root(name, root);
                 }
+                ctx.prevent_duplicates(&child)?;
                 ctx.set_shared(schema.into_shared());
 
                 continue;
@@ -156,12 +157,12 @@ impl Schema {
 
             let name = Name::new(child.try_attribute("name")?.value(), ctx.target_namespace());
 
-            let root = crate::xsd::parse::root::parse(child, &name, &mut ctx)?;
-            if root.alias_of() == Some(&name) {
-                // the element shares its name with its type, so the type already represents it
-                continue;
+            let root = crate::xsd::parse::root::parse(child.clone(), &name, &mut ctx)?;
+            // (if the element shares its name with its type, the type already represents it)
+            if root.alias_of() != Some(&name) {
+                ctx.add_root(name, root);
             }
-            ctx.add_root(name, root);
+            ctx.prevent_duplicates(&child)?;
         }
 
         Ok(ctx.into_schema())
-- 
2.43.0


From d66c99fafb1cce04d6d1a0a1ea4939bb3dc1fb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:35 +0000
Subject: [PATCH 38/40] fix: resolve prefixes that are declared inside of a
 schema

---
 xsd-internal/src/xsd/context.rs               | 31 +++++++------------
 xsd-internal/src/xsd/node.rs                  | 10 ++++++
 xsd-internal/src/xsd/parse/attribute.rs       |  2 +-
 xsd-internal/src/xsd/parse/choice.rs          |  2 +-
 xsd-internal/src/xsd/parse/complex_content.rs |  2 +-
 xsd-internal/src/xsd/parse/complex_type.rs    |  2 +-
 xsd-internal/src/xsd/parse/element.rs         |  4 +--
 xsd-internal/src/xsd/parse/mod.rs             |  2 +-
 xsd-internal/src/xsd/parse/root.rs            |  2 +-
 xsd-internal/src/xsd/parse/sequence.rs        |  2 +-
 xsd-internal/src/xsd/parse/simple_content.rs  |  2 +-
 xsd-internal/src/xsd/parse/simple_type.rs     |  5 +--
 12 files changed, 32 insertions(+), 34 deletions(-)

diff --git a/xsd-internal/src/xsd/context.rs b/xsd-internal/src/xsd/context.rs
index 408610d..35dab01 100644
--- a/xsd-internal/src/xsd/context.rs
+++ b/xsd-internal/src/xsd/context.rs
@@ -10,13 +10,11 @@ use quote::quote;
 
 /// The context that holds all data that is either necessary during parsing a schema, or is
 /// pupulated during parsing a scheme with data necessary for the subsequent code-generation.
-pub struct Context<'input> {
+pub struct Context {
     roots: BTreeMap<Name, Root>,
     /// A name that more than one root goes by (e.g. an element and a type).
     duplicate: Option<Name>,
-    default_namespace: Option<&'input str>,
     target_namespace: Namespace,
-    document_namespaces: HashMap<&'input str, &'input str>,
     is_qualified: bool,
     shared: SharedContext,
 }
@@ -44,18 +42,12 @@ pub struct SchemaContext {
 
 pub const NS_XSD: &str = "http://www.w3.org/2001/XMLSchema";
 
-impl<'input> Context<'input> {
-    pub fn new<'a: 'input>(
-        schema: &'a roxmltree::Node<'a, 'input>,
-        target_namespace: Option<&'a str>,
+impl Context {
+    pub fn new(
+        schema: &roxmltree::Node<'_, '_>,
+        target_namespace: Option<&str>,
         mut shared: SharedContext,
     ) -> Self {
-        let mut document_namespaces = HashMap::new();
-        for ns in schema.namespaces() {
-            if let Some(prefix) = ns.name() {
-                document_namespaces.insert(prefix, ns.uri());
-            }
-        }
         let is_qualified = schema.attribute("elementFormDefault") == Some("qualified");
         if !is_qualified || target_namespace.is_none() {
             shared.has_unqualified = true;
@@ -63,11 +55,9 @@ impl<'input> Context<'input> {
         Context {
             roots: Default::default(),
             duplicate: None,
-            default_namespace: schema.default_namespace(),
             target_namespace: target_namespace
                 .map(|tn| shared.namespaces.get_or_insert(tn))
                 .unwrap_or_default(),
-            document_namespaces,
             is_qualified,
             shared,
         }
@@ -140,13 +130,13 @@ impl<'input> Context<'input> {
 
         let name = match (parts.next(), parts.next()) {
             (Some(prefix), Some(name)) => {
-                let ns = self.document_namespaces.get(prefix).ok_or_else(|| {
+                let ns = attr.lookup_namespace_uri(Some(prefix)).ok_or_else(|| {
                     XsdError::MissingNamespace {
                         prefix: prefix.to_string(),
                         range: attr.range(),
                     }
                 })?;
-                return if *ns == NS_XSD {
+                return if ns == NS_XSD {
                     Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
                         || XsdError::UnsupportedType {
                             name: name.to_string(),
@@ -163,7 +153,8 @@ impl<'input> Context<'input> {
             (Some(name), None) => name,
             _ => &type_name,
         };
-        if self.default_namespace == Some(NS_XSD) {
+        let default_namespace = attr.lookup_namespace_uri(None);
+        if default_namespace == Some(NS_XSD) {
             Ok(LeafContent::Literal(literal_from_str(name).ok_or_else(
                 || XsdError::UnsupportedType {
                     name: name.to_string(),
@@ -171,8 +162,8 @@ impl<'input> Context<'input> {
                 },
             )?))
         } else {
-            let namespace = match self.default_namespace {
-                Some(ns) if !ns.is_empty() => self.shared.namespaces.get_or_insert(ns),
+            let namespace = match default_namespace {
+                Some(ns) => self.shared.namespaces.get_or_insert(ns),
                 _ => Namespace::None,
             };
             Ok(LeafContent::Named(Name::new(name, namespace)))
diff --git a/xsd-internal/src/xsd/node.rs b/xsd-internal/src/xsd/node.rs
index deb1eb4..2fd1f9f 100644
--- a/xsd-internal/src/xsd/node.rs
+++ b/xsd-internal/src/xsd/node.rs
@@ -58,6 +58,7 @@ pub struct Node<'a, 'input> {
 #[derive(Clone)]
 pub struct Attribute<'a, 'input> {
     inner: roxmltree::Attribute<'a, 'input>,
+    element: roxmltree::Node<'a, 'input>,
     visited: Cell<bool>,
 }
 
@@ -73,6 +74,7 @@ impl<'a, 'input> From<roxmltree::Node<'a, 'input>> for Node<'a, 'input> {
                     attr.name(),
                     Attribute {
                         inner: attr,
+                        element: node,
                         visited: Cell::new(false),
                     },
                 )
@@ -248,6 +250,14 @@ impl<'input> Attribute<'_, 'input> {
         self.inner.namespace()
     }
 
+    /// The namespace a prefix (or its absence) inside of the value of the attribute stands for.
+    pub fn lookup_namespace_uri(&self, prefix: Option<&str>) -> Option<&str> {
+        self.element
+            .lookup_namespace_uri(prefix)
+            // `xmlns=""` is the absence of a namespace
+            .filter(|ns| !ns.is_empty())
+    }
+
     pub fn range(&self) -> Range<usize> {
         self.inner.range()
     }
diff --git a/xsd-internal/src/xsd/parse/attribute.rs b/xsd-internal/src/xsd/parse/attribute.rs
index 854ca80..d2863c7 100644
--- a/xsd-internal/src/xsd/parse/attribute.rs
+++ b/xsd-internal/src/xsd/parse/attribute.rs
@@ -6,7 +6,7 @@ use crate::xsd::node::Node;
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Option<Attribute>, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/choice.rs b/xsd-internal/src/xsd/parse/choice.rs
index 0d71c10..e5b4b8b 100644
--- a/xsd-internal/src/xsd/parse/choice.rs
+++ b/xsd-internal/src/xsd/parse/choice.rs
@@ -10,7 +10,7 @@ use super::element::{parse_max_occurs, parse_min_occurs};
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Vec<Leaf>, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/complex_content.rs b/xsd-internal/src/xsd/parse/complex_content.rs
index 79640e2..59e18a9 100644
--- a/xsd-internal/src/xsd/parse/complex_content.rs
+++ b/xsd-internal/src/xsd/parse/complex_content.rs
@@ -11,7 +11,7 @@ use super::element::parse_min_occurs;
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<ElementDefinition, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 88caaec..388f26c 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -11,7 +11,7 @@ use super::element::{parse_max_occurs, parse_min_occurs};
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Root, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/element.rs b/xsd-internal/src/xsd/parse/element.rs
index e96a2b7..4513581 100644
--- a/xsd-internal/src/xsd/parse/element.rs
+++ b/xsd-internal/src/xsd/parse/element.rs
@@ -10,7 +10,7 @@ use crate::xsd::node::{Attribute, Node};
 pub fn parse_root<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Root, XsdError>
 where
     'a: 'input,
@@ -63,7 +63,7 @@ where
 pub fn parse_child<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Leaf, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/mod.rs b/xsd-internal/src/xsd/parse/mod.rs
index eecb47b..a552fc6 100644
--- a/xsd-internal/src/xsd/parse/mod.rs
+++ b/xsd-internal/src/xsd/parse/mod.rs
@@ -18,7 +18,7 @@ use crate::ast::Name;
 
 fn derive_virtual_name<'a, 'input, 'b>(
     names: impl IntoIterator<Item = &'b Name> + Clone,
-    ctx: &'b Context<'input>,
+    ctx: &'b Context,
     shorten: bool,
 ) -> Name
 where
diff --git a/xsd-internal/src/xsd/parse/root.rs b/xsd-internal/src/xsd/parse/root.rs
index 95dd8f1..f140914 100644
--- a/xsd-internal/src/xsd/parse/root.rs
+++ b/xsd-internal/src/xsd/parse/root.rs
@@ -6,7 +6,7 @@ use crate::xsd::node::Node;
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Root, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/sequence.rs b/xsd-internal/src/xsd/parse/sequence.rs
index e9e4fde..11db471 100644
--- a/xsd-internal/src/xsd/parse/sequence.rs
+++ b/xsd-internal/src/xsd/parse/sequence.rs
@@ -12,7 +12,7 @@ use super::element::parse_min_occurs;
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<Vec<Leaf>, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/simple_content.rs b/xsd-internal/src/xsd/parse/simple_content.rs
index 698799c..e359043 100644
--- a/xsd-internal/src/xsd/parse/simple_content.rs
+++ b/xsd-internal/src/xsd/parse/simple_content.rs
@@ -6,7 +6,7 @@ use crate::xsd::node::Node;
 pub fn parse<'a, 'input>(
     node: Node<'a, 'input>,
     parent: &Name,
-    ctx: &mut Context<'input>,
+    ctx: &mut Context,
 ) -> Result<ElementDefinition, XsdError>
 where
     'a: 'input,
diff --git a/xsd-internal/src/xsd/parse/simple_type.rs b/xsd-internal/src/xsd/parse/simple_type.rs
index d059191..f00b35b 100644
--- a/xsd-internal/src/xsd/parse/simple_type.rs
+++ b/xsd-internal/src/xsd/parse/simple_type.rs
@@ -7,10 +7,7 @@ use crate::xsd::context::{Context, NS_XSD};
 use crate::xsd::error::XsdError;
 use crate::xsd::node::Node;
 
-pub fn parse<'a, 'input>(
-    node: Node<'a, 'input>,
-    ctx: &mut Context<'input>,
-) -> Result<Root, XsdError>
+pub fn parse<'a, 'input>(node: Node<'a, 'input>, ctx: &mut Context) -> Result<Root, XsdError>
 where
     'a: 'input,
 {
-- 
2.43.0


From 4e0a163f4dc0eb7bed0ea24d552c482e83bdde79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:36 +0000
Subject: [PATCH 39/40] fix: reject unknown values of mixed, elementFormDefault
 and attributeFormDefault

---
 xsd-internal/src/xsd/parse/complex_type.rs | 17 +++++++++-------
 xsd-internal/src/xsd/schema.rs             | 23 +++++++++++++---------
 2 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/xsd-internal/src/xsd/parse/complex_type.rs b/xsd-internal/src/xsd/parse/complex_type.rs
index 388f26c..a48e264 100644
--- a/xsd-internal/src/xsd/parse/complex_type.rs
+++ b/xsd-internal/src/xsd/parse/complex_type.rs
@@ -16,13 +16,16 @@ pub fn parse<'a, 'input>(
 where
     'a: 'input,
 {
-    if let Some(value @ ("true" | "1")) = node.attribute("mixed").map(|a| a.value()).as_deref() {
-        return Err(XsdError::UnsupportedAttributeValue {
-            name: "mixed".to_string(),
-            value: value.to_string(),
-            element: node.name().to_string(),
-            range: node.range(),
-        });
+    if let Some(attr) = node.attribute("mixed") {
+        let value = attr.value();
+        if !matches!(&*value, "false" | "0") {
+            return Err(XsdError::UnsupportedAttributeValue {
+                name: "mixed".to_string(),
+                value: value.to_string(),
+                element: node.name().to_string(),
+                range: node.range(),
+            });
+        }
     }
     node.prevent_unvisited_attributes()?;
 
diff --git a/xsd-internal/src/xsd/schema.rs b/xsd-internal/src/xsd/schema.rs
index cac1435..9736479 100644
--- a/xsd-internal/src/xsd/schema.rs
+++ b/xsd-internal/src/xsd/schema.rs
@@ -112,16 +112,21 @@ impl Schema {
             .into());
         }
 
-        if let Some(attr) = root.attribute("attributeFormDefault") {
-            // attributes are always read and written without a namespace
-            if attr.value() == "qualified" {
-                return Err(XsdError::UnsupportedAttributeValue {
-                    name: "attributeFormDefault".to_string(),
-                    value: attr.value().to_string(),
-                    element: root.name().to_string(),
-                    range: attr.range(),
+        // attributes are always read and written without a namespace
+        for (name, supported) in [
+            ("attributeFormDefault", &["unqualified"][..]),
+            ("elementFormDefault", &["qualified", "unqualified"][..]),
+        ] {
+            if let Some(attr) = root.attribute(name) {
+                if !supported.contains(&&*attr.value()) {
+                    return Err(XsdError::UnsupportedAttributeValue {
+                        name: name.to_string(),
+                        value: attr.value().to_string(),
+                        element: root.name().to_string(),
+                        range: attr.range(),
+                    }
+                    .into());
                 }
-                .into());
             }
         }
 
-- 
2.43.0


From b2a1a2d20d8405e65ff5a368b6fd677181bf79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:19 +0000
Subject: [PATCH 40/40] fix: escape the URIs of namespaces in the output

---
 xsd/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xsd/src/lib.rs b/xsd/src/lib.rs
index 6df506a..38bfc90 100644
--- a/xsd/src/lib.rs
+++ b/xsd/src/lib.rs
@@ -8,6 +8,7 @@ use std::borrow::Cow;
 use std::mem;
 
 use xml::attribute::Attribute;
+use xml::escape::escape_str_attribute;
 use xml::name::Name;
 use xml::namespace::{Namespace, NS_NO_PREFIX};
 use xml::writer::events::XmlEvent;
@@ -49,6 +50,9 @@ impl<'a, 'b> Context<'a, 'b> {
     }
 
     pub fn set_ns(&mut self, prefix: impl Into<String>, uri: impl Into<String>) {
+        let uri = uri.into();
+        // the writer does not escape the URIs of namespaces
+        let uri = escape_str_attribute(&uri);
         match self {
             Context::Virtual(inner) => {
                 inner.namespace.put(prefix, uri);
@@ -60,6 +64,8 @@ impl<'a, 'b> Context<'a, 'b> {
     }
 
     pub fn set_default_ns(&mut self, uri: impl Into<String>) {
+        let uri = uri.into();
+        let uri = escape_str_attribute(&uri);
         match self {
             Context::Virtual(inner) => {
                 inner.namespace.put(NS_NO_PREFIX, uri);
-- 
2.43.0

