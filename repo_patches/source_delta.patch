From ccd149f56bf7d430e8bdb41890fd67d6f8d255b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 01/22] fix: report input that ends before the open elements
 are closed

---
 instant-xml/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..dde40ed 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,7 +160,12 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
-            item => return item,
+            Some(item) => return Some(item),
+            // The input ended before this element was closed
+            None => {
+                self.done = true;
+                return Some(Err(Error::UnexpectedEndOfStream));
+            }
         };
 
         if self.context.stack.len() == self.level - 1
-- 
2.43.0


From 4ac7bb0e3ad7140fc58a07ad084aea20a7f51aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:17 +0000
Subject: [PATCH 02/22] fix: don't leak the node given to for_node() into the
 rest of the document

for_node() queued its node in the shared context. If the element was already
closed, or the conversion didn't consume the node, a later reader received it
as part of a different element.
---
 instant-xml/src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index dde40ed..44d426a 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -15,6 +15,8 @@ pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
     level: usize,
     done: bool,
+    /// Node passed to `for_node()`, yielded before anything else
+    first: Option<Node<'xml>>,
     context: Mut<'cx, Context<'xml>>,
 }
 
@@ -49,6 +51,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent,
             level,
             done: false,
+            first: None,
             context,
         }
     }
@@ -97,11 +100,11 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     where
         'cx: 'a,
     {
-        self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
             level: self.level,
             done: self.done,
+            first: Some(node),
             context: self.context.borrow(),
         }
     }
@@ -154,6 +157,10 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     type Item = Result<Node<'xml>, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(node) = self.first.take() {
+            return Some(Ok(node));
+        }
+
         if self.done {
             return None;
         }
-- 
2.43.0


From a88c43e45cc0d8b0a4083cf3c0839f477adfbaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:44 +0000
Subject: [PATCH 03/22] fix: read character data split by comments or CDATA
 sections as one text

Scalars only looked at the first piece and silently dropped the rest; direct
text was rejected as a duplicate.
---
 instant-xml/src/de.rs | 36 +++++++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 44d426a..08114b7 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -189,6 +189,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
 struct Context<'xml> {
     parser: Tokenizer<'xml>,
+    /// Token read ahead while collecting character data
+    peeked: Option<Result<Token<'xml>, xmlparser::Error>>,
     stack: Vec<Level<'xml>>,
     records: VecDeque<Node<'xml>>,
     limits: Limits,
@@ -198,12 +200,38 @@ impl<'xml> Context<'xml> {
     fn new(input: &'xml str) -> Self {
         Self {
             parser: Tokenizer::from(input),
+            peeked: None,
             stack: Vec::new(),
             records: VecDeque::new(),
             limits: Limits::default(),
         }
     }
 
+    fn next_token(&mut self) -> Option<Result<Token<'xml>, xmlparser::Error>> {
+        self.peeked.take().or_else(|| self.parser.next())
+    }
+
+    /// Collect adjacent character data: comments and CDATA boundaries don't split text
+    fn text(&mut self, mut value: Cow<'xml, str>) -> Result<Cow<'xml, str>, Error> {
+        loop {
+            let next = match self.next_token() {
+                Some(Ok(Token::Text { text })) => decode(text.as_str())?,
+                Some(Ok(Token::Cdata { text, .. })) => Cow::Borrowed(text.as_str()),
+                Some(Ok(Token::Comment { .. })) => continue,
+                token => {
+                    self.peeked = token;
+                    return Ok(value);
+                }
+            };
+
+            match (value.is_empty(), next.is_empty()) {
+                (true, _) => value = next,
+                (false, true) => {}
+                (false, false) => value.to_mut().push_str(&next),
+            }
+        }
+    }
+
     fn element_id(&self, element: &Element<'xml>) -> Result<Id<'xml>, Error> {
         Ok(Id {
             ns: match (element.default_ns, element.prefix) {
@@ -265,7 +293,7 @@ impl<'xml> Iterator for Context<'xml> {
         }
 
         loop {
-            match self.parser.next()? {
+            match self.next_token()? {
                 Ok(Token::ElementStart { prefix, local, .. }) => {
                     if self.stack.len() >= self.limits.max_levels {
                         return Some(Err(Error::Other(
@@ -397,10 +425,12 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    let text = decode(text.as_str()).and_then(|text| self.text(text));
+                    return Some(text.map(Node::Text));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    let text = self.text(Cow::Borrowed(text.as_str()));
+                    return Some(text.map(Node::Text));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From 1ab19c6061e24c0a6e8e21a2497dbb3cd0082641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:06 +0000
Subject: [PATCH 04/22] fix: read an empty element into a borrowed Cow as empty
 text

---
 instant-xml/src/de.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 08114b7..501cac8 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -457,10 +457,10 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
+    into.inner = Some(match deserializer.take_str()? {
+        Some(value) => value,
+        None => "".into(),
+    });
 
     deserializer.ignore()?;
     Ok(())
@@ -478,12 +478,11 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()? {
+        Some(Cow::Borrowed(v)) => Cow::Borrowed(v.as_bytes()),
+        Some(Cow::Owned(v)) => Cow::Owned(v.into_bytes()),
+        None => Cow::Borrowed(&[]),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From 17d590d4d14d119b76dd64c090462408374a6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:10 +0000
Subject: [PATCH 05/22] fix: don't panic or misreport the namespace in
 Deserializer::parent()

It panicked for elements with an undeclared prefix, and once the element was
closed its declarations were no longer considered.
---
 instant-xml/src/de.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 501cac8..535b7c9 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -13,6 +13,8 @@ use crate::{Accumulate, Error, FromXml, Id};
 /// XML deserializer for iterating over nodes in an element
 pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
+    /// Namespace of `parent`, empty if its prefix is not declared
+    ns: &'xml str,
     level: usize,
     done: bool,
     /// Node passed to `for_node()`, yielded before anything else
@@ -47,8 +49,11 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
     fn with_context(parent: Element<'xml>, context: Mut<'cx, Context<'xml>>) -> Self {
         let level = context.stack.len();
+        // Resolve the namespace while the element's declarations are in scope
+        let ns = context.element_id(&parent).map_or("", |id| id.ns);
         Self {
             parent,
+            ns,
             level,
             done: false,
             first: None,
@@ -102,6 +107,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     {
         Deserializer {
             parent: self.parent,
+            ns: self.ns,
             level: self.level,
             done: self.done,
             first: Some(node),
@@ -128,10 +134,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     /// Get the identifier of the parent element
     pub fn parent(&self) -> Id<'xml> {
         Id {
-            ns: match self.parent.prefix {
-                Some(ns) => self.context.lookup(ns).unwrap(),
-                None => self.context.default_ns(),
-            },
+            ns: self.ns,
             name: self.parent.local,
         }
     }
-- 
2.43.0


From 1d7aa7fc77a42d29aeafd1de939df39313d5fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:13 +0000
Subject: [PATCH 06/22] fix: reject signs in numeric character references

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 535b7c9..e33f31f 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -510,6 +510,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|hex_str| hex_str.bytes().all(|b| b.is_ascii_hexdigit()))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -523,6 +524,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|decimal_str| decimal_str.bytes().all(|b| b.is_ascii_digit()))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From 9f3a116e3b0b6043bfce195ad37282ef98290942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:33 +0000
Subject: [PATCH 07/22] fix: reject duplicate elements for single-valued fields

Scalars already did; structs, unit structs, tuple structs, forward enums and
AnyElement silently kept the last one.
---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..8d4ecd3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -774,6 +782,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -849,6 +861,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..b7150da 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -146,9 +146,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From b89c16ad5c7dc803e73f6d57a2c77fe6b35062ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 08/22] fix: escape the text of scalar enum variants

---
 instant-xml-macros/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..a3729ba 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,7 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                <str as ::instant_xml::ToXml>::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From 6630738386a13662fe4e5bcf69e8d0ef102619de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:03 +0000
Subject: [PATCH 09/22] fix: don't self-close an element without direct text if
 it has other fields

An absent direct field next to other element fields produced the children after
the self-closing tag.
---
 instant-xml-macros/src/ser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index a3729ba..6e76b41 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -316,6 +316,7 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut elements = false;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
@@ -331,9 +332,14 @@ impl StructOutput {
 
             if field_meta.direct {
                 direct = Some(field.ident.as_ref().unwrap());
+            } else if !field_meta.attribute {
+                elements = true;
             }
         }
 
+        // The tag can only be self-closing if there are no child elements besides the text
+        let direct = direct.filter(|_| !elements);
+
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From 581c4feed69a4faff2d3152e222b49fca11e0025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 10/22] fix: don't swallow errors from accumulators in options
 and forward enums

Only a missing value makes an option absent.
---
 instant-xml-macros/src/de.rs | 2 +-
 instant-xml/src/impls.rs     | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 8d4ecd3..b1bb196 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -172,7 +172,7 @@ fn deserialize_forward_enum(
             quote!(if <#no_lifetime_type as FromXml>::matches(id, None) {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                 <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, deserializer)?;
-                *into = ::instant_xml::Accumulate::try_done(value, #field_str).map(#ident::#v_ident).ok();
+                *into = Some(#ident::#v_ident(::instant_xml::Accumulate::try_done(value, #field_str)?));
             }),
         );
     }
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..5e5f859 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -426,7 +426,8 @@ impl<T, A: Accumulate<T>> Accumulate<Option<T>> for OptionAccumulator<T, A> {
     fn try_done(self, field: &'static str) -> Result<Option<T>, Error> {
         match self.value.try_done(field) {
             Ok(value) => Ok(Some(value)),
-            Err(_) => Ok(None),
+            Err(Error::MissingValue(_)) => Ok(None),
+            Err(e) => Err(e),
         }
     }
 }
-- 
2.43.0


From 2142ecd12dc9af4090f75436e8c6b4790b226758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 11/22] fix: forward present() through references and boxes

An absent boxed or referenced option was written as an empty attribute.
---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 5e5f859..90bfa69 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -526,6 +526,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From 823e70f9a94d6934b4ec8d2b791b8ab789f4c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:28 +0000
Subject: [PATCH 12/22] fix: refuse to write characters that XML doesn't allow

They were written verbatim, producing a document no conforming reader
(including the tokenizer used here) accepts.
---
 instant-xml/src/de.rs    | 2 +-
 instant-xml/src/impls.rs | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index e33f31f..2651cfc 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -601,7 +601,7 @@ enum DecodeState {
 const MAX_ENTITY_LEN: usize = 8;
 
 /// Valid character ranges per <https://www.w3.org/TR/xml/#NT-Char>
-fn valid_xml_character(c: &char) -> bool {
+pub(crate) fn valid_xml_character(c: &char) -> bool {
     matches!(c, '\u{9}' | '\u{A}' | '\u{D}' | '\u{20}'..='\u{D7FF}' | '\u{E000}'..='\u{FFFD}' | '\u{10000}'..='\u{10FFFF}')
 }
 
diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 90bfa69..c38ffe1 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -8,6 +8,7 @@ use std::{any::type_name, marker::PhantomData};
 #[cfg(feature = "chrono")]
 use chrono::{DateTime, NaiveDate, NaiveDateTime, Utc};
 
+use crate::de::valid_xml_character;
 use crate::ser::Context;
 use crate::{Accumulate, Deserializer, Error, FromXml, Id, Kind, Serializer, ToXml};
 
@@ -568,6 +569,11 @@ fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
             '<' => "&lt;",
             '>' => "&gt;",
             '\'' => "&apos;",
+            c if !valid_xml_character(&c) => {
+                return Err(Error::UnexpectedValue(format!(
+                    "character {c:?} is not allowed in XML"
+                )))
+            }
             _ => continue,
         };
         result.push_str(input.get(last_end..start).unwrap());
-- 
2.43.0


From 5143d5a337751c40196e10d56c942b5c39e9e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 13/22] fix: don't allow elements inside an attribute value

Writing text into an attribute value switched the serializer to element
content, so that a following element start was accepted inside the quotes.
---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..aff0f76 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -188,7 +188,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From b026576790b1900abc4261168cc85ac929aa6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:15 +0000
Subject: [PATCH 14/22] fix: prefix attributes in the element's own namespace

Unprefixed attributes are in no namespace, so such an attribute was not found
again when reading the document.
---
 instant-xml/src/ser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index aff0f76..5bc7c97 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -163,15 +163,13 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
-            true => self.output.write_fmt(format_args!(" {name}=\""))?,
-            false => {
-                let prefix = self
-                    .prefixes
-                    .get(ns)
-                    .ok_or(Error::UnexpectedState("unknown prefix"))?;
-                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?;
+        // Unprefixed attributes are in no namespace, so use the prefix if there is one
+        match self.prefixes.get(ns).filter(|_| !ns.is_empty()) {
+            Some(prefix) => self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?,
+            None if ns.is_empty() || ns == attr_ns => {
+                self.output.write_fmt(format_args!(" {name}=\""))?
             }
+            None => return Err(Error::UnexpectedState("unknown prefix")),
         }
 
         self.state = State::Scalar;
-- 
2.43.0


From 6b0f14dfe7d1d926761171678e394915eda29000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:21 +0000
Subject: [PATCH 15/22] fix: don't use a namespace prefix that was declared
 again for another namespace

Prefixes were tracked by namespace only, so names in the outer namespace kept
using a prefix that an inner element had bound to a different one.
---
 instant-xml/src/ser.rs | 73 ++++++++++++++++++++----------------------
 1 file changed, 35 insertions(+), 38 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 5bc7c97..4c396b1 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -1,7 +1,5 @@
 //! XML serialization support code
 
-use std::collections::hash_map::Entry;
-use std::collections::HashMap;
 use std::fmt::{self};
 use std::mem;
 
@@ -11,12 +9,12 @@ use crate::ToXml;
 /// XML serializer for writing structured XML output
 pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     output: &'xml mut W,
-    /// Map namespace keys to prefixes.
+    /// Prefixes declared by the open elements, innermost last.
     ///
-    /// The prefix map is updated using `Context` types that are held on the stack in the relevant
+    /// The prefixes are updated using `Context` types that are held on the stack in the relevant
     /// `ToXml` implementation. If a prefix is already defined for a given namespace, we don't
-    /// update the set with the new prefix.
-    prefixes: HashMap<&'static str, &'static str>,
+    /// add the new prefix.
+    prefixes: Vec<Prefix>,
     default_ns: &'static str,
     /// Default namespace for attributes.
     ///
@@ -31,7 +29,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
     pub fn new(output: &'xml mut W) -> Self {
         Self {
             output,
-            prefixes: HashMap::new(),
+            prefixes: Vec::new(),
             default_ns: "",
             attribute_ns: None,
             state: State::Element,
@@ -56,12 +54,18 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         let force_prefix = cx.as_ref().is_some_and(|cx| cx.force_prefix);
 
+        // The prefix can't be used if this element declares it for another namespace
+        let declared_prefix = self.prefix(ns).filter(|known| {
+            let declared = cx.as_ref().map_or(&[][..], |cx| &cx.prefixes);
+            !declared.iter().any(|p| p.prefix == *known && p.ns != ns)
+        });
+
         let (prefix, update_default_ns) =
-            match (ns == self.default_ns, self.prefixes.get(ns), force_prefix) {
+            match (ns == self.default_ns, declared_prefix, force_prefix) {
                 // Ns != default ns, force prefix: use prefix, don't change default ns
                 (false, Some(prefix), true) => {
                     self.output.write_fmt(format_args!("<{prefix}:{name}"))?;
-                    (Some(*prefix), false)
+                    (Some(prefix), false)
                 }
                 // Ns != default ns, no force prefix: use prefix and set new default ns
                 (false, Some(prefix), false) => {
@@ -70,7 +74,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                         self.output
                             .write_fmt(format_args!(" xmlns=\"{}\"", cx.default_ns))?;
                     }
-                    (Some(*prefix), true)
+                    (Some(prefix), true)
                 }
                 // No prefix case
                 (true, None, _) => {
@@ -90,7 +94,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 // Force prefix always - when forcing prefix we dont requalify the namespace
                 (true, Some(prefix), true) => {
                     self.output.write_fmt(format_args!("<{prefix}:{name}"))?;
-                    (Some(*prefix), false)
+                    (Some(prefix), false)
                 }
                 _ => {
                     self.output
@@ -122,25 +126,19 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 continue;
             }
 
-            if self.prefixes.contains_key(prefix.ns) {
+            // Already declared, and not about to be hidden by another declaration here
+            let known = self.prefix(prefix.ns);
+            if known.is_some_and(|known| {
+                !(cx.prefixes.iter()).any(|p| p.prefix == known && p.ns != prefix.ns)
+            }) {
                 continue;
             }
 
             self.output
                 .write_fmt(format_args!(" xmlns:{}=\"{}\"", prefix.prefix, prefix.ns))?;
 
-            let prev = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(mut entry) => mem::replace(entry.get_mut(), prefix.prefix),
-                Entry::Vacant(entry) => {
-                    entry.insert(prefix.prefix);
-                    ""
-                }
-            };
-
-            old.prefixes[used] = Prefix {
-                ns: prefix.ns,
-                prefix: prev,
-            };
+            self.prefixes.push(prefix);
+            old.prefixes[used] = prefix;
             used += 1;
         }
 
@@ -164,7 +162,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
         // Unprefixed attributes are in no namespace, so use the prefix if there is one
-        match self.prefixes.get(ns).filter(|_| !ns.is_empty()) {
+        match self.prefix(ns).filter(|_| !ns.is_empty()) {
             Some(prefix) => self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?,
             None if ns.is_empty() || ns == attr_ns => {
                 self.output.write_fmt(format_args!(" {name}=\""))?
@@ -236,18 +234,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 continue;
             }
 
-            let mut entry = match self.prefixes.entry(prefix.ns) {
-                Entry::Occupied(entry) => entry,
-                Entry::Vacant(_) => unreachable!(),
-            };
-
-            match prefix.prefix {
-                "" => {
-                    entry.remove();
-                }
-                prev => {
-                    let _ = mem::replace(entry.get_mut(), prev);
-                }
+            let declared = |p: &Prefix| p.ns == prefix.ns && p.prefix == prefix.prefix;
+            if let Some(index) = self.prefixes.iter().rposition(declared) {
+                self.prefixes.remove(index);
             }
         }
 
@@ -256,7 +245,15 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
     /// Get the prefix for a namespace URI, if any
     pub fn prefix(&self, ns: &str) -> Option<&'static str> {
-        self.prefixes.get(ns).copied()
+        self.prefixes
+            .iter()
+            .enumerate()
+            .rev()
+            .filter(|(_, p)| p.ns == ns)
+            .map(|(i, p)| (p.prefix, &self.prefixes[i + 1..]))
+            // Skip prefixes that were declared again for another namespace since
+            .find(|(prefix, later)| !later.iter().any(|p| p.prefix == *prefix && p.ns != ns))
+            .map(|(prefix, _)| prefix)
     }
 
     /// Get the current default namespace URI
-- 
2.43.0


From 867ec21f8bc23927a257c5836027cf63e6307190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:24 +0000
Subject: [PATCH 16/22] fix: end the namespace scope of self-closing elements

Their default namespace and prefixes stayed in effect for the following
siblings, which were then written without the declarations they need.
---
 instant-xml/src/ser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 4c396b1..9a02487 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -21,6 +21,8 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Default namespace and number of prefixes outside of the element being started.
+    outer: (&'static str, usize),
     state: State,
 }
 
@@ -32,6 +34,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: Vec::new(),
             default_ns: "",
             attribute_ns: None,
+            outer: ("", 0),
             state: State::Element,
         }
     }
@@ -104,6 +107,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             };
 
         self.state = State::Attribute;
+        self.outer = (self.default_ns, self.prefixes.len());
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
         let Some(cx) = cx else {
             return Ok(Element {
@@ -207,6 +211,9 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.output.write_str(" />")?;
         self.attribute_ns = None;
+        // The namespace declarations of this element end with it
+        self.default_ns = self.outer.0;
+        self.prefixes.truncate(self.outer.1);
         self.state = State::Element;
         Ok(())
     }
-- 
2.43.0


From 76fa070160544015a013e032862e9696974a6aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:18 +0000
Subject: [PATCH 17/22] fix: check the name of elements read into tuple struct
 fields

Any element was accepted, so swapped or foreign elements were silently read as
the wrong field.
---
 instant-xml-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index b1bb196..2dfa873 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -817,6 +817,11 @@ fn unnamed_field(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
             Kind::Element => match deserializer.next() {
                 Some(Ok(Node::Open(data))) => {
+                    let id = deserializer.element_id(&data)?;
+                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    }
+
                     let mut nested = deserializer.nested(data);
                     let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                     <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-- 
2.43.0


From 42a2448e3e271eae327e19bf5375738153ea9685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:40 +0000
Subject: [PATCH 18/22] fix: read scalar fields of transparent structs

They are written with the field's name, but were only matched without one: so
never for most scalars, and for any name in the case of scalar enums.
---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 2dfa873..51fbc2a 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, Some(#field_id))
         ));
 
         let field_name = &field.ident;
@@ -470,12 +471,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -713,6 +714,7 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        id: quote!(::instant_xml::Id { ns: #ns, name: #field_tag }),
         no_lifetime_type,
         deserialize_with,
     })
@@ -720,6 +722,7 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    id: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From afcfe18744df8619ae46e03e9e9eff95721b275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 19/22] fix: reject duplicate elements for unit fields

---
 instant-xml/src/impls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index c38ffe1..17a4b77 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -828,9 +828,13 @@ impl<'xml> FromXml<'xml> for () {
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _: &'static str,
+        field: &'static str,
         _: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         *into = Some(());
         Ok(())
     }
-- 
2.43.0


From f9ae73ddbbfeb0ac050cd5bee4e5e4b5d12a74c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 20/22] fix: read boxed lists and boxed transparent structs

---
 instant-xml/src/impls.rs | 38 +++++++++++++++++++++++++++++---------
 instant-xml/src/lib.rs   |  2 +-
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 17a4b77..1217dc1 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -544,19 +544,39 @@ impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
         field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
-        if into.is_some() {
-            return Err(Error::DuplicateValue(field));
-        }
+        T::deserialize(&mut into.value, field, deserializer)
+    }
 
-        let mut value = T::Accumulator::default();
-        T::deserialize(&mut value, field, deserializer)?;
-        *into = Some(Self::new(value.try_done(field)?));
+    type Accumulator = BoxAccumulator<T, T::Accumulator>;
+    const KIND: Kind = T::KIND;
+}
 
-        Ok(())
+/// Accumulator for deserializing `Box<T>` values
+pub struct BoxAccumulator<T, A: Accumulate<T>> {
+    value: A,
+    marker: PhantomData<T>,
+}
+
+impl<T, A: Accumulate<T>> BoxAccumulator<T, A> {
+    /// Get a mutable reference to the inner accumulator
+    pub fn get_mut(&mut self) -> &mut A {
+        &mut self.value
     }
+}
 
-    type Accumulator = Option<Self>;
-    const KIND: Kind = T::KIND;
+impl<T, A: Accumulate<T>> Default for BoxAccumulator<T, A> {
+    fn default() -> Self {
+        Self {
+            value: A::default(),
+            marker: PhantomData,
+        }
+    }
+}
+
+impl<T, A: Accumulate<T>> Accumulate<Box<T>> for BoxAccumulator<T, A> {
+    fn try_done(self, field: &'static str) -> Result<Box<T>, Error> {
+        Ok(Box::new(self.value.try_done(field)?))
+    }
 }
 
 fn encode(input: &str) -> Result<Cow<'_, str>, Error> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e672ff0..f0913a6 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -338,7 +338,7 @@ pub use macros::{FromXml, ToXml};
 pub mod de;
 mod impls;
 pub use de::Deserializer;
-pub use impls::{display_to_xml, from_xml_str, OptionAccumulator};
+pub use impls::{display_to_xml, from_xml_str, BoxAccumulator, OptionAccumulator};
 pub mod ser;
 pub use ser::Serializer;
 mod any_element;
-- 
2.43.0


From 626e9aa9f1dc39df08404a81a268d8ae4c4b56b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:55 +0000
Subject: [PATCH 21/22] fix: an empty CDATA section is no text

---
 instant-xml/src/de.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 2651cfc..ed7014e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -432,8 +432,11 @@ impl<'xml> Iterator for Context<'xml> {
                     return Some(text.map(Node::Text));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    let text = self.text(Cow::Borrowed(text.as_str()));
-                    return Some(text.map(Node::Text));
+                    match self.text(Cow::Borrowed(text.as_str())) {
+                        // An empty section is no text
+                        Ok(text) if text.is_empty() => continue,
+                        text => return Some(text.map(Node::Text)),
+                    }
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From fdf1bb2ec8cd0713eac9f22d40f5d5b4ff55081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:51 +0000
Subject: [PATCH 22/22] fix: match attributes by their field's name and
 namespace

The attribute of a field whose type is a scalar enum was only recognised in
the enum's own namespace, although it is written in the field's: with a
namespace on either, the value was lost or reported as missing.
---
 instant-xml-macros/src/de.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 51fbc2a..88f2471 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -592,13 +592,12 @@ fn named_field<'a>(
         if !tokens.branches.is_empty() {
             tokens.branches.extend(quote!(else));
         }
-        tokens.branches.extend(quote!(
-            if <#no_lifetime_type as FromXml>::matches(id, Some(Id { ns: #ns, name: #field_tag }))
-        ));
-
+        let field_id = quote!(Id { ns: #ns, name: #field_tag });
+        let matches = quote!(<#no_lifetime_type as FromXml>::matches(id, Some(#field_id)));
         tokens.branches.extend(match field_meta.attribute {
-            true => quote!({ __Attributes::#enum_name }),
-            false => quote!({ __Elements::#enum_name }),
+            // The field alone determines how an attribute is written, whatever the type's namespace
+            true => quote!(if id == (#field_id) || #matches { __Attributes::#enum_name }),
+            false => quote!(if #matches { __Elements::#enum_name }),
         });
     }
 
-- 
2.43.0

