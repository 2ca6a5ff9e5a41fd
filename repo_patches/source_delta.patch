From afe39c67779351a0c04194c8303c28ea014ddf97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:30 +0000
Subject: [PATCH 01/24] fix: declare namespaces correctly when a prefix was
 overridden or a URL needs escaping

---
 static-xml/src/ser/mod.rs | 63 ++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 10 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..952a831 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -108,6 +108,9 @@ struct ElementBuilderInner<'a> {
     name: ExpandedNameRef<'a>,
     namespaces: NamespacesBuilder<'a>,
 
+    /// The parent's [`Namespaces::in_scope`]; `None` for the root.
+    parent_in_scope: Option<&'a xml::namespace::Namespace>,
+
     /// Attributes, keyed by the expanded name as that's what must be unique.
     /// The prefix is part of the BTreeMap's value, even though XML considers
     /// it part of the key.
@@ -160,7 +163,14 @@ impl<'a> ElementBuilder<'a> {
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
+        let namespaces = inner.namespaces.finalize(inner.parent_in_scope);
+        let attributes = inner
+            .attributes
+            .iter()
+            .map(|(k, v)| xml::attribute::Attribute {
+                name: namespaces.resolve_attribute(k),
+                value: v,
+            });
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -168,17 +178,16 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
-                        .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: &v,
-                        })
+                    namespaces
+                        .declarations(inner.parent_in_scope)
+                        .chain(attributes)
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                // The namespace declarations are among the attributes above.
+                // `xml::writer` would write them unescaped, and would omit one which restores
+                // a mapping that an ancestor overrode.
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -220,6 +229,7 @@ impl<'a> ElementWriter<'a> {
         ElementBuilder(Some(ElementBuilderInner {
             name,
             namespaces: inner.namespaces.child(name.namespace),
+            parent_in_scope: Some(&inner.namespaces.in_scope),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: inner.writer,
@@ -304,7 +314,7 @@ impl<'a> NamespacesBuilder<'a> {
     }
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    fn finalize(mut self, parent_in_scope: Option<&xml::namespace::Namespace>) -> Namespaces<'a> {
         let mut by_prefix = xml::namespace::Namespace::empty();
 
         // Give first dibs to required mappings, and ensure they get some
@@ -344,9 +354,18 @@ impl<'a> NamespacesBuilder<'a> {
             }
         }
 
+        let mut in_scope = match parent_in_scope {
+            Some(n) => n.clone(),
+            None => xml::namespace::Namespace::empty(),
+        };
+        for (prefix, url) in &by_prefix {
+            in_scope.force_put(prefix, url);
+        }
+
         Namespaces {
             by_url: self.0,
             by_prefix,
+            in_scope,
         }
     }
 }
@@ -356,9 +375,32 @@ struct Namespaces<'a> {
     by_url: BTreeMap<&'a str, Namespace<'a>>,
 
     by_prefix: xml::namespace::Namespace,
+
+    /// Everything declared by this element or an ancestor and not overridden since, including
+    /// mappings which `by_prefix` leaves out because they no longer get used.
+    in_scope: xml::namespace::Namespace,
 }
 
 impl<'a> Namespaces<'a> {
+    /// Returns the declarations needed to turn the parent's mappings into this element's.
+    fn declarations<'b>(
+        &'b self,
+        parent_in_scope: Option<&'b xml::namespace::Namespace>,
+    ) -> impl Iterator<Item = xml::attribute::Attribute<'b>> {
+        self.by_prefix
+            .into_iter()
+            .filter(move |&(prefix, url)| {
+                prefix != "xml" && parent_in_scope.and_then(|n| n.get(prefix)) != Some(url)
+            })
+            .map(|(prefix, value)| xml::attribute::Attribute {
+                name: match prefix {
+                    "" => xml::name::Name::local("xmlns"),
+                    p => xml::name::Name::prefixed(p, "xmlns"),
+                },
+                value,
+            })
+    }
+
     fn child(&self, namespace: &str) -> NamespacesBuilder {
         let mut child = NamespacesBuilder::default();
         let mut found_namespace = false;
@@ -706,6 +748,7 @@ impl<'a> Serializer<'a> {
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
             namespaces: NamespacesBuilder::default(),
+            parent_in_scope: None,
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
             writer: &mut writer,
-- 
2.43.0


From c22316bddc16424a595e59f0b0a82b52a698b354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:46 +0000
Subject: [PATCH 02/24] fix: write unnamespaced elements correctly when a
 default namespace is mapped

---
 static-xml/src/ser/mod.rs | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 952a831..83e1183 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -273,6 +273,17 @@ struct NamespacesBuilder<'a>(
 );
 
 impl<'a> NamespacesBuilder<'a> {
+    /// Returns a builder for an element in `namespace`, before any inherited mappings.
+    ///
+    /// An unnamespaced element requires that the empty prefix map to the empty URL.
+    fn for_element(namespace: &str) -> Self {
+        let mut builder = Self::default();
+        if namespace.is_empty() {
+            builder.insert("", "");
+        }
+        builder
+    }
+
     /// Ensures there's at least one mapping for `url`, preferably called `prefix`.
     ///
     /// An empty `prefix` represents the default namespace. `prefix` must not start
@@ -307,6 +318,9 @@ impl<'a> NamespacesBuilder<'a> {
     ///
     /// Doesn't panic if `url` already exists; `resolve_attribute` will do that later.
     fn attribute(&mut self, url: &str) {
+        if url.is_empty() {
+            return; // unprefixed attributes are always unnamespaced.
+        }
         if let Some(ns) = self.0.get_mut(url) {
             ns.required = true;
             ns.needs_prefix = true;
@@ -390,7 +404,8 @@ impl<'a> Namespaces<'a> {
         self.by_prefix
             .into_iter()
             .filter(move |&(prefix, url)| {
-                prefix != "xml" && parent_in_scope.and_then(|n| n.get(prefix)) != Some(url)
+                let inherited = parent_in_scope.and_then(|n| n.get(prefix));
+                prefix != "xml" && inherited.unwrap_or("") != url
             })
             .map(|(prefix, value)| xml::attribute::Attribute {
                 name: match prefix {
@@ -402,9 +417,12 @@ impl<'a> Namespaces<'a> {
     }
 
     fn child(&self, namespace: &str) -> NamespacesBuilder {
-        let mut child = NamespacesBuilder::default();
-        let mut found_namespace = false;
+        let mut child = NamespacesBuilder::for_element(namespace);
+        let mut found_namespace = namespace.is_empty();
         for (prefix, ns) in &self.by_prefix {
+            if ns.is_empty() {
+                continue;
+            }
             let required = if !found_namespace && ns == namespace {
                 found_namespace = true;
                 true
@@ -435,16 +453,6 @@ impl<'a> Namespaces<'a> {
                 ..
             }) => p,
             None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-            _ if name.namespace.is_empty() => {
-                if self.by_prefix.get("").is_none() {
-                    ""
-                } else {
-                    todo!(
-                        "element {} has no namespace, but default namespace is set",
-                        name
-                    )
-                }
-            }
             _ => panic!("element {} uses undeclared namespace", name),
         };
         xml::name::Name {
@@ -747,7 +755,7 @@ impl<'a> Serializer<'a> {
         };
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
-            namespaces: NamespacesBuilder::default(),
+            namespaces: NamespacesBuilder::for_element(self.name.namespace),
             parent_in_scope: None,
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
-- 
2.43.0


From c5fe4c8aeb002d534e291aced4960b31988fda30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 03/24] fix: escape text and attribute values so that
 conforming parsers get them back

---
 static-xml/src/ser/mod.rs | 59 +++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 18 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 83e1183..eac9e73 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -96,6 +96,28 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
     }
 }
 
+/// Escapes character data or an attribute value.
+///
+/// `xml::writer`'s own escaping leaves `]]>` intact in character data, where it's not well-formed,
+/// and leaves whitespace characters intact where conforming parsers will replace them.
+fn escape(s: &str, in_attribute: bool) -> String {
+    let mut out = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '<' => out.push_str("&lt;"),
+            '>' => out.push_str("&gt;"),
+            '&' => out.push_str("&amp;"),
+            '\r' => out.push_str("&#xD;"),
+            '"' if in_attribute => out.push_str("&quot;"),
+            '\'' if in_attribute => out.push_str("&apos;"),
+            '\n' if in_attribute => out.push_str("&#xA;"),
+            '\t' if in_attribute => out.push_str("&#x9;"),
+            c => out.push(c),
+        }
+    }
+    out
+}
+
 /// Builds the start tag for an element: name, namespace mappings, and attributes.
 ///
 /// The element's parent always constructs it with its namespace, local name, and
@@ -164,13 +186,16 @@ impl<'a> ElementBuilder<'a> {
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
         let namespaces = inner.namespaces.finalize(inner.parent_in_scope);
-        let attributes = inner
-            .attributes
-            .iter()
-            .map(|(k, v)| xml::attribute::Attribute {
-                name: namespaces.resolve_attribute(k),
-                value: v,
-            });
+        let attributes: Vec<_> = namespaces
+            .declarations(inner.parent_in_scope)
+            .chain(
+                inner
+                    .attributes
+                    .iter()
+                    .map(|(k, v)| (namespaces.resolve_attribute(k), v.as_str())),
+            )
+            .map(|(name, value)| (name, escape(value, true)))
+            .collect();
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -178,9 +203,9 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    namespaces
-                        .declarations(inner.parent_in_scope)
-                        .chain(attributes)
+                    attributes
+                        .iter()
+                        .map(|(name, value)| xml::attribute::Attribute { name: *name, value })
                         .collect::<Vec<_>>(),
                 ),
 
@@ -241,7 +266,7 @@ impl<'a> ElementWriter<'a> {
             .as_mut()
             .unwrap()
             .writer
-            .write(XmlEvent::Characters(text))
+            .write(XmlEvent::Characters(&escape(text, false)))
     }
 
     pub fn finish(mut self) -> Result<(), Error> {
@@ -400,19 +425,16 @@ impl<'a> Namespaces<'a> {
     fn declarations<'b>(
         &'b self,
         parent_in_scope: Option<&'b xml::namespace::Namespace>,
-    ) -> impl Iterator<Item = xml::attribute::Attribute<'b>> {
+    ) -> impl Iterator<Item = (xml::name::Name<'b>, &'b str)> {
         self.by_prefix
             .into_iter()
             .filter(move |&(prefix, url)| {
                 let inherited = parent_in_scope.and_then(|n| n.get(prefix));
                 prefix != "xml" && inherited.unwrap_or("") != url
             })
-            .map(|(prefix, value)| xml::attribute::Attribute {
-                name: match prefix {
-                    "" => xml::name::Name::local("xmlns"),
-                    p => xml::name::Name::prefixed(p, "xmlns"),
-                },
-                value,
+            .map(|(prefix, url)| match prefix {
+                "" => (xml::name::Name::local("xmlns"), url),
+                p => (xml::name::Name::prefixed(p, "xmlns"), url),
             })
     }
 
@@ -748,6 +770,7 @@ impl<'a> Serializer<'a> {
                 xml::writer::EmitterConfig {
                     perform_indent: self.perform_indent,
                     write_document_declaration: self.write_document_declaration,
+                    perform_escaping: false, // see `escape`.
                     ..Default::default()
                 },
             ),
-- 
2.43.0


From 33d892f88c7494560790112d5c8d16b73b59b4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:23 +0000
Subject: [PATCH 04/24] fix: don't drop character data that is entirely
 whitespace

---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..27128c4 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace`.
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From 37d9e3eb3d275b58d09d1eee8f9b2bd43ca32d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 05/24] fix: accept a processing instruction before the root of
 a document with no declaration

---
 static-xml/src/de/mod.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 27128c4..7118945 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -305,14 +305,19 @@ impl<R: std::io::Read> Reader<R> {
     ///
     /// Call only once.
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
-        match self.inner.next().map_err(|e| Error::xml(&[], e))? {
-            XmlEvent::StartDocument { .. } => {}
-            o => {
-                return Err(Error::msg(
-                    &[],
-                    self.inner.position(),
-                    format!("expected StartDocument, got {:#?}", o),
-                ))
+        loop {
+            match self.inner.next().map_err(|e| Error::xml(&[], e))? {
+                XmlEvent::StartDocument { .. } => break,
+                // When there's no XML declaration, `xml::reader` waits for the root element to
+                // produce `StartDocument`.
+                XmlEvent::ProcessingInstruction { .. } => {}
+                o => {
+                    return Err(Error::msg(
+                        &[],
+                        self.inner.position(),
+                        format!("expected StartDocument, got {:#?}", o),
+                    ))
+                }
             }
         }
         match self.next()? {
-- 
2.43.0


From 976a0ee2c2f187a38e32849e7ebd9dd5e0afa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:52 +0000
Subject: [PATCH 06/24] fix: stay in sync when a visitor swallows an error from
 an element that has ended

---
 static-xml/src/de/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 7118945..386c66f 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -478,11 +478,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+        // If a visitor swallowed an error from an element that had already ended, that element
+        // is still on the stack.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
         }
-        self.stack.truncate(self.depth);
         Ok(())
     }
 
-- 
2.43.0


From 6b0572d9149dbd9a955c347bf4beb1775e74200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:56 +0000
Subject: [PATCH 07/24] fix: pass elements which aren't an enum's to later
 flattened fields, even once the enum is set

---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From bbc7776d5ce29b43dfb3bbe87086bf1b88827e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:48 +0000
Subject: [PATCH 08/24] fix: fail to serialize a skipped enum variant, and
 compile Deserialize for such an enum

---
 static-xml-derive/src/deserialize.rs | 7 ++++++-
 static-xml-derive/src/serialize.rs   | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..c703073 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..3b35283 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(
+                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            ))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From 3e4dc604051a120abbb074c0d6e300ad7076ca25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:47 +0000
Subject: [PATCH 09/24] fix: allow flattening a derived struct, as documented

---
 static-xml-derive/src/deserialize.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c703073..c96f71b 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -247,6 +247,9 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             ::static_xml::de::delegate_element(&mut [#(#flatten_visitors),*], child)
         };
     }
+
+    // As in `do_enum`, the visibilities must match.
+    let vis = &struct_.input.vis;
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
             fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
@@ -271,7 +274,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
         #[allow(non_snake_case)]
-        struct #visitor_type<'out> {
+        #vis struct #visitor_type<'out> {
             // This can't be &mut MaybeUninit<#type> because flattened fields
             // (if any) get a &mut MaybeUninit<#type> that aliases it. So
             // use a raw pointer and addr_of! to access individual fields, and
@@ -329,6 +332,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
+            type Visitor = #visitor_type<'out>;
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
-- 
2.43.0


From d003339321345cf85b3303cc4eb58575ebe20107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 10/24] fix: drop what was already deserialized when
 deserialization fails

---
 static-xml-derive/src/deserialize.rs | 50 ++++++++++++++++++++++++----
 static-xml/src/de/mod.rs             |  8 +++--
 2 files changed, 49 insertions(+), 9 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index c96f71b..31fbb97 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -41,7 +41,8 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             match field.mode {
                 ElementFieldMode::Text => None,
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
-                    #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
+                    #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor,
+                    #field_present: bool
                 }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
@@ -59,6 +60,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .iter()
         .map(|field| {
             let span = field.inner.span();
+            let field_present = format_ident!("{}_present", field.ident);
             match field.mode {
                 ElementFieldMode::Flatten => {
                     let field_visitor = format_ident!("{}_visitor", field.ident);
@@ -73,11 +75,11 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
-                        )
+                        ),
+                        #field_present: false
                     }
                 }
                 _ => {
-                    let field_present = format_ident!("{}_present", field.ident);
                     quote_spanned! {span=>
                         #field_present: false
                     }
@@ -110,6 +112,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
@@ -126,18 +129,21 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
             ElementFieldMode::Flatten => {
                 let field_visitor = format_ident!("{}_visitor", field.ident);
+                let field_present = format_ident!("{}_present", field.ident);
                 let d = if let Some(d) = default {
                     quote! { Some(#d) }
                 } else {
                     quote! { None }
                 };
                 quote_spanned! {span=>
-                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(&mut self.#field_visitor, #d)?;
+                    self.#field_present = true;
                 }
             }
             ElementFieldMode::Text => todo!("text fields unimplemented"),
@@ -145,6 +151,15 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     }).collect()
 }
 
+/// Returns a `(pointer to field, present flag)` pair for each field.
+fn drop_flags(struct_: &ElementStruct) -> (Vec<TokenStream>, Vec<syn::Ident>) {
+    struct_
+        .fields
+        .iter()
+        .map(|f| (field_mut(f), format_ident!("{}_present", f.ident)))
+        .unzip()
+}
+
 fn attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
         .sorted_attributes
@@ -235,6 +250,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
     let flatten_visitors = quote_flatten_visitors(&struct_);
+    let (field_muts, field_presents) = drop_flags(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
         attribute_fallthrough = quote! { Ok(Some(value)) };
@@ -320,7 +336,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            fn finalize(&mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
@@ -328,10 +344,22 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
                 // https://doc.rust-lang.org/stable/std/mem/union.MaybeUninit.html#initializing-a-struct-field-by-field
+                #(self.#field_presents = false;)*
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                #(
+                    if self.#field_presents {
+                        // SAFETY: the field is initialized when field_present is true.
+                        unsafe { ::std::ptr::drop_in_place(#field_muts) };
+                    }
+                )*
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
@@ -458,7 +486,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
 
             fn finalize(
-                self,
+                &mut self,
                 default: Option<fn() -> Self::Out>,
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
@@ -469,10 +497,20 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
+                self.initialized = false;
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) };
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 386c66f..a9d6eeb 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -723,8 +723,9 @@ pub unsafe trait RawDeserializeVisitor<'out>: Sized + ElementVisitor {
 
     /// Finalizes `out`.
     ///
-    /// An `Ok` return guarantees `out.assume_init()` is valid.
-    fn finalize(self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
+    /// An `Ok` return guarantees `out.assume_init()` is valid, and that it's now the caller's
+    /// responsibility to drop. Until then, the visitor drops what it has initialized.
+    fn finalize(&mut self, default: Option<fn() -> Self::Out>) -> Result<(), VisitorError>;
 }
 
 /// Raw, unsafe implementation of [`Deserialize`], for use by the macros.
@@ -756,7 +757,8 @@ macro_rules! impl_deserialize_via_raw {
                 let mut visitor =
                     <$visitor as ::static_xml::de::RawDeserializeVisitor>::new(&mut out);
                 element.read_to(&mut visitor)?;
-                ::static_xml::de::RawDeserializeVisitor::finalize(visitor, None)?;
+                ::static_xml::de::RawDeserializeVisitor::finalize(&mut visitor, None)?;
+                drop(visitor);
                 // SAFETY: finalize's contract guarantees assume_init is safe.
                 Ok(unsafe { out.assume_init() })
             }
-- 
2.43.0


From 33ad8ac543f2371aa596ba5585bfb563296b47eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 11/24] fix: don't invalidate pointers while constructing a
 visitor with flattened fields

---
 static-xml-derive/src/deserialize.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 31fbb97..ac9f90d 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -71,7 +71,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
-                                    ::std::ptr::addr_of_mut!((*out.as_mut_ptr()).#fident)
+                                    ::std::ptr::addr_of_mut!((*out).#fident)
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
@@ -329,8 +329,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             type Out = #ident;
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
+                // Call this only once: every call invalidates pointers derived from prior ones.
+                let out = out.as_mut_ptr();
                 Self {
-                    out: out.as_mut_ptr(),
+                    out,
                     _phantom: ::std::marker::PhantomData,
                     #(#visitor_initializers, )*
                 }
-- 
2.43.0


From 9fd99e3c7a41dcf7e74ec493c908c729adebcced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 12/24] fix: serialize text fields rather than dropping them,
 and deserialize them

---
 static-xml-derive/src/deserialize.rs | 26 +++++++++++++++++++++++---
 static-xml-derive/src/serialize.rs   |  9 ++++++++-
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index ac9f90d..784dbec 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -39,7 +39,10 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
             match field.mode {
-                ElementFieldMode::Text => None,
+                ElementFieldMode::Text => Some(quote_spanned! {span=>
+                    #field_present: bool,
+                    _text_buf: ::std::string::String
+                }),
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
                     #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor,
                     #field_present: bool
@@ -79,6 +82,12 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                         #field_present: false
                     }
                 }
+                ElementFieldMode::Text => {
+                    quote_spanned! {span=>
+                        #field_present: false,
+                        _text_buf: ::std::string::String::new()
+                    }
+                }
                 _ => {
                     quote_spanned! {span=>
                         #field_present: false
@@ -146,7 +155,18 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     self.#field_present = true;
                 }
             }
-            ElementFieldMode::Text => todo!("text fields unimplemented"),
+            ElementFieldMode::Text => {
+                let field_present = format_ident!("{}_present", field.ident);
+                let field_mut = field_mut(field);
+                quote_spanned! {span=>
+                    let text = ::std::mem::take(&mut self._text_buf);
+                    let text = <#ty as ::static_xml::de::ParseText>::parse(text)
+                        .map_err(::static_xml::de::VisitorError::Wrap)?;
+                    // SAFETY: #field_mut is a valid pointer to uninitialized memory.
+                    unsafe { ::std::ptr::write(#field_mut, text) };
+                    self.#field_present = true;
+                }
+            }
         }
     }).collect()
 }
@@ -268,7 +288,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let vis = &struct_.input.vis;
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
                 Ok(None)
             }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3b35283..2bc15ff 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -48,6 +48,13 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
 }
 
 fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
+    let text = struct_.text_field_pos.map(|p| {
+        let ident = &struct_.fields[p].inner.ident;
+        quote_spanned! {
+            ident.span() =>
+            writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
+        }
+    });
     let elements = struct_.fields.iter().filter_map(|f| {
         if !matches!(f.mode, ElementFieldMode::Element { .. }) {
             return None;
@@ -69,7 +76,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
-    elements.chain(flattens).collect()
+    text.into_iter().chain(elements).chain(flattens).collect()
 }
 
 fn impl_root(name: &Name) -> TokenStream {
-- 
2.43.0


From 64aedc3c8f23bb6fc6257ec1088e5523f695631a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 13/24] fix: use the plain name of a field, variant, or type
 whose identifier is raw

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..a4e8e1a 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From c2cd362b4f267f524885699f5bd1fc6db4c2855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:33 +0000
Subject: [PATCH 14/24] fix: report a number's parse error itself as the
 source, not a box of it

Box::new(e).into() boxed the error twice, so that Error::source() couldn't be
downcast to ParseIntError or ParseFloatError.
---
 static-xml/src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index a9d6eeb..a0cd69c 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -1049,7 +1049,7 @@ macro_rules! text_for_num {
         impl ParseText for $t {
             fn parse(text: String) -> Result<Self, crate::BoxedStdError> {
                 let text = text.trim_matches(&['\x09', '\x0A', '\x0D', '\x20'][..]);
-                <$t as std::str::FromStr>::from_str(text).map_err(|e| Box::new(e).into())
+                <$t as std::str::FromStr>::from_str(text).map_err(Into::into)
             }
         }
     };
-- 
2.43.0


From 7abe94ebd1c592dd6442e3ab9d04e0fc44998c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:07 +0000
Subject: [PATCH 15/24] fix: reject unsuitable namespace mappings with an error
 rather than a panic or not at all

---
 static-xml-derive/src/common.rs | 47 +++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index a4e8e1a..108b869 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -293,20 +293,40 @@ impl<'a> Name<'a> {
     }
 }
 
+const XML_NAMESPACE: &str = "http://www.w3.org/XML/1998/namespace";
+const XMLNS_NAMESPACE: &str = "http://www.w3.org/2000/xmlns/";
+
+/// Returns the reason that `prefix` can't be declared to stand for `url`, if any.
+fn namespace_problem(prefix: &str, url: &str) -> Option<&'static str> {
+    if prefix.starts_with("xml") {
+        return Some("prefixes which start with \"xml\" are reserved");
+    }
+    if url == XML_NAMESPACE || url == XMLNS_NAMESPACE {
+        return Some("the namespace is reserved");
+    }
+    if !prefix.is_empty() && url.is_empty() {
+        return Some("only the default namespace can be empty");
+    }
+    // Leave it to the user which non-ASCII characters are suitable.
+    let name_char = |c: char| !c.is_ascii() || c.is_ascii_alphanumeric() || "_-.".contains(c);
+    if !prefix.chars().all(name_char)
+        || prefix.starts_with(|c: char| c.is_ascii_digit() || c == '-' || c == '.')
+    {
+        return Some("the prefix is not a valid name");
+    }
+    None
+}
+
 impl Namespaces {
     fn add_namespace(&mut self, errors: &Errors, nv: &MetaNameValue) {
         with_lit_str(errors, nv, &mut |l| {
             let value = l.value();
             if let Some((prefix_untrimmed, url_untrimmed)) = value.split_once(": ") {
-                if prefix_untrimmed.starts_with("xml") {
-                    let prefix = prefix_untrimmed.trim();
-                    let url = url_untrimmed.trim();
-                    if prefix == "xml" && url == "http://www.w3.org/XML/1998/namespace" {
-                        return;
-                    }
-                    todo!("unsupported special namespace combo prefix={prefix:?} url={url:?}")
+                let prefix = prefix_untrimmed.trim();
+                if prefix == "xml" && url_untrimmed.trim() == XML_NAMESPACE {
+                    return;
                 }
-                self.add_internal(errors, nv, prefix_untrimmed.trim(), url_untrimmed);
+                self.add_internal(errors, nv, prefix, url_untrimmed);
             } else {
                 self.add_internal(errors, nv, "", &value);
             }
@@ -327,6 +347,13 @@ impl Namespaces {
         url_untrimmed: &str,
     ) {
         let url = url_untrimmed.trim();
+        if let Some(problem) = namespace_problem(prefix, url) {
+            errors.push(syn::Error::new_spanned(
+                nv,
+                format!("can't map prefix {:?} to {:?}: {}", prefix, url, problem),
+            ));
+            return;
+        }
         match self.0.entry(prefix.to_string()) {
             std::collections::btree_map::Entry::Vacant(e) => {
                 e.insert(url.to_owned());
@@ -361,9 +388,7 @@ impl Namespaces {
             name.prefix = Some(prefix.to_owned());
             match self.0.get(prefix) {
                 Some(namespace) => name.namespace = Some(namespace.clone()),
-                None if prefix == "xml" => {
-                    name.namespace = Some("http://www.w3.org/XML/1998/namespace".to_owned())
-                }
+                None if prefix == "xml" => name.namespace = Some(XML_NAMESPACE.to_owned()),
                 None if !prefix.is_empty() => {
                     errors.push(syn::Error::new_spanned(
                         nv,
-- 
2.43.0


From 3659ec487de4ee1bb47650b5797548709d4bb8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:28 +0000
Subject: [PATCH 16/24] fix: reject an attribute which is given two values

---
 static-xml-derive/src/common.rs | 77 +++++++++++++++++++++++++--------
 1 file changed, 59 insertions(+), 18 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 108b869..8df63f4 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -80,7 +80,7 @@ pub(crate) struct TextAttr {
 
 impl TextAttr {
     pub(crate) fn new(errors: &Errors, input: &DeriveInput) -> Self {
-        let mut whitespace = WhiteSpace::Preserve;
+        let mut whitespace = None;
         let mut mode = None;
         for item in get_meta_items(errors, &input.attrs) {
             match &item {
@@ -106,7 +106,10 @@ impl TextAttr {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
-        Self { whitespace, mode }
+        Self {
+            whitespace: whitespace.unwrap_or(WhiteSpace::Preserve),
+            mode,
+        }
     }
 }
 
@@ -160,7 +163,9 @@ impl<'a> TextEnum<'a> {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { path, .. }))
                             if path.is_ident("rename") =>
                         {
-                            with_lit_str(errors, nv, &mut |l| text = Some(l.value()));
+                            with_lit_str(errors, nv, &mut |l| {
+                                set_once(errors, nv, &mut text, l.value())
+                            });
                         }
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
@@ -273,6 +278,12 @@ impl<'a> Name<'a> {
         }
     }
 
+    fn rename(&mut self, local_name: Option<String>) {
+        if let Some(local_name) = local_name {
+            self.local_name = local_name;
+        }
+    }
+
     pub(crate) fn expanded(&self) -> ExpandedNameRef {
         ExpandedNameRef {
             namespace: self.namespace.as_deref().unwrap_or(""),
@@ -404,17 +415,20 @@ impl Namespaces {
 impl<'a> ElementAttr<'a> {
     fn new(errors: &Errors, input: &'a DeriveInput) -> Self {
         let mut name = Name::from_ident(&input.ident);
+        let mut rename = None;
         let mut namespaces = Namespaces::default();
-        let mut prefix_nv = None;
+        let mut prefix_nvs = Vec::new();
         for item in get_meta_items(errors, &input.attrs) {
             match item {
                 NestedMeta::Meta(Meta::NameValue(nv)) => {
                     if let Some(id) = nv.path.get_ident() {
                         if id == "rename" {
-                            with_lit_str(errors, &nv, &mut |l| name.local_name = l.value());
+                            with_lit_str(errors, &nv, &mut |l| {
+                                set_once(errors, &nv, &mut rename, l.value())
+                            });
                         } else if id == "prefix" {
                             // Defer evaluation until we have all the namespaces.
-                            prefix_nv = Some(nv);
+                            prefix_nvs.push(nv);
                         } else if id == "namespace" {
                             namespaces.add_namespace(errors, &nv);
                         } else if id == "default_namespace" {
@@ -429,7 +443,8 @@ impl<'a> ElementAttr<'a> {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
-        if let Some(ref nv) = prefix_nv {
+        name.rename(rename);
+        for nv in &prefix_nvs {
             namespaces.process_prefix(errors, nv, &mut name);
         }
         ElementAttr { name, namespaces }
@@ -565,6 +580,7 @@ impl<'a> ElementField<'a> {
         let mut text = false;
         let ident = inner.ident.as_ref().expect("struct fields should be named");
         let mut name = Name::from_ident(ident);
+        let mut rename = None;
         for item in get_meta_items(errors, &inner.attrs) {
             match &item {
                 NestedMeta::Meta(Meta::Path(p)) if p.is_ident("attribute") => attribute = true,
@@ -575,7 +591,9 @@ impl<'a> ElementField<'a> {
                 NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                     if path.is_ident("rename") =>
                 {
-                    with_lit_str(errors, nv, &mut |l| name.local_name = l.value());
+                    with_lit_str(errors, nv, &mut |l| {
+                        set_once(errors, nv, &mut rename, l.value())
+                    });
                 }
                 NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { path, .. }))
                     if path.is_ident("prefix") =>
@@ -585,6 +603,7 @@ impl<'a> ElementField<'a> {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
+        name.rename(rename);
         let mode = if attribute && !flatten && !text {
             // The position here is just a placeholder; ElementStruct::new fixes it.
             ElementFieldMode::Attribute {
@@ -647,12 +666,15 @@ impl<'a> ElementEnum<'a> {
             .iter()
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
+                let mut rename = None;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                             if path.is_ident("rename") =>
                         {
-                            with_lit_str(errors, nv, &mut |l| name.local_name = l.value());
+                            with_lit_str(errors, nv, &mut |l| {
+                                set_once(errors, nv, &mut rename, l.value())
+                            });
                         }
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
                             if path.is_ident("prefix") =>
@@ -666,6 +688,7 @@ impl<'a> ElementEnum<'a> {
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                name.rename(rename);
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
                     .map(|f| &f.ty);
@@ -691,6 +714,18 @@ impl<'a> ElementEnum<'a> {
     }
 }
 
+/// Sets `slot` to `value`, or adds an error if `name_value` isn't the first to set it.
+fn set_once<T>(errors: &Errors, name_value: &MetaNameValue, slot: &mut Option<T>, value: T) {
+    if slot.is_some() {
+        errors.push(syn::Error::new_spanned(
+            name_value,
+            format!("redundant {}", name_value.path.to_token_stream()),
+        ));
+        return;
+    }
+    *slot = Some(value);
+}
+
 pub(crate) fn with_lit_str(
     errors: &Errors,
     name_value: &MetaNameValue,
@@ -711,17 +746,23 @@ pub(crate) fn with_lit_str(
 
 pub(crate) fn set_whitespace(
     errors: &Errors,
-    whitespace: &mut static_xml::de::WhiteSpace,
+    whitespace: &mut Option<static_xml::de::WhiteSpace>,
     name_value: &MetaNameValue,
 ) {
-    with_lit_str(errors, name_value, &mut |l| match l.value().as_str() {
-        "preserve" => *whitespace = WhiteSpace::Preserve,
-        "replace" => *whitespace = WhiteSpace::Replace,
-        "collapse" => *whitespace = WhiteSpace::Collapse,
-        _ => errors.push(syn::Error::new_spanned(
-            l,
-            "expected preserve, replace, or collapse",
-        )),
+    with_lit_str(errors, name_value, &mut |l| {
+        let value = match l.value().as_str() {
+            "preserve" => WhiteSpace::Preserve,
+            "replace" => WhiteSpace::Replace,
+            "collapse" => WhiteSpace::Collapse,
+            _ => {
+                errors.push(syn::Error::new_spanned(
+                    l,
+                    "expected preserve, replace, or collapse",
+                ));
+                return;
+            }
+        };
+        set_once(errors, name_value, whitespace, value);
     });
 }
 
-- 
2.43.0


From c6d89f1e306784f9787559181507ca2bfdb3ad2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:31 +0000
Subject: [PATCH 17/24] fix: check a skipped variant's other attributes too

---
 static-xml-derive/src/common.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 8df63f4..88a1e77 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -667,6 +667,7 @@ impl<'a> ElementEnum<'a> {
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
                 let mut rename = None;
+                let mut skip = false;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
@@ -682,12 +683,15 @@ impl<'a> ElementEnum<'a> {
                             attr.namespaces.process_prefix(errors, nv, &mut name);
                         }
                         NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => {
-                            has_skipped_variants = true;
-                            return None;
+                            skip = true;
                         }
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                if skip {
+                    has_skipped_variants = true;
+                    return None;
+                }
                 name.rename(rename);
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
-- 
2.43.0


From 37e974244bc08fa55dd71b130208cc083524559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:15 +0000
Subject: [PATCH 18/24] fix: don't let the derived visitor shadow a type which
 a field refers to

---
 static-xml-derive/src/deserialize.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 784dbec..2b1f197 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -258,6 +258,14 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
         .collect()
 }
 
+/// Returns the name of the visitor for type `ident`.
+///
+/// The visitor's definition shadows any type of the same name which the fields may refer to, so
+/// this shouldn't be a name anyone would choose.
+fn visitor_type(ident: &syn::Ident) -> syn::Ident {
+    format_ident!("__StaticXml{}Visitor", ident)
+}
+
 fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let attributes = attributes(&struct_);
     let attribute_match_branches = attribute_match_branches(&struct_);
@@ -265,7 +273,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let element_match_branches = element_match_branches(&struct_);
 
     let ident = &struct_.input.ident;
-    let visitor_type = format_ident!("{}Visitor", &struct_.input.ident);
+    let visitor_type = visitor_type(&struct_.input.ident);
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
@@ -392,7 +400,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
 
 fn do_enum(enum_: &ElementEnum) -> TokenStream {
     let ident = &enum_.input.ident;
-    let visitor_type = format_ident!("{}Visitor", &enum_.input.ident);
+    let visitor_type = visitor_type(&enum_.input.ident);
     let elements: Vec<_> = enum_
         .variants
         .iter()
-- 
2.43.0


From 5fdb06ea97bdbf09e4844cbb1fcb9f57fe131662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:15 +0000
Subject: [PATCH 19/24] fix: make derived code independent of which names are
 in scope

---
 static-xml-derive/src/deserialize.rs | 80 +++++++++++++++-------------
 static-xml-derive/src/parse.rs       | 28 ++++++----
 static-xml-derive/src/serialize.rs   | 22 ++++----
 static-xml-derive/src/to_text.rs     | 12 ++---
 static-xml/src/de/mod.rs             | 11 ++--
 5 files changed, 84 insertions(+), 69 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 2b1f197..d1c812e 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -146,9 +146,9 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                 let field_visitor = format_ident!("{}_visitor", field.ident);
                 let field_present = format_ident!("{}_present", field.ident);
                 let d = if let Some(d) = default {
-                    quote! { Some(#d) }
+                    quote! { ::std::option::Option::Some(#d) }
                 } else {
-                    quote! { None }
+                    quote! { ::std::option::Option::None }
                 };
                 quote_spanned! {span=>
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(&mut self.#field_visitor, #d)?;
@@ -206,10 +206,10 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", field.ident);
             let field_mut = field_mut(field);
             quote! {
-                Some(#i) if self.#field_present => {
-                    Err(::static_xml::de::VisitorError::duplicate_attribute(name))
+                ::std::option::Option::Some(#i) if self.#field_present => {
+                    ::std::result::Result::Err(::static_xml::de::VisitorError::duplicate_attribute(name))
                 }
-                Some(#i) => {
+                ::std::option::Option::Some(#i) => {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     unsafe {
                         ::std::ptr::write(
@@ -218,7 +218,7 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                         );
                     }
                     self.#field_present = true;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -236,22 +236,22 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
             quote_spanned! {span=>
-                Some(#i) if self.#field_present => {
+                ::std::option::Option::Some(#i) if self.#field_present => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
                         child,
                     )?;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
-                Some(#i) => unsafe {
+                ::std::option::Option::Some(#i) => unsafe {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
                         ::static_xml::de::DeserializeElementField::init(child)?,
                     );
                     self.#field_present = true;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -281,8 +281,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let (field_muts, field_presents) = drop_flags(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
-        attribute_fallthrough = quote! { Ok(Some(value)) };
-        element_fallthrough = quote! { Ok(Some(child)) };
+        attribute_fallthrough =
+            quote! { ::std::result::Result::Ok(::std::option::Option::Some(value)) };
+        element_fallthrough =
+            quote! { ::std::result::Result::Ok(::std::option::Option::Some(child)) };
     } else {
         attribute_fallthrough = quote! {
             ::static_xml::de::delegate_attribute(&mut [#(#flatten_visitors),*], name, value)
@@ -296,14 +298,14 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let vis = &struct_.input.vis;
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, _p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
     } else if !flatten_visitors.is_empty() {
         quote! {
-            fn characters(&mut self, s: String, p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 ::static_xml::de::delegate_characters(&mut [#(#flatten_visitors),*], s, p)
             }
         }
@@ -332,7 +334,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(&child.expanded_name(), ELEMENTS) {
                     #(#element_match_branches,)*
                     _ => #element_fallthrough
@@ -342,8 +344,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn attribute<'a>(
                 &mut self,
                 name: &::static_xml::ExpandedNameRef,
-                value: String,
-            ) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+                value: ::std::string::String,
+            ) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(name, ATTRIBUTES) {
                     #(#attribute_match_branches,)*
                     _ => #attribute_fallthrough
@@ -366,7 +368,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(&mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            fn finalize(&mut self, _default: ::std::option::Option<fn() -> Self::Out>) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
@@ -375,7 +377,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 // The padding doesn't matter. This is similar to this example
                 // https://doc.rust-lang.org/stable/std/mem/union.MaybeUninit.html#initializing-a-struct-field-by-field
                 #(self.#field_presents = false;)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
@@ -417,17 +419,17 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {span=>
-                        #ident::#vident if element_i == Some(#i) => {
-                            return Ok(None);
+                        #ident::#vident if element_i == ::std::option::Option::Some(#i) => {
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident => #i
                     }
                 }
                 Some(_) => {
                     quote_spanned! {span=>
-                        #ident::#vident(f) if element_i == Some(#i) => {
+                        #ident::#vident(f) if element_i == ::std::option::Option::Some(#i) => {
                             ::static_xml::de::DeserializeElementField::update(f, child)?;
-                            return Ok(None);
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident(_) => #i
                     }
@@ -437,7 +439,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .collect();
     if enum_.has_skipped_variants {
         initialized_match_arms.push(quote! {
-            _ => unreachable!("skipped variants are never deserialized")
+            _ => ::std::unreachable!("skipped variants are never deserialized")
         });
     }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
@@ -449,12 +451,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => { #ident::#vident }
+                        vident.span() => ::std::option::Option::Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => {
+                        vident.span() => ::std::option::Option::Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
@@ -480,7 +482,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 mut child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 let name = child.expanded_name();
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
@@ -488,20 +490,20 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     let expected_i = match unsafe { self.out.assume_init_mut() } {
                         #(#initialized_match_arms,)*
                     };
-                    if let Some(element_i) = element_i {
-                        return Err(::static_xml::de::VisitorError::unexpected_element(
+                    if let ::std::option::Option::Some(element_i) = element_i {
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::unexpected_element(
                             &name,
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(Some(child));
+                    return ::std::result::Result::Ok(::std::option::Option::Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-                    _ => return Ok(Some(child)),
+                    _ => return ::std::result::Result::Ok(::std::option::Option::Some(child)),
                 });
                 self.initialized = true;
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
 
@@ -517,18 +519,20 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 
             fn finalize(
                 &mut self,
-                default: Option<fn() -> Self::Out>,
-            ) -> Result<(), ::static_xml::de::VisitorError> {
+                default: ::std::option::Option<fn() -> Self::Out>,
+            ) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
-                    if let Some(d) = default {
+                    if let ::std::option::Option::Some(d) = default {
                         self.out.write(d());
                     } else {
-                        return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::cant_be_empty(
+                            ::std::stringify!(#ident)
+                        ));
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 self.initialized = false;
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index b689a5c..a5e284b 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -39,19 +39,19 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             quote_spanned! {
                 ident.span() =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
-                    Ok(r) => return Ok(Self::#ident(r)),
-                    Err(e) => errors.push(e),
+                    ::std::result::Result::Ok(r) => return ::std::result::Result::Ok(Self::#ident(r)),
+                    ::std::result::Result::Err(e) => errors.push(e),
                 }
             }
         })
         .collect();
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
-                let mut errors = Vec::new();
+                let mut errors = ::std::vec::Vec::new();
                 #(#attempts)*
-                Err(::static_xml::de::union_error(stringify!(#ident), errors))
+                ::std::result::Result::Err(::static_xml::de::union_error(::std::stringify!(#ident), errors))
             }
         }
     }
@@ -71,20 +71,26 @@ fn do_restriction(
                 TextVariantMode::Unknown => return None,
             };
             let ident = &v.inner.ident;
-            Some(quote_spanned! { ident.span() => #text => Ok(Self::#ident) })
+            Some(
+                quote_spanned! { ident.span() => #text => ::std::result::Result::Ok(Self::#ident) },
+            )
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { vident.span() => _ => Ok(Self::#vident(text)) }
+        quote_spanned! { vident.span() => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
-        quote! { t => Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
+        quote! {
+            t => ::std::result::Result::Err(
+                ::static_xml::de::no_such_variant(::std::stringify!(#ident), t)
+            )
+        }
     };
     let ident = &enum_.input.ident;
     let normalize = normalize(enum_.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 match text.as_str() {
                     #(#match_arms, )*
@@ -99,10 +105,10 @@ fn do_std(ident: &proc_macro2::Ident, attr: &TextAttr) -> TokenStream {
     let normalize = normalize(attr.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 ::std::str::FromStr::from_str(text.as_str())
-                    .map_err(|e| Box::new(e) as ::static_xml::BoxedStdError)
+                    .map_err(|e| ::std::boxed::Box::new(e) as ::static_xml::BoxedStdError)
             }
         }
     }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 2bc15ff..1d2c5fa 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -99,15 +99,15 @@ fn do_struct(_errors: &Errors, struct_: &ElementStruct) -> TokenStream {
     let impl_root = impl_root(&struct_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
                 #(#write_attributes)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_elements)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
@@ -136,8 +136,10 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => return Err(::static_xml::ser::Error(
-                concat!("can't serialize skipped variant of ", stringify!(#ident)).to_owned(),
+            _ => return ::std::result::Result::Err(::static_xml::ser::Error(
+                ::std::string::String::from(::std::concat!(
+                    "can't serialize skipped variant of ", ::std::stringify!(#ident)
+                )),
             ))
         });
     }
@@ -145,16 +147,16 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     let impl_root = impl_root(&enum_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms,)*
                 }
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index b2a5bad..96f4ce1 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -29,7 +29,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
     quote_spanned! {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms, )*
                 }
@@ -57,10 +57,10 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
     quote_spanned! {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(match self {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
+                ::std::result::Result::Ok(::std::string::String::from(match self {
                     #(#match_arms, )*
-                }.to_owned())
+                }))
             }
         }
     }
@@ -69,8 +69,8 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
 fn do_std(ident: &proc_macro2::Ident) -> TokenStream {
     quote! {
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(::std::string::ToString::to_string(self))
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
+                ::std::result::Result::Ok(::std::string::ToString::to_string(self))
             }
         }
     }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index a0cd69c..fa06474 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -752,15 +752,18 @@ macro_rules! impl_deserialize_via_raw {
         impl ::static_xml::de::Deserialize for $t {
             fn deserialize(
                 element: ::static_xml::de::ElementReader<'_>,
-            ) -> Result<Self, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<Self, ::static_xml::de::VisitorError> {
                 let mut out = ::std::mem::MaybeUninit::uninit();
                 let mut visitor =
                     <$visitor as ::static_xml::de::RawDeserializeVisitor>::new(&mut out);
                 element.read_to(&mut visitor)?;
-                ::static_xml::de::RawDeserializeVisitor::finalize(&mut visitor, None)?;
-                drop(visitor);
+                ::static_xml::de::RawDeserializeVisitor::finalize(
+                    &mut visitor,
+                    ::std::option::Option::None,
+                )?;
+                ::std::mem::drop(visitor);
                 // SAFETY: finalize's contract guarantees assume_init is safe.
-                Ok(unsafe { out.assume_init() })
+                ::std::result::Result::Ok(unsafe { out.assume_init() })
             }
         }
     };
-- 
2.43.0


From 3eb987c29af10fc9a04218f19a2acd8ef7b7fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:40 +0000
Subject: [PATCH 20/24] fix: reject attributes on the fields of variants and
 within text types of mode std

---
 static-xml-derive/src/common.rs  | 31 ++++++++++++++++++++++++++++++-
 static-xml-derive/src/parse.rs   |  5 +++--
 static-xml-derive/src/to_text.rs |  5 +++--
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 88a1e77..478ac5c 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, Data, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -157,6 +157,7 @@ impl<'a> TextEnum<'a> {
             .map(|(i, v)| {
                 let mut text = None;
                 let mut unknown = false;
+                reject_items(errors, &v.fields);
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::Path(p)) if p.is_ident("unknown") => unknown = true,
@@ -221,6 +222,7 @@ impl<'a> TextEnum<'a> {
                 for i in get_meta_items(errors, &v.attrs) {
                     errors.push(syn::Error::new_spanned(i, "item not understood"));
                 }
+                reject_items(errors, &v.fields);
                 match single_unnamed_field(&v.fields) {
                     None => {
                         errors.push(syn::Error::new_spanned(
@@ -553,6 +555,32 @@ pub(crate) fn get_meta_items<'a>(errors: &Errors, attrs: &[syn::Attribute]) -> V
     out
 }
 
+/// Adds an error for each item on fields which don't take any.
+fn reject_items(errors: &Errors, fields: &Fields) {
+    for f in fields {
+        for i in get_meta_items(errors, &f.attrs) {
+            errors.push(syn::Error::new_spanned(i, "item not understood"));
+        }
+    }
+}
+
+/// Adds an error for each item on the fields and variants of a type which is described by `std`
+/// traits alone.
+pub(crate) fn reject_member_items(errors: &Errors, input: &DeriveInput) {
+    match input.data {
+        Data::Struct(ref data) => reject_items(errors, &data.fields),
+        Data::Enum(ref data) => {
+            for v in &data.variants {
+                for i in get_meta_items(errors, &v.attrs) {
+                    errors.push(syn::Error::new_spanned(i, "item not understood"));
+                }
+                reject_items(errors, &v.fields);
+            }
+        }
+        Data::Union(ref data) => reject_items(errors, &Fields::Named(data.fields.clone())),
+    }
+}
+
 /// Mode for a field within an `ElementStruct`.
 #[derive(Copy, Clone, Debug)]
 pub(crate) enum ElementFieldMode {
@@ -668,6 +696,7 @@ impl<'a> ElementEnum<'a> {
                 let mut name = Name::from_ident(&v.ident);
                 let mut rename = None;
                 let mut skip = false;
+                reject_items(errors, &v.fields);
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index a5e284b..413827b 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -9,8 +9,8 @@ use static_xml::de::WhiteSpace;
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
-    UnionVariant,
+    reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
+    TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -137,6 +137,7 @@ pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenSt
             return Err(());
         }
         Some(TextMode::Std) => {
+            reject_member_items(errors, &input);
             return Ok(do_std(&input.ident, &attr));
         }
         _ => {}
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index 96f4ce1..faa5309 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -6,8 +6,8 @@ use quote::{quote, quote_spanned};
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
-    UnionVariant,
+    reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
+    TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -87,6 +87,7 @@ pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenSt
             return Err(());
         }
         Some(TextMode::Std) => {
+            reject_member_items(errors, &input);
             return Ok(do_std(&input.ident));
         }
         _ => {}
-- 
2.43.0


From 4414bb62baf2800a46d7035c8690512d666011d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:44 +0000
Subject: [PATCH 21/24] fix: make derived code compile for types which a macro
 defines

---
 static-xml-derive/src/common.rs      | 17 +++++++++++++---
 static-xml-derive/src/deserialize.rs | 29 ++++++++++++++++------------
 static-xml-derive/src/parse.rs       | 10 +++++-----
 static-xml-derive/src/serialize.rs   | 20 ++++++++++---------
 static-xml-derive/src/to_text.rs     | 14 +++++++-------
 5 files changed, 54 insertions(+), 36 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 478ac5c..d929821 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -3,13 +3,24 @@
 
 use std::{cell::RefCell, collections::BTreeMap};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{ext::IdentExt, Data, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{
+    ext::IdentExt, spanned::Spanned, Data, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue,
+    NestedMeta,
+};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
+/// Returns a span for code generated on behalf of `tokens`.
+///
+/// Errors in it are reported at `tokens`, but its names are resolved as those of the rest of the
+/// generated code are. They'd otherwise differ (even `self`) when `tokens` come from a macro.
+pub(crate) fn quote_span(tokens: &impl Spanned) -> Span {
+    tokens.span().resolved_at(Span::call_site())
+}
+
 /// Accumulates compiler errors. Similar to `serde_derive`'s `Ctxt`.
 pub(crate) struct Errors(RefCell<Option<Vec<syn::Error>>>);
 
@@ -297,7 +308,7 @@ impl<'a> Name<'a> {
         let namespace = self.namespace.as_deref().unwrap_or("");
         let local_name = self.local_name.as_str();
         quote_spanned! {
-            self.ident.span() =>
+            quote_span(&self.ident) =>
             ::static_xml::ExpandedNameRef {
                 local_name: #local_name,
                 namespace: #namespace,
diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index d1c812e..3c03821 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -7,7 +7,9 @@ use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
 use syn::{spanned::Spanned, Data};
 
-use crate::common::{ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors};
+use crate::common::{
+    quote_span, ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors,
+};
 
 pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
@@ -16,7 +18,7 @@ pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream
         .filter_map(|f| {
             if matches!(f.mode, ElementFieldMode::Flatten) {
                 let field_visitor = format_ident!("{}_visitor", f.ident);
-                Some(quote_spanned! { f.inner.ident.span() => &mut self.#field_visitor })
+                Some(quote_spanned! { quote_span(&f.inner.ident) => &mut self.#field_visitor })
             } else {
                 None
             }
@@ -34,7 +36,7 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .filter_map(|field| {
-            let span = field.inner.span();
+            let span = quote_span(&field.inner);
             let field_present = format_ident!("{}_present", field.ident);
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
@@ -62,7 +64,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .map(|field| {
-            let span = field.inner.span();
+            let span = quote_span(&field.inner);
             let field_present = format_ident!("{}_present", field.ident);
             match field.mode {
                 ElementFieldMode::Flatten => {
@@ -100,7 +102,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
 
 fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_.fields.iter().map(|field| {
-        let span = field.inner.span();
+        let span = quote_span(&field.inner);
         let ty = &field.inner.ty;
         let default = field.default.then(|| {
             quote_spanned! {span=>
@@ -235,12 +237,15 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let span = field.inner.span();
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
+            // See `quote_span`. Its span would make for less readable errors here, where the
+            // field's type lacks a required trait.
+            let (self_, child) = (quote! { self }, quote! { child });
             quote_spanned! {span=>
-                ::std::option::Option::Some(#i) if self.#field_present => {
+                ::std::option::Option::Some(#i) if #self_.#field_present => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
-                        child,
+                        #child,
                     )?;
                     ::std::result::Result::Ok(::std::option::Option::None)
                 }
@@ -248,9 +253,9 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
-                        ::static_xml::de::DeserializeElementField::init(child)?,
+                        ::static_xml::de::DeserializeElementField::init(#child)?,
                     );
-                    self.#field_present = true;
+                    #self_.#field_present = true;
                     ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
@@ -414,7 +419,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .enumerate()
         .map(|(i, v)| {
             let vident = v.ident;
-            let span = vident.span();
+            let span = quote_span(&vident);
 
             match v.ty {
                 None => {
@@ -451,12 +456,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        vident.span() => ::std::option::Option::Some(#i) => { #ident::#vident }
+                        quote_span(&vident) => ::std::option::Option::Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        vident.span() => ::std::option::Option::Some(#i) => {
+                        quote_span(&vident) => ::std::option::Option::Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index 413827b..2670287 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -9,8 +9,8 @@ use static_xml::de::WhiteSpace;
 use syn::Data;
 
 use crate::common::{
-    reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
-    TextVariantMode, UnionVariant,
+    quote_span, reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode,
+    TextMode, TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -37,7 +37,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             let ident = &v.inner.ident;
             let ty = &v.ty;
             quote_spanned! {
-                ident.span() =>
+                quote_span(&ident) =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
                     ::std::result::Result::Ok(r) => return ::std::result::Result::Ok(Self::#ident(r)),
                     ::std::result::Result::Err(e) => errors.push(e),
@@ -72,13 +72,13 @@ fn do_restriction(
             };
             let ident = &v.inner.ident;
             Some(
-                quote_spanned! { ident.span() => #text => ::std::result::Result::Ok(Self::#ident) },
+                quote_spanned! { quote_span(&ident) => #text => ::std::result::Result::Ok(Self::#ident) },
             )
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { vident.span() => _ => ::std::result::Result::Ok(Self::#vident(text)) }
+        quote_spanned! { quote_span(&vident) => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
         quote! {
             t => ::std::result::Result::Err(
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 1d2c5fa..30606cb 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -5,9 +5,11 @@
 
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
-use syn::{spanned::Spanned, Data};
+use syn::Data;
 
-use crate::common::{ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name};
+use crate::common::{
+    quote_span, ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name,
+};
 
 fn write_namespaces(attr: &ElementAttr) -> Vec<TokenStream> {
     attr.namespaces
@@ -30,7 +32,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         let ident = &f.inner.ident;
         let name = f.name.quote_expanded();
         Some(quote_spanned! {
-            ident.span() =>
+            quote_span(&ident) =>
             ::static_xml::ser::SerializeAttr::write(&self.#ident, &mut builder, #name)?;
         })
     });
@@ -40,7 +42,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            quote_span(&ident) =>
             ::static_xml::ser::Serialize::write_attributes(&self.#ident, builder)?;
         })
     });
@@ -51,7 +53,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
     let text = struct_.text_field_pos.map(|p| {
         let ident = &struct_.fields[p].inner.ident;
         quote_spanned! {
-            ident.span() =>
+            quote_span(&ident) =>
             writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
         }
     });
@@ -62,7 +64,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
         let ident = &f.inner.ident;
         let name = f.name.quote_expanded();
         Some(quote_spanned! {
-            ident.span() =>
+            quote_span(&ident) =>
             ::static_xml::ser::SerializeField::write(&self.#ident, writer, #name)?;
         })
     });
@@ -72,7 +74,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            quote_span(&ident) =>
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
@@ -122,13 +124,13 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
         match v.ty {
             None => {
                 quote_spanned! {
-                    vident.span() =>
+                    quote_span(&vident) =>
                     Self::#vident => writer.element(#name).start()?.finish()?
                 }
             },
             Some(_) => {
                 quote_spanned! {
-                    vident.span() =>
+                    quote_span(&vident) =>
                     Self::#vident(ref f) => ::static_xml::ser::SerializeField::write(f, writer, #name)?
                 }
             }
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index faa5309..c9760ed 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -6,8 +6,8 @@ use quote::{quote, quote_spanned};
 use syn::Data;
 
 use crate::common::{
-    reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
-    TextVariantMode, UnionVariant,
+    quote_span, reject_member_items, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode,
+    TextMode, TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -22,12 +22,12 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
         .iter()
         .map(|v| {
             let vident = &v.inner.ident;
-            quote_spanned! { vident.span() => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
+            quote_spanned! { quote_span(&vident) => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
         })
         .collect();
     let ident = &enum_.input.ident;
     quote_spanned! {
-        ident.span() =>
+        quote_span(&ident) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 match self {
@@ -45,17 +45,17 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
             let vident = &v.inner.ident;
             match v.mode {
                 TextVariantMode::Known { ref text } => {
-                    quote_spanned! { vident.span() => Self::#vident => #text }
+                    quote_spanned! { quote_span(&vident) => Self::#vident => #text }
                 },
                 TextVariantMode::Unknown => {
-                    quote_spanned! { vident.span() => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
+                    quote_spanned! { quote_span(&vident) => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
                 },
             }
         })
         .collect();
     let ident = &enum_.input.ident;
     quote_spanned! {
-        ident.span() =>
+        quote_span(&ident) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 ::std::result::Result::Ok(::std::string::String::from(match self {
-- 
2.43.0


From 9c4b5db10221979d00106aad17c7cdd8e20a88de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:15 +0000
Subject: [PATCH 22/24] fix: sort an enum's variants by what their names expand
 to

With an explicitly empty default namespace, variants with and without an
empty prefix both are in no namespace, but were sorted as if they weren't,
so that some were never found.
---
 static-xml-derive/src/common.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index d929821..6c26d68 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -685,7 +685,7 @@ pub(crate) struct ElementEnum<'a> {
     pub(crate) input: &'a DeriveInput,
     pub(crate) attr: ElementAttr<'a>,
 
-    /// Non-skipped variants, sorted by `(namespace, local_name)`.
+    /// Non-skipped variants, sorted by expanded name.
     pub(crate) variants: Vec<ElementVariant<'a>>,
     pub(crate) has_skipped_variants: bool,
 }
@@ -743,12 +743,7 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0


From 5395564ee41cce9802a3c9250dfd2dfd278957b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 23/24] fix: give a prefix which several namespaces request to
 the first of them

A type's namespace mappings are documented to prevail over conflicting
ones of its flattened fields. It was up to the order of the URLs instead.
---
 static-xml/src/ser/mod.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index eac9e73..6bba252 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -295,6 +295,8 @@ struct NamespacesBuilder<'a>(
     ///
     /// `assigned_prefix` is empty in all of the values.
     BTreeMap<&'a str, Namespace<'a>>,
+    /// The URLs of the required mappings, in the order in which they became required.
+    Vec<&'a str>,
 );
 
 impl<'a> NamespacesBuilder<'a> {
@@ -322,6 +324,7 @@ impl<'a> NamespacesBuilder<'a> {
         use std::collections::btree_map::Entry;
         match self.0.entry(url) {
             Entry::Vacant(e) => {
+                self.1.push(url);
                 e.insert(Namespace {
                     requested_prefix,
                     required: true,
@@ -333,6 +336,7 @@ impl<'a> NamespacesBuilder<'a> {
                 let e = e.get_mut();
                 if !e.required {
                     e.requested_prefix = requested_prefix;
+                    self.1.push(url);
                 }
                 e.required = true;
             }
@@ -342,11 +346,14 @@ impl<'a> NamespacesBuilder<'a> {
     /// Requests that the existing mapping for `url` be usable by attributes.
     ///
     /// Doesn't panic if `url` already exists; `resolve_attribute` will do that later.
-    fn attribute(&mut self, url: &str) {
+    fn attribute(&mut self, url: &'a str) {
         if url.is_empty() {
             return; // unprefixed attributes are always unnamespaced.
         }
         if let Some(ns) = self.0.get_mut(url) {
+            if !ns.required {
+                self.1.push(url);
+            }
             ns.required = true;
             ns.needs_prefix = true;
         }
@@ -359,14 +366,13 @@ impl<'a> NamespacesBuilder<'a> {
         // Give first dibs to required mappings, and ensure they get some
         // assignment even if their requested prefix is taken (or unsuitable,
         // in the corner case where they requested no prefix but an attribute
-        // uses them).
-        for (url, ns) in &mut self.0 {
-            if !ns.required {
-                continue;
-            }
-
+        // uses them). Of several which request the same prefix, the first gets it.
+        // No other prefix than the default one can stand for no namespace, though.
+        self.1.sort_by_key(|url| !url.is_empty());
+        for url in &self.1 {
+            let ns = self.0.get_mut(url).unwrap();
             if !(ns.needs_prefix && ns.requested_prefix.is_empty())
-                && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
+                && by_prefix.put(ns.requested_prefix, *url)
             {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
                 continue;
@@ -376,7 +382,7 @@ impl<'a> NamespacesBuilder<'a> {
                 "" => ("ns", 1),
                 p => (p, 2),
             };
-            while !by_prefix.put(format!("{}{}", prefix, i), url.to_owned()) {
+            while !by_prefix.put(format!("{}{}", prefix, i), *url) {
                 i += 1;
             }
             ns.assigned_prefix = Some(Cow::Owned(format!("{}{}", prefix, i)));
@@ -447,6 +453,7 @@ impl<'a> Namespaces<'a> {
             }
             let required = if !found_namespace && ns == namespace {
                 found_namespace = true;
+                child.1.push(ns);
                 true
             } else {
                 false
-- 
2.43.0


From 512f0ca530c8fd06ef623dc266361d78553ff7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:56 +0000
Subject: [PATCH 24/24] fix: write attributes with the prefix mapped beside the
 default namespace

A namespace which a type maps both as the default and with a prefix was
written with a generated prefix if an attribute is in it, rather than with
that one, as documented.
---
 static-xml/src/ser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 6bba252..06abbc5 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -327,6 +327,7 @@ impl<'a> NamespacesBuilder<'a> {
                 self.1.push(url);
                 e.insert(Namespace {
                     requested_prefix,
+                    prefixed_form: "",
                     required: true,
                     assigned_prefix: None,
                     needs_prefix: false,
@@ -337,6 +338,8 @@ impl<'a> NamespacesBuilder<'a> {
                 if !e.required {
                     e.requested_prefix = requested_prefix;
                     self.1.push(url);
+                } else if e.requested_prefix.is_empty() && e.prefixed_form.is_empty() {
+                    e.prefixed_form = requested_prefix;
                 }
                 e.required = true;
             }
@@ -371,6 +374,9 @@ impl<'a> NamespacesBuilder<'a> {
         self.1.sort_by_key(|url| !url.is_empty());
         for url in &self.1 {
             let ns = self.0.get_mut(url).unwrap();
+            if ns.needs_prefix && ns.requested_prefix.is_empty() {
+                ns.requested_prefix = ns.prefixed_form;
+            }
             if !(ns.needs_prefix && ns.requested_prefix.is_empty())
                 && by_prefix.put(ns.requested_prefix, *url)
             {
@@ -462,6 +468,7 @@ impl<'a> Namespaces<'a> {
                 ns,
                 Namespace {
                     requested_prefix: prefix,
+                    prefixed_form: "",
                     assigned_prefix: None,
                     required,
                     needs_prefix: false,
@@ -531,6 +538,10 @@ struct Namespace<'a> {
     /// only one will actually get it.
     requested_prefix: &'a str,
 
+    /// The first non-empty prefix requested after the default namespace was, if any, to use
+    /// instead if `needs_prefix`.
+    prefixed_form: &'a str,
+
     /// The actual prefix assigned by [`Namespaces::finalize`].
     ///
     /// May be `None` iff `!required`.
-- 
2.43.0

