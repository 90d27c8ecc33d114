From 1067a88c22736e5babe1938e21c52a05a51dad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 01/54] fix: after() must look at both of its operands

---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..337d28b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -152,7 +152,7 @@ impl Schema {
         }
     }
     fn after(&self, p1: PatId, p2: PatId) -> PatId {
-        match (self.patt(p1), self.patt(p1)) {
+        match (self.patt(p1), self.patt(p2)) {
             (_, Pat::NotAllowed) => self.not_allowed(),
             (Pat::NotAllowed, _) => self.not_allowed(),
             (_, _) => self.push(Pat::After(p1, p2)),
-- 
2.43.0


From fbb076b8b868f9931d126bc4840b3b58610880bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 02/54] fix: a repeated attribute pattern left over at the end
 of a start tag is not allowed

---
 relaxng-validator/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 337d28b..a79c421 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -172,8 +172,10 @@ impl Schema {
         self.push(Pat::NotAllowed)
     }
     pub fn one_or_more(&self, pattern: PatId) -> PatId {
-        let p = self.patt(pattern);
-        self.push(Pat::OneOrMore(pattern, p.is_nullable()))
+        match self.patt(pattern) {
+            Pat::NotAllowed => pattern,
+            p => self.push(Pat::OneOrMore(pattern, p.is_nullable())),
+        }
     }
     fn attribute(&self, name: model::NameClass, p: PatId) -> PatId {
         self.push(Pat::Attribute(name, p))
@@ -1168,8 +1170,8 @@ impl<'a> Validator<'a> {
                 schema.interleave(c1, c2)
             }
             Pat::OneOrMore(p, _) => {
-                let _o = Self::start_tag_close_deriv(p, schema);
-                schema.one_or_more(p)
+                let o = Self::start_tag_close_deriv(p, schema);
+                schema.one_or_more(o)
             }
             Pat::Attribute(_, _) => schema.not_allowed(),
             _ => pid,
-- 
2.43.0


From c978786e3f5636c62b9635edbc593c28868431ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 03/54] fix: expected-element hints look past the first part of
 a group only if it may be empty

---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index a79c421..199c49e 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1221,9 +1221,9 @@ impl<'a> Validator<'a> {
             Pat::Group(p1, p2, _) => {
                 if self.schema.patt(p1).is_nullable() {
                     self.head(result, p1);
+                    self.head(result, p2);
                 } else {
                     self.head(result, p1);
-                    self.head(result, p2);
                 }
             }
             Pat::OneOrMore(p, _) => self.head(result, p),
-- 
2.43.0


From aace59899e0601b55b0c16132285e5480f2ee778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:08 +0000
Subject: [PATCH 04/54] fix: whether a recursively referenced definition is
 nullable is known before it is resolved

---
 relaxng-validator/src/lib.rs | 67 ++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 199c49e..81ec0bc 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -48,7 +48,8 @@ enum Pat {
     DatatypeValue(datatype::DatatypeValues),
     DatatypeExcept(datatype::Datatypes, PatId),
     List(PatId),
-    Placeholder(*const Option<relaxng_model::model::DefineRule>),
+    // the flag records whether the definition standing behind the placeholder is nullable
+    Placeholder(*const Option<relaxng_model::model::DefineRule>, bool),
     After(PatId, PatId),
 }
 
@@ -68,7 +69,7 @@ impl Pat {
             Pat::DatatypeValue(_) => false,
             Pat::DatatypeExcept(_, _) => false,
             Pat::List(_) => false,
-            Pat::Placeholder(_name) => false, //unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(_name, nullable) => *nullable,
             Pat::After(_, _) => false,
         }
     }
@@ -79,6 +80,7 @@ struct Inner {
     memo: HashMap<Pat, PatId>,
     patterns: Vec<Pat>,
     refs: HashMap<*const Option<relaxng_model::model::DefineRule>, PatId>,
+    nullable: HashMap<*const Option<relaxng_model::model::DefineRule>, bool>,
 }
 #[derive(Default)]
 struct Schema {
@@ -209,9 +211,9 @@ impl Schema {
     fn ref_placeholder(
         &self,
         p: *const Option<relaxng_model::model::DefineRule>,
-        _name: &str,
+        nullable: bool,
     ) -> PatId {
-        let pl = Pat::Placeholder(p);
+        let pl = Pat::Placeholder(p, nullable);
         let id = self.push(pl);
         let mut inner = self.inner.borrow_mut();
         inner.refs.insert(p, id);
@@ -223,7 +225,7 @@ impl Schema {
             return;
         }
         let target = self.patt(id);
-        if let Pat::Placeholder(_) = target {
+        if let Pat::Placeholder(_, _) = target {
             panic!(
                 "can't resolve placeholder {} with another placeholder {}",
                 placeholder_id.0, id.0
@@ -231,7 +233,7 @@ impl Schema {
         }
         let mut inner = self.inner.borrow_mut();
         match &inner.patterns[placeholder_id.0 as usize] {
-            Pat::Placeholder(_) => (),
+            Pat::Placeholder(_, _) => (),
             p => panic!(
                 "expected placeholder but got {:?}, with id {} while trying to resolve it to {}, for definition {:?}",
                 p, placeholder_id.0, id.0, name
@@ -275,7 +277,7 @@ impl Schema {
             Pat::Datatype(_) => {}
             Pat::DatatypeValue(_) => {}
             Pat::DatatypeExcept(_, _) => {}
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(_, _) | Pat::After(_, _) => unreachable!(),
         }
         false
     }
@@ -299,7 +301,7 @@ impl Schema {
             Pat::Empty | Pat::Text | Pat::NotAllowed | Pat::Datatype(_) | Pat::DatatypeValue(_) => {
             }
             Pat::DatatypeExcept(_, p) => self.check_choices(p, seen),
-            Pat::Placeholder(_) | Pat::After(_, _) => unreachable!(),
+            Pat::Placeholder(_, _) | Pat::After(_, _) => unreachable!(),
         }
     }
 
@@ -403,7 +405,7 @@ impl Schema {
                     }
                     writeln!(w, ")")
                 }
-                Pat::Placeholder(_) => {
+                Pat::Placeholder(_, _) => {
                     writeln!(w, "Placeholder{}", pat.0)
                 }
                 Pat::After(p1, p2) => {
@@ -457,7 +459,7 @@ impl Schema {
                 Pat::List(_p) => {
                     writeln!(w, "List{}!", pat.0)
                 }
-                Pat::Placeholder(_) => unreachable!(),
+                Pat::Placeholder(_, _) => unreachable!(),
                 Pat::After(_p1, _p2) => {
                     writeln!(w, "After{}!", pat.0)
                 }
@@ -597,8 +599,9 @@ impl<'a> Validator<'a> {
                 if let Some(id) = s.get_ref(ptr) {
                     id
                 } else {
-                    let placeholder_id = s.ref_placeholder(ptr, name);
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
+                        let placeholder_id =
+                            s.ref_placeholder(ptr, Self::is_nullable(s, p));
                         let id = Self::compile(s, thing.pattern());
                         s.resolve_ref(placeholder_id, id, name);
                         placeholder_id
@@ -616,6 +619,40 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Whether the given pattern matches empty content.  References only lead back to themselves
+    /// through elements, which are never nullable, so this terminates.
+    fn is_nullable(s: &Schema, p: &model::Pattern) -> bool {
+        match p {
+            model::Pattern::Choice(v) => v.iter().any(|p| Self::is_nullable(s, p)),
+            model::Pattern::Interleave(v) | model::Pattern::Group(v) => {
+                v.iter().all(|p| Self::is_nullable(s, p))
+            }
+            model::Pattern::Mixed(p) | model::Pattern::OneOrMore(p) => Self::is_nullable(s, p),
+            model::Pattern::Empty
+            | model::Pattern::Text
+            | model::Pattern::Optional(_)
+            | model::Pattern::ZeroOrMore(_) => true,
+            model::Pattern::Ref(_, _, r) => {
+                let ptr: *const _ = r.0.as_ptr();
+                let known = s.inner.borrow().nullable.get(&ptr).copied();
+                known.unwrap_or_else(|| {
+                    let nullable = Rc::as_ref(&r.0)
+                        .borrow()
+                        .as_ref()
+                        .is_some_and(|rule| Self::is_nullable(s, rule.pattern()));
+                    s.inner.borrow_mut().nullable.insert(ptr, nullable);
+                    nullable
+                })
+            }
+            model::Pattern::NotAllowed
+            | model::Pattern::Attribute(_, _)
+            | model::Pattern::Element(_, _)
+            | model::Pattern::DatatypeValue { .. }
+            | model::Pattern::DatatypeName { .. }
+            | model::Pattern::List(_) => false,
+        }
+    }
+
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => Some(self.validate(evt)),
@@ -628,7 +665,7 @@ impl<'a> Validator<'a> {
     fn assert_health(&self) {
         let mut fail = false;
         for v in self.schema.inner.borrow().refs.values() {
-            if let Pat::Placeholder(_p) = self.schema.patt(*v) {
+            if let Pat::Placeholder(_p, _) = self.schema.patt(*v) {
                 println!("Still a placeholder: {v:?}");
                 fail = true;
             }
@@ -981,7 +1018,7 @@ impl<'a> Validator<'a> {
                     schema.not_allowed()
                 }
             }
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(name, _) => unreachable!("Placeholder {:?}", name),
         }
     }
 
@@ -1054,7 +1091,7 @@ impl<'a> Validator<'a> {
             | Pat::DatatypeValue(_)
             | Pat::DatatypeExcept(_, _)
             | Pat::List(_) => schema.not_allowed(),
-            Pat::Placeholder(name) => unreachable!("Placeholder {:?}", name),
+            Pat::Placeholder(name, _) => unreachable!("Placeholder {:?}", name),
         }
     }
 
@@ -1246,7 +1283,7 @@ impl<'a> Validator<'a> {
                 result.insert(pat);
             }
             Pat::List(p) => self.head(result, p),
-            Pat::Placeholder(_) => panic!("Unexpected {pat:?}"),
+            Pat::Placeholder(_, _) => panic!("Unexpected {pat:?}"),
             Pat::After(p, _) => self.head(result, p),
         }
     }
-- 
2.43.0


From 198644a4dfd0d649925c0a87c094c1d8bf05e680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 05/54] fix: a definition may be an alias of a definition it is
 used by

---
 relaxng-validator/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 81ec0bc..0f1e1bb 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -603,6 +603,11 @@ impl<'a> Validator<'a> {
                         let placeholder_id =
                             s.ref_placeholder(ptr, Self::is_nullable(s, p));
                         let id = Self::compile(s, thing.pattern());
+                        if let Pat::Placeholder(_, _) = s.patt(id) {
+                            // just another name for a definition which is being compiled
+                            s.inner.borrow_mut().refs.insert(ptr, id);
+                            return id;
+                        }
                         s.resolve_ref(placeholder_id, id, name);
                         placeholder_id
                     } else {
-- 
2.43.0


From 4fcd4383010fa3d7ebc25adbd05c42dcae55fdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 06/54] fix: namespace declarations end with their element, and
 end tags must match start tags

---
 relaxng-validator/src/lib.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 0f1e1bb..77b106a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -732,7 +732,10 @@ impl<'a> Validator<'a> {
                     ElementEnd::Open => {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
-                    ElementEnd::Close(_, _) => {
+                    ElementEnd::Close(prefix, local) => {
+                        if !self.stack.pop_matching(prefix, local) {
+                            return Err(ValidatorError::NotAllowed(evt));
+                        }
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
@@ -754,6 +757,7 @@ impl<'a> Validator<'a> {
                     ElementEnd::Empty => {
                         let next_id =
                             Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
+                        self.stack.pop();
                         let pat = self.schema.patt(next_id);
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
@@ -1628,6 +1632,15 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) -> Option<ElementState<'a>> {
+        self.elements.pop()
+    }
+    /// Closes the innermost open element, and says if it has the given name
+    fn pop_matching(&mut self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        self.pop().is_some_and(|elem| {
+            elem.prefix.as_str() == prefix.as_str() && elem.local.as_str() == local.as_str()
+        })
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From 05727219ff4a21227bcc5b9dc6715045cb5e4983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:11 +0000
Subject: [PATCH 07/54] fix: a document that ends before its root element does
 is an error

---
 relaxng-validator/src/lib.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 77b106a..41dae78 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -528,6 +528,8 @@ pub struct Validator<'a> {
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
     last_was_start_element: bool,
+    seen_root: bool,
+    ended: bool,
     stack: ElementStack<'a>,
     entity_definitions: HashMap<String, String>,
 }
@@ -553,6 +555,8 @@ impl<'a> Validator<'a> {
             tokenizer,
             current_step: start,
             last_was_start_element: false,
+            seen_root: false,
+            ended: false,
             stack: ElementStack::default(),
             entity_definitions,
         }
@@ -661,8 +665,21 @@ impl<'a> Validator<'a> {
     pub fn validate_next(&mut self) -> Option<Result<(), ValidatorError<'a>>> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => Some(self.validate(evt)),
-            Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),
-            None => None,
+            Some(Err(err)) => {
+                self.ended = true;
+                Some(Err(ValidatorError::Xml(err)))
+            }
+            None => {
+                let complete = self.ended || (self.seen_root && self.stack.elements.is_empty());
+                self.ended = true;
+                if complete {
+                    return None;
+                }
+                Some(Err(ValidatorError::Xml(xmlparser::Error::InvalidElement(
+                    xmlparser::StreamError::UnexpectedEndOfStream,
+                    self.tokenizer.stream().gen_text_pos(),
+                ))))
+            }
         }
     }
 
@@ -697,6 +714,7 @@ impl<'a> Validator<'a> {
                 local,
                 span,
             } => {
+                self.seen_root = true;
                 self.stack.push(prefix, local, span);
                 // does not change current_step state
                 return Ok(());
-- 
2.43.0


From 55db9f98a2cf6ae3698a2323fcc97e99b0cd6d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:42 +0000
Subject: [PATCH 08/54] fix: the default namespace applies to elements, and the
 xml prefix is always bound

---
 relaxng-validator/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 41dae78..c1cf1b5 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1623,6 +1623,9 @@ struct ElementStack<'a> {
 
 impl<'a> ElementStack<'a> {
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+        if prefix == "xml" {
+            return Some(StrSpan::from("http://www.w3.org/XML/1998/namespace"));
+        }
         self.elements
             .iter()
             .rev()
@@ -1691,7 +1694,12 @@ impl<'a> ElementStack<'a> {
     }
     fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
-        let namespace_uri = self.try_lookup_namespace_uri(curr.prefix)?;
+        let namespace_uri = if curr.prefix.as_str() == "" {
+            // the default namespace, if there is one
+            self.lookup_namespace_uri("")
+        } else {
+            self.try_lookup_namespace_uri(curr.prefix)?
+        };
         Ok(QualifiedName {
             namespace_uri,
             local_name: curr.local,
-- 
2.43.0


From 797003d688b271a33c045d5743f04ccc22f752a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:17 +0000
Subject: [PATCH 09/54] fix: a start tag may not have two attributes of the
 same name

---
 relaxng-validator/src/lib.rs | 77 +++++++++++++++++++++++-------------
 1 file changed, 49 insertions(+), 28 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index c1cf1b5..f895f97 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -523,6 +523,26 @@ struct Attr<'a> {
     span: StrSpan<'a>,
 }
 
+impl QualifiedName<'_> {
+    fn same_as(&self, other: &QualifiedName) -> bool {
+        self.namespace_uri.as_deref().unwrap_or("") == other.namespace_uri.as_deref().unwrap_or("")
+            && self.local_name.as_str() == other.local_name.as_str()
+    }
+}
+impl<'a> Attr<'a> {
+    fn token(&self) -> Token<'a> {
+        Token::Attribute {
+            prefix: self
+                .name
+                .namespace_uri
+                .unwrap_or_else(|| StrSpan::from("")),
+            local: self.name.local_name,
+            value: self.value,
+            span: self.span,
+        }
+    }
+}
+
 pub struct Validator<'a> {
     schema: Schema,
     tokenizer: Tokenizer<'a>,
@@ -741,7 +761,9 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
-                self.stack.add_attr(prefix, local, value, span);
+                if !self.stack.add_attr(prefix, local, value, span) {
+                    return Err(ValidatorError::NotAllowed(evt));
+                }
                 // does not change current_step state
                 return Ok(());
             }
@@ -902,17 +924,17 @@ impl<'a> Validator<'a> {
             }
             _p => {
                 let attributes: Vec<_> = stack.current_attributes()?;
+                for (i, att) in attributes.iter().enumerate() {
+                    if attributes[..i].iter().any(|a| a.name.same_as(&att.name)) {
+                        return Err(ValidatorError::NotAllowed(att.token()));
+                    }
+                }
                 let mut pat = next_pat;
                 for att in attributes {
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
-                        return Err(ValidatorError::NotAllowed(Token::Attribute {
-                            prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                            local: att.name.local_name,
-                            value: att.value,
-                            span: att.span,
-                        }));
+                        return Err(ValidatorError::NotAllowed(att.token()));
                     }
                 }
                 pat
@@ -1662,35 +1684,34 @@ impl<'a> ElementStack<'a> {
             elem.prefix.as_str() == prefix.as_str() && elem.local.as_str() == local.as_str()
         })
     }
+    /// Returns false if this is a namespace declaration which the element already has
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
         local: StrSpan<'a>,
         value: StrSpan<'a>,
         span: StrSpan<'a>,
-    ) {
-        if prefix.as_str() == "xmlns" {
-            self.elements.last_mut().unwrap().namespaces.push(Ns {
-                prefix: local,
-                namespace_uri: value,
-            })
+    ) -> bool {
+        let element = self.elements.last_mut().unwrap();
+        let declared = if prefix.as_str() == "xmlns" {
+            local
         } else if prefix.as_str() == "" && local.as_str() == "xmlns" {
-            self.elements.last_mut().unwrap().namespaces.push(Ns {
-                prefix,
-                namespace_uri: value,
-            })
+            prefix
         } else {
-            self.elements
-                .last_mut()
-                .unwrap()
-                .attributes
-                .push(UnresolvedAttr {
-                    prefix,
-                    local,
-                    value,
-                    span,
-                })
-        }
+            element.attributes.push(UnresolvedAttr {
+                prefix,
+                local,
+                value,
+                span,
+            });
+            return true;
+        };
+        let duplicate = element.lookup_namespace_uri(&declared).is_some();
+        element.namespaces.push(Ns {
+            prefix: declared,
+            namespace_uri: value,
+        });
+        !duplicate
     }
     fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
-- 
2.43.0


From 7e322db56a413b76b4e46c5181adcff38f804001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:20 +0000
Subject: [PATCH 10/54] fix: report every invalid character reference, at its
 position in the document

---
 relaxng-validator/src/lib.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index f895f97..76ee923 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1564,7 +1564,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
@@ -1573,7 +1573,7 @@ fn parse_entities(
                         self.in_entity = false;
                         let text = &self.text[self.offset..self.offset + i];
                         let result = if let Some(text) = text.strip_prefix('#') {
-                            numeric_entity(self.offset, text)
+                            numeric_entity(self.offset + self.pos, text)
                         } else {
                             Ok(Txt::Entity(self.offset + self.pos, text))
                         };
@@ -1610,15 +1610,21 @@ fn parse_entities(
             if text.is_empty() {
                 return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
             }
-            u32::from_str_radix(text, 16)
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
+            // note that from_str_radix() would accept a sign
+            Some(text)
+                .filter(|t| t.chars().all(|c| c.is_ascii_hexdigit()))
+                .and_then(|t| u32::from_str_radix(t, 16).ok())
+                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
         } else {
-            text.parse()
-                .map_err(|_e| ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
+            Some(text)
+                .filter(|t| t.chars().all(|c| c.is_ascii_digit()))
+                .and_then(|t| t.parse().ok())
+                .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?
         };
         Ok(Txt::Char(
             pos,
             std::char::from_u32(c)
+                .filter(|c| is_xml_char(*c))
                 .ok_or(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos })?,
         ))
     }
@@ -1630,6 +1636,11 @@ fn parse_entities(
     }
 }
 
+/// The characters which a character reference can stand for
+fn is_xml_char(c: char) -> bool {
+    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
+}
+
 fn is_whitespace_char(c: char) -> bool {
     ['\x20', '\x09', '\x0d', '\x0a'].contains(&c)
 }
-- 
2.43.0


From f71c82d706d31ae4b6087c0435b5173f9df290a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 11/54] fix: judge the text of an element as a whole, and empty
 content as empty text

---
 relaxng-validator/src/lib.rs | 210 +++++++++++++++++------------------
 1 file changed, 100 insertions(+), 110 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 76ee923..9d14d4a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -548,6 +548,8 @@ pub struct Validator<'a> {
     tokenizer: Tokenizer<'a>,
     current_step: PatId,
     last_was_start_element: bool,
+    // the position in the document up to which text has been dealt with
+    text_end: usize,
     seen_root: bool,
     ended: bool,
     stack: ElementStack<'a>,
@@ -575,6 +577,7 @@ impl<'a> Validator<'a> {
             tokenizer,
             current_step: start,
             last_was_start_element: false,
+            text_end: 0,
             seen_root: false,
             ended: false,
             stack: ElementStack::default(),
@@ -779,15 +782,8 @@ impl<'a> Validator<'a> {
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
+                            let p =
+                                Self::whitespace_deriv(self.current_step, &mut self.schema, "");
                             self.schema.patt(p)
                         } else {
                             pat
@@ -798,75 +794,29 @@ impl<'a> Validator<'a> {
                         let next_id =
                             Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
                         self.stack.pop();
-                        let pat = self.schema.patt(next_id);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
+                        let p = Self::whitespace_deriv(next_id, &mut self.schema, "");
+                        let next_pat = self.schema.patt(p);
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
             }
-            Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
-            Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
+            Token::Cdata { .. } | Token::Text { .. } => {
+                if evt.span().start() < self.text_end {
+                    // a later part of text which has already been dealt with
+                    return Ok(());
                 }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
+                let (text, only_child) = match self.text_node(evt)? {
+                    Some(node) => node,
+                    // the document is broken; which is about to be reported
+                    None => return Ok(()),
                 };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
-                let next_pat = self.schema.patt(next_id);
-                if let Pat::NotAllowed = next_pat {
-                    return Err(ValidatorError::NotAllowed(Token::Text { text }));
+                if !is_whitespace_str(&text) {
+                    Self::text_deriv(pat, &mut self.schema, &text)
+                } else if only_child {
+                    Self::whitespace_deriv(self.current_step, &mut self.schema, &text)
+                } else {
+                    self.current_step
                 }
-                next_id
             }
             Token::EntityDeclaration {
                 name,
@@ -892,11 +842,13 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
+        self.last_was_start_element = matches!(
+            evt,
+            Token::ElementEnd {
+                end: ElementEnd::Open,
+                ..
+            }
+        );
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
@@ -905,6 +857,50 @@ impl<'a> Validator<'a> {
         }
     }
 
+    /// Collects the whole of the text node which begins with the given token, looking past
+    /// comments, processing instructions and the boundaries of CDATA sections.  The flag says if
+    /// there is nothing else in the containing element.
+    fn text_node(
+        &mut self,
+        first: Token<'a>,
+    ) -> Result<Option<(String, bool)>, ValidatorError<'a>> {
+        let mut content = String::new();
+        let mut ahead = self.tokenizer.clone();
+        let mut next = Some(Ok(first));
+        loop {
+            match next {
+                Some(Ok(Token::Text { text })) => {
+                    self.text_end = text.end();
+                    content.push_str(&decode(&self.entity_definitions, text)?);
+                }
+                Some(Ok(Token::Cdata { text, span })) => {
+                    self.text_end = span.end();
+                    content.push_str(text.as_str());
+                }
+                Some(Ok(Token::Comment { .. } | Token::ProcessingInstruction { .. })) => {}
+                Some(Ok(Token::ElementEnd { .. })) => {
+                    return Ok(Some((content, self.last_was_start_element)));
+                }
+                Some(Ok(_)) => return Ok(Some((content, false))),
+                Some(Err(_)) | None => return Ok(None),
+            }
+            next = ahead.next();
+        }
+    }
+
+    /// From https://relaxng.org/jclark/derivative.html ,
+    ///     "In the case where the list of children consists of a single text node and the value
+    ///      of the text node consists only of whitespace, the list of children matches if the
+    ///      list matches either with or without stripping the text node."
+    /// and
+    ///     "The case where the list of children is empty is treated as if there were a text node
+    ///      whose value were the empty string."
+    fn whitespace_deriv(current: PatId, schema: &mut Schema, text: &str) -> PatId {
+        let pat = schema.patt(current);
+        let d = Self::text_deriv(pat, schema, text);
+        schema.choice(current, d)
+    }
+
     fn close_element_start<'b: 'a>(
         stack: &ElementStack<'b>,
         schema: &mut Schema,
@@ -1021,51 +1017,21 @@ impl<'a> Validator<'a> {
             }
             Pat::List(p) => {
                 let mut p = p;
-                for item in text.split_whitespace() {
+                for item in text.split(is_whitespace_char).filter(|s| !s.is_empty()) {
                     let pat = schema.patt(p);
                     p = Self::text_deriv(pat, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
                         return p;
                     }
                 }
-                let last_patt = schema.patt(p);
-                if let Pat::Empty = last_patt {
-                    p
-                } else if last_patt.is_nullable() {
-                    // List is not able to be nullable per https://relaxng.org/jclark/derivative.html
-                    // but that definition assumes that we can see all text content up-front
-                    // whereas processing instructions CDATA sections etc may mean we see
-                    // text children piecemeal here.  To accommodate this, we make the list
-                    // optional here (TODO: should we rather adjust List to be nullable?)
-                    schema.choice(schema.list(p), schema.empty())
-                } else {
-                    schema.list(p)
-                }
-            }
-            Pat::Empty => {
-                // from 'An algorithm for RELAX NG validation':
-                //   "In the case where the list of children consists of a single text node and the
-                //    value of the text node consists only of whitespace, the list of children
-                //    matches if the list matches either with or without stripping the text node."
-                //   "Otherwise, there must be one or more elements amongst the children, in which
-                //    case any whitespace-only text nodes are stripped before the derivative is
-                //    computed."
-                // The document assumes however that we can see the list of child nodes, so we need
-                // to handle this case in a streaming manner.  Right now we don't track that
-                // that this pattern is being tested in the context of child nodes - FIXME!
-                if xml::common::is_whitespace_str(text) {
+                if schema.patt(p).is_nullable() {
                     schema.empty()
                 } else {
                     schema.not_allowed()
                 }
             }
-            Pat::NotAllowed | Pat::Attribute(_, _) => schema.not_allowed(),
-            Pat::Element(_, _) => {
-                if xml::common::is_whitespace_str(text) {
-                    schema.push(current) // TODO: just have the PatId to hand
-                } else {
-                    schema.not_allowed()
-                }
+            Pat::Empty | Pat::NotAllowed | Pat::Attribute(_, _) | Pat::Element(_, _) => {
+                schema.not_allowed()
             }
             Pat::Placeholder(name, _) => unreachable!("Placeholder {:?}", name),
         }
@@ -1543,6 +1509,30 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// The characters of a piece of text, with all references replaced by what they stand for
+fn decode<'a>(
+    definitions: &HashMap<String, String>,
+    text: StrSpan<'a>,
+) -> Result<String, ValidatorError<'a>> {
+    let mut decoded = String::new();
+    for val in parse_entities(text.start(), text.as_str()) {
+        match val? {
+            Txt::Text(_pos, val) => decoded.push_str(val),
+            Txt::Char(_pos, val) => decoded.push(val),
+            Txt::Entity(pos, name) => match definitions.get(name) {
+                Some(val) => decoded.push_str(val),
+                None => {
+                    return Err(ValidatorError::UndefinedEntity {
+                        name,
+                        span: pos..pos + name.len(),
+                    });
+                }
+            },
+        }
+    }
+    Ok(decoded)
+}
+
 #[derive(Debug)]
 enum Txt<'a> {
     Text(usize, &'a str),
-- 
2.43.0


From e9dfbdab8cb34ff44fa5ca4bec8e9b07bb72ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 12/54] fix: expand references within entities, whose first
 definition counts

---
 relaxng-validator/src/lib.rs | 73 ++++++++++++++++++++++++++++--------
 1 file changed, 58 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 9d14d4a..e301566 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -567,11 +567,9 @@ impl<'a> Validator<'a> {
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
         let mut entity_definitions = HashMap::default();
-        entity_definitions.insert("lt".to_string(), "<".to_string());
-        entity_definitions.insert("gt".to_string(), ">".to_string());
-        entity_definitions.insert("amp".to_string(), "&".to_string());
-        entity_definitions.insert("apos".to_string(), "'".to_string());
-        entity_definitions.insert("quot".to_string(), "\"".to_string());
+        for (name, value) in PREDEFINED_ENTITIES {
+            entity_definitions.insert(name.to_string(), value.to_string());
+        }
         Validator {
             schema,
             tokenizer,
@@ -825,8 +823,10 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        // the first definition of an entity is the one that counts
                         self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                            .entry(name.to_string())
+                            .or_insert_with(|| val.to_string());
                         // does not change current_step state
                         return Ok(());
                     }
@@ -1515,24 +1515,67 @@ fn decode<'a>(
     text: StrSpan<'a>,
 ) -> Result<String, ValidatorError<'a>> {
     let mut decoded = String::new();
+    let mut budget = MAX_ENTITY_EXPANSION;
     for val in parse_entities(text.start(), text.as_str()) {
         match val? {
             Txt::Text(_pos, val) => decoded.push_str(val),
             Txt::Char(_pos, val) => decoded.push(val),
-            Txt::Entity(pos, name) => match definitions.get(name) {
-                Some(val) => decoded.push_str(val),
-                None => {
-                    return Err(ValidatorError::UndefinedEntity {
-                        name,
-                        span: pos..pos + name.len(),
-                    });
-                }
-            },
+            Txt::Entity(pos, name) => {
+                let span = pos..pos + name.len();
+                if !definitions.contains_key(name) {
+                    return Err(ValidatorError::UndefinedEntity { name, span });
+                }
+                if expand(definitions, name, &mut vec![], &mut budget, &mut decoded).is_none() {
+                    return Err(ValidatorError::InvalidOrUnclosedEntity { span });
+                }
+            }
         }
     }
     Ok(decoded)
 }
 
+// limits for entities defined in terms of each other
+const MAX_ENTITY_EXPANSION: usize = 10_000_000;
+const MAX_ENTITY_DEPTH: usize = 100;
+
+/// Appends what the named entity stands for.  There is no result if the entity refers to itself,
+/// to something undefined, or is unreasonably large.
+fn expand<'d>(
+    definitions: &'d HashMap<String, String>,
+    name: &'d str,
+    open: &mut Vec<&'d str>,
+    budget: &mut usize,
+    decoded: &mut String,
+) -> Option<()> {
+    let definition = definitions.get(name)?;
+    *budget = budget.checked_sub(1 + definition.len())?;
+    if PREDEFINED_ENTITIES.iter().any(|(n, _)| *n == name) {
+        decoded.push_str(definition);
+        return Some(());
+    }
+    if open.contains(&name) || open.len() == MAX_ENTITY_DEPTH {
+        return None;
+    }
+    open.push(name);
+    for val in parse_entities(0, definition) {
+        match val.ok()? {
+            Txt::Text(_pos, val) => decoded.push_str(val),
+            Txt::Char(_pos, val) => decoded.push(val),
+            Txt::Entity(_pos, name) => expand(definitions, name, open, budget, decoded)?,
+        }
+    }
+    open.pop();
+    Some(())
+}
+
+const PREDEFINED_ENTITIES: [(&str, &str); 5] = [
+    ("lt", "<"),
+    ("gt", ">"),
+    ("amp", "&"),
+    ("apos", "'"),
+    ("quot", "\""),
+];
+
 #[derive(Debug)]
 enum Txt<'a> {
     Text(usize, &'a str),
-- 
2.43.0


From 2f50ddfce251b0b7eb498ce72dd5519213234027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 13/54] fix: a parameter entity does not define the general
 entity of that name

---
 relaxng-validator/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index e301566..0d68722 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -819,8 +819,12 @@ impl<'a> Validator<'a> {
             Token::EntityDeclaration {
                 name,
                 definition,
-                span: _,
+                span,
             } => {
+                if span["<!ENTITY".len()..].trim_start().starts_with('%') {
+                    // parameter entities have names of their own
+                    return Ok(());
+                }
                 match definition {
                     EntityDefinition::EntityValue(val) => {
                         // the first definition of an entity is the one that counts
-- 
2.43.0


From 5b95323fa7d73430d7a66787debd03b699bc745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 14/54] fix: references in attribute values and namespace
 declarations mean the characters they stand for

---
 relaxng-validator/src/lib.rs | 135 ++++++++++++++++++++---------------
 1 file changed, 77 insertions(+), 58 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 0d68722..f3d9253 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -468,9 +468,9 @@ impl Schema {
     }
 }
 
-fn is_ns_match(namespace_uri: &str, target_namespace: Option<&StrSpan>) -> bool {
+fn is_ns_match(namespace_uri: &str, target_namespace: Option<&str>) -> bool {
     if let Some(target_namespace) = target_namespace {
-        target_namespace.as_str() == namespace_uri
+        target_namespace == namespace_uri
     } else {
         namespace_uri.is_empty()
     }
@@ -481,9 +481,8 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             namespace_uri,
             name,
         } => {
-            if let Some(ref target_namespace) = target_name.namespace_uri {
-                target_namespace.as_str() == namespace_uri
-                    && target_name.local_name.as_str() == name
+            if let Some(target_namespace) = target_name.namespace_uri {
+                target_namespace == namespace_uri && target_name.local_name.as_str() == name
             } else {
                 namespace_uri.is_empty() && target_name.local_name.as_str() == name
             }
@@ -492,7 +491,7 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
             namespace_uri,
             except,
         } => {
-            if is_ns_match(namespace_uri, target_name.namespace_uri.as_ref()) {
+            if is_ns_match(namespace_uri, target_name.namespace_uri) {
                 if let Some(except_nameclass) = except {
                     !contains(except_nameclass, target_name)
                 } else {
@@ -512,33 +511,30 @@ fn contains(nc: &model::NameClass, target_name: QualifiedName) -> bool {
 
 #[derive(Copy, Clone, Debug)]
 struct QualifiedName<'a> {
-    namespace_uri: Option<StrSpan<'a>>,
+    namespace_uri: Option<&'a str>,
     local_name: StrSpan<'a>,
 }
 
-#[derive(Copy, Clone, Debug)]
-struct Attr<'a> {
-    name: QualifiedName<'a>,
-    value: StrSpan<'a>,
-    span: StrSpan<'a>,
+#[derive(Clone, Debug)]
+struct Attr<'s, 'a> {
+    name: QualifiedName<'s>,
+    value: String,
+    source: &'s UnresolvedAttr<'a>,
 }
 
 impl QualifiedName<'_> {
     fn same_as(&self, other: &QualifiedName) -> bool {
-        self.namespace_uri.as_deref().unwrap_or("") == other.namespace_uri.as_deref().unwrap_or("")
+        self.namespace_uri.unwrap_or("") == other.namespace_uri.unwrap_or("")
             && self.local_name.as_str() == other.local_name.as_str()
     }
 }
-impl<'a> Attr<'a> {
+impl<'a> Attr<'_, 'a> {
     fn token(&self) -> Token<'a> {
         Token::Attribute {
-            prefix: self
-                .name
-                .namespace_uri
-                .unwrap_or_else(|| StrSpan::from("")),
-            local: self.name.local_name,
-            value: self.value,
-            span: self.span,
+            prefix: self.source.prefix,
+            local: self.source.local,
+            value: self.source.value,
+            span: self.source.span,
         }
     }
 }
@@ -625,8 +621,7 @@ impl<'a> Validator<'a> {
                     id
                 } else {
                     if let Some(thing) = Rc::as_ref(&r.0).borrow().as_ref() {
-                        let placeholder_id =
-                            s.ref_placeholder(ptr, Self::is_nullable(s, p));
+                        let placeholder_id = s.ref_placeholder(ptr, Self::is_nullable(s, p));
                         let id = Self::compile(s, thing.pattern());
                         if let Pat::Placeholder(_, _) = s.patt(id) {
                             // just another name for a definition which is being compiled
@@ -762,7 +757,10 @@ impl<'a> Validator<'a> {
                 value,
                 span,
             } => {
-                if !self.stack.add_attr(prefix, local, value, span) {
+                if !self
+                    .stack
+                    .add_attr(&self.entity_definitions, prefix, local, value, span)?
+                {
                     return Err(ValidatorError::NotAllowed(evt));
                 }
                 // does not change current_step state
@@ -770,9 +768,13 @@ impl<'a> Validator<'a> {
             }
             Token::ElementEnd { end, span: _ } => {
                 match end {
-                    ElementEnd::Open => {
-                        Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
-                    }
+                    ElementEnd::Open => Self::close_element_start(
+                        &self.stack,
+                        &self.entity_definitions,
+                        &mut self.schema,
+                        evt,
+                        pat,
+                    )?,
                     ElementEnd::Close(prefix, local) => {
                         if !self.stack.pop_matching(prefix, local) {
                             return Err(ValidatorError::NotAllowed(evt));
@@ -780,8 +782,7 @@ impl<'a> Validator<'a> {
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
-                            let p =
-                                Self::whitespace_deriv(self.current_step, &mut self.schema, "");
+                            let p = Self::whitespace_deriv(self.current_step, &mut self.schema, "");
                             self.schema.patt(p)
                         } else {
                             pat
@@ -789,8 +790,13 @@ impl<'a> Validator<'a> {
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
-                        let next_id =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
+                        let next_id = Self::close_element_start(
+                            &self.stack,
+                            &self.entity_definitions,
+                            &mut self.schema,
+                            evt,
+                            pat,
+                        )?;
                         self.stack.pop();
                         let p = Self::whitespace_deriv(next_id, &mut self.schema, "");
                         let next_pat = self.schema.patt(p);
@@ -905,32 +911,33 @@ impl<'a> Validator<'a> {
         schema.choice(current, d)
     }
 
-    fn close_element_start<'b: 'a>(
+    fn close_element_start<'b>(
         stack: &ElementStack<'b>,
+        entity_definitions: &HashMap<String, String>,
         schema: &mut Schema,
         evt: Token<'b>,
         pat: Pat,
     ) -> Result<PatId, ValidatorError<'b>> {
-        let name = stack.current_element()?;
+        let (name, prefix, local) = stack.current_element()?;
         let next_pat = Self::start_tag_open_deriv(pat, schema, name);
         // TODO: refactor early-returns
         let next_pat = match schema.patt(next_pat) {
             Pat::NotAllowed => {
                 return Err(ValidatorError::NotAllowed(Token::ElementStart {
-                    prefix: name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
-                    local: name.local_name,
-                    span: name.local_name,
+                    prefix,
+                    local,
+                    span: local,
                 }));
             }
             _p => {
-                let attributes: Vec<_> = stack.current_attributes()?;
+                let attributes: Vec<_> = stack.current_attributes(entity_definitions)?;
                 for (i, att) in attributes.iter().enumerate() {
                     if attributes[..i].iter().any(|a| a.name.same_as(&att.name)) {
                         return Err(ValidatorError::NotAllowed(att.token()));
                     }
                 }
                 let mut pat = next_pat;
-                for att in attributes {
+                for att in &attributes {
                     let mut memo = HashMap::new();
                     pat = Self::att_deriv(&mut memo, pat, schema, att);
                     if let Pat::NotAllowed = schema.patt(pat) {
@@ -1041,7 +1048,7 @@ impl<'a> Validator<'a> {
         }
     }
 
-    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName<'a>) -> PatId {
+    fn start_tag_open_deriv(current: Pat, schema: &mut Schema, name: QualifiedName) -> PatId {
         match current {
             Pat::Choice(l, r, _) => {
                 let left = schema.patt(l);
@@ -1143,7 +1150,7 @@ impl<'a> Validator<'a> {
         memo: &mut HashMap<PatId, PatId>,
         pat: PatId,
         schema: &mut Schema,
-        att: Attr,
+        att: &Attr,
     ) -> PatId {
         if let Some(result) = memo.get(&pat) {
             return *result;
@@ -1692,9 +1699,9 @@ struct ElementStack<'a> {
 }
 
 impl<'a> ElementStack<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         if prefix == "xml" {
-            return Some(StrSpan::from("http://www.w3.org/XML/1998/namespace"));
+            return Some("http://www.w3.org/XML/1998/namespace");
         }
         self.elements
             .iter()
@@ -1705,7 +1712,7 @@ impl<'a> ElementStack<'a> {
     fn try_lookup_namespace_uri(
         &self,
         prefix: StrSpan<'a>,
-    ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
+    ) -> Result<Option<&str>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
             Ok(None)
         } else {
@@ -1735,11 +1742,12 @@ impl<'a> ElementStack<'a> {
     /// Returns false if this is a namespace declaration which the element already has
     fn add_attr(
         &mut self,
+        entity_definitions: &HashMap<String, String>,
         prefix: StrSpan<'a>,
         local: StrSpan<'a>,
         value: StrSpan<'a>,
         span: StrSpan<'a>,
-    ) -> bool {
+    ) -> Result<bool, ValidatorError<'a>> {
         let element = self.elements.last_mut().unwrap();
         let declared = if prefix.as_str() == "xmlns" {
             local
@@ -1752,16 +1760,19 @@ impl<'a> ElementStack<'a> {
                 value,
                 span,
             });
-            return true;
+            return Ok(true);
         };
         let duplicate = element.lookup_namespace_uri(&declared).is_some();
         element.namespaces.push(Ns {
             prefix: declared,
-            namespace_uri: value,
+            namespace_uri: decode(entity_definitions, value)?,
         });
-        !duplicate
+        Ok(!duplicate)
     }
-    fn current_element(&self) -> Result<QualifiedName<'a>, ValidatorError<'a>> {
+    #[allow(clippy::type_complexity)]
+    fn current_element(
+        &self,
+    ) -> Result<(QualifiedName<'_>, StrSpan<'a>, StrSpan<'a>), ValidatorError<'a>> {
         let curr = self.elements.last().unwrap();
         let namespace_uri = if curr.prefix.as_str() == "" {
             // the default namespace, if there is one
@@ -1769,12 +1780,19 @@ impl<'a> ElementStack<'a> {
         } else {
             self.try_lookup_namespace_uri(curr.prefix)?
         };
-        Ok(QualifiedName {
-            namespace_uri,
-            local_name: curr.local,
-        })
+        Ok((
+            QualifiedName {
+                namespace_uri,
+                local_name: curr.local,
+            },
+            curr.prefix,
+            curr.local,
+        ))
     }
-    fn current_attributes(&self) -> Result<Vec<Attr<'a>>, ValidatorError<'a>> {
+    fn current_attributes(
+        &self,
+        entity_definitions: &HashMap<String, String>,
+    ) -> Result<Vec<Attr<'_, 'a>>, ValidatorError<'a>> {
         self.elements
             .last()
             .unwrap()
@@ -1791,14 +1809,15 @@ impl<'a> ElementStack<'a> {
                         namespace_uri,
                         local_name: unresolved.local,
                     },
-                    value: unresolved.value,
-                    span: unresolved.span,
+                    value: decode(entity_definitions, unresolved.value)?,
+                    source: unresolved,
                 })
             })
             .collect()
     }
 }
 
+#[derive(Debug)]
 struct UnresolvedAttr<'a> {
     prefix: StrSpan<'a>,
     local: StrSpan<'a>,
@@ -1813,17 +1832,17 @@ struct ElementState<'a> {
 }
 
 impl<'a> ElementState<'a> {
-    fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+    fn lookup_namespace_uri(&self, prefix: &str) -> Option<&str> {
         self.namespaces
             .iter()
             .find(|ns| ns.prefix.as_str() == prefix)
-            .map(|ns| ns.namespace_uri)
+            .map(|ns| ns.namespace_uri.as_str())
     }
 }
 
 struct Ns<'a> {
     prefix: StrSpan<'a>,
-    namespace_uri: StrSpan<'a>,
+    namespace_uri: String,
 }
 
 #[cfg(test)]
-- 
2.43.0


From fd03f86432ecc94995c3635a9c77eb2ca3937228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 15/54] fix: a long document must not run out of pattern
 numbers

---
 relaxng-validator/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index f3d9253..58b0c75 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -24,7 +24,7 @@ pub enum ValidatorError<'a> {
 }
 
 #[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
-struct PatId(u16);
+struct PatId(u32);
 
 // TODO: separate representations?
 //       1) includes 'Placeholder, but doesn't include nullability flags or 'After'
@@ -89,13 +89,13 @@ struct Schema {
 impl Schema {
     fn push(&self, p: Pat) -> PatId {
         let mut inner = self.inner.borrow_mut();
-        if inner.patterns.len() > 0xffff {
-            panic!("Only up to 2^16 rules supported in one schema")
+        if inner.patterns.len() > u32::MAX as usize {
+            panic!("Only up to 2^32 rules supported in one schema")
         }
         if let Some(id) = inner.memo.get(&p) {
             *id
         } else {
-            let id = PatId(inner.patterns.len() as u16);
+            let id = PatId(inner.patterns.len() as u32);
             inner.memo.insert(p.clone(), id);
             inner.patterns.push(p);
             id
-- 
2.43.0


From 72489d51985cb4219405d1aea103b77cc5d62a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:20 +0000
Subject: [PATCH 16/54] fix: choice() eliminates redundant alternatives, so
 that ambiguous patterns do not blow up

---
 relaxng-validator/src/lib.rs | 38 ++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 58b0c75..e6a26c2 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -102,7 +102,6 @@ impl Schema {
         }
     }
     pub fn choice(&self, left: PatId, right: PatId) -> PatId {
-        // TODO:
         //       "In order to avoid exponential blowup with some patterns, it is essential
         //        for the choice function to eliminate redundant choices. Define the
         //        choice-leaves of a pattern to be the concatenation of the choice-leaves of
@@ -127,8 +126,43 @@ impl Schema {
                 if r.is_nullable() {
                     //println!("**redundant choice construction? r => nullable");
                 }
-                self.push(Pat::Choice(left, right, l.is_nullable() || r.is_nullable()))
+                let mut leaves = HashSet::new();
+                self.choice_leaves(left, &mut leaves);
+                match self.without_leaves(right, &leaves) {
+                    Some(right) => {
+                        let nullable = l.is_nullable() || self.patt(right).is_nullable();
+                        self.push(Pat::Choice(left, right, nullable))
+                    }
+                    None => left,
+                }
+            }
+        }
+    }
+    fn choice_leaves(&self, p: PatId, leaves: &mut HashSet<PatId>) {
+        match self.patt(p) {
+            Pat::Choice(left, right, _) => {
+                self.choice_leaves(left, leaves);
+                self.choice_leaves(right, leaves);
+            }
+            _ => {
+                leaves.insert(p);
+            }
+        }
+    }
+    fn without_leaves(&self, p: PatId, leaves: &HashSet<PatId>) -> Option<PatId> {
+        match self.patt(p) {
+            Pat::Choice(left, right, _) => {
+                match (
+                    self.without_leaves(left, leaves),
+                    self.without_leaves(right, leaves),
+                ) {
+                    (Some(l), Some(r)) if l == left && r == right => Some(p),
+                    (Some(l), Some(r)) => Some(self.choice(l, r)),
+                    (l, r) => l.or(r),
+                }
             }
+            _ if leaves.contains(&p) => None,
+            _ => Some(p),
         }
     }
     pub fn interleave(&self, left: PatId, right: PatId) -> PatId {
-- 
2.43.0


From d5487e4a75ae8ab3d853d19ce77a3de0f70f489d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:23 +0000
Subject: [PATCH 17/54] fix: the expected-element hint names each alternative
 once, in a fixed order

---
 relaxng-validator/src/lib.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index e6a26c2..4de9bcc 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -2,7 +2,7 @@ use relaxng_model::datatype::Datatype;
 use relaxng_model::model::NameClass;
 use relaxng_model::{datatype, model};
 use std::cell::RefCell;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeSet, HashMap, HashSet};
 use std::io;
 use std::rc::Rc;
 use xmlparser::{ElementEnd, EntityDefinition, StrSpan, Token, Tokenizer};
@@ -1351,20 +1351,23 @@ impl<'a> Validator<'a> {
     fn describe_expected(&self, expected_patt: PatId) -> String {
         #[allow(clippy::mutable_key_type)] // false-positive
         let heads = self.heads(expected_patt);
-        let mut result = String::new();
-        const MAX_ELEMENTS: usize = 4;
-        let mut rest = 0;
-        for (i, nameclass) in heads
+        // alternatives that share a name are listed once, and always in the same order
+        let names: BTreeSet<String> = heads
             .iter()
             .filter_map(|p| {
                 if let Pat::Element(nameclass, _) = p {
-                    Some(nameclass)
+                    let mut desc = String::new();
+                    self.describe_nameclass(nameclass, &mut desc);
+                    Some(desc)
                 } else {
                     None
                 }
             })
-            .enumerate()
-        {
+            .collect();
+        let mut result = String::new();
+        const MAX_ELEMENTS: usize = 4;
+        let mut rest = 0;
+        for (i, desc) in names.iter().enumerate() {
             if i == 0 {
                 result.push_str("Element ");
             }
@@ -1376,9 +1379,7 @@ impl<'a> Validator<'a> {
                 }
                 // TODO: also provide namespace information; grouping by namespace to make the
                 //       information more succinct
-                let mut desc = String::new();
-                self.describe_nameclass(nameclass, &mut desc);
-                result.push_str(&desc);
+                result.push_str(desc);
             }
         }
         if rest > 0 {
-- 
2.43.0


From a40304d05a5b927131d421e0b6b39dd14dcdd928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 18/54] fix: the diagnostic of an XML syntax error points at
 the position of the error

---
 relaxng-validator/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 4de9bcc..94eb71a 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1434,8 +1434,14 @@ impl<'a> Validator<'a> {
         let mut diagnostics = vec![];
         match err {
             ValidatorError::Xml(err) => {
-                let line = file.line_span(err.pos().row as _);
-                let span = line.subspan(err.pos().row as _, err.pos().row as _);
+                // rows and columns are counted from 1, and columns are counted in characters
+                let line = file.line_span((err.pos().row as usize).saturating_sub(1));
+                let text = file.source_slice(line);
+                let offset = text
+                    .char_indices()
+                    .nth((err.pos().col as usize).saturating_sub(1))
+                    .map_or(text.len(), |(i, _)| i) as u64;
+                let span = line.subspan(offset, offset);
 
                 let label = codemap_diagnostic::SpanLabel {
                     span,
-- 
2.43.0


From fffd006036a88430ce020fc6c3d11db44866e535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:50 +0000
Subject: [PATCH 19/54] fix: line ends in text and white space in attribute
 values are normalised as XML requires

---
 relaxng-validator/src/lib.rs | 55 ++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 94eb71a..25d80f7 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -915,11 +915,11 @@ impl<'a> Validator<'a> {
             match next {
                 Some(Ok(Token::Text { text })) => {
                     self.text_end = text.end();
-                    content.push_str(&decode(&self.entity_definitions, text)?);
+                    content.push_str(&decode(&self.entity_definitions, text, Literal::Text)?);
                 }
                 Some(Ok(Token::Cdata { text, span })) => {
                     self.text_end = span.end();
-                    content.push_str(text.as_str());
+                    Literal::Text.push_to(text.as_str(), &mut content);
                 }
                 Some(Ok(Token::Comment { .. } | Token::ProcessingInstruction { .. })) => {}
                 Some(Ok(Token::ElementEnd { .. })) => {
@@ -1561,23 +1561,57 @@ impl<'a> Validator<'a> {
     }
 }
 
+/// Where characters that are written literally appear in the document
+#[derive(Copy, Clone)]
+enum Literal {
+    Text,
+    AttributeValue,
+}
+impl Literal {
+    /// Appends the characters which XML says are meant: line ends are all a single line feed, and
+    /// are spaces within attribute values, as are tabs.
+    fn push_to(self, text: &str, target: &mut String) {
+        let mut chars = text.chars().peekable();
+        while let Some(c) = chars.next() {
+            if c == '\r' && chars.peek() == Some(&'\n') {
+                continue;
+            }
+            target.push(match (self, c) {
+                (Literal::Text, '\r') => '\n',
+                (Literal::AttributeValue, '\r' | '\n' | '\t') => ' ',
+                (_, c) => c,
+            });
+        }
+    }
+}
+
 /// The characters of a piece of text, with all references replaced by what they stand for
 fn decode<'a>(
     definitions: &HashMap<String, String>,
     text: StrSpan<'a>,
+    literal: Literal,
 ) -> Result<String, ValidatorError<'a>> {
     let mut decoded = String::new();
     let mut budget = MAX_ENTITY_EXPANSION;
     for val in parse_entities(text.start(), text.as_str()) {
         match val? {
-            Txt::Text(_pos, val) => decoded.push_str(val),
+            Txt::Text(_pos, val) => literal.push_to(val, &mut decoded),
             Txt::Char(_pos, val) => decoded.push(val),
             Txt::Entity(pos, name) => {
                 let span = pos..pos + name.len();
                 if !definitions.contains_key(name) {
                     return Err(ValidatorError::UndefinedEntity { name, span });
                 }
-                if expand(definitions, name, &mut vec![], &mut budget, &mut decoded).is_none() {
+                if expand(
+                    definitions,
+                    name,
+                    literal,
+                    &mut vec![],
+                    &mut budget,
+                    &mut decoded,
+                )
+                .is_none()
+                {
                     return Err(ValidatorError::InvalidOrUnclosedEntity { span });
                 }
             }
@@ -1595,6 +1629,7 @@ const MAX_ENTITY_DEPTH: usize = 100;
 fn expand<'d>(
     definitions: &'d HashMap<String, String>,
     name: &'d str,
+    literal: Literal,
     open: &mut Vec<&'d str>,
     budget: &mut usize,
     decoded: &mut String,
@@ -1611,9 +1646,9 @@ fn expand<'d>(
     open.push(name);
     for val in parse_entities(0, definition) {
         match val.ok()? {
-            Txt::Text(_pos, val) => decoded.push_str(val),
+            Txt::Text(_pos, val) => literal.push_to(val, decoded),
             Txt::Char(_pos, val) => decoded.push(val),
-            Txt::Entity(_pos, name) => expand(definitions, name, open, budget, decoded)?,
+            Txt::Entity(_pos, name) => expand(definitions, name, literal, open, budget, decoded)?,
         }
     }
     open.pop();
@@ -1806,7 +1841,7 @@ impl<'a> ElementStack<'a> {
         let duplicate = element.lookup_namespace_uri(&declared).is_some();
         element.namespaces.push(Ns {
             prefix: declared,
-            namespace_uri: decode(entity_definitions, value)?,
+            namespace_uri: decode(entity_definitions, value, Literal::AttributeValue)?,
         });
         Ok(!duplicate)
     }
@@ -1850,7 +1885,11 @@ impl<'a> ElementStack<'a> {
                         namespace_uri,
                         local_name: unresolved.local,
                     },
-                    value: decode(entity_definitions, unresolved.value)?,
+                    value: decode(
+                        entity_definitions,
+                        unresolved.value,
+                        Literal::AttributeValue,
+                    )?,
                     source: unresolved,
                 })
             })
-- 
2.43.0


From 32a9dcd984ebc8ceaee7f00f985a816a5e101b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:25 +0000
Subject: [PATCH 20/54] fix: undefined references and loops without an element
 are reported wherever they occur

---
 relaxng-model/src/lib.rs | 126 +++++++++++++++++++++++++++++----------
 1 file changed, 95 insertions(+), 31 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..5f2e455 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -166,6 +166,8 @@ pub enum RelaxError {
     },
 }
 
+type Definitions = Vec<(String, Rc<RefCell<Option<model::DefineRule>>>)>;
+
 enum Context<'a> {
     Root {
         file: Arc<codemap::File>,
@@ -526,19 +528,15 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn ref_iter(
-        &self,
-    ) -> impl Iterator<
-        Item = (
-            std::string::String,
-            std::rc::Rc<std::cell::RefCell<std::option::Option<model::DefineRule>>>,
-        ),
-    > + '_ {
+    /// The definitions made in this grammar, in order of their names
+    fn definitions(&self) -> Definitions {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
-                refs.borrow().clone().into_iter()
+                let mut defs: Definitions = refs.borrow().clone().into_iter().collect();
+                defs.sort_by(|(a, _), (b, _)| a.cmp(b));
+                defs
             }
-            _ => panic!("ref_iter() only valid for root context"),
+            _ => panic!("definitions() only valid for the context of a grammar"),
         }
     }
 
@@ -666,6 +664,8 @@ pub struct Compiler<FS: Files> {
     fs: FS,
     syntax: Syntax,
     datatype_compiler: datatype::Compiler,
+    // the definitions of each grammar nested within the schema that is being compiled
+    nested: Vec<Definitions>,
 }
 impl Default for Compiler<FsFiles> {
     fn default() -> Self {
@@ -680,6 +680,7 @@ impl<FS: Files> Compiler<FS> {
             fs,
             syntax,
             datatype_compiler: datatype::Compiler::default(),
+            nested: vec![],
         }
     }
 
@@ -696,22 +697,23 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<Rc<RefCell<Option<model::DefineRule>>>, RelaxError> {
         let (file, schema) = self.get_schema(name)?;
         let mut ctx = Context::new(file.clone());
+        self.nested.clear();
         self.compile_schema(&mut ctx, schema)?;
-        for (name, r) in ctx.ref_iter() {
-            if r.borrow().is_none() {
-                //println!("Undefined {:?} :(", name);
-                return Err(RelaxError::UndefinedReference {
-                    span: file.span.subspan(0, 0),
-                    identifier: name,
-                });
-            } else {
-                //println!("Defined {:?} => :)", name);
+        // TODO: this is a temporary hack to detect bad references; do this in a better way?
+        let mut seen = HashSet::new();
+        let scopes = std::iter::once(ctx.definitions()).chain(std::mem::take(&mut self.nested));
+        for (_name, r) in scopes.flatten() {
+            if let Some(rule) = r.borrow().as_ref() {
+                self.check(&mut seen, rule.pattern())?;
             }
         }
         if let Some(start) = ctx.get_ref("start") {
-            let mut seen = HashSet::new();
-            // TODO: this is a temporary hack to detect bad references; do this in a better way?
-            self.check(&mut seen, start.borrow().as_ref().unwrap().pattern())?;
+            self.check_loops(
+                &mut HashSet::new(),
+                &mut HashMap::new(),
+                start.borrow().as_ref().unwrap().pattern(),
+                false,
+            )?;
             Ok(start)
         } else {
             Err(RelaxError::StartRuleNotDefined { span: file.span })
@@ -760,6 +762,75 @@ impl<FS: Files> Compiler<FS> {
         Ok(())
     }
 
+    /// Checks that no definition reachable from the given pattern refers to itself other than
+    /// through an element, whether directly or by way of other definitions.
+    ///
+    /// With `local`, references are only followed up to the next element, and `open` tells which
+    /// definitions are yet being followed.
+    #[allow(clippy::only_used_in_recursion)]
+    fn check_loops(
+        &self,
+        seen: &mut HashSet<usize>,
+        open: &mut HashMap<usize, bool>,
+        patt: &model::Pattern,
+        local: bool,
+    ) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
+                for p in v {
+                    self.check_loops(seen, open, p, local)?
+                }
+            }
+            Pattern::Element(_, p) => {
+                if !local {
+                    self.check_loops(seen, open, p, local)?
+                }
+            }
+            Pattern::Mixed(p)
+            | Pattern::Optional(p)
+            | Pattern::ZeroOrMore(p)
+            | Pattern::OneOrMore(p)
+            | Pattern::Attribute(_, p)
+            | Pattern::List(p) => self.check_loops(seen, open, p, local)?,
+            Pattern::Empty
+            | Pattern::Text
+            | Pattern::NotAllowed
+            | Pattern::DatatypeValue { .. } => {}
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                let rule = def.0.borrow();
+                let Some(rule) = rule.as_ref() else {
+                    return Ok(());
+                };
+                match open.get(&ptr) {
+                    Some(true) => {
+                        return Err(RelaxError::RecursiveReference {
+                            ref_id: name.clone(),
+                            ref_span: *span,
+                            def_id: name.clone(),
+                            def_span: *rule.span(),
+                        });
+                    }
+                    Some(false) => {}
+                    None => {
+                        open.insert(ptr, true);
+                        self.check_loops(seen, open, rule.pattern(), true)?;
+                        open.insert(ptr, false);
+                    }
+                }
+                if !local && seen.insert(ptr) {
+                    self.check_loops(seen, open, rule.pattern(), false)?;
+                }
+            }
+            Pattern::DatatypeName { except, .. } => {
+                if let Some(e) = except.as_ref() {
+                    self.check_loops(seen, open, e, local)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
     pub fn dump_diagnostic(&self, err: &RelaxError) {
         let mut emitter = codemap_diagnostic::Emitter::stderr(
             codemap_diagnostic::ColorConfig::Always,
@@ -1627,15 +1698,7 @@ impl<FS: Files> Compiler<FS> {
                 for g in content {
                     self.compile_grammar_content_item(&mut child_ctx, g)?;
                 }
-                for (name, r) in child_ctx.ref_iter() {
-                    if r.borrow().is_none() {
-                        // TODO: retain span information for references so that we don't report bogus data
-                        return Err(RelaxError::UndefinedReference {
-                            span: child_ctx.convert_span(&(0..0)),
-                            identifier: name,
-                        });
-                    }
-                }
+                self.nested.push(child_ctx.definitions());
                 if let Some(r) = child_ctx.get_ref("start") {
                     r.borrow_mut()
                         .take()
@@ -1660,6 +1723,7 @@ impl<FS: Files> Compiler<FS> {
 
         let content = &grammar.content[..];
         self.compile_grammar_contents(&mut child_ctx, content)?;
+        self.nested.push(child_ctx.definitions());
         if let Some(r) = child_ctx.get_ref("start") {
             r.borrow_mut()
                 .take()
-- 
2.43.0


From c9c759fcec7e2f8949f43a943b48f8019b886eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:51 +0000
Subject: [PATCH 21/54] fix: default and inherited namespace declarations take
 effect

---
 relaxng-model/src/lib.rs | 104 +++++++++++++++++++++++++--------------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 5f2e455..27aa3be 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -186,6 +186,8 @@ enum Context<'a> {
         overrides: RefCell<HashMap<String, (codemap::Span, bool)>>,
         namespaces: HashMap<String, String>,
         default_namespace: String,
+        // the namespace that the including file passes on to this one
+        inherited_namespace: String,
         datatypes: HashMap<String, String>,
     },
     IncludeOverrides {
@@ -241,6 +243,7 @@ impl<'a> Context<'a> {
         &self,
         span: codemap::Span,
         file: Arc<codemap::File>,
+        inherited_namespace: String,
     ) -> Result<Context<'_>, RelaxError> {
         self.check_include(span, file.clone())?;
         let mut namespaces = HashMap::new();
@@ -258,7 +261,8 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            default_namespace: inherited_namespace.clone(),
+            inherited_namespace,
             datatypes,
         })
     }
@@ -347,6 +351,49 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The namespace which the including file passes on to this file; that of a file which is not
+    /// included by another is the empty one
+    fn inherited_namespace_uri(&self) -> &str {
+        match self {
+            Context::Root { .. } => "",
+            Context::Include {
+                inherited_namespace,
+                ..
+            } => &inherited_namespace[..],
+            Context::IncludeOverrides { parent, .. }
+            | Context::Grammar { parent, .. }
+            | Context::Define { parent, .. }
+            | Context::Element { parent }
+            | Context::Attribute { parent, .. } => parent.inherited_namespace_uri(),
+        }
+    }
+
+    /// The namespace to be passed on to an included file
+    fn namespace_to_inherit(&self, inherit: Option<&types::Inherit>) -> Result<String, RelaxError> {
+        match inherit {
+            None => Ok(self.default_namespace_uri().to_string()),
+            Some(types::Inherit(prefix)) => self
+                .namespace_uri_for_prefix_str(&prefix.to_string())
+                .map(str::to_string)
+                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
+                    span: self.convert_span(&prefix.span()),
+                    prefix: prefix.to_string(),
+                }),
+        }
+    }
+
+    fn declare_default_namespace(&mut self, uri: String) {
+        match self {
+            Context::Root {
+                default_namespace, ..
+            }
+            | Context::Include {
+                default_namespace, ..
+            } => *default_namespace = uri,
+            _ => unreachable!("Not expecting to see namespace declarations in this context"),
+        }
+    }
+
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
@@ -1383,19 +1430,7 @@ impl<FS: Files> Compiler<FS> {
         // TODO: get the span of the grammar in the file, rather than the span of the whole file
         let include_span = file.span;
 
-        let mut inc_ctx = ctx.new_include(span, file)?;
-
-        if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
-        }
+        let mut inc_ctx = ctx.new_include(span, file, ctx.namespace_to_inherit(inc.1.as_ref())?)?;
 
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
@@ -1675,9 +1710,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = Path::new(ctx.file().name())
             .parent()
             .expect("TODO: no parent?")
@@ -1687,7 +1719,8 @@ impl<FS: Files> Compiler<FS> {
             .get_schema(&path)
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
-        let mut inc_ctx = ctx.new_include(span, file)?;
+        let mut inc_ctx =
+            ctx.new_include(span, file, ctx.namespace_to_inherit(external.1.as_ref())?)?;
 
         match &s.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(pat) => self
@@ -1899,6 +1932,13 @@ impl<FS: Files> Compiler<FS> {
         })
     }
 
+    fn declared_namespace(ctx: &Context, uri: &NamespaceUriLiteral) -> String {
+        match uri {
+            NamespaceUriLiteral::Inherit => ctx.inherited_namespace_uri().to_string(),
+            NamespaceUriLiteral::Uri(uri) => uri.as_string_value(),
+        }
+    }
+
     fn compile_declaration(
         &mut self,
         ctx: &mut Context,
@@ -1906,27 +1946,17 @@ impl<FS: Files> Compiler<FS> {
     ) -> Result<(), RelaxError> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
-                match uri {
-                    NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                    }
-                    NamespaceUriLiteral::Uri(uri) => {
-                        if let Some(p) = prefix {
-                            ctx.declare_namespace(p.clone(), uri.as_string_value())
-                        } else {
-                            Ok(())
-                        }
-                    }
+                let uri = Self::declared_namespace(ctx, uri);
+                ctx.declare_default_namespace(uri.clone());
+                match prefix {
+                    Some(p) => ctx.declare_namespace(p.clone(), uri),
+                    None => Ok(()),
                 }
             }
-            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
-                NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                }
-                NamespaceUriLiteral::Uri(uri) => {
-                    ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-                }
-            },
+            types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => {
+                let uri = Self::declared_namespace(ctx, uri);
+                ctx.declare_namespace(prefix.clone(), uri)
+            }
             types::Decl::Datatypes(types::DatatypesDeclaration { prefix, uri }) => {
                 ctx.declare_datatype(prefix.clone(), uri.as_string_value())
             }
-- 
2.43.0


From afe694b17cf0ae127fd1badf4d3ad705b38f549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:56 +0000
Subject: [PATCH 22/54] fix: a datatypes declaration may repeat the URI that
 its prefix is bound to

---
 relaxng-model/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 27aa3be..133b83f 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -442,6 +442,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
+                    // a prefix, such as 'xsd' which is predefined, may be bound to the same URI again
+                    Entry::Occupied(e) if *e.get() == uri => Ok(()),
                     Entry::Occupied(e) => {
                         Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
                     }
-- 
2.43.0


From 8e34e8515b617f7e75a2a8d3205e8f1b4a2d5871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 23/54] fix: the overrides of an include may use div, repeat a
 name, and are read in the including file's context

---
 relaxng-model/src/lib.rs | 87 +++++++++++++++-------------------------
 1 file changed, 33 insertions(+), 54 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 133b83f..5773d16 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -190,8 +190,10 @@ enum Context<'a> {
         inherited_namespace: String,
         datatypes: HashMap<String, String>,
     },
+    // The overrides are part of the including file, so 'parent' is the context of the include
     IncludeOverrides {
         parent: &'a Context<'a>,
+        overrides: &'a RefCell<HashMap<String, (codemap::Span, bool)>>,
     },
     Grammar {
         parent: &'a Context<'a>,
@@ -270,7 +272,9 @@ impl<'a> Context<'a> {
     /// Creates a new context for the body of an include-overrides block
     fn new_inc_overrides(&self) -> Context<'_> {
         match self {
-            Context::Include { .. } => Context::IncludeOverrides { parent: self },
+            Context::Include {
+                parent, overrides, ..
+            } => Context::IncludeOverrides { parent, overrides },
             _ => {
                 unreachable!("Parent was not a Context::Include");
             }
@@ -312,16 +316,8 @@ impl<'a> Context<'a> {
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
-            Context::Grammar { parent, .. }
+            Context::IncludeOverrides { parent, .. }
+            | Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.file(),
@@ -486,7 +482,7 @@ impl<'a> Context<'a> {
                     parent.datatype_uri_for_prefix(prefix)
                 }
             }
-            Context::IncludeOverrides { parent }
+            Context::IncludeOverrides { parent, .. }
             | Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -518,27 +514,13 @@ impl<'a> Context<'a> {
                     parent.define(id, rule)
                 }
             }
-            Context::IncludeOverrides { parent } => {
-                if let Context::Include {
-                    overrides,
-                    parent: parant_of_include,
-                    ..
-                } = parent
-                {
-                    let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
-                        overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
-                    Ok(())
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
+            Context::IncludeOverrides { parent, overrides } => {
+                // a name may have several overrides, which combine like other definitions
+                overrides
+                    .borrow_mut()
+                    .entry(id.to_string())
+                    .or_insert((*rule.span(), false));
+                parent.define(id, rule)
             }
             Context::Define { .. } => {
                 unreachable!("Not expecting definition within another definition")
@@ -562,7 +544,7 @@ impl<'a> Context<'a> {
                 refs.borrow().get(ref_id).map(Clone::clone)
             }
             Context::Include { parent, .. }
-            | Context::IncludeOverrides { parent }
+            | Context::IncludeOverrides { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.get_ref(ref_id),
             Context::Define { parent, id } => {
@@ -606,7 +588,7 @@ impl<'a> Context<'a> {
                 }
             }
             Context::Include { parent, .. }
-            | Context::IncludeOverrides { parent }
+            | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_ref_impl(ref_id),
@@ -620,7 +602,7 @@ impl<'a> Context<'a> {
                 Err(RelaxError::NoParentAvailable(span))
             }
             Context::Include { parent, .. }
-            | Context::IncludeOverrides { parent }
+            | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
@@ -662,7 +644,7 @@ impl<'a> Context<'a> {
             Context::Root { .. } | Context::Grammar { .. } => None,
             Context::Attribute { span, .. } => Some(*span),
             Context::Include { parent, .. }
-            | Context::IncludeOverrides { parent }
+            | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent } => parent.parent_attribute(),
         }
@@ -676,7 +658,7 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { .. } => Ok(()),
             Context::Grammar { parent, .. }
-            | Context::IncludeOverrides { parent }
+            | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.check_include(span, this_file),
@@ -1406,12 +1388,19 @@ impl<FS: Files> Compiler<FS> {
         }
         Ok(())
     }
-    fn compile_include_div(
+    fn compile_include_content(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        content: &[types::IncludeContent],
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        for item in content {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_content(ctx, d)?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
     }
     fn compile_include(
         &mut self,
@@ -1437,18 +1426,8 @@ impl<FS: Files> Compiler<FS> {
         // replace any definitions for which the including file provides an override
         if let Some(ref overrides) = inc.2 {
             let mut override_ctx = inc_ctx.new_inc_overrides();
-            for o in overrides.iter() {
-                match o {
-                    types::IncludeContent::Define(d) => {
-                        self.compile_define(&mut override_ctx, d)
-                            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?
-                    }
-                    types::IncludeContent::Div(d) => self
-                        .compile_include_div(&mut override_ctx, &d[..])
-                        .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?,
-                    types::IncludeContent::Annotation(_) => (),
-                }
-            }
+            self.compile_include_content(&mut override_ctx, overrides)
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         }
 
         self.compile_schema(&mut inc_ctx, s)
-- 
2.43.0


From ad04c83cd85db1045f62efc8a5b1c332b997e23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:29 +0000
Subject: [PATCH 24/54] fix: an external pattern is read in the context of its
 own file

---
 relaxng-model/src/lib.rs | 69 +++++++++++++++++++---------------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 5773d16..4e675f3 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1703,27 +1703,23 @@ impl<FS: Files> Compiler<FS> {
         let mut inc_ctx =
             ctx.new_include(span, file, ctx.namespace_to_inherit(external.1.as_ref())?)?;
 
-        match &s.pattern_or_grammar {
-            types::PatternOrGrammar::Pattern(pat) => self
-                .compile_pattern(&mut inc_ctx, pat)
-                .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
+        self.compile_external_content(&mut inc_ctx, &s, file_span)
+            .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))
+    }
+
+    fn compile_external_content(
+        &mut self,
+        ctx: &mut Context,
+        schema: &Schema,
+        file_span: codemap::Span,
+    ) -> Result<model::Pattern, RelaxError> {
+        for dec in schema.decls.iter() {
+            self.compile_declaration(ctx, dec)?;
+        }
+        match &schema.pattern_or_grammar {
+            types::PatternOrGrammar::Pattern(pat) => self.compile_pattern(ctx, pat),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
-                let mut child_ctx = ctx.new_grammar();
-                for g in content {
-                    self.compile_grammar_content_item(&mut child_ctx, g)?;
-                }
-                self.nested.push(child_ctx.definitions());
-                if let Some(r) = child_ctx.get_ref("start") {
-                    r.borrow_mut()
-                        .take()
-                        .map(|d| match d {
-                            model::DefineRule::AssignCombine(_, _, p)
-                            | model::DefineRule::CombineOnly(_, _, p) => p,
-                        })
-                        .ok_or(RelaxError::StartRuleNotDefined { span: file_span })
-                } else {
-                    Err(RelaxError::StartRuleNotDefined { span: file_span })
-                }
+                self.compile_nested_grammar(ctx, content, file_span)
             }
         }
     }
@@ -1733,26 +1729,27 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         grammar: &types::GrammarPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        let mut child_ctx = ctx.new_grammar();
+        let span = ctx.convert_span(&grammar.span);
+        self.compile_nested_grammar(ctx, &grammar.content, span)
+    }
 
-        let content = &grammar.content[..];
+    fn compile_nested_grammar(
+        &mut self,
+        ctx: &mut Context,
+        content: &[types::GrammarContent],
+        span: codemap::Span,
+    ) -> Result<model::Pattern, RelaxError> {
+        let mut child_ctx = ctx.new_grammar();
         self.compile_grammar_contents(&mut child_ctx, content)?;
         self.nested.push(child_ctx.definitions());
-        if let Some(r) = child_ctx.get_ref("start") {
-            r.borrow_mut()
-                .take()
-                .map(|d| match d {
-                    model::DefineRule::AssignCombine(_, _, p)
-                    | model::DefineRule::CombineOnly(_, _, p) => p,
-                })
-                .ok_or_else(|| RelaxError::StartRuleNotDefined {
-                    span: ctx.convert_span(&grammar.span),
-                })
-        } else {
-            Err(RelaxError::StartRuleNotDefined {
-                span: ctx.convert_span(&grammar.span),
+        child_ctx
+            .get_ref("start")
+            .and_then(|r| r.borrow_mut().take())
+            .map(|d| match d {
+                model::DefineRule::AssignCombine(_, _, p)
+                | model::DefineRule::CombineOnly(_, _, p) => p,
             })
-        }
+            .ok_or(RelaxError::StartRuleNotDefined { span })
     }
 
     fn compile_grammar_contents(
-- 
2.43.0


From f1a8c64607aeb1030da6993e5f8a24fb60507ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:53 +0000
Subject: [PATCH 25/54] fix: a file is recognised however references to it are
 spelled, also when the main file includes itself

---
 relaxng-model/src/lib.rs | 44 +++++++++++++++++++++++++++++++---------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 4e675f3..5c4e6bc 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -16,7 +16,7 @@ use std::fs::File;
 use std::io;
 use std::io::Read;
 use std::ops::Range;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -324,6 +324,28 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// The path of the file that is referred to from this context's file by the given relative
+    /// reference.  Each file gets a single path, however the references to it are spelled.
+    fn resolve(&self, href: &types::Literal) -> PathBuf {
+        let file = self.file();
+        let mut path = PathBuf::new();
+        let base = Path::new(file.name()).parent().unwrap_or(Path::new(""));
+        for component in base.join(href.as_string_value()).components() {
+            match component {
+                Component::CurDir => (),
+                Component::ParentDir => match path.components().next_back() {
+                    Some(Component::Normal(_)) => {
+                        path.pop();
+                    }
+                    Some(Component::RootDir) => (),
+                    _ => path.push(component),
+                },
+                _ => path.push(component),
+            }
+        }
+        path
+    }
+
     /// Utility to convert a simple Span from the relaxng-compact-syntax model into the specialised
     /// Span type that we use for diagnostics
     fn convert_span(&self, span: &model::Span) -> codemap::Span {
@@ -656,7 +678,15 @@ impl<'a> Context<'a> {
         this_file: Arc<codemap::File>,
     ) -> Result<(), RelaxError> {
         match self {
-            Context::Root { .. } => Ok(()),
+            Context::Root { file, .. } => {
+                if this_file.name() == file.name() {
+                    return Err(RelaxError::RecursiveInclude {
+                        name: this_file.name().to_string(),
+                        span,
+                    });
+                }
+                Ok(())
+            }
             Context::Grammar { parent, .. }
             | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
@@ -1407,10 +1437,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         inc: &types::Include,
     ) -> Result<(), RelaxError> {
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(inc.0.as_string_value());
+        let path = ctx.resolve(&inc.0);
         let span = ctx
             .file()
             .span
@@ -1691,10 +1718,7 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        let path = Path::new(ctx.file().name())
-            .parent()
-            .expect("TODO: no parent?")
-            .join(external.0.as_string_value());
+        let path = ctx.resolve(&external.0);
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
             .get_schema(&path)
-- 
2.43.0


From 1027f8ce891d15a0ca17e38c9729f58022c17d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 26/54] fix: every schema error has a diagnostic, and that of a
 duplicate definition tells which is which

---
 relaxng-model/src/lib.rs | 55 ++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 5c4e6bc..f5f1ab1 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -991,7 +991,12 @@ impl<FS: Files> Compiler<FS> {
                         spans: vec![label],
                     }
                 }
-                _ => panic!("{err:?}"),
+                relaxng_syntax::xml::Error::Todo(msg) => codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("Not supported: {msg}"),
+                    code: None,
+                    spans: vec![],
+                },
             },
             RelaxError::UndefinedNamespacePrefix { span, prefix } => {
                 let label = codemap_diagnostic::SpanLabel {
@@ -1054,9 +1059,7 @@ impl<FS: Files> Compiler<FS> {
                     XsdDatatypeError::Facet { type_name, facet } => {
                         let mut labels = vec![];
                         match facet {
-                            FacetError::ConflictingFacet(_name) => {
-                                unimplemented!("Support for ConflictingFacet")
-                            }
+                            FacetError::ConflictingFacet(_name) => (),
                             FacetError::InvalidInt(span, msg) => {
                                 labels.push(codemap_diagnostic::SpanLabel {
                                     span: *span,
@@ -1086,9 +1089,15 @@ impl<FS: Files> Compiler<FS> {
                                 })
                             }
                         }
+                        let message = match facet {
+                            FacetError::ConflictingFacet(name) => {
+                                format!("Conflicting facet {name:?} for {type_name} type")
+                            }
+                            _ => format!("Problematic facet for {type_name} type"),
+                        };
                         codemap_diagnostic::Diagnostic {
                             level: codemap_diagnostic::Level::Error,
-                            message: format!("Problematic facet for {type_name} type"),
+                            message,
                             code: None,
                             spans: labels,
                         }
@@ -1304,7 +1313,37 @@ impl<FS: Files> Compiler<FS> {
                     spans: vec![label],
                 }
             }
-            _ => panic!("{err:?}"),
+            RelaxError::IncompatibleCombination { .. }
+            | RelaxError::DatatypePrefixAlreadyDefined(_)
+            | RelaxError::DuplicateParameterName(_)
+            | RelaxError::StartRuleRedefined => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: match err {
+                    RelaxError::DatatypePrefixAlreadyDefined(prefix) => {
+                        format!("The datatype prefix {prefix:?} is already defined")
+                    }
+                    RelaxError::DuplicateParameterName(name) => {
+                        format!("Duplicate parameter {name:?}")
+                    }
+                    RelaxError::StartRuleRedefined => "Duplicate start rule".to_string(),
+                    _ => "Incompatible combination of definitions".to_string(),
+                },
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::NamespacePrefixAlreadyDefined { span, prefix } => {
+                let label = codemap_diagnostic::SpanLabel {
+                    span: *span,
+                    style: codemap_diagnostic::SpanStyle::Primary,
+                    label: None,
+                };
+                codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("The namespace prefix {prefix:?} is already defined"),
+                    code: None,
+                    spans: vec![label],
+                }
+            }
         }
     }
 
@@ -1503,8 +1542,8 @@ impl<FS: Files> Compiler<FS> {
             (DefineRule::AssignCombine(this, _, _), DefineRule::AssignCombine(that, _, _)) => {
                 Err(RelaxError::DuplicateDefinition {
                     name: name.to_string(),
-                    duplicate: this,
-                    original: that,
+                    duplicate: that,
+                    original: this,
                 })
             }
             // choice-related cases,
-- 
2.43.0


From c5e6c46f851ae09f72f89a47cfd3354d001cc776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:19 +0000
Subject: [PATCH 27/54] fix: a comment may end at the end of the schema

---
 relaxng-syntax/src/compact.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..35b2003 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -5,20 +5,17 @@ use nom::error::{Error, ParseError};
 use nom::multi::separated_list1;
 use nom::sequence::preceded;
 use nom::{
-    AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
     sequence::delimited,
+    AsChar, IResult,
 };
 use nom::{Input, Parser};
-use nom_locate::{LocatedSpan, position};
+use nom_locate::{position, LocatedSpan};
 use std::ops::{Range, RangeBounds};
 
 pub type Span<'a> = LocatedSpan<&'a str>;
@@ -888,7 +885,7 @@ fn space_comment1(input: Span) -> IResult<Span, Span> {
     recognize(fold_many1(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
 fn comment(input: Span) -> IResult<Span, Span> {
-    recognize((tag("#"), not_line_ending)).parse(input)
+    recognize((tag("#"), opt(is_not("\r\n")))).parse(input)
 }
 
 fn maybe_initial_annotation(input: Span) -> IResult<Span, Option<InitialAnnotation>> {
-- 
2.43.0


From 257f64099632018fab6f43dc5fdd7f77fea043b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:24 +0000
Subject: [PATCH 28/54] fix: a follow annotation on a name class does not panic

---
 relaxng-syntax/src/compact.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 35b2003..f4f864c 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -608,10 +608,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
 
     let (input, follow_annotations) = follow_annotation_list(input)?;
     if !follow_annotations.is_empty() {
-        println!(
-            "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
-        );
+        println!("name-class follow annotation found but ignored! {follow_annotations:?}");
     }
 
     if let Ok((input, right)) = alt_nc(input) {
-- 
2.43.0


From 3ba4d9c7b59c664fba149280de57e76cc28e98c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:50 +0000
Subject: [PATCH 29/54] fix: a keyword of the compact syntax is recognised as a
 whole word

---
 relaxng-syntax/src/compact.rs | 37 +++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index f4f864c..85d49c0 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -92,12 +92,11 @@ fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     ))
 }
 fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclaration> {
-    let (input, (_keyword, _, _, _, prefix, _, _, _, uri)) = (
+    let (input, (_keyword, _, _, prefix, _, _, _, uri)) = (
         tag("default"),
         space_comment1,
         tag("namespace"),
-        space_comment1,
-        opt(identifier_or_keyword),
+        opt(preceded(space_comment1, identifier_or_keyword)),
         space_comment0,
         tag("="),
         space_comment0,
@@ -253,6 +252,14 @@ fn nc_name_char(input: Span) -> IResult<Span, char> {
     .parse(input)
 }
 
+// matches the given word, unless it is just the start of a longer name
+fn word<'a>(word: &'static str) -> impl FnMut(Span<'a>) -> IResult<Span<'a>, Span<'a>> {
+    move |input| {
+        let (input, (w, _)) = (tag(word), peek(not(nc_name_char))).parse(input)?;
+        Ok((input, w))
+    }
+}
+
 fn keyword(input: Span) -> IResult<Span, Keyword> {
     let parse = (
         alt((
@@ -383,8 +390,8 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 // "element" nameClass "{" pattern "}"
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
-        tag("element"),
-        space_comment1,
+        word("element"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -409,8 +416,8 @@ fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
 // "attribute" nameClass "{" pattern "}"
 fn attribute_pattern(input: Span) -> IResult<Span, AttributePattern> {
     let parse = (
-        tag("attribute"),
-        space_comment1,
+        word("attribute"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -467,10 +474,10 @@ fn mixed_pattern(input: Span) -> IResult<Span, MixedPattern> {
 // "external" anyURILiteral [inherit]
 fn external_pattern(input: Span) -> IResult<Span, ExternalPattern> {
     let parse = (
-        tag("external"),
-        space_comment1,
+        word("external"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, inherit)| inherit)),
+        opt(map((space_comment0, inherit), |(_, inherit)| inherit)),
     );
 
     let mut parser = map(parse, |(_, _, uri, inherit)| ExternalPattern(uri, inherit));
@@ -585,9 +592,9 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
+        map(word("string"), |_| DatatypeName::String),
+        map(word("token"), |_| DatatypeName::Token),
     ))
     .parse(input)
 }
@@ -797,10 +804,10 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
 // "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn include(input: Span) -> IResult<Span, Include> {
     let parse = (
-        tag("include"),
-        space_comment1,
+        word("include"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, v)| v)),
+        opt(map((space_comment0, inherit), |(_, v)| v)),
         opt(map(
             (
                 space_comment0,
-- 
2.43.0


From 0fa3f36b45481eaa3c061a5cb09f6ebcd57d9fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:01 +0000
Subject: [PATCH 30/54] fix: any name may be quoted with a backslash, which is
 not part of the name

---
 relaxng-syntax/src/compact.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 85d49c0..c44b1ea 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -135,7 +135,10 @@ fn decl_datatypes(input: Span) -> IResult<Span, DatatypesDeclaration> {
 //                             | keyword
 fn identifier_or_keyword(input: Span) -> IResult<Span, IdentifierOrKeyword> {
     alt((
-        map(identifier, IdentifierOrKeyword::Identifier),
+        map(identifier, |id| {
+            let name = id.1.trim_start_matches('\\').to_string();
+            IdentifierOrKeyword::Identifier(Identifier(id.0, name))
+        }),
         map(keyword, IdentifierOrKeyword::Keyword),
     ))
     .parse(input)
@@ -194,13 +197,20 @@ fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
 // identifier	  ::=  	(NCName - keyword)
 //                   | quotedIdentifier
 fn identifier(input: Span) -> IResult<Span, Identifier> {
-    let res = alt((
-        recognize((tag("\\"), keyword)),
-        recognize((not(peek(keyword)), nc_name)),
-    ))
-    .parse(input);
+    let (rest, name) = preceded(quote_or_not_keyword, nc_name).parse(input)?;
+    // A quoted 'start' is the name of an ordinary definition.  That keeps its backslash, to tell it
+    // from the 'start' of the grammar
+    let value = if name.1 == "start" {
+        "\\start".to_string()
+    } else {
+        name.1
+    };
+    Ok((rest, Identifier(span(input, rest), value)))
+}
 
-    res.map(|(input, v)| (input, Identifier(span(v, input), v.to_string())))
+// the backslash that starts a quotedIdentifier, which is required if the name is that of a keyword
+fn quote_or_not_keyword(input: Span) -> IResult<Span, ()> {
+    alt((map(tag("\\"), |_| ()), not(keyword))).parse(input)
 }
 
 pub fn nc_name(input: Span) -> IResult<Span, NcName> {
-- 
2.43.0


From 0dbc940c8924315a703e00680961828f97739103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:13 +0000
Subject: [PATCH 31/54] fix: each XSD type applies its whiteSpace facet before
 its value is checked

---
 relaxng-model/src/datatype/xsd.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..86219d8 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1,5 +1,5 @@
-use crate::Context;
 use crate::datatype::relax::normalize_whitespace;
+use crate::Context;
 use lazy_static::lazy_static;
 use relaxng_syntax::types;
 use relaxng_syntax::types::DatatypeName;
@@ -69,11 +69,9 @@ pub enum XsdDatatypes {
 }
 impl super::Datatype for XsdDatatypes {
     fn is_valid(&self, value: &str) -> bool {
+        let value = &self.process_whitespace(value)[..];
         match self {
-            XsdDatatypes::NormalizedString(str_facets) => {
-                let normal_val = super::relax::normalize_whitespace(value);
-                str_facets.is_valid(&normal_val)
-            }
+            XsdDatatypes::NormalizedString(str_facets) => str_facets.is_valid(value),
             XsdDatatypes::String(str_facets) => str_facets.is_valid(value),
             XsdDatatypes::Short(min_max, patt) => {
                 i16::from_str(value)
@@ -178,6 +176,17 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
+impl XsdDatatypes {
+    /// Applies the whiteSpace facet, which has a fixed value for each type
+    fn process_whitespace(&self, value: &str) -> String {
+        match self {
+            XsdDatatypes::String(_) => value.to_string(),
+            XsdDatatypes::NormalizedString(_) => value.replace(['\t', '\n', '\r'], " "),
+            _ => normalize_whitespace(value),
+        }
+    }
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
-- 
2.43.0


From 3a2f3469a420462d3a38253f0dab0a360e7d0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:33 +0000
Subject: [PATCH 32/54] fix: every pattern facet has to match the whole of a
 value

---
 relaxng-model/src/datatype/xsd.rs | 101 ++++++++++++++++--------------
 1 file changed, 55 insertions(+), 46 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 86219d8..a32ee13 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -77,37 +77,37 @@ impl super::Datatype for XsdDatatypes {
                 i16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedShort(min_max, patt) => {
                 u16::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Long(min_max, patt) => {
                 i64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Int(min_max, patt) => {
                 i32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
                 num_bigint::BigInt::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
                 num_bigint::BigUint::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
                 min_max,
@@ -118,7 +118,7 @@ impl super::Datatype for XsdDatatypes {
                 bigdecimal::BigDecimal::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(_len) => {
                 unimplemented!()
@@ -132,46 +132,45 @@ impl super::Datatype for XsdDatatypes {
             }
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
                 chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
                 DATETIME_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(patt) => {
                 value.parse::<f64>().is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
                 uriparse::URIReference::try_from(value).is_ok()
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Language(patt) => {
-                LANG_RE.is_match(value)
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                LANG_RE.is_match(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Boolean(patt) => {
                 (value == "true" || value == "false" || value == "1" || value == "0")
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedInt(min_max, patt) => {
                 u32::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::UnsignedLong(min_max, patt) => {
                 u64::from_str(value)
                     .ok()
                     .is_some_and(|v| min_max.is_valid(&v))
-                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+                    && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
         }
     }
 }
@@ -545,16 +544,17 @@ where
 }
 
 #[derive(Clone)]
-pub struct PatternFacet(String, regex::Regex);
+pub struct PatternFacet(String, regex::Regex, Option<Box<PatternFacet>>);
 impl PartialEq for PatternFacet {
     fn eq(&self, other: &Self) -> bool {
-        self.0 == other.0
+        self.0 == other.0 && self.2 == other.2
     }
 }
 impl Eq for PatternFacet {}
 impl std::hash::Hash for PatternFacet {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.0.hash(state)
+        self.0.hash(state);
+        self.2.hash(state)
     }
 }
 impl fmt::Debug for PatternFacet {
@@ -564,7 +564,7 @@ impl fmt::Debug for PatternFacet {
 }
 impl PatternFacet {
     fn is_valid(&self, value: &str) -> bool {
-        self.1.is_match(value)
+        self.1.is_match(value) && self.2.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
     }
 }
 
@@ -807,7 +807,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -832,7 +832,7 @@ impl Compiler {
                 "length" => len.merge(LengthFacet::Length(Self::usize(ctx, param)?))?,
                 "minLength" => len.merge(LengthFacet::MinLength(Self::usize(ctx, param)?))?,
                 "maxLength" => len.merge(LengthFacet::MaxLength(Self::usize(ctx, param)?))?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -855,7 +855,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -882,7 +882,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u16(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u16(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u16(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -905,7 +905,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -928,7 +928,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::i32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::i32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::i32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -950,7 +950,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -977,7 +977,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::biguint(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::biguint(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::biguint(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1002,7 +1002,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigdecimal(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 "fractionDigits" => fraction_digits = Some(Self::u16(ctx, param)?),
                 "totalDigits" => total_digits = Some(Self::u16(ctx, param)?),
                 _ => {
@@ -1031,7 +1031,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::f64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::f64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::f64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1129,7 +1129,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1147,7 +1147,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1165,7 +1165,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1183,7 +1183,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1201,7 +1201,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1219,7 +1219,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1246,7 +1246,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u32(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u32(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u32(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1273,7 +1273,7 @@ impl Compiler {
                 "minExclusive" => min_max.min_exclusive(Self::u64(ctx, param)?)?,
                 "maxInclusive" => min_max.max_inclusive(Self::u64(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::u64(ctx, param)?)?,
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1291,7 +1291,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1309,7 +1309,7 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "pattern" => pattern = Some(self.pattern(ctx, param)?),
+                "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1445,9 +1445,18 @@ impl Compiler {
             })
     }
 
-    fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        regex::Regex::new(&param.3.as_string_value())
-            .map(|re| PatternFacet(param.3.as_string_value(), re))
+    /// A value has to match the given pattern, from its start to its end, as well as those which
+    /// were specified `before`
+    fn pattern(
+        &self,
+        ctx: &Context,
+        param: &types::Param,
+        before: Option<PatternFacet>,
+    ) -> Result<PatternFacet, FacetError> {
+        let pattern = param.3.as_string_value();
+        regex::Regex::new(&pattern)
+            .and_then(|_| regex::Regex::new(&format!("^(?:{pattern})$")))
+            .map(|re| PatternFacet(pattern, re, before.map(Box::new)))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
 }
-- 
2.43.0


From 3261d7bb7c32c747d61895f23d7231286296c0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:03 +0000
Subject: [PATCH 33/54] fix: conflicting facets are reported whichever is
 written first

---
 relaxng-model/src/datatype/xsd.rs | 48 ++++++++++++-------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index a32ee13..25d8721 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -282,32 +282,20 @@ impl LengthFacet {
     }
 
     fn merge(&mut self, other: LengthFacet) -> Result<(), FacetError> {
-        *self = match self {
-            LengthFacet::Unbounded => other,
-            LengthFacet::MinLength(min) => match other {
-                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
-                LengthFacet::MinLength(_min) => {
-                    return Err(FacetError::ConflictingFacet("minLength"));
-                }
-                LengthFacet::MaxLength(max) => {
-                    if *min > max {
-                        return Err(FacetError::ConflictingFacet(
-                            "minLength greater than maxLength",
-                        ));
-                    }
-                    LengthFacet::MinMaxLength(*min, max)
+        use LengthFacet::*;
+        *self = match (&*self, &other) {
+            (Unbounded, _) => other,
+            (MinLength(min), MaxLength(max)) | (MaxLength(max), MinLength(min)) => {
+                if min > max {
+                    return Err(FacetError::ConflictingFacet(
+                        "minLength greater than maxLength",
+                    ));
                 }
-                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
-            },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
-            }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
-            }
-            LengthFacet::Length(_) => {
-                unimplemented!()
+                MinMaxLength(*min, *max)
             }
+            (Length(_), _) | (_, Length(_)) => return Err(FacetError::ConflictingFacet("length")),
+            (_, MaxLength(_)) => return Err(FacetError::ConflictingFacet("maxLength")),
+            (_, _) => return Err(FacetError::ConflictingFacet("minLength")),
         };
         Ok(())
     }
@@ -441,7 +429,7 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => return Err(FacetError::ConflictingFacet("minInclusive")),
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -454,7 +442,7 @@ where
         match &self.max {
             Max::Unbounded => {}
             Max::Inclusive(max) => {
-                if val > *max {
+                if val >= *max {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxInclusive",
                     ));
@@ -475,7 +463,7 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => return Err(FacetError::ConflictingFacet("minExclusive")),
         };
         Ok(())
     }
@@ -499,7 +487,7 @@ where
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => return Err(FacetError::ConflictingFacet("maxInclusive")),
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -512,7 +500,7 @@ where
         match &self.min {
             Min::Unbounded => {}
             Min::Inclusive(min) => {
-                if *min > val {
+                if *min >= val {
                     return Err(FacetError::ConflictingFacet(
                         "minInclusive conflicts with maxInclusive",
                     ));
@@ -533,7 +521,7 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => return Err(FacetError::ConflictingFacet("maxExclusive")),
         };
         Ok(())
     }
-- 
2.43.0


From f0b6b9610019352971caacf6bd8894ea9794f64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:48 +0000
Subject: [PATCH 34/54] fix: numbers are held to the lexical space of their XSD
 type, and to all of its facets

---
 relaxng-model/src/datatype/xsd.rs | 88 ++++++++++++++++++++++++-------
 1 file changed, 69 insertions(+), 19 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 25d8721..e56df2c 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -30,6 +30,9 @@ impl super::Datatype for XsdDatatypeValues {
 
 lazy_static! {
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
+    static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
+    static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)$").unwrap();
+    static ref DOUBLE_RE: regex::Regex = regex::Regex::new(r"^(?:[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|-?INF|NaN)$").unwrap();
     static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
     static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
 }
@@ -53,7 +56,7 @@ pub enum XsdDatatypes {
         fraction_digits: Option<u16>,
         total_digits: Option<u16>,
     },
-    Double(Option<PatternFacet>),
+    Double(MinMaxFacet<DoubleBound>, Option<PatternFacet>),
     NmTokens(LengthFacet),
     NmToken(LengthFacet),
     NcName(LengthFacet),
@@ -98,26 +101,30 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
-                num_bigint::BigInt::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                INTEGER_RE.is_match(value)
+                    && num_bigint::BigInt::from_str(value)
+                        .ok()
+                        .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
-                num_bigint::BigUint::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                INTEGER_RE.is_match(value)
+                    && num_bigint::BigUint::from_str(value)
+                        .ok()
+                        .is_some_and(|v| v >= 1u8.into() && min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
                 min_max,
                 pattern: pat,
-                fraction_digits: _,
-                total_digits: _,
+                fraction_digits,
+                total_digits,
             } => {
-                bigdecimal::BigDecimal::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                DECIMAL_RE.is_match(value)
+                    && bigdecimal::BigDecimal::from_str(value)
+                        .ok()
+                        .is_some_and(|v| min_max.is_valid(&v))
+                    && digits_valid(value, *total_digits, *fraction_digits)
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(_len) => {
@@ -142,8 +149,11 @@ impl super::Datatype for XsdDatatypes {
                 DATETIME_RE.is_match(value)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Double(patt) => {
-                value.parse::<f64>().is_ok()
+            XsdDatatypes::Double(min_max, patt) => {
+                DOUBLE_RE.is_match(value)
+                    && value
+                        .parse()
+                        .is_ok_and(|v| min_max.is_valid(&DoubleBound(v)))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
@@ -186,6 +196,16 @@ impl XsdDatatypes {
     }
 }
 
+/// Checks the totalDigits and fractionDigits facets for the given decimal number, in which leading
+/// zeros, and the trailing zeros of the fraction, do not count
+fn digits_valid(value: &str, total_digits: Option<u16>, fraction_digits: Option<u16>) -> bool {
+    let (int, fraction) = value.split_once('.').unwrap_or((value, ""));
+    let int = int.trim_start_matches(['+', '-']).trim_start_matches('0');
+    let fraction = fraction.trim_end_matches('0');
+    total_digits.is_none_or(|max| int.len() + fraction.len() <= max as usize)
+        && fraction_digits.is_none_or(|max| fraction.len() <= max as usize)
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
@@ -531,6 +551,17 @@ where
     }
 }
 
+/// The number in a facet of the double type; a facet can't specify a NaN
+#[derive(PartialEq, PartialOrd, Clone, Copy, Debug)]
+pub struct DoubleBound(f64);
+impl Eq for DoubleBound {}
+impl std::hash::Hash for DoubleBound {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // add zero, so that both zeros, which are equal, get the same hash
+        (self.0 + 0.0).to_bits().hash(state)
+    }
+}
+
 #[derive(Clone)]
 pub struct PatternFacet(String, regex::Regex, Option<Box<PatternFacet>>);
 impl PartialEq for PatternFacet {
@@ -1015,10 +1046,10 @@ impl Compiler {
 
         for param in params {
             match &param.2.to_string()[..] {
-                "minInclusive" => min_max.min_inclusive(Self::f64(ctx, param)?)?,
-                "minExclusive" => min_max.min_exclusive(Self::f64(ctx, param)?)?,
-                "maxInclusive" => min_max.max_inclusive(Self::f64(ctx, param)?)?,
-                "maxExclusive" => min_max.max_exclusive(Self::f64(ctx, param)?)?,
+                "minInclusive" => min_max.min_inclusive(DoubleBound(Self::f64(ctx, param)?))?,
+                "minExclusive" => min_max.min_exclusive(DoubleBound(Self::f64(ctx, param)?))?,
+                "maxInclusive" => min_max.max_inclusive(DoubleBound(Self::f64(ctx, param)?))?,
+                "maxExclusive" => min_max.max_exclusive(DoubleBound(Self::f64(ctx, param)?))?,
                 "pattern" => pattern = Some(self.pattern(ctx, param, pattern)?),
                 _ => {
                     return Err(FacetError::InvalidFacet(
@@ -1029,7 +1060,7 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::Double(pattern))
+        Ok(XsdDatatypes::Double(min_max, pattern))
     }
 
     fn nmtokens(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
@@ -1390,7 +1421,24 @@ impl Compiler {
             })
     }
 
+    // the parsers of arbitrary-precision numbers allow for more than the datatypes do
+    fn check_lexical(
+        ctx: &Context,
+        param: &types::Param,
+        lexical: &regex::Regex,
+    ) -> Result<(), FacetError> {
+        if lexical.is_match(&param.3.as_string_value()) {
+            Ok(())
+        } else {
+            Err(FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "invalid number".to_string(),
+            ))
+        }
+    }
+
     fn bigint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigInt, FacetError> {
+        Self::check_lexical(ctx, param, &INTEGER_RE)?;
         param
             .3
             .as_string_value()
@@ -1401,6 +1449,7 @@ impl Compiler {
     }
 
     fn biguint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigUint, FacetError> {
+        Self::check_lexical(ctx, param, &INTEGER_RE)?;
         param
             .3
             .as_string_value()
@@ -1414,6 +1463,7 @@ impl Compiler {
         ctx: &Context,
         param: &types::Param,
     ) -> Result<bigdecimal::BigDecimal, FacetError> {
+        Self::check_lexical(ctx, param, &DECIMAL_RE)?;
         param
             .3
             .as_string_value()
-- 
2.43.0


From 9612e5dde93afefb567f0ac1a7ba315d962f54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 35/54] fix: dates, durations, IDs and tokens are held to the
 lexical space of their XSD type

---
 relaxng-model/src/datatype/xsd.rs | 60 +++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 15 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index e56df2c..ea57839 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -33,8 +33,8 @@ lazy_static! {
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)$").unwrap();
     static ref DOUBLE_RE: regex::Regex = regex::Regex::new(r"^(?:[+-]?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|-?INF|NaN)$").unwrap();
-    static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
-    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
+    static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?([0-9]{4}|[1-9][0-9]{4,})-([0-9]{2})-([0-9]{2})(T(?:(?:[01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](?:\.[0-9]+)?|24:00:00(?:\.0+)?))?(?:Z|[+-](?:(?:0[0-9]|1[0-3]):[0-5][0-9]|14:00))?$").unwrap();
+    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^-?P(?:[0-9]+Y)?(?:[0-9]+M)?(?:[0-9]+D)?(?:T(?:[0-9]+H)?(?:[0-9]+M)?(?:[0-9]+(?:\.[0-9]+)?S)?)?$").unwrap();
 }
 
 // TODO: actually apply all required facets to each datatype
@@ -127,26 +127,25 @@ impl super::Datatype for XsdDatatypes {
                     && digits_valid(value, *total_digits, *fraction_digits)
                     && pat.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::NmTokens(_len) => {
-                unimplemented!()
-            }
-            XsdDatatypes::NmToken(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmTokens(len) => {
+                // the length is that of the list, which can't be empty
+                let tokens: Vec<_> = value.split(' ').collect();
+                tokens.iter().all(|token| is_valid_nmtoken(token)) && len.is_valid_len(tokens.len())
             }
+            XsdDatatypes::NmToken(len) => len.is_valid(value) && is_valid_nmtoken(value),
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(_len) => {
-                unimplemented!()
-            }
+            XsdDatatypes::Token(len) => len.is_valid(value),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
+                    && !value.ends_with(['P', 'T'])
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
-                chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
+                is_valid_date(value, false)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
-                DATETIME_RE.is_match(value)
+                is_valid_date(value, true)
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(min_max, patt) => {
@@ -179,8 +178,9 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) | XsdDatatypes::IdRef(patt) => {
+                is_valid_ncname(value) && patt.as_ref().map(|p| p.is_valid(value)).unwrap_or(true)
+            }
         }
     }
 }
@@ -206,6 +206,25 @@ fn digits_valid(value: &str, total_digits: Option<u16>, fraction_digits: Option<
         && fraction_digits.is_none_or(|max| fraction.len() <= max as usize)
 }
 
+fn is_valid_date(value: &str, with_time: bool) -> bool {
+    let Some(parts) = DATETIME_RE.captures(value) else {
+        return false;
+    };
+    if parts.get(4).is_some() != with_time {
+        return false;
+    }
+    // the calendar repeats every 400 years
+    let year = &parts[1];
+    let cycle = year[year.len() - 4..]
+        .parse::<i32>()
+        .map(|y| 2000 + y % 400);
+    year.trim_start_matches('0') != ""
+        && match (cycle, parts[2].parse(), parts[3].parse()) {
+            (Ok(y), Ok(m), Ok(d)) => chrono::NaiveDate::from_ymd_opt(y, m, d).is_some(),
+            _ => false,
+        }
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
@@ -213,6 +232,14 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+fn is_valid_nmtoken(text: &str) -> bool {
+    // an NMTOKEN is like an NCName, but may start with any of its characters, and have colons
+    !text.is_empty()
+        && text
+            .split(':')
+            .all(|part| part.is_empty() || is_valid_ncname(&format!("_{part}")))
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct StringFacets {
     len: LengthFacet,
@@ -291,7 +318,10 @@ pub enum LengthFacet {
 }
 impl LengthFacet {
     fn is_valid(&self, value: &str) -> bool {
-        let actual = value.chars().count();
+        self.is_valid_len(value.chars().count())
+    }
+
+    fn is_valid_len(&self, actual: usize) -> bool {
         match self {
             LengthFacet::Unbounded => true,
             LengthFacet::MinLength(min) => *min <= actual,
-- 
2.43.0


From cee8065fdef685ffdf6cd809486a79d6827397f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:42 +0000
Subject: [PATCH 36/54] fix: a value may be of any supported XSD type, and a
 prefixed QName does not panic

---
 relaxng-model/src/datatype/xsd.rs | 89 +++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index ea57839..d866704 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -14,6 +14,9 @@ pub enum XsdDatatypeValues {
     String(String),
     Token(String),
     QName(QNameVal),
+    /// A value of any other type, in the form in which all lexical representations of the value
+    /// are the same
+    Other(Box<XsdDatatypes>, String),
 }
 
 impl super::Datatype for XsdDatatypeValues {
@@ -24,6 +27,9 @@ impl super::Datatype for XsdDatatypeValues {
             XsdDatatypeValues::QName(v) => QNameVal::try_from_val(value)
                 .map(|value| &value == v)
                 .unwrap_or(false),
+            XsdDatatypeValues::Other(datatype, v) => {
+                datatype.is_valid(value) && &datatype.canonical(value) == v
+            }
         }
     }
 }
@@ -186,6 +192,64 @@ impl super::Datatype for XsdDatatypes {
 }
 
 impl XsdDatatypes {
+    fn name(&self) -> &'static str {
+        match self {
+            XsdDatatypes::NormalizedString(_) => "normalizedString",
+            XsdDatatypes::String(_) => "string",
+            XsdDatatypes::Short(_, _) => "short",
+            XsdDatatypes::UnsignedShort(_, _) => "unsignedShort",
+            XsdDatatypes::Long(_, _) => "long",
+            XsdDatatypes::Int(_, _) => "int",
+            XsdDatatypes::Integer(_, _) => "integer",
+            XsdDatatypes::PositiveInteger(_, _) => "positiveInteger",
+            XsdDatatypes::UnsignedInt(_, _) => "unsignedInt",
+            XsdDatatypes::UnsignedLong(_, _) => "unsignedLong",
+            XsdDatatypes::Decimal { .. } => "decimal",
+            XsdDatatypes::Double(_, _) => "double",
+            XsdDatatypes::NmTokens(_) => "NMTOKENS",
+            XsdDatatypes::NmToken(_) => "NMTOKEN",
+            XsdDatatypes::NcName(_) => "NCName",
+            XsdDatatypes::Token(_) => "token",
+            XsdDatatypes::Duration(_) => "duration",
+            XsdDatatypes::Date(_) => "date",
+            XsdDatatypes::Datetime(_) => "dateTime",
+            XsdDatatypes::AnyURI(_) => "anyURI",
+            XsdDatatypes::Language(_) => "language",
+            XsdDatatypes::Boolean(_) => "boolean",
+            XsdDatatypes::Id(_) => "ID",
+            XsdDatatypes::IdRef(_) => "IDREF",
+        }
+    }
+
+    /// The canonical form of a valid value.  Two values are equal if they have the same canonical
+    /// form
+    fn canonical(&self, value: &str) -> String {
+        let value = self.process_whitespace(value);
+        match self {
+            XsdDatatypes::Boolean(_) => match &value[..] {
+                "1" => "true".to_string(),
+                "0" => "false".to_string(),
+                _ => value,
+            },
+            XsdDatatypes::Double(_, _) => value
+                .parse()
+                .map(|v: f64| (v + 0.0).to_string())
+                .unwrap_or(value),
+            XsdDatatypes::Short(_, _)
+            | XsdDatatypes::UnsignedShort(_, _)
+            | XsdDatatypes::Long(_, _)
+            | XsdDatatypes::Int(_, _)
+            | XsdDatatypes::Integer(_, _)
+            | XsdDatatypes::PositiveInteger(_, _)
+            | XsdDatatypes::UnsignedInt(_, _)
+            | XsdDatatypes::UnsignedLong(_, _)
+            | XsdDatatypes::Decimal { .. } => bigdecimal::BigDecimal::from_str(&value)
+                .map(|v| v.normalized().to_string())
+                .unwrap_or(value),
+            _ => value,
+        }
+    }
+
     /// Applies the whiteSpace facet, which has a fixed value for each type
     fn process_whitespace(&self, value: &str) -> String {
         match self {
@@ -839,7 +903,18 @@ impl Compiler {
                     }
                 })?,
             )),
-            _ => unimplemented!("{:?} not yet supported", name),
+            _ => {
+                let datatype = self.compile(ctx, span, name, &[])?;
+                if super::Datatype::is_valid(&datatype, value) {
+                    let value = datatype.canonical(value);
+                    Ok(XsdDatatypeValues::Other(Box::new(datatype), value))
+                } else {
+                    Err(XsdDatatypeError::InvalidValueOfType {
+                        span: ctx.convert_span(span),
+                        type_name: datatype.name(),
+                    })
+                }
+            }
         }
     }
 
@@ -1537,15 +1612,9 @@ trait TryFromVal: Sized {
 pub struct QNameVal(String);
 impl TryFromVal for QNameVal {
     fn try_from_val(val: &str) -> Result<Self, ()> {
-        if let Some(pos) = val.find(':') {
-            let prefix = &val[0..pos];
-            let localname = &val[pos + 1..];
-            if is_valid_ncname(prefix) && is_valid_ncname(localname) {
-                unimplemented!("Need to be able to look up prefix {:?}", prefix);
-            //Ok(QNameVal(val.to_string()))
-            } else {
-                Err(())
-            }
+        if val.contains(':') {
+            // TODO: Need to be able to look up the prefix
+            Err(())
         } else if is_valid_ncname(val) {
             Ok(QNameVal(val.to_string()))
         } else {
-- 
2.43.0


From 2cd69bdb0c3c194c4c506fe1c73388cab3021c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:10 +0000
Subject: [PATCH 37/54] fix: the position of an XML error in a schema is that
 of the error

---
 relaxng-syntax/src/xml.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..a65617e 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -16,15 +16,18 @@ pub enum Error {
 
 pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
-        // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
-        // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
+        // the interface we want to expose is in terms of byte-offsets, but the errors from
+        // roxmltree give us a line and a column, in characters
+        let row = e.pos().row.saturating_sub(1) as usize;
+        let col = e.pos().col.saturating_sub(1) as usize;
+        let line: usize = text.split_inclusive('\n').take(row).map(str::len).sum();
+        let start = line
+            + text[line..]
+                .chars()
+                .take(col)
+                .map(char::len_utf8)
+                .sum::<usize>();
+        let end = start + text[start..].chars().next().map_or(0, char::len_utf8);
         Error::Xml(start..end, e.to_string())
     })?;
     Ok(Schema {
@@ -878,7 +881,6 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
                 ));
             }
         } else if !is_nc_name_char(c) {
-            println!("NcName Urk! {val:?}");
             return Err(Error::Unexpected(
                 range.start + i..range.start + i + 1,
                 "Unexpected character for NcName",
-- 
2.43.0


From bdabd6d8832e878b4ce14571a57a43b5e441a7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 38/54] fix: the text of names, values and parameters in the
 XML syntax is read as the specification says

---
 relaxng-syntax/src/xml.rs | 91 ++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 54 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index a65617e..8d97022 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -466,21 +466,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
-    let val = if let Some(child) = node.first_child() {
-        let seg = LiteralSegment {
-            body: child
-                .text()
-                .ok_or(Error::Expected(node.range(), "Text content"))?
-                .to_string(),
-        };
-        Literal(child.range(), vec![seg])
-    } else {
-        // treat the value as ""
-        let seg = LiteralSegment {
-            body: "".to_string(),
-        };
-        Literal(node.range(), vec![seg])
-    };
+    let val = Literal::new(node.range(), text_content(node));
     Ok(DatatypeValuePattern(
         type_name.map(|name| {
             DatatypeName::NamespacedName(NamespacedName {
@@ -500,8 +486,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
-        // TODO: check datatypeLibrary namespace!
-        "token" => DatatypeName::Token,
+        "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
             let name = ncname(type_attr.range_value(), val)?;
             DatatypeName::NamespacedName(NamespacedName {
@@ -577,16 +562,8 @@ fn param(node: Node) -> Result<Param> {
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
-    let child = node
-        .first_child()
-        .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let seg = LiteralSegment {
-        body: child
-            .text()
-            .ok_or(Error::Expected(node.range(), "Text content"))?
-            .to_string(),
-    };
-    let val = Literal(child.range(), vec![seg]);
+    no_element_children(node)?;
+    let val = Literal::new(node.range(), text_content(node));
 
     Ok(Param(
         node.range(),
@@ -847,24 +824,36 @@ fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
 
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
-    if let Some(val) = name.text() {
-        if let Some(pos) = val.find(':') {
-            let start = name.range().start;
-            let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
-        } else {
-            let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(name.first_child().unwrap().range(), val)?;
-            Ok(Name::NamespacedName(NamespacedName {
-                namespace_uri: ns,
-                localname,
-            }))
-        }
-    } else {
-        Err(Error::Expected(name.range(), "Text contents"))
+    let val = text_content(name);
+    if val.is_empty() {
+        return Err(Error::Expected(name.range(), "Text contents"));
     }
+    let (namespace, localname) = match val.split_once(':') {
+        Some((prefix, localname)) => (
+            lookup_namespace_def(name, Some(prefix.trim()))
+                .ok_or_else(|| Error::Unexpected(name.range(), "Unknown namespace prefix"))?
+                .to_string(),
+            localname,
+        ),
+        None => (
+            // TODO allow None or something rather than inventing an 'empty' NcName
+            get_ns_att(name).map_or("", |ns| ns.value()).to_string(),
+            &val[..],
+        ),
+    };
+    Ok(Name::NamespacedName(NamespacedName {
+        namespace_uri: Literal::new(name.range(), namespace),
+        localname: ncname(name.range(), localname)?,
+    }))
+}
+
+/// The text within the given element, whose only other children may be comments and processing
+/// instructions
+fn text_content(node: Node) -> String {
+    node.children()
+        .filter(|child| child.is_text())
+        .filter_map(|child| child.text())
+        .collect()
 }
 
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
@@ -875,16 +864,10 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
     for (i, c) in val.char_indices() {
         if i == 0 {
             if !is_nc_name_start_char(c) {
-                return Err(Error::Unexpected(
-                    range.start..range.start + 1,
-                    "Unexpected character for NcName",
-                ));
+                return Err(Error::Unexpected(range, "Unexpected character for NcName"));
             }
         } else if !is_nc_name_char(c) {
-            return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
-                "Unexpected character for NcName",
-            ));
+            return Err(Error::Unexpected(range, "Unexpected character for NcName"));
         }
     }
     Ok(NcName(range, val.to_string()))
@@ -912,13 +895,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    range,
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                range,
                 "Unexpected character within identifier",
             ));
         }
-- 
2.43.0


From 0dcc2fa1a4a899eb09913287b7768fcd4c0c7f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 39/54] fix: a definition named start in the XML syntax is not
 the start of the grammar

---
 relaxng-syntax/src/xml.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 8d97022..246789d 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -560,7 +560,7 @@ fn param(node: Node) -> Result<Param> {
     let name = node
         .attribute_node("name")
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
-    let name = attr_ncname(&name)?;
+    let name = ident(name.range_value(), name.value())?;
 
     no_element_children(node)?;
     let val = Literal::new(node.range(), text_content(node));
@@ -710,7 +710,13 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        let mut id = ident(attr.range_value(), attr.value().trim())?;
+        if id.1 == "start" {
+            // as in the compact syntax, an ordinary definition with this name is told from the
+            // <start> of the grammar by a backslash
+            id.1.insert(0, '\\');
+        }
+        Ok(id)
     }
 }
 
-- 
2.43.0


From 056dde65dc59e5460850e5e5076c4649168ae691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:48 +0000
Subject: [PATCH 40/54] fix: the name attribute of an attribute does not use
 the ns of its ancestors

---
 relaxng-syntax/src/xml.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 246789d..f4e7d89 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -141,7 +141,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name)?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -321,7 +321,8 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let ns = get_ns_att(node);
+    // an attribute's name attribute does not use the ns of any ancestor
+    let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
@@ -337,7 +338,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name)?),
+            NameClass::Name(qname_att(node, &name, ns)?),
             first_rng_child(node),
         )
     } else {
@@ -803,7 +804,7 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
+fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -819,7 +820,10 @@ fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
             localname,
         }))
     } else {
-        let ns = get_ns(node).unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
+        // TODO allow None or something rather than inventing an 'empty' NcName
+        let ns = ns.map_or(Literal::new(0..0, String::new()), |ns| {
+            Literal::new(ns.range_value(), ns.value().to_string())
+        });
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
-- 
2.43.0


From 6d673fe8f7230f29ab4b138dc0e03fcefd712908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:38 +0000
Subject: [PATCH 41/54] fix: the ns and datatypeLibrary attributes may be on
 any element of the XML syntax

---
 relaxng-syntax/src/xml.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index f4e7d89..7adc32a 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -496,12 +496,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
             })
         }
     };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "type" && a.name() != "datatypeLibrary")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
 
     let (params, rest) = if let Some(child) = first_rng_child(node) {
         params(child)?
@@ -646,12 +641,7 @@ fn start(node: Node) -> Result<Define> {
     } else {
         AssignMethod::Assign
     };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "combine")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    no_attrs_except(node, &["combine", "ns", "datatypeLibrary"])?;
     // we just produce another 'Define' named "start", rather than using a dedicated 'Start' type,
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
@@ -971,11 +961,8 @@ fn is_rng(ns: Option<&str>) -> bool {
 }
 
 fn no_attrs(node: Node) -> Result<()> {
-    if let Some(att) = node.attributes().find(|a| is_rng_att(a)) {
-        Err(Error::Unexpected(att.range(), "Unexpected attribute"))
-    } else {
-        Ok(())
-    }
+    // these may be on any element
+    no_attrs_except(node, &["ns", "datatypeLibrary"])
 }
 
 fn no_rng_element_children(node: Node) -> Result<()> {
-- 
2.43.0


From 7ef308fa5f7310fc495737404bb0afaa1dcb412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:25 +0000
Subject: [PATCH 42/54] fix: a parent reference from within an element is not a
 loop

---
 relaxng-model/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index f5f1ab1..ad7e276 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -628,7 +628,9 @@ impl<'a> Context<'a> {
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
-            Context::Grammar { parent, .. } => parent.acquire_ref(id),
+            // whether this is a loop depends on the pattern of the nested grammar that the reference
+            // ends up in, which is found by check_loops()
+            Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
         }
     }
     /// Given the identifier if a reference, checks that the current context is not actually the
-- 
2.43.0


From d73b40bd5c74adceab4a88a1edc7b3bb32920453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:29 +0000
Subject: [PATCH 43/54] fix: the error about a missing parent points into the
 file with the reference

---
 relaxng-model/src/lib.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index ad7e276..2d7018c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -617,17 +617,18 @@ impl<'a> Context<'a> {
         }
     }
 
-    fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+    fn acquire_parent_ref(
+        &self,
+        id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(span)),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id, span),
             // whether this is a loop depends on the pattern of the nested grammar that the reference
             // ends up in, which is found by check_loops()
             Context::Grammar { parent, .. } => parent.acquire_ref_impl(id),
@@ -1751,7 +1752,7 @@ impl<FS: Files> Compiler<FS> {
         Ok(Pattern::Ref(
             span,
             reference.1.clone(),
-            ctx.acquire_parent_ref(reference)?,
+            ctx.acquire_parent_ref(reference, span)?,
         ))
     }
     fn compile_external(
-- 
2.43.0


From 81714a012645d239ccfcf355a8cfd6204fdd0dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:55 +0000
Subject: [PATCH 44/54] fix: the error about an unsupported datatype library
 points at the use of the library

---
 relaxng-model/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 2d7018c..48db4c5 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1949,7 +1949,7 @@ impl<FS: Files> Compiler<FS> {
             DatatypeName::Token => DatatypeName::Token,
             DatatypeName::CName(QName(namespace, name)) => DatatypeName::CName(QName(
                 NcName(
-                    0..0,
+                    namespace.0.clone(),
                     ctx.try_datatype_uri_for_prefix(namespace)?.to_string(),
                 ),
                 NcName(name.0.clone(), name.1.clone()),
-- 
2.43.0


From db079c45f8002dcb6af05a4fbebead8ed5b17cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:10 +0000
Subject: [PATCH 45/54] fix: in the XML syntax, a file inherits the namespace
 in scope where it is referred to

---
 relaxng-model/src/datatype/mod.rs | 20 +++++++---
 relaxng-model/src/lib.rs          | 25 +++++++++---
 relaxng-syntax/src/compact.rs     |  2 +-
 relaxng-syntax/src/types.rs       | 20 +++++++---
 relaxng-syntax/src/xml.rs         | 64 +++++++++++++++++--------------
 5 files changed, 85 insertions(+), 46 deletions(-)

diff --git a/relaxng-model/src/datatype/mod.rs b/relaxng-model/src/datatype/mod.rs
index b2585dd..758cf67 100644
--- a/relaxng-model/src/datatype/mod.rs
+++ b/relaxng-model/src/datatype/mod.rs
@@ -101,9 +101,9 @@ impl DatatypeCompiler for Compiler {
                 &namespace_uri.0,
                 &namespace_uri.1,
             ),
-            DatatypeName::NamespacedName(NamespacedName { namespace_uri, .. }) => {
-                let ns = &namespace_uri.as_string_value()[..];
-                self.dt_value(ctx, datatype_name, value, &namespace_uri.0, ns)
+            DatatypeName::NamespacedName(name) => {
+                let (span, ns) = library(name);
+                self.dt_value(ctx, datatype_name, value, &span, &ns)
             }
         }
     }
@@ -123,14 +123,22 @@ impl DatatypeCompiler for Compiler {
             DatatypeName::CName(types::QName(types::NcName(span, namespace_uri), _)) => {
                 self.dt_name(ctx, datatype_name, params, span, namespace_uri)
             }
-            DatatypeName::NamespacedName(NamespacedName { namespace_uri, .. }) => {
-                let ns = &namespace_uri.as_string_value()[..];
-                self.dt_name(ctx, datatype_name, params, &namespace_uri.0, ns)
+            DatatypeName::NamespacedName(name) => {
+                let (span, ns) = library(name);
+                self.dt_name(ctx, datatype_name, params, &span, &ns)
             }
         }
     }
 }
 
+/// The datatype library of the given name, and where it is given
+fn library(name: &NamespacedName) -> (types::Span, String) {
+    match &name.namespace_uri {
+        Some(uri) => (uri.0.clone(), uri.as_string_value()),
+        None => (name.localname.0.clone(), String::new()),
+    }
+}
+
 impl Compiler {
     fn dt_name(
         &self,
diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 48db4c5..68076cd 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -390,7 +390,8 @@ impl<'a> Context<'a> {
     fn namespace_to_inherit(&self, inherit: Option<&types::Inherit>) -> Result<String, RelaxError> {
         match inherit {
             None => Ok(self.default_namespace_uri().to_string()),
-            Some(types::Inherit(prefix)) => self
+            Some(types::Inherit::NamespaceUri(uri)) => Ok(uri.as_string_value()),
+            Some(types::Inherit::Prefix(prefix)) => self
                 .namespace_uri_for_prefix_str(&prefix.to_string())
                 .map(str::to_string)
                 .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
@@ -1923,7 +1924,11 @@ impl<FS: Files> Compiler<FS> {
                 namespace_uri,
                 localname,
             }) => DatatypeName::CName(QName(
-                NcName(namespace_uri.0.clone(), namespace_uri.as_string_value()),
+                namespace_uri
+                    .as_ref()
+                    .map_or(NcName(0..0, String::new()), |uri| {
+                        NcName(uri.0.clone(), uri.as_string_value())
+                    }),
                 NcName(localname.0.clone(), localname.1.clone()),
             )),
         };
@@ -1958,7 +1963,11 @@ impl<FS: Files> Compiler<FS> {
                 namespace_uri,
                 localname,
             }) => DatatypeName::CName(QName(
-                NcName(namespace_uri.0.clone(), namespace_uri.as_string_value()),
+                namespace_uri
+                    .as_ref()
+                    .map_or(NcName(0..0, String::new()), |uri| {
+                        NcName(uri.0.clone(), uri.as_string_value())
+                    }),
                 NcName(localname.0.clone(), localname.1.clone()),
             )),
         };
@@ -2033,7 +2042,10 @@ impl<FS: Files> Compiler<FS> {
                     namespace_uri,
                     localname,
                 }) => Ok(model::NameClass::named(
-                    namespace_uri.as_string_value(),
+                    namespace_uri.as_ref().map_or_else(
+                        || ctx.inherited_namespace_uri().to_string(),
+                        types::Literal::as_string_value,
+                    ),
                     localname.1.clone(),
                 )),
             },
@@ -2044,7 +2056,10 @@ impl<FS: Files> Compiler<FS> {
                     None
                 };
                 let uri = match name {
-                    types::NamespaceOrPrefix::NamespaceUri(uri) => uri.as_string_value(),
+                    types::NamespaceOrPrefix::NamespaceUri(uri) => uri.as_ref().map_or_else(
+                        || ctx.inherited_namespace_uri().to_string(),
+                        types::Literal::as_string_value,
+                    ),
                     types::NamespaceOrPrefix::Prefix(prefix) => {
                         ctx.namespace_uri_for_prefix(prefix)?.to_string()
                     }
diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index c44b1ea..7f56e18 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -853,7 +853,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
         identifier_or_keyword,
     );
 
-    let mut parser = map(parse, |(_, _, _, _, id)| Inherit(id));
+    let mut parser = map(parse, |(_, _, _, _, id)| Inherit::Prefix(id));
 
     parser.parse(input)
 }
diff --git a/relaxng-syntax/src/types.rs b/relaxng-syntax/src/types.rs
index 9953394..975f403 100644
--- a/relaxng-syntax/src/types.rs
+++ b/relaxng-syntax/src/types.rs
@@ -123,14 +123,19 @@ pub enum DatatypeName {
 
 #[derive(Debug, PartialEq)]
 pub struct NamespacedName {
-    pub namespace_uri: Literal,
+    /// `None` if the schema file does not say, so that the namespace is that of the place where
+    /// the file is referred to
+    pub namespace_uri: Option<Literal>,
     pub localname: NcName,
 }
 
 impl NamespacedName {
     pub(crate) fn span(&self) -> Span {
         Span {
-            start: self.namespace_uri.0.start,
+            start: self
+                .namespace_uri
+                .as_ref()
+                .map_or(self.localname.0.start, |uri| uri.0.start),
             end: self.localname.0.end,
         }
     }
@@ -177,7 +182,12 @@ pub struct Include(
 );
 
 #[derive(Debug, PartialEq)]
-pub struct Inherit(pub IdentifierOrKeyword);
+pub enum Inherit {
+    // Per compact-syntax usage
+    Prefix(IdentifierOrKeyword),
+    // Per xml-syntax usage
+    NamespaceUri(Literal),
+}
 
 #[derive(Debug, PartialEq)]
 pub enum IncludeContent {
@@ -282,7 +292,7 @@ pub enum NamespaceOrPrefix {
     // Per compact-syntax usage
     Prefix(NcName),
     // Per xml-syntax usage
-    NamespaceUri(Literal),
+    NamespaceUri(Option<Literal>),
 }
 #[derive(Debug, PartialEq)]
 pub struct NsName {
@@ -305,7 +315,7 @@ impl QName {
     pub fn span(&self) -> Span {
         Span {
             start: (self.0).0.start,
-            end: self.1.0.end,
+            end: self.1 .0.end,
         }
     }
 }
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 7adc32a..e706a52 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -141,7 +141,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name, get_ns_att(node))?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -259,7 +259,7 @@ fn ns_name(node: Node) -> Result<NsName> {
     Ok(NsName {
         // TODO: the NsName type was defined to match compact-syntax and doesn't really work with
         //       xml syntax; we need a representation that works for xml-syntax too
-        name: NamespaceOrPrefix::NamespaceUri(ns.unwrap_or(Literal::new(0..0, String::new()))),
+        name: NamespaceOrPrefix::NamespaceUri(ns),
         except: except.map(Box::new),
     })
 }
@@ -321,9 +321,13 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    // an attribute's name attribute does not use the ns of any ancestor
-    let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+        // the name attribute does not use the ns of any ancestor
+        let ns = node.attribute_node("ns");
+        let uri = ns.map_or_else(
+            || Literal::new(name.range_value(), String::new()),
+            |ns| Literal::new(ns.range_value(), ns.value().to_string()),
+        );
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
@@ -338,7 +342,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name, ns)?),
+            NameClass::Name(qname_att(node, &name, Some(uri))?),
             first_rng_child(node),
         )
     } else {
@@ -460,9 +464,7 @@ fn text(node: Node) -> Result<Pattern> {
 
 fn value(node: Node) -> Result<DatatypeValuePattern> {
     no_element_children(node)?;
-    // TODO: have a better representation for 'unspecified' (default) datatype namespace that
-    // doesn't need a bogus 0..0 span,
-    let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
+    let datatype_ns = get_datatype_lib(node);
     let type_name = node
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
@@ -480,14 +482,18 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
 }
 
 fn data(node: Node) -> Result<DatatypeNamePattern> {
-    // TODO: have a better representation for 'unspecified' (default) datatype namespace that
-    // doesn't need a bogus 0..0 span,
-    let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
+    let datatype_ns = get_datatype_lib(node);
     let type_attr = node
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
-        "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
+        "token"
+            if datatype_ns
+                .as_ref()
+                .map_or(true, |ns| ns.as_string_value().is_empty()) =>
+        {
+            DatatypeName::Token
+        }
         val => {
             let name = ncname(type_attr.range_value(), val)?;
             DatatypeName::NamespacedName(NamespacedName {
@@ -587,7 +593,10 @@ fn external_ref(node: Node) -> Result<ExternalPattern> {
     };
     let val = Literal(href.range_value(), vec![seg]);
 
-    Ok(ExternalPattern(val, None))
+    Ok(ExternalPattern(
+        val,
+        get_ns(node).map(Inherit::NamespaceUri),
+    ))
 }
 
 fn grammar(node: Node) -> Result<GrammarPattern> {
@@ -759,7 +768,11 @@ fn include(node: Node) -> Result<Include> {
         next = next_rng_sibling(child);
     }
 
-    Ok(Include(val, None, Some(content)))
+    Ok(Include(
+        val,
+        get_ns(node).map(Inherit::NamespaceUri),
+        Some(content),
+    ))
 }
 
 fn include_content(node: Node) -> Result<IncludeContent> {
@@ -794,7 +807,7 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name> {
+fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -806,14 +819,10 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Attribute>) -> Result<Name
         let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
         Ok(Name::NamespacedName(NamespacedName {
-            namespace_uri: ns,
+            namespace_uri: Some(ns),
             localname,
         }))
     } else {
-        // TODO allow None or something rather than inventing an 'empty' NcName
-        let ns = ns.map_or(Literal::new(0..0, String::new()), |ns| {
-            Literal::new(ns.range_value(), ns.value().to_string())
-        });
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
@@ -830,19 +839,16 @@ fn qname_el(name: Node) -> Result<Name> {
     }
     let (namespace, localname) = match val.split_once(':') {
         Some((prefix, localname)) => (
-            lookup_namespace_def(name, Some(prefix.trim()))
-                .ok_or_else(|| Error::Unexpected(name.range(), "Unknown namespace prefix"))?
-                .to_string(),
+            Some(
+                lookup_namespace_def(name, Some(prefix.trim()))
+                    .ok_or_else(|| Error::Unexpected(name.range(), "Unknown namespace prefix"))?,
+            ),
             localname,
         ),
-        None => (
-            // TODO allow None or something rather than inventing an 'empty' NcName
-            get_ns_att(name).map_or("", |ns| ns.value()).to_string(),
-            &val[..],
-        ),
+        None => (get_ns_att(name).map(|ns| ns.value()), &val[..]),
     };
     Ok(Name::NamespacedName(NamespacedName {
-        namespace_uri: Literal::new(name.range(), namespace),
+        namespace_uri: namespace.map(|ns| Literal::new(name.range(), ns.to_string())),
         localname: ncname(name.range(), localname)?,
     }))
 }
-- 
2.43.0


From 92fa3378f175c0dc300d078cc26953454e5dc6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:03 +0000
Subject: [PATCH 46/54] fix: in the XML syntax, attributes of other namespaces
 are ignored whatever their local name

---
 relaxng-syntax/src/xml.rs | 49 ++++++++++++++++++---------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index e706a52..36e6f21 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -87,7 +87,7 @@ fn pattern(node: Node) -> Result<Pattern> {
 }
 
 fn check_standard_attrs(node: Node) -> Result<()> {
-    if let Some(dt_lib) = node.attribute_node("datatypeLibrary") {
+    if let Some(dt_lib) = rng_att(node, "datatypeLibrary") {
         let val = dt_lib.value();
         if val.is_empty() {
             Ok(())
@@ -140,7 +140,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 }
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, pattern) = if let Some(name) = rng_att(node, "name") {
         let name_class = NameClass::Name(qname_att(node, &name, get_ns(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
@@ -273,7 +273,7 @@ fn get_ns(node: Node) -> Option<Literal> {
 fn get_ns_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("ns") {
+        if let Some(ns) = rng_att(node, "ns") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -290,7 +290,7 @@ fn get_datatype_lib(node: Node) -> Option<Literal> {
 fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'a, 'input>> {
     let mut this = Some(start);
     while let Some(node) = this {
-        if let Some(ns) = node.attribute_node("datatypeLibrary") {
+        if let Some(ns) = rng_att(node, "datatypeLibrary") {
             return Some(ns);
         }
         this = node.parent_element();
@@ -321,9 +321,9 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
+    let (name_class, rest) = if let Some(name) = rng_att(node, "name") {
         // the name attribute does not use the ns of any ancestor
-        let ns = node.attribute_node("ns");
+        let ns = rng_att(node, "ns");
         let uri = ns.map_or_else(
             || Literal::new(name.range_value(), String::new()),
             |ns| Literal::new(ns.range_value(), ns.value().to_string()),
@@ -434,7 +434,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 
 fn ref_patt(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_att(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -443,7 +443,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 
 fn parent_ref(node: Node) -> Result<Identifier> {
     no_rng_element_children(node)?;
-    if let Some(name) = node.attribute_node("name") {
+    if let Some(name) = rng_att(node, "name") {
         attr_ncname(&name)
     } else {
         Err(Error::Expected(node.range(), "name attribute"))
@@ -465,8 +465,7 @@ fn text(node: Node) -> Result<Pattern> {
 fn value(node: Node) -> Result<DatatypeValuePattern> {
     no_element_children(node)?;
     let datatype_ns = get_datatype_lib(node);
-    let type_name = node
-        .attribute_node("type")
+    let type_name = rng_att(node, "type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
     let val = Literal::new(node.range(), text_content(node));
@@ -483,9 +482,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
 
 fn data(node: Node) -> Result<DatatypeNamePattern> {
     let datatype_ns = get_datatype_lib(node);
-    let type_attr = node
-        .attribute_node("type")
-        .ok_or(Error::Expected(node.range(), "type attribute"))?;
+    let type_attr = rng_att(node, "type").ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
         "token"
             if datatype_ns
@@ -559,9 +556,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = rng_att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = ident(name.range_value(), name.value())?;
 
     no_element_children(node)?;
@@ -582,9 +577,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = rng_att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     // TODO: ExternalPattern's requirement for a 'literal' here is inconvenient, and its API should
     //       be altered to make using it here simpler
@@ -636,7 +629,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 }
 
 fn start(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -668,7 +661,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
-    let combine = if let Some(combine) = node.attribute_node("combine") {
+    let combine = if let Some(combine) = rng_att(node, "combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
@@ -683,9 +676,7 @@ fn define(node: Node) -> Result<Define> {
         AssignMethod::Assign
     };
 
-    let name = node
-        .attribute_node("name")
-        .ok_or(Error::Expected(node.range(), "name attribute"))?;
+    let name = rng_att(node, "name").ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
     let patt = single_pattern_or_group(
@@ -752,9 +743,7 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
-    let href = node
-        .attribute_node("href")
-        .ok_or(Error::Expected(node.range(), "href attribute"))?;
+    let href = rng_att(node, "href").ok_or(Error::Expected(node.range(), "href attribute"))?;
 
     let seg = LiteralSegment {
         body: rebase_path(node, href.value())?,
@@ -953,6 +942,12 @@ fn is_rng_node(node: Node) -> bool {
     is_rng(node.tag_name().namespace())
 }
 
+/// The attribute with the given name and no namespace
+fn rng_att<'a, 'input: 'a>(node: Node<'a, 'input>, name: &str) -> Option<Attribute<'a, 'input>> {
+    node.attributes()
+        .find(|a| a.namespace().is_none() && a.name() == name)
+}
+
 fn is_rng_att(a: &Attribute) -> bool {
     // if an attribute has no namespace prefix, then it is not formally in the default namesapce
     // of the document (as an element with no namespace prefix would be).  Here we assume that we
-- 
2.43.0


From 57eafa68ba22e557262da0e60c73c2a1c5987275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:12 +0000
Subject: [PATCH 47/54] fix: a dot in a pattern facet does not match a carriage
 return

---
 relaxng-model/src/datatype/xsd.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index d866704..c6ff66a 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1598,7 +1598,12 @@ impl Compiler {
     ) -> Result<PatternFacet, FacetError> {
         let pattern = param.3.as_string_value();
         regex::Regex::new(&pattern)
-            .and_then(|_| regex::Regex::new(&format!("^(?:{pattern})$")))
+            .and_then(|_| {
+                // in XSD, the '.' matches neither a line feed nor a carriage return
+                regex::RegexBuilder::new(&format!("^(?:{pattern})$"))
+                    .crlf(true)
+                    .build()
+            })
             .map(|re| PatternFacet(pattern, re, before.map(Box::new)))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
-- 
2.43.0


From fde2ad9df87e6cf409bf625cad1a861d8bb55384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:15 +0000
Subject: [PATCH 48/54] fix: in the XML syntax, the place of an element whose
 name has a prefix covers its name

The span was as long as the name without a prefix, and could end within a
character, which made displaying the diagnostic panic.
---
 relaxng-syntax/src/xml.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 36e6f21..fde04a7 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -138,6 +138,17 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
     }
     None
 }
+
+/// The range of the element's name, with its prefix if it has one, within the start tag
+fn tag_name_range(node: Node) -> Range<usize> {
+    let start = node.range().start + 1;
+    let tag = &node.document().input_text()[start..node.range().end];
+    let len = tag
+        .find(|c: char| c.is_ascii_whitespace() || c == '/' || c == '>')
+        .unwrap_or(tag.len());
+    start..start + len
+}
+
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = rng_att(node, "name") {
@@ -155,7 +166,7 @@ fn element(node: Node) -> Result<ElementPattern> {
         (name_class, pattern)
     };
     Ok(ElementPattern {
-        span: node.range().start + 1..node.range().start + 8,
+        span: tag_name_range(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -363,7 +374,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
         ));
     }
     Ok(AttributePattern {
-        span: node.range().start + 1..node.range().start + 10,
+        span: tag_name_range(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -648,7 +659,7 @@ fn start(node: Node) -> Result<Define> {
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
 
-    let start_span = node.range().start + 1..node.range().start + 6;
+    let start_span = tag_name_range(node);
     let name = Identifier(start_span, "start".to_string());
 
     let child =
-- 
2.43.0


From 62550e8bbd0e1bab3430894ed2aa19f117c32b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:40 +0000
Subject: [PATCH 49/54] fix: in the XML syntax, the place of a name with
 character references lies within it

Positions within the attribute's value were taken for positions in the
document, which could be within a character, so that displaying the
diagnostic panicked.
---
 relaxng-syntax/src/xml.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index fde04a7..3842292 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -810,13 +810,18 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
 fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
-        let start = name.range_value().start;
-        let end = name.range_value().end;
+        let range = name.range_value();
         let prefix = &val[0..pos];
-        let prefix_span = start..(start + pos);
+        let (prefix_span, local_span) = if node.document().input_text()[range.clone()] == *val {
+            let colon = range.start + pos;
+            (range.start..colon, colon + 1..range.end)
+        } else {
+            // positions within the value are not those in the document, due to references
+            (range.clone(), range)
+        };
         let namespace = lookup_namespace_def(node, Some(prefix.trim()))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
-        let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
+        let localname = ncname(local_span, &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: Some(ns),
-- 
2.43.0


From 5a91718e3b42d70767c4950754b27072181d9681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:53 +0000
Subject: [PATCH 50/54] fix: an xml:base that ends in .. names a directory

What follows was taken relative to the directory the last segment is in,
as if .. were the name of a file.
---
 relaxng-syntax/src/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 3842292..3f47b77 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -742,7 +742,9 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
     } else {
         match *result {
             Some(ref mut old) => {
-                if !old.to_str().unwrap().ends_with("/") {
+                // the last segment is replaced, unless it names a directory
+                let last = old.to_str().unwrap().rsplit('/').next();
+                if !matches!(last, Some("" | "." | "..")) {
                     old.pop();
                 }
                 old.push(new);
-- 
2.43.0


From 08af524a6691d7dd17e20d1cef273f8ae8d747e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:48 +0000
Subject: [PATCH 51/54] fix: what follows one another in a grammar, in
 parameters or in annotations need not have white space between it

---
 relaxng-syntax/src/compact.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 7f56e18..4b43a5e 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -37,12 +37,12 @@ pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
 fn top_level(input: Span) -> IResult<Span, Schema> {
     let parse = (
-        separated_list0(space_comment1, decl),
+        separated_list0(space_comment0, decl),
         space_comment0, // TODO: should be space_comment1, and only required if there are decls
         alt((
             // TODO: proper span for GrammarPattern
             map(
-                separated_list1(space_comment1, grammar_content),
+                separated_list1(space_comment0, grammar_content),
                 |content| {
                     PatternOrGrammar::Grammar(GrammarPattern {
                         span: 0..0,
@@ -502,7 +502,7 @@ fn grammar_pattern(input: Span) -> IResult<Span, GrammarPattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
         position,
@@ -541,7 +541,7 @@ fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, param),
+        separated_list0(space_comment0, param),
         space_comment0,
         cut(tag("}")),
     );
@@ -801,7 +801,7 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -823,7 +823,7 @@ fn include(input: Span) -> IResult<Span, Include> {
                 space_comment0,
                 tag("{"),
                 space_comment0,
-                separated_list0(space_comment1, include_content),
+                separated_list0(space_comment0, include_content),
                 space_comment0,
                 cut(tag("}")),
             ),
@@ -882,7 +882,7 @@ fn div_include_content(input: Span) -> IResult<Span, Vec<IncludeContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, include_content),
+        separated_list0(space_comment0, include_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -910,9 +910,9 @@ fn initial_annotation(input: Span) -> IResult<Span, InitialAnnotation> {
     let parse = (
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element),
+        separated_list0(space_comment0, annotation_element),
         space_comment0,
         tag("]"),
     );
@@ -962,9 +962,9 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
         space_comment0,
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element_or_literal),
+        separated_list0(space_comment0, annotation_element_or_literal),
         space_comment0,
         tag("]"),
     );
-- 
2.43.0


From 61d9c558e2ecf60f06f4458cd8beeeccaa9efd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:33 +0000
Subject: [PATCH 52/54] fix: annotations may precede the definitions, divs and
 includes of a grammar

---
 relaxng-syntax/src/compact.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 4b43a5e..1a783bf 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -723,6 +723,8 @@ where
 //                        | "div" "{" grammarContent* "}"
 //                        | "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
+    // annotations have no bearing on what the grammar means
+    let (input, _) = maybe_initial_annotation(input)?;
     alt((
         map(start, GrammarContent::Define),
         map(define, GrammarContent::Define),
-- 
2.43.0


From c7526b9a7e43c8cf99229c4faeca33c2e7ec576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:30 +0000
Subject: [PATCH 53/54] fix: every way to end a line is a line feed within a
 literal of the compact syntax

---
 relaxng-syntax/src/compact.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 1a783bf..9adf39b 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -174,15 +174,16 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
     let (input, body) = alt((
         delimited(tag("\"\"\""), take_until("\"\"\""), tag("\"\"\"")),
         delimited(tag("'''"), take_until("'''"), tag("'''")),
-        delimited(tag("\""), recognize(opt(is_not("\"\n"))), tag("\"")),
-        delimited(tag("'"), recognize(opt(is_not("'\n"))), tag("'")),
+        delimited(tag("\""), recognize(opt(is_not("\"\r\n"))), tag("\"")),
+        delimited(tag("'"), recognize(opt(is_not("'\r\n"))), tag("'")),
     ))
     .parse(input)?;
 
     IResult::Ok((
         input,
         LiteralSegment {
-            body: body.to_string(),
+            // every way to end a line stands for a line feed
+            body: body.replace("\r\n", "\n").replace('\r', "\n"),
         },
     ))
 }
-- 
2.43.0


From 0a9d75f691061cd7c5aa32e379fa9f8a5919a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:42 +0000
Subject: [PATCH 54/54] fix: a schema in the compact syntax may begin with a
 byte order mark

---
 relaxng-syntax/src/compact.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 9adf39b..38f92a0 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -29,9 +29,14 @@ pub type Span<'a> = LocatedSpan<&'a str>;
 //    in multiple alternatives
 
 pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
-    all_consuming((space_comment0, top_level, space_comment0))
+    all_consuming((byte_order_mark, space_comment0, top_level, space_comment0))
         .parse(input)
-        .map(|(_, (_, r, _))| r)
+        .map(|(_, (_, _, r, _))| r)
+}
+
+// a byte order mark is no part of what it comes before
+fn byte_order_mark(input: Span) -> IResult<Span, Option<Span>> {
+    opt(tag("\u{feff}")).parse(input)
 }
 
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
-- 
2.43.0

