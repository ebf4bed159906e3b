From 548708b1ea371ce3d615f703acd8d1280c8af1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 01/77] fix: 'after' examines both of its operands

The second operand was never inspected, so a NotAllowed remainder was not
propagated.
---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 05c1bbf..337d28b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -152,7 +152,7 @@ impl Schema {
         }
     }
     fn after(&self, p1: PatId, p2: PatId) -> PatId {
-        match (self.patt(p1), self.patt(p1)) {
+        match (self.patt(p1), self.patt(p2)) {
             (_, Pat::NotAllowed) => self.not_allowed(),
             (Pat::NotAllowed, _) => self.not_allowed(),
             (_, _) => self.push(Pat::After(p1, p2)),
-- 
2.43.0


From e05a992a47f529cbc329ed09dfd3d541fccadadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 02/77] fix: require attributes inside oneOrMore when a start
 tag closes

The derivative of the repeated pattern was computed and thrown away, so a
missing required attribute inside '(attribute a {..}, ..)+' was accepted.
---
 relaxng-validator/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 337d28b..6552cec 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1168,8 +1168,8 @@ impl<'a> Validator<'a> {
                 schema.interleave(c1, c2)
             }
             Pat::OneOrMore(p, _) => {
-                let _o = Self::start_tag_close_deriv(p, schema);
-                schema.one_or_more(p)
+                let o = Self::start_tag_close_deriv(p, schema);
+                schema.one_or_more(o)
             }
             Pat::Attribute(_, _) => schema.not_allowed(),
             _ => pid,
-- 
2.43.0


From 2bb4abe4835290da7841e95effd0f62d15075f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 03/77] fix: the expected names of a group include its second
 part only when the first is nullable

---
 relaxng-validator/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 6552cec..3ac364f 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1217,10 +1217,8 @@ impl<'a> Validator<'a> {
                 self.head(result, p2);
             }
             Pat::Group(p1, p2, _) => {
+                self.head(result, p1);
                 if self.schema.patt(p1).is_nullable() {
-                    self.head(result, p1);
-                } else {
-                    self.head(result, p1);
                     self.head(result, p2);
                 }
             }
-- 
2.43.0


From c33501eee194ecdb0166d7e4c0dc363017ad7339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 04/77] fix: list expected names in a reproducible order

The names were taken from a HashSet, so both their order and which of them were
shown varied from run to run.
---
 relaxng-validator/src/lib.rs | 33 +++++++++++++--------------------
 1 file changed, 13 insertions(+), 20 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 3ac364f..5358f22 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1197,14 +1197,12 @@ impl<'a> Validator<'a> {
         }
     }
 
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn heads(&self, id: PatId) -> HashSet<Pat> {
-        let mut result = HashSet::new();
+    fn heads(&self, id: PatId) -> Vec<Pat> {
+        let mut result = Vec::new();
         self.head(&mut result, id);
         result
     }
-    #[allow(clippy::mutable_key_type)] // false-positive
-    fn head(&self, result: &mut HashSet<Pat>, p: PatId) {
+    fn head(&self, result: &mut Vec<Pat>, p: PatId) {
         // https://www.kohsuke.org/relaxng/implbook/Validation1.html#IDATGOO
         let pat = self.schema.patt(p);
         match pat {
@@ -1226,20 +1224,16 @@ impl<'a> Validator<'a> {
             Pat::Empty => {}
             Pat::Text => {}
             Pat::NotAllowed => {}
-            Pat::Attribute(_, _) => {
-                result.insert(pat);
-            }
-            Pat::Element(_, _) => {
-                result.insert(pat);
-            }
-            Pat::Datatype(_) => {
-                result.insert(pat);
-            }
-            Pat::DatatypeValue(_) => {
-                result.insert(pat);
-            }
-            Pat::DatatypeExcept(_, _) => {
-                result.insert(pat);
+            Pat::Attribute(_, _)
+            | Pat::Element(_, _)
+            | Pat::Datatype(_)
+            | Pat::DatatypeValue(_)
+            | Pat::DatatypeExcept(_, _) => {
+                // in order of first appearance, so that the same input always produces the same
+                // message
+                if !result.contains(&pat) {
+                    result.push(pat);
+                }
             }
             Pat::List(p) => self.head(result, p),
             Pat::Placeholder(_) => panic!("Unexpected {pat:?}"),
@@ -1248,7 +1242,6 @@ impl<'a> Validator<'a> {
     }
 
     fn describe_expected(&self, expected_patt: PatId) -> String {
-        #[allow(clippy::mutable_key_type)] // false-positive
         let heads = self.heads(expected_patt);
         let mut result = String::new();
         const MAX_ELEMENTS: usize = 4;
-- 
2.43.0


From 2d3bf876aee7e08c413d2b43325115ae527e98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:33 +0000
Subject: [PATCH 05/77] fix: elements leave the element stack at their end tag

Entries were never removed, so namespace prefixes declared on an element stayed
in scope for its following siblings.  The name in an end tag is now also compared
with the element it closes; it used to be ignored.
---
 relaxng-validator/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 5358f22..0953f08 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -688,7 +688,10 @@ impl<'a> Validator<'a> {
                     ElementEnd::Open => {
                         Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
                     }
-                    ElementEnd::Close(_, _) => {
+                    ElementEnd::Close(prefix, local) => {
+                        if !self.stack.is_current(prefix, local) {
+                            return Err(ValidatorError::NotAllowed(evt));
+                        }
                         let next_pat = if self.last_was_start_element {
                             // The last event was XmlEvent::StartElement with no child elements or child
                             // text nodes.
@@ -813,6 +816,13 @@ impl<'a> Validator<'a> {
             Err(ValidatorError::NotAllowed(evt))
         } else {
             self.current_step = new;
+            if let Token::ElementEnd {
+                end: ElementEnd::Close(_, _) | ElementEnd::Empty,
+                ..
+            } = evt
+            {
+                self.stack.pop();
+            }
             Ok(())
         }
     }
@@ -1575,6 +1585,14 @@ impl<'a> ElementStack<'a> {
             attributes: vec![],
         })
     }
+    fn pop(&mut self) {
+        self.elements.pop();
+    }
+    fn is_current(&self, prefix: StrSpan<'a>, local: StrSpan<'a>) -> bool {
+        self.elements.last().is_some_and(|elem| {
+            elem.prefix.as_str() == prefix.as_str() && elem.local.as_str() == local.as_str()
+        })
+    }
     fn add_attr(
         &mut self,
         prefix: StrSpan<'a>,
-- 
2.43.0


From c47d446798c0b23160a19c1f020ef40559cf65ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 06/77] fix: reject documents which end before the pattern is
 complete

A document with missing end tags, or with no element at all, was accepted since
the tokenizer ends without an error in that case.
---
 relaxng-validator/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 0953f08..720894f 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -618,7 +618,16 @@ impl<'a> Validator<'a> {
         match self.tokenizer.next() {
             Some(Ok(evt)) => Some(self.validate(evt)),
             Some(Err(err)) => Some(Err(ValidatorError::Xml(err))),
-            None => None,
+            None if self.schema.patt(self.current_step).is_nullable() => None,
+            None => {
+                // the tokenizer does not notice that the document ends before its last end tag
+                // (or without any element), but then some of the pattern is still unmatched
+                self.current_step = self.schema.empty(); // report this just once
+                Some(Err(ValidatorError::Xml(xmlparser::Error::InvalidElement(
+                    xmlparser::StreamError::UnexpectedEndOfStream,
+                    self.tokenizer.stream().gen_text_pos(),
+                ))))
+            }
         }
     }
 
-- 
2.43.0


From c08682829ce61a637929f4fadf477bf7a518e6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 07/77] fix: report XML syntax errors on the line where they
 are

The row was used as a 0-based line number (a panic for errors in the last line)
and as a column.
---
 relaxng-validator/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 720894f..4dcd57b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1344,8 +1344,11 @@ impl<'a> Validator<'a> {
         let mut diagnostics = vec![];
         match err {
             ValidatorError::Xml(err) => {
-                let line = file.line_span(err.pos().row as _);
-                let span = line.subspan(err.pos().row as _, err.pos().row as _);
+                // rows are counted from 1, lines from 0
+                let row = err.pos().row as usize - 1;
+                let span = file
+                    .line_span(row)
+                    .subspan(0, file.source_line(row).len() as _);
 
                 let label = codemap_diagnostic::SpanLabel {
                     span,
-- 
2.43.0


From 2e4b18c5d57ea791e058ecfa341f2af091ad326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:28 +0000
Subject: [PATCH 08/77] fix: honour default namespaces in documents and in
 compact schemas

Neither xmlns=".." in the document nor 'default namespace' in a compact schema
had any effect on unprefixed element names, so elements of any default namespace
were accepted for each other.  The xml prefix no longer needs to be declared.
---
 relaxng-model/src/lib.rs     | 23 ++++++++++++++++++++++-
 relaxng-validator/src/lib.rs |  7 ++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40b37f4..dd68f65 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -256,7 +256,8 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
-            default_namespace: "".to_string(),
+            // applies unless the included file has a 'default namespace' declaration of its own
+            default_namespace: self.default_namespace_uri().to_string(),
             datatypes,
         })
     }
@@ -345,6 +346,24 @@ impl<'a> Context<'a> {
         }
     }
 
+    fn declare_default_namespace(&mut self, uri: String) {
+        match self {
+            Context::Root {
+                default_namespace, ..
+            }
+            | Context::Include {
+                default_namespace, ..
+            } => *default_namespace = uri,
+            Context::IncludeOverrides { .. }
+            | Context::Grammar { .. }
+            | Context::Define { .. }
+            | Context::Element { .. }
+            | Context::Attribute { .. } => {
+                unreachable!("Not expecting to see namespace declarations in this context")
+            }
+        }
+    }
+
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
@@ -1323,6 +1342,7 @@ impl<FS: Files> Compiler<FS> {
                     prefix: prefix.clone(),
                 })?
                 .to_string();
+            inc_ctx.declare_default_namespace(namespace_uri.clone());
             inc_ctx.declare_namespace(prefix, namespace_uri)?;
         }
 
@@ -1847,6 +1867,7 @@ impl<FS: Files> Compiler<FS> {
                         panic!("Can't inherit namespace {prefix:?} at top level, I think?")
                     }
                     NamespaceUriLiteral::Uri(uri) => {
+                        ctx.declare_default_namespace(uri.as_string_value());
                         if let Some(p) = prefix {
                             ctx.declare_namespace(p.clone(), uri.as_string_value())
                         } else {
diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 4dcd57b..755a7dd 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1570,6 +1570,10 @@ struct ElementStack<'a> {
 
 impl<'a> ElementStack<'a> {
     fn lookup_namespace_uri(&self, prefix: &str) -> Option<StrSpan<'a>> {
+        if prefix == "xml" {
+            // bound by definition, without a declaration in the document
+            return Some(StrSpan::from("http://www.w3.org/XML/1998/namespace"));
+        }
         self.elements
             .iter()
             .rev()
@@ -1581,7 +1585,8 @@ impl<'a> ElementStack<'a> {
         prefix: StrSpan<'a>,
     ) -> Result<Option<StrSpan<'a>>, ValidatorError<'a>> {
         if "" == prefix.as_str() {
-            Ok(None)
+            // the default namespace, if any has been declared
+            Ok(self.lookup_namespace_uri(""))
         } else {
             Ok(Some(self.lookup_namespace_uri(&prefix).ok_or(
                 ValidatorError::UndefinedNamespacePrefix { prefix },
-- 
2.43.0


From a2c95832cb97e61260633faa7d9e97e0ee676e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 09/77] fix: an element without children matches like one with
 empty text

The flag recording that nothing followed the start tag was never set, so
'element a { "" }' or 'element a { token }' rejected <a/> and <a></a>.
---
 relaxng-validator/src/lib.rs | 42 ++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 755a7dd..f90016f 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -713,6 +713,7 @@ impl<'a> Validator<'a> {
                             // This fake text node is required for a pattern like 'element foo { token }'
                             // to match the input '<foo/>' or '<foo></foo>'
                             let p = Self::text_deriv(pat, &mut self.schema, "");
+                            let p = self.schema.choice(self.current_step, p);
                             self.schema.patt(p)
                         } else {
                             pat
@@ -723,22 +724,19 @@ impl<'a> Validator<'a> {
                         let next_id =
                             Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
                         let pat = self.schema.patt(next_id);
-                        let next_pat = if self.last_was_start_element {
-                            // The last event was XmlEvent::StartElement with no child elements or child
-                            // text nodes.
-                            //
-                            // Per https://relaxng.org/jclark/derivative.html ,
-                            //     "The case where the list of children is empty is
-                            //      treated as if there were a text node whose value
-                            //      were the empty string."
-                            //
-                            // This fake text node is required for a pattern like 'element foo { token }'
-                            // to match the input '<foo/>' or '<foo></foo>'
-                            let p = Self::text_deriv(pat, &mut self.schema, "");
-                            self.schema.patt(p)
-                        } else {
-                            pat
-                        };
+                        // The last event was XmlEvent::StartElement with no child elements or child
+                        // text nodes.
+                        //
+                        // Per https://relaxng.org/jclark/derivative.html ,
+                        //     "The case where the list of children is empty is
+                        //      treated as if there were a text node whose value
+                        //      were the empty string."
+                        //
+                        // This fake text node is required for a pattern like 'element foo { token }'
+                        // to match the input '<foo/>' or '<foo></foo>'
+                        let p = Self::text_deriv(pat, &mut self.schema, "");
+                        let p = self.schema.choice(next_id, p);
+                        let next_pat = self.schema.patt(p);
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                 }
@@ -816,11 +814,13 @@ impl<'a> Validator<'a> {
                 return Ok(());
             }
         };
-        if let Token::ElementStart { .. } = evt {
-            self.last_was_start_element = true;
-        } else {
-            self.last_was_start_element = false;
-        }
+        self.last_was_start_element = matches!(
+            evt,
+            Token::ElementEnd {
+                end: ElementEnd::Open,
+                ..
+            }
+        );
         if let Pat::NotAllowed = self.schema.patt(new) {
             Err(ValidatorError::NotAllowed(evt))
         } else {
-- 
2.43.0


From e3c3d490bbf447c05a76518880f6dfca62801c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:50 +0000
Subject: [PATCH 10/77] fix: replace references by the text they stand for

A reference whose replacement has the same length as the whole text node, or
which is the whole node and has an empty replacement, was validated as the
literal text of the reference.
---
 relaxng-validator/src/lib.rs | 67 ++++++++++++++----------------------
 1 file changed, 26 insertions(+), 41 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index f90016f..1a8639b 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -743,47 +743,8 @@ impl<'a> Validator<'a> {
             }
             Token::Cdata { text, span: _ } => Self::text_deriv(pat, &mut self.schema, &text),
             Token::Text { text } => {
-                let mut buffer = String::new();
-                for val in parse_entities(text.start(), text.as_str()) {
-                    match val {
-                        Ok(val) => {
-                            let txt = match val {
-                                Txt::Text(_pos, val) => val,
-                                Txt::Entity(pos, name) => {
-                                    if let Some(txt) = self.entity_definitions.get(name) {
-                                        txt
-                                    } else {
-                                        return Err(ValidatorError::UndefinedEntity {
-                                            name,
-                                            span: pos..pos + name.len(),
-                                        });
-                                    }
-                                }
-                                Txt::Char(_pos, val) => {
-                                    buffer.push(val);
-                                    continue;
-                                }
-                            };
-                            // we only reach this point for Txt::Text and Txt::Entity cases,
-                            if txt.len() == text.len() {
-                                // no need to copy data into the buffer, just process the whole input in one go
-                                break;
-                            } else {
-                                // the input contains entities, so we decode these and append to buffer
-                                buffer.push_str(txt);
-                            }
-                        }
-                        Err(err) => {
-                            return Err(err);
-                        }
-                    }
-                }
-                let data = if buffer.is_empty() {
-                    text.as_str()
-                } else {
-                    &buffer[..]
-                };
-                let next_id = Self::text_deriv(pat, &mut self.schema, data);
+                let data = decode_text(&self.entity_definitions, text)?;
+                let next_id = Self::text_deriv(pat, &mut self.schema, &data);
                 let next_pat = self.schema.patt(next_id);
                 if let Pat::NotAllowed = next_pat {
                     return Err(ValidatorError::NotAllowed(Token::Text { text }));
@@ -1475,6 +1436,30 @@ enum Txt<'a> {
     Char(usize, char),
 }
 
+/// Replaces the character and entity references within the given text
+fn decode_text<'a>(
+    entity_definitions: &HashMap<String, String>,
+    text: StrSpan<'a>,
+) -> Result<String, ValidatorError<'a>> {
+    let mut buffer = String::new();
+    for val in parse_entities(text.start(), text.as_str()) {
+        match val? {
+            Txt::Text(_pos, val) => buffer.push_str(val),
+            Txt::Entity(pos, name) => match entity_definitions.get(name) {
+                Some(val) => buffer.push_str(val),
+                None => {
+                    return Err(ValidatorError::UndefinedEntity {
+                        name,
+                        span: pos..pos + name.len(),
+                    });
+                }
+            },
+            Txt::Char(_pos, val) => buffer.push(val),
+        }
+    }
+    Ok(buffer)
+}
+
 fn parse_entities(
     pos: usize,
     text: &str,
-- 
2.43.0


From b374a5efce32c1255901ac786b29d80ab1b25bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:54 +0000
Subject: [PATCH 11/77] fix: replace references within attribute values

They were compared with datatypes and values as written, and references to
undefined entities were not reported.
---
 relaxng-validator/src/lib.rs | 42 +++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 1a8639b..19f56dc 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -694,9 +694,13 @@ impl<'a> Validator<'a> {
             }
             Token::ElementEnd { end, span: _ } => {
                 match end {
-                    ElementEnd::Open => {
-                        Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?
-                    }
+                    ElementEnd::Open => Self::close_element_start(
+                        &self.stack,
+                        &self.entity_definitions,
+                        &mut self.schema,
+                        evt,
+                        pat,
+                    )?,
                     ElementEnd::Close(prefix, local) => {
                         if !self.stack.is_current(prefix, local) {
                             return Err(ValidatorError::NotAllowed(evt));
@@ -721,8 +725,13 @@ impl<'a> Validator<'a> {
                         Self::end_tag_deriv(next_pat, &mut self.schema)
                     }
                     ElementEnd::Empty => {
-                        let next_id =
-                            Self::close_element_start(&self.stack, &mut self.schema, evt, pat)?;
+                        let next_id = Self::close_element_start(
+                            &self.stack,
+                            &self.entity_definitions,
+                            &mut self.schema,
+                            evt,
+                            pat,
+                        )?;
                         let pat = self.schema.patt(next_id);
                         // The last event was XmlEvent::StartElement with no child elements or child
                         // text nodes.
@@ -799,6 +808,7 @@ impl<'a> Validator<'a> {
 
     fn close_element_start<'b: 'a>(
         stack: &ElementStack<'b>,
+        entity_definitions: &HashMap<String, String>,
         schema: &mut Schema,
         evt: Token<'b>,
         pat: Pat,
@@ -819,7 +829,8 @@ impl<'a> Validator<'a> {
                 let mut pat = next_pat;
                 for att in attributes {
                     let mut memo = HashMap::new();
-                    pat = Self::att_deriv(&mut memo, pat, schema, att);
+                    let value = decode_text(entity_definitions, att.value)?;
+                    pat = Self::att_deriv(&mut memo, pat, schema, att, &value);
                     if let Pat::NotAllowed = schema.patt(pat) {
                         return Err(ValidatorError::NotAllowed(Token::Attribute {
                             prefix: att.name.namespace_uri.unwrap_or_else(|| StrSpan::from("")),
@@ -1066,6 +1077,7 @@ impl<'a> Validator<'a> {
         pat: PatId,
         schema: &mut Schema,
         att: Attr,
+        value: &str,
     ) -> PatId {
         if let Some(result) = memo.get(&pat) {
             return *result;
@@ -1075,36 +1087,36 @@ impl<'a> Validator<'a> {
         //schema.dumpy(pat, &mut o).unwrap();
         let v = match schema.patt(pat) {
             Pat::After(p1, p2) => {
-                let d = Self::att_deriv(memo, p1, schema, att);
+                let d = Self::att_deriv(memo, p1, schema, att, value);
                 schema.after(d, p2)
             }
             Pat::Choice(p1, p2, _) => {
-                let c1 = Self::att_deriv(memo, p1, schema, att);
-                let c2 = Self::att_deriv(memo, p2, schema, att);
+                let c1 = Self::att_deriv(memo, p1, schema, att, value);
+                let c2 = Self::att_deriv(memo, p2, schema, att, value);
                 schema.choice(c1, c2)
             }
             Pat::Group(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, att, value);
                 let s1 = schema.group(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, att, value);
                 let s2 = schema.group(p1, d2);
                 schema.choice(s1, s2)
             }
             Pat::Interleave(p1, p2, _) => {
-                let d1 = Self::att_deriv(memo, p1, schema, att);
+                let d1 = Self::att_deriv(memo, p1, schema, att, value);
                 let i1 = schema.interleave(d1, p2);
-                let d2 = Self::att_deriv(memo, p2, schema, att);
+                let d2 = Self::att_deriv(memo, p2, schema, att, value);
                 let i2 = schema.interleave(p1, d2);
                 schema.choice(i1, i2)
             }
             Pat::OneOrMore(p, _) => {
-                let s1 = Self::att_deriv(memo, p, schema, att);
+                let s1 = Self::att_deriv(memo, p, schema, att, value);
                 let s2 = schema.choice(pat, schema.empty());
                 schema.group(s1, s2)
             }
             Pat::Attribute(ref nc, p) => {
                 let att_pat = schema.patt(p);
-                if contains(nc, att.name) && Self::value_match(att_pat, schema, &att.value) {
+                if contains(nc, att.name) && Self::value_match(att_pat, schema, value) {
                     schema.empty()
                 } else {
                     schema.not_allowed()
-- 
2.43.0


From 19e5b479157e78fb4b93aeec7bddb526414e7543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 12/77] fix: only the first declaration of an entity is binding

---
 relaxng-validator/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 19f56dc..b054844 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -767,8 +767,10 @@ impl<'a> Validator<'a> {
             } => {
                 match definition {
                     EntityDefinition::EntityValue(val) => {
+                        // only the first of several declarations is binding
                         self.entity_definitions
-                            .insert(name.to_string(), val.to_string());
+                            .entry(name.to_string())
+                            .or_insert_with(|| val.to_string());
                         // does not change current_step state
                         return Ok(());
                     }
-- 
2.43.0


From f3d526381b8ff04d37704703bced479d7a2afd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:59 +0000
Subject: [PATCH 13/77] fix: report every malformed reference, at its place in
 the document

An '&' at the very end of a text was ignored, a sign was accepted in character
references, and their errors were located relative to the text node.
---
 relaxng-validator/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index b054844..3a96546 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -1488,7 +1488,7 @@ fn parse_entities(
         type Item = Result<Txt<'a>, ValidatorError<'a>>;
 
         fn next(&mut self) -> Option<Self::Item> {
-            if self.offset == self.text.len() {
+            if self.offset == self.text.len() && !self.in_entity {
                 return None;
             }
             for (i, c) in self.text[self.offset..].char_indices() {
@@ -1497,7 +1497,7 @@ fn parse_entities(
                         self.in_entity = false;
                         let text = &self.text[self.offset..self.offset + i];
                         let result = if let Some(text) = text.strip_prefix('#') {
-                            numeric_entity(self.offset, text)
+                            numeric_entity(self.offset + self.pos, text)
                         } else {
                             Ok(Txt::Entity(self.offset + self.pos, text))
                         };
@@ -1515,8 +1515,11 @@ fn parse_entities(
                 }
             }
             if self.in_entity {
+                self.in_entity = false;
+                let start = self.pos + self.offset - 1;
+                self.offset = self.text.len();
                 Some(Err(ValidatorError::InvalidOrUnclosedEntity {
-                    span: self.pos + self.offset - 1..self.pos + self.offset,
+                    span: start..start + 1,
                 }))
             } else {
                 let result = Txt::Text(self.offset + self.pos, &self.text[self.offset..]);
@@ -1526,12 +1529,12 @@ fn parse_entities(
         }
     }
     fn numeric_entity(pos: usize, text: &str) -> Result<Txt<'_>, ValidatorError<'_>> {
-        if text.is_empty() {
+        if text.is_empty() || text.starts_with('+') {
             return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
         }
         let c = if let Some(text) = text.strip_prefix('x') {
             let pos = pos + 1;
-            if text.is_empty() {
+            if text.is_empty() || text.starts_with('+') {
                 return Err(ValidatorError::InvalidOrUnclosedEntity { span: pos..pos });
             }
             u32::from_str_radix(text, 16)
-- 
2.43.0


From 5ca19025ac5eac7410e78598e1655fb0c22c35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:49 +0000
Subject: [PATCH 14/77] fix: reject definitions which refer back to themselves
 through others

Only a direct self reference was reported; 'a = b  b = a' made the validator
panic when it was given the schema.
---
 relaxng-model/src/lib.rs | 80 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 74 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index dd68f65..4a93164 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -729,8 +729,13 @@ impl<FS: Files> Compiler<FS> {
         }
         if let Some(start) = ctx.get_ref("start") {
             let mut seen = HashSet::new();
+            let mut expanded = HashSet::new();
             // TODO: this is a temporary hack to detect bad references; do this in a better way?
-            self.check(&mut seen, start.borrow().as_ref().unwrap().pattern())?;
+            self.check(
+                &mut seen,
+                &mut expanded,
+                start.borrow().as_ref().unwrap().pattern(),
+            )?;
             Ok(start)
         } else {
             Err(RelaxError::StartRuleNotDefined { span: file.span })
@@ -738,11 +743,16 @@ impl<FS: Files> Compiler<FS> {
     }
 
     #[allow(clippy::only_used_in_recursion)]
-    fn check(&self, seen: &mut HashSet<usize>, patt: &model::Pattern) -> Result<(), RelaxError> {
+    fn check(
+        &self,
+        seen: &mut HashSet<usize>,
+        expanded: &mut HashSet<usize>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
         match patt {
             Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
                 for p in v {
-                    self.check(seen, p)?
+                    self.check(seen, expanded, p)?
                 }
             }
             Pattern::Mixed(p)
@@ -751,7 +761,7 @@ impl<FS: Files> Compiler<FS> {
             | Pattern::OneOrMore(p)
             | Pattern::Attribute(_, p)
             | Pattern::Element(_, p)
-            | Pattern::List(p) => self.check(seen, p)?,
+            | Pattern::List(p) => self.check(seen, expanded, p)?,
             Pattern::Empty
             | Pattern::Text
             | Pattern::NotAllowed
@@ -761,7 +771,8 @@ impl<FS: Files> Compiler<FS> {
                 if !seen.contains(&ptr) {
                     seen.insert(ptr);
                     if let Some(rule) = def.0.borrow().as_ref() {
-                        self.check(seen, rule.pattern())?
+                        self.check_recursion(&mut vec![], expanded, patt)?;
+                        self.check(seen, expanded, rule.pattern())?
                     } else {
                         return Err(RelaxError::UndefinedReference {
                             span: *span,
@@ -772,9 +783,66 @@ impl<FS: Files> Compiler<FS> {
             }
             Pattern::DatatypeName { except, .. } => {
                 if let Some(e) = except.as_ref() {
-                    self.check(seen, e)?;
+                    self.check(seen, expanded, e)?;
+                }
+            }
+        }
+        Ok(())
+    }
+
+    /// Rejects definitions which, without an element in between, refer back to themselves by way
+    /// of other definitions
+    ///
+    /// 'active' holds the definitions currently being expanded, and 'expanded' those which are
+    /// already known to have a finite expansion.
+    #[allow(clippy::only_used_in_recursion)]
+    fn check_recursion(
+        &self,
+        active: &mut Vec<usize>,
+        expanded: &mut HashSet<usize>,
+        patt: &model::Pattern,
+    ) -> Result<(), RelaxError> {
+        match patt {
+            Pattern::Choice(v) | Pattern::Interleave(v) | Pattern::Group(v) => {
+                for p in v {
+                    self.check_recursion(active, expanded, p)?
+                }
+            }
+            Pattern::Mixed(p)
+            | Pattern::Optional(p)
+            | Pattern::ZeroOrMore(p)
+            | Pattern::OneOrMore(p)
+            | Pattern::Attribute(_, p)
+            | Pattern::List(p) => self.check_recursion(active, expanded, p)?,
+            Pattern::DatatypeName { except, .. } => {
+                if let Some(e) = except.as_ref() {
+                    self.check_recursion(active, expanded, e)?;
                 }
             }
+            Pattern::Ref(span, name, def) => {
+                let ptr = def.0.as_ptr() as usize;
+                if let Some(rule) = def.0.borrow().as_ref() {
+                    if active.contains(&ptr) {
+                        return Err(RelaxError::RecursiveReference {
+                            ref_id: name.clone(),
+                            ref_span: *span,
+                            def_id: name.clone(),
+                            def_span: *rule.span(),
+                        });
+                    }
+                    if !expanded.contains(&ptr) {
+                        active.push(ptr);
+                        self.check_recursion(active, expanded, rule.pattern())?;
+                        active.pop();
+                        expanded.insert(ptr);
+                    }
+                }
+            }
+            Pattern::Element(_, _)
+            | Pattern::Empty
+            | Pattern::Text
+            | Pattern::NotAllowed
+            | Pattern::DatatypeValue { .. } => {}
         }
         Ok(())
     }
-- 
2.43.0


From 8b99debd470e9286336ee947847b5daa6fbdee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:51 +0000
Subject: [PATCH 15/77] fix: compile an external grammar in the context of its
 own file

Its declarations were ignored, spans and relative paths were taken to be those
of the referring file, and a grammar referring to itself was compiled without end.
---
 relaxng-model/src/lib.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 4a93164..78fbe62 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1705,16 +1705,19 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        for dec in s.decls.iter() {
+            self.compile_declaration(&mut inc_ctx, dec)
+                .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
+        }
 
         match &s.pattern_or_grammar {
             types::PatternOrGrammar::Pattern(pat) => self
                 .compile_pattern(&mut inc_ctx, pat)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e))),
             types::PatternOrGrammar::Grammar(types::GrammarPattern { span: _, content }) => {
-                let mut child_ctx = ctx.new_grammar();
-                for g in content {
-                    self.compile_grammar_content_item(&mut child_ctx, g)?;
-                }
+                let mut child_ctx = inc_ctx.new_grammar();
+                self.compile_grammar_contents(&mut child_ctx, content)
+                    .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
                 for (name, r) in child_ctx.ref_iter() {
                     if r.borrow().is_none() {
                         // TODO: retain span information for references so that we don't report bogus data
-- 
2.43.0


From a24239c71d07d6e0615bf76676b59443006d1a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 16/77] fix: resolve prefixes within an include override in the
 including file

They were looked up among the declarations of the included file.
---
 relaxng-model/src/lib.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 78fbe62..64ce088 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -304,18 +304,25 @@ impl<'a> Context<'a> {
         Context::Attribute { parent: self, span }
     }
 
+    /// For the body of an include-overrides block, the context of the including file, which is
+    /// where the text of the block is
+    fn including(&self) -> &Context<'a> {
+        if let Context::IncludeOverrides {
+            parent: Context::Include { parent, .. },
+        } = self
+        {
+            parent
+        } else {
+            unreachable!(
+                "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
+            )
+        }
+    }
+
     fn file(&self) -> Arc<codemap::File> {
         match self {
             Context::Root { file, .. } | Context::Include { file, .. } => file.clone(),
-            Context::IncludeOverrides { parent, .. } => {
-                if let Context::Include { parent, .. } = parent {
-                    parent.file()
-                } else {
-                    unreachable!(
-                        "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
-                    )
-                }
-            }
+            Context::IncludeOverrides { .. } => self.including().file(),
             Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
@@ -338,8 +345,8 @@ impl<'a> Context<'a> {
             | Context::Include {
                 default_namespace, ..
             } => &default_namespace[..],
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { .. } => self.including().default_namespace_uri(),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.default_namespace_uri(),
@@ -400,8 +407,10 @@ impl<'a> Context<'a> {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
                 namespaces.get(prefix).map(|s| &s[..])
             }
-            Context::IncludeOverrides { parent, .. }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { .. } => {
+                self.including().namespace_uri_for_prefix_str(prefix)
+            }
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.namespace_uri_for_prefix_str(prefix),
@@ -454,8 +463,8 @@ impl<'a> Context<'a> {
                     parent.datatype_uri_for_prefix(prefix)
                 }
             }
-            Context::IncludeOverrides { parent }
-            | Context::Grammar { parent, .. }
+            Context::IncludeOverrides { .. } => self.including().datatype_uri_for_prefix(prefix),
+            Context::Grammar { parent, .. }
             | Context::Define { parent, .. }
             | Context::Element { parent }
             | Context::Attribute { parent, .. } => parent.datatype_uri_for_prefix(prefix),
-- 
2.43.0


From f57d4b0e5f5a1dd02da78e97070cfa727bef974a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:57 +0000
Subject: [PATCH 17/77] fix: a datatype prefix may be declared again for the
 same library

'datatypes xsd = "http://www.w3.org/2001/XMLSchema-datatypes"' was an error.
---
 relaxng-model/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 64ce088..052e8af 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -421,6 +421,8 @@ impl<'a> Context<'a> {
         match self {
             Context::Root { datatypes, .. } | Context::Include { datatypes, .. } => {
                 match datatypes.entry(prefix) {
+                    // e.g. the predefined 'xsd' may be declared again
+                    Entry::Occupied(e) if *e.get() == uri => Ok(()),
                     Entry::Occupied(e) => {
                         Err(RelaxError::DatatypePrefixAlreadyDefined(e.key().clone()))
                     }
-- 
2.43.0


From 6ce1d9c7c39db5c48d861526b1ee8aceb96d28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 18/77] fix: every schema error has a diagnostic

Reporting some of them panicked.
---
 relaxng-model/src/lib.rs | 52 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 47 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 052e8af..e9e309b 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -957,7 +957,12 @@ impl<FS: Files> Compiler<FS> {
                         spans: vec![label],
                     }
                 }
-                _ => panic!("{err:?}"),
+                relaxng_syntax::xml::Error::Todo(msg) => codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("Not supported: {msg}"),
+                    code: None,
+                    spans: vec![],
+                },
             },
             RelaxError::UndefinedNamespacePrefix { span, prefix } => {
                 let label = codemap_diagnostic::SpanLabel {
@@ -1019,9 +1024,10 @@ impl<FS: Files> Compiler<FS> {
                 Errors::Xsd(e) => match e {
                     XsdDatatypeError::Facet { type_name, facet } => {
                         let mut labels = vec![];
+                        let mut message = format!("Problematic facet for {type_name} type");
                         match facet {
-                            FacetError::ConflictingFacet(_name) => {
-                                unimplemented!("Support for ConflictingFacet")
+                            FacetError::ConflictingFacet(name) => {
+                                message = format!("Conflicting facet {name} for {type_name} type")
                             }
                             FacetError::InvalidInt(span, msg) => {
                                 labels.push(codemap_diagnostic::SpanLabel {
@@ -1054,7 +1060,7 @@ impl<FS: Files> Compiler<FS> {
                         }
                         codemap_diagnostic::Diagnostic {
                             level: codemap_diagnostic::Level::Error,
-                            message: format!("Problematic facet for {type_name} type"),
+                            message,
                             code: None,
                             spans: labels,
                         }
@@ -1270,7 +1276,43 @@ impl<FS: Files> Compiler<FS> {
                     spans: vec![label],
                 }
             }
-            _ => panic!("{err:?}"),
+            RelaxError::NamespacePrefixAlreadyDefined { span, prefix } => {
+                let label = codemap_diagnostic::SpanLabel {
+                    span: *span,
+                    style: codemap_diagnostic::SpanStyle::Primary,
+                    label: None,
+                };
+                codemap_diagnostic::Diagnostic {
+                    level: codemap_diagnostic::Level::Error,
+                    message: format!("The namespace prefix {prefix:?} is already defined"),
+                    code: None,
+                    spans: vec![label],
+                }
+            }
+            RelaxError::DatatypePrefixAlreadyDefined(prefix) => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("The datatype prefix {prefix:?} is already defined"),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::DuplicateParameterName(name) => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("Duplicate parameter {name:?}"),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::StartRuleRedefined => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: "Grammar has more than one start rule".to_string(),
+                code: None,
+                spans: vec![],
+            },
+            RelaxError::IncompatibleCombination { file, .. } => codemap_diagnostic::Diagnostic {
+                level: codemap_diagnostic::Level::Error,
+                message: format!("Incompatible combination of definitions in {file:?}"),
+                code: None,
+                spans: vec![],
+            },
         }
     }
 
-- 
2.43.0


From 4ccba4b32285a60de9ad5b97e3c522b86746bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 19/77] fix: support divs and combined definitions within
 include overrides

Both panicked.
---
 relaxng-model/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index e9e309b..1413f29 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -504,15 +504,11 @@ impl<'a> Context<'a> {
                     ..
                 } = parent
                 {
-                    let mut overrides = overrides.borrow_mut();
-                    if overrides.contains_key(id) {
-                        // TODO: return Err, not panic
-                        panic!("TODO: redefined override {id:?}")
-                    } else {
-                        overrides.insert(id.to_string(), (*rule.span(), false));
-                        parant_of_include.define(id, rule)?;
-                    };
-                    Ok(())
+                    overrides
+                        .borrow_mut()
+                        .entry(id.to_string())
+                        .or_insert((*rule.span(), false));
+                    parant_of_include.define(id, rule)
                 } else {
                     unreachable!(
                         "Should not be possible for Context::IncludeOverrides to have parent other than Context::Include"
@@ -1428,10 +1424,17 @@ impl<FS: Files> Compiler<FS> {
     }
     fn compile_include_div(
         &mut self,
-        _ctx: &mut Context,
-        _div: &[types::IncludeContent],
+        ctx: &mut Context,
+        div: &[types::IncludeContent],
     ) -> Result<(), RelaxError> {
-        unimplemented!()
+        for item in div {
+            match item {
+                types::IncludeContent::Define(d) => self.compile_define(ctx, d)?,
+                types::IncludeContent::Div(d) => self.compile_include_div(ctx, d)?,
+                types::IncludeContent::Annotation(_) => (),
+            }
+        }
+        Ok(())
     }
     fn compile_include(
         &mut self,
-- 
2.43.0


From cbb94de987b0689c2fa6b23869fd46209fa414b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 20/77] fix: the later of two definitions is the duplicate

---
 relaxng-model/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 1413f29..40fcbf5 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1533,8 +1533,8 @@ impl<FS: Files> Compiler<FS> {
             (DefineRule::AssignCombine(this, _, _), DefineRule::AssignCombine(that, _, _)) => {
                 Err(RelaxError::DuplicateDefinition {
                     name: name.to_string(),
-                    duplicate: this,
-                    original: that,
+                    duplicate: that,
+                    original: this,
                 })
             }
             // choice-related cases,
-- 
2.43.0


From d4fda6beac93a0fb52a7505b505b0c5fa242d92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 21/77] fix: report the same error whenever the same schema is
 compiled

With several undefined names, the one reported depended on hash order.
---
 relaxng-model/src/lib.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 40fcbf5..0d83292 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -562,7 +562,10 @@ impl<'a> Context<'a> {
     > + '_ {
         match self {
             Context::Root { refs, .. } | Context::Grammar { refs, .. } => {
-                refs.borrow().clone().into_iter()
+                // ordered, so that the same schema always produces the same error
+                let mut refs: Vec<_> = refs.borrow().clone().into_iter().collect();
+                refs.sort_by(|a, b| a.0.cmp(&b.0));
+                refs.into_iter()
             }
             _ => panic!("ref_iter() only valid for root context"),
         }
@@ -1491,7 +1494,11 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
 
         if let Context::Include { overrides, .. } = inc_ctx {
-            for (name, (override_span, defined)) in overrides.borrow().iter() {
+            let overrides = overrides.borrow();
+            // ordered, so that the same schema always produces the same error
+            let mut names: Vec<_> = overrides.iter().collect();
+            names.sort_by(|a, b| a.0.cmp(b.0));
+            for (name, (override_span, defined)) in names {
                 if !defined {
                     return Err(RelaxError::OverrideMissingFromInclude {
                         name: name.clone(),
-- 
2.43.0


From c0c43284dc3bd25bf34777422c1fa5bfd8af232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:16 +0000
Subject: [PATCH 22/77] fix: report undefined references in unused definitions
 of nested grammars

as is done for the outermost grammar.
---
 relaxng-model/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 0d83292..7f0949c 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1814,6 +1814,14 @@ impl<FS: Files> Compiler<FS> {
 
         let content = &grammar.content[..];
         self.compile_grammar_contents(&mut child_ctx, content)?;
+        for (name, r) in child_ctx.ref_iter() {
+            if r.borrow().is_none() {
+                return Err(RelaxError::UndefinedReference {
+                    span: ctx.convert_span(&grammar.span),
+                    identifier: name,
+                });
+            }
+        }
         if let Some(r) = child_ctx.get_ref("start") {
             r.borrow_mut()
                 .take()
-- 
2.43.0


From d3de9605506833a590cd2fb0e0dc2f76581be75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 23/77] fix: an attribute's name does not take the ns of its
 ancestors

Per section 4.8 of the specification, <attribute name="a"> without an ns attribute
of its own means ns="".
---
 relaxng-syntax/src/xml.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 33d265c..007907f 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -138,7 +138,7 @@ fn next_rng_sibling<'a, 'input: 'a>(node: Node<'a, 'input>) -> Option<Node<'a, '
 fn element(node: Node) -> Result<ElementPattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let (name_class, pattern) = if let Some(name) = node.attribute_node("name") {
-        let name_class = NameClass::Name(qname_att(node, &name)?);
+        let name_class = NameClass::Name(qname_att(node, &name, get_ns(node))?);
         let pat_el = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
         let pattern = single_pattern_or_group(pat_el)?;
         (name_class, pattern)
@@ -318,7 +318,8 @@ fn single_pattern_or_group(mut node: Node) -> Result<Pattern> {
 
 fn attribute(node: Node) -> Result<AttributePattern> {
     no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
-    let ns = get_ns_att(node);
+    // the ns attributes of ancestors apply to a child <name>, but not to the 'name' attribute
+    let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
         if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
@@ -334,7 +335,11 @@ fn attribute(node: Node) -> Result<AttributePattern> {
             ));
         }
         (
-            NameClass::Name(qname_att(node, &name)?),
+            NameClass::Name(qname_att(
+                node,
+                &name,
+                ns.map(|ns| Literal::new(ns.range_value(), ns.value().to_string())),
+            )?),
             first_rng_child(node),
         )
     } else {
@@ -817,7 +822,7 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
     Ok(IncludeContent::Div(content))
 }
 
-fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
+fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name> {
     let val = name.value();
     if let Some(pos) = val.find(':') {
         let start = name.range_value().start;
@@ -833,7 +838,7 @@ fn qname_att(node: Node, name: &Attribute) -> Result<Name> {
             localname,
         }))
     } else {
-        let ns = get_ns(node).unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
+        let ns = ns.unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
         let localname = ncname(name.range_value(), val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
-- 
2.43.0


From 7d4ae23085033feefdf63b4c65c6c4ac28fa623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 24/77] fix: resolve prefixes in <name> elements

Their prefixes were left for the schema compiler, which does not know the XML
namespace declarations, so every such name was an error.
---
 relaxng-syntax/src/xml.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 007907f..3dc575b 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -853,9 +853,16 @@ fn qname_el(name: Node) -> Result<Name> {
         if let Some(pos) = val.find(':') {
             let start = name.range().start;
             let end = name.range().end;
-            let prefix = ncname(start..(start + pos), val[0..pos].trim())?;
+            let prefix_span = start..(start + pos);
+            let prefix = ncname(prefix_span.clone(), val[0..pos].trim())?;
             let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
-            Ok(Name::CName(QName(prefix, localname)))
+            let namespace = lookup_namespace_def(name, Some(&prefix.1)).ok_or_else(|| {
+                Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix")
+            })?;
+            Ok(Name::NamespacedName(NamespacedName {
+                namespace_uri: Literal::new(prefix_span, namespace.to_string()),
+                localname,
+            }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
             let localname = ncname(name.first_child().unwrap().range(), val)?;
-- 
2.43.0


From b7f44f5dbd119a70ac4f6677ffe0b3b137048dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:53 +0000
Subject: [PATCH 25/77] fix: locate XML errors in schemas

The computed span ended before it started, so that a schema which is not
well-formed led to a panic instead of an error.
---
 relaxng-syntax/src/xml.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 3dc575b..ddf4bba 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -18,14 +18,12 @@ pub fn parse(text: &str) -> Result<Schema> {
     let doc = roxmltree::Document::parse(text).map_err(|e| {
         // Gah!  The interface we want to expose is in terms of byte-offset + len pairs, but
         // the errors from roxmltree give us
-        let (off, len) = text
-            .lines()
-            .take(e.pos().row as _)
-            .fold((0, 0), |(acc, _), line| (acc + line.len(), line.len()));
-
-        let start = off + e.pos().col as usize;
-        let end = len - e.pos().col as usize;
-        Error::Xml(start..end, e.to_string())
+        // a row and a column, both counted from 1
+        let row = e.pos().row.saturating_sub(1) as usize;
+        let col = e.pos().col.saturating_sub(1) as usize;
+        let off: usize = text.split_inclusive('\n').take(row).map(str::len).sum();
+        let len: usize = text[off..].chars().take(col).map(char::len_utf8).sum();
+        Error::Xml(off + len..off + len, e.to_string())
     })?;
     Ok(Schema {
         decls: vec![],
-- 
2.43.0


From 506b89086669bc7ab42794bad96b8d04887b043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 26/77] fix: parsing a schema does not write to stdout

Ignored annotations were reported there, which corrupts the output of a program
using the library, and a name class with a following annotation but no initial
one panicked while doing so.
---
 relaxng-syntax/src/compact.rs | 28 +++++-----------------------
 relaxng-syntax/src/xml.rs     |  1 -
 2 files changed, 5 insertions(+), 24 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index b5f12c0..c2d0d2b 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -312,10 +312,7 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if let Some(annotation) = annotation {
-        println!("pattern annotation found but ignored! {:?}", annotation);
-    }
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, mut result) = alt((
         map(element_pattern, Pattern::Element),
         map(attribute_pattern, Pattern::Attribute),
@@ -336,10 +333,7 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
     ))
     .parse(input)?;
 
-    let (mut input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!("pattern follow annotation found but ignored! {follow_annotations:?}");
-    }
+    let (mut input, _follow_annotations) = follow_annotation_list(input)?;
 
     loop {
         let (i, _) = space_comment0(input)?;
@@ -596,10 +590,7 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 }
 
 fn name_class(input: Span) -> IResult<Span, NameClass> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("name-class annotation found but ignored!")
-    }
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     let (input, left) = alt((
         map(ns_name_nc, NameClass::NsName),
         map(name, NameClass::Name),
@@ -609,13 +600,7 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     ))
     .parse(input)?;
 
-    let (input, follow_annotations) = follow_annotation_list(input)?;
-    if !follow_annotations.is_empty() {
-        println!(
-            "name-class follow annotation found but ignored! {:?}",
-            annotation.unwrap()
-        );
-    }
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
 
     if let Ok((input, right)) = alt_nc(input) {
         return Ok((
@@ -851,10 +836,7 @@ fn inherit(input: Span) -> IResult<Span, Inherit> {
 //                    | start
 //                    | "div" "{" includeContent* "}"
 fn include_content(input: Span) -> IResult<Span, IncludeContent> {
-    let (input, annotation) = maybe_initial_annotation(input)?;
-    if annotation.is_some() {
-        println!("include-content annotation found but ignored!")
-    }
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(annotation_element, IncludeContent::Annotation),
         map(define, IncludeContent::Define),
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index ddf4bba..028b1ce 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -888,7 +888,6 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
                 ));
             }
         } else if !is_nc_name_char(c) {
-            println!("NcName Urk! {val:?}");
             return Err(Error::Unexpected(
                 range.start + i..range.start + i + 1,
                 "Unexpected character for NcName",
-- 
2.43.0


From ceda358015e458534eb6af02443a73c2c49c2aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 27/77] fix: a schema may end with a comment

The streaming parser reported a comment without a final newline as incomplete
input, for which the compiler has no case.
---
 relaxng-syntax/src/compact.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index c2d0d2b..d0428bd 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -8,10 +8,7 @@ use nom::{
     AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until},
-    character::{
-        complete::{char, multispace1},
-        streaming::not_line_ending,
-    },
+    character::complete::{char, multispace1, not_line_ending},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
-- 
2.43.0


From 5bcaf4f3cd86712010dc78099529d6ab9cfe35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 28/77] fix: a quoted identifier names what follows the
 backslash

The backslash was kept as part of the name, so '\\text' as an element name
matched no document.
---
 relaxng-syntax/src/compact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index d0428bd..151c8cf 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -196,7 +196,7 @@ fn span(start: LocatedSpan<&str>, end: LocatedSpan<&str>) -> Range<usize> {
 //                   | quotedIdentifier
 fn identifier(input: Span) -> IResult<Span, Identifier> {
     let res = alt((
-        recognize((tag("\\"), keyword)),
+        preceded(char('\\'), recognize(nc_name)),
         recognize((not(peek(keyword)), nc_name)),
     ))
     .parse(input);
-- 
2.43.0


From b7de4b1adad7f497de6f0189a5c5b50e144bb3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 29/77] fix: names may start with 'string' or 'token'

A reference to a definition named 'tokens' was read as the datatype 'token'
followed by a stray letter.
---
 relaxng-syntax/src/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 151c8cf..33a5440 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -579,8 +579,8 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
-        map(tag("string"), |_| DatatypeName::String),
-        map(tag("token"), |_| DatatypeName::Token),
+        map((tag("string"), peek(not(nc_name_char))), |_| DatatypeName::String),
+        map((tag("token"), peek(not(nc_name_char))), |_| DatatypeName::Token),
         map(cname, DatatypeName::CName),
     ))
     .parse(input)
-- 
2.43.0


From 7801114fbf665f308b6f0cc92af8e248c2435228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 30/77] fix: resolve datatype names of schemas in the XML
 syntax

Every type attribute but "token" panicked with the XSD library or was unknown with
the built-in one, and "token" always meant the built-in type.
---
 relaxng-model/src/datatype/relax.rs | 28 ++++++++++++++++++++--------
 relaxng-model/src/datatype/xsd.rs   |  7 +++++--
 relaxng-syntax/src/xml.rs           |  3 +--
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/relaxng-model/src/datatype/relax.rs b/relaxng-model/src/datatype/relax.rs
index d7047df..bc21c6c 100644
--- a/relaxng-model/src/datatype/relax.rs
+++ b/relaxng-model/src/datatype/relax.rs
@@ -90,10 +90,16 @@ impl super::DatatypeCompiler for Compiler {
                 });
             }
             DatatypeName::NamespacedName(NamespacedName { localname, .. }) => {
-                return Err(Error::DatataypeNameUnknown {
-                    span: ctx.convert_span(&localname.0),
-                    name: localname.1.clone(),
-                });
+                match &localname.1[..] {
+                    "string" => BuiltinDatatypeValue::StringValue(value.to_string()),
+                    "token" => BuiltinDatatypeValue::TokenValue(normalize_whitespace(value)),
+                    _ => {
+                        return Err(Error::DatataypeNameUnknown {
+                            span: ctx.convert_span(&localname.0),
+                            name: localname.1.clone(),
+                        });
+                    }
+                }
             }
         })
     }
@@ -126,10 +132,16 @@ impl super::DatatypeCompiler for Compiler {
                 });
             }
             DatatypeName::NamespacedName(NamespacedName { localname, .. }) => {
-                return Err(Error::DatataypeNameUnknown {
-                    span: ctx.convert_span(&localname.0),
-                    name: localname.1.clone(),
-                });
+                match &localname.1[..] {
+                    "string" => BuiltinDatatype::String,
+                    "token" => BuiltinDatatype::Token,
+                    _ => {
+                        return Err(Error::DatataypeNameUnknown {
+                            span: ctx.convert_span(&localname.0),
+                            name: localname.1.clone(),
+                        });
+                    }
+                }
             }
         })
     }
diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 4316cb1..f665886 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -576,8 +576,8 @@ impl super::DatatypeCompiler for Compiler {
             DatatypeName::CName(types::QName(_namespace_uri, name)) => {
                 self.compile_value(ctx, &name.0, &name.1, value)
             }
-            DatatypeName::NamespacedName(_) => {
-                unimplemented!()
+            DatatypeName::NamespacedName(types::NamespacedName { localname, .. }) => {
+                self.compile_value(ctx, &localname.0, &localname.1, value)
             }
             _ => panic!("Unexpected {datatype_name:?}"),
         }
@@ -593,6 +593,9 @@ impl super::DatatypeCompiler for Compiler {
             types::DatatypeName::CName(types::QName(_namespace_uri, name)) => {
                 self.compile(ctx, &name.0, &name.1, params)
             }
+            types::DatatypeName::NamespacedName(types::NamespacedName { localname, .. }) => {
+                self.compile(ctx, &localname.0, &localname.1, params)
+            }
             _ => panic!("Unexpected {datatype_name:?}"),
         }
     }
diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 028b1ce..703ae92 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -500,8 +500,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
     let type_name = match type_attr.value().trim() {
-        // TODO: check datatypeLibrary namespace!
-        "token" => DatatypeName::Token,
+        "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
             let name = ncname(type_attr.range_value(), val)?;
             DatatypeName::NamespacedName(NamespacedName {
-- 
2.43.0


From ae6da62fdd76ff9373a6ee76f23d5087db9b2c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 31/77] fix: unsupported datatype values are errors

A value of any other XSD datatype than string, token and QName, and a QName with a
prefix (even one in a document), panicked.
---
 relaxng-model/src/datatype/xsd.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index f665886..9430ecd 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -784,7 +784,10 @@ impl Compiler {
                     }
                 })?,
             )),
-            _ => unimplemented!("{:?} not yet supported", name),
+            _ => Err(XsdDatatypeError::UnsupportedDatatype {
+                span: ctx.convert_span(span),
+                name: name.to_string(),
+            }),
         }
     }
 
@@ -1454,15 +1457,9 @@ trait TryFromVal: Sized {
 pub struct QNameVal(String);
 impl TryFromVal for QNameVal {
     fn try_from_val(val: &str) -> Result<Self, ()> {
-        if let Some(pos) = val.find(':') {
-            let prefix = &val[0..pos];
-            let localname = &val[pos + 1..];
-            if is_valid_ncname(prefix) && is_valid_ncname(localname) {
-                unimplemented!("Need to be able to look up prefix {:?}", prefix);
-            //Ok(QNameVal(val.to_string()))
-            } else {
-                Err(())
-            }
+        if val.contains(':') {
+            // TODO: prefixes cannot be looked up here, so names with a prefix are not supported
+            Err(())
         } else if is_valid_ncname(val) {
             Ok(QNameVal(val.to_string()))
         } else {
-- 
2.43.0


From e67847de43bca7863899dbf578fffdfc05eae34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 32/77] fix: a pattern facet applies to the whole value

XSD regular expressions are implicitly anchored; a value was accepted when any part
of it matched.
---
 relaxng-model/src/datatype/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 9430ecd..7ae275a 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1443,7 +1443,7 @@ impl Compiler {
     }
 
     fn pattern(&self, ctx: &Context, param: &types::Param) -> Result<PatternFacet, FacetError> {
-        regex::Regex::new(&param.3.as_string_value())
+        regex::Regex::new(&format!("^(?:{})$", param.3.as_string_value()))
             .map(|re| PatternFacet(param.3.as_string_value(), re))
             .map_err(|e| FacetError::InvalidPattern(ctx.convert_span(&param.0), e))
     }
-- 
2.43.0


From 4134f4f61bf70d2d0b872fe329a5ec4d192c48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 33/77] fix: report facets which are given twice or together
 with 'length'

These, and a maxLength given before a minLength, panicked.
---
 relaxng-model/src/datatype/xsd.rs | 43 +++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 7ae275a..1c74c9d 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -291,15 +291,32 @@ impl LengthFacet {
                 }
                 LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
             },
-            LengthFacet::MaxLength(_) => {
-                unimplemented!()
-            }
-            LengthFacet::MinMaxLength(_, _) => {
-                unimplemented!()
-            }
-            LengthFacet::Length(_) => {
-                unimplemented!()
-            }
+            LengthFacet::MaxLength(max) => match other {
+                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
+                LengthFacet::MinLength(min) => {
+                    if min > *max {
+                        return Err(FacetError::ConflictingFacet(
+                            "minLength greater than maxLength",
+                        ));
+                    }
+                    LengthFacet::MinMaxLength(min, *max)
+                }
+                LengthFacet::MaxLength(_) => {
+                    return Err(FacetError::ConflictingFacet("maxLength"));
+                }
+                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
+            },
+            LengthFacet::MinMaxLength(_, _) => match other {
+                LengthFacet::Unbounded | LengthFacet::MinMaxLength(_, _) => unreachable!(),
+                LengthFacet::MinLength(_) => {
+                    return Err(FacetError::ConflictingFacet("minLength"));
+                }
+                LengthFacet::MaxLength(_) => {
+                    return Err(FacetError::ConflictingFacet("maxLength"));
+                }
+                LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
+            },
+            LengthFacet::Length(_) => return Err(FacetError::ConflictingFacet("length")),
         };
         Ok(())
     }
@@ -433,7 +450,7 @@ where
         }
         self.min = match self.min {
             Min::Unbounded => Min::Inclusive(val),
-            Min::Inclusive(_) => unreachable!(),
+            Min::Inclusive(_) => return Err(FacetError::ConflictingFacet("minInclusive")),
             Min::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "minInclusive conflicts with minExclusive",
@@ -467,7 +484,7 @@ where
                     "minExclusive conflicts with minInclusive",
                 ));
             }
-            Min::Exclusive(_) => unreachable!(),
+            Min::Exclusive(_) => return Err(FacetError::ConflictingFacet("minExclusive")),
         };
         Ok(())
     }
@@ -491,7 +508,7 @@ where
         }
         self.max = match self.max {
             Max::Unbounded => Max::Inclusive(val),
-            Max::Inclusive(_) => unreachable!(),
+            Max::Inclusive(_) => return Err(FacetError::ConflictingFacet("maxInclusive")),
             Max::Exclusive(_) => {
                 return Err(FacetError::ConflictingFacet(
                     "maxInclusive conflicts with maxExclusive",
@@ -525,7 +542,7 @@ where
                     "maxExclusive conflicts with maxInclusive",
                 ));
             }
-            Max::Exclusive(_) => unreachable!(),
+            Max::Exclusive(_) => return Err(FacetError::ConflictingFacet("maxExclusive")),
         };
         Ok(())
     }
-- 
2.43.0


From 50bbded8f40826bd236e003463692fbaadc27ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 34/77] fix: validate values of token, NMTOKEN and NMTOKENS

A document with such a value panicked.
---
 relaxng-model/src/datatype/xsd.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 1c74c9d..eaab919 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -122,16 +122,18 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
-            XsdDatatypes::NmTokens(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmTokens(len) => {
+                let tokens: Vec<&str> = value.split_ascii_whitespace().collect();
+                !tokens.is_empty()
+                    && len.is_valid_len(tokens.len())
+                    && tokens.iter().all(|token| is_valid_nmtoken(token))
             }
-            XsdDatatypes::NmToken(_len) => {
-                unimplemented!()
+            XsdDatatypes::NmToken(len) => {
+                let value = normalize_whitespace(value);
+                len.is_valid(&value) && is_valid_nmtoken(&value)
             }
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(_len) => {
-                unimplemented!()
-            }
+            XsdDatatypes::Token(len) => len.is_valid(&normalize_whitespace(value)),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
@@ -185,6 +187,11 @@ fn is_valid_ncname(text: &str) -> bool {
     }
 }
 
+// NameChar+; putting a NameStartChar before an NCName's characters makes it an NCName
+fn is_valid_nmtoken(text: &str) -> bool {
+    !text.is_empty() && is_valid_ncname(&format!("_{}", text.replace(':', "_")))
+}
+
 #[derive(PartialEq, Eq, Hash, Clone, Debug)]
 pub struct StringFacets {
     len: LengthFacet,
@@ -263,7 +270,10 @@ pub enum LengthFacet {
 }
 impl LengthFacet {
     fn is_valid(&self, value: &str) -> bool {
-        let actual = value.chars().count();
+        self.is_valid_len(value.chars().count())
+    }
+
+    fn is_valid_len(&self, actual: usize) -> bool {
         match self {
             LengthFacet::Unbounded => true,
             LengthFacet::MinLength(min) => *min <= actual,
-- 
2.43.0


From 706a96da08df45b3766c7d248981667844208ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 35/77] fix: zero is not a positiveInteger

---
 relaxng-model/src/datatype/xsd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index eaab919..25828af 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -108,7 +108,7 @@ impl super::Datatype for XsdDatatypes {
             XsdDatatypes::PositiveInteger(min_max, patt) => {
                 num_bigint::BigUint::from_str(value)
                     .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                    .is_some_and(|v| v > num_bigint::BigUint::from(0u8) && min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
-- 
2.43.0


From 30d931d0a84b237b8308b64e20ed7872523c4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 36/77] fix: enforce the fractionDigits and totalDigits facets
 of decimal

---
 relaxng-model/src/datatype/xsd.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 25828af..6374513 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -114,12 +114,14 @@ impl super::Datatype for XsdDatatypes {
             XsdDatatypes::Decimal {
                 min_max,
                 pattern: pat,
-                fraction_digits: _,
-                total_digits: _,
+                fraction_digits,
+                total_digits,
             } => {
-                bigdecimal::BigDecimal::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                bigdecimal::BigDecimal::from_str(value).ok().is_some_and(|v| {
+                    min_max.is_valid(&v)
+                        && fraction_digits.is_none_or(|max| decimal_digits(&v).1 <= u64::from(max))
+                        && total_digits.is_none_or(|max| decimal_digits(&v).0 <= u64::from(max))
+                })
                     && pat.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::NmTokens(len) => {
@@ -180,6 +182,17 @@ impl super::Datatype for XsdDatatypes {
     }
 }
 
+// The number of digits needed to write the given value, in total and after the decimal point
+fn decimal_digits(value: &bigdecimal::BigDecimal) -> (u64, u64) {
+    let (digits, exponent) = value.normalized().into_bigint_and_exponent();
+    let count = digits.magnitude().to_string().len() as u64;
+    if exponent < 0 {
+        (count + exponent.unsigned_abs(), 0)
+    } else {
+        (count.max(exponent as u64), exponent as u64)
+    }
+}
+
 fn is_valid_ncname(text: &str) -> bool {
     match relaxng_syntax::compact::nc_name(relaxng_syntax::compact::Span::new(text)) {
         Ok((rest, _name)) => rest.fragment().is_empty(),
-- 
2.43.0


From db4580fff35bd253cd08195385eb6e223c2e2edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 37/77] fix: normalise the whitespace of XSD values as their
 types prescribe

Whitespace is collapsed for all types but string, for which it is significant, and
normalizedString, for which each whitespace character is replaced by a space.
Only normalizedString had its whitespace collapsed.
---
 relaxng-model/src/datatype/xsd.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 6374513..d81ea27 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -69,9 +69,17 @@ pub enum XsdDatatypes {
 }
 impl super::Datatype for XsdDatatypes {
     fn is_valid(&self, value: &str) -> bool {
+        let collapsed;
+        let value = match self {
+            XsdDatatypes::NormalizedString(_) | XsdDatatypes::String(_) => value,
+            _ => {
+                collapsed = normalize_whitespace(value);
+                &collapsed[..]
+            }
+        };
         match self {
             XsdDatatypes::NormalizedString(str_facets) => {
-                let normal_val = super::relax::normalize_whitespace(value);
+                let normal_val = value.replace(['\t', '\n', '\r'], " ");
                 str_facets.is_valid(&normal_val)
             }
             XsdDatatypes::String(str_facets) => str_facets.is_valid(value),
@@ -130,12 +138,9 @@ impl super::Datatype for XsdDatatypes {
                     && len.is_valid_len(tokens.len())
                     && tokens.iter().all(|token| is_valid_nmtoken(token))
             }
-            XsdDatatypes::NmToken(len) => {
-                let value = normalize_whitespace(value);
-                len.is_valid(&value) && is_valid_nmtoken(&value)
-            }
+            XsdDatatypes::NmToken(len) => len.is_valid(value) && is_valid_nmtoken(value),
             XsdDatatypes::NcName(len) => len.is_valid(value) && is_valid_ncname(value),
-            XsdDatatypes::Token(len) => len.is_valid(&normalize_whitespace(value)),
+            XsdDatatypes::Token(len) => len.is_valid(value),
             XsdDatatypes::Duration(patt) => {
                 DURATION_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
-- 
2.43.0


From 6168975de8ae588787694a4e7de87166574438dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 38/77] fix: report documents which cannot be read instead of
 panicking

---
 relaxng-tool/src/main.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-tool/src/main.rs b/relaxng-tool/src/main.rs
index 7028499..7835731 100644
--- a/relaxng-tool/src/main.rs
+++ b/relaxng-tool/src/main.rs
@@ -29,9 +29,11 @@ fn validate(schema: PathBuf, xmls: Vec<PathBuf>) {
         }
     };
     for xml in xmls {
-        let mut f = File::open(&xml).expect("open example xml");
         let mut doc = String::new();
-        f.read_to_string(&mut doc).expect("read xml");
+        if let Err(err) = File::open(&xml).and_then(|mut f| f.read_to_string(&mut doc)) {
+            eprintln!("Can't read {xml:?}: {err}");
+            exit(2);
+        }
         let src = doc.clone();
         let reader = xmlparser::Tokenizer::from(&src[..]);
         let mut v = Validator::new(model.clone(), reader);
-- 
2.43.0


From 1cab8846a234afb19f615d3c231c15dec696121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 39/77] fix: support 'inherit' in external patterns

---
 relaxng-model/src/lib.rs | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 7f0949c..5abce99 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1439,6 +1439,23 @@ impl<FS: Files> Compiler<FS> {
         }
         Ok(())
     }
+    // makes the namespace with the given prefix in ctx the default namespace of inc_ctx
+    fn inherit_namespace(
+        ctx: &Context,
+        inc_ctx: &mut Context,
+        inherit: &types::Inherit,
+    ) -> Result<(), RelaxError> {
+        let prefix = inherit.0.to_string();
+        let namespace_uri = ctx
+            .namespace_uri_for_prefix_str(&prefix)
+            .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
+                span: ctx.convert_span(&inherit.0.span()),
+                prefix: prefix.clone(),
+            })?
+            .to_string();
+        inc_ctx.declare_default_namespace(namespace_uri.clone());
+        inc_ctx.declare_namespace(prefix, namespace_uri)
+    }
     fn compile_include(
         &mut self,
         ctx: &mut Context,
@@ -1461,16 +1478,7 @@ impl<FS: Files> Compiler<FS> {
         let mut inc_ctx = ctx.new_include(span, file)?;
 
         if let Some(ref inherit) = inc.1 {
-            let prefix = inherit.0.to_string();
-            let namespace_uri = ctx
-                .namespace_uri_for_prefix_str(&prefix)
-                .ok_or_else(|| RelaxError::UndefinedNamespacePrefix {
-                    span: ctx.convert_span(&inherit.0.span()),
-                    prefix: prefix.clone(),
-                })?
-                .to_string();
-            inc_ctx.declare_default_namespace(namespace_uri.clone());
-            inc_ctx.declare_namespace(prefix, namespace_uri)?;
+            Self::inherit_namespace(ctx, &mut inc_ctx, inherit)?;
         }
 
         // replace any definitions for which the including file provides an override
@@ -1755,9 +1763,6 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        if external.1.is_some() {
-            unimplemented!("inherit");
-        }
         let path = Path::new(ctx.file().name())
             .parent()
             .expect("TODO: no parent?")
@@ -1768,6 +1773,9 @@ impl<FS: Files> Compiler<FS> {
             .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
         let file_span = file.span;
         let mut inc_ctx = ctx.new_include(span, file)?;
+        if let Some(ref inherit) = external.1 {
+            Self::inherit_namespace(ctx, &mut inc_ctx, inherit)?;
+        }
         for dec in s.decls.iter() {
             self.compile_declaration(&mut inc_ctx, dec)
                 .map_err(|e| RelaxError::IncludeError(span, Box::new(e)))?;
-- 
2.43.0


From db5bfb9c6d9e7fa7a930e53910dd04859fde458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 40/77] fix: support namespace declarations with 'inherit'

The inherited namespace is the default namespace of the including file, and no
namespace for the top-level schema.  Such declarations panicked.
---
 relaxng-model/src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 5abce99..bbd363e 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -2013,9 +2013,14 @@ impl<FS: Files> Compiler<FS> {
         match dec {
             types::Decl::DefaultNamespace(types::DefaultNamespaceDeclaration { prefix, uri }) => {
                 match uri {
-                    NamespaceUriLiteral::Inherit => {
-                        panic!("Can't inherit namespace {prefix:?} at top level, I think?")
-                    }
+                    // what is inherited is the default namespace already
+                    NamespaceUriLiteral::Inherit => match prefix {
+                        Some(p) => {
+                            let uri = ctx.default_namespace_uri().to_string();
+                            ctx.declare_namespace(p.clone(), uri)
+                        }
+                        None => Ok(()),
+                    },
                     NamespaceUriLiteral::Uri(uri) => {
                         ctx.declare_default_namespace(uri.as_string_value());
                         if let Some(p) = prefix {
@@ -2028,7 +2033,8 @@ impl<FS: Files> Compiler<FS> {
             }
             types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
                 NamespaceUriLiteral::Inherit => {
-                    panic!("Can't inherit namespace {prefix:?} at top level, I think?")
+                    let uri = ctx.default_namespace_uri().to_string();
+                    ctx.declare_namespace(prefix.clone(), uri)
                 }
                 NamespaceUriLiteral::Uri(uri) => {
                     ctx.declare_namespace(prefix.clone(), uri.as_string_value())
-- 
2.43.0


From bc28921b4af21fe8927941e09b8ad6257a00c4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 41/77] fix: patterns which refer to enclosing nullable
 definitions are nullable

The flag was computed while the reference was still unresolved.  Within element
content it is computed again when the start tag closes, but not in the start
pattern.
---
 relaxng-validator/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 3a96546..997d988 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -533,11 +533,14 @@ impl<'a> Validator<'a> {
         model: Rc<RefCell<Option<model::DefineRule>>>,
         tokenizer: Tokenizer<'a>,
     ) -> Validator<'a> {
-        let schema = Schema::default();
+        let mut schema = Schema::default();
         let start = Self::compile(
             &schema,
             Rc::as_ref(&model).borrow().as_ref().unwrap().pattern(),
         );
+        // a pattern compiled while one of its references was still a placeholder may not be marked
+        // as nullable although it is; this rebuilds it
+        let start = Self::start_tag_close_deriv(start, &mut schema);
         let mut entity_definitions = HashMap::default();
         entity_definitions.insert("lt".to_string(), "<".to_string());
         entity_definitions.insert("gt".to_string(), ">".to_string());
-- 
2.43.0


From d0957c298e9690a21b03baec71995150988b46d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 42/77] fix: only XML whitespace separates the items of a list

A no-break space, for one, is part of a token.
---
 relaxng-validator/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 997d988..47ced95 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -929,7 +929,7 @@ impl<'a> Validator<'a> {
             }
             Pat::List(p) => {
                 let mut p = p;
-                for item in text.split_whitespace() {
+                for item in text.split_ascii_whitespace() {
                     let pat = schema.patt(p);
                     p = Self::text_deriv(pat, schema, item);
                     if let Pat::NotAllowed = schema.patt(p) {
-- 
2.43.0


From fa36fa317726e61536e222313e4d7e5a2e00b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:23 +0000
Subject: [PATCH 43/77] fix: an inherited namespace does not replace a prefix
 of the included file

---
 relaxng-model/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index bbd363e..6c9e96b 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1453,8 +1453,8 @@ impl<FS: Files> Compiler<FS> {
                 prefix: prefix.clone(),
             })?
             .to_string();
-        inc_ctx.declare_default_namespace(namespace_uri.clone());
-        inc_ctx.declare_namespace(prefix, namespace_uri)
+        inc_ctx.declare_default_namespace(namespace_uri);
+        Ok(())
     }
     fn compile_include(
         &mut self,
-- 
2.43.0


From a9961531c72b04083f9faf3ffbbf10e64bd1682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:47 +0000
Subject: [PATCH 44/77] fix: reject two different declarations of a namespace
 prefix

---
 relaxng-model/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 6c9e96b..298f471 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -374,12 +374,18 @@ impl<'a> Context<'a> {
     fn declare_namespace(&mut self, prefix: String, uri: String) -> Result<(), RelaxError> {
         match self {
             Context::Root { namespaces, .. } | Context::Include { namespaces, .. } => {
-                if let Some(_old_uri) = namespaces.get(&prefix) {
-                    //Err(RelaxError::NamespacePrefixAlreadyDefined { span: self.convert_span(), prefix })
-                    Ok(())
-                } else {
-                    namespaces.insert(prefix, uri);
-                    Ok(())
+                match namespaces.get(&prefix) {
+                    // e.g. the predefined 'xml' may be declared again
+                    Some(old_uri) if *old_uri == uri => Ok(()),
+                    Some(_) => Err(RelaxError::NamespacePrefixAlreadyDefined {
+                        // TODO: use the span of the declaration, once it has one
+                        span: self.convert_span(&(0..0)),
+                        prefix,
+                    }),
+                    None => {
+                        namespaces.insert(prefix, uri);
+                        Ok(())
+                    }
                 }
             }
             Context::IncludeOverrides { .. }
-- 
2.43.0


From e9760ac652fafbf27873419801e73aeab6732331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 45/77] fix: 'inherit' stands for the namespace of the
 including file also after a default namespace declaration

---
 relaxng-model/src/lib.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 298f471..2004f82 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -183,6 +183,8 @@ enum Context<'a> {
         // a name that's not defined in the include)
         overrides: RefCell<HashMap<String, (codemap::Span, bool)>>,
         namespaces: HashMap<String, String>,
+        // what 'inherit' stands for in the declarations of the file
+        inherited_namespace: String,
         default_namespace: String,
         datatypes: HashMap<String, String>,
     },
@@ -256,6 +258,7 @@ impl<'a> Context<'a> {
             file,
             overrides: RefCell::new(HashMap::new()),
             namespaces,
+            inherited_namespace: self.default_namespace_uri().to_string(),
             // applies unless the included file has a 'default namespace' declaration of its own
             default_namespace: self.default_namespace_uri().to_string(),
             datatypes,
@@ -353,6 +356,17 @@ impl<'a> Context<'a> {
         }
     }
 
+    /// What 'inherit' stands for in a namespace declaration of the current file
+    fn inherited_namespace_uri(&self) -> &str {
+        match self {
+            Context::Include {
+                inherited_namespace,
+                ..
+            } => &inherited_namespace[..],
+            _ => "",
+        }
+    }
+
     fn declare_default_namespace(&mut self, uri: String) {
         match self {
             Context::Root {
@@ -1459,6 +1473,13 @@ impl<FS: Files> Compiler<FS> {
                 prefix: prefix.clone(),
             })?
             .to_string();
+        if let Context::Include {
+            inherited_namespace,
+            ..
+        } = inc_ctx
+        {
+            *inherited_namespace = namespace_uri.clone();
+        }
         inc_ctx.declare_default_namespace(namespace_uri);
         Ok(())
     }
@@ -2022,7 +2043,7 @@ impl<FS: Files> Compiler<FS> {
                     // what is inherited is the default namespace already
                     NamespaceUriLiteral::Inherit => match prefix {
                         Some(p) => {
-                            let uri = ctx.default_namespace_uri().to_string();
+                            let uri = ctx.inherited_namespace_uri().to_string();
                             ctx.declare_namespace(p.clone(), uri)
                         }
                         None => Ok(()),
@@ -2039,7 +2060,7 @@ impl<FS: Files> Compiler<FS> {
             }
             types::Decl::Namespace(types::NamespaceDeclaration { prefix, uri }) => match uri {
                 NamespaceUriLiteral::Inherit => {
-                    let uri = ctx.default_namespace_uri().to_string();
+                    let uri = ctx.inherited_namespace_uri().to_string();
                     ctx.declare_namespace(prefix.clone(), uri)
                 }
                 NamespaceUriLiteral::Uri(uri) => {
-- 
2.43.0


From b28f7c4c146831e910e9af11d6e894140a31ba84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 46/77] fix: xsd:integer and xsd:positiveInteger do not allow
 underscores between digits

---
 relaxng-model/src/datatype/xsd.rs | 39 ++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index d81ea27..f53d1fd 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -29,6 +29,7 @@ impl super::Datatype for XsdDatatypeValues {
 }
 
 lazy_static! {
+    static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
     static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
     static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
@@ -108,15 +109,17 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Integer(min_max, patt) => {
-                num_bigint::BigInt::from_str(value)
-                    .ok()
-                    .is_some_and(|v| min_max.is_valid(&v))
+                INTEGER_RE.is_match(value)
+                    && num_bigint::BigInt::from_str(value)
+                        .ok()
+                        .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::PositiveInteger(min_max, patt) => {
-                num_bigint::BigUint::from_str(value)
-                    .ok()
-                    .is_some_and(|v| v > num_bigint::BigUint::from(0u8) && min_max.is_valid(&v))
+                INTEGER_RE.is_match(value)
+                    && num_bigint::BigUint::from_str(value)
+                        .ok()
+                        .is_some_and(|v| v > num_bigint::BigUint::from(0u8) && min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Decimal {
@@ -1445,20 +1448,28 @@ impl Compiler {
     }
 
     fn bigint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigInt, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
+        let text = param.3.as_string_value();
+        if !INTEGER_RE.is_match(&text) {
+            return Err(FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "invalid digit found in string".to_string(),
+            ));
+        }
+        text.parse()
             .map_err(|e: num_bigint::ParseBigIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
             })
     }
 
     fn biguint(ctx: &Context, param: &types::Param) -> Result<num_bigint::BigUint, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
+        let text = param.3.as_string_value();
+        if !INTEGER_RE.is_match(&text) {
+            return Err(FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "invalid digit found in string".to_string(),
+            ));
+        }
+        text.parse()
             .map_err(|e: num_bigint::ParseBigIntError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
             })
-- 
2.43.0


From 038148d3861ce3c741e6da4949a7f80e6af0e869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 47/77] fix: xsd:decimal does not allow an exponent or
 underscores

---
 relaxng-model/src/datatype/xsd.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index f53d1fd..c05ddf1 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -29,6 +29,7 @@ impl super::Datatype for XsdDatatypeValues {
 }
 
 lazy_static! {
+    static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$").unwrap();
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
     static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
@@ -128,7 +129,7 @@ impl super::Datatype for XsdDatatypes {
                 fraction_digits,
                 total_digits,
             } => {
-                bigdecimal::BigDecimal::from_str(value).ok().is_some_and(|v| {
+                DECIMAL_RE.is_match(value) && bigdecimal::BigDecimal::from_str(value).ok().is_some_and(|v| {
                     min_max.is_valid(&v)
                         && fraction_digits.is_none_or(|max| decimal_digits(&v).1 <= u64::from(max))
                         && total_digits.is_none_or(|max| decimal_digits(&v).0 <= u64::from(max))
@@ -1479,10 +1480,14 @@ impl Compiler {
         ctx: &Context,
         param: &types::Param,
     ) -> Result<bigdecimal::BigDecimal, FacetError> {
-        param
-            .3
-            .as_string_value()
-            .parse()
+        let text = param.3.as_string_value();
+        if !DECIMAL_RE.is_match(&text) {
+            return Err(FacetError::InvalidInt(
+                ctx.convert_span(&param.0),
+                "invalid digit found in string".to_string(),
+            ));
+        }
+        text.parse()
             .map_err(|e: bigdecimal::ParseBigDecimalError| {
                 FacetError::InvalidInt(ctx.convert_span(&param.0), e.to_string())
             })
-- 
2.43.0


From c4a4542a0971d4681476d577f8e84487123103fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 48/77] fix: xsd:double allows INF, -INF and NaN, in that
 spelling only

---
 relaxng-model/src/datatype/xsd.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index c05ddf1..dc30f53 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -29,6 +29,7 @@ impl super::Datatype for XsdDatatypeValues {
 }
 
 lazy_static! {
+    static ref DOUBLE_RE: regex::Regex = regex::Regex::new(r"^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN)$").unwrap();
     static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$").unwrap();
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
@@ -158,7 +159,8 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Double(patt) => {
-                value.parse::<f64>().is_ok()
+                DOUBLE_RE.is_match(value)
+                    && value.parse::<f64>().is_ok()
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
-- 
2.43.0


From b35f4fbeb23724b7050ca8d56813e26446ab3403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 49/77] fix: xsd:date has four digits of year, two of month and
 day, and a time zone

---
 relaxng-model/src/datatype/xsd.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index dc30f53..136f248 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -28,7 +28,14 @@ impl super::Datatype for XsdDatatypeValues {
     }
 }
 
+const TIMEZONE: &str = "(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?";
+// a day of the calendar, by the length of its month; any year has at least four digits
+const DATE: &str = "-?([1-9][0-9]*)?([0-9]{4}-((0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])\
+    |(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8]))\
+    |([0-9]{2}(0[48]|[2468][048]|[13579][26])|([02468][048]|[13579][26])00)-02-29)";
+
 lazy_static! {
+    static ref DATE_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}{TIMEZONE}$")).unwrap();
     static ref DOUBLE_RE: regex::Regex = regex::Regex::new(r"^([+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|-?INF|NaN)$").unwrap();
     static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$").unwrap();
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
@@ -151,7 +158,7 @@ impl super::Datatype for XsdDatatypes {
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Date(patt) => {
-                chrono::NaiveDate::parse_from_str(value, "%Y-%m-%d").is_ok()
+                DATE_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::Datetime(patt) => {
-- 
2.43.0


From 0150474624b5809f019c875454af532ead2dda03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 50/77] fix: xsd:dateTime checks the calendar and clock, and
 allows fractional seconds and time zones

---
 relaxng-model/src/datatype/xsd.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index 136f248..ae2c8da 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -29,6 +29,7 @@ impl super::Datatype for XsdDatatypeValues {
 }
 
 const TIMEZONE: &str = "(Z|[+-]((0[0-9]|1[0-3]):[0-5][0-9]|14:00))?";
+const TIME: &str = r"(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:00(\.0+)?)";
 // a day of the calendar, by the length of its month; any year has at least four digits
 const DATE: &str = "-?([1-9][0-9]*)?([0-9]{4}-((0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])\
     |(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8]))\
@@ -40,7 +41,7 @@ lazy_static! {
     static ref DECIMAL_RE: regex::Regex = regex::Regex::new(r"^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$").unwrap();
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
-    static ref DATETIME_RE: regex::Regex = regex::Regex::new(r"^-?\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}(?:Z(?:(?:\+|-)\d{2}:\d{2})?)?$").unwrap();
+    static ref DATETIME_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}T{TIME}{TIMEZONE}$")).unwrap();
     static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
 }
 
-- 
2.43.0


From 2ca284f447e24f441c17270b06dfbb874fd10923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 51/77] fix: xsd:duration has its parts in order, at least one
 of them, and may be negative

---
 relaxng-model/src/datatype/xsd.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index ae2c8da..f8ca67d 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -34,6 +34,9 @@ const TIME: &str = r"(([01][0-9]|2[0-3]):[0-5][0-9]:[0-5][0-9](\.[0-9]+)?|24:00:
 const DATE: &str = "-?([1-9][0-9]*)?([0-9]{4}-((0[13578]|1[02])-(0[1-9]|[12][0-9]|3[01])\
     |(0[469]|11)-(0[1-9]|[12][0-9]|30)|02-(0[1-9]|1[0-9]|2[0-8]))\
     |([0-9]{2}(0[48]|[2468][048]|[13579][26])|([02468][048]|[13579][26])00)-02-29)";
+// the parts of a duration, at least one of which has to be there
+const DURATION_DATE: &str = "[0-9]+Y([0-9]+M)?([0-9]+D)?|[0-9]+M([0-9]+D)?|[0-9]+D";
+const DURATION_TIME: &str = r"[0-9]+H([0-9]+M)?([0-9]+(\.[0-9]+)?S)?|[0-9]+M([0-9]+(\.[0-9]+)?S)?|[0-9]+(\.[0-9]+)?S";
 
 lazy_static! {
     static ref DATE_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}{TIMEZONE}$")).unwrap();
@@ -42,7 +45,7 @@ lazy_static! {
     static ref INTEGER_RE: regex::Regex = regex::Regex::new(r"^[+-]?[0-9]+$").unwrap();
     static ref LANG_RE: regex::Regex = regex::Regex::new(r"^[a-zA-Z]{1,8}(-[a-zA-Z0-9]{1,8})*$").unwrap();
     static ref DATETIME_RE: regex::Regex = regex::Regex::new(&format!("^{DATE}T{TIME}{TIMEZONE}$")).unwrap();
-    static ref DURATION_RE: regex::Regex = regex::Regex::new(r"^P(([0-9]+([.,][0-9]*)?Y)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?D)?T?([0-9]+([.,][0-9]*)?H)?([0-9]+([.,][0-9]*)?M)?([0-9]+([.,][0-9]*)?S)?)|\d{4}-?(0[1-9]|11|12)-?(?:[0-2]\d|30|31)T((?:[0-1][0-9]|[2][0-3]):?(?:[0-5][0-9]):?(?:[0-5][0-9]|60)|2400|24:00)$").unwrap();
+    static ref DURATION_RE: regex::Regex = regex::Regex::new(&format!("^-?P(({DURATION_DATE})(T({DURATION_TIME}))?|T({DURATION_TIME}))$")).unwrap();
 }
 
 // TODO: actually apply all required facets to each datatype
-- 
2.43.0


From b3b2f51c4b354c3a7fd3b41c55a6ca0d74d009ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 52/77] fix: xsd:ID and xsd:IDREF are NCNames

---
 relaxng-model/src/datatype/xsd.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index f8ca67d..d0a5b59 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -198,8 +198,14 @@ impl super::Datatype for XsdDatatypes {
                     .is_some_and(|v| min_max.is_valid(&v))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
-            XsdDatatypes::Id(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
-            XsdDatatypes::IdRef(patt) => patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true),
+            XsdDatatypes::Id(patt) => {
+                is_valid_ncname(value)
+                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+            }
+            XsdDatatypes::IdRef(patt) => {
+                is_valid_ncname(value)
+                    && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
+            }
         }
     }
 }
-- 
2.43.0


From 05c95f5fe4b77ff77bbce946a6a0444e15240f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 53/77] fix: xsd:double bounds were not applied

---
 relaxng-model/src/datatype/xsd.rs | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index d0a5b59..df67d86 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -67,7 +67,7 @@ pub enum XsdDatatypes {
         fraction_digits: Option<u16>,
         total_digits: Option<u16>,
     },
-    Double(Option<PatternFacet>),
+    Double(MinMaxFacet<DoubleVal>, Option<PatternFacet>),
     NmTokens(LengthFacet),
     NmToken(LengthFacet),
     NcName(LengthFacet),
@@ -169,9 +169,11 @@ impl super::Datatype for XsdDatatypes {
                 DATETIME_RE.is_match(value)
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
-            XsdDatatypes::Double(patt) => {
+            XsdDatatypes::Double(min_max, patt) => {
                 DOUBLE_RE.is_match(value)
-                    && value.parse::<f64>().is_ok()
+                    && f64::from_str(value)
+                        .ok()
+                        .is_some_and(|v| min_max.is_valid(&DoubleVal(v)))
                     && patt.as_ref().map(|p| p.1.is_match(value)).unwrap_or(true)
             }
             XsdDatatypes::AnyURI(patt) => {
@@ -603,6 +605,17 @@ where
     }
 }
 
+/// The value of an `xsd:double` facet; these are finite, so that equality is an equivalence
+#[derive(PartialEq, PartialOrd, Clone, Copy, Debug)]
+pub struct DoubleVal(f64);
+impl Eq for DoubleVal {}
+impl std::hash::Hash for DoubleVal {
+    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
+        // 0.0 and -0.0 are equal
+        (self.0 + 0.0).to_bits().hash(state)
+    }
+}
+
 #[derive(Clone)]
 pub struct PatternFacet(String, regex::Regex);
 impl PartialEq for PatternFacet {
@@ -1106,7 +1119,7 @@ impl Compiler {
             }
         }
 
-        Ok(XsdDatatypes::Double(pattern))
+        Ok(XsdDatatypes::Double(min_max, pattern))
     }
 
     fn nmtokens(&self, ctx: &Context, params: &[types::Param]) -> Result<XsdDatatypes, FacetError> {
@@ -1447,7 +1460,7 @@ impl Compiler {
             })
     }
 
-    fn f64(ctx: &Context, param: &types::Param) -> Result<f64, FacetError> {
+    fn f64(ctx: &Context, param: &types::Param) -> Result<DoubleVal, FacetError> {
         param
             .3
             .as_string_value()
@@ -1457,7 +1470,7 @@ impl Compiler {
             })
             .and_then(|v: f64| {
                 if v.is_finite() {
-                    Ok(v)
+                    Ok(DoubleVal(v))
                 } else {
                     Err(FacetError::InvalidFloat(
                         ctx.convert_span(&param.0),
-- 
2.43.0


From 45054dadf3c176877a85607bb76f08c00e5dae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:17 +0000
Subject: [PATCH 54/77] fix: fractionDigits and totalDigits given twice, or
 contradicting each other, were accepted

---
 relaxng-model/src/datatype/xsd.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index df67d86..a0b2196 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1081,8 +1081,18 @@ impl Compiler {
                 "maxInclusive" => min_max.max_inclusive(Self::bigdecimal(ctx, param)?)?,
                 "maxExclusive" => min_max.max_exclusive(Self::bigdecimal(ctx, param)?)?,
                 "pattern" => pattern = Some(self.pattern(ctx, param)?),
-                "fractionDigits" => fraction_digits = Some(Self::u16(ctx, param)?),
-                "totalDigits" => total_digits = Some(Self::u16(ctx, param)?),
+                "fractionDigits" => {
+                    if fraction_digits.is_some() {
+                        return Err(FacetError::ConflictingFacet("fractionDigits"));
+                    }
+                    fraction_digits = Some(Self::u16(ctx, param)?)
+                }
+                "totalDigits" => {
+                    if total_digits.is_some() {
+                        return Err(FacetError::ConflictingFacet("totalDigits"));
+                    }
+                    total_digits = Some(Self::u16(ctx, param)?)
+                }
                 _ => {
                     return Err(FacetError::InvalidFacet(
                         ctx.convert_span(&param.0),
@@ -1091,6 +1101,13 @@ impl Compiler {
                 }
             }
         }
+        if let (Some(fraction), Some(total)) = (fraction_digits, total_digits) {
+            if fraction > total {
+                return Err(FacetError::ConflictingFacet(
+                    "fractionDigits greater than totalDigits",
+                ));
+            }
+        }
 
         Ok(XsdDatatypes::Decimal {
             min_max,
-- 
2.43.0


From a599525416d5eedffa91685af35297c72dd0d6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 55/77] fix: xsd:QName values are compared without the white
 space around them

---
 relaxng-model/src/datatype/xsd.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/datatype/xsd.rs b/relaxng-model/src/datatype/xsd.rs
index a0b2196..2c1b8e8 100644
--- a/relaxng-model/src/datatype/xsd.rs
+++ b/relaxng-model/src/datatype/xsd.rs
@@ -1567,11 +1567,12 @@ trait TryFromVal: Sized {
 pub struct QNameVal(String);
 impl TryFromVal for QNameVal {
     fn try_from_val(val: &str) -> Result<Self, ()> {
+        let val = normalize_whitespace(val);
         if val.contains(':') {
             // TODO: prefixes cannot be looked up here, so names with a prefix are not supported
             Err(())
-        } else if is_valid_ncname(val) {
-            Ok(QNameVal(val.to_string()))
+        } else if is_valid_ncname(&val) {
+            Ok(QNameVal(val))
         } else {
             Err(())
         }
-- 
2.43.0


From 0170e4d9a7d4439c3513537363e08bf8972dbf9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:12 +0000
Subject: [PATCH 56/77] fix: ns and datatypeLibrary attributes were refused on
 some elements of the XML syntax

---
 relaxng-syntax/src/xml.rs | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 703ae92..e836223 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -509,12 +509,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
             })
         }
     };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "type" && a.name() != "datatypeLibrary")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
 
     let (params, rest) = if let Some(child) = first_rng_child(node) {
         params(child)?
@@ -667,12 +662,7 @@ fn start(node: Node) -> Result<Define> {
     } else {
         AssignMethod::Assign
     };
-    if let Some(a) = node
-        .attributes()
-        .find(|a| is_rng_att(a) && a.name() != "combine")
-    {
-        return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
-    }
+    no_attrs_except(node, &["combine", "ns", "datatypeLibrary"])?;
     // we just produce another 'Define' named "start", rather than using a dedicated 'Start' type,
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
@@ -983,12 +973,9 @@ fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
 
+/// No attributes other than those which every RELAX NG element may have
 fn no_attrs(node: Node) -> Result<()> {
-    if let Some(att) = node.attributes().find(|a| is_rng_att(a)) {
-        Err(Error::Unexpected(att.range(), "Unexpected attribute"))
-    } else {
-        Ok(())
-    }
+    no_attrs_except(node, &["ns", "datatypeLibrary"])
 }
 
 fn no_rng_element_children(node: Node) -> Result<()> {
-- 
2.43.0


From f577753333c9c82a6bab5fa269a40c2691d7188e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 57/77] fix: text in the XML syntax ended at the first comment

---
 relaxng-syntax/src/xml.rs | 44 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 27 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index e836223..f969df4 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -466,21 +466,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
         .attribute_node("type")
         .map(|attr| ncname(attr.range_value(), attr.value()))
         .transpose()?;
-    let val = if let Some(child) = node.first_child() {
-        let seg = LiteralSegment {
-            body: child
-                .text()
-                .ok_or(Error::Expected(node.range(), "Text content"))?
-                .to_string(),
-        };
-        Literal(child.range(), vec![seg])
-    } else {
-        // treat the value as ""
-        let seg = LiteralSegment {
-            body: "".to_string(),
-        };
-        Literal(node.range(), vec![seg])
-    };
+    let val = text_content(node);
     Ok(DatatypeValuePattern(
         type_name.map(|name| {
             DatatypeName::NamespacedName(NamespacedName {
@@ -571,16 +557,8 @@ fn param(node: Node) -> Result<Param> {
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
     let name = attr_ncname(&name)?;
 
-    let child = node
-        .first_child()
-        .ok_or(Error::Expected(node.range(), "Text content"))?;
-    let seg = LiteralSegment {
-        body: child
-            .text()
-            .ok_or(Error::Expected(node.range(), "Text content"))?
-            .to_string(),
-    };
-    let val = Literal(child.range(), vec![seg]);
+    no_element_children(node)?;
+    let val = text_content(node);
 
     Ok(Param(
         node.range(),
@@ -590,6 +568,16 @@ fn param(node: Node) -> Result<Param> {
     ))
 }
 
+/// The text directly within the given element, without any comments and processing instructions.
+fn text_content(node: Node) -> Literal {
+    let span = match (node.first_child(), node.last_child()) {
+        (Some(first), Some(last)) => first.range().start..last.range().end,
+        _ => node.range(),
+    };
+    let text = node.children().filter(|child| child.is_text());
+    Literal::new(span, text.filter_map(|child| child.text()).collect())
+}
+
 fn not_allowed(node: Node) -> Result<Pattern> {
     no_attrs(node)?;
     no_rng_element_children(node)?;
@@ -836,7 +824,9 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name>
 
 fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
-    if let Some(val) = name.text() {
+    let text = text_content(name);
+    let val = text.as_string_value();
+    if !val.is_empty() {
         if let Some(pos) = val.find(':') {
             let start = name.range().start;
             let end = name.range().end;
@@ -852,7 +842,7 @@ fn qname_el(name: Node) -> Result<Name> {
             }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(name.first_child().unwrap().range(), val)?;
+            let localname = ncname(text.0, &val)?;
             Ok(Name::NamespacedName(NamespacedName {
                 namespace_uri: ns,
                 localname,
-- 
2.43.0


From aaa0da6cbe992354bc3c4e303a2a575cc9b97c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:14 +0000
Subject: [PATCH 58/77] fix: a definition which nothing uses was refused for
 referring to itself

---
 relaxng-model/src/lib.rs | 29 -----------------------------
 1 file changed, 29 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 2004f82..981df68 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -592,7 +592,6 @@ impl<'a> Context<'a> {
     }
 
     fn acquire_ref(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
-        self.check_ref_recursion(ref_id)?;
         self.acquire_ref_impl(ref_id)
     }
     fn acquire_ref_impl(&self, ref_id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
@@ -629,34 +628,6 @@ impl<'a> Context<'a> {
             Context::Grammar { parent, .. } => parent.acquire_ref(id),
         }
     }
-    /// Given the identifier if a reference, checks that the current context is not actually the
-    /// definition of that same name.
-    ///
-    /// Such recursive references are allowed if the definition body includes an element, and the
-    /// recursive reference is within the body of that element.
-    fn check_ref_recursion(&self, ref_id: &types::Identifier) -> Result<(), RelaxError> {
-        match self {
-            Context::Root { .. } => Ok(()),
-            Context::Include { .. } => Ok(()),
-            Context::IncludeOverrides { .. } => Ok(()),
-            Context::Grammar { .. } => Ok(()),
-            Context::Define { id, .. } => {
-                if id.1 == ref_id.1 {
-                    Err(RelaxError::RecursiveReference {
-                        ref_id: ref_id.1.clone(),
-                        ref_span: self.convert_span(&ref_id.0),
-                        def_id: id.1.clone(),
-                        def_span: self.convert_span(&id.0),
-                    })
-                } else {
-                    Ok(())
-                }
-            }
-            Context::Element { .. } => Ok(()),
-            Context::Attribute { parent, .. } => parent.check_ref_recursion(ref_id),
-        }
-    }
-
     // Returns Some if the parent definition for which this is the context is defining an
     // attribute, and None otherwise
     fn parent_attribute(&self) -> Option<codemap::Span> {
-- 
2.43.0


From f7aee652e0ad299884878a4e4fa6da08dceeca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 59/77] fix: unknown attributes were ignored on most elements
 of the XML syntax

---
 relaxng-syntax/src/xml.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index f969df4..1dd4433 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -203,6 +203,7 @@ fn name_class(node: Node, in_except: InExcept) -> Result<NameClass> {
 }
 
 fn any_name(node: Node) -> Result<AnyName> {
+    no_attrs(node)?;
     let except = if let Some(ex) = first_rng_child(node) {
         if is_el(ex, "except") {
             if let Some(next) = next_rng_sibling(ex) {
@@ -222,6 +223,7 @@ fn any_name(node: Node) -> Result<AnyName> {
 }
 
 fn except_nameclass(node: Node) -> Result<NameClass> {
+    no_attrs(node)?;
     let mut child =
         first_rng_child(node).ok_or(Error::Expected(node.range(), "Expected name-class child"))?;
     let mut pat = name_class(child, InExcept::InsideExcept)?;
@@ -235,6 +237,7 @@ fn except_nameclass(node: Node) -> Result<NameClass> {
 }
 
 fn ns_name(node: Node) -> Result<NsName> {
+    no_attrs(node)?;
     let ns = get_ns(node);
     let except = if let Some(ex) = first_rng_child(node) {
         if is_el(ex, "except") {
@@ -294,6 +297,7 @@ fn get_dt_lib_att<'a, 'input: 'a>(start: Node<'a, 'input>) -> Option<Attribute<'
 }
 
 fn name_class_choice(node: Node, in_except: InExcept) -> Result<NameClass> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut name = name_class(child, in_except)?;
     while let Some(node) = next_rng_sibling(child) {
@@ -319,7 +323,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
     // the ns attributes of ancestors apply to a child <name>, but not to the 'name' attribute
     let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
-        if name.value() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
+        if name.value().trim() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
                 "Schemas may not define the xmlns attribute",
@@ -365,12 +369,14 @@ fn attribute(node: Node) -> Result<AttributePattern> {
 }
 
 fn group(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
     Ok(Pattern::Group(Box::new(patt)))
 }
 fn interleave(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut pat = pattern(child)?;
     while let Some(next) = next_rng_sibling(child) {
@@ -382,6 +388,7 @@ fn interleave(node: Node) -> Result<Pattern> {
 }
 
 fn choice(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let mut child = first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?;
     let mut pat = pattern(child)?;
     while let Some(node) = next_rng_sibling(child) {
@@ -393,6 +400,7 @@ fn choice(node: Node) -> Result<Pattern> {
 }
 
 fn optional(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -400,6 +408,7 @@ fn optional(node: Node) -> Result<Pattern> {
 }
 
 fn zero_or_more(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -407,6 +416,7 @@ fn zero_or_more(node: Node) -> Result<Pattern> {
 }
 
 fn one_or_more(node: Node) -> Result<Pattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -414,6 +424,7 @@ fn one_or_more(node: Node) -> Result<Pattern> {
 }
 
 fn list(node: Node) -> Result<ListPattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -421,6 +432,7 @@ fn list(node: Node) -> Result<ListPattern> {
 }
 
 fn mixed(node: Node) -> Result<MixedPattern> {
+    no_attrs(node)?;
     let patt = single_pattern_or_group(
         first_rng_child(node).ok_or(Error::Expected(node.range(), "pattern child"))?,
     )?;
@@ -428,6 +440,7 @@ fn mixed(node: Node) -> Result<MixedPattern> {
 }
 
 fn ref_patt(node: Node) -> Result<Identifier> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
         attr_ncname(&name)
@@ -437,6 +450,7 @@ fn ref_patt(node: Node) -> Result<Identifier> {
 }
 
 fn parent_ref(node: Node) -> Result<Identifier> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     no_rng_element_children(node)?;
     if let Some(name) = node.attribute_node("name") {
         attr_ncname(&name)
@@ -458,6 +472,7 @@ fn text(node: Node) -> Result<Pattern> {
 }
 
 fn value(node: Node) -> Result<DatatypeValuePattern> {
+    no_attrs_except(node, &["type", "ns", "datatypeLibrary"])?;
     no_element_children(node)?;
     // TODO: have a better representation for 'unspecified' (default) datatype namespace that
     // doesn't need a bogus 0..0 span,
@@ -506,6 +521,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
         if !is_el(node, "except") {
             return Err(Error::Unexpected(node.range(), "Unexpected element"));
         }
+        no_attrs(node)?;
         let except_patt =
             first_rng_child(node).ok_or(Error::Expected(node.range(), "child pattern element"))?;
         (
@@ -552,6 +568,7 @@ fn params<'a, 'input: 'a>(
 }
 
 fn param(node: Node) -> Result<Param> {
+    no_attrs_except(node, &["name", "ns", "datatypeLibrary"])?;
     let name = node
         .attribute_node("name")
         .ok_or(Error::Expected(node.range(), "name attribute"))?;
@@ -585,6 +602,7 @@ fn not_allowed(node: Node) -> Result<Pattern> {
 }
 
 fn external_ref(node: Node) -> Result<ExternalPattern> {
+    no_attrs_except(node, &["href", "ns", "datatypeLibrary"])?;
     let href = node
         .attribute_node("href")
         .ok_or(Error::Expected(node.range(), "href attribute"))?;
@@ -600,6 +618,7 @@ fn external_ref(node: Node) -> Result<ExternalPattern> {
 }
 
 fn grammar(node: Node) -> Result<GrammarPattern> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -668,6 +687,7 @@ fn start(node: Node) -> Result<Define> {
 }
 
 fn define(node: Node) -> Result<Define> {
+    no_attrs_except(node, &["name", "combine", "ns", "datatypeLibrary"])?;
     let combine = if let Some(combine) = node.attribute_node("combine") {
         match combine.value().trim() {
             "choice" => AssignMethod::Choice,
@@ -695,6 +715,7 @@ fn define(node: Node) -> Result<Define> {
 }
 
 fn div_grammar_content(node: Node) -> Result<GrammarContent> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -746,6 +767,7 @@ fn resolve(result: &mut Option<PathBuf>, new: &str) {
 }
 
 fn include(node: Node) -> Result<Include> {
+    no_attrs_except(node, &["href", "ns", "datatypeLibrary"])?;
     let href = node
         .attribute_node("href")
         .ok_or(Error::Expected(node.range(), "href attribute"))?;
@@ -787,6 +809,7 @@ fn include_content(node: Node) -> Result<IncludeContent> {
 }
 
 fn div_include_content(node: Node) -> Result<IncludeContent> {
+    no_attrs(node)?;
     let mut next = first_rng_child(node);
     let mut content = vec![];
     while let Some(child) = next {
@@ -823,6 +846,7 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name>
 }
 
 fn qname_el(name: Node) -> Result<Name> {
+    no_attrs(name)?;
     no_element_children(name)?;
     let text = text_content(name);
     let val = text.as_string_value();
-- 
2.43.0


From 65b842c3c7476274d174cafc199f410a503c74e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 60/77] fix: datatypeLibrary was not checked on the elements of
 grammars and name classes

---
 relaxng-syntax/src/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 1dd4433..02e0d68 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -53,7 +53,6 @@ const NS: &str = "http://relaxng.org/ns/structure/1.0";
 
 fn pattern(node: Node) -> Result<Pattern> {
     if node.is_element() && node.tag_name().namespace() == Some(NS) {
-        check_standard_attrs(node)?;
         match node.tag_name().name() {
             "element" => element(node).map(Pattern::Element),
             "attribute" => attribute(node).map(Pattern::Attribute),
@@ -157,6 +156,7 @@ fn element(node: Node) -> Result<ElementPattern> {
 }
 
 fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error> {
+    check_standard_attrs(node)?;
     if let Some(a) = node
         .attributes()
         .find(|a| is_rng_att(a) && !names.contains(&a.name()))
-- 
2.43.0


From 2076a9c6275fac7c658d81bbfb07755cbcc1fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:22 +0000
Subject: [PATCH 61/77] fix: attributes in the RELAX NG namespace were ignored
 in the XML syntax

---
 relaxng-syntax/src/xml.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 02e0d68..9d8f7d2 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -159,7 +159,7 @@ fn no_attrs_except(node: Node, names: &[&str]) -> std::result::Result<(), Error>
     check_standard_attrs(node)?;
     if let Some(a) = node
         .attributes()
-        .find(|a| is_rng_att(a) && !names.contains(&a.name()))
+        .find(|a| is_rng(a.namespace()) || a.namespace().is_none() && !names.contains(&a.name()))
     {
         return Err(Error::Unexpected(a.range(), "Unexpected attribute"));
     }
@@ -974,15 +974,6 @@ fn is_rng_node(node: Node) -> bool {
     is_rng(node.tag_name().namespace())
 }
 
-fn is_rng_att(a: &Attribute) -> bool {
-    // if an attribute has no namespace prefix, then it is not formally in the default namesapce
-    // of the document (as an element with no namespace prefix would be).  Here we assume that we
-    // only ever call this function on an attribute that was on an element within the relaxng
-    // namespace, and that in the context of relaxng elements unprefixed attributes are relaxng
-    // attributes :)
-    a.namespace().is_none() || is_rng(a.namespace())
-}
-
 fn is_rng(ns: Option<&str>) -> bool {
     ns == Some("http://relaxng.org/ns/structure/1.0")
 }
-- 
2.43.0


From 8ea02f3579dd86d3deb3ee3ed910dd13586fe81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 62/77] fix: names in the XML syntax were trimmed of more than
 XML white space, and around their colon

---
 relaxng-syntax/src/xml.rs | 44 ++++++++++++++++++++++++---------------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index 9d8f7d2..cf3b52c 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -49,6 +49,8 @@ fn pattern_or_grammar(root: Node) -> Result<PatternOrGrammar> {
 
 type Result<T> = std::result::Result<T, Error>;
 
+const XML_SPACE: [char; 4] = [' ', '\t', '\r', '\n'];
+
 const NS: &str = "http://relaxng.org/ns/structure/1.0";
 
 fn pattern(node: Node) -> Result<Pattern> {
@@ -323,7 +325,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
     // the ns attributes of ancestors apply to a child <name>, but not to the 'name' attribute
     let ns = node.attribute_node("ns");
     let (name_class, rest) = if let Some(name) = node.attribute_node("name") {
-        if name.value().trim() == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
+        if trim(name.value()) == "xmlns" && (ns.is_none() || ns.unwrap().value() == "") {
             return Err(Error::Unexpected(
                 name.range_value(),
                 "Schemas may not define the xmlns attribute",
@@ -479,7 +481,7 @@ fn value(node: Node) -> Result<DatatypeValuePattern> {
     let datatype_ns = get_datatype_lib(node).unwrap_or(Literal::new(0..0, "".to_string()));
     let type_name = node
         .attribute_node("type")
-        .map(|attr| ncname(attr.range_value(), attr.value()))
+        .map(|attr| ncname(attr.range_value(), trim(attr.value())))
         .transpose()?;
     let val = text_content(node);
     Ok(DatatypeValuePattern(
@@ -500,7 +502,7 @@ fn data(node: Node) -> Result<DatatypeNamePattern> {
     let type_attr = node
         .attribute_node("type")
         .ok_or(Error::Expected(node.range(), "type attribute"))?;
-    let type_name = match type_attr.value().trim() {
+    let type_name = match trim(type_attr.value()) {
         "token" if datatype_ns.as_string_value().is_empty() => DatatypeName::Token,
         val => {
             let name = ncname(type_attr.range_value(), val)?;
@@ -656,7 +658,7 @@ fn grammar_content(node: Node) -> Result<GrammarContent> {
 
 fn start(node: Node) -> Result<Define> {
     let combine = if let Some(combine) = node.attribute_node("combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -689,7 +691,7 @@ fn start(node: Node) -> Result<Define> {
 fn define(node: Node) -> Result<Define> {
     no_attrs_except(node, &["name", "combine", "ns", "datatypeLibrary"])?;
     let combine = if let Some(combine) = node.attribute_node("combine") {
-        match combine.value().trim() {
+        match trim(combine.value()) {
             "choice" => AssignMethod::Choice,
             "interleave" => AssignMethod::Interleave,
             _ => {
@@ -731,7 +733,7 @@ fn attr_ncname(attr: &Attribute) -> Result<Identifier> {
     if attr.value().contains(':') {
         Err(Error::Unexpected(attr.range_value(), "Colon in NCName"))
     } else {
-        ident(attr.range_value(), attr.value().trim())
+        ident(attr.range_value(), trim(attr.value()))
     }
 }
 
@@ -821,15 +823,15 @@ fn div_include_content(node: Node) -> Result<IncludeContent> {
 }
 
 fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name> {
-    let val = name.value();
+    let range = name.range_value();
+    let val = trim(name.value());
     if let Some(pos) = val.find(':') {
-        let start = name.range_value().start;
-        let end = name.range_value().end;
+        let start = range.start + leading_space(name.value());
         let prefix = &val[0..pos];
         let prefix_span = start..(start + pos);
-        let namespace = lookup_namespace_def(node, Some(prefix.trim()))
+        let namespace = lookup_namespace_def(node, Some(prefix))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
-        let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
+        let localname = ncname(start + pos + 1..range.end, &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
@@ -837,7 +839,7 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name>
         }))
     } else {
         let ns = ns.unwrap_or(Literal::new(0..0, String::new())); // TODO allow None or something rather than inventing an 'empty' NcName
-        let localname = ncname(name.range_value(), val)?;
+        let localname = ncname(range, val)?;
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
             localname,
@@ -850,13 +852,14 @@ fn qname_el(name: Node) -> Result<Name> {
     no_element_children(name)?;
     let text = text_content(name);
     let val = text.as_string_value();
+    let val = trim(&val);
     if !val.is_empty() {
         if let Some(pos) = val.find(':') {
             let start = name.range().start;
             let end = name.range().end;
             let prefix_span = start..(start + pos);
-            let prefix = ncname(prefix_span.clone(), val[0..pos].trim())?;
-            let localname = ncname(start + pos + 1..end, val[pos + 1..].trim())?;
+            let prefix = ncname(prefix_span.clone(), &val[0..pos])?;
+            let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
             let namespace = lookup_namespace_def(name, Some(&prefix.1)).ok_or_else(|| {
                 Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix")
             })?;
@@ -866,7 +869,7 @@ fn qname_el(name: Node) -> Result<Name> {
             }))
         } else {
             let ns = get_ns(name).unwrap_or(Literal::new(0..0, "".to_string())); // TODO allow None or something rather than inventing an 'empty' NcName
-            let localname = ncname(text.0, &val)?;
+            let localname = ncname(text.0, val)?;
             Ok(Name::NamespacedName(NamespacedName {
                 namespace_uri: ns,
                 localname,
@@ -877,8 +880,16 @@ fn qname_el(name: Node) -> Result<Name> {
     }
 }
 
+/// The given text without any leading and trailing XML whitespace.
+fn trim(val: &str) -> &str {
+    val.trim_matches(XML_SPACE)
+}
+
+fn leading_space(val: &str) -> usize {
+    val.len() - val.trim_start_matches(XML_SPACE).len()
+}
+
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
@@ -914,7 +925,6 @@ fn lookup_namespace_def<'a, 'input: 'a>(
 }
 
 fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
-    let val = val.trim();
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
     }
-- 
2.43.0


From de5169f16c36067b9ae6a395f4a1cee597dcd951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:26 +0000
Subject: [PATCH 63/77] fix: compact syntax: a keyword ends where a name would,
 not at white space

---
 relaxng-syntax/src/compact.rs | 54 ++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 23 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 33a5440..e96c336 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -12,7 +12,7 @@ use nom::{
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, fold_many1, many0, separated_list0},
-    sequence::delimited,
+    sequence::{delimited, terminated},
 };
 use nom::{Input, Parser};
 use nom_locate::{LocatedSpan, position};
@@ -74,8 +74,8 @@ fn decl(input: Span) -> IResult<Span, Decl> {
 }
 fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("namespace"),
-        space_comment1,
+        keyword_token("namespace"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
@@ -93,10 +93,10 @@ fn decl_namespace(input: Span) -> IResult<Span, NamespaceDeclaration> {
 }
 fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclaration> {
     let (input, (_keyword, _, _, _, prefix, _, _, _, uri)) = (
-        tag("default"),
-        space_comment1,
-        tag("namespace"),
-        space_comment1,
+        keyword_token("default"),
+        space_comment0,
+        keyword_token("namespace"),
+        space_comment0,
         opt(identifier_or_keyword),
         space_comment0,
         tag("="),
@@ -114,8 +114,8 @@ fn decl_default_namespace(input: Span) -> IResult<Span, DefaultNamespaceDeclarat
 }
 fn decl_datatypes(input: Span) -> IResult<Span, DatatypesDeclaration> {
     let (input, (_keyword, _, prefix, _, _, _, uri)) = (
-        tag("datatypes"),
-        space_comment1,
+        keyword_token("datatypes"),
+        space_comment0,
         identifier_or_keyword,
         space_comment0,
         tag("="),
@@ -146,7 +146,7 @@ fn identifier_or_keyword(input: Span) -> IResult<Span, IdentifierOrKeyword> {
 //                             | "inherit"
 fn namespace_uri_literal(input: Span) -> IResult<Span, NamespaceUriLiteral> {
     alt((
-        map(tag("inherit"), |_| NamespaceUriLiteral::Inherit),
+        map(keyword_token("inherit"), |_| NamespaceUriLiteral::Inherit),
         map(literal, NamespaceUriLiteral::Uri),
     ))
     .parse(input)
@@ -287,6 +287,13 @@ fn keyword(input: Span) -> IResult<Span, Keyword> {
     parser.parse(input)
 }
 
+// the given keyword, as a token of its own: what follows must not make it part of a longer name
+fn keyword_token<'a>(
+    word: &'static str,
+) -> impl Parser<Span<'a>, Output = Span<'a>, Error = Error<Span<'a>>> {
+    terminated(tag(word), not(nc_name_char))
+}
+
 // pattern  ::=
 //	  "element" nameClass "{" pattern "}"
 //    | "attribute" nameClass "{" pattern "}"
@@ -318,9 +325,10 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
         map(datatype_value_pattern, Pattern::DatatypeValue),
         map(datatype_param_pattern, Pattern::DatatypeName),
         map(identifier, Pattern::Identifier),
-        map((tag("parent"), space_comment1, identifier), |(_, _, p)| {
-            Pattern::Parent(p)
-        }),
+        map(
+            (keyword_token("parent"), space_comment0, identifier),
+            |(_, _, p)| Pattern::Parent(p),
+        ),
         map(tag("empty"), |_| Pattern::Empty),
         map(tag("text"), |_| Pattern::Text),
         map(tag("notAllowed"), |_| Pattern::NotAllowed),
@@ -377,8 +385,8 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
 // "element" nameClass "{" pattern "}"
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
-        tag("element"),
-        space_comment1,
+        keyword_token("element"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -403,8 +411,8 @@ fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
 // "attribute" nameClass "{" pattern "}"
 fn attribute_pattern(input: Span) -> IResult<Span, AttributePattern> {
     let parse = (
-        tag("attribute"),
-        space_comment1,
+        keyword_token("attribute"),
+        space_comment0,
         name_class,
         space_comment0,
         tag("{"),
@@ -461,10 +469,10 @@ fn mixed_pattern(input: Span) -> IResult<Span, MixedPattern> {
 // "external" anyURILiteral [inherit]
 fn external_pattern(input: Span) -> IResult<Span, ExternalPattern> {
     let parse = (
-        tag("external"),
-        space_comment1,
+        keyword_token("external"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, inherit)| inherit)),
+        opt(map((space_comment0, inherit), |(_, inherit)| inherit)),
     );
 
     let mut parser = map(parse, |(_, _, uri, inherit)| ExternalPattern(uri, inherit));
@@ -785,10 +793,10 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
 // "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn include(input: Span) -> IResult<Span, Include> {
     let parse = (
-        tag("include"),
-        space_comment1,
+        keyword_token("include"),
+        space_comment0,
         any_uri_literal,
-        opt(map((space_comment1, inherit), |(_, v)| v)),
+        opt(map((space_comment0, inherit), |(_, v)| v)),
         opt(map(
             (
                 space_comment0,
-- 
2.43.0


From db49e8605c9af5a8ddf69882854d13090001f2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:40 +0000
Subject: [PATCH 64/77] fix: compact syntax: members of a list need no white
 space between them

---
 relaxng-syntax/src/compact.rs | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index e96c336..e4bdf01 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -11,7 +11,7 @@ use nom::{
     character::complete::{char, multispace1, not_line_ending},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
-    multi::{fold_many0, fold_many1, many0, separated_list0},
+    multi::{fold_many0, many0, separated_list0},
     sequence::{delimited, terminated},
 };
 use nom::{Input, Parser};
@@ -37,12 +37,12 @@ pub fn schema(input: Span) -> Result<Schema, nom::Err<Error<Span>>> {
 // topLevel	  ::=  	decl* (pattern | grammarContent*)
 fn top_level(input: Span) -> IResult<Span, Schema> {
     let parse = (
-        separated_list0(space_comment1, decl),
-        space_comment0, // TODO: should be space_comment1, and only required if there are decls
+        separated_list0(space_comment0, decl),
+        space_comment0,
         alt((
             // TODO: proper span for GrammarPattern
             map(
-                separated_list1(space_comment1, grammar_content),
+                separated_list1(space_comment0, grammar_content),
                 |content| {
                     PatternOrGrammar::Grammar(GrammarPattern {
                         span: 0..0,
@@ -487,7 +487,7 @@ fn grammar_pattern(input: Span) -> IResult<Span, GrammarPattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
         position,
@@ -526,7 +526,7 @@ fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, param),
+        separated_list0(space_comment0, param),
         space_comment0,
         cut(tag("}")),
     );
@@ -780,7 +780,7 @@ fn div_grammar_content(input: Span) -> IResult<Span, Vec<GrammarContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, grammar_content),
+        separated_list0(space_comment0, grammar_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -802,7 +802,7 @@ fn include(input: Span) -> IResult<Span, Include> {
                 space_comment0,
                 tag("{"),
                 space_comment0,
-                separated_list0(space_comment1, include_content),
+                separated_list0(space_comment0, include_content),
                 space_comment0,
                 cut(tag("}")),
             ),
@@ -858,7 +858,7 @@ fn div_include_content(input: Span) -> IResult<Span, Vec<IncludeContent>> {
         space_comment0,
         tag("{"),
         space_comment0,
-        separated_list0(space_comment1, include_content),
+        separated_list0(space_comment0, include_content),
         space_comment0,
         cut(tag("}")),
     );
@@ -871,9 +871,6 @@ fn div_include_content(input: Span) -> IResult<Span, Vec<IncludeContent>> {
 fn space_comment0(input: Span) -> IResult<Span, Span> {
     recognize(fold_many0(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
-fn space_comment1(input: Span) -> IResult<Span, Span> {
-    recognize(fold_many1(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
-}
 fn comment(input: Span) -> IResult<Span, Span> {
     recognize((tag("#"), not_line_ending)).parse(input)
 }
@@ -886,9 +883,9 @@ fn initial_annotation(input: Span) -> IResult<Span, InitialAnnotation> {
     let parse = (
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element),
+        separated_list0(space_comment0, annotation_element),
         space_comment0,
         tag("]"),
     );
@@ -938,9 +935,9 @@ fn annotation_element(input: Span) -> IResult<Span, AnnotationElement> {
         space_comment0,
         tag("["),
         space_comment0,
-        separated_list0(space_comment1, annotation_attribute),
+        separated_list0(space_comment0, annotation_attribute),
         space_comment0,
-        separated_list0(space_comment1, annotation_element_or_literal),
+        separated_list0(space_comment0, annotation_element_or_literal),
         space_comment0,
         tag("]"),
     );
-- 
2.43.0


From 8887d2424c43a13613474e76e6fdf90b9c6171df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:41 +0000
Subject: [PATCH 65/77] fix: compact syntax: annotations before a component of
 a grammar

---
 relaxng-syntax/src/compact.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index e4bdf01..5f52f8c 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -702,6 +702,7 @@ where
 //                        | "div" "{" grammarContent* "}"
 //                        | "include" anyURILiteral [inherit] ["{" includeContent* "}"]
 fn grammar_content(input: Span) -> IResult<Span, GrammarContent> {
+    let (input, _annotation) = maybe_initial_annotation(input)?;
     alt((
         map(start, GrammarContent::Define),
         map(define, GrammarContent::Define),
-- 
2.43.0


From ebd099d5b21bacac14e85792dadc13a6987020a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 66/77] fix: compact syntax: a comment ends at a lone carriage
 return too

---
 relaxng-syntax/src/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 5f52f8c..59c40b2 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -8,7 +8,7 @@ use nom::{
     AsChar, IResult,
     branch::alt,
     bytes::complete::{is_not, tag, take_until},
-    character::complete::{char, multispace1, not_line_ending},
+    character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
     error::ErrorKind,
     multi::{fold_many0, many0, separated_list0},
@@ -873,7 +873,7 @@ fn space_comment0(input: Span) -> IResult<Span, Span> {
     recognize(fold_many0(alt((multispace1, comment)), || (), |_, _| ())).parse(input)
 }
 fn comment(input: Span) -> IResult<Span, Span> {
-    recognize((tag("#"), not_line_ending)).parse(input)
+    recognize((tag("#"), opt(is_not("\r\n")))).parse(input)
 }
 
 fn maybe_initial_annotation(input: Span) -> IResult<Span, Option<InitialAnnotation>> {
-- 
2.43.0


From 8724279b4ff834c4101a03c05d9edbe45afa0928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:48 +0000
Subject: [PATCH 67/77] fix: compact syntax: no mixing of connectors, one
 repetition, except takes a primary

---
 relaxng-syntax/src/compact.rs | 154 ++++++++++++++++++++++------------
 1 file changed, 99 insertions(+), 55 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 59c40b2..f4e39c1 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -10,7 +10,6 @@ use nom::{
     bytes::complete::{is_not, tag, take_until},
     character::complete::{char, multispace1},
     combinator::{all_consuming, map, not, opt, peek, recognize},
-    error::ErrorKind,
     multi::{fold_many0, many0, separated_list0},
     sequence::{delimited, terminated},
 };
@@ -316,8 +315,84 @@ fn keyword_token<'a>(
 //    | "grammar" "{" grammarContent* "}"
 //    | "(" pattern ")"
 fn pattern(input: Span) -> IResult<Span, Pattern> {
+    alt((data_except_pattern, particles)).parse(input)
+}
+
+// one particle, or several which are all joined by the same connector
+fn particles(input: Span) -> IResult<Span, Pattern> {
+    let (input, first) = particle(input)?;
+    let (input, rest) = opt(preceded(
+        space_comment0,
+        alt((
+            connected_particles(",", Pattern::ListPair),
+            connected_particles("&", Pattern::InterleavePair),
+            connected_particles("|", Pattern::ChoicePair),
+        )),
+    ))
+    .parse(input)?;
+    let result = match rest {
+        Some((pair, rest)) => pair(Box::new(first), Box::new(rest)),
+        None => first,
+    };
+    IResult::Ok((input, result))
+}
+
+type Pair = fn(Box<Pattern>, Box<Pattern>) -> Pattern;
+
+// connector particle (connector particle)*
+fn connected_particles<'a>(
+    connector: &'static str,
+    pair: Pair,
+) -> impl Parser<Span<'a>, Output = (Pair, Pattern), Error = Error<Span<'a>>> {
+    map(
+        preceded((tag(connector), space_comment0), move |input| {
+            joined_particles(connector, pair, input)
+        }),
+        move |rest| (pair, rest),
+    )
+}
+
+// particle (connector particle)*
+fn joined_particles<'a>(
+    connector: &'static str,
+    pair: Pair,
+    input: Span<'a>,
+) -> IResult<Span<'a>, Pattern> {
+    let (input, left) = cut(particle).parse(input)?;
+    let (input, right) = opt(preceded(
+        (space_comment0, tag(connector), space_comment0),
+        |input| joined_particles(connector, pair, input),
+    ))
+    .parse(input)?;
+    let result = match right {
+        Some(right) => pair(Box::new(left), Box::new(right)),
+        None => left,
+    };
+    IResult::Ok((input, result))
+}
+
+// primary with its annotations, perhaps repeated
+fn particle(input: Span) -> IResult<Span, Pattern> {
+    let (input, primary) = primary_pattern(input)?;
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
+    let (input, repeat) = opt(preceded(
+        space_comment0,
+        alt((char('?'), char('*'), char('+'))),
+    ))
+    .parse(input)?;
+    let result = match repeat {
+        Some('?') => Pattern::Optional(Box::new(primary)),
+        Some('*') => Pattern::ZeroOrMore(Box::new(primary)),
+        Some(_) => Pattern::OneOrMore(Box::new(primary)),
+        None => return IResult::Ok((input, primary)),
+    };
+    let (input, _follow_annotations) = follow_annotation_list(input)?;
+    IResult::Ok((input, result))
+}
+
+fn primary_pattern(input: Span) -> IResult<Span, Pattern> {
     let (input, _annotation) = maybe_initial_annotation(input)?;
-    let (input, mut result) = alt((
+    alt((
         map(element_pattern, Pattern::Element),
         map(attribute_pattern, Pattern::Attribute),
         map(list_pattern, Pattern::List),
@@ -336,52 +411,9 @@ fn pattern(input: Span) -> IResult<Span, Pattern> {
         map(grammar_pattern, Pattern::Grammar),
         map(group_pattern, |p| Pattern::Group(Box::new(p))),
     ))
-    .parse(input)?;
-
-    let (mut input, _follow_annotations) = follow_annotation_list(input)?;
-
-    loop {
-        let (i, _) = space_comment0(input)?;
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>(",")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ListPair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("&")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::InterleavePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("|")(i) {
-            let (i, _) = space_comment0(i)?;
-            let (i, right) = pattern(i)?;
-            result = Pattern::ChoicePair(Box::new(result), Box::new(right));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("?")(i) {
-            result = Pattern::Optional(Box::new(result));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("*")(i) {
-            result = Pattern::ZeroOrMore(Box::new(result));
-            input = i;
-            continue;
-        }
-        if let Ok((i, _)) = tag::<_, _, (Span, ErrorKind)>("+")(i) {
-            result = Pattern::OneOrMore(Box::new(result));
-            input = i;
-            continue;
-        }
-        break;
-    }
-    IResult::Ok((input, result))
+    .parse(input)
 }
+
 // "element" nameClass "{" pattern "}"
 fn element_pattern(input: Span) -> IResult<Span, ElementPattern> {
     let parse = (
@@ -520,7 +552,7 @@ fn datatype_value_pattern(input: Span) -> IResult<Span, DatatypeValuePattern> {
     parser.parse(input)
 }
 
-// datatypeName ["{" param* "}"] [exceptPattern]
+// datatypeName ["{" param* "}"]
 fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
     let params = (
         space_comment0,
@@ -532,13 +564,25 @@ fn datatype_param_pattern(input: Span) -> IResult<Span, DatatypeNamePattern> {
     );
     let params = map(params, |(_, _, _, p, _, _)| p);
 
+    let parse = (datatype_name, opt(params));
+    let mut parser = map(parse, |(name, params)| {
+        DatatypeNamePattern(name, params, None)
+    });
+
+    parser.parse(input)
+}
+
+// datatypeName ["{" param* "}"] exceptPattern
+fn data_except_pattern(input: Span) -> IResult<Span, Pattern> {
     let parse = (
-        datatype_name,
-        opt(params),
-        opt(map((space_comment0, except_pattern), |(_, e)| e)),
+        maybe_initial_annotation,
+        datatype_param_pattern,
+        space_comment0,
+        except_pattern,
+        follow_annotation_list,
     );
-    let mut parser = map(parse, |(name, params, except)| {
-        DatatypeNamePattern(name, params, except.map(Box::new))
+    let mut parser = map(parse, |(_, data, _, except, _)| {
+        Pattern::DatatypeName(DatatypeNamePattern(data.0, data.1, Some(Box::new(except))))
     });
 
     parser.parse(input)
@@ -573,9 +617,9 @@ fn param(input: Span) -> IResult<Span, Param> {
     parser.parse(input)
 }
 
-// exceptPattern     ::=   "-" pattern
+// exceptPattern     ::=   "-" primary
 fn except_pattern(input: Span) -> IResult<Span, Pattern> {
-    let parse = (tag("-"), space_comment0, pattern);
+    let parse = (tag("-"), space_comment0, primary_pattern);
 
     let mut parser = map(parse, |(_, _, pat)| pat);
 
-- 
2.43.0


From 1ea985b9d3fc8ada8525b0641e0254c9dcbf6f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:09 +0000
Subject: [PATCH 68/77] fix: compact syntax: the except of a name class is one
 simple name class

---
 relaxng-syntax/src/compact.rs | 91 ++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 23 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index f4e39c1..db44437 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -639,15 +639,28 @@ fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
 }
 
 fn name_class(input: Span) -> IResult<Span, NameClass> {
-    let (input, _annotation) = maybe_initial_annotation(input)?;
-    let (input, left) = alt((
-        map(ns_name_nc, NameClass::NsName),
-        map(name, NameClass::Name),
-        map(any_name_nc, NameClass::AnyName),
-        //map(alt_nc, |r| NameClass::Alt(r)),
-        map(paren_nc, NameClass::Paren),
-    ))
-    .parse(input)?;
+    alt((except_nc, simple_nc_choice)).parse(input)
+}
+
+// (nsName | anyName) "-" simpleNameClass
+fn except_nc(input: Span) -> IResult<Span, NameClass> {
+    let parse = (
+        maybe_initial_annotation,
+        alt((
+            map(ns_name_except_nc, NameClass::NsName),
+            map(any_name_except_nc, NameClass::AnyName),
+        )),
+        follow_annotation_list,
+    );
+
+    let mut parser = map(parse, |(_, name_class, _)| name_class);
+
+    parser.parse(input)
+}
+
+// simpleNameClass ("|" simpleNameClass)*
+fn simple_nc_choice(input: Span) -> IResult<Span, NameClass> {
+    let (input, left) = simple_nc(input)?;
 
     let (input, _follow_annotations) = follow_annotation_list(input)?;
 
@@ -661,6 +674,18 @@ fn name_class(input: Span) -> IResult<Span, NameClass> {
     Ok((input, left))
 }
 
+// nsName | name | anyName | "(" nameClass ")"
+fn simple_nc(input: Span) -> IResult<Span, NameClass> {
+    let (input, _annotation) = maybe_initial_annotation(input)?;
+    alt((
+        map(ns_name_nc, NameClass::NsName),
+        map(name, NameClass::Name),
+        map(any_name_nc, NameClass::AnyName),
+        map(paren_nc, NameClass::Paren),
+    ))
+    .parse(input)
+}
+
 // name	  ::=  	identifierOrKeyword
 //            | CName
 fn name(input: Span) -> IResult<Span, Name> {
@@ -672,35 +697,55 @@ fn name(input: Span) -> IResult<Span, Name> {
 }
 
 fn ns_name_nc(input: Span) -> IResult<Span, NsName> {
-    let parse = (
-        nc_name,
-        tag(":*"),
-        opt((space_comment0, tag("-"), space_comment0, name_class)),
-    );
+    let parse = (nc_name, tag(":*"));
+
+    let mut parser = map(parse, |(name, _)| NsName {
+        name: NamespaceOrPrefix::Prefix(name),
+        except: None,
+    });
+
+    parser.parse(input)
+}
+
+fn ns_name_except_nc(input: Span) -> IResult<Span, NsName> {
+    let parse = (nc_name, tag(":*"), nc_except);
 
     let mut parser = map(parse, |(name, _, except)| NsName {
         name: NamespaceOrPrefix::Prefix(name),
-        except: except.map(|(_, _, _, name_class)| Box::new(name_class)),
+        except: Some(Box::new(except)),
     });
 
     parser.parse(input)
 }
 
 fn any_name_nc(input: Span) -> IResult<Span, AnyName> {
-    let parse = (
-        tag("*"),
-        opt((space_comment0, tag("-"), space_comment0, name_class)),
-    );
+    map(tag("*"), |_| AnyName(None)).parse(input)
+}
 
-    let mut parser = map(parse, |(_, except)| {
-        AnyName(except.map(|(_, _, _, name_class)| Box::new(name_class)))
-    });
+fn any_name_except_nc(input: Span) -> IResult<Span, AnyName> {
+    let parse = (tag("*"), nc_except);
+
+    let mut parser = map(parse, |(_, except)| AnyName(Some(Box::new(except))));
+
+    parser.parse(input)
+}
+
+// "-" simpleNameClass
+fn nc_except(input: Span) -> IResult<Span, NameClass> {
+    let parse = (space_comment0, tag("-"), space_comment0, simple_nc);
+
+    let mut parser = map(parse, |(_, _, _, name_class)| name_class);
 
     parser.parse(input)
 }
 
 fn alt_nc(input: Span) -> IResult<Span, NameClass> {
-    let parse = (space_comment0, tag("|"), space_comment0, name_class);
+    let parse = (
+        space_comment0,
+        tag("|"),
+        space_comment0,
+        simple_nc_choice,
+    );
 
     let mut parser = map(parse, |(_, _, _, right)| right);
 
-- 
2.43.0


From 6f62cd51971acc7d2af66a5c3b5435f33b039528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:10 +0000
Subject: [PATCH 69/77] fix: compact syntax: a datatype prefix may be spelled
 string or token

---
 relaxng-syntax/src/compact.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index db44437..e6112b7 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -631,9 +631,9 @@ fn except_pattern(input: Span) -> IResult<Span, Pattern> {
 //                   | "token"
 fn datatype_name(input: Span) -> IResult<Span, DatatypeName> {
     alt((
+        map(cname, DatatypeName::CName),
         map((tag("string"), peek(not(nc_name_char))), |_| DatatypeName::String),
         map((tag("token"), peek(not(nc_name_char))), |_| DatatypeName::Token),
-        map(cname, DatatypeName::CName),
     ))
     .parse(input)
 }
-- 
2.43.0


From d063886f279b20971f3e4a418faefb8b84c3fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:09 +0000
Subject: [PATCH 70/77] fix: compact syntax: a carriage return ends a line in a
 literal too

---
 relaxng-syntax/src/compact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index e6112b7..371c10c 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -171,8 +171,8 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
     let (input, body) = alt((
         delimited(tag("\"\"\""), take_until("\"\"\""), tag("\"\"\"")),
         delimited(tag("'''"), take_until("'''"), tag("'''")),
-        delimited(tag("\""), recognize(opt(is_not("\"\n"))), tag("\"")),
-        delimited(tag("'"), recognize(opt(is_not("'\n"))), tag("'")),
+        delimited(tag("\""), recognize(opt(is_not("\"\r\n"))), tag("\"")),
+        delimited(tag("'"), recognize(opt(is_not("'\r\n"))), tag("'")),
     ))
     .parse(input)?;
 
-- 
2.43.0


From 26087418171655261ebdf14f545eeefe19b29165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:21 +0000
Subject: [PATCH 71/77] fix: compact syntax: the end of a line in a literal is
 a line feed

---
 relaxng-syntax/src/compact.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/relaxng-syntax/src/compact.rs b/relaxng-syntax/src/compact.rs
index 371c10c..ec9905f 100644
--- a/relaxng-syntax/src/compact.rs
+++ b/relaxng-syntax/src/compact.rs
@@ -179,7 +179,8 @@ fn literal_segment(input: Span) -> IResult<Span, LiteralSegment> {
     IResult::Ok((
         input,
         LiteralSegment {
-            body: body.to_string(),
+            // however a line ends in the source, it is a single line feed in the value
+            body: body.replace("\r\n", "\n").replace('\r', "\n"),
         },
     ))
 }
-- 
2.43.0


From 210d8295f86f9946892b7a0ce995e8572f6e7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:08 +0000
Subject: [PATCH 72/77] fix: a schema without a directory may include others

---
 relaxng-model/src/lib.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 981df68..cb19ec2 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1459,9 +1459,11 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         inc: &types::Include,
     ) -> Result<(), RelaxError> {
-        let path = Path::new(ctx.file().name())
+        let file = ctx.file();
+        let name = Path::new(file.name());
+        let path = name
             .parent()
-            .expect("TODO: no parent?")
+            .unwrap_or(name)
             .join(inc.0.as_string_value());
         let span = ctx
             .file()
@@ -1761,9 +1763,11 @@ impl<FS: Files> Compiler<FS> {
         ctx: &mut Context,
         external: &types::ExternalPattern,
     ) -> Result<model::Pattern, RelaxError> {
-        let path = Path::new(ctx.file().name())
+        let file = ctx.file();
+        let name = Path::new(file.name());
+        let path = name
             .parent()
-            .expect("TODO: no parent?")
+            .unwrap_or(name)
             .join(external.0.as_string_value());
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
-- 
2.43.0


From f9d91f7c57ba94bb5317de352770520fb33c6c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:44 +0000
Subject: [PATCH 73/77] fix: a schema may have more than 65536 patterns

---
 relaxng-validator/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/relaxng-validator/src/lib.rs b/relaxng-validator/src/lib.rs
index 47ced95..e672229 100644
--- a/relaxng-validator/src/lib.rs
+++ b/relaxng-validator/src/lib.rs
@@ -24,7 +24,7 @@ pub enum ValidatorError<'a> {
 }
 
 #[derive(PartialEq, Eq, Hash, Copy, Clone, Debug)]
-struct PatId(u16);
+struct PatId(u32);
 
 // TODO: separate representations?
 //       1) includes 'Placeholder, but doesn't include nullability flags or 'After'
@@ -87,13 +87,13 @@ struct Schema {
 impl Schema {
     fn push(&self, p: Pat) -> PatId {
         let mut inner = self.inner.borrow_mut();
-        if inner.patterns.len() > 0xffff {
-            panic!("Only up to 2^16 rules supported in one schema")
+        if inner.patterns.len() > 0xffff_ffff {
+            panic!("Only up to 2^32 rules supported in one schema")
         }
         if let Some(id) = inner.memo.get(&p) {
             *id
         } else {
-            let id = PatId(inner.patterns.len() as u16);
+            let id = PatId(inner.patterns.len() as u32);
             inner.memo.insert(p.clone(), id);
             inner.patterns.push(p);
             id
-- 
2.43.0


From 06e8008ce0f186d3595ce8685e74c6eb3028fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:46 +0000
Subject: [PATCH 74/77] fix: a parent reference without a parent is reported
 where it is

In an included file, the position was taken to be one in the file at
the root, beyond the end of which it may be: a panic.
---
 relaxng-model/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index cb19ec2..2301538 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -615,16 +615,22 @@ impl<'a> Context<'a> {
     }
 
     fn acquire_parent_ref(&self, id: &types::Identifier) -> Result<model::PatRef, RelaxError> {
+        // the reference is in the text of this context's file, which may not be that of the root
+        let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
+        self.acquire_parent_ref_impl(id, span)
+    }
+    fn acquire_parent_ref_impl(
+        &self,
+        id: &types::Identifier,
+        span: codemap::Span,
+    ) -> Result<model::PatRef, RelaxError> {
         match self {
-            Context::Root { .. } => {
-                let span = self.file().span.subspan(id.0.start as u64, id.0.end as u64);
-                Err(RelaxError::NoParentAvailable(span))
-            }
+            Context::Root { .. } => Err(RelaxError::NoParentAvailable(span)),
             Context::Include { parent, .. }
             | Context::IncludeOverrides { parent }
             | Context::Define { parent, .. }
             | Context::Element { parent }
-            | Context::Attribute { parent, .. } => parent.acquire_parent_ref(id),
+            | Context::Attribute { parent, .. } => parent.acquire_parent_ref_impl(id, span),
             Context::Grammar { parent, .. } => parent.acquire_ref(id),
         }
     }
-- 
2.43.0


From 67e761ff6078cb54d163fc4e21d8326d85731e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:08 +0000
Subject: [PATCH 75/77] fix: positions in an XML schema are those of what is
 reported

They were computed from offsets in the values, which are not those in
the file when there are character references or the tag has a prefix:
these may lie within a character, which is a panic.
---
 relaxng-syntax/src/xml.rs | 54 +++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 16 deletions(-)

diff --git a/relaxng-syntax/src/xml.rs b/relaxng-syntax/src/xml.rs
index cf3b52c..eaa5307 100644
--- a/relaxng-syntax/src/xml.rs
+++ b/relaxng-syntax/src/xml.rs
@@ -151,7 +151,7 @@ fn element(node: Node) -> Result<ElementPattern> {
         (name_class, pattern)
     };
     Ok(ElementPattern {
-        span: node.range().start + 1..node.range().start + 8,
+        span: tag_span(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -364,7 +364,7 @@ fn attribute(node: Node) -> Result<AttributePattern> {
         ));
     }
     Ok(AttributePattern {
-        span: node.range().start + 1..node.range().start + 10,
+        span: tag_span(node),
         name_class,
         pattern: Box::new(pattern),
     })
@@ -676,7 +676,7 @@ fn start(node: Node) -> Result<Define> {
     // so as to avoid duplication of code handling 'start' definitions and other definitions
     // TODO: revisit this design later
 
-    let start_span = node.range().start + 1..node.range().start + 6;
+    let start_span = tag_span(node);
     let name = Identifier(start_span, "start".to_string());
 
     let child =
@@ -826,12 +826,13 @@ fn qname_att(node: Node, name: &Attribute, ns: Option<Literal>) -> Result<Name>
     let range = name.range_value();
     let val = trim(name.value());
     if let Some(pos) = val.find(':') {
-        let start = range.start + leading_space(name.value());
+        let start = leading_space(name.value());
         let prefix = &val[0..pos];
-        let prefix_span = start..(start + pos);
+        let prefix_span = part_span(&range, name.value(), start..start + pos);
         let namespace = lookup_namespace_def(node, Some(prefix))
             .ok_or_else(|| Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix"))?;
-        let localname = ncname(start + pos + 1..range.end, &val[pos + 1..])?;
+        let local_span = part_span(&range, name.value(), start + pos + 1..name.value().len());
+        let localname = ncname(local_span, &val[pos + 1..])?;
         let ns = Literal::new(prefix_span, namespace.to_string());
         Ok(Name::NamespacedName(NamespacedName {
             namespace_uri: ns,
@@ -851,15 +852,15 @@ fn qname_el(name: Node) -> Result<Name> {
     no_attrs(name)?;
     no_element_children(name)?;
     let text = text_content(name);
-    let val = text.as_string_value();
-    let val = trim(&val);
+    let content = text.as_string_value();
+    let val = trim(&content);
     if !val.is_empty() {
         if let Some(pos) = val.find(':') {
-            let start = name.range().start;
-            let end = name.range().end;
-            let prefix_span = start..(start + pos);
+            let start = leading_space(&content);
+            let prefix_span = part_span(&text.0, &content, start..start + pos);
+            let local_span = part_span(&text.0, &content, start + pos + 1..content.len());
             let prefix = ncname(prefix_span.clone(), &val[0..pos])?;
-            let localname = ncname(start + pos + 1..end, &val[pos + 1..])?;
+            let localname = ncname(local_span, &val[pos + 1..])?;
             let namespace = lookup_namespace_def(name, Some(&prefix.1)).ok_or_else(|| {
                 Error::Unexpected(prefix_span.clone(), "Unknown namespace prefix")
             })?;
@@ -889,6 +890,27 @@ fn leading_space(val: &str) -> usize {
     val.len() - val.trim_start_matches(XML_SPACE).len()
 }
 
+/// The position of the name in the start-tag of the given element.
+fn tag_span(node: Node) -> Span {
+    let range = node.range();
+    let tag = &node.document().input_text()[range.start + 1..range.end];
+    let len = tag
+        .find([' ', '\t', '\r', '\n', '/', '>'])
+        .unwrap_or(tag.len());
+    range.start + 1..range.start + 1 + len
+}
+
+/// The position of the given part of a value which was read from the given range of the schema.
+fn part_span(range: &Span, value: &str, part: Range<usize>) -> Span {
+    if value.len() == range.len() {
+        range.start + part.start..range.start + part.end
+    } else {
+        // the value is shorter than what stands for it, e.g. because of character references, so
+        // that its offsets are not those in the schema
+        range.clone()
+    }
+}
+
 fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
     if val.is_empty() {
         return Err(Error::Expected(range, "Expected identifier"));
@@ -897,13 +919,13 @@ fn ncname(range: Range<usize>, val: &str) -> Result<NcName> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    part_span(&range, val, i..i + c.len_utf8()),
                     "Unexpected character for NcName",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                part_span(&range, val, i..i + c.len_utf8()),
                 "Unexpected character for NcName",
             ));
         }
@@ -932,13 +954,13 @@ fn ident(range: Range<usize>, val: &str) -> Result<Identifier> {
         if i == 0 {
             if !is_nc_name_start_char(c) {
                 return Err(Error::Unexpected(
-                    range.start..range.start + 1,
+                    part_span(&range, val, i..i + c.len_utf8()),
                     "Unexpected character within identifier",
                 ));
             }
         } else if !is_nc_name_char(c) {
             return Err(Error::Unexpected(
-                range.start + i..range.start + i + 1,
+                part_span(&range, val, i..i + c.len_utf8()),
                 "Unexpected character within identifier",
             ));
         }
-- 
2.43.0


From ff7f2e8eadc524c4af38af92bc9de2dad2cb296c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:03 +0000
Subject: [PATCH 76/77] fix: of two definitions which cannot be combined, the
 later is reported as the error

---
 relaxng-model/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index 2301538..c6fb11e 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -1659,8 +1659,10 @@ impl<FS: Files> Compiler<FS> {
                 DefineRule::CombineOnly(this_span, CombineRule::Interleave, _),
                 DefineRule::AssignCombine(that_span, Some(CombineRule::Choice), _),
             ) => Err(RelaxError::DefineRulesMixesChoiceAndInterleave {
-                this_span,
-                that_span,
+                // the later of the two is reported as the error, and the earlier as what it is in
+                // conflict with
+                this_span: that_span,
+                that_span: this_span,
             }),
         }
     }
-- 
2.43.0


From e9cb419f3f6025c35edcec98380638f011e15e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:05 +0000
Subject: [PATCH 77/77] fix: a file which refers to itself in a roundabout way
 is recognised

The name of an included or external file kept its '.' and '..' parts, so a
file which refers to itself as 'dir/../itself' had a different name each
time, and loading it never ended.
---
 relaxng-model/src/lib.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/relaxng-model/src/lib.rs b/relaxng-model/src/lib.rs
index c6fb11e..e5a805e 100644
--- a/relaxng-model/src/lib.rs
+++ b/relaxng-model/src/lib.rs
@@ -16,7 +16,7 @@ use std::fs::File;
 use std::io;
 use std::io::Read;
 use std::ops::Range;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::rc::Rc;
 use std::sync::Arc;
 
@@ -672,6 +672,23 @@ impl<'a> Context<'a> {
     }
 }
 
+/// Removes '.' and '..' from the name of a file which another file refers to, so that the name is
+/// the same however often it was reached in a roundabout way, and a file which includes itself is
+/// recognised
+fn remove_dot_segments(path: &Path) -> PathBuf {
+    let mut result = PathBuf::new();
+    for part in path.components() {
+        match (part, result.components().next_back()) {
+            (Component::CurDir, _) => (),
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                result.pop();
+            }
+            _ => result.push(part),
+        }
+    }
+    result
+}
+
 pub trait Files {
     fn load(&self, name: &Path) -> Result<String, RelaxError>;
 }
@@ -1471,6 +1488,7 @@ impl<FS: Files> Compiler<FS> {
             .parent()
             .unwrap_or(name)
             .join(inc.0.as_string_value());
+        let path = remove_dot_segments(&path);
         let span = ctx
             .file()
             .span
@@ -1777,6 +1795,7 @@ impl<FS: Files> Compiler<FS> {
             .parent()
             .unwrap_or(name)
             .join(external.0.as_string_value());
+        let path = remove_dot_segments(&path);
         let span = ctx.convert_span(&(external.0).0);
         let (file, s) = self
             .get_schema(&path)
-- 
2.43.0

