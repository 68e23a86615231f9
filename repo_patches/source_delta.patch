From c4befb3c5c5ca5614a4576fa99f08a80281cd64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 01/23] fix: lexer hangs on a backslash at the very end of a
 file

`consume_char' advanced past the end of the source and then looked for a
character boundary that can never be found.
---
 crates/seam/src/parse/lexer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 8e5f40e..fc8523c 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -140,6 +140,9 @@ impl<'a> Lexer {
     /// Returns `None` if file is at EOF.
     fn consume_char(&self) -> Option<char> {
         let c = self.peek_char();
+        if c.is_none() {
+            return None; // Nothing left to advance past.
+        }
         self.increment_byte_offsets(1);
         while !self.source.is_char_boundary(self.byte_offset.get()) {
             self.increment_byte_offsets(1);
-- 
2.43.0


From 7b4f7893572654317024b8eba9a54ec54377590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 02/23] fix: newlines inside strings and escaped newlines are
 counted twice

`consume_char' already moves on to the next line when it consumes a
newline, so everything after a multi-line string was reported on the
wrong line.
---
 crates/seam/src/parse/lexer.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index fc8523c..99be845 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -188,11 +188,8 @@ impl<'a> Lexer {
             let Some(kind) = character_kind(c) else { break };
             // Symbols can contain escaped characters.
             if c == '\\' {
-                let   _ = self.consume_char(); // `\`.
-                let esc = self.consume_char(); // escaped char.
-                if esc == Some('\n') {
-                    self.next_line(); // NOTE: Disallow this?
-                }
+                let _ = self.consume_char(); // `\`.
+                let _ = self.consume_char(); // escaped char.
                 continue;
             }
             // Characters that fit in a symbol or number are valid idents.
@@ -236,7 +233,6 @@ impl<'a> Lexer {
                         String::from("Unclosed triple-quoted string."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if self.starts_with(r#"""""#) && !reading_escape {
                     break;  // End-of-string.
                 }
@@ -267,7 +263,6 @@ impl<'a> Lexer {
                         String::from("Unclosed string quote (`\"')."),
                         site));
                 };
-                if next_char == '\n' { self.next_line(); }
                 if next_char == '"' && !reading_escape {
                     break;  // End-of-string.
                 }
-- 
2.43.0


From f00022b0841c1ae4f28f64ad972923b4456f73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 03/23] fix: symbols spanning an escaped newline are located on
 their last line

Their column was already the one on the first line; take the line from
there as well, as is done for strings.
---
 crates/seam/src/parse/lexer.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/seam/src/parse/lexer.rs b/crates/seam/src/parse/lexer.rs
index 99be845..29e8b81 100644
--- a/crates/seam/src/parse/lexer.rs
+++ b/crates/seam/src/parse/lexer.rs
@@ -173,9 +173,11 @@ impl<'a> Lexer {
 
     fn consume_number(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Number, value, whitespace, site)
     }
 
@@ -207,9 +209,11 @@ impl<'a> Lexer {
     /// Consume a symbol/identifier token.
     fn consume_symbol(&'a self, whitespace: &'a str) -> Token<'a> {
         let start = self.byte_offset.get();
+        let line_no = self.line.get();
         let line_offset = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start, line_offset);
+        let mut site: Site = self.site(start, line_offset);
+        site.line = line_no;
         Token::new(tokens::Kind::Symbol, value, whitespace, site)
     }
 
@@ -288,9 +292,11 @@ impl<'a> Lexer {
     fn consume_keyword(&'a self, whitespace: &'a str) -> Token<'a> {
         assert_eq!(':', self.consume_char().expect("consumed token at eof"));
         let start = self.byte_offset.get();  // Leave colon out of token value.
+        let line_no = self.line.get();
         let start_from_line = self.byte_offset_line.get();
         let value: &str = self.consume_identifier_string();
-        let site: Site = self.site(start - 1, start_from_line  - 1);
+        let mut site: Site = self.site(start - 1, start_from_line  - 1);
+        site.line = line_no;
         Token::new(tokens::Kind::Keyword, value, whitespace, site)
     }
 
-- 
2.43.0


From fbbb71e8ae50e5d59847ef4aa0fc92475e3063f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 04/23] fix: an escaped backslash in a symbol is dropped along
 with its escape

---
 crates/seam/src/parse/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/parser.rs b/crates/seam/src/parse/parser.rs
index 00fcc16..3f98d76 100644
--- a/crates/seam/src/parse/parser.rs
+++ b/crates/seam/src/parse/parser.rs
@@ -522,7 +522,13 @@ fn escape_sanitize(string: &str) -> String {
     let mut builder = String::with_capacity(string.len());
     let mut chars = string.chars();
     while let Some(c) = chars.next() {
-        if c == '\\' { continue; }
+        if c == '\\' {
+            // Keep whatever was escaped, even if it is a backslash.
+            if let Some(escaped) = chars.next() {
+                builder.push(escaped);
+            }
+            continue;
+        }
         builder.push(c)
     }
     builder
-- 
2.43.0


From 27a59f55b3f35ba0bf7ae1a4eb778ea591afa715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 05/23] fix: generating HTML or XML panics when a tag's name is
 the empty symbol

---
 crates/seam/src/assemble/html.rs | 5 +++++
 crates/seam/src/assemble/xml.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index ee67a97..9cb7068 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -57,6 +57,11 @@ impl<'a> HTMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("HTML",
+                                "HTML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 4a3e76e..e8fa304 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -44,6 +44,11 @@ impl<'a> XMLFormatter<'a> {
                 if let Some(head_node) = head {
                     if let ParseNode::Symbol(head_symbol) = head_node {
                         tag = &head_symbol.value;
+                        if tag.is_empty() {
+                            return Err(GenerationError::new("XML",
+                                "XML tags cannot have an empty name.",
+                                head_node.site()));
+                        }
                         write!(f, "<{}", tag)?;
                     } else {
                         // Error, tags can only have symbol values.
-- 
2.43.0


From f9343d3db745e531d6da640a8d41609d3ff49356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 06/23] fix: XML declarations run their name and symbols
 together

`(!DOCTYPE note)' became `<!DOCTYPEnote>'.
---
 crates/seam/src/assemble/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index e8fa304..94cf297 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -70,7 +70,7 @@ impl<'a> XMLFormatter<'a> {
                 if front == '!' || front == '?' {
                     while !rest.is_empty() {
                         if let Some(node) = rest[0].symbolic() {
-                            write!(f, "{}", node.value)?;
+                            write!(f, " {}", node.value)?;
                         } else if let attr@ParseNode::Attribute { .. } = &rest[0] {
                             write!(f, " {}", display_attribute(attr)?)?;
                         } else {
-- 
2.43.0


From fc5746a092eefa831e16fcf3b87063db283e7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 07/23] fix: raw-content strings are rejected when generating
 XML

They are meant to end up verbatim in the output, as they do in HTML.
---
 crates/seam/src/assemble/xml.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 94cf297..805fcdb 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -37,6 +37,11 @@ impl<'a> XMLFormatter<'a> {
                 write!(f, "{}", node.leading_whitespace)?;
                 write!(f, "{}", escape_xml(&node.value))?
             },
+            ParseNode::Raw(node) => {
+                // Don't escape any symbols in a raw-content string.
+                write!(f, "{}", node.leading_whitespace)?;
+                write!(f, "{}", &node.value)?;
+            },
             ParseNode::List { nodes: list, leading_whitespace, end_token, .. } => {
                 write!(f, "{}", leading_whitespace)?;
                 let head = list.first();
-- 
2.43.0


From 734ea81b6e5de32151d992b4e92c39b546b51a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:49 +0000
Subject: [PATCH 08/23] fix: attribute values are written unescaped to HTML and
 XML

A value with a double quote in it ended the attribute early.
---
 crates/seam/src/assemble/html.rs | 6 +++++-
 crates/seam/src/assemble/xml.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/assemble/html.rs b/crates/seam/src/assemble/html.rs
index 9cb7068..475a1cb 100644
--- a/crates/seam/src/assemble/html.rs
+++ b/crates/seam/src/assemble/html.rs
@@ -101,7 +101,11 @@ impl<'a> HTMLFormatter<'a> {
                             = if leading_whitespace.is_empty()
                               { " " } else { leading_whitespace };
                         write!(f, "{}", leading_whitespace)?;
-                        write!(f, "{}=\"{}\"", keyword, atom.value)?;
+                        match **node {
+                            // Raw-content strings are never escaped.
+                            ParseNode::Raw(..) => write!(f, "{}=\"{}\"", keyword, atom.value)?,
+                            _ => write!(f, "{}=\"{}\"", keyword, escape_xml(&atom.value))?,
+                        }
                         rest = &rest[1..];
                     } else {
                         // Error! Cannot be non atomic.
diff --git a/crates/seam/src/assemble/xml.rs b/crates/seam/src/assemble/xml.rs
index 805fcdb..ba9d227 100644
--- a/crates/seam/src/assemble/xml.rs
+++ b/crates/seam/src/assemble/xml.rs
@@ -178,7 +178,11 @@ fn display_attribute<'a>(attr: &parser::ParseNode<'a>) -> Result<String, Generat
         panic!("Passed non-attribute to display_attribute.")
     };
     if let Some(symbol) = (*node).atomic() {
-        Ok(format!("{}=\"{}\"", keyword, symbol.value))
+        Ok(match **node {
+            // Raw-content strings are never escaped.
+            ParseNode::Raw(..) => format!("{}=\"{}\"", keyword, symbol.value),
+            _ => format!("{}=\"{}\"", keyword, escape_xml(&symbol.value)),
+        })
     } else {
         Err(GenerationError::new("XML",
             "Attribute can only contain symbols, numbers or strings",
-- 
2.43.0


From 109f321939c56a62e0bb351aae3feaa32e9389df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 09/23] fix: CSS rules without selectors panic, and without
 properties are rejected

The error for missing selectors took its location from the very selector
that is missing, and the index of the first property was one too small
when there are only selectors.
---
 crates/seam/src/assemble/css.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 41aa1c7..8c832af 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -1,6 +1,7 @@
 //! Assembles an expanded tree into valid CSS.
 use super::{GenerationError, MarkupFormatter, Formatter};
 use crate::parse::parser::{ParseNode, ParseTree};
+use crate::parse::tokens::UNKNOWN_SITE;
 
 use std::slice::Iter;
 
@@ -192,13 +193,13 @@ fn generate_special_selector<'a>(f: Formatter,
 }
 
 fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<(), GenerationError<'a>> {
-    let mut prop_i = 0; // Index of first property.
     // TODO: Selector functions such as nth-child(...), etc.
     // e.g. (ul li(:nth-child (+ 2n 1))) -> ul li:nth-child(2n + 1).
+    // Index of first property.
+    let prop_i = iter.clone().take_while(|n| n.atomic().is_some()).count();
     let mut selectors = iter.clone()
-        .take_while(|n| { prop_i += 1; n.atomic().is_some() })
-        .map(|n| n.atomic().unwrap()) // We've checked.
-        .peekable();
+        .take(prop_i)
+        .map(|n| n.atomic().unwrap()); // We've checked.
 
     // Check we were actually provided with
     // some selectors.
@@ -208,7 +209,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
         return Err(GenerationError::new("CSS",
             "CSS selector(s) missing. \
              Expected a symbol/identifier node, none was found!",
-             &selectors.peek().unwrap().site));
+             iter.as_slice().first().map_or(&UNKNOWN_SITE, |node| node.site())));
     };
 
     // Handle special @-rule selectors.
@@ -225,7 +226,7 @@ fn generate_css_rule<'a>(f: Formatter, iter: Iter<'a, ParseNode<'a>>) -> Result<
     }
     writeln!(f, "{{")?;
 
-    let properties = iter.skip(prop_i - 1);
+    let properties = iter.skip(prop_i);
 
     for property in properties {
         let ParseNode::Attribute { ref node, ref keyword, .. } = property else {
-- 
2.43.0


From faae0dd620591cd49096bd775371242016e43f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 10/23] fix: CSS @-rules without nested rules end in an
 unmatched brace

As the comment above has it, `(@symbol arg)' becomes `@symbol arg;'.
---
 crates/seam/src/assemble/css.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/assemble/css.rs b/crates/seam/src/assemble/css.rs
index 8c832af..1f7a9c5 100644
--- a/crates/seam/src/assemble/css.rs
+++ b/crates/seam/src/assemble/css.rs
@@ -188,7 +188,11 @@ fn generate_special_selector<'a>(f: Formatter,
             }
         }
     }
-    write!(f, "}}")?;
+    if parsing_rules {
+        write!(f, "}}")?;
+    } else {
+        write!(f, ";")?; // No nested rules, so no body was opened.
+    }
     Ok(())
 }
 
-- 
2.43.0


From 00b281c9fea62884a987ef4c89a27dfa87ab0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 11/23] fix: expanding an attribute whose value expands to
 nothing panics

e.g. `(p :class (%do))'.
---
 crates/seam/src/parse/expander.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 15bdf86..4219327 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1837,8 +1837,13 @@ impl<'a> Expander<'a> {
             },
             ParseNode::Attribute { keyword, node, site, leading_whitespace } => {
                 let mut expanded_nodes = self.expand_node(*node)?;
-                let new_node = Box::new(expanded_nodes[0].clone());
-                expanded_nodes[0] = ParseNode::Attribute {
+                let Some(first) = expanded_nodes.first_mut() else {
+                    return Err(ExpansionError(
+                        format!("The value of attribute `:{}` expanded to nothing.", keyword),
+                        site.to_owned()))
+                };
+                let new_node = Box::new(first.clone());
+                *first = ParseNode::Attribute {
                     keyword: keyword.clone(),
                     node: new_node,
                     site: site.clone(),
-- 
2.43.0


From 71ed59f19a6f774c821095cdb7ca408a6600107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 12/23] fix: macro invocation nodes are used after being freed

Registering a nested invocation may move all nodes registered so far,
while references to them are still in use.
---
 crates/seam/src/parse/expander.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 4219327..12a9344 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -91,7 +91,7 @@ pub struct Expander<'a> {
     includes: BTreeSet<PathBuf>,
     subparsers: RefCell<Vec<Parser>>,
     subcontexts: RefCell<Vec<Self>>,
-    invocations: RefCell<Vec<ParseNode<'a>>>,
+    invocations: RefCell<Vec<Box<ParseNode<'a>>>>, //< Boxed, references to the nodes are handed out.
     definitions: Scope<'a>,
 }
 
@@ -163,7 +163,7 @@ impl<'a> Expander<'a> {
     fn register_invocation(&self, node: ParseNode<'a>) -> &ParseNode<'a> {
         let invocations = self.invocations.as_ptr();
         unsafe {
-            (*invocations).push(node);
+            (*invocations).push(Box::new(node));
             (*invocations).last().unwrap()
         }
     }
-- 
2.43.0


From ecd4c4a3e0fd8700b7ac0805a2fd82a7b2f6ec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 13/23] fix: source of a file included from within a macro is
 used after being freed

The parser of the included file was owned by the subcontext of the macro
being applied, and was dropped together with it.
---
 crates/seam/src/parse/expander.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 12a9344..9654a69 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -89,7 +89,9 @@ pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
     includes: BTreeSet<PathBuf>,
-    subparsers: RefCell<Vec<Parser>>,
+    /// Parsers of included files, shared with all subcontexts since the
+    /// nodes they produce outlive the subcontext they were included from.
+    subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
     subcontexts: RefCell<Vec<Self>>,
     invocations: RefCell<Vec<Box<ParseNode<'a>>>>, //< Boxed, references to the nodes are handed out.
     definitions: Scope<'a>,
@@ -100,7 +102,7 @@ impl<'a> Expander<'a> {
         Self {
             parser,
             includes: BTreeSet::from([PathBuf::from(".")]),
-            subparsers: RefCell::new(Vec::new()),
+            subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
             definitions: RefCell::new(HashMap::new()),
@@ -127,7 +129,7 @@ impl<'a> Expander<'a> {
     fn register_parser(&self, parser: Parser) -> &'a Parser {
         {
             let mut parsers = self.subparsers.borrow_mut();
-            parsers.push(parser);
+            parsers.push(Box::new(parser));
         }
         self.latest_parser().unwrap()
     }
@@ -135,7 +137,7 @@ impl<'a> Expander<'a> {
     /// Get the latest subparser added.
     fn latest_parser(&self) -> Option<&'a Parser> {
         let p = self.subparsers.as_ptr();
-        unsafe { (*p).last() }
+        unsafe { (*p).last().map(|parser| &**parser) }
     }
 
     /// Create and register a subcontext built from the current context.
-- 
2.43.0


From 18097ab46ab329fddc236183e648d58f472e9120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 14/23] fix: named arguments captured by a &&-parameter come
 out in random order

---
 crates/seam/src/parse/expander.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 9654a69..abeb789 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -387,12 +387,13 @@ impl<'a> Expander<'a> {
         if let Some(rest_kw_node) = rest_kw_node {
             let rest_kw_symbol = rest_kw_node.symbol().unwrap();
             let rest_kw_name = &rest_kw_symbol.value[2..];
-            // Collect the named arguments.
-            let attrs: Vec<String> = rhs_named.keys().cloned().collect();
-            let mut nodes = Vec::with_capacity(attrs.len());
-            for attr in attrs {
-                let named = rhs_named.remove(&attr).unwrap();
-                nodes.push(named.clone());
+            // Collect the named arguments, in the order they were given.
+            let mut nodes = Vec::with_capacity(rhs_named.len());
+            for node1 in nodes1.iter() {
+                let ParseNode::Attribute { keyword, .. } = node1 else { continue };
+                if let Some(named) = rhs_named.remove(keyword) {
+                    nodes.push(named.clone());
+                }
             }
             // Insert the &&-variable.
             self.insert_variable(rest_kw_name.to_string(), Rc::new(Macro {
-- 
2.43.0


From e2c2ea6f2b5ad7b7173f295fe1aa08fa0ae2e2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 15/23] fix: %sort panics or misorders lists mixing numbers and
 other text

The comparison was not transitive: `9' < `10' < `1a' < `9'.
---
 crates/seam/src/parse/expander.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index abeb789..879c774 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1420,6 +1420,12 @@ impl<'a> Expander<'a> {
             key: String,
         }
 
+        /// Value of a key that is a (finite) number, as a float and as an integer.
+        fn numeric_key(key: &str) -> Option<(f64, i64)> {
+            let float = key.parse::<f64>().ok().filter(|float| float.is_finite())?;
+            Some((float, key.parse::<i64>().unwrap_or(float as i64)))
+        }
+
         let ParseNode::List { nodes, site, end_token, .. } = args.number.1 else {
             return Err(ExpansionError(
                 format!("`%sort` expects a list, was given {}.", args.number.1.node_type()),
@@ -1467,16 +1473,17 @@ impl<'a> Expander<'a> {
         // Sort by the evaluated .key string.
         items.sort_by(|item0, item1| {
             let (item0, item1) = if ascending { (item0, item1) } else { (item1, item0) };
-            // First try to compare as integers, failing that, as floats, and then strings.
-            if let (Ok(n0), Ok(n1)) = (item0.key.parse::<i64>(), item1.key.parse::<i64>()) {
-                return n0.cmp(&n1)
-            }
-            if let (Ok(f0), Ok(f1)) = (item0.key.parse::<f64>(), item1.key.parse::<f64>()) {
-                if let Some(ord) = f0.partial_cmp(&f1) {
-                    return ord;
-                }
+            // Numbers are compared as floats and then, if those are equal, as integers
+            // (not all large integers have a float of their own).
+            // All numbers come before any other string.
+            match (numeric_key(&item0.key), numeric_key(&item1.key)) {
+                (Some((f0, n0)), Some((f1, n1))) => f0.partial_cmp(&f1)
+                    .unwrap_or(std::cmp::Ordering::Equal)
+                    .then(n0.cmp(&n1)),
+                (Some(_), None) => std::cmp::Ordering::Less,
+                (None, Some(_)) => std::cmp::Ordering::Greater,
+                (None, None) => item0.key.cmp(&item1.key),
             }
-            item0.key.cmp(&item1.key)
         });
         // Extract nodes and amend whitespace.
         let nodes = items.into_iter().map(|item| {
-- 
2.43.0


From aa365533764f81705c225d3e5aafd1b5e26b99bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 16/23] fix: large timezone offsets overflow in %date and
 %timestamp

---
 crates/seam/src/parse/expander.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 879c774..0f9c163 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -886,9 +886,12 @@ impl<'a> Expander<'a> {
             optional("timezone"): number,
         }?;
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|offset| offset.checked_mul_int(60 * 60))
+                .and_then(|offset| offset.checked_round())
+            {
+                Some(offset) => offset.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
@@ -939,9 +942,12 @@ impl<'a> Expander<'a> {
         let date_string = args.number.2.value;
 
         let timezone_offset: i32 = match args.timezone {
-            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>() {
-                Ok(offset) => (offset * 60 * 60).round().to_num(),
-                Err(_) => return Err(ExpansionError::new(
+            Some(ref offset) => match offset.value.parse::<fixed::types::I32F32>().ok()
+                .and_then(|offset| offset.checked_mul_int(60 * 60))
+                .and_then(|offset| offset.checked_round())
+            {
+                Some(offset) => offset.to_num(),
+                None => return Err(ExpansionError::new(
                     "Invalid (decimal) timezone offset in hours.",
                     &offset.site,
                 )),
-- 
2.43.0


From c40520191a215610887988a064f4d3c50a886af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 17/23] fix: %date panics when given an invalid format string

---
 crates/seam/src/parse/expander.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 0f9c163..a812269 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -898,7 +898,7 @@ impl<'a> Expander<'a> {
             },
             None => chrono::Local::now().offset().local_minus_utc(),
         };
-        let date_format = args.number.1.value;
+        let date_format = &args.number.1.value;
         let time = if let Some(time) = args.number.2 {
             let Ok(secs) = time.value.parse::<i64>() else {
                 return Err(ExpansionError::new(
@@ -921,7 +921,13 @@ impl<'a> Expander<'a> {
             ));
         };
         let time = time.with_timezone(&timezone);
-        let formatted = time.format(&date_format).to_string();
+        let mut formatted = String::new();
+        if fmt::Write::write_fmt(&mut formatted, format_args!("{}", time.format(date_format))).is_err() {
+            return Err(ExpansionError::new(
+                "Invalid date format.",
+                &args.number.1.site,
+            ));
+        }
         let date_string_node = ParseNode::String(Node {
             value: formatted,
             site: node.site().clone(),
-- 
2.43.0


From 4a39447c36fa04ae215b5bcf446882473927633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 18/23] fix: include directories are searched alphabetically,
 not in the given order

---
 crates/seam/src/bin.rs            |  5 ++---
 crates/seam/src/parse/expander.rs | 14 +++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index 0e7db87..bbaa9da 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -1,7 +1,6 @@
 use seam;
 use seam::assemble::MarkupFormatter;
 
-use std::collections::BTreeSet;
 use std::{io, env};
 use std::path::PathBuf;
 use std::error::Error;
@@ -24,7 +23,7 @@ fn main() -> Result<(), Box<dyn Error>> {
     // Command line flags and options.
     let mut files = Vec::new();
     let mut target = String::from("");
-    let mut include_dirs: BTreeSet<PathBuf> = Default::default();
+    let mut include_dirs: Vec<PathBuf> = Default::default();
     let mut from_stdin = false;
     let mut is_doc = true;
 
@@ -51,7 +50,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                     [b'I', ..] => {
                         let dir = &arg.as_str()[2..];
                         let dir = PathBuf::from(dir);
-                        include_dirs.insert(dir);
+                        include_dirs.push(dir);
                     },
                     [] => {
                         from_stdin = true;
diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index a812269..e8ee692 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -8,10 +8,7 @@ use std::{
     ffi::OsString,
     error::Error,
     rc::Rc,
-    collections::{
-        HashMap,
-        BTreeSet,
-    },
+    collections::HashMap,
 };
 
 use chrono::TimeZone;
@@ -88,7 +85,7 @@ pub type Scope<'a> = RefCell<HashMap<String, Rc<Macro<'a>>>>; // Can you believe
 pub struct Expander<'a> {
     parser: Parser,
     /// Include directories, in order of search.
-    includes: BTreeSet<PathBuf>,
+    includes: Vec<PathBuf>,
     /// Parsers of included files, shared with all subcontexts since the
     /// nodes they produce outlive the subcontext they were included from.
     subparsers: Rc<RefCell<Vec<Box<Parser>>>>,
@@ -101,7 +98,7 @@ impl<'a> Expander<'a> {
     pub fn new(parser: Parser) -> Self {
         Self {
             parser,
-            includes: BTreeSet::from([PathBuf::from(".")]),
+            includes: vec![PathBuf::from(".")],
             subparsers: Rc::new(RefCell::new(Vec::new())),
             subcontexts: RefCell::new(Vec::new()),
             invocations: RefCell::new(Vec::new()),
@@ -121,7 +118,10 @@ impl<'a> Expander<'a> {
         where T::Item: Into<PathBuf>
     {
         for dir in dirs {
-            self.includes.insert(dir.into());
+            let dir = dir.into();
+            if !self.includes.contains(&dir) {
+                self.includes.push(dir);
+            }
         }
     }
 
-- 
2.43.0


From d7b472731ae26f62cddf3f545b983bf7b51d999c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:20 +0000
Subject: [PATCH 19/23] fix: refuse YAML aliases and lists as keys instead of
 misreading what follows

---
 crates/seam/src/parse/expander.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index e8ee692..472c7ef 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1945,9 +1945,16 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         modes: Vec<Mode>,
         /// The site of the original YAML-parsing macro.
         site: Site<'a>,
+        /// What the document uses that cannot be represented.
+        unsupported: Option<&'static str>,
     }
 
     impl<'a, 'b> EventSink<'a, 'b> {
+        /// Whether a key of a map must come next.
+        fn expects_key(&self) -> bool {
+            matches!(self.mode, Some(Mode::Map)) && self.defining.is_none()
+        }
+
         fn qualified(&self, name: &str) -> String {
             if self.prefix.is_empty() {
                 name.to_owned()
@@ -1960,6 +1967,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
 
     impl<'a, 'b> yaml::parser::EventReceiver for EventSink<'a, 'b> {
         fn on_event(&mut self, event: yaml::Event) {
+            if self.unsupported.is_some() { return; }
             let the_dreaded_rparen = crate::parse::tokens::Token::new(
                 crate::parse::tokens::Kind::RParen,
                 ")", "", self.site.clone()
@@ -2024,6 +2032,13 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
                         }
                     }
                 },
+                yaml::Event::Alias(..) => {
+                    self.unsupported = Some("aliases");
+                },
+                yaml::Event::MappingStart(..) | yaml::Event::SequenceStart(..)
+                if self.expects_key() => {
+                    self.unsupported = Some("maps or sequences as keys");
+                },
                 // Start parsing a YAML map.
                 yaml::Event::MappingStart(..) => {
                     if let Some(ref defining) = self.defining {
@@ -2114,6 +2129,7 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
         nodes: Vec::new(),
         parent: Vec::new(),
         site: site.clone(),
+        unsupported: None,
     };
 
     yaml::parser::Parser::new_from_str(text)
@@ -2123,6 +2139,13 @@ fn expand_yaml<'a>(context: &Expander<'a>, text: &str, sep: &str, site: &Site<'a
             site.to_owned()
         ))?;
 
+    if let Some(what) = sink.unsupported {
+        return Err(ExpansionError(
+            format!("YAML {} are not supported.", what),
+            site.to_owned()
+        ));
+    }
+
     Ok(sink.nodes.into_boxed_slice())
 }
 
-- 
2.43.0


From 06122bcf1aa205433ef3c929bd00dd05edbb338d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 20/23] fix: list unexpected keyword arguments in the order
 they were given

---
 crates/seam/src/parse/expander.rs | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index 472c7ef..f529f8d 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -404,22 +404,24 @@ impl<'a> Expander<'a> {
         }
         // Any remaining RHS named nodes not covered by the LHS, are excess/errors.
         if !rhs_named.is_empty() {
-            // Go through RHS named nodes and list all the excess/invalid names.
-            let mut excess_keywords: Vec<&str> = vec![];
-            let mut rhs = rhs_named.iter();
-            let (keyword, some_node) = rhs.next().unwrap(); // Non-empty.
-            excess_keywords.push(keyword);
-            for (keyword, _) in rhs {
-                excess_keywords.push(keyword.as_ref());
+            // Go through RHS named nodes and list all the excess/invalid names,
+            // in the order they were given.
+            let mut excess_keywords: Vec<String> = vec![];
+            let mut some_node = assigned;
+            for node1 in nodes1.iter() {
+                let ParseNode::Attribute { keyword, .. } = node1 else { continue };
+                if let Some(named) = rhs_named.remove(keyword) {
+                    if excess_keywords.is_empty() { some_node = named; }
+                    excess_keywords.push(format!("`:{}`", keyword));
+                }
+            }
+            let mut known_keywords: Vec<String> = vec![];
+            for node0 in nodes0.iter() {
+                let ParseNode::Attribute { keyword, .. } = node0 else { continue };
+                if lhs_named.remove(keyword).is_some() {
+                    known_keywords.push(format!("`:{}`", keyword));
+                }
             }
-            let excess_keywords: Vec<String> = excess_keywords
-                .iter()
-                .map(|kw| format!("`:{}`", kw))
-                .collect();
-            let known_keywords: Vec<String> = lhs_named
-                .iter()
-                .map(|(kw, _)| format!("`:{}`", kw))
-                .collect();
             let excess_keywords = excess_keywords.join(", ");
             if known_keywords.is_empty() {
                 return Err(ExpansionError(
-- 
2.43.0


From 488b5ff8696d27a618d3a5ea413ac5ab8e6f15bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:07 +0000
Subject: [PATCH 21/23] fix: let option values contain dashes on the command
 line

---
 crates/seam/src/bin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/bin.rs b/crates/seam/src/bin.rs
index bbaa9da..5c03405 100644
--- a/crates/seam/src/bin.rs
+++ b/crates/seam/src/bin.rs
@@ -29,7 +29,7 @@ fn main() -> Result<(), Box<dyn Error>> {
 
     for arg in args {
         if arg.chars().nth(0) == Some('-') {
-            if let Some(opt) = arg.split("--").nth(1) {
+            if let Some(opt) = arg.strip_prefix("--") {
                 if SUPPORTED_TARGETS.contains(&opt) {
                     target = opt.to_owned();
                     continue;
@@ -39,7 +39,7 @@ fn main() -> Result<(), Box<dyn Error>> {
                    _ => argument_fatal(
                        format!("Unknown argument: `--{}'.", opt))
                 }
-            } else if let Some(opt) = arg.split("-").nth(1) {
+            } else if let Some(opt) = arg.strip_prefix("-") {
                 match opt.as_bytes() {
                     [b'v'] => {
                         let (major, minor, tiny) = seam::VERSION;
-- 
2.43.0


From 19816578bf381fae396892c4983c3db8ef4b887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:24 +0000
Subject: [PATCH 22/23] fix: %glob crashed on dangling symbolic links

---
 crates/seam/src/parse/expander.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/seam/src/parse/expander.rs b/crates/seam/src/parse/expander.rs
index f529f8d..6731737 100644
--- a/crates/seam/src/parse/expander.rs
+++ b/crates/seam/src/parse/expander.rs
@@ -1293,7 +1293,8 @@ impl<'a> Expander<'a> {
                     args.number.1.site.to_owned(),
                 )),
             };
-            let meta = std::fs::metadata(&path).unwrap();
+            // Leave out what points nowhere, e.g. a dangling symbolic link.
+            let Ok(meta) = std::fs::metadata(&path) else { continue };
             match path_types {
                 PathTypes::File if !meta.is_file() => continue,
                 PathTypes::Dir  if !meta.is_dir()  => continue,
-- 
2.43.0


From 050431113ae67cb7f66e27d745dad56499acb7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 23/23] fix: cloning a formatter that has generated overflowed
 the stack

---
 crates/seam/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/seam/src/lib.rs b/crates/seam/src/lib.rs
index 7d6bbb5..7b7e2d4 100644
--- a/crates/seam/src/lib.rs
+++ b/crates/seam/src/lib.rs
@@ -41,8 +41,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $tra:ty) => {
         impl< $($lif),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // A clone of the boxed value, under the vtable of the original.
+                let mut clone: *mut $tra = &**self as *const $tra as *mut $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    *(&mut clone as *mut *mut $tra as *mut *mut ()) = (**self).clone_box();
+                    Box::from_raw(clone)
                 }
             }
         }
@@ -50,8 +53,11 @@ macro_rules! impl_clone_box {
     ($($lif:tt),* ; $($gen:tt),* ; $tra:ty) => {
         impl< $($lif),* , $($gen),* > Clone for Box< $tra > {
             fn clone(&self) -> Box< $tra > {
+                // A clone of the boxed value, under the vtable of the original.
+                let mut clone: *mut $tra = &**self as *const $tra as *mut $tra;
                 unsafe {
-                    *Box::from_raw(self.clone_box() as *mut Self)
+                    *(&mut clone as *mut *mut $tra as *mut *mut ()) = (**self).clone_box();
+                    Box::from_raw(clone)
                 }
             }
         }
-- 
2.43.0

