From e4e77584af0e1107bb5b2e927fe275564d762f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 01/10] fix: record a symbol's name before its code can be seen
 by other threads

---
 src/symbols.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/symbols.rs b/src/symbols.rs
index 5d736a3..ce797d8 100644
--- a/src/symbols.rs
+++ b/src/symbols.rs
@@ -70,13 +70,12 @@ pub fn get_code(name: &str) -> Result<u32, Error> {
         return Ok(*code);
     }
 
+    // The name is recorded while the code register is still locked, so that no other
+    // thread can obtain the code before its name is available.
+    let mut names = get_name_register().write()?;
     let code = SYMBOL_ID.fetch_add(1, Ordering::SeqCst);
-    register.insert(name.clone(), code);
-    drop(register);
-
-    let mut register = get_name_register().write()?;
-    register.insert(code, name);
-    drop(register);
+    names.insert(code, name.clone());
+    register.insert(name, code);
 
     Ok(code)
 }
-- 
2.43.0


From 9de485b5b9130b999d5f1299b12798f5cb4f22c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:16 +0000
Subject: [PATCH 02/10] fix: skip multi-byte whitespace by its whole length
 when tokenising

---
 src/parser/iterator.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index acd88f1..6eafb72 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -57,8 +57,8 @@ impl<'a> Iterator for TokenIterator<'a> {
             let index_end = self.current + brk.index();
             self.current += brk.index();
 
-            if brk.is_ignore() {
-                self.current += 1;
+            if let Break::Ignore(_, c) = brk {
+                self.current += c.len_utf8();
             }
 
             if brk.is_end() {
@@ -133,11 +133,6 @@ impl Break {
         matches!(self, Break::End(_))
     }
 
-    #[inline]
-    fn is_ignore(self) -> bool {
-        matches!(self, Break::Ignore(_, _))
-    }
-
     #[inline]
     fn is_token(self) -> bool {
         matches!(self, Break::Token(_, _))
-- 
2.43.0


From 9428f3d59d23b28e21c1fed40fcf5aa2c34322df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 03/10] fix: keep operator tokens that follow leading or
 repeated whitespace

---
 src/parser/iterator.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parser/iterator.rs b/src/parser/iterator.rs
index 6eafb72..e72c652 100644
--- a/src/parser/iterator.rs
+++ b/src/parser/iterator.rs
@@ -37,7 +37,7 @@ impl<'a> Iterator for TokenIterator<'a> {
             let brk = next_break(text, index);
 
             if let Break::Token(i, c) = brk {
-                if i == 0 {
+                if i == index {
                     let mut chars : Vec<char> = vec![c];
                     let mut lookahead = next_break(text, index + 1);
                     while lookahead.is_token() && lookahead.index() == index + chars.len() {
@@ -45,9 +45,9 @@ impl<'a> Iterator for TokenIterator<'a> {
                         lookahead = next_break(text, index + chars.len())
                     }
 
-                    let index_start = self.current;
-                    let index_end = self.current + chars.len();
-                    self.current += chars.len();
+                    let index_start = self.current + index;
+                    let index_end = index_start + chars.len();
+                    self.current = index_end;
 
                     return Some(Token::new(&text[index..index + chars.len()], index_start, index_end));
                 }
-- 
2.43.0


From 91a74d0879d2f2793f8a75b9952abcaa9055c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 04/10] fix: do not panic when matching contexts at positions
 outside the string

---
 src/productions.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/productions.rs b/src/productions.rs
index 0b80a52..5322648 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -140,7 +140,12 @@ impl ProductionHead {
             return left.is_empty();
         }
 
-        let symbols: Vec<_> = string.symbols()[0..index].iter().rev().collect();
+        let before = match string.symbols().get(0..index) {
+            Some(before) => before,
+            None => return false    // The index is outside of the string.
+        };
+
+        let symbols: Vec<_> = before.iter().rev().collect();
         if symbols.len() < left.len() {
             return false;
         }
@@ -155,8 +160,8 @@ impl ProductionHead {
 
         let right = self.post.as_ref().unwrap();
 
-        if index == string.len() - 1 {
-            return right.is_empty();
+        if index >= string.len() {
+            return false;   // The index is outside of the string.
         }
 
         let symbols = string.symbols()[index + 1 ..].to_vec();
-- 
2.43.0


From 5340290d49557d5beb4550e267582e9be09246c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 05/10] fix: accept a chance of zero, which try_with_chance
 allows, instead of panicking

---
 src/productions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/productions.rs b/src/productions.rs
index 5322648..3da577a 100644
--- a/src/productions.rs
+++ b/src/productions.rs
@@ -37,7 +37,7 @@ pub struct Chance {
 impl Chance {
     /// Creates a new [`ChanceKind::Set`] chance value.
     pub fn new(chance: f32) -> Self {
-        assert!(chance > 0_f32, "chance should be positive");
+        assert!(chance >= 0_f32, "chance should not be negative");
         assert!(chance <= 1.0_f32, "chance should be less than or equal to 1.0");
 
         Chance {
-- 
2.43.0


From 4e7ca97de043488d7f069f7b9de8091ee5899768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:40 +0000
Subject: [PATCH 06/10] fix: report missing symbols and unbalanced branches as
 errors when interpreting

---
 src/interpretation/abop.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/interpretation/abop.rs b/src/interpretation/abop.rs
index 28ecdf2..9894f6e 100644
--- a/src/interpretation/abop.rs
+++ b/src/interpretation/abop.rs
@@ -83,12 +83,15 @@ impl Interpretation for AbopTurtleInterpretation {
                                  tokens: &S,
                                  string: &ProductionString) -> crate::Result<Self::Item> {
         // We need token values to interpret the strings.
-        let forward = tokens.get_symbol("Forward").unwrap();
-        let space = tokens.get_symbol("Move").unwrap();
-        let right = tokens.get_symbol("+").unwrap();
-        let left = tokens.get_symbol("-").unwrap();
-        let push = tokens.get_symbol("[").unwrap();
-        let pop = tokens.get_symbol("]").unwrap();
+        let find = |name: &str| tokens.get_symbol(name)
+            .ok_or_else(|| Error::execution(format!("symbol '{name}' is not defined")));
+
+        let forward = find("Forward")?;
+        let space = find("Move")?;
+        let right = find("+")?;
+        let left = find("-")?;
+        let push = find("[")?;
+        let pop = find("]")?;
 
         // We will interpret the tokens as instructions to a LOGO turtle. The following
         // variables keep track of the position that we're at and the direction we're facing.
@@ -119,7 +122,8 @@ impl Interpretation for AbopTurtleInterpretation {
             } else if token == push {               // interpret push tokens. This starts "a branch" of the plant.
                 pos_stack.push((pos, dir));
             } else if token == pop {                // interpret pop tokens. This ends "a branch", returning to where the branch started.
-                (pos, dir) = pos_stack.pop().expect("Nothing to pop");
+                (pos, dir) = pos_stack.pop()
+                    .ok_or_else(|| Error::execution("a branch is finished without having been started"))?;
                 if path.len() > 1 {
                     paths.push(path)
                 }
-- 
2.43.0


From e606f9825e841617923e17370a970e7be2e9dd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:52 +0000
Subject: [PATCH 07/10] fix: do not panic when a drawing without bounds is
 rendered as an SVG

---
 src/interpretation/svg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 78194cd..24cb300 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -90,7 +90,7 @@ impl<T> Interpretation for SvgPathInterpretation<T>
         let paths = self.initial.interpret(tokens, string)?;
         let bounds = paths.bounds();
 
-        let center = bounds.as_ref().unwrap().center();
+        let center = bounds.as_ref().map(|bounds| bounds.center()).unwrap_or_default();
         let canvas_centre = Point::new(self.width as f64 / 2.0, self.height as f64 / 2.0);
 
         let scale = bounds.as_ref()
-- 
2.43.0


From ab454fbe14f793825b78be7c22e778a597f723e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 08/10] fix: an empty path has no bounds

---
 src/geometry.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/geometry.rs b/src/geometry.rs
index 7732e6b..15de0ac 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -380,6 +380,10 @@ impl Bounds for Path {
     /// Returns the bounds for the path.
 
     fn bounds(&self) -> Option<BoundingBox> {
+        if self.is_empty() {
+            return None
+        }
+
         let mut bounds = BoundingBox::initial_infinite();
 
         let mut center = Point::zero();
-- 
2.43.0


From 98bc72b2a189cb8db7bd6575248b50ee782f3be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 09/10] fix: escape text used in SVG attributes

---
 src/interpretation/svg.rs | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/interpretation/svg.rs b/src/interpretation/svg.rs
index 24cb300..9ebc749 100644
--- a/src/interpretation/svg.rs
+++ b/src/interpretation/svg.rs
@@ -143,6 +143,27 @@ pub trait SvgElement : Debug {
 
 }
 
+/// Escapes text so that it can be used as the value of an XML attribute.
+fn escape(text: &str) -> String {
+    let mut result = String::with_capacity(text.len());
+
+    for c in text.chars() {
+        match c {
+            '&' => result.push_str("&amp;"),
+            '<' => result.push_str("&lt;"),
+            '>' => result.push_str("&gt;"),
+            '"' => result.push_str("&quot;"),
+            '\'' => result.push_str("&apos;"),
+            '\t' | '\n' | '\r' => result.push(c),
+            // These characters are not allowed in XML documents.
+            '\0'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => result.push('\u{FFFD}'),
+            _ => result.push(c)
+        }
+    }
+
+    result
+}
+
 #[derive(Debug, Clone)]
 pub struct Svg {
     elements: Vec<Rc<dyn SvgElement>>,
@@ -215,10 +236,10 @@ impl SvgElement for SvgPath {
         string.push_str("<path");
 
         if let Some(fill) = self.fill() {
-            string.push_str(format!(" fill=\"{}\"", fill).as_str());
+            string.push_str(format!(" fill=\"{}\"", escape(fill)).as_str());
         }
         if let Some(stroke) = self.stroke() {
-            string.push_str(format!(" stroke=\"{}\"", stroke).as_str());
+            string.push_str(format!(" stroke=\"{}\"", escape(stroke)).as_str());
         }
 
         if !self.is_empty() {
@@ -254,8 +275,8 @@ pub struct SvgDecorations {
 impl SvgDecorations {
     pub fn to_attr_string(&self) -> String {
         [
-            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", fill)).unwrap_or_default(),
-            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", stroke)).unwrap_or_default(),
+            self.fill.as_ref().map(|fill| format!("fill=\"{}\"", escape(fill))).unwrap_or_default(),
+            self.stroke.as_ref().map(|stroke| format!("stroke=\"{}\"", escape(stroke))).unwrap_or_default(),
             self.stroke_width.as_ref().map(|width| format!("stroke-width=\"{}\"", width)).unwrap_or_default()
         ].join(" ")
 
-- 
2.43.0


From 359510698afbc530d089f14ff688c3a666fa0d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 10/10] fix: do not panic on file names that are not UTF-8

---
 src/bin/lsystem/derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/lsystem/derive.rs b/src/bin/lsystem/derive.rs
index 2798540..cbc2b79 100644
--- a/src/bin/lsystem/derive.rs
+++ b/src/bin/lsystem/derive.rs
@@ -9,7 +9,7 @@ use crate::cli::{Cli, InterpretationArgs};
 
 pub fn handle_derive(args: &Cli, derive: &InterpretationArgs) -> ExitCode {
     if args.verbose {
-        print!("Reading {} ", derive.file.to_str().unwrap());
+        print!("Reading {} ", derive.file.to_string_lossy());
     }
 
     let (interpretation, system, axiom) = {
-- 
2.43.0

