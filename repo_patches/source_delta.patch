From 4582bb57a7bd26e1e2ece4d8b46a5333e104d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:04 +0000
Subject: [PATCH 01/10] verif: re-export geometry modules under
 cfg(pbrtrs_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b291746..c7c9693 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,10 @@ mod core;
 pub mod parser;
 
 pub use core::matrix::Matrix4;
+
+/// Re-exports of the private geometry modules for the out-of-tree
+/// verification harness. Compiled only with `--cfg pbrtrs_verif`.
+#[cfg(pbrtrs_verif)]
+pub mod verif_hooks {
+    pub use core::*;
+}
-- 
2.43.0


From b48388fb165bbe745594e1a06b551a45cfb685bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:04 +0000
Subject: [PATCH 02/10] fix: consume the end keyword of a block and require it
 to match

parse_directives() left AttributeEnd/TransformEnd/WorldEnd unread, so every
enclosing block ended at the first inner end keyword: everything after the
first nested block was silently dropped, and a block could be closed by the
keyword of another kind (or the enclosing one not closed at all).
---
 src/parser.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..b54e1f0 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1044,15 +1044,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1078,15 +1078,23 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    /// Parses the contents of a block up to and including its closing `end`.
+    fn parse_directives(&mut self, end: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
                 Token {
+                    pos,
                     ty: TokenType::Identifier(ref s),
-                    ..
                 } => {
                     if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                        if s != end {
+                            return Err(ParserError::Str(format!(
+                                "{} parse_directives(): expected {} but got {}",
+                                pos, end, s
+                            )));
+                        }
+                        self.next()?;
                         return Ok(directives);
                     } else {
                         directives.push(self.parse_directive()?);
-- 
2.43.0


From a62776936ad1261fd5720a983bbacc5a1d8fe503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:04 +0000
Subject: [PATCH 03/10] fix: report malformed parameters instead of dropping
 them

parse_param_lists() stopped at the first error and threw it away after the
parameter had been (partly) consumed, so `"float radius"` without a value or
a spectrum with an odd number of samples vanished from the scene.
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index b54e1f0..da0e478 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,7 +561,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 4258413f4f7e54d55b6de88ba5901494fabcae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 04/10] fix: reject integer literals whose exponent overflows

`1e19` panicked (or wrapped, in release builds) in isize::pow, and an
exponent of 2^32 or more was truncated, so 1e4294967296 read as 1.
---
 src/parser.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index da0e478..bf35f05 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -403,11 +403,19 @@ impl Tokenizer {
                             })
                         }
                         TokenType::Int(i) if i >= 0 && !is_float => {
+                            let mantissa =
+                                num_chars.into_iter().collect::<String>().parse::<isize>()?;
                             return Ok(Token {
                                 pos: start_pos,
                                 ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
+                                    isize::checked_pow(10, i.min(64) as u32)
+                                        .and_then(|scale| mantissa.checked_mul(scale))
+                                        .ok_or_else(|| {
+                                            TokenizerError::Str(format!(
+                                                "{} tokenize_num(): number too large",
+                                                start_pos
+                                            ))
+                                        })?,
                                 ),
                             })
                         }
-- 
2.43.0


From 89f4528bc0dcfb189a45bef2228a18f98c1be9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 05/10] fix: skip comments and whitespace iteratively

tokenize_one() called itself after every comment line, so a file with some
ten thousand consecutive comment lines overflowed the stack.
---
 src/parser.rs | 35 ++++++++++++++++-------------------
 1 file changed, 16 insertions(+), 19 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index bf35f05..bde8000 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -310,16 +310,24 @@ impl Tokenizer {
         self.index >= self.chars.len()
     }
 
+    /// Skips whitespace and comments.
+    fn skip_layout(&mut self) {
+        let mut in_comment = false;
+        while let Ok(ch) = self.peek() {
+            if ch == '#' {
+                in_comment = true;
+            } else if ch == '\n' {
+                in_comment = false;
+            } else if !in_comment && !ch.is_whitespace() {
+                break;
+            }
+            let _ = self.next();
+        }
+    }
+
     fn tokenize_one(&mut self) -> TokenizerResult<Token> {
+        self.skip_layout();
         match self.peek() {
-            Ok('#') => {
-                while let Ok(ch) = self.next() {
-                    if ch == '\n' {
-                        break;
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -338,17 +346,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From 7660d51c88ad87d8e3a1264ac6b8b8f18f2eb73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 06/10] fix: correct the inverse matrix stored by
 Transform::scale

---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From 6d49fddd32a3e349e7b7e7a2ac3b0655bf8ea113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 07/10] fix: divide, not multiply, in Vector2 / scalar

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From 1e2b4f587ffba985c7461d3b1b42f5548d703c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 08/10] fix: keep the intersection of disjoint boxes empty

Bounds3::new() sorts its corners, so intersecting disjoint boxes gave the
gap between them, a box whose points lie in neither.
---
 src/core/boundingbox.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..7966e6d 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -93,19 +93,21 @@ impl<T: ElemType> Bounds3<T> {
         )
     }
 
+    /// The result is empty (`p_min` above `p_max` on some axis) if the boxes are disjoint.
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        // Not Bounds3::new(), which would reorder the corners of an empty box.
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0


From 9e4bec5fe83d42d3e0d9d7a628ec2a51a9790b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:49 +0000
Subject: [PATCH 09/10] fix: iterate over exactly the points of a 2D bounds

The iterator skipped the first point, restarted every row at x = 0 instead of
the left edge and ran over the upper edges; it now visits p_min <= p < p_max
in row-major order like pbrt (and like inside_exclusive()).
---
 src/core/boundingbox.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index 7966e6d..d648e7a 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -189,6 +189,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
             p_max: self.p_max,
+            x_min: self.p_min.x,
             x: self.p_min.x,
             y: self.p_min.y,
         }
@@ -197,6 +198,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
 pub struct Bounds2Iter<T: ElemType> {
     p_max: Point2<T>,
+    x_min: T,
     x: T,
     y: T,
 }
@@ -205,16 +207,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let p = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(p)
         }
     }
 }
-- 
2.43.0


From 353ebdcaee94dc599e8e7d76114537b4af448ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 10/10] fix: reject a second exponent in a number

Numbers like 1e1e1e1... recursed once per exponent and overflowed the stack.
---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index bde8000..434c419 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -356,6 +356,10 @@ impl Tokenizer {
     }
 
     fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+        self.tokenize_num_part(false)
+    }
+
+    fn tokenize_num_part(&mut self, in_exponent: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -381,6 +385,12 @@ impl Tokenizer {
                     is_float = true;
                     num_chars.push(self.next()?);
                 },
+                Ok(ch @ 'e') if in_exponent => {
+                    return Err(TokenizerError::Str(format!(
+                        "{} tokenize_num(): unexpected char '{}'",
+                        self.pos, ch
+                    )))
+                }
                 Ok('e') => {
                     if num_chars.is_empty() {
                         return Err(TokenizerError::Str(format!(
@@ -389,7 +399,7 @@ impl Tokenizer {
                         )));
                     }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num_part(true)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0

