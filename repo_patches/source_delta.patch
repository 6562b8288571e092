From 72e4c6dbce3e8a2e9e2a11689ba0865f8580eb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:50 +0000
Subject: [PATCH 01/12] verif: read access for the verification harness (--cfg
 pbrtrs_verif only)

---
 src/lib.rs          |  6 ++++++
 src/parser.rs       |  4 ++++
 src/parser_verif.rs | 24 ++++++++++++++++++++++++
 3 files changed, 34 insertions(+)
 create mode 100644 src/parser_verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index b291746..2a1b048 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,3 +11,9 @@ mod core;
 pub mod parser;
 
 pub use core::matrix::Matrix4;
+
+/// Verification hook: the geometry module, which is private so far.
+#[cfg(pbrtrs_verif)]
+pub mod verif {
+    pub use core::*;
+}
diff --git a/src/parser.rs b/src/parser.rs
index 93c25a1..87c85f4 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1361,6 +1361,10 @@ impl Parser {
     }
 }
 
+#[cfg(pbrtrs_verif)]
+#[path = "parser_verif.rs"]
+pub mod verif;
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/parser_verif.rs b/src/parser_verif.rs
new file mode 100644
index 0000000..07e8ee4
--- /dev/null
+++ b/src/parser_verif.rs
@@ -0,0 +1,24 @@
+//! Verification hook: read access to the private fields of the parsed scene.
+//! Compiled only with `--cfg pbrtrs_verif`.
+use super::*;
+
+pub fn pos(p: &Pos) -> (usize, usize) {
+    (p.r, p.c)
+}
+
+pub fn directive(d: &DirectiveStruct) -> (&str, &Pos, &ParamSet) {
+    (&d.ty, &d.pos, &d.param_set)
+}
+
+/// Name, type, class, position, parameters.
+pub fn texture(t: &TextureStruct) -> (&str, &str, &str, &Pos, &ParamSet) {
+    (&t.name, &t.ty, &t.class, &t.pos, &t.param_set)
+}
+
+pub fn block(b: &BlockStruct) -> (&Pos, &[Directive]) {
+    (&b.pos, &b.children)
+}
+
+pub fn param<T>(p: &Param<T>) -> (&str, &Pos, &[T]) {
+    (&p.name, &p.pos, &p.values)
+}
-- 
2.43.0


From b9aba9f36879a4127acbdf1eb3d4b399d8addc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:30 +0000
Subject: [PATCH 02/12] fix: close each block at its own end directive

The end directive of a nested block was never consumed, so it also ended
every enclosing block and the directives after it were lost. Any end
directive was accepted for any block.
---
 src/parser.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 87c85f4..ca61717 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1044,15 +1044,15 @@ impl Parser {
             }
             "AttributeBegin" => Ok(Directive::Attribute(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("AttributeEnd")?,
             })),
             "TransformBegin" => Ok(Directive::Transform(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("TransformEnd")?,
             })),
             "WorldBegin" => Ok(Directive::World(BlockStruct {
                 pos: start_pos,
-                children: self.parse_directives()?,
+                children: self.parse_directives("WorldEnd")?,
             })),
             "Include" => Ok(Directive::Include(
                 start_pos,
@@ -1078,16 +1078,23 @@ impl Parser {
         }
     }
 
-    fn parse_directives(&mut self) -> ParserResult<Vec<Directive>> {
+    /// Parses the directives of a block, up to and including its closing `block_end`
+    fn parse_directives(&mut self, block_end: &str) -> ParserResult<Vec<Directive>> {
         let mut directives = vec![];
         loop {
             match self.peek()? {
                 Token {
                     ty: TokenType::Identifier(ref s),
-                    ..
+                    pos,
                 } => {
-                    if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                    if s == block_end {
+                        self.next()?;
                         return Ok(directives);
+                    } else if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
+                        return Err(ParserError::Str(format!(
+                            "{} parse_directives(): expected {} but got {}",
+                            pos, block_end, s
+                        )));
                     } else {
                         directives.push(self.parse_directive()?);
                     }
-- 
2.43.0


From 651b853846c6f4496fae14c3a7e5d02eab6c7cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 03/12] fix: report malformed parameters instead of dropping
 them

Any error in a parameter list ended the list silently, so a parameter with
a missing, misplaced or surplus value disappeared from the scene.
---
 src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index ca61717..edb50f3 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -561,7 +561,13 @@ impl Parser {
     }
 
     fn parse_param_lists(&mut self, param_set: &mut ParamSet) -> ParserResult<()> {
-        while self.parse_param_list(param_set).is_ok() {}
+        while let Ok(Token {
+            ty: TokenType::Str(_),
+            ..
+        }) = self.peek()
+        {
+            self.parse_param_list(param_set)?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From ec73b82201dd1e46eca4c943662c129581a21d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:31 +0000
Subject: [PATCH 04/12] fix: reject text after the world block instead of
 ignoring it

---
 src/parser.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index edb50f3..b3e039f 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1370,7 +1370,14 @@ impl Parser {
 
     pub fn parse(input: &str) -> ParserResult<(Vec<PreDirective>, Directive)> {
         let mut parser = Parser::new(input)?;
-        Ok((parser.parse_predirectives()?, parser.parse_directive()?))
+        let scene = (parser.parse_predirectives()?, parser.parse_directive()?);
+        match parser.peek() {
+            Ok(Token { pos, ty }) => Err(ParserError::Str(format!(
+                "{} parse(): expected end of input but got {:?}",
+                pos, ty
+            ))),
+            Err(_) => Ok(scene),
+        }
     }
 }
 
-- 
2.43.0


From a723e34a9f3bca7e5a2673e69c4bd9a5ab1ae3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 05/12] fix: compute the value of literals with exponents
 without overflow

Large exponents panicked or wrapped around on integers, and made floats of
value zero or of small magnitude NaN or infinite.
---
 src/parser.rs | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index b3e039f..3a1737c 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -402,23 +402,27 @@ impl Tokenizer {
                                 ),
                             })
                         }
-                        TokenType::Int(i) if i >= 0 && !is_float => {
-                            return Ok(Token {
-                                pos: start_pos,
-                                ty: TokenType::Int(
-                                    num_chars.into_iter().collect::<String>().parse::<isize>()?
-                                        * isize::pow(10, i as u32),
-                                ),
-                            })
-                        }
                         TokenType::Int(i) => {
+                            let mantissa: String = num_chars.into_iter().collect();
+                            // An integer, unless there is a fraction or it does not fit
+                            let int = if i >= 0 && !is_float {
+                                match mantissa.parse::<isize>()? {
+                                    0 => Some(0),
+                                    m => isize::checked_pow(10, i.min(64) as u32)
+                                        .and_then(|p| m.checked_mul(p)),
+                                }
+                            } else {
+                                None
+                            };
                             return Ok(Token {
                                 pos: start_pos,
-                                ty: TokenType::Float(
-                                    num_chars.into_iter().collect::<String>().parse::<Float>()?
-                                        * Float::powf(10.0, i as Float),
-                                ),
-                            })
+                                ty: match int {
+                                    Some(int) => TokenType::Int(int),
+                                    None => TokenType::Float(
+                                        format!("{}e{}", mantissa, i).parse::<Float>()?,
+                                    ),
+                                },
+                            });
                         }
                         _ => {
                             return Err(TokenizerError::Str(format!(
-- 
2.43.0


From 0b8ed8722719c989d7c5e3858a7ceb6c30893805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:53 +0000
Subject: [PATCH 06/12] fix: skip comments and whitespace in a loop

Every comment and run of whitespace took a stack frame, so a long enough
sequence of comment lines overflowed the stack.
---
 src/parser.rs | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 3a1737c..9c9a21e 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -310,16 +310,26 @@ impl Tokenizer {
         self.index >= self.chars.len()
     }
 
-    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
-        match self.peek() {
-            Ok('#') => {
-                while let Ok(ch) = self.next() {
+    /// Skips over whitespace and comments
+    fn skip_blanks(&mut self) {
+        loop {
+            match self.peek() {
+                Ok('#') => while let Ok(ch) = self.next() {
                     if ch == '\n' {
                         break;
                     }
+                },
+                Ok(ch) if ch.is_whitespace() => {
+                    let _ = self.next();
                 }
-                self.tokenize_one()
+                _ => return,
             }
+        }
+    }
+
+    fn tokenize_one(&mut self) -> TokenizerResult<Token> {
+        self.skip_blanks();
+        match self.peek() {
             Ok('"') => self.tokenize_str(),
             Ok('[') => {
                 let tok = Ok(Token {
@@ -338,17 +348,6 @@ impl Tokenizer {
                 tok
             }
             Ok(c) if c == '-' || c == '+' || c == '.' || c.is_numeric() => self.tokenize_num(),
-            Ok(c) if c.is_whitespace() => {
-                while let Ok(ch) = self.peek() {
-                    match ch {
-                        ch if ch.is_whitespace() => {
-                            self.next()?;
-                        }
-                        _ => break,
-                    }
-                }
-                self.tokenize_one()
-            }
             Ok(c) if c.is_alphabetic() => self.tokenize_id(),
             Ok(c) => Err(TokenizerError::Str(format!(
                 "{} tokenize_one(): unexpected char '{}'",
-- 
2.43.0


From 786e316ede4147da3f2ba3865d055bad932234d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:54 +0000
Subject: [PATCH 07/12] fix: reject an exponent inside an exponent

Each further exponent recursed, so a long chain of them overflowed the
stack.
---
 src/parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 9c9a21e..a7ef83f 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -358,6 +358,10 @@ impl Tokenizer {
     }
 
     fn tokenize_num(&mut self) -> TokenizerResult<Token> {
+        self.tokenize_num_part(false)
+    }
+
+    fn tokenize_num_part(&mut self, is_exponent: bool) -> TokenizerResult<Token> {
         let start_pos = self.pos;
         let mut num_chars = vec![];
         match self.peek() {
@@ -390,8 +394,14 @@ impl Tokenizer {
                             self.pos
                         )));
                     }
+                    if is_exponent {
+                        return Err(TokenizerError::Str(format!(
+                            "{} tokenize_num(): unexpected char 'e'",
+                            self.pos
+                        )));
+                    }
                     let _ = self.next();
-                    match self.tokenize_num()?.remove_pos() {
+                    match self.tokenize_num_part(true)?.remove_pos() {
                         TokenType::Float(f) => {
                             return Ok(Token {
                                 pos: start_pos,
-- 
2.43.0


From 8fae883e154e25fa7c70b7c103bb38bfb0a797b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:07 +0000
Subject: [PATCH 08/12] fix: limit the nesting of blocks instead of overflowing
 the stack

---
 src/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index a7ef83f..87f075c 100755
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -213,8 +213,12 @@ pub struct Tokenizer {
 pub struct Parser {
     tokens: Vec<Token>,
     index: usize,
+    depth: usize,
 }
 
+/// How deep blocks may be nested. The parser recurses into them, so this bounds its stack use.
+const MAX_BLOCK_DEPTH: usize = 100;
+
 pub type TokenizerResult<T> = Result<T, TokenizerError>;
 pub type ParserResult<T> = Result<T, ParserError>;
 
@@ -537,6 +541,7 @@ impl Parser {
         Ok(Parser {
             tokens: Tokenizer::tokenize(input)?,
             index: 0,
+            depth: 0,
         })
     }
 
@@ -1099,6 +1104,14 @@ impl Parser {
 
     /// Parses the directives of a block, up to and including its closing `block_end`
     fn parse_directives(&mut self, block_end: &str) -> ParserResult<Vec<Directive>> {
+        if self.depth >= MAX_BLOCK_DEPTH {
+            return Err(ParserError::Str(format!(
+                "{} parse_directives(): blocks are nested more than {} deep",
+                self.pos()?,
+                MAX_BLOCK_DEPTH
+            )));
+        }
+        self.depth += 1;
         let mut directives = vec![];
         loop {
             match self.peek()? {
@@ -1108,6 +1121,7 @@ impl Parser {
                 } => {
                     if s == block_end {
                         self.next()?;
+                        self.depth -= 1;
                         return Ok(directives);
                     } else if s == "AttributeEnd" || s == "TransformEnd" || s == "WorldEnd" {
                         return Err(ParserError::Str(format!(
-- 
2.43.0


From 7b810509b31bf992af5718514fe8886759716818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:31 +0000
Subject: [PATCH 09/12] fix: correct the last row of the inverse scaling matrix

---
 src/core/transform.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/transform.rs b/src/core/transform.rs
index 401c858..367008d 100755
--- a/src/core/transform.rs
+++ b/src/core/transform.rs
@@ -61,7 +61,7 @@ impl Transform {
                 [1. / x, 0., 0., 0.],
                 [0., 1. / y, 0., 0.],
                 [0., 0., 1. / z, 0.],
-                [0., 0., z, 1.],
+                [0., 0., 0., 1.],
             ]),
         )
     }
-- 
2.43.0


From ea2c2a05c47e23e5ed0278de54f44ad474e682ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:31 +0000
Subject: [PATCH 10/12] fix: divide 2D vectors instead of multiplying them

---
 src/core/vector.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/vector.rs b/src/core/vector.rs
index 74f601a..d837e9e 100755
--- a/src/core/vector.rs
+++ b/src/core/vector.rs
@@ -32,8 +32,7 @@ impl<T: ElemType> Div<T> for Vector2<T> {
 
     fn div(self, rhs: T) -> Self {
         assert!(rhs != T::from_int(0), "divide by zero");
-        let recip = rhs;
-        Vector2::new(self.x * recip, self.y * recip)
+        Vector2::new(self.x / rhs, self.y / rhs)
     }
 }
 
-- 
2.43.0


From a5f9df15303c985e98cb9fe9a0fe0294f45a4215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:32 +0000
Subject: [PATCH 11/12] fix: make the intersection of disjoint boxes empty

Bounds3::new() sorts its corners, which turned an empty intersection into
the box between the two operands.
---
 src/core/boundingbox.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index ee1f25f..d26c307 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -94,18 +94,19 @@ impl<T: ElemType> Bounds3<T> {
     }
 
     pub fn intersect(&self, b: &Bounds3<T>) -> Bounds3<T> {
-        Bounds3::new(
-            Point3::new(
+        // Not Bounds3::new(), which would turn an empty intersection into a box
+        Bounds3 {
+            p_min: Point3::new(
                 pmax(&[self.p_min.x, b.p_min.x]),
                 pmax(&[self.p_min.y, b.p_min.y]),
                 pmax(&[self.p_min.z, b.p_min.z]),
             ),
-            Point3::new(
+            p_max: Point3::new(
                 pmin(&[self.p_max.x, b.p_max.x]),
                 pmin(&[self.p_max.y, b.p_max.y]),
                 pmin(&[self.p_max.z, b.p_max.z]),
             ),
-        )
+        }
     }
 
     pub fn overlaps(&self, b: &Bounds3<T>) -> bool {
-- 
2.43.0


From 65d191ddfde5372e98a9a1bba45414b4fabe8b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:32 +0000
Subject: [PATCH 12/12] fix: iterate over all points of a 2D region, and only
 those

The iterator skipped the first point, restarted rows at zero instead of at
the lower corner, and ran past the upper corner.
---
 src/core/boundingbox.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/core/boundingbox.rs b/src/core/boundingbox.rs
index d26c307..ac9c369 100755
--- a/src/core/boundingbox.rs
+++ b/src/core/boundingbox.rs
@@ -187,6 +187,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 
     fn into_iter(self) -> Self::IntoIter {
         Bounds2Iter {
+            x_min: self.p_min.x,
             p_max: self.p_max,
             x: self.p_min.x,
             y: self.p_min.y,
@@ -195,6 +196,7 @@ impl<T: ElemType + Integer> IntoIterator for Bounds2<T> {
 }
 
 pub struct Bounds2Iter<T: ElemType> {
+    x_min: T,
     p_max: Point2<T>,
     x: T,
     y: T,
@@ -204,16 +206,16 @@ impl<T: ElemType> Iterator for Bounds2Iter<T> {
     type Item = Point2<T>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.x >= self.p_max.x && self.y >= self.p_max.y {
+        if self.x_min >= self.p_max.x || self.y >= self.p_max.y {
             None
         } else {
+            let p = Point2::new(self.x, self.y);
+            self.x += T::from_int(1);
             if self.x >= self.p_max.x {
-                self.x = T::from_int(0);
+                self.x = self.x_min;
                 self.y += T::from_int(1);
-            } else {
-                self.x += T::from_int(1);
             }
-            Some(Point2::new(self.x, self.y))
+            Some(p)
         }
     }
 }
-- 
2.43.0

