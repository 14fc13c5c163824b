From e608047d82579491211214ba119f5a0cbf56b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:40 +0000
Subject: [PATCH 01/24] fix: do not panic on heredoc lines indented less than
 the closing marker

Blank lines, lines shorter than the indentation and lines whose text starts
just before it made unindent_heredoc slice out of bounds or unwrap None.
---
 lib/src/parser/string.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/src/parser/string.rs b/lib/src/parser/string.rs
index 3844d28..9f35c51 100644
--- a/lib/src/parser/string.rs
+++ b/lib/src/parser/string.rs
@@ -66,15 +66,13 @@ fn unindent_heredoc(string: &str, indentation: usize) -> Cow<str> {
     for line in string.split('\n') {
         // Trim spaces at the beginning first
         // Let's find a start index up to `indentation` to slice away
-        let mut beginning = line.char_indices().take(indentation);
-        let all_spaces = beginning.all(|(_, c)| c == ' ');
-        let rest = if all_spaces {
-            &line[indentation..]
-        } else {
-            let (start, _) = beginning.next().expect("to not be None");
-            &line[start - 1..]
-        };
-        result.push_str(rest);
+        // Lines may be shorter than, or indented less than `indentation`
+        let start = line
+            .char_indices()
+            .take(indentation)
+            .take_while(|(_, c)| *c == ' ')
+            .count();
+        result.push_str(&line[start..]);
         result.push('\n');
     }
     // Remove the last `\n`
-- 
2.43.0


From 722aabdd96bfcfe991d3e4a66e28950c15e12e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 02/24] fix: accept a line comment that ends the document

A comment on the last line was rejected unless a newline followed it.
---
 lib/src/parser/whitespace.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 3049641..906e273 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -26,7 +26,7 @@
 //! template literals except inside an interpolation sequence or template directive.
 use nom::types::CompleteStr;
 use nom::{
-    alt_complete, call, delimited, do_parse, eat_separator, eol, many0, many1, named, tag,
+    alt_complete, call, delimited, do_parse, eat_separator, eof, eol, many0, many1, named, tag,
     take_until, take_while,
 };
 
@@ -39,14 +39,20 @@ named!(
     delimited!(tag!("/*"), take_until!("*/"), tag!("*/"))
 );
 
+// The end of a line, or of the document
+named!(
+    line_end(CompleteStr) -> CompleteStr,
+    alt_complete!(call!(eol) | eof!())
+);
+
 named!(
     pub hash_comment(CompleteStr) -> CompleteStr,
-    delimited!(tag!("#"), take_while!(not_eol), call!(eol))
+    delimited!(tag!("#"), take_while!(not_eol), call!(line_end))
 );
 
 named!(
     pub slash_comment(CompleteStr) -> CompleteStr,
-    delimited!(tag!("//"), take_while!(not_eol), call!(eol))
+    delimited!(tag!("//"), take_while!(not_eol), call!(line_end))
 );
 
 named!(
-- 
2.43.0


From 83389bd68aa7f81faa1777989713a2fd68d377fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 03/24] fix: line_comment recognises // comments

---
 lib/src/parser/whitespace.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/whitespace.rs b/lib/src/parser/whitespace.rs
index 906e273..fb7687c 100644
--- a/lib/src/parser/whitespace.rs
+++ b/lib/src/parser/whitespace.rs
@@ -58,7 +58,7 @@ named!(
 named!(
     pub line_comment(CompleteStr) -> CompleteStr,
     alt_complete!(
-        hash_comment | hash_comment
+        hash_comment | slash_comment
     )
 );
 
-- 
2.43.0


From fbfe4810345898539e762e795c62d8a2e80f849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 04/24] fix: keep all blocks of a type when they are not
 adjacent

Indexing blocks replaced the entry of a type each time another run of blocks
of that type was found.
---
 lib/src/parser/block.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 8679c65..9ad614a 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -200,8 +200,11 @@ impl<'a> Blocks<'a> {
             .group_by(|block| block.r#type.clone())
             .into_iter()
         {
-            let blocks = BlockBody::from_iter(blocks.map(|block| (block.labels, block.body)));
-            hashmap.insert(block_type, blocks);
+            // Blocks of the same type need not be adjacent
+            hashmap
+                .entry(block_type)
+                .or_insert_with(BlockBody::default)
+                .extend(blocks.map(|block| (block.labels, block.body)));
         }
         Self { blocks: hashmap }
     }
-- 
2.43.0


From 2e0417c84510cf42e3670ae7f229c7b7aa506561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 05/24] fix: keep the remaining labels when a block adds a new
 first label

Appending to a block body that already has labels dropped every label after
the first.
---
 lib/src/parser/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 9ad614a..48c1e28 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -433,7 +433,9 @@ impl<'a> BlockBody<'a> {
                     let label = labels.drain(0..1).next().expect("to be some");
                     match hashmap.entry(label) {
                         Entry::Vacant(vacant) => {
-                            vacant.insert(BlockBody::Body(vec![body]));
+                            let mut nested = BlockBody::default();
+                            nested.append(labels, body);
+                            vacant.insert(nested);
                         }
                         Entry::Occupied(mut occupied) => {
                             occupied.get_mut().append(labels, body);
-- 
2.43.0


From db697fbe1753f780cba9711cad64b6c59357e196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 06/24] fix: count the label itself in label_lens_uniform

---
 lib/src/parser/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 48c1e28..850491e 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -648,7 +648,7 @@ impl<'a> BlockBody<'a> {
                             return None;
                         }
                     }
-                    initial
+                    initial.map(|len| len + 1)
                 }
             }
         }
-- 
2.43.0


From 404e8e29d9afe42ebaed5a2226a2ab2eb881d7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 07/24] fix: compare block labels by their text

Equality told a bare label from a quoted one while Hash and Borrow<str> do
not, so an index could hold both and a lookup found only one of them.
---
 lib/src/parser/block.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/block.rs b/lib/src/parser/block.rs
index 850491e..f8abd27 100644
--- a/lib/src/parser/block.rs
+++ b/lib/src/parser/block.rs
@@ -57,7 +57,7 @@ impl<'a> Block<'a> {
     }
 }
 
-#[derive(Debug, Clone, PartialEq, Eq)]
+#[derive(Debug, Clone, Eq)]
 pub enum BlockLabel<'a> {
     StringLiteral(StringLiteral),
     Identifier(Identifier<'a>),
@@ -76,6 +76,13 @@ impl<'a> BlockLabel<'a> {
     }
 }
 
+// Labels are compared by their text: this has to agree with `Hash` and `Borrow<str>`
+impl<'a> PartialEq for BlockLabel<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.as_str() == other.as_str()
+    }
+}
+
 impl<'a> Hash for BlockLabel<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.as_str().hash(state)
-- 
2.43.0


From e23a81b6dabbe4b9d426a1e4446ac08a35c3c1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:40 +0000
Subject: [PATCH 08/24] fix: compare value tree keys by their text

Equality told a bare key from a quoted one while Hash and Borrow<str> do not,
so a merged map could hold the same name twice.
---
 lib/src/parser/literals/key.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/literals/key.rs b/lib/src/parser/literals/key.rs
index 7d66739..536b156 100644
--- a/lib/src/parser/literals/key.rs
+++ b/lib/src/parser/literals/key.rs
@@ -9,7 +9,7 @@ use nom::{alt_complete, call, named};
 pub use self::serde::*;
 
 /// A "key" in a map
-#[derive(Eq, PartialEq, Debug, Clone)]
+#[derive(Eq, Debug, Clone)]
 pub enum Key<'a> {
     Identifier(Cow<'a, str>),
     String(Cow<'a, str>),
@@ -88,6 +88,13 @@ impl<'a> Borrow<str> for Key<'a> {
     }
 }
 
+// Keys are compared by their text: this has to agree with `Hash` and `Borrow<str>`
+impl<'a> PartialEq for Key<'a> {
+    fn eq(&self, other: &Self) -> bool {
+        self.deref() == other.deref()
+    }
+}
+
 impl<'a> Hash for Key<'a> {
     fn hash<H: Hasher>(&self, state: &mut H) {
         self.deref().hash(state);
-- 
2.43.0


From 176cebbc65c1eaf681194525d017c39e32f675da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 09/24] fix: build numbers from the minimum signed integers

Taking the absolute value overflowed.
---
 lib/src/parser/number.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 4772bf7..957759b 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -74,7 +74,10 @@ macro_rules! from_int {
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
                 let input = Cow::Owned(n.to_string());
-                let whole = Some(Cow::Owned(n.abs().to_string()));
+                // `abs` would overflow for the minimum value
+                let whole = Some(Cow::Owned(
+                    n.to_string().trim_start_matches('-').to_string(),
+                ));
                 Self::new(input, n >= 0, whole, None, None)
             }
         }
-- 
2.43.0


From 6c7d8668039b6e8f2210bb384db4f4904d1eb3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 10/24] fix: take the sign into account when comparing floating
 point numbers

---
 lib/src/parser/number.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 957759b..59b8a43 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -169,8 +169,8 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 return false;
             }
 
-            let us = us.unwrap().abs();
-            let them = them.unwrap().abs();
+            let us = us.unwrap();
+            let them = them.unwrap();
             let diff = (us - them).abs();
 
             if us == them {
@@ -181,7 +181,7 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 diff < (std::f64::EPSILON * std::f64::MIN_POSITIVE)
             } else {
                 // Use relative error.
-                (diff / f64::min(us + them, std::f64::MAX)) < std::f64::EPSILON
+                (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
         } else if self.is_unsigned() && other.is_unsigned() {
             // Unsigned
-- 
2.43.0


From 71f1eeb8f17c3512985dd821a43ddc563eca273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 11/24] fix: compare integers of any size exactly

Integers beyond 128 bits were not equal to themselves.
---
 lib/src/parser/number.rs | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index 59b8a43..e9c7b10 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -55,6 +55,13 @@ impl<'a> Number<'a> {
     pub fn is_float(&self) -> bool {
         !self.is_signed()
     }
+
+    /// Digits of the whole part without leading zeros
+    fn significant_digits(&self) -> &str {
+        self.whole
+            .as_ref()
+            .map_or("", |whole| whole.trim_start_matches('0'))
+    }
 }
 
 macro_rules! from_uint {
@@ -183,24 +190,11 @@ impl<'a> std::cmp::PartialEq for Number<'a> {
                 // Use relative error.
                 (diff / f64::min(us.abs() + them.abs(), std::f64::MAX)) < std::f64::EPSILON
             }
-        } else if self.is_unsigned() && other.is_unsigned() {
-            // Unsigned
-            let us = self.as_u128();
-            let them = other.as_u128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to unsigned!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
         } else {
-            // Signed
-            let us = self.as_i128();
-            let them = other.as_i128();
-            if us.is_err() || them.is_err() {
-                println!("Error converting to signed!");
-                return false;
-            }
-            us.unwrap().eq(&them.unwrap())
+            // Integers can be larger than any machine type: compare their digits
+            let us = self.significant_digits();
+            let them = other.significant_digits();
+            us == them && (us.is_empty() || self.positive == other.positive)
         }
     }
 }
-- 
2.43.0


From 349c8de5e892b42dd0c697217b536bbc55a8b2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 12/24] fix: build numbers from negative zero

The sign ended up in the whole part, so it was not equal to any other zero.
---
 lib/src/parser/number.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/src/parser/number.rs b/lib/src/parser/number.rs
index e9c7b10..01d07e2 100644
--- a/lib/src/parser/number.rs
+++ b/lib/src/parser/number.rs
@@ -98,11 +98,7 @@ macro_rules! from_float {
     ($($from:ty )*) => {$(
         impl<'a> From<$from> for Number<'a> {
             fn from(n: $from) -> Self {
-                let string = if n >= 0.0 {
-                    n.to_string()
-                } else {
-                    (n*-1.0).to_string()
-                };
+                let string = n.abs().to_string();
                 let mut parts = string.split(".");
                 let whole = parts.next().map(|s| Cow::Owned(s.to_string()));
                 let fraction = parts.next().map(|s| Cow::Owned(s.to_string()));
-- 
2.43.0


From 335e23580789e96370e159dbeb4893658dea6e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:37 +0000
Subject: [PATCH 13/24] fix: deserialize integers above the signed 64-bit range

Every integer was read as i64 first, so the upper half of u64 failed.
---
 lib/src/serde/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 403b3da..3d2ffe9 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -150,10 +150,10 @@ where
 {
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
-    } else if number.is_signed() {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
-    } else {
+    } else if number.is_unsigned() {
         visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+    } else {
+        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
     }
 }
 
-- 
2.43.0


From 775d6b9c853684fb380eb6b26323e3dec20c7d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 14/24] fix: report a name used by both an attribute and a
 block

Deserializing such a body panicked.
---
 lib/src/serde/de/body.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/serde/de/body.rs b/lib/src/serde/de/body.rs
index 216b26b..dc0dc5e 100644
--- a/lib/src/serde/de/body.rs
+++ b/lib/src/serde/de/body.rs
@@ -143,11 +143,10 @@ impl<'de> de::MapAccess<'de> for MapAccess<'de> {
                 seed.deserialize(ident.into_deserializer()).map(Some)
             }
             (block_type, blk @ BodyValue::Block(_)) => {
-                // If this key has been seen before, we have a bug
-                assert!(
-                    self.seen.insert(block_type.clone()),
-                    "bug in block merging code"
-                );
+                // Blocks are grouped by type, so an attribute has the same name
+                if !self.seen.insert(block_type.clone()) {
+                    return Err(Error::BodyDuplicateKey(block_type.to_string()).into());
+                }
                 self.value = Some(blk);
                 seed.deserialize(block_type.into_deserializer()).map(Some)
             }
-- 
2.43.0


From afaaf3a712e9a7b938da7b47fef3551958da8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 15/24] fix: report labelled blocks as an error when
 deserializing

The unfinished branches panicked on such documents.
---
 lib/src/serde/de/block.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 698fd66..15573bd 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -63,7 +63,9 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(de::Error::custom(
+                    "deserializing blocks with labels is not supported yet",
+                ))
             }
         }
     }
@@ -95,7 +97,9 @@ impl<'de> de::Deserializer<'de> for BlockBody<'de> {
                         deserialize_body_seq(empty, visitor)
                     };
                 }
-                unimplemented!("not yet")
+                Err(de::Error::custom(
+                    "deserializing blocks with labels is not supported yet",
+                ))
             }
         }
     }
-- 
2.43.0


From 3cbe0bc243f0e114de53ab0c4e22bd4edfd062e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 16/24] fix: deserialize objects with quoted keys

Any element whose name is not a bare identifier panicked.
---
 lib/src/serde/de/object.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/src/serde/de/object.rs b/lib/src/serde/de/object.rs
index 5ace7e2..3490cc5 100644
--- a/lib/src/serde/de/object.rs
+++ b/lib/src/serde/de/object.rs
@@ -27,6 +27,20 @@ impl<'de> ObjectMapAccess<'de> {
     }
 }
 
+/// The name of an object element: an expression used as a name has to be a string
+fn key_string<'de>(key: ObjectElementIdentifier<'de>) -> Result<Cow<'de, str>, Error> {
+    match key {
+        ObjectElementIdentifier::Identifier(ident) => Ok(ident),
+        ObjectElementIdentifier::Expression(expr) => match Expression::parse(&expr)? {
+            Expression::String(string) => Ok(Cow::Owned(string.into_owned())),
+            other => Err(Error::Custom(format!(
+                "Object key must be a string, got {}",
+                other.variant_name()
+            ))),
+        },
+    }
+}
+
 impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
     type Error = Compat;
 
@@ -40,7 +54,7 @@ impl<'de> MapAccess<'de> for ObjectMapAccess<'de> {
             None => return Ok(None),
             Some((key, value)) => (key, value),
         };
-        let key = key.as_str();
+        let key = key_string(key)?;
 
         if !self.seen_keys.insert(key.clone()) {
             return Err(Error::ObjectDuplicateKey(key.to_string()).into());
-- 
2.43.0


From 7202fdfe9ed2732adb10995ce87000b2a568a1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 17/24] fix: do not silently ignore surplus sequence elements
 when deserializing

Elements or blocks that the target did not take were dropped.
---
 lib/src/serde/de.rs       |  6 +++++-
 lib/src/serde/de/block.rs | 16 +++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index 3d2ffe9..b492992 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -175,7 +175,11 @@ where
         }
     }
 
-    visitor.visit_seq(tuple.into_deserializer())
+    let mut elements = tuple.into_deserializer();
+    let value = visitor.visit_seq(&mut elements)?;
+    // The visitor may have stopped early
+    elements.end()?;
+    Ok(value)
 }
 
 fn deserialize_object<'de, V>(
diff --git a/lib/src/serde/de/block.rs b/lib/src/serde/de/block.rs
index 15573bd..cb756cc 100644
--- a/lib/src/serde/de/block.rs
+++ b/lib/src/serde/de/block.rs
@@ -13,13 +13,15 @@ fn deserialize_body_seq<'de, V>(bodies: Vec<Body<'de>>, visitor: V) -> Result<V:
 where
     V: Visitor<'de>,
 {
-    visitor.visit_seq(
-        bodies
-            .into_iter()
-            .map(BodyDeserializer::new)
-            .collect::<Vec<_>>()
-            .into_deserializer(),
-    )
+    let mut bodies = bodies
+        .into_iter()
+        .map(BodyDeserializer::new)
+        .collect::<Vec<_>>()
+        .into_deserializer();
+    let value = visitor.visit_seq(&mut bodies)?;
+    // The visitor may have stopped early
+    bodies.end()?;
+    Ok(value)
 }
 
 fn deserialize_map<'de, V>(body: Body<'de>, visitor: V) -> Result<V::Value, Compat>
-- 
2.43.0


From 1e8389f0c993cb1af602b8c980527398c11e2f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 18/24] fix: count null as a scalar value

The length, scalar count and merged tests panicked on null.
---
 lib/src/value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index 2cc2b48..b5c4fb3 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -91,7 +91,11 @@ impl<'a> Value<'a> {
 
     pub fn is_scalar(&self) -> bool {
         match self {
-            Value::Integer(_) | Value::Float(_) | Value::Boolean(_) | Value::String(_) => true,
+            Value::Null
+            | Value::Integer(_)
+            | Value::Float(_)
+            | Value::Boolean(_)
+            | Value::String(_) => true,
             _ => false,
         }
     }
-- 
2.43.0


From ebe13f098766ea909e64e3a0dd869920b7505aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:25 +0000
Subject: [PATCH 19/24] fix: merging reports blocks with the same name and
 labels

The later block silently replaced the earlier one.
---
 lib/src/value.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/lib/src/value.rs b/lib/src/value.rs
index b5c4fb3..1dcf485 100644
--- a/lib/src/value.rs
+++ b/lib/src/value.rs
@@ -623,14 +623,28 @@ impl<'a> Block<'a> {
     {
         let mut merged = HashMap::default();
         for (key, value) in iter {
-            let _ = merged.insert(
-                key.into_iter().map(|s| s.to_string()).collect(),
-                value.merge()?,
-            );
+            let key = key.into_iter().map(|s| s.to_string()).collect();
+            Self::insert_unique(&mut merged, key, value.merge()?)?;
         }
         Ok(KeyValuePairs::Merged(merged))
     }
 
+    /// Insert a block whose labels must not have been used before
+    fn insert_unique(
+        merged: &mut HashMap<Vec<String>, MapValues<'a>>,
+        key: Vec<String>,
+        value: MapValues<'a>,
+    ) -> Result<(), Error> {
+        if merged.contains_key(&key) {
+            return Err(Error::IllegalMultipleEntries {
+                key: key.join(" "),
+                variant: BLOCK,
+            });
+        }
+        let _ = merged.insert(key, value);
+        Ok(())
+    }
+
     pub fn new_unmerged<T, K, S>(iter: T) -> Self
     where
         T: IntoIterator<Item = (K, MapValues<'a>)>,
@@ -826,7 +840,14 @@ impl<'a> MapValues<'a> {
                             let value = value;
                             // Check that the incoming value is also a Block
                             if let Value::Block(incoming) = value {
-                                block.extend(incoming);
+                                match block {
+                                    KeyValuePairs::Merged(merged) => {
+                                        for (key, value) in incoming {
+                                            Block::insert_unique(merged, key, value)?;
+                                        }
+                                    }
+                                    KeyValuePairs::Unmerged(_) => block.extend(incoming),
+                                }
                             } else {
                                 return Err(Error::ErrorMergingKeys {
                                     key,
-- 
2.43.0


From 0bcf9d0bbc0c7e893f2e3a5d5658b6d964de1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 20/24] fix: malformed nested blocks no longer take exponential
 time to reject

Each level of nesting was parsed again as a block without labels, with labels
and as an attribute before giving up.
---
 lib/src/parser.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.rs b/lib/src/parser.rs
index de64508..eca2899 100644
--- a/lib/src/parser.rs
+++ b/lib/src/parser.rs
@@ -32,7 +32,7 @@ use whitespace::newline;
 
 use nom::types::CompleteStr;
 use nom::{
-    alt, alt_complete, call, char, complete, do_parse, eof, exact, named, named_attr, opt,
+    alt, alt_complete, call, char, do_parse, eof, exact, named, named_attr, opt,
     preceded, tag, terminated,
 };
 
@@ -112,17 +112,17 @@ named!(
                 >> value: call!(single_value)
                 >> (key, value)
             )
-            | do_parse!(
-                identifier: call!(identifier::identifier)
-                >> complete!(opt!(char!('=')))
-                >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::from(values))
-            )
+            // Parse the body only once: trying again for each kind of block takes exponential time
+            // on malformed nested blocks
             | do_parse!(
                 identifier: call!(identifier::identifier)
                 >> keys: many0!(string::string_literal)
                 >> values: call!(map_expression)
-                >> (Key::Identifier(identifier), Value::Block(vec![(keys, values)].into_iter().collect()))
+                >> (Key::Identifier(identifier), if keys.is_empty() {
+                    Value::from(values)
+                } else {
+                    Value::Block(vec![(keys, values)].into_iter().collect())
+                })
             )
         )
     )
-- 
2.43.0


From fc177ccb9b92727160e86dd1b44478dc06058b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 21/24] fix: deserialize integers beyond 64 bits into 128-bit
 targets

---
 lib/src/serde/de.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/src/serde/de.rs b/lib/src/serde/de.rs
index b492992..c2b82c0 100644
--- a/lib/src/serde/de.rs
+++ b/lib/src/serde/de.rs
@@ -151,9 +151,15 @@ where
     if number.is_float() {
         visitor.visit_f64(number.as_f64().map_err(Error::ParseFloatError)?)
     } else if number.is_unsigned() {
-        visitor.visit_u64(number.as_u64().map_err(Error::ParseIntError)?)
+        match number.as_u64() {
+            Ok(n) => visitor.visit_u64(n),
+            Err(_) => visitor.visit_u128(number.as_u128().map_err(Error::ParseIntError)?),
+        }
     } else {
-        visitor.visit_i64(number.as_i64().map_err(Error::ParseIntError)?)
+        match number.as_i64() {
+            Ok(n) => visitor.visit_i64(n),
+            Err(_) => visitor.visit_i128(number.as_i128().map_err(Error::ParseIntError)?),
+        }
     }
 }
 
-- 
2.43.0


From 1bf952302ebf28cd19177c03e834b5c4c64f95c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:26 +0000
Subject: [PATCH 22/24] fix: hash object keys like the text they borrow as

---
 lib/src/parser/object.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser/object.rs b/lib/src/parser/object.rs
index eb1865f..b7926d8 100644
--- a/lib/src/parser/object.rs
+++ b/lib/src/parser/object.rs
@@ -11,6 +11,7 @@
 //! objectelem = (Identifier | Expression) "=" Expression;
 //! ```
 use std::borrow::{Borrow, Cow};
+use std::hash::{Hash, Hasher};
 
 use nom::types::CompleteStr;
 use nom::{alt, call, char, do_parse, named, peek, recognize, tag, terminated, IResult};
@@ -20,7 +21,7 @@ use crate::parser::identifier::{identifier, Identifier};
 use crate::parser::whitespace::newline;
 
 // TODO: Dealing with expressions and ambiguity. See reference
-#[derive(Debug, Clone, Hash, PartialEq, Eq)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 pub enum ObjectElementIdentifier<'a> {
     /// A literal attribute name
     Identifier(Identifier<'a>),
@@ -71,6 +72,13 @@ impl<'a> Borrow<str> for ObjectElementIdentifier<'a> {
     }
 }
 
+// Has to agree with the hash of the borrowed `str`
+impl<'a> Hash for ObjectElementIdentifier<'a> {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        Borrow::<str>::borrow(self).hash(state)
+    }
+}
+
 impl<'a> From<&'a str> for ObjectElementIdentifier<'a> {
     fn from(s: &'a str) -> Self {
         ObjectElementIdentifier::Identifier(Cow::Borrowed(s))
-- 
2.43.0


From 5deece1827653dee3af2749765d8624b115cce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:26 +0000
Subject: [PATCH 23/24] fix: report escapes that name no character as such

---
 lib/src/errors.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/errors.rs b/lib/src/errors.rs
index c7b33fe..4027bc1 100644
--- a/lib/src/errors.rs
+++ b/lib/src/errors.rs
@@ -156,11 +156,12 @@ impl Error {
                 Self::from_input_and_code(input, *code, convert_fn)
             }
             Context::List(list) => {
-                if let Some((input, ErrorKind::Custom(code))) = list.last() {
-                    Self::from_input_and_code(input, *code, convert_fn)
-                } else {
-                    None
-                }
+                // The enclosing parsers add their own entries after the custom one
+                let custom = list.iter().rev().find_map(|(input, kind)| match kind {
+                    ErrorKind::Custom(code) => Some((input, *code)),
+                    _ => None,
+                });
+                custom.and_then(|(input, code)| Self::from_input_and_code(input, code, convert_fn))
             }
             _ => None,
         }
-- 
2.43.0


From a70b25a126154141df20ec95415d9a1902530d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:26 +0000
Subject: [PATCH 24/24] fix: safe indices end with the input

---
 lib/src/utils.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/lib/src/utils.rs b/lib/src/utils.rs
index c1ed70d..da64d5c 100644
--- a/lib/src/utils.rs
+++ b/lib/src/utils.rs
@@ -1,5 +1,5 @@
 use nom::types::{CompleteByteSlice, CompleteStr, Input};
-use std::ops::RangeFull;
+use std::ops::{Range, RangeFull};
 
 /// Recognizes at least 1 character while a predicate holds true
 pub fn while_predicate1<T, F>(input: T, predicate: F) -> nom::IResult<T, T>
@@ -55,21 +55,14 @@ where
     }
 }
 
-#[allow(clippy::trivially_copy_pass_by_ref)]
-fn add_one(i: &usize) -> Option<usize> {
-    Some(i + 1)
-}
-
-type AddOneFn = fn(&usize) -> Option<usize>;
-
 impl<'a, T> SafeIndexing for &'a [T]
 where
     &'a [T]: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
@@ -77,22 +70,22 @@ impl<'a> SafeIndexing for CompleteByteSlice<'a>
 where
     CompleteByteSlice<'a>: nom::Slice<RangeFull>,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = Range<usize>;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        0..self.len()
     }
 }
 
 impl<T> SafeIndexing for Input<T>
 where
     Input<T>: nom::Slice<RangeFull>,
-    T: nom::Slice<RangeFull>,
+    T: SafeIndexing,
 {
-    type Iter = std::iter::Successors<usize, AddOneFn>;
+    type Iter = T::Iter;
 
     fn safe_indices(&self) -> Self::Iter {
-        std::iter::successors(Some(0), add_one)
+        self.inner.safe_indices()
     }
 }
 
-- 
2.43.0

