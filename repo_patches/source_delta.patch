From ece5f48c12a5b0d7ee9fe52cfa6b56114bd65555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 01/54] fix: report an unterminated quoted scalar instead of
 looping forever

---
 src/parser/base/grammar.rs | 2 ++
 src/parser/mod.rs          | 7 ++++---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index e056d6b..dad9519 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -118,6 +118,8 @@ impl Parser<'_> {
                     v.push('\\');
                 } else if p.sym(sym).is_ok() {
                     break;
+                } else {
+                    return p.err("quoted string terminator");
                 }
             }
             Ok(v)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index de580ea..44a2cff 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -280,9 +280,10 @@ impl<R: Repr> Loader<'_, R> {
             } else {
                 return self.err("anchor referenced before definition");
             }
-        } else if let Ok(s) = self.string_quoted(b'\'', b"''") {
-            R::new_rc(Yaml::Str(s))
-        } else if let Ok(s) = self.string_quoted(b'"', b"\\\"") {
+        } else if self.food().starts_with(b"'") {
+            R::new_rc(Yaml::Str(self.string_quoted(b'\'', b"''")?))
+        } else if self.food().starts_with(b"\"") {
+            let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(match s.as_str() {
-- 
2.43.0


From a49b0388c1fd25842aaefccd39d8aa9cedbeceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:44 +0000
Subject: [PATCH 02/54] fix: report an undefined tag handle instead of
 panicking

---
 src/parser/base/grammar.rs | 5 ++++-
 src/parser/mod.rs          | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index dad9519..bc9ea68 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -297,7 +297,10 @@ impl Parser<'_> {
             let prefix = if !tag.is_empty() {
                 if p.sym(b'!').is_ok() {
                     // Tag prefix variable
-                    p.tag[&tag].clone()
+                    match p.tag.get(&tag) {
+                        Some(prefix) => prefix.clone(),
+                        None => return p.err("tag handle"),
+                    }
                 } else {
                     String::new()
                 }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 44a2cff..62ac5a6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -234,7 +234,7 @@ impl<R: Repr> Loader<'_, R> {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().unwrap_or_default();
+        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
         if !tag.is_empty() {
             self.bound()?;
         }
-- 
2.43.0


From b526f7e56395ddbb2cddc4a763dada2c24c1c5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:51 +0000
Subject: [PATCH 03/54] fix: plain scalars with no indentation must consume
 input on every step

---
 src/parser/base/grammar.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bc9ea68..bf5e7f6 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -158,21 +158,19 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
-                } else if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(true) {
-                        if t == 1 {
-                            v.push(' ');
-                        }
-                        for _ in 0..t - 1 {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
+                } else if let Ok(t) = p.gap(true) {
+                    if t == 1 {
+                        v.push(' ');
+                    }
+                    for _ in 0..t - 1 {
+                        v.push('\n');
+                    }
+                    if p.ind(level).is_err() {
                         break;
                     }
                     is_leading = true;
+                } else {
+                    break;
                 }
             }
             v.truncate(v.trim_end().len());
-- 
2.43.0


From 035ff01f5ed607f2ae13abd3c4427200ff093fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 04/54] fix: resolve numbers by their whole text, as the core
 schema defines them

Times and versions such as 12:30:45 were rejected, digits of octal and
hexadecimal integers were matched wrongly, and signed, dotted and final
numbers without newline became strings.
---
 src/parser/base/grammar.rs | 43 +++++++++++++++++++++++++-------
 src/parser/mod.rs          | 50 ++++++++++++++++++++++++++------------
 2 files changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index bf5e7f6..ba49a2f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -9,6 +9,10 @@ use core::cmp::Ordering;
 impl Parser<'_> {
     /// Match invisible boundaries and keep the gaps. (must matched once)
     pub fn bound(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            // The end of input is also a boundary
+            return Ok(());
+        }
         self.sym_set(b":{}[] ,\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
@@ -20,8 +24,20 @@ impl Parser<'_> {
         self.bound()
     }
 
+    fn sign(&mut self) -> PResult<()> {
+        self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))
+    }
+
+    fn exponent(&mut self) -> PResult<()> {
+        self.context(|p| {
+            p.sym_set(b"eE")?;
+            p.sign()?;
+            p.take_while(u8::is_ascii_digit, TakeOpt::More(1))
+        })
+    }
+
     fn num_prefix(&mut self) -> PResult<()> {
-        self.sym(b'-').unwrap_or_default();
+        self.sign()?;
         self.take_while(u8::is_ascii_digit, TakeOpt::More(1))
     }
 
@@ -47,29 +63,38 @@ impl Parser<'_> {
         self.take_while(Self::ascii_digit(16), TakeOpt::More(1))
     }
 
-    fn ascii_digit(i: u8) -> impl Fn(&u8) -> bool + 'static {
-        move |c| c.is_ascii_digit() || (*c > b'a' && *c < b'a' + i) || (*c > b'A' && *c < b'A' + i)
+    fn ascii_digit(radix: u32) -> impl Fn(&u8) -> bool + 'static {
+        move |c| char::from(*c).is_digit(radix)
     }
 
     /// Match float.
     pub fn float(&mut self) -> PResult<String> {
-        self.num_prefix()?;
+        self.sign()?;
+        let has_int = self.context(|p| p.take_while(u8::is_ascii_digit, TakeOpt::More(1)).is_ok());
         self.sym(b'.')?;
-        self.take_while(u8::is_ascii_digit, TakeOpt::More(0))?;
+        self.take_while(
+            u8::is_ascii_digit,
+            TakeOpt::More(if has_int { 0 } else { 1 }),
+        )?;
+        self.exponent().unwrap_or_default();
         let s = self.text();
         if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
             self.back(1);
         }
         self.bound()?;
-        Ok(s.trim_end_matches(".0").to_string())
+        Ok(match s.strip_suffix(".0") {
+            Some(s) if has_int => s.to_string(),
+            _ => s,
+        })
     }
 
     /// Match float with scientific notation.
     pub fn sci_float(&mut self) -> PResult<String> {
         self.num_prefix()?;
-        self.sym_set(b"eE")?;
-        self.take_while(Self::is_in(b"+-"), TakeOpt::Range(0, 1))?;
-        self.take_while(u8::is_ascii_digit, TakeOpt::More(1))?;
+        if let Err(e) = self.exponent() {
+            self.backward();
+            return Err(e);
+        }
         let s = self.text();
         if self.count(|p| p.ws(TakeOpt::More(0)))? > 0 {
             self.back(1);
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 62ac5a6..3cb38d0 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -266,13 +266,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.sci_float() {
-            R::new_rc(Yaml::Float(s))
-        } else if let Ok(s) = self.int() {
-            R::new_rc(Yaml::Int(s))
-        } else if let Ok(s) = self.anchor_use() {
+        let yaml = if let Ok(s) = self.anchor_use() {
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
@@ -285,16 +279,11 @@ impl<R: Repr> Loader<'_, R> {
         } else if self.food().starts_with(b"\"") {
             let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
+        } else if let Some(Ok(n)) = flow.then(|| Self::number(self)) {
+            // The splitter of a flow map can follow a number directly
+            R::new_rc(n)
         } else if let Ok(s) = self.string_plain(level, flow) {
-            R::new_rc(match s.as_str() {
-                "~" | "null" | "Null" | "NULL" => Yaml::Null,
-                "true" | "True" | "TRUE" => Yaml::Bool(true),
-                "false" | "False" | "FALSE" => Yaml::Bool(false),
-                ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".to_string()),
-                ".inf" | ".Inf" | ".INF" => Yaml::Float("inf".to_string()),
-                "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".to_string()),
-                _ => Yaml::Str(s),
-            })
+            R::new_rc(Self::resolve_plain(s))
         } else {
             self.seq_flow(level)
                 .or_else(|e| e.or(|| self.map_flow(level)))
@@ -303,6 +292,35 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Match float or integer.
+    fn number(p: &mut Parser) -> PResult<Yaml<R>> {
+        p.float()
+            .or_else(|_| p.sci_float())
+            .map(Yaml::Float)
+            .or_else(|_| p.int().map(Yaml::Int))
+    }
+
+    /// Resolve the whole text of a plain scalar by its form.
+    fn resolve_plain(s: String) -> Yaml<R> {
+        match s.as_str() {
+            "~" | "null" | "Null" | "NULL" => Yaml::Null,
+            "true" | "True" | "TRUE" => Yaml::Bool(true),
+            "false" | "False" | "FALSE" => Yaml::Bool(false),
+            ".nan" | ".NaN" | ".NAN" => Yaml::Float("NaN".to_string()),
+            ".inf" | ".Inf" | ".INF" | "+.inf" | "+.Inf" | "+.INF" => {
+                Yaml::Float("inf".to_string())
+            }
+            "-.inf" | "-.Inf" | "-.INF" => Yaml::Float("-inf".to_string()),
+            text => {
+                let mut p = Parser::new(text.as_bytes());
+                match Self::number(&mut p) {
+                    Ok(n) if p.food().is_empty() => n,
+                    _ => Yaml::Str(s),
+                }
+            }
+        }
+    }
+
     /// Match flow sequence.
     pub fn seq_flow(&mut self, level: usize) -> PResult<R::Rc> {
         self.sym(b'[')?;
-- 
2.43.0


From a6bdc473719887479712e81797fd319824f48eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:48 +0000
Subject: [PATCH 05/54] fix: an empty map value must not absorb the following
 sibling keys

---
 src/parser/base/grammar.rs | 3 +++
 src/parser/base/mod.rs     | 2 +-
 src/parser/mod.rs          | 5 +++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index ba49a2f..68804d5 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -183,6 +183,9 @@ impl Parser<'_> {
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
                     is_leading = false;
+                } else if v.is_empty() {
+                    // Never start from the next line
+                    break;
                 } else if let Ok(t) = p.gap(true) {
                     if t == 1 {
                         v.push(' ');
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index ba4a63d..96416a3 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -21,7 +21,7 @@ pub enum TakeOpt {
 /// Its methods are actually the sub-parser of the syntax.
 pub struct Parser<'a> {
     doc: &'a [u8],
-    indent: Vec<usize>,
+    pub(crate) indent: Vec<usize>,
     consumed: u64,
     pub(crate) version_checked: bool,
     pub(crate) tag: BTreeMap<String, String>,
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3cb38d0..38d23d3 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -439,6 +439,11 @@ impl<R: Repr> Loader<'_, R> {
                 if map {
                     self.gap(true)?;
                     self.ind_define(level)?;
+                    if self.indent[level] == 0 {
+                        // The sibling of the parent, the value is empty
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
-- 
2.43.0


From 756dfeff61f1200abc24c4c5dddd5e75ce30d9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 06/54] fix: accept a key or a comment that is ended by the end
 of input

---
 src/parser/base/grammar.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 68804d5..3d74971 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -167,7 +167,7 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
-                    || (p.sym(b':').is_ok() && p.nl().is_ok())
+                    || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
                 {
                     p.backward();
@@ -416,8 +416,9 @@ impl Parser<'_> {
     /// Set `cmt` to `true` to ignore comments at the line end.
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
-            if cmt {
-                p.comment().unwrap_or_default();
+            // A comment can also be ended by the end of input
+            if cmt && p.comment().is_ok() && p.food().is_empty() {
+                return Ok(1);
             }
             p.nl()?;
             let mut t = 1;
@@ -425,8 +426,8 @@ impl Parser<'_> {
                 // Check point
                 p.forward();
                 p.ws(TakeOpt::More(0))?;
-                if cmt {
-                    p.comment().unwrap_or_default();
+                if cmt && p.comment().is_ok() && p.food().is_empty() {
+                    return Ok(t);
                 }
                 if p.nl().is_err() {
                     p.backward();
-- 
2.43.0


From f47466ad5edc4df47cfac2dffcd29bc5fe6efb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 07/54] fix: accept trailing spaces after quoted, flow and
 alias nodes

---
 src/parser/base/grammar.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3d74971..363474f 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -416,8 +416,8 @@ impl Parser<'_> {
     /// Set `cmt` to `true` to ignore comments at the line end.
     pub fn gap(&mut self, cmt: bool) -> PResult<usize> {
         self.context(|p| {
-            // A comment can also be ended by the end of input
-            if cmt && p.comment().is_ok() && p.food().is_empty() {
+            // The rest spaces and comment can also be ended by the end of input
+            if cmt && p.line_end() {
                 return Ok(1);
             }
             p.nl()?;
@@ -426,7 +426,7 @@ impl Parser<'_> {
                 // Check point
                 p.forward();
                 p.ws(TakeOpt::More(0))?;
-                if cmt && p.comment().is_ok() && p.food().is_empty() {
+                if cmt && p.line_end() {
                     return Ok(t);
                 }
                 if p.nl().is_err() {
@@ -438,6 +438,16 @@ impl Parser<'_> {
         })
     }
 
+    /// Skip the spaces and comment at the line end, return true if the end of
+    /// input is reached by them.
+    fn line_end(&mut self) -> bool {
+        let start = self.eaten;
+        if self.comment().is_err() {
+            self.ws(TakeOpt::More(0)).unwrap_or_default();
+        }
+        start < self.pos && self.food().is_empty()
+    }
+
     /// Match comment.
     pub fn comment(&mut self) -> PResult<()> {
         self.ws(TakeOpt::More(0))?;
-- 
2.43.0


From bb83c8c227965ae58a510b50c006678c5d63fd4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:45 +0000
Subject: [PATCH 08/54] fix: report malformed flow collections instead of
 turning them into null

Also accept newlines, comments and spaces around every flow separator.
---
 src/parser/base/grammar.rs | 14 +++++++++++-
 src/parser/mod.rs          | 44 ++++++++++++++++----------------------
 2 files changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 363474f..34151f6 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -193,7 +193,7 @@ impl Parser<'_> {
                     for _ in 0..t - 1 {
                         v.push('\n');
                     }
-                    if p.ind(level).is_err() {
+                    if !inner && p.ind(level).is_err() {
                         break;
                     }
                     is_leading = true;
@@ -397,6 +397,18 @@ impl Parser<'_> {
         self.take_while(u8::is_ascii_whitespace, opt)
     }
 
+    /// Skip any invisible characters and comments in the flow structure.
+    pub(crate) fn inv_flow(&mut self) {
+        self.forward();
+        while self.inv(TakeOpt::More(1)).is_ok() {
+            self.forward();
+            if self.comment().is_err() {
+                break;
+            }
+        }
+        self.forward();
+    }
+
     /// Match and define new indent size.
     pub fn ind_define(&mut self, level: usize) -> PResult<()> {
         if level > 0 {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 38d23d3..11ca15b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -326,20 +326,19 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'[')?;
         let mut v = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
-            self.forward();
+            self.inv_flow();
             if self.sym(b']').is_ok() {
                 break;
             }
-            self.forward();
             let n = self
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
             v.push(n);
-            self.inv(TakeOpt::More(0))?;
+            self.inv_flow();
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
-                self.sym(b']')?;
+                if self.sym(b']').is_err() {
+                    return self.err("flow sequence item");
+                }
                 break;
             }
         }
@@ -352,37 +351,30 @@ impl<R: Repr> Loader<'_, R> {
         self.sym(b'{')?;
         let mut m = vec![];
         loop {
-            self.inv(TakeOpt::More(0))?;
-            self.forward();
+            self.inv_flow();
             if self.sym(b'}').is_ok() {
                 break;
             }
-            self.forward();
-            let k = if self.complex_mapping().is_ok() {
-                self.forward();
-                let k = self
-                    .scalar(level + 1, false, true)
-                    .or_else(|e| e.or(|| self.err("flow map key")))?;
-                if self.gap(true).is_ok() {
-                    self.ind(level)?;
-                }
-                k
-            } else {
-                self.scalar_flow(level + 1, true)
-                    .or_else(|e| e.or(|| self.err("flow map key")))?
-            };
+            if self.complex_mapping().is_ok() {
+                self.inv_flow();
+            }
+            let k = self
+                .scalar_flow(level + 1, true)
+                .or_else(|e| e.or(|| self.err("flow map key")))?;
+            self.inv_flow();
             if self.sym(b':').is_err() {
                 return self.err("flow map splitter");
             }
-            self.context(|p| p.bound().unwrap_or_default());
-            self.forward();
+            self.inv_flow();
             let v = self
                 .scalar(level + 1, false, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
+            self.inv_flow();
             if self.sym(b',').is_err() {
-                self.inv(TakeOpt::More(0))?;
-                self.sym(b'}')?;
+                if self.sym(b'}').is_err() {
+                    return self.err("flow map value");
+                }
                 break;
             }
         }
-- 
2.43.0


From 606775d34e76e1960a211ae235f94801bce54031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 09/54] fix: accept spaces between a quoted, flow or alias key
 and its splitter

---
 src/parser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 11ca15b..d0352b5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -453,6 +453,7 @@ impl<R: Repr> Loader<'_, R> {
                 } else {
                     self.scalar_flow(level + 1, flow)?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     // Return key
                     return Ok(k.clone_yaml());
@@ -479,6 +480,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?
                 };
+                self.ws(TakeOpt::More(0))?;
                 if self.sym(b':').is_err() || self.bound().is_err() {
                     return self.err("map splitter");
                 }
-- 
2.43.0


From 5dda127520909529d9ed217411be818055e2c90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 10/54] fix: an empty document must not absorb its end marker

---
 src/parser/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d0352b5..e5475a8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -196,10 +196,9 @@ impl<R: Repr> Loader<'_, R> {
             true
         } else {
             self.context(|p| {
-                let b = p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok();
-                if b {
-                    p.backward();
-                }
+                let b = (p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok())
+                    && p.food().first().map_or(true, u8::is_ascii_whitespace);
+                p.backward();
                 b
             })
         }
@@ -439,6 +438,11 @@ impl<R: Repr> Loader<'_, R> {
                 } else if self.gap(true).is_ok() {
                     // Root
                     self.ind(level)?;
+                    if self.doc_end() {
+                        // The document is empty
+                        self.backward();
+                        return Err(PError::Mismatch);
+                    }
                 }
                 self.forward();
                 let k = if self.complex_mapping().is_ok() {
-- 
2.43.0


From 70bbfb8f35eb23b4d87bf6dc37a9c3b92b330495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:37 +0000
Subject: [PATCH 11/54] fix: find the indentation of block scalars and their
 end

Block scalars at the document root or without a final newline were turned
into a plain string, deeper indentation became a part of the content,
leading empty lines were doubled and spaces of empty lines ended them.
---
 src/parser/base/grammar.rs | 80 +++++++++++++++++++++++++++++---------
 src/parser/mod.rs          | 11 +-----
 2 files changed, 63 insertions(+), 28 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 34151f6..2b5f726 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -214,7 +214,7 @@ impl Parser<'_> {
     pub fn string_literal(&mut self, level: usize) -> PResult<String> {
         self.sym(b'|')?;
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
+        self.context(|p| p.line_end());
         let s = self.string_wrapped(level, b'\n', true)?;
         Ok(chomp(s))
     }
@@ -223,7 +223,7 @@ impl Parser<'_> {
     pub fn string_folded(&mut self, level: usize) -> PResult<String> {
         self.sym(b'>')?;
         let chomp = self.chomp();
-        self.ws(TakeOpt::More(0))?;
+        self.context(|p| p.line_end());
         let s = self.string_wrapped(level, b' ', false)?;
         Ok(chomp(s))
     }
@@ -232,11 +232,14 @@ impl Parser<'_> {
     pub fn chomp(&mut self) -> impl Fn(String) -> String {
         self.context(|p| {
             if p.sym(b'-').is_ok() {
-                |s: String| s.trim_end().to_string()
+                |s: String| s.trim_end_matches('\n').to_string()
             } else if p.sym(b'+').is_ok() {
                 |s| s
             } else {
-                |s: String| s.trim_end().to_string() + "\n"
+                |s: String| match s.trim_end_matches('\n') {
+                    "" => String::new(),
+                    s => s.to_string() + "\n",
+                }
             }
         })
     }
@@ -245,40 +248,81 @@ impl Parser<'_> {
     pub fn string_wrapped(&mut self, level: usize, sep: u8, leading: bool) -> PResult<String> {
         self.context(|p| {
             let mut v = String::new();
+            let mut width = None;
+            if p.food().is_empty() {
+                return Ok(v);
+            }
+            p.nl()?;
             loop {
-                p.nl()?;
                 p.forward();
-                if p.ind(level).is_err() {
-                    if let Ok(t) = p.gap(false) {
-                        for _ in 0..t {
-                            v.push('\n');
-                        }
-                        if p.ind(level).is_err() {
-                            break;
-                        }
-                    } else {
-                        break;
+                let first = width.is_none();
+                if (level == 0 && p.doc_marker()) || p.ind_wrapped(level, &mut width).is_err() {
+                    if p.context(|p| p.ws(TakeOpt::More(0)).is_ok() && p.nl().is_ok()) {
+                        v.push('\n');
+                        continue;
                     }
+                    p.backward();
+                    break;
                 }
                 p.forward();
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))?;
                 let s = p.text();
                 if leading {
-                    if !v.is_empty() {
+                    if !first {
                         v.push(char::from(sep));
                     }
                     v.push_str(&s);
                 } else {
                     let s = s.trim_start();
-                    if !v.is_empty() && !v.ends_with(char::is_whitespace) {
+                    if s.is_empty() {
+                        v.push('\n');
+                    } else if !v.is_empty() && !v.ends_with(char::is_whitespace) {
                         v.push(char::from(sep));
                     }
                     v.push_str(s);
                 }
+                if p.nl().is_err() {
+                    // The last line is ended by the end of input
+                    return Ok(v + "\n");
+                }
             }
             // Keep the last wrap
             p.back(1);
-            Ok(v + "\n")
+            Ok(if width.is_some() { v + "\n" } else { v })
+        })
+    }
+
+    /// Match the indent of a wrapped string, the width is defined by the first
+    /// line that is not empty.
+    fn ind_wrapped(&mut self, level: usize, width: &mut Option<usize>) -> PResult<()> {
+        if self.food().is_empty() {
+            return Err(PError::Mismatch);
+        }
+        if level > 0 {
+            self.ind(level - 1)?;
+        }
+        if let Some(n) = width {
+            for _ in 0..*n {
+                self.sym(b' ')?;
+            }
+        } else {
+            let n = self.count(|p| p.take_while(Self::is_in(b" "), TakeOpt::More(0)))?;
+            if (level > 0 && n == 0) || self.food().is_empty() || self.nl().is_ok() {
+                self.backward();
+                return Err(PError::Mismatch);
+            }
+            *width = Some(n);
+        }
+        Ok(())
+    }
+
+    /// Check the document splitter or the document end at the line start.
+    pub(crate) fn doc_marker(&mut self) -> bool {
+        self.context(|p| {
+            let b = (p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok())
+                && p.food().first().map_or(true, u8::is_ascii_whitespace);
+            p.backward();
+            b
         })
     }
 
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index e5475a8..1a13623 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -192,16 +192,7 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match doc end.
     pub fn doc_end(&mut self) -> bool {
-        if self.food().is_empty() {
-            true
-        } else {
-            self.context(|p| {
-                let b = (p.sym_seq(b"---").is_ok() || p.sym_seq(b"...").is_ok())
-                    && p.food().first().map_or(true, u8::is_ascii_whitespace);
-                p.backward();
-                b
-            })
-        }
+        self.food().is_empty() || self.doc_marker()
     }
 
     /// Match scalar.
-- 
2.43.0


From 626cb23aa8e3d2771b07b5c3b9c6212144664b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 12/54] fix: keep escaped backslashes and wrapped lines apart
 in quoted strings

An escaped backslash before the terminator or the line end was taken as an
escape, and the backslash of an escaped wrapping was kept.
---
 src/parser/base/grammar.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 2b5f726..994987b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -118,16 +118,13 @@ impl Parser<'_> {
                 p.forward();
                 if p.sym_seq(ignore).is_ok() {
                     v.push(char::from(sym));
-                } else if let Ok(mut t) = p.gap(false) {
-                    if v.ends_with('\\') {
-                        t -= 1;
-                    }
+                } else if let Ok(t) = p.gap(false) {
+                    v.truncate(v.trim_end_matches([' ', '\t']).len());
                     match t.cmp(&1) {
                         Ordering::Less => {}
                         Ordering::Equal => {
-                            v.truncate(v.trim_end().len());
                             // Manual wrapping
-                            if !v.ends_with("\\n") {
+                            if sym != b'"' || !Self::ends_with_wrap(&v) {
                                 v.push(' ');
                             }
                         }
@@ -139,8 +136,20 @@ impl Parser<'_> {
                     }
                     // Remove leading space
                     p.ws(TakeOpt::More(0))?;
+                } else if sym == b'"' && p.sym_seq(b"\\\\").is_ok() {
+                    v.push_str("\\\\");
                 } else if p.sym(b'\\').is_ok() {
-                    v.push('\\');
+                    if sym != b'"' {
+                        v.push('\\');
+                    } else if let Ok(t) = p.gap(false) {
+                        // Escaped wrapping
+                        for _ in 0..t - 1 {
+                            v.push('\n');
+                        }
+                        p.ws(TakeOpt::More(0))?;
+                    } else {
+                        v.push('\\');
+                    }
                 } else if p.sym(sym).is_ok() {
                     break;
                 } else {
@@ -151,6 +160,13 @@ impl Parser<'_> {
         })
     }
 
+    /// Check if the raw string ends with an escaped wrap.
+    fn ends_with_wrap(s: &str) -> bool {
+        s.strip_suffix('n').map_or(false, |s| {
+            (s.len() - s.trim_end_matches('\\').len()) % 2 == 1
+        })
+    }
+
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
         let mut patt = b"[]{}: \n\r".to_vec();
-- 
2.43.0


From b675ee806e706e8349a171dc3e13448ebb14db96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:41 +0000
Subject: [PATCH 13/54] fix: unescape the numeric and named escapes of double
 quoted strings

---
 src/parser/base/grammar.rs | 68 +++++++++++++++++++++++++++++---------
 1 file changed, 53 insertions(+), 15 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 994987b..89bdbee 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -1,6 +1,6 @@
 use super::*;
 use alloc::format;
-use core::cmp::Ordering;
+use core::{cmp::Ordering, str::Chars};
 
 /// The low level grammar implementation for YAML.
 ///
@@ -345,26 +345,64 @@ impl Parser<'_> {
     /// Match an escaped string, return unescaped string.
     pub fn escape(doc: &str) -> String {
         let mut s = String::new();
-        let mut b = false;
-        for c in doc.chars() {
-            if c == '\\' && !b {
-                b = true;
+        let mut chars = doc.chars();
+        while let Some(c) = chars.next() {
+            if c != '\\' {
+                s.push(c);
                 continue;
             }
-            s.push(match c {
-                '\\' if b => '\\',
-                'n' if b => '\n',
-                'r' if b => '\r',
-                't' if b => '\t',
-                'b' if b => '\x08',
-                'f' if b => '\x0C',
-                c => c,
-            });
-            b = false;
+            match chars.next() {
+                Some('n') => s.push('\n'),
+                Some('r') => s.push('\r'),
+                Some('t') => s.push('\t'),
+                Some('b') => s.push('\x08'),
+                Some('f') => s.push('\x0C'),
+                Some('0') => s.push('\0'),
+                Some('a') => s.push('\x07'),
+                Some('v') => s.push('\x0B'),
+                Some('e') => s.push('\x1B'),
+                Some('N') => s.push('\u{85}'),
+                Some('_') => s.push('\u{A0}'),
+                Some('L') => s.push('\u{2028}'),
+                Some('P') => s.push('\u{2029}'),
+                Some(c) => {
+                    let len = match c {
+                        'x' => 2,
+                        'u' => 4,
+                        'U' => 8,
+                        _ => 0,
+                    };
+                    match Self::escape_code(&mut chars, len) {
+                        Some(code) => s.push(code),
+                        None => s.push(c),
+                    }
+                }
+                None => {}
+            }
         }
         s
     }
 
+    /// Match the digits of a numeric escape, includes the surrogate pairs.
+    fn escape_code(chars: &mut Chars, len: usize) -> Option<char> {
+        fn hex(chars: &mut Chars, len: usize) -> Option<u32> {
+            (0..len).try_fold(0, |code, _| Some(code << 4 | chars.next()?.to_digit(16)?))
+        }
+        let mut tail = chars.clone();
+        let code = match hex(&mut tail, len).filter(|_| len > 0)? {
+            high @ 0xD800..=0xDBFF if tail.next()? == '\\' && tail.next()? == 'u' => {
+                match hex(&mut tail, 4)? {
+                    low @ 0xDC00..=0xDFFF => 0x10000 + ((high - 0xD800) << 10) + (low - 0xDC00),
+                    _ => return None,
+                }
+            }
+            code => code,
+        };
+        let c = char::from_u32(code)?;
+        *chars = tail;
+        Some(c)
+    }
+
     /// Match valid YAML identifier.
     pub fn identifier(&mut self) -> PResult<()> {
         self.take_while(u8::is_ascii_alphanumeric, TakeOpt::One)?;
-- 
2.43.0


From 0b0c21ca2cfe882307e586fee576ded2b36b45e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:21 +0000
Subject: [PATCH 14/54] fix: accept any consistent indentation of the root and
 of nested sequences

---
 src/parser/base/grammar.rs |  5 +++-
 src/parser/base/mod.rs     |  5 ++++
 src/parser/mod.rs          | 52 ++++++++++++++++++++------------------
 3 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 89bdbee..f581502 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -530,7 +530,10 @@ impl Parser<'_> {
             if cmt && p.line_end() {
                 return Ok(1);
             }
-            p.nl()?;
+            if let Err(e) = p.nl() {
+                p.backward();
+                return Err(e);
+            }
             let mut t = 1;
             loop {
                 // Check point
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 96416a3..09858ea 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -95,6 +95,11 @@ impl Parser<'_> {
         self.consumed + self.pos as u64
     }
 
+    /// Check if the current position is the start of a line.
+    pub(crate) fn line_start(&self) -> bool {
+        self.pos == 0 || matches!(self.doc[self.pos - 1], b'\n' | b'\r')
+    }
+
     /// A short function to raise error.
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1a13623..a6a6ee5 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -162,6 +162,7 @@ impl<R: Repr> Loader<'_, R> {
             }
         }
         self.gap(true).unwrap_or_default();
+        self.forward();
         self.sym_seq(b"---").unwrap_or_default();
         let mut v = vec![self.doc()?];
         loop {
@@ -179,7 +180,12 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
-        self.context(|p| p.bound().unwrap_or_default());
+        self.indent = vec![0];
+        if self.line_start() {
+            self.ind_define(0)?;
+        } else {
+            self.context(|p| p.bound().unwrap_or_default());
+        }
         self.forward();
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
@@ -372,6 +378,24 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(m.into_iter().collect()))
     }
 
+    /// Match the indent of the first item if it is in the new line.
+    ///
+    /// Only the root and the sequence in a map can be aligned with the parent.
+    fn ind_first(&mut self, level: usize, required: bool, aligned: bool) -> PResult<()> {
+        if let Err(e) = self.gap(true) {
+            return if required { Err(e) } else { Ok(()) };
+        }
+        let empty = self.doc_end() || {
+            self.ind_define(level)?;
+            level > 0 && !aligned && self.indent[level] == 0
+        };
+        if empty {
+            self.backward();
+            return Err(PError::Mismatch);
+        }
+        Ok(())
+    }
+
     /// Match sequence.
     pub fn seq(&mut self, level: usize, map: bool) -> PResult<R::Rc> {
         let mut v = vec![];
@@ -379,13 +403,7 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             if v.is_empty() {
                 // First item
-                if map {
-                    self.gap(true)?;
-                    self.ind_define(level)?;
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
-                }
+                self.ind_first(level, map, map)?;
                 self.sym(b'-')?;
                 self.bound()?;
             } else {
@@ -418,23 +436,7 @@ impl<R: Repr> Loader<'_, R> {
             self.forward();
             let k = if m.is_empty() {
                 // First item
-                if map {
-                    self.gap(true)?;
-                    self.ind_define(level)?;
-                    if self.indent[level] == 0 {
-                        // The sibling of the parent, the value is empty
-                        self.backward();
-                        return Err(PError::Mismatch);
-                    }
-                } else if self.gap(true).is_ok() {
-                    // Root
-                    self.ind(level)?;
-                    if self.doc_end() {
-                        // The document is empty
-                        self.backward();
-                        return Err(PError::Mismatch);
-                    }
-                }
+                self.ind_first(level, map, false)?;
                 self.forward();
                 let k = if self.complex_mapping().is_ok() {
                     self.forward();
-- 
2.43.0


From 333fe96613b12b30e8235ef66734b76b6d24f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 15/54] fix: report malformed anchors, aliases and tags instead
 of dropping characters

---
 src/parser/base/grammar.rs | 14 ++++++++++----
 src/parser/mod.rs          | 10 ++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index f581502..5f604a2 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -431,10 +431,12 @@ impl Parser<'_> {
             } else if p.sym(b'<').is_ok() {
                 // Full tag
                 let tag = p.context(|p| {
-                    p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(1))?;
+                    p.take_while(Self::not_in(b" <>\n\r"), TakeOpt::More(0))?;
                     Ok(p.text())
                 })?;
-                p.sym(b'>')?;
+                if tag.is_empty() || p.sym(b'>').is_err() {
+                    return p.err("tag");
+                }
                 tag
             } else if p.sym(b'!').is_ok() {
                 p.tag["!!"].clone()
@@ -456,7 +458,9 @@ impl Parser<'_> {
     pub fn anchor(&mut self) -> PResult<String> {
         self.sym(b'&')?;
         self.context(|p| {
-            p.identifier()?;
+            if p.identifier().is_err() {
+                return p.err("anchor name");
+            }
             Ok(p.text())
         })
     }
@@ -465,7 +469,9 @@ impl Parser<'_> {
     pub fn anchor_use(&mut self) -> PResult<String> {
         self.sym(b'*')?;
         self.context(|p| {
-            p.identifier()?;
+            if p.identifier().is_err() {
+                return p.err("alias name");
+            }
             Ok(p.text())
         })
     }
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a6a6ee5..7b6fa4f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -225,17 +225,18 @@ impl<R: Repr> Loader<'_, R> {
     where
         F: FnOnce(&mut Self) -> PResult<R::Rc>,
     {
-        let mut anchor = self.anchor().unwrap_or_default();
+        let optional = |r: PResult<String>| r.or_else(|e| e.or(|| Ok(String::new())));
+        let mut anchor = optional(self.anchor())?;
         if !anchor.is_empty() {
             self.bound()?;
         }
         self.forward();
-        let tag = self.tag().or_else(|e| e.or(|| Ok(String::new())))?;
+        let tag = optional(self.tag())?;
         if !tag.is_empty() {
             self.bound()?;
         }
         self.forward();
-        let anchor2 = self.anchor().unwrap_or_default();
+        let anchor2 = optional(self.anchor())?;
         if !anchor2.is_empty() {
             if anchor.is_empty() {
                 self.bound()?;
@@ -262,7 +263,8 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
-        let yaml = if let Ok(s) = self.anchor_use() {
+        let yaml = if self.food().starts_with(b"*") {
+            let s = self.anchor_use()?;
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
             } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
-- 
2.43.0


From 7bf20c3c2be2e9cb6fb46b9a383cb18831dae183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 16/54] fix: apply the prefix of the primary tag handle to
 local tags

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 5f604a2..830ee8d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -426,7 +426,7 @@ impl Parser<'_> {
                         None => return p.err("tag handle"),
                     }
                 } else {
-                    String::new()
+                    p.tag["!"].clone()
                 }
             } else if p.sym(b'<').is_ok() {
                 // Full tag
-- 
2.43.0


From 67e880265da6107fbd334a3b1fb6699e2faf940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:27 +0000
Subject: [PATCH 17/54] fix: a node behind the non-specific tag must not start
 with spaces

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7b6fa4f..d9e3f1e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -232,7 +232,7 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let tag = optional(self.tag())?;
-        if !tag.is_empty() {
+        if self.pos > self.eaten {
             self.bound()?;
         }
         self.forward();
-- 
2.43.0


From 2d9a3e640cbfce7c5727aae68346f6730515e838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 18/54] fix: hash numbers by value and compare big numbers
 without panic

---
 src/yaml.rs | 53 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 17 deletions(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 9faffee..b5e84e8 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -39,16 +39,27 @@ pub type Seq<R> = Vec<Node<R>>;
 /// The map data structure of YAML.
 pub type Map<R> = LinkedHashMap<Node<R>, Node<R>>;
 
-pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
+fn to_int<T>(
+    s: &str,
+    from_radix: fn(&str, u32) -> Result<T, core::num::ParseIntError>,
+) -> Result<T, core::num::ParseIntError> {
     if s.contains("0x") {
-        i64::from_str_radix(&s.replace("0x", ""), 16)
+        from_radix(&s.replace("0x", ""), 16)
     } else if s.contains("0o") {
-        i64::from_str_radix(&s.replace("0o", ""), 8)
+        from_radix(&s.replace("0o", ""), 8)
     } else {
-        s.parse()
+        from_radix(s, 10)
     }
 }
 
+pub(crate) fn to_i64(s: &str) -> Result<i64, core::num::ParseIntError> {
+    to_int(s, i64::from_str_radix)
+}
+
+pub(crate) fn to_i128(s: &str) -> Result<i128, core::num::ParseIntError> {
+    to_int(s, i128::from_str_radix)
+}
+
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
@@ -79,7 +90,8 @@ pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
 /// );
 /// ```
 ///
-/// The digit NaN (not-a-number) will be equal in the comparison.
+/// The digit NaN (not-a-number) will be equal in the comparison. The numbers
+/// are compared by their values, or by their texts if they are not valid.
 pub enum Yaml<R: Repr> {
     /// Null
     Null,
@@ -139,11 +151,19 @@ impl<R: Repr> Hash for Yaml<R> {
             }
             Self::Int(s) => {
                 state.write_u8(3);
-                s.hash(state)
+                match to_i128(s) {
+                    Ok(n) => n.hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Float(s) => {
                 state.write_u8(4);
-                s.hash(state)
+                match to_f64(s) {
+                    // The values are equal but have different bits
+                    Ok(n) if n.is_nan() => f64::NAN.to_bits().hash(state),
+                    Ok(n) => (n + 0.).to_bits().hash(state),
+                    Err(_) => s.hash(state),
+                }
             }
             Self::Str(s) => {
                 state.write_u8(5);
@@ -170,16 +190,15 @@ impl<R: Repr> PartialEq for Yaml<R> {
         match (self, other) {
             (Self::Null, Self::Null) => true,
             (Self::Bool(b1), Self::Bool(b2)) => b1 == b2,
-            (Self::Int(s1), Self::Int(s2)) => to_i64(s1).unwrap() == to_i64(s2).unwrap(),
-            (Self::Float(s1), Self::Float(s2)) => {
-                let f1 = to_f64(s1).unwrap();
-                let f2 = to_f64(s2).unwrap();
-                if f1.is_nan() && f2.is_nan() {
-                    true
-                } else {
-                    f1 == f2
-                }
-            }
+            (Self::Int(s1), Self::Int(s2)) => match (to_i128(s1), to_i128(s2)) {
+                (Err(_), Err(_)) => s1 == s2,
+                (n1, n2) => n1 == n2,
+            },
+            (Self::Float(s1), Self::Float(s2)) => match (to_f64(s1), to_f64(s2)) {
+                (Ok(f1), Ok(f2)) if f1.is_nan() && f2.is_nan() => true,
+                (Err(_), Err(_)) => s1 == s2,
+                (f1, f2) => f1 == f2,
+            },
             (Self::Str(s1), Self::Str(s2)) => s1 == s2,
             (Self::Seq(s1), Self::Seq(s2)) => s1 == s2,
             (Self::Map(m1), Self::Map(m2)) => m1 == m2,
-- 
2.43.0


From e6743130424757fd37fe990fedf74171b5162eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 19/54] fix: indicate positions behind the document and of
 continued documents

---
 src/indicator.rs       | 5 +++--
 src/parser/base/mod.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/indicator.rs b/src/indicator.rs
index b67a128..f8d0609 100644
--- a/src/indicator.rs
+++ b/src/indicator.rs
@@ -19,8 +19,9 @@ use alloc::{format, string::String};
 /// ```
 ///
 /// This may be what you need if you went to indicate an error on the invalid
-/// data.
-pub fn indicated_msg(doc: &[u8], mut pos: u64) -> String {
+/// data. The position behind the document indicates the end of the document.
+pub fn indicated_msg(doc: &[u8], pos: u64) -> String {
+    let mut pos = pos.min(doc.len() as u64);
     for (line, str_line) in doc.split(|c| *c == b'\n').enumerate() {
         let full_line = str_line.len() as u64 + 1;
         if full_line > pos {
diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 09858ea..fbcca50 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -104,7 +104,8 @@ impl Parser<'_> {
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
             name,
-            msg: indicated_msg(self.doc, self.indicator()),
+            // The consumed part is not in the document
+            msg: indicated_msg(self.doc, self.pos as u64),
         })
     }
 
-- 
2.43.0


From f8693c0b41e10b16d8ee8fecc78223c789e3cb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:32 +0000
Subject: [PATCH 20/54] fix: dump empty sequences and maps

---
 src/dumper.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index e007647..269dfcb 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -40,6 +40,15 @@ impl<'a, R: Repr> Dumper<'a, R> {
         Self { node, root, level, anchors: self.anchors }.dump()
     }
 
+    /// Check the node will be dumped in block format.
+    fn is_block(node: &Node<R>) -> bool {
+        match node.yaml() {
+            Yaml::Seq(v) => !v.is_empty(),
+            Yaml::Map(m) => !m.is_empty(),
+            _ => false,
+        }
+    }
+
     /// Dump into string.
     pub fn dump(&self) -> String {
         let mut doc = String::new();
@@ -91,6 +100,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     doc += s;
                 }
             }
+            Yaml::Seq(v) if v.is_empty() => doc += "[]",
             Yaml::Seq(v) => {
                 let mut buf = NL.to_string();
                 for (i, node) in v.iter().enumerate() {
@@ -103,6 +113,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                 buf.truncate(buf.len() - NL.len());
                 doc += &buf;
             }
+            Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Map(m) => {
                 let mut buf = match self.root {
                     Root::Map => NL.to_string(),
@@ -113,7 +124,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &ind;
                     }
                     let s = self.part(k, Root::Map, self.level + 1);
-                    if matches!(k.yaml(), Yaml::Map(_) | Yaml::Seq(_)) {
+                    if Self::is_block(k) {
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
                     } else {
@@ -121,12 +132,13 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     };
                     buf += ":";
                     buf += &match v.yaml() {
-                        Yaml::Map(_) => self.part(v, Root::Map, self.level + 1),
+                        _ if !Self::is_block(v) => {
+                            format!(" {}", self.part(v, Root::Map, self.level + 1))
+                        }
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
                             self.part(v, Root::Map, self.level)
                         }
-                        Yaml::Seq(_) => self.part(v, Root::Map, self.level + 1),
-                        _ => format!(" {}", self.part(v, Root::Map, self.level + 1)),
+                        _ => self.part(v, Root::Map, self.level + 1),
                     };
                     buf += NL;
                 }
-- 
2.43.0


From 83ba6833dad7fe57da0485e403c320687fb17438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 21/54] fix: dump floats in the form of the core schema

---
 src/dumper.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 269dfcb..46b5e87 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -73,7 +73,15 @@ impl<'a, R: Repr> Dumper<'a, R> {
         match &self.node.yaml() {
             Yaml::Null => doc += "null",
             Yaml::Bool(b) => write!(doc, "{b}").unwrap(),
-            Yaml::Int(n) | Yaml::Float(n) => doc += n,
+            Yaml::Int(n) => doc += n,
+            Yaml::Float(n) => match n.as_str() {
+                "NaN" => doc += ".nan",
+                "inf" => doc += ".inf",
+                "-inf" => doc += "-.inf",
+                // Not an integer
+                n if n.contains(['.', 'e', 'E']) => doc += n,
+                n => write!(doc, "{n}.0").unwrap(),
+            },
             Yaml::Str(s) => {
                 if s.lines().nth(1).is_some() {
                     // Multiline string
-- 
2.43.0


From 1509d6e07377faf46ed4531760cdaeb4afacabfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 22/54] fix: dump strings in a style that is read back as the
 same string

---
 src/dumper.rs     | 82 ++++++++++++++++++++++++++++++++---------------
 src/parser/mod.rs |  2 +-
 2 files changed, 57 insertions(+), 27 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 46b5e87..c72e85f 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -3,7 +3,6 @@ use crate::{parser::Anchors, repr::Repr, *};
 use alloc::{
     format,
     string::{String, ToString},
-    vec::Vec,
 };
 use core::fmt::Write;
 
@@ -18,10 +17,47 @@ pub const NL: &str = if cfg!(windows) { "\r\n" } else { "\n" };
 #[derive(Eq, PartialEq)]
 enum Root {
     Scalar,
+    Key,
     Map,
     Array,
 }
 
+/// Check the multiline string can be kept by the literal style.
+fn is_literal(s: &str) -> bool {
+    s.lines().nth(1).is_some()
+        && !s.starts_with([' ', '\n'])
+        && !s.ends_with("\n\n")
+        && s.chars().all(|c| c == '\n' || !c.is_control())
+}
+
+/// Check the string can be read as the same string without quotes.
+fn is_plain<R: Repr>(s: &str) -> bool {
+    let mut p = parser::Parser::new(s.as_bytes());
+    !s.starts_with(|c| ",[]{}#&*!|>'\"%@`".contains(c))
+        && !matches!(s, "-" | "?" | "---" | "...")
+        && !["- ", "? ", "--- ", "... "].iter().any(|t| s.starts_with(t))
+        && !s.contains(char::is_control)
+        && matches!(p.string_plain(0, false), Ok(t) if t == s)
+        && parser::Loader::<R>::resolve_plain(s.to_string()) == Yaml::Str(s.to_string())
+}
+
+/// Escape the string with double quotes.
+fn quoted(s: &str) -> String {
+    let mut doc = String::from("\"");
+    for c in s.chars() {
+        match c {
+            '"' => doc += "\\\"",
+            '\\' => doc += "\\\\",
+            '\n' => doc += "\\n",
+            '\r' => doc += "\\r",
+            '\t' => doc += "\\t",
+            c if c.is_control() => write!(doc, "\\x{:02x}", u32::from(c)).unwrap(),
+            c => doc.push(c),
+        }
+    }
+    doc + "\""
+}
+
 /// Dumper for nodes.
 pub struct Dumper<'a, R: Repr> {
     node: &'a Node<R>,
@@ -83,29 +119,22 @@ impl<'a, R: Repr> Dumper<'a, R> {
                 n => write!(doc, "{n}.0").unwrap(),
             },
             Yaml::Str(s) => {
-                if s.lines().nth(1).is_some() {
-                    // Multiline string
-                    let s = s
-                        .lines()
-                        .map(|s| {
-                            if s.is_empty() {
-                                String::new()
-                            } else {
-                                ind.to_string() + s.trim_end()
-                            }
-                        })
-                        .collect::<Vec<_>>()
-                        .join(NL);
-                    write!(doc, "|{NL}{ind}{}", s.trim()).unwrap();
-                } else if parser::Parser::new(s.as_bytes())
-                    .string_plain(0, false)
-                    .is_err()
-                {
-                    // Literal string, not plain string
-                    write!(doc, "{s:?}").unwrap();
-                } else {
+                if self.root != Root::Key && is_literal(s) {
+                    // Multiline string, the root is also indented
+                    let ind = "  ".repeat(self.level.max(1));
+                    doc += if s.ends_with('\n') { "|" } else { "|-" };
+                    for s in s.lines() {
+                        doc += NL;
+                        if !s.is_empty() {
+                            write!(doc, "{ind}{s}").unwrap();
+                        }
+                    }
+                } else if is_plain::<R>(s) {
                     // Single line string
                     doc += s;
+                } else {
+                    // Literal string, not plain string
+                    doc += &quoted(s);
                 }
             }
             Yaml::Seq(v) if v.is_empty() => doc += "[]",
@@ -131,12 +160,12 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || self.root == Root::Map {
                         buf += &ind;
                     }
-                    let s = self.part(k, Root::Map, self.level + 1);
                     if Self::is_block(k) {
+                        let s = self.part(k, Root::Map, self.level + 1);
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
                     } else {
-                        buf += &s;
+                        buf += &self.part(k, Root::Key, self.level + 1);
                     };
                     buf += ":";
                     buf += &match v.yaml() {
@@ -161,8 +190,9 @@ impl<'a, R: Repr> Dumper<'a, R> {
 
 /// Dump the YAML data in to block format.
 ///
-/// Dumper will use plain string when the string is none-wrapped,
-/// otherwise it use literal string and trim the last white spaces.
+/// Dumper will use plain string when the string is none-wrapped and can be read
+/// as the same string, use literal string when the string is wrapped, otherwise
+/// it use quoted string.
 ///
 /// ```
 /// use yaml_peg::{dump, node, dumper::NL};
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d9e3f1e..4e931e4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -299,7 +299,7 @@ impl<R: Repr> Loader<'_, R> {
     }
 
     /// Resolve the whole text of a plain scalar by its form.
-    fn resolve_plain(s: String) -> Yaml<R> {
+    pub(crate) fn resolve_plain(s: String) -> Yaml<R> {
         match s.as_str() {
             "~" | "null" | "Null" | "NULL" => Yaml::Null,
             "true" | "True" | "TRUE" => Yaml::Bool(true),
-- 
2.43.0


From 8b1e340d16fe606a2d4b011620b4e8bcbe8ca842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 23/54] fix: dump an anchor once at its own node, not at every
 equal node

---
 src/dumper.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index c72e85f..c4e7056 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -1,6 +1,7 @@
 //! Dumper components.
 use crate::{parser::Anchors, repr::Repr, *};
 use alloc::{
+    collections::BTreeSet,
     format,
     string::{String, ToString},
 };
@@ -72,8 +73,14 @@ impl<'a, R: Repr> Dumper<'a, R> {
         Self { node, root: Root::Scalar, level: 0, anchors }
     }
 
-    fn part(&self, node: &'a Node<R>, root: Root, level: usize) -> String {
-        Self { node, root, level, anchors: self.anchors }.dump()
+    fn part(
+        &self,
+        node: &'a Node<R>,
+        root: Root,
+        level: usize,
+        used: &mut BTreeSet<&'a str>,
+    ) -> String {
+        Self { node, root, level, anchors: self.anchors }.dump_node(used)
     }
 
     /// Check the node will be dumped in block format.
@@ -87,12 +94,16 @@ impl<'a, R: Repr> Dumper<'a, R> {
 
     /// Dump into string.
     pub fn dump(&self) -> String {
+        self.dump_node(&mut BTreeSet::new())
+    }
+
+    fn dump_node(&self, used: &mut BTreeSet<&'a str>) -> String {
         let mut doc = String::new();
-        if let Some(a) = self
-            .anchors
-            .iter()
-            .find_map(|(k, v)| if v == self.node { Some(k) } else { None })
-        {
+        // Equal nodes are not the anchor itself, and it is defined only once
+        if let Some((a, _)) = self.anchors.iter().find(|(k, v)| {
+            core::ptr::eq(v.yaml(), self.node.yaml()) && !used.contains(k.as_str())
+        }) {
+            used.insert(a);
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
@@ -144,7 +155,7 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     if i != 0 || self.level != 0 {
                         buf += &ind;
                     }
-                    let s = self.part(node, Root::Array, self.level + 1);
+                    let s = self.part(node, Root::Array, self.level + 1, used);
                     write!(buf, "- {s}{NL}").unwrap();
                 }
                 buf.truncate(buf.len() - NL.len());
@@ -161,21 +172,21 @@ impl<'a, R: Repr> Dumper<'a, R> {
                         buf += &ind;
                     }
                     if Self::is_block(k) {
-                        let s = self.part(k, Root::Map, self.level + 1);
+                        let s = self.part(k, Root::Map, self.level + 1, used);
                         let pre_ind = "  ".repeat(self.level + 1);
                         write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
                     } else {
-                        buf += &self.part(k, Root::Key, self.level + 1);
+                        buf += &self.part(k, Root::Key, self.level + 1, used);
                     };
                     buf += ":";
                     buf += &match v.yaml() {
                         _ if !Self::is_block(v) => {
-                            format!(" {}", self.part(v, Root::Map, self.level + 1))
+                            format!(" {}", self.part(v, Root::Map, self.level + 1, used))
                         }
                         Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
-                            self.part(v, Root::Map, self.level)
+                            self.part(v, Root::Map, self.level, used)
                         }
-                        _ => self.part(v, Root::Map, self.level + 1),
+                        _ => self.part(v, Root::Map, self.level + 1, used),
                     };
                     buf += NL;
                 }
-- 
2.43.0


From 3af77cc066fb5d8d3d31b6c29c21786f1c1055ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:15 +0000
Subject: [PATCH 24/54] fix: dump the tags in their own notation, includes the
 core tags

---
 src/dumper.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index c4e7056..56c146e 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -107,13 +107,16 @@ impl<'a, R: Repr> Dumper<'a, R> {
             write!(doc, "&{a} ").unwrap();
         }
         let tag = self.node.tag();
-        if !tag.is_empty() && !tag.starts_with(parser::tag_prefix!()) {
-            if tag.starts_with(parser::tag_prefix!()) {
-                write!(doc, "!!{tag} ").unwrap();
-            } else if parser::Parser::new(tag.as_bytes()).identifier().is_ok() {
-                write!(doc, "!{tag} ").unwrap();
-            } else {
-                write!(doc, "!<{tag}> ").unwrap();
+        let is_id = |s: &str| {
+            let mut p = parser::Parser::new(s.as_bytes());
+            p.identifier().is_ok() && p.food().is_empty()
+        };
+        if tag != Node::<R>::new_repr(self.node.clone_yaml(), 0, "").tag() {
+            // Not the default tag
+            match tag.strip_prefix(parser::tag_prefix!()) {
+                Some(tag) if is_id(tag) => write!(doc, "!!{tag} ").unwrap(),
+                None if is_id(tag) => write!(doc, "!{tag} ").unwrap(),
+                _ => write!(doc, "!<{tag}> ").unwrap(),
             }
         }
         let ind = "  ".repeat(self.level);
-- 
2.43.0


From c14f3ad3327f6d39f1e807f1828dc5be5950b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 25/54] fix: keep the anchor and tag of maps, first keys and
 block values apart

---
 src/dumper.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 56c146e..7ed7b73 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -162,38 +162,44 @@ impl<'a, R: Repr> Dumper<'a, R> {
                     write!(buf, "- {s}{NL}").unwrap();
                 }
                 buf.truncate(buf.len() - NL.len());
+                doc.truncate(doc.trim_end().len());
                 doc += &buf;
             }
             Yaml::Map(m) if m.is_empty() => doc += "{}",
             Yaml::Map(m) => {
                 let mut buf = match self.root {
                     Root::Map => NL.to_string(),
+                    // The anchor and the tag are not for the first key
+                    _ if !doc.is_empty() => NL.to_string(),
                     _ => String::new(),
                 };
+                let inline = buf.is_empty();
                 for (i, (k, v)) in m.iter().enumerate() {
-                    if i != 0 || self.root == Root::Map {
+                    if i != 0 || !inline {
                         buf += &ind;
                     }
-                    if Self::is_block(k) {
-                        let s = self.part(k, Root::Map, self.level + 1, used);
-                        let pre_ind = "  ".repeat(self.level + 1);
-                        write!(buf, "?{pre_ind}{NL}{s}{NL}{ind}").unwrap();
+                    let root = if Self::is_block(k) { Root::Map } else { Root::Key };
+                    let s = self.part(k, root, self.level + 1, used);
+                    if s.contains(NL) {
+                        let sep = if s.starts_with(NL) { "" } else { " " };
+                        write!(buf, "?{sep}{s}{NL}{ind}").unwrap();
+                    } else if i == 0 && inline && s.starts_with(['&', '!']) {
+                        // The anchor and the tag are not for the map
+                        write!(buf, "? {s}{NL}{ind}").unwrap();
                     } else {
-                        buf += &self.part(k, Root::Key, self.level + 1, used);
+                        buf += &s;
                     };
-                    buf += ":";
-                    buf += &match v.yaml() {
-                        _ if !Self::is_block(v) => {
-                            format!(" {}", self.part(v, Root::Map, self.level + 1, used))
-                        }
-                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => {
-                            self.part(v, Root::Map, self.level, used)
-                        }
-                        _ => self.part(v, Root::Map, self.level + 1, used),
+                    let level = match v.yaml() {
+                        Yaml::Seq(_) if self.root == Root::Array && i == 0 => self.level,
+                        _ => self.level + 1,
                     };
+                    let s = self.part(v, Root::Map, level, used);
+                    let sep = if s.starts_with(NL) { "" } else { " " };
+                    write!(buf, ":{sep}{s}").unwrap();
                     buf += NL;
                 }
                 buf.truncate(buf.len() - NL.len());
+                doc.truncate(doc.trim_end().len());
                 doc += &buf;
             }
             Yaml::Alias(a) => write!(doc, "*{a}").unwrap(),
-- 
2.43.0


From ae4a7dc105648cb33ef60f076848dd7d11aa5bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 26/54] fix: check the range of integers in serialization
 instead of wrapping or panicking

---
 src/serde/de.rs       | 95 ++++++++++++++++++++++++++++++++++---------
 src/serde/ser_node.rs | 22 ++++++++--
 src/yaml.rs           |  5 +++
 3 files changed, 99 insertions(+), 23 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb20941..15b7f2f 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -2,7 +2,7 @@ use super::SerdeError;
 use crate::{
     parse,
     repr::{RcRepr, Repr},
-    to_f64, to_i64, Map, Node, Seq, Yaml,
+    to_f64, to_i128, to_i64, to_u128, Map, Node, Seq, Yaml,
 };
 use alloc::{format, string::ToString, vec::Vec};
 use core::marker::PhantomData;
@@ -27,6 +27,23 @@ macro_rules! impl_visitor {
     };
 }
 
+macro_rules! impl_deserializer_int {
+    ($(fn $method:ident => $visit:ident($from:ident))+) => {
+        $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+        where
+            V: Visitor<'a>,
+        {
+            match self.yaml() {
+                Yaml::Int(n) => match $from(n).ok().and_then(|n| n.try_into().ok()) {
+                    Some(n) => visitor.$visit(n),
+                    None => Err(out_of_range(&self, visitor)),
+                },
+                _ => Err(unexpected(&self, visitor)),
+            }
+        })+
+    };
+}
+
 macro_rules! impl_deserializer {
     ($(fn $method:ident($ty:ident) => $visit:ident($n:ident => $value:expr))+) => {
         $(fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -90,6 +107,8 @@ impl<'a, R: Repr> Visitor<'a> for NodeVisitor<R> {
         fn visit_bool(bool)
         fn visit_i64(i64)
         fn visit_u64(u64)
+        fn visit_i128(i128)
+        fn visit_u128(u128)
         fn visit_f64(f64)
         fn visit_str(&str)
         fn visit_none
@@ -279,8 +298,24 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         match self.yaml() {
             Yaml::Null => visitor.visit_unit(),
             Yaml::Bool(b) => visitor.visit_bool(*b),
-            Yaml::Int(n) => visitor.visit_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                let n = match (to_i128(n), to_u128(n)) {
+                    (Ok(n), _) => n,
+                    (_, Ok(n)) => return visitor.visit_u128(n),
+                    _ => return Err(out_of_range(&self, visitor)),
+                };
+                if let Ok(n) = n.try_into() {
+                    visitor.visit_i64(n)
+                } else if let Ok(n) = n.try_into() {
+                    visitor.visit_u64(n)
+                } else {
+                    visitor.visit_i128(n)
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => visitor.visit_f64(n),
+                Err(_) => Err(unexpected(&self, visitor)),
+            },
             Yaml::Str(s) => visitor.visit_str(s),
             Yaml::Seq(v) => visitor.visit_seq(SeqVisitor::from(v.clone())),
             Yaml::Map(m) => visitor.visit_map(MapVisitor::from(m.clone())),
@@ -288,25 +323,28 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         }
     }
 
+    impl_deserializer_int! {
+        fn deserialize_i8 => visit_i8(to_i128)
+        fn deserialize_i16 => visit_i16(to_i128)
+        fn deserialize_i32 => visit_i32(to_i128)
+        fn deserialize_i64 => visit_i64(to_i128)
+        fn deserialize_u8 => visit_u8(to_i128)
+        fn deserialize_u16 => visit_u16(to_i128)
+        fn deserialize_u32 => visit_u32(to_i128)
+        fn deserialize_u64 => visit_u64(to_i128)
+    }
+
     impl_deserializer! {
         fn deserialize_bool(Bool) => visit_bool(v => *v)
-        fn deserialize_i8(Int) => visit_i8(n => to_i64(n).unwrap() as i8)
-        fn deserialize_i16(Int) => visit_i16(n => to_i64(n).unwrap() as i16)
-        fn deserialize_i32(Int) => visit_i32(n => to_i64(n).unwrap() as i32)
-        fn deserialize_i64(Int) => visit_i64(n => to_i64(n).unwrap())
-        fn deserialize_u8(Int) => visit_u8(n => to_i64(n).unwrap() as u8)
-        fn deserialize_u16(Int) => visit_u16(n => to_i64(n).unwrap() as u16)
-        fn deserialize_u32(Int) => visit_u32(n => to_i64(n).unwrap() as u32)
-        fn deserialize_u64(Int) => visit_u64(n => to_i64(n).unwrap() as u64)
         fn deserialize_seq(Seq) => visit_seq(a => SeqVisitor::from(a.clone()))
         fn deserialize_map(Map) => visit_map(m => MapVisitor::from(m.clone()))
         fn deserialize_identifier(Str) => visit_str(s => s)
     }
 
     serde_if_integer128! {
-        impl_deserializer! {
-            fn deserialize_i128(Int) => visit_i128(n => to_i64(n).unwrap() as i128)
-            fn deserialize_u128(Int) => visit_u128(n => to_i64(n).unwrap() as u128)
+        impl_deserializer_int! {
+            fn deserialize_i128 => visit_i128(to_i128)
+            fn deserialize_u128 => visit_u128(to_u128)
         }
     }
 
@@ -343,8 +381,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f32(to_f64(n).unwrap() as f32),
-            Yaml::Int(n) => visitor.visit_f32(to_i64(n).unwrap() as f32),
+            Yaml::Float(n) | Yaml::Int(n) => match to_float(n) {
+                Some(n) => visitor.visit_f32(n as f32),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -354,8 +394,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) => visitor.visit_f64(to_f64(n).unwrap()),
-            Yaml::Int(n) => visitor.visit_f64(to_i64(n).unwrap() as f64),
+            Yaml::Float(n) | Yaml::Int(n) => match to_float(n) {
+                Some(n) => visitor.visit_f64(n),
+                None => Err(unexpected(&self, visitor)),
+            },
             _ => Err(unexpected(&self, visitor)),
         }
     }
@@ -513,13 +555,26 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     }
 }
 
+fn to_float(s: &str) -> Option<f64> {
+    to_i128(s).map(|n| n as f64).or_else(|_| to_f64(s)).ok()
+}
+
+#[cold]
+fn out_of_range<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
+    let value = match node.yaml() {
+        Yaml::Int(n) => format!("integer `{n}`"),
+        _ => "number".to_string(),
+    };
+    SerdeError::invalid_value(Unexpected::Other(&value), &exp).pos(node.pos())
+}
+
 #[cold]
 fn unexpected<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let ty = match node.yaml() {
         Yaml::Null => Unexpected::Unit,
         Yaml::Bool(b) => Unexpected::Bool(*b),
-        Yaml::Int(n) => Unexpected::Signed(to_i64(n).unwrap()),
-        Yaml::Float(n) => Unexpected::Float(to_f64(n).unwrap()),
+        Yaml::Int(n) => to_i64(n).map_or(Unexpected::Other("integer"), Unexpected::Signed),
+        Yaml::Float(n) => to_f64(n).map_or(Unexpected::Other("float"), Unexpected::Float),
         Yaml::Str(s) => Unexpected::Str(s),
         Yaml::Seq(_) => Unexpected::Seq,
         Yaml::Map(_) => Unexpected::Map,
diff --git a/src/serde/ser_node.rs b/src/serde/ser_node.rs
index af2255f..f7534b6 100644
--- a/src/serde/ser_node.rs
+++ b/src/serde/ser_node.rs
@@ -1,4 +1,4 @@
-use crate::{repr::Repr, to_f64, to_i64, Node, Yaml};
+use crate::{repr::Repr, to_f64, to_i128, to_u128, Node, Yaml};
 use alloc::format;
 use serde::{
     ser::{Error as _, SerializeMap as _},
@@ -13,8 +13,24 @@ impl<R: Repr> Serialize for Node<R> {
         match self.yaml() {
             Yaml::Null => serializer.serialize_unit(),
             Yaml::Bool(b) => serializer.serialize_bool(*b),
-            Yaml::Int(n) => serializer.serialize_i64(to_i64(n).unwrap()),
-            Yaml::Float(n) => serializer.serialize_f64(to_f64(n).unwrap()),
+            Yaml::Int(n) => {
+                let n = match (to_i128(n), to_u128(n)) {
+                    (Ok(n), _) => n,
+                    (_, Ok(n)) => return serializer.serialize_u128(n),
+                    _ => return Err(S::Error::custom(format!("integer {n}"))),
+                };
+                if let Ok(n) = n.try_into() {
+                    serializer.serialize_i64(n)
+                } else if let Ok(n) = n.try_into() {
+                    serializer.serialize_u64(n)
+                } else {
+                    serializer.serialize_i128(n)
+                }
+            }
+            Yaml::Float(n) => match to_f64(n) {
+                Ok(n) => serializer.serialize_f64(n),
+                Err(_) => Err(S::Error::custom(format!("float {n}"))),
+            },
             Yaml::Str(s) => serializer.serialize_str(s),
             Yaml::Seq(v) => v.serialize(serializer),
             Yaml::Map(m) => {
diff --git a/src/yaml.rs b/src/yaml.rs
index b5e84e8..201cf9f 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -60,6 +60,11 @@ pub(crate) fn to_i128(s: &str) -> Result<i128, core::num::ParseIntError> {
     to_int(s, i128::from_str_radix)
 }
 
+#[cfg(feature = "serde")]
+pub(crate) fn to_u128(s: &str) -> Result<u128, core::num::ParseIntError> {
+    to_int(s, u128::from_str_radix)
+}
+
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
     s.parse()
 }
-- 
2.43.0


From b9e4b5aa7afa730bc3d865ee366cf93444f8a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 27/54] fix: deserialize a character that is not in ASCII

---
 src/serde/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index 15b7f2f..eb8522b 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -408,10 +408,10 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
     {
         match self.yaml() {
             Yaml::Str(s) => {
-                if s.len() == 1 {
-                    visitor.visit_char(s.chars().next().unwrap())
-                } else {
-                    Err(unexpected(&self, visitor))
+                let mut chars = s.chars();
+                match (chars.next(), chars.next()) {
+                    (Some(c), None) => visitor.visit_char(c),
+                    _ => Err(unexpected(&self, visitor)),
                 }
             }
             Yaml::Int(n) => {
-- 
2.43.0


From 3e8ba5462f4d1e7aaba6e511a4e18adb1fa3f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 28/54] fix: a document marker must be followed by a space or a
 line end

---
 src/parser/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4e931e4..3f433b4 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -163,14 +163,16 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.gap(true).unwrap_or_default();
         self.forward();
-        self.sym_seq(b"---").unwrap_or_default();
+        if self.doc_marker() {
+            self.sym_seq(b"---").unwrap_or_default();
+        }
         let mut v = vec![self.doc()?];
         loop {
             self.gap(true).unwrap_or_default();
             if self.food().is_empty() {
                 break;
             }
-            if self.sym_seq(b"---").is_err() {
+            if !self.doc_marker() || self.sym_seq(b"---").is_err() {
                 return self.err("document splitter");
             }
             v.push(self.doc()?);
@@ -190,7 +192,9 @@ impl<R: Repr> Loader<'_, R> {
         self.anchors.push(Anchors::new());
         let ret = self.scalar(0, false, false)?;
         self.gap(true).unwrap_or_default();
-        self.sym_seq(b"...").unwrap_or_default();
+        if self.doc_marker() {
+            self.sym_seq(b"...").unwrap_or_default();
+        }
         self.forward();
         self.doc_ind += 1;
         Ok(ret)
-- 
2.43.0


From 1ed15bcff8eb596c94f1ce394c30445946ac93d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 29/54] fix: a block scalar can start on the line behind the
 document marker

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 3f433b4..46c486d 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -183,6 +183,10 @@ impl<R: Repr> Loader<'_, R> {
     /// Match one doc block.
     pub fn doc(&mut self) -> PResult<Node<R>> {
         self.indent = vec![0];
+        self.forward();
+        if self.gap(true).is_err() || self.doc_end() {
+            self.backward();
+        }
         if self.line_start() {
             self.ind_define(0)?;
         } else {
-- 
2.43.0


From c96807be1748ae2612783f2192529dc25c4f0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:34 +0000
Subject: [PATCH 30/54] fix: a comment behind an indicator is not a plain
 scalar

---
 src/parser/base/grammar.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 830ee8d..9caae4d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -174,6 +174,10 @@ impl Parser<'_> {
             patt.push(b',');
         }
         self.context(|p| {
+            if p.food().starts_with(b"#") {
+                // A comment, the string is empty
+                return Err(PError::Mismatch);
+            }
             let mut v = String::new();
             let mut is_leading = false;
             loop {
-- 
2.43.0


From 69c57de63836fd509590050f5bb8a0f5a1d46aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 31/54] fix: keep the empty lines of plain scalars that are
 continued with more indentation

---
 src/parser/base/grammar.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 9caae4d..14fb188 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -179,7 +179,6 @@ impl Parser<'_> {
                 return Err(PError::Mismatch);
             }
             let mut v = String::new();
-            let mut is_leading = false;
             loop {
                 p.forward();
                 p.take_while(Self::not_in(&patt), TakeOpt::More(0))?;
@@ -195,14 +194,9 @@ impl Parser<'_> {
                 }
                 p.forward();
                 if p.sym_set(b": ").is_ok() {
-                    // Remove leading space
-                    if is_leading && p.text() == " " {
-                        v.truncate(v.trim_end().len());
-                    }
                     v.push_str(&p.text());
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
-                    is_leading = false;
                 } else if v.is_empty() {
                     // Never start from the next line
                     break;
@@ -216,7 +210,8 @@ impl Parser<'_> {
                     if !inner && p.ind(level).is_err() {
                         break;
                     }
-                    is_leading = true;
+                    // Remove leading space
+                    p.ws(TakeOpt::More(0))?;
                 } else {
                     break;
                 }
-- 
2.43.0


From 60a88ccf17877cfed9060fb5fff5a254c520bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 32/54] fix: a block indicator must be followed by a space or a
 line end

---
 src/parser/base/grammar.rs | 12 +++++++++++-
 src/parser/mod.rs          |  4 ++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 14fb188..7350a34 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -18,10 +18,20 @@ impl Parser<'_> {
         self.ws(TakeOpt::More(0))
     }
 
+    /// Match the separation behind a block indicator and keep the gaps.
+    pub(crate) fn separation(&mut self) -> PResult<()> {
+        if self.food().is_empty() {
+            return Ok(());
+        }
+        self.sym_set(b" \n\r")?;
+        self.back(1);
+        self.ws(TakeOpt::More(0))
+    }
+
     /// Match complex mapping indicator (`?`).
     pub fn complex_mapping(&mut self) -> PResult<()> {
         self.sym(b'?')?;
-        self.bound()
+        self.separation()
     }
 
     fn sign(&mut self) -> PResult<()> {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 46c486d..be70898 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -415,7 +415,7 @@ impl<R: Repr> Loader<'_, R> {
                 // First item
                 self.ind_first(level, map, map)?;
                 self.sym(b'-')?;
-                self.bound()?;
+                self.separation()?;
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("sequence terminator");
@@ -423,7 +423,7 @@ impl<R: Repr> Loader<'_, R> {
                 if self.doc_end() || self.ind(level).is_err() {
                     break;
                 }
-                if self.sym(b'-').is_err() || self.bound().is_err() {
+                if self.sym(b'-').is_err() || self.separation().is_err() {
                     break;
                 }
                 self.forward();
-- 
2.43.0


From 563c761930c4f15ca01148ce4115022c4b74e08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 33/54] fix: a number is only a part of the text that continues
 behind it in flow collections

---
 src/parser/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index be70898..54c6240 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -285,8 +285,7 @@ impl<R: Repr> Loader<'_, R> {
         } else if self.food().starts_with(b"\"") {
             let s = self.string_quoted(b'"', b"\\\"")?;
             R::new_rc(Yaml::Str(Parser::escape(&s)))
-        } else if let Some(Ok(n)) = flow.then(|| Self::number(self)) {
-            // The splitter of a flow map can follow a number directly
+        } else if let Some(n) = flow.then(|| self.number_key()).flatten() {
             R::new_rc(n)
         } else if let Ok(s) = self.string_plain(level, flow) {
             R::new_rc(Self::resolve_plain(s))
@@ -298,6 +297,16 @@ impl<R: Repr> Loader<'_, R> {
         Ok(yaml)
     }
 
+    /// Match the number that is followed by the splitter of a flow map directly.
+    fn number_key(&mut self) -> Option<Yaml<R>> {
+        let n = Self::number(self).ok();
+        if n.is_some() && !self.food().starts_with(b":") {
+            self.backward();
+            return None;
+        }
+        n
+    }
+
     /// Match float or integer.
     fn number(p: &mut Parser) -> PResult<Yaml<R>> {
         p.float()
-- 
2.43.0


From 52932503dfa426276bc178748c4f8e4d92bb5384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 34/54] fix: an error of the document root has a place

---
 src/parser/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 54c6240..82e3df8 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -14,6 +14,7 @@
 //!
 //! **WRONG**: Invalid tag directive will be ignored.
 //!
+//! + document: The root of the document is invalid.
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
@@ -194,7 +195,9 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         self.anchors.push(Anchors::new());
-        let ret = self.scalar(0, false, false)?;
+        let ret = self
+            .scalar(0, false, false)
+            .or_else(|e| e.or(|| self.err("document")))?;
         self.gap(true).unwrap_or_default();
         if self.doc_marker() {
             self.sym_seq(b"...").unwrap_or_default();
-- 
2.43.0


From 6919d1cacf4049af9b55f9154c0362a85fc9d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 35/54] fix: dump strings that start with a space in quotes

---
 src/dumper.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dumper.rs b/src/dumper.rs
index 7ed7b73..a184195 100644
--- a/src/dumper.rs
+++ b/src/dumper.rs
@@ -34,7 +34,8 @@ fn is_literal(s: &str) -> bool {
 /// Check the string can be read as the same string without quotes.
 fn is_plain<R: Repr>(s: &str) -> bool {
     let mut p = parser::Parser::new(s.as_bytes());
-    !s.starts_with(|c| ",[]{}#&*!|>'\"%@`".contains(c))
+    s == s.trim()
+        && !s.starts_with(|c| ",[]{}#&*!|>'\"%@`".contains(c))
         && !matches!(s, "-" | "?" | "---" | "...")
         && !["- ", "? ", "--- ", "... "].iter().any(|t| s.starts_with(t))
         && !s.contains(char::is_control)
-- 
2.43.0


From 4fffff88b94c2536c42aaf2a144b4a0060cca9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:43 +0000
Subject: [PATCH 36/54] fix: keep the sign of negative zero in deserialization

---
 src/serde/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index eb8522b..a17c3b0 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -556,7 +556,7 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
 }
 
 fn to_float(s: &str) -> Option<f64> {
-    to_i128(s).map(|n| n as f64).or_else(|_| to_f64(s)).ok()
+    to_f64(s).or_else(|_| to_i128(s).map(|n| n as f64)).ok()
 }
 
 #[cold]
-- 
2.43.0


From f59cc38f12d324463cd76556c1ddbfd6e9b8afa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 37/54] fix: deserialize negative zero integers as unsigned
 128-bit integers

---
 src/yaml.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yaml.rs b/src/yaml.rs
index 201cf9f..77f43a5 100644
--- a/src/yaml.rs
+++ b/src/yaml.rs
@@ -62,7 +62,11 @@ pub(crate) fn to_i128(s: &str) -> Result<i128, core::num::ParseIntError> {
 
 #[cfg(feature = "serde")]
 pub(crate) fn to_u128(s: &str) -> Result<u128, core::num::ParseIntError> {
-    to_int(s, u128::from_str_radix)
+    // The negative zero is not a text of unsigned integers
+    to_int(s, u128::from_str_radix).or_else(|e| match to_i128(s) {
+        Ok(0) => Ok(0),
+        _ => Err(e),
+    })
 }
 
 pub(crate) fn to_f64(s: &str) -> Result<f64, core::num::ParseFloatError> {
-- 
2.43.0


From 9b200414790e9dda2c1bfee6a944cbe5403b98f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:31 +0000
Subject: [PATCH 38/54] fix: report structures that are nested too deeply, the
 stack overflowed

---
 src/parser/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 82e3df8..1e1322f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -21,6 +21,8 @@
 //!
 //! ## Structure
 //!
+//! + nesting level: The structure is nested too deeply.
+//!
 //! ### Flow Array
 //!
 //! + flow sequence item: Item in `[]` bracket is invalid.
@@ -70,6 +72,9 @@ pub(crate) use tag_prefix;
 
 /// The type of anchor recorder in the [`Loader`].
 pub type Anchors<R> = BTreeMap<String, Node<R>>;
+/// The limit of the nesting level. The loader is recursive, a deeper structure
+/// might overflow the stack.
+const MAX_LEVEL: usize = 256;
 /// The default prefix of the YAML sub tag.
 pub const DEFAULT_PREFIX: &str = tag_prefix!();
 
@@ -214,6 +219,9 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match scalar.
     pub fn scalar(&mut self, level: usize, map: bool, flow: bool) -> PResult<Node<R>> {
+        if level > MAX_LEVEL {
+            return self.err("nesting level");
+        }
         self.scalar_node(|p| {
             if let Ok(s) = p.string_literal(level) {
                 Ok(R::new_rc(Yaml::Str(s)))
@@ -229,6 +237,9 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match flow scalar.
     pub fn scalar_flow(&mut self, level: usize, flow: bool) -> PResult<Node<R>> {
+        if level > MAX_LEVEL {
+            return self.err("nesting level");
+        }
         self.scalar_node(|p| p.scalar_term(level, flow))
     }
 
-- 
2.43.0


From 8aa0e4028d65f104273ed348dd544289cbe081f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:31 +0000
Subject: [PATCH 39/54] fix: report map keys that are indented more than their
 map, the spaces were kept in the key

---
 src/parser/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1e1322f..a21310f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -496,6 +496,10 @@ impl<R: Repr> Loader<'_, R> {
                 if self.doc_end() || self.ind(level).is_err() {
                     break;
                 }
+                if self.food().starts_with(b" ") {
+                    // Not the indent of any parent
+                    return self.err("map key");
+                }
                 self.forward();
                 let k = if self.complex_mapping().is_ok() {
                     self.forward();
-- 
2.43.0


From 3ac1ea05a50af4774cda0ed4c0481ef77079ab1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:02 +0000
Subject: [PATCH 40/54] fix: accept single pairs but no block structures in
 flow collections

---
 src/parser/mod.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index a21310f..6718d7f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -359,11 +359,28 @@ impl<R: Repr> Loader<'_, R> {
             if self.sym(b']').is_ok() {
                 break;
             }
-            let n = self
-                .scalar(level + 1, false, true)
+            if self.complex_mapping().is_ok() {
+                self.inv_flow();
+            }
+            let pos = self.indicator();
+            let mut n = self
+                .scalar_flow(level + 1, true)
                 .or_else(|e| e.or(|| self.err("flow sequence item")))?;
-            v.push(n);
             self.inv_flow();
+            if self.sym(b':').is_ok() {
+                // Single pair
+                if self.bound().is_err() {
+                    return self.err("flow sequence item");
+                }
+                self.inv_flow();
+                let value = self
+                    .scalar_flow(level + 1, true)
+                    .or_else(|e| e.or(|| self.err("flow sequence item")))?;
+                let pair = Yaml::Map([(n, value)].into_iter().collect());
+                n = Node::new_repr(R::new_rc(pair), pos, "");
+                self.inv_flow();
+            }
+            v.push(n);
             if self.sym(b',').is_err() {
                 if self.sym(b']').is_err() {
                     return self.err("flow sequence item");
@@ -396,7 +413,7 @@ impl<R: Repr> Loader<'_, R> {
             }
             self.inv_flow();
             let v = self
-                .scalar(level + 1, false, true)
+                .scalar_flow(level + 1, true)
                 .or_else(|e| e.or(|| self.err("flow map value")))?;
             m.push((k, v));
             self.inv_flow();
-- 
2.43.0


From ebc4136f8b24e506c32a0ebabaf81b95c8c86e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:02 +0000
Subject: [PATCH 41/54] fix: explicit keys without value have the value null,
 their map was lost

---
 src/parser/mod.rs | 70 ++++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 31 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 6718d7f..082e3a6 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -479,33 +479,42 @@ impl<R: Repr> Loader<'_, R> {
         Ok(R::new_rc(v.into_iter().collect()))
     }
 
+    /// Match the key behind the complex mapping indicator, and the splitter if
+    /// the value is not omitted.
+    fn complex_key(&mut self, level: usize, flow: bool) -> PResult<(Node<R>, bool)> {
+        self.forward();
+        let k = self
+            .scalar(level + 1, true, flow)
+            .or_else(|e| e.or(|| self.err("map key")))?;
+        if self.gap(true).is_ok() && (self.doc_end() || self.ind(level).is_err()) {
+            self.backward();
+            return Ok((k, false));
+        }
+        self.ws(TakeOpt::More(0))?;
+        let splitter = self.sym(b':').is_ok() && self.bound().is_ok();
+        Ok((k, splitter))
+    }
+
     /// Match map.
     pub fn map(&mut self, level: usize, map: bool, flow: bool) -> PResult<R::Rc> {
         let mut m = vec![];
         loop {
             self.forward();
-            let k = if m.is_empty() {
+            let (k, splitter) = if m.is_empty() {
                 // First item
                 self.ind_first(level, map, false)?;
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
-                    self.forward();
-                    let k = self
-                        .scalar(level + 1, true, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
-                    }
-                    k
+                if self.complex_mapping().is_ok() {
+                    self.complex_key(level, flow)?
                 } else {
-                    self.scalar_flow(level + 1, flow)?
-                };
-                self.ws(TakeOpt::More(0))?;
-                if self.sym(b':').is_err() || self.bound().is_err() {
-                    // Return key
-                    return Ok(k.clone_yaml());
+                    let k = self.scalar_flow(level + 1, flow)?;
+                    self.ws(TakeOpt::More(0))?;
+                    if self.sym(b':').is_err() || self.bound().is_err() {
+                        // Return key
+                        return Ok(k.clone_yaml());
+                    }
+                    (k, true)
                 }
-                k
             } else {
                 if self.gap(true).is_err() && !self.doc_end() {
                     return self.err("map terminator");
@@ -518,25 +527,24 @@ impl<R: Repr> Loader<'_, R> {
                     return self.err("map key");
                 }
                 self.forward();
-                let k = if self.complex_mapping().is_ok() {
-                    self.forward();
+                if self.complex_mapping().is_ok() {
+                    self.complex_key(level, flow)?
+                } else {
                     let k = self
-                        .scalar(level + 1, true, flow)
+                        .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
-                    if self.gap(true).is_ok() {
-                        self.ind(level)?;
+                    self.ws(TakeOpt::More(0))?;
+                    if self.sym(b':').is_err() || self.bound().is_err() {
+                        return self.err("map splitter");
                     }
-                    k
-                } else {
-                    self.scalar_flow(level + 1, flow)
-                        .or_else(|e| e.or(|| self.err("map key")))?
-                };
-                self.ws(TakeOpt::More(0))?;
-                if self.sym(b':').is_err() || self.bound().is_err() {
-                    return self.err("map splitter");
+                    (k, true)
                 }
-                k
             };
+            if !splitter {
+                let v = Node::new_repr(R::new_rc(Yaml::Null), self.indicator(), "");
+                m.push((k, v));
+                continue;
+            }
             self.forward();
             let v = self
                 .scalar(level + 1, true, false)
-- 
2.43.0


From ac2c6a8ece5d9e5dc5b78a36edafed1cbb8ed36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 42/54] fix: plain strings do not start with a block indicator,
 items were read as keys and texts

---
 src/parser/base/grammar.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 7350a34..58eda1b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -188,6 +188,14 @@ impl Parser<'_> {
                 // A comment, the string is empty
                 return Err(PError::Mismatch);
             }
+            if p.sym_set(b"-?").is_ok() {
+                let ind = p.separation().is_ok();
+                p.backward();
+                if ind {
+                    // A block indicator
+                    return Err(PError::Mismatch);
+                }
+            }
             let mut v = String::new();
             loop {
                 p.forward();
-- 
2.43.0


From ef8c1482a1a587109a1491dad5421b27a28da0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:40 +0000
Subject: [PATCH 43/54] fix: implicit keys are in one line, a line without
 splitter was joined with the next key

---
 src/parser/base/mod.rs |  5 +++++
 src/parser/mod.rs      | 10 +++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index fbcca50..8e7178a 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -100,6 +100,11 @@ impl Parser<'_> {
         self.pos == 0 || matches!(self.doc[self.pos - 1], b'\n' | b'\r')
     }
 
+    /// Check if the text behind the position is still in the same line.
+    pub(crate) fn same_line(&self, pos: usize) -> bool {
+        !self.doc[pos..self.pos].iter().any(|c| matches!(c, b'\n' | b'\r'))
+    }
+
     /// A short function to raise error.
     pub fn err<R>(&self, name: &'static str) -> PResult<R> {
         Err(PError::Terminate {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 082e3a6..d69075b 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -507,12 +507,16 @@ impl<R: Repr> Loader<'_, R> {
                 if self.complex_mapping().is_ok() {
                     self.complex_key(level, flow)?
                 } else {
+                    let start = self.pos;
                     let k = self.scalar_flow(level + 1, flow)?;
                     self.ws(TakeOpt::More(0))?;
                     if self.sym(b':').is_err() || self.bound().is_err() {
                         // Return key
                         return Ok(k.clone_yaml());
                     }
+                    if !self.same_line(start) {
+                        return self.err("map splitter");
+                    }
                     (k, true)
                 }
             } else {
@@ -530,11 +534,15 @@ impl<R: Repr> Loader<'_, R> {
                 if self.complex_mapping().is_ok() {
                     self.complex_key(level, flow)?
                 } else {
+                    let start = self.pos;
                     let k = self
                         .scalar_flow(level + 1, flow)
                         .or_else(|e| e.or(|| self.err("map key")))?;
                     self.ws(TakeOpt::More(0))?;
-                    if self.sym(b':').is_err() || self.bound().is_err() {
+                    if self.sym(b':').is_err()
+                        || self.bound().is_err()
+                        || !self.same_line(start)
+                    {
                         return self.err("map splitter");
                     }
                     (k, true)
-- 
2.43.0


From 4b0328eacdcff8ecd538585cc92126ada77a31fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:35 +0000
Subject: [PATCH 44/54] fix: keep the properties and position of scalars in the
 next line, report duplicated tags

---
 src/parser/base/grammar.rs |  4 ++--
 src/parser/mod.rs          | 46 +++++++++++++++++++++++++++++---------
 2 files changed, 38 insertions(+), 12 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 58eda1b..0c6804d 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -184,8 +184,8 @@ impl Parser<'_> {
             patt.push(b',');
         }
         self.context(|p| {
-            if p.food().starts_with(b"#") {
-                // A comment, the string is empty
+            if let Some(b'#' | b'&' | b'!') = p.food().first() {
+                // A comment or another property, the string is empty
                 return Err(PError::Mismatch);
             }
             if p.sym_set(b"-?").is_ok() {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d69075b..2b2c46f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -113,6 +113,13 @@ pub struct Loader<'a, R: Repr> {
     doc_ind: usize,
 }
 
+/// The content behind the properties of a node.
+enum Content<R: Repr> {
+    Data(R::Rc),
+    /// It has its own properties and position.
+    Node(Node<R>),
+}
+
 impl<'a, R: Repr> Loader<'a, R> {
     /// Create YAML loader includes a parser.
     pub fn new(doc: &'a [u8]) -> Self {
@@ -224,13 +231,14 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.scalar_node(|p| {
             if let Ok(s) = p.string_literal(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+                Ok(Content::Data(R::new_rc(Yaml::Str(s))))
             } else if let Ok(s) = p.string_folded(level) {
-                Ok(R::new_rc(Yaml::Str(s)))
+                Ok(Content::Data(R::new_rc(Yaml::Str(s))))
             } else {
                 p.seq(level, map)
-                    .or_else(|e| e.or(|| p.map(level, map, flow)))
-                    .or_else(|e| e.or(|| p.scalar_term(level, flow)))
+                    .map(Content::Data)
+                    .or_else(|e| e.or(|| p.map_or_key(level, map, flow)))
+                    .or_else(|e| e.or(|| p.scalar_term(level, flow).map(Content::Data)))
             }
         })
     }
@@ -240,12 +248,12 @@ impl<R: Repr> Loader<'_, R> {
         if level > MAX_LEVEL {
             return self.err("nesting level");
         }
-        self.scalar_node(|p| p.scalar_term(level, flow))
+        self.scalar_node(|p| p.scalar_term(level, flow).map(Content::Data))
     }
 
     fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
     where
-        F: FnOnce(&mut Self) -> PResult<R::Rc>,
+        F: FnOnce(&mut Self) -> PResult<Content<R>>,
     {
         let optional = |r: PResult<String>| r.or_else(|e| e.or(|| Ok(String::new())));
         let mut anchor = optional(self.anchor())?;
@@ -269,9 +277,19 @@ impl<R: Repr> Loader<'_, R> {
         }
         self.forward();
         let pos = self.indicator();
-        let yaml = f(self)?;
+        let content = f(self)?;
         self.forward();
-        let node = Node::new_repr(yaml, pos, &tag);
+        let node = match content {
+            Content::Data(yaml) => Node::new_repr(yaml, pos, &tag),
+            Content::Node(node) if tag.is_empty() => node,
+            Content::Node(node) => {
+                let default = Node::<R>::new_repr(node.clone_yaml(), 0, "");
+                if node.tag() != default.tag() {
+                    return self.err("duplicated tag definition");
+                }
+                Node::new_repr(node.clone_yaml(), node.pos(), &tag)
+            }
+        };
         if !anchor.is_empty()
             && self.anchors[self.doc_ind]
                 .insert(anchor, node.clone())
@@ -497,6 +515,14 @@ impl<R: Repr> Loader<'_, R> {
 
     /// Match map.
     pub fn map(&mut self, level: usize, map: bool, flow: bool) -> PResult<R::Rc> {
+        self.map_or_key(level, map, flow).map(|c| match c {
+            Content::Data(yaml) => yaml,
+            Content::Node(node) => node.clone_yaml(),
+        })
+    }
+
+    /// Match map, or the single node if there is no splitter behind it.
+    fn map_or_key(&mut self, level: usize, map: bool, flow: bool) -> PResult<Content<R>> {
         let mut m = vec![];
         loop {
             self.forward();
@@ -512,7 +538,7 @@ impl<R: Repr> Loader<'_, R> {
                     self.ws(TakeOpt::More(0))?;
                     if self.sym(b':').is_err() || self.bound().is_err() {
                         // Return key
-                        return Ok(k.clone_yaml());
+                        return Ok(Content::Node(k));
                     }
                     if !self.same_line(start) {
                         return self.err("map splitter");
@@ -561,7 +587,7 @@ impl<R: Repr> Loader<'_, R> {
         }
         // Keep last wrapping
         self.backward();
-        Ok(R::new_rc(m.into_iter().collect()))
+        Ok(Content::Data(R::new_rc(m.into_iter().collect())))
     }
 }
 
-- 
2.43.0


From 93bb1471e01fda0f8c91d58837dc67e74b69029e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:34 +0000
Subject: [PATCH 45/54] fix: a range of at most zero matches nothing, it was
 not limited

---
 src/parser/base/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/mod.rs b/src/parser/base/mod.rs
index 8e7178a..4fdae7b 100644
--- a/src/parser/base/mod.rs
+++ b/src/parser/base/mod.rs
@@ -165,6 +165,11 @@ impl Parser<'_> {
         let pos = self.pos;
         let mut counter = 0;
         for c in self.food() {
+            if let TakeOpt::Range(_, c) = opt {
+                if counter == c {
+                    break;
+                }
+            }
             if !f(c) {
                 break;
             }
@@ -173,11 +178,6 @@ impl Parser<'_> {
             if let TakeOpt::One = opt {
                 break;
             }
-            if let TakeOpt::Range(_, c) = opt {
-                if counter == c {
-                    break;
-                }
-            }
         }
         if pos == self.pos {
             if let TakeOpt::More(c) | TakeOpt::Range(c, _) = opt {
-- 
2.43.0


From 323f2695c43dd69f0c18c0d25fa6da83839315c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:03 +0000
Subject: [PATCH 46/54] fix: an invalid header of wrapped string is an error,
 its first character was lost

---
 src/parser/base/grammar.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 0c6804d..cb397d3 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -184,8 +184,10 @@ impl Parser<'_> {
             patt.push(b',');
         }
         self.context(|p| {
-            if let Some(b'#' | b'&' | b'!') = p.food().first() {
-                // A comment or another property, the string is empty
+            let start = p.pos;
+            if let Some(b'#' | b'&' | b'!' | b'|' | b'>') = p.food().first() {
+                // A comment or another property, the string is empty; or an
+                // invalid header of wrapped string
                 return Err(PError::Mismatch);
             }
             if p.sym_set(b"-?").is_ok() {
@@ -236,6 +238,7 @@ impl Parser<'_> {
             }
             v.truncate(v.trim_end().len());
             if v.is_empty() {
+                p.pos = start;
                 Err(PError::Mismatch)
             } else {
                 Ok(v)
@@ -248,7 +251,10 @@ impl Parser<'_> {
         self.sym(b'|')?;
         let chomp = self.chomp();
         self.context(|p| p.line_end());
-        let s = self.string_wrapped(level, b'\n', true)?;
+        let s = self.string_wrapped(level, b'\n', true).or_else(|e| {
+            self.backward();
+            Err(e)
+        })?;
         Ok(chomp(s))
     }
 
@@ -257,7 +263,10 @@ impl Parser<'_> {
         self.sym(b'>')?;
         let chomp = self.chomp();
         self.context(|p| p.line_end());
-        let s = self.string_wrapped(level, b' ', false)?;
+        let s = self.string_wrapped(level, b' ', false).or_else(|e| {
+            self.backward();
+            Err(e)
+        })?;
         Ok(chomp(s))
     }
 
-- 
2.43.0


From 7f327be9cc93b76c7b891786b74e169030b1a474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 47/54] fix: a malformed directive is an error, its rest was
 loaded as a document; comments may be in front of directives

---
 src/parser/base/directive.rs | 5 +++--
 src/parser/mod.rs            | 5 ++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base/directive.rs b/src/parser/base/directive.rs
index 54d10c1..633c0ad 100644
--- a/src/parser/base/directive.rs
+++ b/src/parser/base/directive.rs
@@ -14,8 +14,9 @@ impl Parser<'_> {
                 // Unknown - ignore
                 p.take_while(Self::not_in(b"\n\r"), TakeOpt::More(0))
             }
-        })?;
-        self.gap(true).map(|_| ())
+            .and_then(|_| p.gap(true).map(|_| ()))
+            .or_else(|e| e.or(|| p.err("directive")))
+        })
     }
 
     fn directive_yaml(&mut self) -> PResult<()> {
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 2b2c46f..0987ee9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -12,9 +12,8 @@
 //!
 //! ## Document
 //!
-//! **WRONG**: Invalid tag directive will be ignored.
-//!
 //! + document: The root of the document is invalid.
+//! + directive: Directive is malformed.
 //! + document splitter: Error about the document splitter `---` / `...`.
 //! + checked version: Version directive `%YAML 1.2` is used again.
 //! + version: Version directive is wrong, must be `1.2`.
@@ -168,13 +167,13 @@ impl<R: Repr> Loader<'_, R> {
     /// YAML entry point, return entire doc if exist.
     pub fn parse(&mut self) -> PResult<Vec<Node<R>>> {
         loop {
+            self.gap(true).unwrap_or_default();
             match self.context(Parser::directive) {
                 Ok(()) => (),
                 Err(PError::Mismatch) => break,
                 Err(e) => return Err(e),
             }
         }
-        self.gap(true).unwrap_or_default();
         self.forward();
         if self.doc_marker() {
             self.sym_seq(b"---").unwrap_or_default();
-- 
2.43.0


From 117bc5bfbece8ce3cbe1b074285b4875ccfdb004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:47 +0000
Subject: [PATCH 48/54] fix: parts of the document grammar can be used on a
 fresh loader, anchors and aliases panicked

---
 src/parser/mod.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 0987ee9..24d42a2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -205,6 +205,7 @@ impl<R: Repr> Loader<'_, R> {
             self.context(|p| p.bound().unwrap_or_default());
         }
         self.forward();
+        self.anchors.truncate(self.doc_ind);
         self.anchors.push(Anchors::new());
         let ret = self
             .scalar(0, false, false)
@@ -289,24 +290,29 @@ impl<R: Repr> Loader<'_, R> {
                 Node::new_repr(node.clone_yaml(), node.pos(), &tag)
             }
         };
-        if !anchor.is_empty()
-            && self.anchors[self.doc_ind]
-                .insert(anchor, node.clone())
-                .is_some()
-        {
+        if !anchor.is_empty() && self.doc_anchors().insert(anchor, node.clone()).is_some() {
             self.err("duplicated anchor definition")
         } else {
             Ok(node)
         }
     }
 
+    /// The anchors of the current document, the sub-parsers can be used
+    /// without a document.
+    fn doc_anchors(&mut self) -> &mut Anchors<R> {
+        if self.anchors.len() <= self.doc_ind {
+            self.anchors.push(Anchors::new());
+        }
+        &mut self.anchors[self.doc_ind]
+    }
+
     /// Match flow scalar terminal.
     pub fn scalar_term(&mut self, level: usize, flow: bool) -> PResult<R::Rc> {
         let yaml = if self.food().starts_with(b"*") {
             let s = self.anchor_use()?;
             if self.cyclic_mode {
                 R::new_rc(Yaml::Alias(s))
-            } else if let Some(node) = self.anchors[self.doc_ind].get(&s) {
+            } else if let Some(node) = self.doc_anchors().get(&s) {
                 node.clone_yaml()
             } else {
                 return self.err("anchor referenced before definition");
-- 
2.43.0


From 4f1642e13f914c247c8d450461e895c34558a059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:50 +0000
Subject: [PATCH 49/54] fix: the content of a flow node may be in the line
 behind its properties

---
 src/parser/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 24d42a2..9e419c9 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -229,7 +229,7 @@ impl<R: Repr> Loader<'_, R> {
         if level > MAX_LEVEL {
             return self.err("nesting level");
         }
-        self.scalar_node(|p| {
+        self.scalar_node(false, |p| {
             if let Ok(s) = p.string_literal(level) {
                 Ok(Content::Data(R::new_rc(Yaml::Str(s))))
             } else if let Ok(s) = p.string_folded(level) {
@@ -248,28 +248,28 @@ impl<R: Repr> Loader<'_, R> {
         if level > MAX_LEVEL {
             return self.err("nesting level");
         }
-        self.scalar_node(|p| p.scalar_term(level, flow).map(Content::Data))
+        self.scalar_node(flow, |p| p.scalar_term(level, flow).map(Content::Data))
     }
 
-    fn scalar_node<F>(&mut self, f: F) -> PResult<Node<R>>
+    fn scalar_node<F>(&mut self, flow: bool, f: F) -> PResult<Node<R>>
     where
         F: FnOnce(&mut Self) -> PResult<Content<R>>,
     {
         let optional = |r: PResult<String>| r.or_else(|e| e.or(|| Ok(String::new())));
         let mut anchor = optional(self.anchor())?;
         if !anchor.is_empty() {
-            self.bound()?;
+            self.prop_end(flow)?;
         }
         self.forward();
         let tag = optional(self.tag())?;
         if self.pos > self.eaten {
-            self.bound()?;
+            self.prop_end(flow)?;
         }
         self.forward();
         let anchor2 = optional(self.anchor())?;
         if !anchor2.is_empty() {
             if anchor.is_empty() {
-                self.bound()?;
+                self.prop_end(flow)?;
                 anchor = anchor2;
             } else {
                 return self.err("duplicated anchor definition");
@@ -297,6 +297,16 @@ impl<R: Repr> Loader<'_, R> {
         }
     }
 
+    /// Match the boundary behind an anchor or a tag, the content can be in the
+    /// next line of the flow structure.
+    fn prop_end(&mut self, flow: bool) -> PResult<()> {
+        self.bound()?;
+        if flow && self.gap(true).is_ok() {
+            self.ws(TakeOpt::More(0))?;
+        }
+        Ok(())
+    }
+
     /// The anchors of the current document, the sub-parsers can be used
     /// without a document.
     fn doc_anchors(&mut self) -> &mut Anchors<R> {
-- 
2.43.0


From 915fdee11ad2c37ca5eb007a87e6b2f74f140e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:53 +0000
Subject: [PATCH 50/54] fix: tabs separate indicators, values and comments like
 blanks do

---
 src/parser/base/grammar.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index cb397d3..3e82f91 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -13,7 +13,7 @@ impl Parser<'_> {
             // The end of input is also a boundary
             return Ok(());
         }
-        self.sym_set(b":{}[] ,\n\r")?;
+        self.sym_set(b":{}[] ,\t\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
     }
@@ -23,7 +23,7 @@ impl Parser<'_> {
         if self.food().is_empty() {
             return Ok(());
         }
-        self.sym_set(b" \n\r")?;
+        self.sym_set(b" \t\n\r")?;
         self.back(1);
         self.ws(TakeOpt::More(0))
     }
@@ -179,7 +179,7 @@ impl Parser<'_> {
 
     /// Match plain string.
     pub fn string_plain(&mut self, level: usize, inner: bool) -> PResult<String> {
-        let mut patt = b"[]{}: \n\r".to_vec();
+        let mut patt = b"[]{}: \t\n\r".to_vec();
         if inner {
             patt.push(b',');
         }
@@ -206,14 +206,16 @@ impl Parser<'_> {
                 p.forward();
                 if p.food().is_empty()
                     || p.sym_seq(b": ").is_ok()
+                    || p.sym_seq(b":\t").is_ok()
                     || (p.sym(b':').is_ok() && (p.food().is_empty() || p.nl().is_ok()))
                     || p.sym_seq(b" #").is_ok()
+                    || p.sym_seq(b"\t#").is_ok()
                 {
                     p.backward();
                     break;
                 }
                 p.forward();
-                if p.sym_set(b": ").is_ok() {
+                if p.sym_set(b": \t").is_ok() {
                     v.push_str(&p.text());
                 } else if !inner && !v.is_empty() && p.sym_set(b"{}[]").is_ok() {
                     v.push_str(&p.text());
-- 
2.43.0


From fbf7a3d770b82a6ae6ed566d5236a1f426b7ebbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:55 +0000
Subject: [PATCH 51/54] fix: blanks in front of a line break are no content of
 a plain text

---
 src/parser/base/grammar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3e82f91..3b34e23 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -223,6 +223,7 @@ impl Parser<'_> {
                     // Never start from the next line
                     break;
                 } else if let Ok(t) = p.gap(true) {
+                    v.truncate(v.trim_end_matches([' ', '\t']).len());
                     if t == 1 {
                         v.push(' ');
                     }
-- 
2.43.0


From 7019e348621561bf665d0b5e9c09d3e4e7962179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:44 +0000
Subject: [PATCH 52/54] fix: only blanks and tabs around the lines of a text
 are no content

---
 src/parser/base/grammar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 3b34e23..78efaa0 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -239,7 +239,7 @@ impl Parser<'_> {
                     break;
                 }
             }
-            v.truncate(v.trim_end().len());
+            v.truncate(v.trim_end_matches([' ', '\t', '\n']).len());
             if v.is_empty() {
                 p.pos = start;
                 Err(PError::Mismatch)
@@ -318,7 +318,7 @@ impl Parser<'_> {
                     }
                     v.push_str(&s);
                 } else {
-                    let s = s.trim_start();
+                    let s = s.trim_start_matches([' ', '\t']);
                     if s.is_empty() {
                         v.push('\n');
                     } else if !v.is_empty() && !v.ends_with(char::is_whitespace) {
-- 
2.43.0


From 2d5ee08b71f2b4140a709702f22bf9ebc75b9ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:47 +0000
Subject: [PATCH 53/54] fix: a folded line break after a blank is a blank

---
 src/parser/base/grammar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base/grammar.rs b/src/parser/base/grammar.rs
index 78efaa0..4519d5b 100644
--- a/src/parser/base/grammar.rs
+++ b/src/parser/base/grammar.rs
@@ -321,7 +321,7 @@ impl Parser<'_> {
                     let s = s.trim_start_matches([' ', '\t']);
                     if s.is_empty() {
                         v.push('\n');
-                    } else if !v.is_empty() && !v.ends_with(char::is_whitespace) {
+                    } else if !v.is_empty() && !v.ends_with('\n') {
                         v.push(char::from(sep));
                     }
                     v.push_str(s);
-- 
2.43.0


From 101517b8818a6bdfa347c104747d17e23e0c4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:54 +0000
Subject: [PATCH 54/54] fix: a number is rounded once to a float of 32 bits

---
 src/serde/de.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/serde/de.rs b/src/serde/de.rs
index a17c3b0..db656e8 100644
--- a/src/serde/de.rs
+++ b/src/serde/de.rs
@@ -381,8 +381,8 @@ impl<'a, R: Repr> Deserializer<'a> for Node<R> {
         V: Visitor<'a>,
     {
         match self.yaml() {
-            Yaml::Float(n) | Yaml::Int(n) => match to_float(n) {
-                Some(n) => visitor.visit_f32(n as f32),
+            Yaml::Float(n) | Yaml::Int(n) => match to_float32(n) {
+                Some(n) => visitor.visit_f32(n),
                 None => Err(unexpected(&self, visitor)),
             },
             _ => Err(unexpected(&self, visitor)),
@@ -559,6 +559,11 @@ fn to_float(s: &str) -> Option<f64> {
     to_f64(s).or_else(|_| to_i128(s).map(|n| n as f64)).ok()
 }
 
+// Narrowing a number that has been rounded to 64 bits rounds it twice
+fn to_float32(s: &str) -> Option<f32> {
+    s.parse().or_else(|_| to_i128(s).map(|n| n as f32)).ok()
+}
+
 #[cold]
 fn out_of_range<R: Repr>(node: &Node<R>, exp: impl Expected) -> SerdeError {
     let value = match node.yaml() {
-- 
2.43.0

