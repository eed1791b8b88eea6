From ca38d6ec04cbf897ddb0b2d2cfa2dc49a05f1461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 01/16] fix: retain `Env::lowercase()` across chained adapters

`Env::lowercase(false)` was silently undone by any subsequent `split()`,
`map()`, `filter()`, `only()` or `ignore()`.
---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From 49ee4ebfe65526a23a03f2372c24da5c92659087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 02/16] fix: use byte offsets when unescaping strings

The index of the first escape was a character offset but was used as a byte
offset, so a quoted string with a non-ASCII character before its first escape
panicked or lost text.
---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From 3091c31241d1d35a7461418388188834c02d3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 03/16] fix: keep all errors when chaining onto a chained error

`Error::chain()` overwrote any errors already chained to its argument, so a
figment with three or more failing providers lost errors.
---
 src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..7dafb21 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,12 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        let mut tail = &mut error;
+        while tail.prev.is_some() {
+            tail = tail.prev.as_mut().unwrap();
+        }
+
+        tail.prev = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From ffc040b2f298d0f0e3a513f6fec5ea53211af1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 04/16] fix: report correct key path for errors in
 `extract_inner()`

The key path being extracted was appended to the path of the error inside of
the value instead of being prepended to it.
---
 src/error.rs   | 6 ++++++
 src/figment.rs | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 7dafb21..faee9d2 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,12 @@ impl Error {
         self
     }
 
+    pub(crate) fn nested_in(mut self, path: &str) -> Self {
+        let keys = path.split('.').take_while(|k| !k.is_empty());
+        self.path.splice(0..0, keys.map(|k| k.to_string()));
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..3b63fd3 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.nested_in(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.nested_in(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From d0fc26d0b22b82fd6bb8252ffb8fa50b68e243d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 05/16] fix: don't lose precision when parsing a `Num` from a
 string

Short decimal strings were parsed as `f32`, so lossily extracting "0.1" as an
`f64` resulted in 0.10000000149011612.
---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From 8ff24cb3d790e6ab8499c65a18a9e7926ffa0273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:27 +0000
Subject: [PATCH 06/16] fix: support deserializing 128-bit integers

128-bit integers could be serialized into a figment but not be extracted.
---
 src/value/de.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..249954b 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -168,6 +168,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
             |e| e.retagged(de.value.tag()).resolved(de.config),
         deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
         deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
+        deserialize_u128, deserialize_i128,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
@@ -323,7 +324,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -374,7 +375,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -393,7 +394,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From 1068a09048b7f732be59a28cec0a9c04fd34fb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:55 +0000
Subject: [PATCH 07/16] fix: handle `.` and `..` in the base of `diff_paths()`

A leading `.` in `base` was treated as a directory level and `..` past the
first differing component as a descent, so the returned path did not lead
from `base` to `path`.
---
 src/util.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13b0930..54b1d25 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -71,8 +71,8 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
         return None;
     }
 
-    let mut ita = path.components();
-    let mut itb = base.components();
+    let mut ita = path.components().filter(|c| *c != Component::CurDir);
+    let mut itb = base.components().filter(|c| *c != Component::CurDir);
     let mut comps: Vec<Component> = vec![];
     loop {
         match (ita.next(), itb.next()) {
@@ -82,13 +82,17 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
                 comps.extend(ita.by_ref());
                 break;
             }
+            (None, Some(Component::ParentDir)) => return None,
             (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
-            (Some(a), Some(Component::CurDir)) => comps.push(a),
             (Some(_), Some(Component::ParentDir)) => return None,
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-                for _ in itb {
+                for b in itb {
+                    if b == Component::ParentDir {
+                        return None;
+                    }
+
                     comps.push(Component::ParentDir);
                 }
                 comps.push(a);
-- 
2.43.0


From bb5275cbbbb54acb40a2c920cf9be1cd4e5edfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 08/16] fix: don't include fields internal to magic values in
 error paths

A type error in a `Tagged<T>`, for instance, was reported for the nonexistent
key `key.___figment_tagged_value`.
---
 src/error.rs    | 8 ++++++++
 src/value/de.rs | 9 ++++++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index faee9d2..418c5b1 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -152,6 +152,14 @@ impl Error {
         self
     }
 
+    pub(crate) fn without_parent(mut self, parents: &[&str]) -> Self {
+        if self.path.first().map_or(false, |k| parents.contains(&k.as_str())) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         if self.tag.is_default() {
             self.tag = tag;
diff --git a/src/value/de.rs b/src/value/de.rs
index 249954b..3a249d7 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -112,9 +112,12 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
 
         let (config, tag) = (self.config, self.value.tag());
         let result = match name {
-            Value::NAME => Value::deserialize_from(self, visitor),
-            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor),
-            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor),
+            Value::NAME => Value::deserialize_from(self, visitor)
+                .map_err(|e| e.without_parent(Value::FIELDS)),
+            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor)
+                .map_err(|e| e.without_parent(RelativePathBuf::FIELDS)),
+            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor)
+                .map_err(|e| e.without_parent(Tagged::<()>::FIELDS)),
             // SelectedProfile::NAME => SelectedProfile::deserialize_from(self, visitor),
             _ => self.deserialize_any(visitor)
         };
-- 
2.43.0


From 03dade6b72055c910e101080978bde3b86e35315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 09/16] fix: bound the nesting depth of parsed values

A sufficiently deeply nested environment variable value (`[[[[...`) overflowed
the stack and aborted the process. Values nested more than 128 levels deep are
now strings like other unparseable values.
---
 src/value/parse.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/value/parse.rs b/src/value/parse.rs
index 4e4d271..22e4f4e 100644
--- a/src/value/parse.rs
+++ b/src/value/parse.rs
@@ -6,6 +6,7 @@ use super::Empty;
 
 struct Parser<'a> {
     cursor: &'a str,
+    depth: usize,
 }
 
 #[derive(Debug)]
@@ -14,13 +15,17 @@ pub enum Error {
     Expected(Value),
     Escape(super::escape::Error),
     Eof,
+    Depth,
 }
 
 type Result<T> = std::result::Result<T, Error>;
 
 impl<'a> Parser<'a> {
+    /// The maximum depth of nested arrays and dictionaries.
+    const MAX_DEPTH: usize = 128;
+
     fn new(cursor: &'a str) -> Self {
-        Self { cursor }
+        Self { cursor, depth: 0 }
     }
 
     fn peek(&self, c: char) -> bool {
@@ -111,7 +116,12 @@ impl<'a> Parser<'a> {
     fn delimited<T, V, F>(&mut self, start: char, end: char, value: F) -> Result<T>
         where T: Extend<V> + Default, F: Fn(&mut Self) -> Result<V>,
     {
+        if self.depth >= Self::MAX_DEPTH {
+            return Err(Error::Depth);
+        }
+
         let mut collection = T::default();
+        self.depth += 1;
         self.eat(start)?;
         self.skip_whitespace();
 
@@ -127,6 +137,7 @@ impl<'a> Parser<'a> {
         }
 
         self.eat(end)?;
+        self.depth -= 1;
         Ok(collection)
     }
 
-- 
2.43.0


From 5840b6e7958c7216c107ec75549d4a345967297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 10/16] fix: apply chained YAML merge keys

---
 src/providers/data.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/providers/data.rs b/src/providers/data.rs
index d135de8..48ab793 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -605,9 +605,28 @@ impl YamlExtended {
     /// ```
     pub fn from_str<'de, T: DeserializeOwned>(s: &'de str) -> serde_yaml::Result<T> {
         let mut value: serde_yaml::Value = serde_yaml::from_str(s)?;
-        value.apply_merge()?;
+        Self::apply_merge(&mut value)?;
         T::deserialize(value)
     }
+
+    /// Applies merge keys innermost first so that a value that is merged has
+    /// had its own merge keys applied already.
+    fn apply_merge(value: &mut serde_yaml::Value) -> serde_yaml::Result<()> {
+        use serde_yaml::Value;
+
+        match value {
+            Value::Mapping(map) => map.values_mut().try_for_each(Self::apply_merge)?,
+            Value::Sequence(seq) => seq.iter_mut().try_for_each(Self::apply_merge)?,
+            Value::Tagged(tagged) => Self::apply_merge(&mut tagged.value)?,
+            _ => return Ok(()),
+        }
+
+        if value.get("<<").is_some() {
+            value.apply_merge()?;
+        }
+
+        Ok(())
+    }
 }
 
 impl_format!(Toml "TOML"/"toml": toml_edit::de::from_str, toml_edit::de::Error);
-- 
2.43.0


From 187a0f9e767aabb8ac97c82395cb34b2d5245409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:02 +0000
Subject: [PATCH 11/16] fix: report human readability consistently when
 deserializing

The deserializer alternated its answer each time it was asked, so a type
which asked and then delegated to another type which asks failed to
deserialize.
---
 src/value/de.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 3a249d7..97699bf 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -43,13 +43,12 @@ impl Interpreter for LossyInterpreter {
 pub struct ConfiguredValueDe<'c, I = DefaultInterpreter> {
     pub config: &'c Figment,
     pub value: &'c Value,
-    pub readable: Cell<bool>,
     _phantom: PhantomData<I>
 }
 
 impl<'c, I: Interpreter> ConfiguredValueDe<'c, I> {
     pub fn from(config: &'c Figment, value: &'c Value) -> Self {
-        Self { config, value, readable: Cell::from(true), _phantom: PhantomData }
+        Self { config, value, _phantom: PhantomData }
     }
 }
 
@@ -160,9 +159,7 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
     }
 
     fn is_human_readable(&self) -> bool {
-        let val = self.readable.get();
-        self.readable.set(!val);
-        val
+        !FINGERPRINTING.with(|f| f.get())
     }
 
     apply_then_forward_to_deserialize_any! {
@@ -431,11 +428,20 @@ impl<'de> Deserialize<'de> for RawValue {
     }
 }
 
+thread_local! {
+    /// Whether `Value` is fingerprinting a deserializer. Only then does ours
+    /// claim to not be human readable.
+    static FINGERPRINTING: Cell<bool> = Cell::new(false);
+}
+
 impl<'de> Deserialize<'de> for Value {
     fn deserialize<D: Deserializer<'de>>(de: D) -> result::Result<Value, D::Error> {
         // Total hack to "fingerprint" our deserializer by checking if
         // human_readable changes, which does for ours but shouldn't for others.
-        let (a, b) = (de.is_human_readable(), de.is_human_readable());
+        let a = de.is_human_readable();
+        FINGERPRINTING.with(|f| f.set(true));
+        let b = de.is_human_readable();
+        FINGERPRINTING.with(|f| f.set(false));
         if a == b {
             de.deserialize_any(ValueVisitor)
         } else {
-- 
2.43.0


From 70e49c8524eef255314de0b2e13391cf1ae55879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:29 +0000
Subject: [PATCH 12/16] fix: don't abort when a jail is given an invalid
 variable name

The invalid name was saved before setting it panicked, so restoring it
panicked again while unwinding.
---
 src/jail.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..69f83c0 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -344,11 +344,13 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
+        let value = v.to_string();
+        let saved = std::env::var_os(key);
+        // This panics if `key` or `value` are invalid; save only if it doesn't.
+        std::env::set_var(key, value);
         if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
+            self.saved_env_vars.insert(key.into(), saved);
         }
-
-        std::env::set_var(key, v.to_string());
     }
 }
 
-- 
2.43.0


From f563e4715cf13b2db661ce621055949fdbaf923f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 13/16] fix: resolve relative jail paths against the current
 directory

From a subdirectory, `..` was dropped, so files were created elsewhere
than named, and changing to `.` or `..` failed. A relative path that
leaves the jail is now an error, as documented.
---
 src/jail.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 69f83c0..a1c2edc 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -159,16 +159,18 @@ impl Jail {
     }
 
     fn safe_jailed_path(&self, path: &Path) -> Result<PathBuf> {
-        let path = dedot(path);
-        if path.is_absolute() && path.starts_with(self.directory()) {
-            return Ok(path);
-        }
-
-        if !path.is_relative() {
+        // A relative path is relative to the current directory, which may be a
+        // subdirectory of the jail's.
+        let cwd = std::env::current_dir().map_err(as_string)?;
+        let full_path = dedot(&cwd.join(path));
+        if !full_path.starts_with(self.directory()) {
             return Err("Jail: input path is outside of jail directory".to_string().into());
         }
 
-        Ok(path)
+        match full_path.strip_prefix(&cwd) {
+            Ok(p) if path.is_relative() && p != Path::new("") => Ok(p.into()),
+            _ => Ok(full_path),
+        }
     }
 
     /// Creates a file with contents `contents` within the jail's directory. The
-- 
2.43.0


From 000ba5e7b38829debffbeeec2f8bfd60308ce070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:13 +0000
Subject: [PATCH 14/16] fix: accept 128-bit integers in
 `bool_from_str_or_int()`

The integers 0 and 1 were rejected when held as `u128` or `i128`.
---
 src/util.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/util.rs b/src/util.rs
index 54b1d25..90c928a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -169,6 +169,26 @@ pub fn bool_from_str_or_int<'de, D: Deserializer<'de>>(de: D) -> Result<bool, D:
             }
         }
 
+        fn visit_u128<E: de::Error>(self, n: u128) -> Result<bool, E> {
+            match n {
+                0 | 1 => Ok(n != 0),
+                n => {
+                    let actual = format!("integer `{}` as u128", n);
+                    Err(E::invalid_value(Unexpected::Other(&actual), &"0 or 1"))
+                }
+            }
+        }
+
+        fn visit_i128<E: de::Error>(self, n: i128) -> Result<bool, E> {
+            match n {
+                0 | 1 => Ok(n != 0),
+                n => {
+                    let actual = format!("integer `{}` as i128", n);
+                    Err(E::invalid_value(Unexpected::Other(&actual), &"0 or 1"))
+                }
+            }
+        }
+
         fn visit_bool<E: de::Error>(self, b: bool) -> Result<bool, E> {
             Ok(b)
         }
-- 
2.43.0


From dcc0433f100088796ab36512edc86e1fd173a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 15/16] fix: deserialize map keys wrapped in newtypes and
 options

A map keyed by a newtype around a string, or by an optional string, could be
serialized into a figment but not extracted from it.
---
 src/value/de.rs | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 97699bf..c02c6c1 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -204,7 +204,7 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
         where K: de::DeserializeSeed<'de>
     {
         if let Some((k, v)) = self.iter.next() {
-            let result = seed.deserialize(k.as_str().into_deserializer())
+            let result = seed.deserialize(KeyDe(k))
                 .map_err(|e: Error| e.prefixed(k).retagged(v.tag()))
                 .map(Some);
 
@@ -225,6 +225,45 @@ impl<'m, 'de, D, F> de::MapAccess<'de> for MapDe<'m, D, F>
     }
 }
 
+/// A deserializer for map keys. Unlike `serde`'s deserializer for `&str`, the
+/// key may be wrapped in a newtype or an option.
+struct KeyDe<'k>(&'k str);
+
+impl<'de, 'k> Deserializer<'de> for KeyDe<'k> {
+    type Error = Error;
+
+    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
+        v.visit_str(self.0)
+    }
+
+    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value> {
+        v.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        v: V,
+    ) -> Result<V::Value> {
+        v.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V: Visitor<'de>>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        v: V,
+    ) -> Result<V::Value> {
+        v.visit_enum(self.0.into_deserializer())
+    }
+
+    serde::forward_to_deserialize_any! {
+        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        string seq bytes byte_buf map unit struct
+        ignored_any unit_struct tuple_struct tuple identifier u128 i128
+    }
+}
+
 pub struct SeqDe<'v, D, F: Fn(&'v Value) -> D> {
     iter: std::iter::Enumerate<std::slice::Iter<'v, Value>>,
     len: usize,
-- 
2.43.0


From 8fbdb82c095ae141c0bf2e9243ce2cc77a7bdc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:27 +0000
Subject: [PATCH 16/16] fix: keep the fingerprinting flag right if a wrapped
 deserializer panics or nests

A value read through a deserializer that wraps ours runs foreign code in
is_human_readable(). If that code panicked, or read another value, the
thread-local flag stayed set, or was cleared too early: from then on, types
were told they were not human readable, and values lost their tags.
---
 src/value/de.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index c02c6c1..041dc97 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -477,10 +477,21 @@ impl<'de> Deserialize<'de> for Value {
     fn deserialize<D: Deserializer<'de>>(de: D) -> result::Result<Value, D::Error> {
         // Total hack to "fingerprint" our deserializer by checking if
         // human_readable changes, which does for ours but shouldn't for others.
-        let a = de.is_human_readable();
-        FINGERPRINTING.with(|f| f.set(true));
-        let b = de.is_human_readable();
-        FINGERPRINTING.with(|f| f.set(false));
+        // The flag is restored even if `de`, which may be anyone's, panics.
+        struct Restore(bool);
+
+        impl Drop for Restore {
+            fn drop(&mut self) {
+                FINGERPRINTING.with(|f| f.set(self.0));
+            }
+        }
+
+        let human_readable = |fingerprinting: bool| {
+            let _restore = Restore(FINGERPRINTING.with(|f| f.replace(fingerprinting)));
+            de.is_human_readable()
+        };
+
+        let (a, b) = (human_readable(false), human_readable(true));
         if a == b {
             de.deserialize_any(ValueVisitor)
         } else {
-- 
2.43.0

