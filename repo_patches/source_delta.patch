From b7864e749ff36f43296360dc0ce83138cbf18db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 01/15] fix: do not allocate for the upper size bound of an
 iterator

---
 src/tokens/tokens.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 3e5f81e..1f1e356 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -203,8 +203,9 @@ where
         I: IntoIterator<Item = Item<L>>,
     {
         let it = it.into_iter();
-        let (low, high) = it.size_hint();
-        self.items.reserve(high.unwrap_or(low));
+        // NB: the upper bound is not a promise, so it must not drive allocation.
+        let (low, _) = it.size_hint();
+        self.items.reserve(low);
 
         for item in it {
             self.item(item);
@@ -1001,8 +1002,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = &'a Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it.cloned());
         tokens
     }
@@ -1014,8 +1015,8 @@ where
 {
     fn from_iter<I: IntoIterator<Item = Item<L>>>(iter: I) -> Self {
         let it = iter.into_iter();
-        let (low, high) = it.size_hint();
-        let mut tokens = Self::with_capacity(high.unwrap_or(low));
+        let (low, _) = it.size_hint();
+        let mut tokens = Self::with_capacity(low);
         tokens.extend(it);
         tokens
     }
-- 
2.43.0


From af52a8538648b08e9b507f36b6fc203f95f0cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 02/15] fix: compare, order and hash ItemStr by content

---
 src/tokens/item_str.rs | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/tokens/item_str.rs b/src/tokens/item_str.rs
index 928c84d..bb335a3 100644
--- a/src/tokens/item_str.rs
+++ b/src/tokens/item_str.rs
@@ -1,6 +1,8 @@
 //! Helper trait to take ownership of strings.
 
+use core::cmp::Ordering;
 use core::fmt;
+use core::hash::{Hash, Hasher};
 use core::ops::Deref;
 
 use alloc::borrow::{Cow, ToOwned};
@@ -12,7 +14,9 @@ use crate::lang::Lang;
 use crate::tokens::{FormatInto, Item, Tokens};
 
 /// A managed string that permits immutable borrowing.
-#[derive(Debug, Clone, Hash, PartialOrd, Ord, PartialEq, Eq)]
+///
+/// Strings are compared and hashed by content, regardless of how they are stored.
+#[derive(Debug, Clone)]
 pub enum ItemStr {
     /// A boxed string.
     Box(Box<str>),
@@ -20,6 +24,32 @@ pub enum ItemStr {
     Static(&'static str),
 }
 
+impl PartialEq for ItemStr {
+    fn eq(&self, other: &Self) -> bool {
+        **self == **other
+    }
+}
+
+impl Eq for ItemStr {}
+
+impl PartialOrd for ItemStr {
+    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
+        Some(self.cmp(other))
+    }
+}
+
+impl Ord for ItemStr {
+    fn cmp(&self, other: &Self) -> Ordering {
+        (**self).cmp(&**other)
+    }
+}
+
+impl Hash for ItemStr {
+    fn hash<H: Hasher>(&self, state: &mut H) {
+        (**self).hash(state);
+    }
+}
+
 /// Convert stringy things.
 impl<L> FormatInto<L> for ItemStr
 where
-- 
2.43.0


From 119d618c88340e635d152c862db19328fa1e05f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 03/15] fix: do not overflow on large indentations

---
 src/fmt/formatter.rs | 8 ++++----
 src/tokens/tokens.rs | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 922ba69..cbdf638 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -59,7 +59,7 @@ pub struct Formatter<'a> {
     /// if a new line is pushed or indentation changes.
     spaces: usize,
     /// Current indentation level.
-    indent: i16,
+    indent: i64,
 }
 
 impl<'a> Formatter<'a> {
@@ -69,7 +69,7 @@ impl<'a> Formatter<'a> {
             write,
             line: Whitespace::Initial,
             spaces: 0usize,
-            indent: 0i16,
+            indent: 0i64,
             config,
         }
     }
@@ -136,7 +136,7 @@ impl<'a> Formatter<'a> {
     /// Increase indentation level.
     fn indentation(&mut self, n: i16) {
         self.push();
-        self.indent += n;
+        self.indent = self.indent.saturating_add(i64::from(n));
     }
 
     /// Internal function for formatting.
@@ -279,7 +279,7 @@ impl<'a> Formatter<'a> {
                 self.write.write_line(self.config)?;
             }
 
-            let level = i16::max(self.indent, 0) as usize;
+            let level = i64::max(self.indent, 0) as usize;
 
             match self.config.indentation {
                 Indentation::Space(n) => {
diff --git a/src/tokens/tokens.rs b/src/tokens/tokens.rs
index 1f1e356..74c4939 100644
--- a/src/tokens/tokens.rs
+++ b/src/tokens/tokens.rs
@@ -650,7 +650,11 @@ where
                 Some(Item::Push) => continue,
                 Some(Item::Space) => continue,
                 Some(Item::Line) => continue,
-                Some(Item::Indentation(u)) => n += u,
+                Some(Item::Indentation(u)) => match n.checked_add(u) {
+                    Some(sum) => n = sum,
+                    // Too large to be combined into a single item.
+                    None => break Some(Item::Indentation(u)),
+                },
                 item => break item,
             }
         };
-- 
2.43.0


From 4bb834098d9c9fb6a76e980b330b360f6f956433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 04/15] fix: close the innermost quote first when quotes are
 nested

---
 src/fmt/formatter.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index cbdf638..60c43ec 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -188,13 +188,13 @@ impl<'a> Formatter<'a> {
                     L::write_quoted(self, &buf)?;
                     buf.clear();
                 }
-                Item::CloseQuote if end_on_close_quote => {
-                    return Ok(());
-                }
                 Item::CloseQuote if *in_quote => {
                     *in_quote = false;
                     L::close_quote(self, config, format, mem::take(has_eval))?;
                 }
+                Item::CloseQuote if end_on_close_quote => {
+                    return Ok(());
+                }
                 Item::Lang(_, lang) => {
                     lang.format(self, config, format)?;
                 }
-- 
2.43.0


From 20f5e15e0b9748b83186e57ad87a7e855a2ee85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:36 +0000
Subject: [PATCH 05/15] fix: keep every default import of a JavaScript module

---
 src/lang/js.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lang/js.rs b/src/lang/js.rs
index 6d129e4..efbd974 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -432,7 +432,7 @@ impl JavaScript {
                 }
                 ImportKind::Default => {
                     let module = modules.entry(&import.module).or_default();
-                    module.default_import = Some(&import.name);
+                    module.default_imports.insert(&import.name);
                 }
                 ImportKind::Wildcard => {
                     wildcards.insert((&import.module, &import.name));
@@ -452,10 +452,21 @@ impl JavaScript {
         }
 
         for (name, module) in modules {
+            let mut default_imports = module.default_imports.into_iter();
+            let default_import = default_imports.next();
+
+            // NB: there can only be one default import per import statement.
+            for default in default_imports {
+                out.push();
+                quote_in! { *out =>
+                    import $default from $(ref t => render_from(t, config.module_path.as_deref(), name));
+                }
+            }
+
             out.push();
             quote_in! { *out =>
                 import $(ref tokens => {
-                    if let Some(default) = module.default_import {
+                    if let Some(default) = default_import {
                         tokens.append(ItemStr::from(default));
 
                         if !module.set.is_empty() {
@@ -495,7 +506,7 @@ impl JavaScript {
 
         #[derive(Default)]
         struct ResolvedModule<'a> {
-            default_import: Option<&'a ItemStr>,
+            default_imports: BTreeSet<&'a ItemStr>,
             set: BTreeSet<ImportedElement<'a>>,
         }
 
-- 
2.43.0


From 43c0371d6c72c92425a7df684bee5de4d6935b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 06/15] fix: keep Java names which are in scope implicitly from
 being shadowed by imports

---
 src/lang/java/mod.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index 265bee9..f7b56c6 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -90,7 +90,14 @@ impl_lang! {
             let imported = format.imported.get(self.name.as_ref()).map(String::as_str);
             let pkg = Some(self.package.as_ref());
 
-            if &*self.package != JAVA_LANG && imported != pkg && file_package != pkg {
+            // Types in `java.lang` and in the package of the file are in scope
+            // unless their name refers to something else in this file.
+            let in_scope = match imported {
+                Some(..) => imported == pkg,
+                None => &*self.package == JAVA_LANG || file_package == pkg,
+            };
+
+            if !in_scope {
                 out.write_str(self.package.as_ref())?;
                 out.write_str(SEP)?;
             }
@@ -188,16 +195,18 @@ impl Java {
             return;
         }
 
-        for (package, name) in modules {
-            if imported.contains_key(&*name) {
-                continue;
-            }
-
-            if &*package == JAVA_LANG {
-                continue;
+        // Names which are in scope without being imported must not be shadowed by
+        // an import. The package of the file takes precedence over `java.lang`.
+        for implicit in file_package.into_iter().chain(Some(JAVA_LANG)) {
+            for (package, name) in &modules {
+                if **package == *implicit && !imported.contains_key(&**name) {
+                    imported.insert(name.to_string(), package.to_string());
+                }
             }
+        }
 
-            if Some(&*package) == file_package {
+        for (package, name) in modules {
+            if imported.contains_key(&*name) {
                 continue;
             }
 
-- 
2.43.0


From 950ec0337491c87371fc34fafbc09646b99bafd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 07/15] fix: qualify C# names which are taken by the current
 namespace

---
 src/lang/csharp/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index 5606b3a..cbfcbc0 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -185,6 +185,13 @@ impl Csharp {
             return;
         }
 
+        // Names in the current namespace take precedence over imported ones.
+        if let Some(current) = config.namespace.as_deref() {
+            for (_, name) in modules.iter().filter(|(n, _)| *n == current) {
+                imported_names.insert(name.to_string(), current.to_string());
+            }
+        }
+
         let mut imported = BTreeSet::new();
 
         for (namespace, name) in modules {
-- 
2.43.0


From 76ced5757a8f4c56baa0c256fac895fbec060589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 08/15] fix: import dart:core when it is used through an alias

---
 src/lang/dart/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 077f932..2b26c76 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -194,7 +194,12 @@ impl Dart {
 
         for import in input.walk_imports() {
             if &*import.path == DART_CORE {
-                continue;
+                // NB: always in scope, unless it is imported explicitly.
+                if import.alias.is_none() {
+                    continue;
+                }
+
+                modules.insert((import.path.clone(), None));
             }
 
             modules.insert((import.path.clone(), import.alias.clone()));
-- 
2.43.0


From 58afb6fea75e5c2c6d9301160f2e572962cd684c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 09/15] fix: aliased Python imports are not qualified

---
 src/lang/python.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lang/python.rs b/src/lang/python.rs
index f6272ee..7ee6f24 100644
--- a/src/lang/python.rs
+++ b/src/lang/python.rs
@@ -120,6 +120,13 @@ impl TypeModule {
         }
     }
 
+    fn unqualified(self) -> Self {
+        match self {
+            Self::Qualified { module, .. } => Self::Unqualified { module },
+            other => other,
+        }
+    }
+
     fn with_alias<T>(self, alias: T) -> Self
     where
         T: Into<ItemStr>,
@@ -175,6 +182,7 @@ impl Import {
         T: Into<ItemStr>,
     {
         Self {
+            module: self.module.unqualified(),
             alias: Some(alias.into()),
             ..self
         }
@@ -204,6 +212,7 @@ impl Import {
     pub fn qualified(self) -> Self {
         Self {
             module: self.module.qualified(),
+            alias: None,
             ..self
         }
     }
@@ -237,6 +246,7 @@ impl Import {
     {
         Self {
             module: self.module.with_alias(module_alias),
+            alias: None,
             ..self
         }
     }
-- 
2.43.0


From 8e736e0926c1660cf1ddca9eb3759716600cfbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 10/15] fix: collect imports of nested variables in Nix

---
 src/lang/nix.rs | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/lang/nix.rs b/src/lang/nix.rs
index 9e71ad6..197d614 100644
--- a/src/lang/nix.rs
+++ b/src/lang/nix.rs
@@ -4,6 +4,7 @@ use core::fmt::Write as _;
 
 use alloc::collections::BTreeSet;
 use alloc::string::ToString;
+use alloc::vec::Vec;
 
 use crate as genco;
 use crate::fmt;
@@ -118,10 +119,26 @@ impl Config {
 }
 
 impl Nix {
+    /// Walk over all imports, including the ones used by values of variables.
+    fn walk(tokens: &Tokens) -> Vec<&Import> {
+        let mut imports = tokens.walk_imports().collect::<Vec<_>>();
+        let mut n = 0;
+
+        while let Some(import) = imports.get(n).copied() {
+            if let Import::Variable(variable) = import {
+                imports.extend(variable.value.walk_imports());
+            }
+
+            n += 1;
+        }
+
+        imports
+    }
+
     fn arguments(out: &mut Tokens, tokens: &Tokens) {
         let mut arguments = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Argument(argument) => {
                     arguments.insert(argument.0.to_string());
@@ -132,23 +149,8 @@ impl Nix {
                         arguments.insert(a.to_string());
                     }
                 }
-                Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        match import {
-                            Import::Inherit(inherit) => {
-                                let argument = inherit.path.split('.').next();
-                                if let Some(a) = argument {
-                                    arguments.insert(a.to_string());
-                                }
-                            }
-                            Import::Argument(argument) => {
-                                arguments.insert(argument.0.to_string());
-                            }
-                            _ => (),
-                        }
-                    }
-                }
+                // NB: what the value needs is walked separately.
+                Import::Variable(..) => (),
                 Import::With(with) => {
                     let argument = with.argument.split('.').next();
                     if let Some(a) = argument {
@@ -180,7 +182,7 @@ impl Nix {
     fn withs(out: &mut Tokens, tokens: &Tokens) {
         let mut withs = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             if let Import::With(with) = imports {
                 withs.insert(&with.argument);
             }
@@ -202,18 +204,12 @@ impl Nix {
         let mut inherits = BTreeSet::new();
         let mut variables = BTreeSet::new();
 
-        for imports in tokens.walk_imports() {
+        for imports in Self::walk(tokens) {
             match imports {
                 Import::Inherit(inherit) => {
                     inherits.insert((&inherit.path, &inherit.name));
                 }
                 Import::Variable(variable) => {
-                    let value = &variable.value;
-                    for import in value.walk_imports() {
-                        if let Import::Inherit(inherit) = import {
-                            inherits.insert((&inherit.path, &inherit.name));
-                        }
-                    }
                     variables.insert((&variable.name, &variable.value));
                 }
                 _ => (),
-- 
2.43.0


From 4462fdc53fa80af9a77ee5ddb7f2826ec8a09648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 11/15] fix: limit how deeply quotes can be nested

---
 src/fmt/formatter.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index 60c43ec..d5facab 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -14,6 +14,12 @@ static SPACES: &str = "
 static TABS: &str =
     "\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t\t";
 
+/// How deeply quotes may be nested inside of each other.
+///
+/// What's needed to escape a quote doubles with every level, so this is not a
+/// limit in practice. It keeps malformed streams from exhausting stack and memory.
+const MAX_QUOTE_DEPTH: usize = 8;
+
 #[derive(Debug, Clone, Copy)]
 enum Whitespace {
     Initial,
@@ -85,7 +91,7 @@ impl<'a> Formatter<'a> {
         L: Lang,
     {
         let mut cursor = cursor::Cursor::new(items);
-        self.format_cursor(&mut cursor, config, format, false)
+        self.format_cursor(&mut cursor, config, format, 0)
     }
 
     /// Forcibly write a line ending, at the end of a file.
@@ -145,7 +151,7 @@ impl<'a> Formatter<'a> {
         cursor: &mut cursor::Cursor<'_, L>,
         config: &L::Config,
         format: &L::Format,
-        end_on_close_quote: bool,
+        quote_depth: usize,
     ) -> fmt::Result
     where
         L: Lang,
@@ -184,7 +190,7 @@ impl<'a> Formatter<'a> {
                 //
                 // Evaluating quotes are not supported.
                 Item::OpenQuote(false) if *in_quote => {
-                    self.quoted_quote(cursor, &mut buf, config, format)?;
+                    self.quoted_quote(cursor, &mut buf, config, format, quote_depth + 1)?;
                     L::write_quoted(self, &buf)?;
                     buf.clear();
                 }
@@ -192,7 +198,7 @@ impl<'a> Formatter<'a> {
                     *in_quote = false;
                     L::close_quote(self, config, format, mem::take(has_eval))?;
                 }
-                Item::CloseQuote if end_on_close_quote => {
+                Item::CloseQuote if quote_depth > 0 => {
                     return Ok(());
                 }
                 Item::Lang(_, lang) => {
@@ -255,16 +261,21 @@ impl<'a> Formatter<'a> {
         buf: &mut String,
         config: &L::Config,
         format: &L::Format,
+        quote_depth: usize,
     ) -> fmt::Result<()>
     where
         L: Lang,
     {
         use crate::fmt::FmtWriter;
 
+        if quote_depth > MAX_QUOTE_DEPTH {
+            return Err(core::fmt::Error);
+        }
+
         let mut w = FmtWriter::new(buf);
         let out = &mut Formatter::new(&mut w, self.config);
         L::open_quote(out, config, format, false)?;
-        out.format_cursor(cursor, config, format, true)?;
+        out.format_cursor(cursor, config, format, quote_depth)?;
         L::close_quote(out, config, format, false)?;
         Ok(())
     }
-- 
2.43.0


From 21891771b7a30a8b8d35cbd1d7687ac2a3bdcbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 12/15] fix: escape form feed, vertical tab and backspace, not
 other control characters

---
 src/lang/dart/mod.rs | 4 ++--
 src/lang/java/mod.rs | 4 ++--
 src/lang/js.rs       | 4 ++--
 src/lang/mod.rs      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lang/dart/mod.rs b/src/lang/dart/mod.rs
index 2b26c76..ae3471a 100644
--- a/src/lang/dart/mod.rs
+++ b/src/lang/dart/mod.rs
@@ -100,7 +100,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -108,7 +108,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // Note: only relevant if we were to use single-quoted strings.
                     // '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
diff --git a/src/lang/java/mod.rs b/src/lang/java/mod.rs
index f7b56c6..08b2385 100644
--- a/src/lang/java/mod.rs
+++ b/src/lang/java/mod.rs
@@ -44,10 +44,10 @@ impl_lang! {
             for c in input.chars() {
                 match c {
                     '\t' => out.write_str("\\t")?,
-                    '\u{0007}' => out.write_str("\\b")?,
+                    '\u{0008}' => out.write_str("\\b")?,
                     '\n' => out.write_str("\\n")?,
                     '\r' => out.write_str("\\r")?,
-                    '\u{0014}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     '\'' => out.write_str("\\'")?,
                     '"' => out.write_str("\\\"")?,
                     '\\' => out.write_str("\\\\")?,
diff --git a/src/lang/js.rs b/src/lang/js.rs
index efbd974..614e6f4 100644
--- a/src/lang/js.rs
+++ b/src/lang/js.rs
@@ -129,7 +129,7 @@ impl_lang! {
                     // backspace
                     '\u{0008}' => out.write_str("\\b")?,
                     // form feed
-                    '\u{0012}' => out.write_str("\\f")?,
+                    '\u{000c}' => out.write_str("\\f")?,
                     // new line
                     '\n' => out.write_str("\\n")?,
                     // carriage return
@@ -137,7 +137,7 @@ impl_lang! {
                     // horizontal tab
                     '\t' => out.write_str("\\t")?,
                     // vertical tab
-                    '\u{0011}' => out.write_str("\\v")?,
+                    '\u{000b}' => out.write_str("\\v")?,
                     // null character.
                     '\0' => out.write_str("\\0")?,
                     // Note: only relevant if we were to use single-quoted strings.
diff --git a/src/lang/mod.rs b/src/lang/mod.rs
index 85d2852..88c80aa 100644
--- a/src/lang/mod.rs
+++ b/src/lang/mod.rs
@@ -187,7 +187,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // backspace
             '\u{0008}' => out.write_str("\\b")?,
             // form feed
-            '\u{0012}' => out.write_str("\\f")?,
+            '\u{000c}' => out.write_str("\\f")?,
             // new line
             '\n' => out.write_str("\\n")?,
             // carriage return
@@ -195,7 +195,7 @@ pub fn c_family_write_quoted(out: &mut fmt::Formatter, input: &str) -> fmt::Resu
             // horizontal tab
             '\t' => out.write_str("\\t")?,
             // vertical tab
-            '\u{0011}' => out.write_str("\\v")?,
+            '\u{000b}' => out.write_str("\\v")?,
             '\'' => out.write_str("\\'")?,
             '"' => out.write_str("\\\"")?,
             '\\' => out.write_str("\\\\")?,
-- 
2.43.0


From 87285b1e0c45d4c2510379718ea79a814fd5811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 13/15] fix: drop pending spaces at every line break

---
 src/fmt/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fmt/formatter.rs b/src/fmt/formatter.rs
index d5facab..593245b 100644
--- a/src/fmt/formatter.rs
+++ b/src/fmt/formatter.rs
@@ -115,23 +115,23 @@ impl<'a> Formatter<'a> {
     }
 
     fn push(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             Whitespace::Line => return,
             _ => Whitespace::Push,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a new line.
     fn line(&mut self) {
+        self.spaces = 0;
+
         self.line = match self.line {
             Whitespace::Initial => return,
             _ => Whitespace::Line,
         };
-
-        self.spaces = 0;
     }
 
     /// Push a space.
-- 
2.43.0


From 4778f2bbd03598176f6b94ec006a55df82673133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:04 +0000
Subject: [PATCH 14/15] fix: qualify C# names which are ambiguous or taken by
 an enclosing namespace

---
 src/lang/csharp/mod.rs | 51 ++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/lang/csharp/mod.rs b/src/lang/csharp/mod.rs
index cbfcbc0..c6dd886 100644
--- a/src/lang/csharp/mod.rs
+++ b/src/lang/csharp/mod.rs
@@ -57,7 +57,7 @@ impl_lang! {
 
             let mut format = Format::default();
 
-            Self::imports(&mut file, tokens, config, &mut format.imported_names);
+            Self::imports(&mut file, tokens, config, &mut format);
 
             if let Some(namespace) = &config.namespace {
                 quote_in! { file =>
@@ -99,6 +99,11 @@ impl_lang! {
                     }
                 }
 
+                // several imported namespaces provide the name.
+                if format.ambiguous_names.contains(name) {
+                    return true;
+                }
+
                 if let Some(imported) = format.imported_names.get(name) {
                     // a conflicting name is in the namespace.
                     if imported != namespace {
@@ -123,6 +128,8 @@ pub struct Format {
     ///
     /// A missing name means that it has to be used in a qualified manner.
     imported_names: BTreeMap<String, String>,
+    /// Names which are provided by more than one imported namespace.
+    ambiguous_names: BTreeSet<String>,
 }
 
 /// Config data for Csharp formatting.
@@ -169,12 +176,12 @@ impl Import {
 }
 
 impl Csharp {
-    fn imports(
-        out: &mut Tokens,
-        tokens: &Tokens,
-        config: &Config,
-        imported_names: &mut BTreeMap<String, String>,
-    ) {
+    fn imports(out: &mut Tokens, tokens: &Tokens, config: &Config, format: &mut Format) {
+        let Format {
+            imported_names,
+            ambiguous_names,
+        } = format;
+
         let mut modules = BTreeSet::new();
 
         for import in tokens.walk_imports() {
@@ -185,16 +192,23 @@ impl Csharp {
             return;
         }
 
-        // Names in the current namespace take precedence over imported ones.
-        if let Some(current) = config.namespace.as_deref() {
-            for (_, name) in modules.iter().filter(|(n, _)| *n == current) {
-                imported_names.insert(name.to_string(), current.to_string());
+        // Names in the current namespace, and then in the ones enclosing it, take
+        // precedence over imported ones.
+        let mut current = config.namespace.as_deref();
+
+        while let Some(namespace) = current {
+            for (_, name) in modules.iter().filter(|(n, _)| *n == namespace) {
+                imported_names
+                    .entry(name.to_string())
+                    .or_insert_with(|| namespace.to_string());
             }
+
+            current = namespace.rsplit_once(SEP).map(|(parent, _)| parent);
         }
 
         let mut imported = BTreeSet::new();
 
-        for (namespace, name) in modules {
+        for &(namespace, name) in &modules {
             if Some(namespace) == config.namespace.as_deref() {
                 continue;
             }
@@ -216,6 +230,19 @@ impl Csharp {
             imported_names.insert(name.to_string(), namespace.to_string());
         }
 
+        // Importing a namespace makes all of its names available, not just the
+        // ones it has been imported for.
+        for &(namespace, name) in &modules {
+            if let Some(existing) = imported_names.get(name) {
+                if existing != namespace
+                    && imported.contains(namespace)
+                    && imported.contains(existing.as_str())
+                {
+                    ambiguous_names.insert(name.to_string());
+                }
+            }
+        }
+
         out.line();
     }
 }
-- 
2.43.0


From f6422336573bb865b69c4235bee65212999971e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:59 +0000
Subject: [PATCH 15/15] fix: keep the text before an unbound scope that leaves
 the template

Text directly in front of `$(ref _ ...)` was only added to the target together
with whatever followed the scope, so a scope which left the template early, by
`?`, `return`, `break` or a panic, lost it.
---
 genco-macros/src/encoder.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/genco-macros/src/encoder.rs b/genco-macros/src/encoder.rs
index 3f517be..fa108c9 100644
--- a/genco-macros/src/encoder.rs
+++ b/genco-macros/src/encoder.rs
@@ -202,9 +202,7 @@ impl<'a> Encoder<'a> {
     pub(crate) fn encode_scope(&mut self, binding: Option<syn::Ident>, content: TokenStream) {
         let Ctxt { receiver, .. } = self.cx;
 
-        if binding.is_some() {
-            self.item_buffer.flush(&mut self.output);
-        }
+        self.item_buffer.flush(&mut self.output);
 
         let binding = binding.map(|b| q::quote_spanned!(b.span() => let #b = &mut *#receiver;));
 
-- 
2.43.0

