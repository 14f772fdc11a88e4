From ffc6e4b4431749fc559645da3fd7f2b457784f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 01/34] fix: read all members of gzip files

---
 crates/pica-cli/src/commands/invalid.rs |  4 ++--
 src/reader.rs                           | 26 ++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..a46c6d9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -101,19 +101,19 @@ impl ReaderBuilder {
     ) -> io::Result<Reader<Box<dyn Read>>> {
         let path = path.as_ref();
         let source = path.to_str().map(ToString::to_string);
-        let reader: Box<dyn Read> = match path
-            .extension()
-            .and_then(OsStr::to_str)
-        {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
-            _ => {
-                if path.to_str() != Some("-") {
-                    Box::new(File::open(path)?)
-                } else {
-                    Box::new(stdin().lock())
+        let reader: Box<dyn Read> =
+            match path.extension().and_then(OsStr::to_str) {
+                Some("gz") => {
+                    Box::new(MultiGzDecoder::new(File::open(path)?))
                 }
-            }
-        };
+                _ => {
+                    if path.to_str() != Some("-") {
+                        Box::new(File::open(path)?)
+                    } else {
+                        Box::new(stdin().lock())
+                    }
+                }
+            };
 
         Ok(self.from_reader(reader, source))
     }
-- 
2.43.0


From dce5368d7f3c013c4fc4ed3b58de851b581e76ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 02/34] fix: report the right line of a record with invalid
 UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index a46c6d9..d8b64b5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From 984e3997a3fb7b596a79a812d9bc2744d06e28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 03/34] fix: match occurrence ranges only against occurrences
 of the same length

---
 src/matcher/occurrence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matcher/occurrence.rs b/src/matcher/occurrence.rs
index 78af4fa..2396a10 100644
--- a/src/matcher/occurrence.rs
+++ b/src/matcher/occurrence.rs
@@ -74,7 +74,8 @@ impl OccurrenceMatcher {
                 Self::None => occ == b"00",
                 Self::Exact(rhs) => occ == rhs,
                 Self::Range(min, max) => {
-                    (occ.as_bytes() >= min.as_bytes())
+                    (occ.as_bytes().len() == min.len())
+                        && (occ.as_bytes() >= min.as_bytes())
                         && (occ.as_bytes() <= max.as_bytes())
                 }
             },
-- 
2.43.0


From 1f0ce71dd50597e8d47b95da16198be1e3de742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:50 +0000
Subject: [PATCH 04/34] fix: parse connectives by precedence and groups
 independent of history

The parsers of filter and format expressions tried all alternatives for
each group, which took exponential time for nested groups and rejected
mixed connectives like `a? && b? ^ c? || d?`. The group level was never
decremented for subfield groups and leaked after each failed group, so
that the acceptance of an expression depended on the expressions parsed
before it.
---
 src/fmt/parser.rs              |  87 ++++++++++++------------
 src/matcher/field/parser.rs    | 119 ++++++++++-----------------------
 src/matcher/subfield/parser.rs | 113 ++++++++++---------------------
 3 files changed, 116 insertions(+), 203 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..915956d 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -4,9 +4,9 @@ use std::ops::RangeTo;
 use bstr::ByteSlice;
 use winnow::ascii::digit1;
 use winnow::combinator::{
-    alt, delimited, empty, opt, preceded, repeat, separated, terminated,
+    alt, delimited, empty, opt, preceded, repeat, separated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::{ModalResult, Parser};
 
 use super::{Format, Fragments, Group, List, Modifier, Value};
@@ -43,44 +43,46 @@ pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
 }
 
 fn parse_fragments(i: &mut &[u8]) -> ModalResult<Fragments> {
-    alt((
-        ws(parse_list).map(Fragments::List),
-        ws(parse_group).map(Fragments::Group),
-        ws(parse_value).map(Fragments::Value),
-    ))
-    .parse_next(i)
+    ws(parse_list_cons).map(fragments).parse_next(i)
 }
 
 thread_local! {
     pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 32 {
-            Err(winnow::error::ErrMode::from_input(i))
+/// Applies a parser one group level deeper. The level is restored no
+/// matter whether the parser succeeds or fails.
+fn group_level<'a, O>(
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 32 {
+            Err(ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser.parse_next(i)
+        };
 
-fn group_level_dec() {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        GROUP_LEVEL.with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
     (
-        terminated(ws('('), group_level_inc),
-        parse_modifier,
-        alt((
-            ws(parse_list).map(Fragments::List),
-            ws(parse_value).map(Fragments::Value),
+        group_level(delimited(
+            ws('('),
+            (
+                parse_modifier,
+                parse_fragments
+                    .verify(|f| !matches!(f, Fragments::Group(_))),
+            ),
+            ws(')'),
         )),
-        ws(')').map(|_| group_level_dec()),
         alt((
             preceded(
                 "..",
@@ -92,7 +94,7 @@ fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
             empty.value(usize::MAX),
         )),
     )
-        .map(|(_, modifier, fragments, _, end)| Group {
+        .map(|((modifier, fragments), end)| Group {
             fragments: Box::new(fragments),
             bounds: RangeTo { end },
             modifier: modifier.unwrap_or_default(),
@@ -135,28 +137,27 @@ fn parse_value(i: &mut &[u8]) -> ModalResult<Value> {
         .parse_next(i)
 }
 
-#[inline]
-fn parse_list(i: &mut &[u8]) -> ModalResult<List> {
-    alt((parse_list_cons, parse_list_and_then)).parse_next(i)
+/// Unwraps a list with a single item.
+fn fragments(list: List) -> Fragments {
+    match list {
+        List::Cons(mut items) | List::AndThen(mut items)
+            if items.len() == 1 =>
+        {
+            items.remove(0)
+        }
+        list => Fragments::List(list),
+    }
 }
 
 fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_list_and_then.map(Fragments::List),
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<*>"),
-    )
-    .map(List::Cons)
-    .parse_next(i)
+    separated(1.., parse_list_and_then.map(fragments), ws("<*>"))
+        .map(List::Cons)
+        .parse_next(i)
 }
 
 fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
     separated(
-        2..,
+        1..,
         alt((
             parse_group.map(Fragments::Group),
             parse_value.map(Fragments::Value),
diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..6d87500 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -5,7 +5,7 @@ use winnow::ascii::digit1;
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, terminated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::{ModalResult, Parser};
 
 use super::{
@@ -232,44 +232,36 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
+/// Applies a parser one group level deeper. The level is restored no
+/// matter whether the parser succeeds or fails.
+fn group_level<'a, O>(
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = FIELD_MATCHER_GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 256 {
+            Err(ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser.parse_next(i)
+        };
 
-fn group_level_dec() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        FIELD_MATCHER_GROUP_LEVEL
+            .with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 #[inline]
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    group_level(delimited(ws('('), parse_field_or_matcher, ws(')')))
+        .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
+        .parse_next(i)
 }
 
 #[inline]
@@ -290,20 +282,10 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded("||", parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -311,19 +293,13 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 }
 
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -342,41 +318,18 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (atom, repeat(0.., preceded("&&", atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_field_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..abe6f13 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -7,7 +7,7 @@ use winnow::ascii::{digit1, multispace1};
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, separated, terminated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::prelude::*;
 
 use super::{
@@ -285,43 +285,36 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
+/// Applies a parser one group level deeper. The level is restored no
+/// matter whether the parser succeeds or fails.
+fn group_level<'a, O>(
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 256 {
+            Err(ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser.parse_next(i)
+        };
 
-fn group_level_dec() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        SUBFIELD_MATCHER_GROUP_LEVEL
+            .with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 #[inline(always)]
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    group_level(delimited(ws('('), parse_subfield_or_matcher, ws(')')))
+        .map(|m| SubfieldMatcher::Group(Box::new(m)))
+        .parse_next(i)
 }
 
 #[inline(always)]
@@ -353,18 +346,10 @@ fn parse_subfield_not_matcher(
 fn parse_subfield_or_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("||", atom)))
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
@@ -374,17 +359,13 @@ fn parse_subfield_or_matcher(
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
@@ -403,39 +384,17 @@ fn parse_subfield_and_matcher(
         .parse_next(i)
     };
 
-    (atom, repeat(1.., preceded("&&", atom)))
+    (atom, repeat(0.., preceded("&&", atom)))
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 686589995c5029798b64ae44fd10c8bc5a574ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 05/34] fix: compare values case-insensitively regardless of
 their length

---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 7d51f238363691919fb50dd3d38a48abc275181b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 06/34] fix: accept quantifiers in negated exists matchers

---
 src/matcher/field/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 6d87500..3d6d64e 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -191,7 +191,7 @@ fn parse_field_exists_matcher(
             FieldMatcher::Singleton(SingletonMatcher::Exists(matcher))
         }),
         (
-            opt(parse_quantifier).map(Option::unwrap_or_default),
+            opt(ws(parse_quantifier)).map(Option::unwrap_or_default),
             parse_tag_matcher,
             parse_occurrence_matcher,
             alt((
-- 
2.43.0


From 958bf0364648ce5d4f628c83aaed7669ae3e9ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 07/34] fix: limit the nesting of repeated negations

---
 src/matcher/field/parser.rs    | 4 ++--
 src/matcher/subfield/parser.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 3d6d64e..68ddac6 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -232,7 +232,7 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-/// Applies a parser one group level deeper. The level is restored no
+/// Applies a parser one nesting level deeper. The level is restored no
 /// matter whether the parser succeeds or fails.
 fn group_level<'a, O>(
     mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
@@ -274,7 +274,7 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
                 .map(SingletonMatcher::Subfields)
                 .map(FieldMatcher::Singleton),
             parse_field_exists_matcher,
-            parse_field_not_matcher,
+            group_level(parse_field_not_matcher),
         )),
     )
     .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index abe6f13..ec3bbcb 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -285,7 +285,7 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-/// Applies a parser one group level deeper. The level is restored no
+/// Applies a parser one nesting level deeper. The level is restored no
 /// matter whether the parser succeeds or fails.
 fn group_level<'a, O>(
     mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
@@ -336,7 +336,7 @@ fn parse_subfield_not_matcher(
         alt((
             parse_subfield_group_matcher,
             parse_subfield_exists_matcher,
-            parse_subfield_not_matcher,
+            group_level(parse_subfield_not_matcher),
         )),
     )
     .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
-- 
2.43.0


From b7c2f088e6782ceb3367a0990c2ea838859bff48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 08/34] fix: bound the depth of long chains of connectives

---
 src/matcher/field/parser.rs    | 14 +++++++-------
 src/matcher/subfield/parser.rs | 14 +++++++-------
 src/parser.rs                  | 23 +++++++++++++++++++++++
 3 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 68ddac6..2e665d3 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -21,7 +21,7 @@ use crate::matcher::subfield::parser::{
 };
 use crate::matcher::tag::parse_tag_matcher;
 use crate::matcher::{RelationalOp, subfield};
-use crate::parser::ws;
+use crate::parser::{join, ws};
 
 pub(super) fn parse_exists_matcher(
     i: &mut &[u8],
@@ -286,8 +286,8 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         parse_field_xor_matcher,
         repeat(0.., preceded("||", parse_field_xor_matcher)),
     )
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs | rhs)
         })
         .parse_next(i)
 }
@@ -300,8 +300,8 @@ fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
             preceded(alt(("^", "XOR")), parse_field_and_matcher),
         ),
     )
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs ^ rhs)
         })
         .parse_next(i)
 }
@@ -319,8 +319,8 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
     };
 
     (atom, repeat(0.., preceded("&&", atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs & rhs)
         })
         .parse_next(i)
 }
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index ec3bbcb..7c3aabc 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -19,7 +19,7 @@ use crate::matcher::operator::{
     RelationalOp, parse_relational_operator,
 };
 use crate::matcher::quantifier::parse_quantifier;
-use crate::parser::{parse_string, parse_subfield_codes, ws};
+use crate::parser::{join, parse_string, parse_subfield_codes, ws};
 
 /// Parses a [ExistsMatcher] expression.
 pub(crate) fn parse_exists_matcher(
@@ -350,8 +350,8 @@ fn parse_subfield_or_matcher(
         parse_subfield_xor_matcher,
         repeat(0.., preceded("||", parse_subfield_xor_matcher)),
     )
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs | rhs)
         })
         .parse_next(i)
 }
@@ -366,8 +366,8 @@ fn parse_subfield_xor_matcher(
             preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
         ),
     )
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs ^ rhs)
         })
         .parse_next(i)
 }
@@ -385,8 +385,8 @@ fn parse_subfield_and_matcher(
     };
 
     (atom, repeat(0.., preceded("&&", atom)))
-        .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
+        .map(|operands: (_, Vec<_>)| {
+            join(operands, |lhs, rhs| lhs & rhs)
         })
         .parse_next(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index bec4f23..da011f9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -15,6 +15,29 @@ use winnow::token::take_till;
 use crate::primitives::SubfieldCode;
 use crate::primitives::parse::parse_subfield_code;
 
+/// Joins the operands of an associative operator pairwise, so that the
+/// depth of the result grows only logarithmically.
+pub(crate) fn join<T>(
+    (head, tail): (T, Vec<T>),
+    op: impl Fn(T, T) -> T,
+) -> T {
+    let mut items: Vec<T> = std::iter::once(head).chain(tail).collect();
+
+    while items.len() > 1 {
+        let mut rest = items.into_iter();
+        items = Vec::with_capacity(rest.len().div_ceil(2));
+        while let Some(lhs) = rest.next() {
+            items.push(match rest.next() {
+                Some(rhs) => op(lhs, rhs),
+                None => lhs,
+            });
+        }
+    }
+
+    // SAFETY: there is at least the first operand.
+    items.remove(0)
+}
+
 #[inline]
 pub(crate) fn parse_subfield_code_range(
     i: &mut &[u8],
-- 
2.43.0


From ae4e668e7562788402a888a05d7eb8f3fcc5f72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:01 +0000
Subject: [PATCH 09/34] fix: do not panic on accepted regular expressions that
 grow too big

---
 src/matcher/subfield/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 447a492..01e8f50 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -557,6 +557,7 @@ impl RegexMatcher {
     ) -> bool {
         let re = RegexBuilder::new(&self.regex)
             .case_insensitive(options.case_ignore)
+            .size_limit(usize::MAX)
             .build()
             .unwrap();
 
@@ -662,6 +663,7 @@ impl RegexSetMatcher {
     ) -> bool {
         let re = RegexSetBuilder::new(&self.regex)
             .case_insensitive(options.case_ignore)
+            .size_limit(usize::MAX)
             .build()
             .unwrap();
 
-- 
2.43.0


From 862741de00a7072d9be27e32efae9e2a86904ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 10/34] fix: ignore records without identifier in concat
 --unique

The documentation says that these records are ignored with the idn
strategy, but they made the command panic. Identifiers that are not
valid UTF-8 are no longer confused with each other.
---
 crates/pica-cli/src/commands/concat.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..7ae0462 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -1,5 +1,4 @@
 use std::ffi::OsString;
-use std::fmt::Write;
 use std::process::ExitCode;
 
 use clap::{Parser, ValueEnum};
@@ -74,15 +73,10 @@ pub(crate) enum Strategy {
 }
 
 #[inline]
-fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
+fn record_key(record: &ByteRecord, strategy: &Strategy) -> Vec<u8> {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
-        Strategy::Hash => {
-            record.sha256().iter().fold(String::new(), |mut out, b| {
-                let _ = write!(out, "{b:02x}");
-                out
-            })
-        }
+        Strategy::Idn => record.ppn().unwrap_or_default().to_vec(),
+        Strategy::Hash => record.sha256().to_vec(),
     }
 }
 
-- 
2.43.0


From c56e7fe60e7a5dfe36d0e5a0cf63e95b02c485b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:58 +0000
Subject: [PATCH 11/34] fix: count skipped invalid lines as positions in slice

According to the documentation an invalid line occupies a position, but
skipped lines were not counted and could extend the slice beyond the
requested length. A large start position with a length no longer
overflows.
---
 crates/pica-cli/src/commands/slice.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..49773f0 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let mut range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
@@ -116,9 +116,14 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
+                        if self.length > 0
+                            && range.contains(&i)
+                            && range.end < usize::MAX
+                        {
                             range.end += 1;
                         }
+
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 05bab074b8d17c708682254c63b63c413bef7a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:14 +0000
Subject: [PATCH 12/34] fix: do not drop a final standard input of filter with
 an expression file

With an expression file and the inputs FILE and -, the second input was
taken for the default value and ignored.
---
 crates/pica-cli/src/commands/filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..e34c986 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -153,7 +153,6 @@ pub(crate) struct Filter {
     ///
     /// If no filenames where given or a filename is "-", data is read
     /// from standard input (stdin).
-    #[arg(default_value = "-", hide_default_value = true)]
     filenames: Vec<OsString>,
 }
 
@@ -194,11 +193,7 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                if filenames != ["-"] {
-                    filenames.insert(0, self.filter.into());
-                } else {
-                    filenames = vec![self.filter.into()];
-                }
+                filenames.insert(0, self.filter.into());
             }
 
             read_to_string(filename)?
@@ -206,6 +201,10 @@ impl Filter {
             self.filter
         };
 
+        if filenames.is_empty() {
+            filenames.push("-".into());
+        }
+
         let matcher =
             RecordMatcherBuilder::with_transform(filter_str, translit)?
                 .and(self.and)?
-- 
2.43.0


From 5f629bed49e320425bdbc67a1e295dd58bbf2955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 13/34] fix: respect the record limit in count

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From 0bffeafe465730f8510a40d8c51c394235270961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 14/34] fix: count records instead of writes for the limit of
 partition

---
 crates/pica-cli/src/commands/partition.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..f0e27f8 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -134,12 +134,13 @@ impl Partition {
                             };
 
                             writer.write_byte_record(record)?;
-                            count += 1;
-                            if self.filter_opts.limit > 0
-                                && count >= self.filter_opts.limit
-                            {
-                                break 'outer;
-                            }
+                        }
+
+                        count += 1;
+                        if self.filter_opts.limit > 0
+                            && count >= self.filter_opts.limit
+                        {
+                            break 'outer;
                         }
                     }
                 }
-- 
2.43.0


From dbf71094aa493b41ac1eb1645488184bd718d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 15/34] fix: apply the threshold of frequency in reverse order
 too

---
 crates/pica-cli/src/commands/frequency.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..4f9fabc 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -215,16 +215,14 @@ impl Frequency {
             });
         }
 
+        ftable_sorted.retain(|(_, freq)| **freq >= self.threshold);
+
         let translit = crate::translit::translit(self.nf.clone());
         for (i, (values, freq)) in ftable_sorted.iter().enumerate() {
             if self.num > 0 && i >= self.num {
                 break;
             }
 
-            if **freq < self.threshold {
-                break;
-            }
-
             let mut record = values
                 .iter()
                 .map(ToString::to_string)
-- 
2.43.0


From f737c388551435175ff461fbbd6bcc22dab534c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 16/34] fix: do not panic on invalid UTF-8 in print

---
 crates/pica-cli/src/commands/print.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..f0c25a3 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -88,10 +88,16 @@ impl Print {
                                 let code = subfield.code();
                                 write!(writer, " ${code}")?;
 
-                                let value = translit(
-                                    subfield.value().to_str().unwrap(),
-                                );
-                                write!(writer, " {value}")?;
+                                writer.write_all(b" ")?;
+                                let value = subfield.value();
+                                if self.nf.is_none() {
+                                    writer.write_all(value)?;
+                                } else {
+                                    let value = value.to_str_lossy();
+                                    writer.write_all(
+                                        translit(value).as_bytes(),
+                                    )?;
+                                }
                             }
 
                             writeln!(writer)?;
-- 
2.43.0


From a8169dbf31e99c3d25ff854b9936dae0c0714a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:32 +0000
Subject: [PATCH 17/34] fix: separate records in PICA Plain by an empty line

---
 crates/pica-cli/src/commands/convert/plain.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/convert/plain.rs b/crates/pica-cli/src/commands/convert/plain.rs
index 7ea5262..2c1c5e3 100644
--- a/crates/pica-cli/src/commands/convert/plain.rs
+++ b/crates/pica-cli/src/commands/convert/plain.rs
@@ -7,6 +7,7 @@ use pica_record::prelude::*;
 
 pub(crate) struct PlainWriter {
     writer: BufWriter<Box<dyn Write>>,
+    count: usize,
 }
 
 impl PlainWriter {
@@ -18,7 +19,7 @@ impl PlainWriter {
                 BufWriter::new(Box::new(stdout()))
             };
 
-        Ok(Self { writer })
+        Ok(Self { writer, count: 0 })
     }
 }
 
@@ -27,6 +28,12 @@ impl ByteRecordWrite for PlainWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
+        if self.count > 0 {
+            self.writer.write_all(b"\n")?;
+        }
+
+        self.count += 1;
+
         for field in record.fields() {
             field.tag().write_to(&mut self.writer)?;
             if let Some(occurrence) = field.occurrence() {
-- 
2.43.0


From 1626d003519488b0c44e60243dabab7f37be4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:53 +0000
Subject: [PATCH 18/34] fix: do not panic on invalid UTF-8 in PICA XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..2acf10e 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -73,10 +73,9 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(BytesText::new(
-                                        subfield
+                                        &subfield
                                             .value()
-                                            .to_str()
-                                            .unwrap(),
+                                            .to_str_lossy(),
                                     ))
                                     .unwrap();
                             }
-- 
2.43.0


From c050589da5be2aa184dbe5b7f2ec42bc1223de6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:19 +0000
Subject: [PATCH 19/34] fix: report write errors of PICA XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 53 ++++++++++-----------
 1 file changed, 24 insertions(+), 29 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 2acf10e..1a221b1 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -23,13 +23,11 @@ impl XmlWriter {
             };
 
         let mut writer = Writer::new_with_indent(inner, b' ', 4);
-        writer
-            .write_event(Event::Decl(BytesDecl::new(
-                "1.0",
-                Some("UTF-8"),
-                None,
-            )))
-            .unwrap();
+        writer.write_event(Event::Decl(BytesDecl::new(
+            "1.0",
+            Some("UTF-8"),
+            None,
+        )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -37,12 +35,10 @@ impl XmlWriter {
             ("xmlns", "info:srw/schema/5/picaXML-v1.0"),
         ];
 
-        writer
-            .write_event(Event::Start(
-                BytesStart::from_content("collection", 0)
-                    .with_attributes(attributes),
-            ))
-            .unwrap();
+        writer.write_event(Event::Start(
+            BytesStart::from_content("collection", 0)
+                .with_attributes(attributes),
+        ))?;
 
         Ok(Self { writer })
     }
@@ -53,9 +49,8 @@ impl ByteRecordWrite for XmlWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
-        self.writer
-            .create_element("record")
-            .write_inner_content(|r| {
+        self.writer.create_element("record").write_inner_content(
+            |r| {
                 for field in record.fields() {
                     r.create_element("datafield")
                         .with_attribute((
@@ -72,30 +67,30 @@ impl ByteRecordWrite for XmlWriter {
                                             .to_string()
                                             .as_str(),
                                     ))
-                                    .write_text_content(BytesText::new(
-                                        &subfield
-                                            .value()
-                                            .to_str_lossy(),
-                                    ))
-                                    .unwrap();
+                                    .write_text_content(
+                                        BytesText::new(
+                                            &subfield
+                                                .value()
+                                                .to_str_lossy(),
+                                        ),
+                                    )?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            },
+        )?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From 9b97e789ea2888514a224571b0458162c7ade246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:04 +0000
Subject: [PATCH 20/34] fix: escape carriage returns in PICA XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 1a221b1..ff28640 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -4,6 +4,7 @@ use std::io::{self, BufWriter, Write, stdout};
 
 use bstr::ByteSlice;
 use pica_record::prelude::*;
+use quick_xml::escape::escape;
 use quick_xml::events::{
     BytesDecl, BytesEnd, BytesStart, BytesText, Event,
 };
@@ -59,6 +60,13 @@ impl ByteRecordWrite for XmlWriter {
                         ))
                         .write_inner_content(|f| {
                             for subfield in field.subfields() {
+                                let value = subfield.value();
+                                let value = value.to_str_lossy();
+                                // A literal carriage return would be
+                                // read back as line feed.
+                                let value = escape(value.as_ref())
+                                    .replace('\r', "&#13;");
+
                                 f.create_element("subfield")
                                     .with_attribute((
                                         "code",
@@ -68,11 +76,7 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(
-                                        BytesText::new(
-                                            &subfield
-                                                .value()
-                                                .to_str_lossy(),
-                                        ),
+                                        BytesText::from_escaped(value),
                                     )?;
                             }
 
-- 
2.43.0


From 073d4ac500a68d17552fded7cbd9c94d6eb07699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 21/34] fix: report a single empty value that violates a check

---
 crates/pica-cli/src/commands/check/checks/allow.rs  |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   |  9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 10 +++++-----
 4 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..34bd8e8 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f87e3ee 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f8506c6 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let messages = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !messages.is_empty() {
+            (true, Some(messages.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..bb1d58a 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -87,15 +87,15 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let messages = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !messages.is_empty() {
+                result
+                    .push((ppn.to_owned(), Some(messages.join(", "))));
             }
         }
 
-- 
2.43.0


From 80b7ba4d37d1b7a36bee5049e137943bf92a86e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 22/34] fix: reject letters within the digits of an ISNI

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..c2a98c9 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,8 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16 || digits[..15].iter().any(|d| *d > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From 0cd74ae49ebfa8285faab689b59a0163885124a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:16 +0000
Subject: [PATCH 23/34] fix: count the offset of datetime checks in characters

---
 .../src/commands/check/checks/datetime.rs         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/datetime.rs b/crates/pica-cli/src/commands/check/checks/datetime.rs
index 8c137a9..bd73993 100644
--- a/crates/pica-cli/src/commands/check/checks/datetime.rs
+++ b/crates/pica-cli/src/commands/check/checks/datetime.rs
@@ -1,3 +1,4 @@
+use bstr::ByteSlice;
 use jiff::civil;
 use pica_record::prelude::*;
 
@@ -36,13 +37,13 @@ impl DateTime {
             .case_ignore(self.case_ignore);
 
         for value in record.path(&self.path, &options) {
-            if self.offset >= value.len()
-                || civil::DateTime::strptime(
-                    &self.format,
-                    &value[self.offset..],
-                )
-                .is_err()
-            {
+            let start = value.char_indices().nth(self.offset);
+            let is_valid = start.is_some_and(|(start, _, _)| {
+                civil::DateTime::strptime(&self.format, &value[start..])
+                    .is_ok()
+            });
+
+            if !is_valid {
                 messages.push(value.to_string());
                 retval = true;
             }
-- 
2.43.0


From 6bce94daa0e05a29c4b097fdea3508da82212507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 24/34] fix: use the default of keys that are missing in the
 config

---
 crates/pica-cli/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..63b08f6 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -7,7 +7,7 @@ use serde::{Deserialize, Serialize};
 use crate::prelude::*;
 
 #[derive(Debug, Default, Serialize, Deserialize)]
-#[serde(rename_all = "kebab-case")]
+#[serde(rename_all = "kebab-case", default)]
 pub(crate) struct Config {
     /// The path of the config.
     #[serde(skip)]
-- 
2.43.0


From 410de35d8a141e5759385b12e271fdd7e102922d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:56 +0000
Subject: [PATCH 25/34] fix: report an invalid config instead of panicking

---
 crates/pica-cli/src/config.rs | 10 ++++++++--
 crates/pica-cli/src/main.rs   |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 63b08f6..463b501 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -52,10 +52,16 @@ impl Config {
     where
         P: AsRef<Path>,
     {
-        let path = path.as_ref().into();
+        let path: PathBuf = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(|e| {
+                let filename = path.to_string_lossy();
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!("invalid config {filename}: {e}"),
+                )
+            })?;
         config.path = path;
 
         Ok(config)
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..205e39c 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -20,7 +20,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(e) if e.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From 111d1de91728a754f5b61b7c14c0727ac26b09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 26/34] fix: do not panic if the standard output can't be
 written

---
 crates/pica-cli/src/commands/completions.rs | 14 +++++++++-----
 crates/pica-cli/src/commands/config.rs      | 12 +++++++-----
 crates/pica-cli/src/commands/describe.rs    |  3 ++-
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/pica-cli/src/commands/completions.rs b/crates/pica-cli/src/commands/completions.rs
index 38272ce..86e0965 100644
--- a/crates/pica-cli/src/commands/completions.rs
+++ b/crates/pica-cli/src/commands/completions.rs
@@ -28,15 +28,19 @@ impl Completions {
             None => Box::new(io::stdout().lock()),
         };
 
+        // `generate` panics if the output can't be written.
+        let mut buf = Vec::new();
+
         match self.shell {
-            Bash => generate(Bash, cmd, "pica", &mut wtr),
-            Elvish => generate(Elvish, cmd, "pica", &mut wtr),
-            Fish => generate(Fish, cmd, "pica", &mut wtr),
-            PowerShell => generate(PowerShell, cmd, "pica", &mut wtr),
-            Zsh => generate(Zsh, cmd, "pica", &mut wtr),
+            Bash => generate(Bash, cmd, "pica", &mut buf),
+            Elvish => generate(Elvish, cmd, "pica", &mut buf),
+            Fish => generate(Fish, cmd, "pica", &mut buf),
+            PowerShell => generate(PowerShell, cmd, "pica", &mut buf),
+            Zsh => generate(Zsh, cmd, "pica", &mut buf),
             _ => unreachable!(),
         }
 
+        wtr.write_all(&buf)?;
         wtr.flush()?;
 
         Ok(ExitCode::SUCCESS)
diff --git a/crates/pica-cli/src/commands/config.rs b/crates/pica-cli/src/commands/config.rs
index 49a3c86..f525f75 100644
--- a/crates/pica-cli/src/commands/config.rs
+++ b/crates/pica-cli/src/commands/config.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -28,14 +29,15 @@ pub(crate) struct Config {
 }
 
 #[inline]
-fn print_option<T: ToString>(value: Option<T>) {
-    println!(
+fn print_option<T: ToString>(value: Option<T>) -> io::Result<()> {
+    writeln!(
+        io::stdout(),
         "{}",
         match value {
             Some(value) => value.to_string(),
             None => "None".to_string(),
         }
-    );
+    )
 }
 
 impl Config {
@@ -88,10 +90,10 @@ impl Config {
         } else if self.get || (!self.unset && !self.set) {
             match name {
                 "skip-invalid" => {
-                    print_option(Some(&config.skip_invalid));
+                    print_option(Some(&config.skip_invalid))?;
                 }
                 "normalization" => {
-                    print_option(config.normalization.as_ref())
+                    print_option(config.normalization.as_ref())?;
                 }
                 _ => unreachable!(),
             }
diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index bcd0803..504d798 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -1,5 +1,6 @@
 use std::ffi::OsString;
 use std::fs::File;
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -164,7 +165,7 @@ impl Describe {
                     tmp_env::set_var("POLARS_FMT_MAX_ROWS", "50"),
                 );
 
-                println!("{df}");
+                writeln!(io::stdout(), "{df}")?;
             }
             Some(path)
                 if path.to_string_lossy().ends_with(".tsv")
-- 
2.43.0


From 8f5aff6a98b6f591969504fdf419991b36600bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:08 +0000
Subject: [PATCH 27/34] fix: count combinations of values in duplicates checks,
 not their joined text

---
 .../src/commands/check/checks/duplicates.rs    | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..fffe27a 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -40,18 +40,13 @@ impl Duplicates {
 
         let mut freqs = HashMap::new();
 
-        for row in record.query(&self.query, &options).iter() {
-            let values =
-                row.iter().map(ToString::to_string).collect::<Vec<_>>();
-
-            if values.iter().all(String::is_empty) {
+        for row in record.query(&self.query, &options).into_inner() {
+            if row.iter().all(|value| value.is_empty()) {
                 continue;
             }
 
-            let value = values.join(&self.separator);
-
             freqs
-                .entry(value)
+                .entry(row)
                 .and_modify(|count| *count += 1)
                 .or_insert(1);
         }
@@ -60,7 +55,12 @@ impl Duplicates {
         if !freqs.is_empty() {
             let message = freqs
                 .keys()
-                .map(ToString::to_string)
+                .map(|row| {
+                    row.iter()
+                        .map(ToString::to_string)
+                        .collect::<Vec<_>>()
+                        .join(&self.separator)
+                })
                 .collect::<Vec<_>>()
                 .join("; ");
             (true, Some(message))
-- 
2.43.0


From 9770d7d3fa0491356e6c58f6ab5cafc83fcf3538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:28 +0000
Subject: [PATCH 28/34] fix: write values with invalid UTF-8 into partitions of
 their own

---
 crates/pica-cli/src/commands/partition.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index f0e27f8..fab0715 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -3,6 +3,7 @@ use std::fs;
 use std::path::PathBuf;
 use std::process::ExitCode;
 
+use bstr::ByteSlice;
 use clap::Parser;
 use hashbrown::hash_map::{Entry, HashMap};
 use pica_record::prelude::*;
@@ -115,13 +116,13 @@ impl Partition {
                                 writers.entry(value.to_vec());
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
-                                    );
+                                    let filename = template
+                                        .as_bytes()
+                                        .replace("{}", value);
 
-                                    let path =
-                                        self.outdir.join(filename);
+                                    let path = self
+                                        .outdir
+                                        .join(filename.to_path_lossy());
                                     let writer = WriterBuilder::new()
                                         .gzip(self.gzip)
                                         .from_path(path)?;
-- 
2.43.0


From 454e7fb44f2937abc3fdf14564344e5d2a16c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:11 +0000
Subject: [PATCH 29/34] fix: reject --append together with --gzip in slice
 instead of panicking

---
 crates/pica-cli/src/commands/slice.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index 49773f0..919589a 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,9 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    ///
+    /// This option can't be combined with the `gzip` option.
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From ce8767d2a00a35d23c9832654c1fc6cc8602750e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 30/34] fix: filter: accept a first file name that is not UTF-8
 together with an expression file

---
 crates/pica-cli/src/commands/filter.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index e34c986..606e759 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -147,7 +147,7 @@ pub(crate) struct Filter {
 
     /// A filter expression used for searching
     #[arg(default_value = "", hide_default_value = true)]
-    filter: String,
+    filter: OsString,
 
     /// Read one or more files in normalized PICA+ format
     ///
@@ -193,12 +193,17 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                filenames.insert(0, self.filter.into());
+                filenames.insert(0, self.filter);
             }
 
             read_to_string(filename)?
         } else {
-            self.filter
+            self.filter.into_string().map_err(|filter| {
+                CliError::Other(format!(
+                    "invalid filter {}: not valid UTF-8",
+                    filter.display()
+                ))
+            })?
         };
 
         if filenames.is_empty() {
-- 
2.43.0


From 3919e8dd1b2c0ffcd140ad7e31f99a1512b72dfd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:28:27 +0000
Subject: [PATCH 31/34] fix: recognise the format of list and report files by
 their name if the path is not UTF-8

---
 crates/pica-cli/src/commands/check/writer/mod.rs | 4 ++--
 crates/pica-cli/src/utils.rs                     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/writer/mod.rs b/crates/pica-cli/src/commands/check/writer/mod.rs
index 5fcb452..b4e32df 100644
--- a/crates/pica-cli/src/commands/check/writer/mod.rs
+++ b/crates/pica-cli/src/commands/check/writer/mod.rs
@@ -99,9 +99,9 @@ impl Writer {
         path: Option<PathBuf>,
     ) -> Result<Self, Error> {
         let path_str = if let Some(ref path) = path {
-            path.to_str().unwrap_or_default()
+            path.to_string_lossy().into_owned()
         } else {
-            ""
+            String::new()
         };
 
         if path_str.ends_with(".txt") {
diff --git a/crates/pica-cli/src/utils.rs b/crates/pica-cli/src/utils.rs
index e4dd1a4..c56dcb5 100644
--- a/crates/pica-cli/src/utils.rs
+++ b/crates/pica-cli/src/utils.rs
@@ -106,7 +106,7 @@ pub(crate) fn read_filter_list(
     let mut set = HashSet::new();
 
     for path in paths.iter() {
-        let path_str = path.to_str().unwrap_or_default();
+        let path_str = path.to_string_lossy();
         let df = if path_str.ends_with("ipc") {
             IpcReader::new(File::open(path)?).finish()?
         } else if path_str.ends_with("tsv")
-- 
2.43.0


From 2540cee5ffebac87fd305092590071d6bd965c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:51 +0000
Subject: [PATCH 32/34] fix: sample: do not allocate the whole sample size in
 advance

With a sample size such as 4294967295 (the largest accepted one) the
command was aborted, even if there were only few records.
---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..4e88c51 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = Vec::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From 02c3e8508fb16d78e578b14c63c208866ac29548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:07 +0000
Subject: [PATCH 33/34] fix: flush the underlying writer when a gzip writer is
 finished

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From 6bcf9aaa98dd145e3b87f7b81e1e872540da3054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:45 +0000
Subject: [PATCH 34/34] fix: read lists with the extension .arrow in the Arrow
 format

The documentation names both .ipc and .arrow as extensions of lists in
the Arrow format, but only .ipc was recognised.
---
 crates/pica-cli/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/utils.rs b/crates/pica-cli/src/utils.rs
index c56dcb5..576fbf3 100644
--- a/crates/pica-cli/src/utils.rs
+++ b/crates/pica-cli/src/utils.rs
@@ -107,7 +107,9 @@ pub(crate) fn read_filter_list(
 
     for path in paths.iter() {
         let path_str = path.to_string_lossy();
-        let df = if path_str.ends_with("ipc") {
+        let df = if path_str.ends_with("ipc")
+            || path_str.ends_with("arrow")
+        {
             IpcReader::new(File::open(path)?).finish()?
         } else if path_str.ends_with("tsv")
             || path_str.ends_with("tsv.gz")
-- 
2.43.0

