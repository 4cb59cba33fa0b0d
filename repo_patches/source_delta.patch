From 80226380ab6f425e53a4eba1ecb43668d7cd49a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:51 +0000
Subject: [PATCH 01/21] fix: parallel iteration over char ranges that start
 above the surrogates

CharRange::compact_range closed the surrogate gap only for the high end, so
the parallel iterator of a range starting at U+E000 or above was shifted by
0x800 and too short (or empty).
---
 unic/char/range/src/par_iter.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/unic/char/range/src/par_iter.rs b/unic/char/range/src/par_iter.rs
index 5b40d22..45551a7 100644
--- a/unic/char/range/src/par_iter.rs
+++ b/unic/char/range/src/par_iter.rs
@@ -50,13 +50,15 @@ impl IndexedParallelIterator for Iter {
 
 impl CharRange {
     fn compact_range(&self) -> Range<u32> {
-        let low = self.low as u32;
-        let high = self.high as u32 + 1;
-        low..(if self.high >= AFTER_SURROGATE {
-            high - SKIP_LENGTH
-        } else {
-            high
-        })
+        // Close the gap left by the surrogates, for both ends.
+        let compact = |c: char| {
+            if c >= AFTER_SURROGATE {
+                c as u32 - SKIP_LENGTH
+            } else {
+                c as u32
+            }
+        };
+        compact(self.low)..(compact(self.high) + 1)
     }
 }
 
-- 
2.43.0


From 50ecf432c58b8088daed9e72cd7beaf26e1c8205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 02/21] fix: do not compose a Hangul LV syllable with U+11A7

The trailing consonants start at T_BASE + 1; U+11A7 itself is HANGUL JUNGSEONG O-YAE, a vowel.
---
 unic/ucd/hangul/src/hangul.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index a603383..c1cbcab 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -72,7 +72,7 @@ pub fn compose_syllable(jamo1: char, jamo2: char) -> Option<char> {
     }
     // Compose an LVPart and a TPart
     if S_BASE <= l && l <= (S_BASE+S_COUNT-T_COUNT) // l should be a syllable block
-        && T_BASE <= v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
+        && T_BASE < v && v < (T_BASE+T_COUNT) // v should be a T jongseong jamo
         && (l - S_BASE) % T_COUNT == 0
     {
         // l should be an LV syllable block (not LVT)
-- 
2.43.0


From 579f2bf56b0bb9d163a63290913dbf5983c960d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 03/21] fix: decompose_syllable must not make invalid chars
 from non-syllables

The function is safe to call with any char, but characters below U+AC00 wrapped around in release
builds and reached char::from_u32_unchecked with values that are not Unicode scalar values.
---
 unic/ucd/hangul/src/hangul.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unic/ucd/hangul/src/hangul.rs b/unic/ucd/hangul/src/hangul.rs
index c1cbcab..1accf21 100644
--- a/unic/ucd/hangul/src/hangul.rs
+++ b/unic/ucd/hangul/src/hangul.rs
@@ -33,6 +33,10 @@ pub fn is_syllable(ch: char) -> bool {
 }
 
 /// Decompose a precomposed Hangul syllable
+///
+/// # Panics
+///
+/// Panics if `syllable` is not a precomposed Hangul syllable (see `is_syllable`).
 // FIXME: This is a workaround, we should use `F` instead of `&mut F`
 #[allow(unsafe_code)]
 #[inline]
@@ -40,6 +44,8 @@ pub fn decompose_syllable<F>(syllable: char, f: &mut F)
 where
     F: FnMut(char),
 {
+    assert!(is_syllable(syllable), "not a precomposed Hangul syllable");
+
     let si = syllable as u32 - S_BASE;
 
     let li = si / N_COUNT;
-- 
2.43.0


From e5e59ad26401616868c5fefb66816570f956a30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:00 +0000
Subject: [PATCH 04/21] fix: the two orderings of Age agree

PartialOrd was reversed (older characters have the greater age), the derived Ord was not, so
max(), min() and sort() contradicted the comparison operators.
---
 unic/ucd/age/src/age.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/unic/ucd/age/src/age.rs b/unic/ucd/age/src/age.rs
index a41b5a4..6c599d4 100644
--- a/unic/ucd/age/src/age.rs
+++ b/unic/ucd/age/src/age.rs
@@ -35,7 +35,7 @@ pub use unic_ucd_version::UnicodeVersion;
 /// `UNICODE_VERSION`. (Only not equal when `UNICODE_VERSION` has non-zero *micro* value.)
 ///
 /// * <https://www.unicode.org/reports/tr44/#Character_Age>
-#[derive(Clone, Copy, Eq, PartialEq, Ord, Debug, Hash)]
+#[derive(Clone, Copy, Eq, PartialEq, Debug, Hash)]
 pub struct Age(UnicodeVersion);
 
 impl CharProperty for Age {
@@ -85,11 +85,13 @@ impl Age {
 
 impl cmp::PartialOrd for Age {
     fn partial_cmp(&self, other: &Age) -> Option<cmp::Ordering> {
-        match self.0.cmp(&other.0) {
-            cmp::Ordering::Greater => Some(cmp::Ordering::Less),
-            cmp::Ordering::Less => Some(cmp::Ordering::Greater),
-            cmp::Ordering::Equal => Some(cmp::Ordering::Equal),
-        }
+        Some(self.cmp(other))
+    }
+}
+
+impl cmp::Ord for Age {
+    fn cmp(&self, other: &Age) -> cmp::Ordering {
+        other.0.cmp(&self.0)
     }
 }
 
-- 
2.43.0


From 3f3b89bd022c6c0ade112d1cf64667ac75bbfe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 05/21] fix: StrBidiClass::has_ltr looks for left-to-right
 characters

---
 unic/ucd/bidi/src/bidi_class.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/bidi/src/bidi_class.rs b/unic/ucd/bidi/src/bidi_class.rs
index 5bd3fcf..30595a1 100644
--- a/unic/ucd/bidi/src/bidi_class.rs
+++ b/unic/ucd/bidi/src/bidi_class.rs
@@ -362,7 +362,7 @@ impl StrBidiClass for str {
 
     #[inline]
     fn has_ltr(&self) -> bool {
-        self.chars().any(|ch| ch.is_rtl())
+        self.chars().any(|ch| ch.is_ltr())
     }
 
     #[inline]
-- 
2.43.0


From 634769297f8c794d6431a2745d0c5075aa9622d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:41 +0000
Subject: [PATCH 06/21] fix: word boundaries after ZWJ and emoji, and after
 emoji modifiers

WB3c joins only ZWJ and the emoji after it: what was before the ZWJ (a letter, or a
mid-word character waiting for a letter) no longer counts. WB14 joins one modifier to an
emoji base, not any number of them.
---
 unic/segment/src/word.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 04baca9..4a7e260 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -230,9 +230,21 @@ impl<'a> Iterator for WordBounds<'a> {
             // When prev_zwj is true, for the purposes of WB3c, we are in the Zwj state,
             // however we are in the previous state for the purposes of all other rules.
             if prev_zwj {
-                match cat {
-                    WB::GlueAfterZwj => continue,
-                    WB::EBaseGAZ => {
+                match (cat, state) {
+                    // the mid-word character we are looking beyond is not followed by a
+                    // letter or number (rules WB6, WB7b, WB12)
+                    (WB::GlueAfterZwj, FormatExtend(RequireLetter))
+                    | (WB::GlueAfterZwj, FormatExtend(RequireHLetter))
+                    | (WB::GlueAfterZwj, FormatExtend(RequireNumeric))
+                    | (WB::EBaseGAZ, FormatExtend(RequireLetter))
+                    | (WB::EBaseGAZ, FormatExtend(RequireHLetter))
+                    | (WB::EBaseGAZ, FormatExtend(RequireNumeric)) => break,
+                    // nothing but what WB4 skips can follow
+                    (WB::GlueAfterZwj, _) => {
+                        state = FormatExtend(AcceptNone);
+                        continue;
+                    }
+                    (WB::EBaseGAZ, _) => {
                         state = Emoji;
                         continue;
                     }
@@ -353,7 +365,7 @@ impl<'a> Iterator for WordBounds<'a> {
                 }
                 Emoji => match cat {
                     // rule WB14
-                    WB::EModifier => state,
+                    WB::EModifier => FormatExtend(AcceptNone),
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From 0bf8a99b08ec0eede4e3920fca5489b22c0e6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 07/21] fix: GraphemeCursor::provide_context after a request
 for the preceding character

A cursor that had asked only for the character before it panicked with
"invalid state", and GB9b was applied before controls.
---
 unic/segment/src/grapheme.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 153012b..9e4c27e 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -452,9 +452,14 @@ impl GraphemeCursor {
     pub fn provide_context(&mut self, chunk: &str, chunk_start: usize) {
         assert!(chunk_start + chunk.len() == self.pre_context_offset.unwrap());
         self.pre_context_offset = None;
-        if self.is_extended && chunk_start + chunk.len() == self.offset {
+        if chunk_start + chunk.len() == self.offset {
             let ch = chunk.chars().rev().next().unwrap();
-            if GCB::of(ch) == GCB::Prepend {
+            self.cat_before = Some(GCB::of(ch));
+            if self.state == GraphemeState::Unknown {
+                // The preceding codepoint is all that was missing.
+                return;
+            }
+            if self.is_extended && self.cat_before == Some(GCB::Prepend) {
                 self.decide(false); // GB9b
                 return;
             }
-- 
2.43.0


From 39d05411157e22edf99c54893a43197f50234068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 08/21] fix: GraphemeCursor asks for more context across
 several chunks

handle_regional and handle_emoji did not remember what they were asking for.
---
 unic/segment/src/grapheme.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 9e4c27e..76c259d 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -512,6 +512,7 @@ impl GraphemeCursor {
             return;
         }
         self.pre_context_offset = Some(chunk_start);
+        self.state = GraphemeState::Regional;
     }
 
     fn handle_emoji(&mut self, chunk: &str, chunk_start: usize) {
@@ -533,6 +534,7 @@ impl GraphemeCursor {
             return;
         }
         self.pre_context_offset = Some(chunk_start);
+        self.state = GraphemeState::Emoji;
     }
 
     // TODO(clippy): Fix clippy warning or leave it as allowed if really needed.
-- 
2.43.0


From b1c7db53941bfe3b1edc915961cf82be9a921085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 09/21] fix: GraphemeCursor counted regional indicators twice
 at the start of a chunk

---
 unic/segment/src/grapheme.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 76c259d..110d47f 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -591,7 +591,11 @@ impl GraphemeCursor {
         if self.offset == chunk_start {
             let mut need_pre_context = true;
             match self.cat_after.unwrap() {
-                GCB::RegionalIndicator => self.state = GraphemeState::Regional,
+                GCB::RegionalIndicator => {
+                    self.state = GraphemeState::Regional;
+                    // Count again, from the pre-context.
+                    self.ris_count = None;
+                }
                 GCB::EModifier => self.state = GraphemeState::Emoji,
                 _ => need_pre_context = self.cat_before.is_none(),
             }
-- 
2.43.0


From b3beb7cf94c924eb6e9bbb938a845f1bd387f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 10/21] fix: GraphemeCursor::set_cursor forgets a pending
 request for context

---
 unic/segment/src/grapheme.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 110d47f..53c38f9 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -405,6 +405,8 @@ impl GraphemeCursor {
             self.cat_before = None;
             self.cat_after = None;
             self.ris_count = None;
+            self.pre_context_offset = None;
+            self.resuming = false;
         }
     }
 
-- 
2.43.0


From ed3489e6443623c3590956a5533959a4d9da6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 11/21] fix: GraphemeCursor::prev_boundary at the start of a
 chunk

It panicked on an empty piece, and lost the character after the new position.
---
 unic/segment/src/grapheme.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/unic/segment/src/grapheme.rs b/unic/segment/src/grapheme.rs
index 53c38f9..ec6f753 100644
--- a/unic/segment/src/grapheme.rs
+++ b/unic/segment/src/grapheme.rs
@@ -750,6 +750,9 @@ impl GraphemeCursor {
         if self.offset == 0 {
             return Ok(None);
         }
+        if self.offset == chunk_start {
+            return Err(GraphemeIncomplete::PrevChunk);
+        }
         let mut iter = chunk[..self.offset - chunk_start].chars().rev();
         let mut ch = iter.next().unwrap();
         loop {
@@ -762,6 +765,9 @@ impl GraphemeCursor {
             } else {
                 self.offset -= ch.len_utf8();
                 self.cat_after = self.cat_before.take();
+                if self.cat_after.is_none() {
+                    self.cat_after = Some(GCB::of(ch));
+                }
                 self.state = GraphemeState::Unknown;
                 if let Some(ris_count) = self.ris_count {
                     self.ris_count = if ris_count > 0 {
-- 
2.43.0


From a0260092fc06daec7abba718a5c9515d6c0bf79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 12/21] fix: the short name of Sentence_Break=Extend is EX

---
 unic/ucd/segment/src/sentence_break.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/ucd/segment/src/sentence_break.rs b/unic/ucd/segment/src/sentence_break.rs
index 8f1ffc2..5b622c8 100644
--- a/unic/ucd/segment/src/sentence_break.rs
+++ b/unic/ucd/segment/src/sentence_break.rs
@@ -57,7 +57,7 @@ char_property! {
         /// General_Category = Spacing_Mark
         /// ```
         Extend {
-            abbr => Extend,
+            abbr => EX,
             long => Extend,
             human => "Extend",
         }
-- 
2.43.0


From d3a93b88c3501d2684cfeb4f1181bf8316d825bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:46 +0000
Subject: [PATCH 13/21] fix: deserializing a bidi Level checks its number

---
 unic/bidi/src/level.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/level.rs b/unic/bidi/src/level.rs
index b62e14e..71ddce9 100644
--- a/unic/bidi/src/level.rs
+++ b/unic/bidi/src/level.rs
@@ -32,7 +32,29 @@ use unic_ucd_bidi::BidiClass;
 /// <https://www.unicode.org/reports/tr9/#BD2>
 #[derive(Clone, Copy, Debug, Eq, PartialEq, Ord, PartialOrd, Hash)]
 #[cfg_attr(feature = "serde", derive(Serialize, Deserialize))]
-pub struct Level(u8);
+pub struct Level(
+    #[cfg_attr(
+        feature = "serde",
+        serde(deserialize_with = "deserialize_valid_number")
+    )]
+    u8,
+);
+
+/// Deserialize a level number, fail if it is larger than `max_depth + 1`.
+#[cfg(feature = "serde")]
+fn deserialize_valid_number<'de, D>(deserializer: D) -> Result<u8, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let number = <u8 as serde::Deserialize>::deserialize(deserializer)?;
+    match Level::new(number) {
+        Ok(level) => Ok(level.number()),
+        Err(_) => Err(serde::de::Error::invalid_value(
+            serde::de::Unexpected::Unsigned(u64::from(number)),
+            &"an embedding level number between 0 and 126",
+        )),
+    }
+}
 
 /// LTR level with smallest number value (0).
 pub const LTR_LEVEL: Level = Level(0);
-- 
2.43.0


From 6b4b08406c3d55c719263d209d64e61687148496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 14/21] fix: walking back over words, ZWJ joins nothing before
 a plain E_Base

---
 unic/segment/src/word.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unic/segment/src/word.rs b/unic/segment/src/word.rs
index 4a7e260..1b3fb9e 100644
--- a/unic/segment/src/word.rs
+++ b/unic/segment/src/word.rs
@@ -592,7 +592,8 @@ impl<'a> DoubleEndedIterator for WordBounds<'a> {
                 },
                 Emoji => match cat {
                     // rule WB14
-                    WB::EBase | WB::EBaseGAZ => Zwj,
+                    WB::EBaseGAZ => Zwj,
+                    WB::EBase => break, // nothing joins before a plain E_Base
                     _ => {
                         take_curr = false;
                         break;
-- 
2.43.0


From c31302765a017e7ac3aea296a199f714debb14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:10 +0000
Subject: [PATCH 15/21] fix: Punycode decoding fails on non-basic code points
 before the delimiter

---
 unic/idna/punycode/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index 096e94d..d0b838b 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -75,6 +75,7 @@ pub fn decode(input: &str) -> Option<Vec<char>> {
     // They are encoded as-is before the last delimiter, if any.
     let (mut output, input) = match input.rfind(DELIMITER) {
         None => (Vec::new(), input),
+        Some(position) if !input[..position].is_ascii() => return None,
         Some(position) => (
             input[..position].chars().collect(),
             if position > 0 {
-- 
2.43.0


From a1fca2dfe966b9d5c614b0bf6b1da77d2c8cad0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 16/21] fix: Punycode encoding returns None when the delta
 overflows, also in debug builds

---
 unic/idna/punycode/src/lib.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/unic/idna/punycode/src/lib.rs b/unic/idna/punycode/src/lib.rs
index d0b838b..ea201b6 100644
--- a/unic/idna/punycode/src/lib.rs
+++ b/unic/idna/punycode/src/lib.rs
@@ -196,10 +196,10 @@ pub fn encode(input: &[char]) -> Option<String> {
         for &c in input {
             let c = c as u32;
             if c < code_point {
-                delta += 1;
-                if delta == 0 {
-                    return None; // Overflow
-                }
+                delta = match delta.checked_add(1) {
+                    Some(delta) => delta,
+                    None => return None, // Overflow
+                };
             }
             if c == code_point {
                 // Represent delta as a generalized variable-length integer:
@@ -227,7 +227,10 @@ pub fn encode(input: &[char]) -> Option<String> {
                 processed += 1;
             }
         }
-        delta += 1;
+        delta = match delta.checked_add(1) {
+            Some(delta) => delta,
+            None => return None, // Overflow
+        };
         code_point += 1;
     }
     Some(output)
-- 
2.43.0


From 924ec9b8ce993ec893f87c865c1791902ef84cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 17/21] fix: IDNA looks for right-to-left characters in the
 mapped name

---
 unic/idna/src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 37074f9..709638d 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -224,7 +224,7 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
     // Find out if it's a Bidi Domain Name
     //
     // First, check for literal bidi chars
-    let mut is_bidi_domain = domain
+    let mut is_bidi_domain = normalized
         .chars()
         .any(|c| matches!(BidiClass::of(c), R | AL | AN));
     if !is_bidi_domain {
-- 
2.43.0


From 90f2be84022742a17cc2559c97fd18cc0de6b595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 18/21] fix: IDNA processing keeps a label that is not valid
 Punycode

---
 unic/idna/src/process.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index 709638d..c98583f 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -265,7 +265,10 @@ fn processing(domain: &str, flags: Flags, errors: &mut Vec<Error>) -> String {
                     validate(&decoded_label, is_bidi_domain, flags, errors);
                     validated.push_str(&decoded_label)
                 }
-                None => errors.push(Error::PunycodeError),
+                None => {
+                    errors.push(Error::PunycodeError);
+                    validated.push_str(label)
+                }
             }
         } else {
             validate(label, is_bidi_domain, flags, errors);
-- 
2.43.0


From 35da4223f26f6c3f42df03612d5d34d450b775ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 19/21] fix: IDNA leaves a character disallowed by the STD3
 rules unchanged

---
 unic/idna/src/process.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/unic/idna/src/process.rs b/unic/idna/src/process.rs
index c98583f..96d4e21 100644
--- a/unic/idna/src/process.rs
+++ b/unic/idna/src/process.rs
@@ -44,8 +44,10 @@ fn map_char(codepoint: char, flags: Flags, output: &mut String, errors: &mut Vec
         Mapping::DisallowedStd3Mapped(slice) => {
             if flags.use_std3_ascii_rules {
                 errors.push(Error::DissallowedMappedInStd3);
+                output.push(codepoint)
+            } else {
+                output.push_str(slice)
             }
-            output.push_str(slice)
         }
     }
 }
-- 
2.43.0


From 4ba327d348cc1fb6ac4fd45c310cba6f807d3ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 20/21] fix: bidi lines that do not start the text get L1 and
 L2 for the line itself

visual_runs looked up the classes and reset the levels of a line at offsets
from the start of the text, and reordered by the levels before the reset.
---
 unic/bidi/src/bidi_info.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index c35c281..16ed2b2 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -295,7 +295,7 @@ impl<'text> BidiInfo<'text> {
         let mut reset_from: Option<usize> = Some(0);
         let mut reset_to: Option<usize> = None;
         for (i, c) in line_str.char_indices() {
-            match self.original_classes[i] {
+            match self.original_classes[line.start + i] {
                 // Ignored by X9
                 RLE | LRE | RLO | LRO | PDF | BN => {}
                 // Segment separator, Paragraph separator
@@ -318,7 +318,7 @@ impl<'text> BidiInfo<'text> {
             }
             if let (Some(from), Some(to)) = (reset_from, reset_to) {
                 for j in from..to {
-                    levels[j] = para.level;
+                    levels[line.start + j] = para.level;
                 }
                 reset_from = None;
                 reset_to = None;
@@ -326,7 +326,7 @@ impl<'text> BidiInfo<'text> {
         }
         if let Some(from) = reset_from {
             for j in from..line_str.len() {
-                levels[j] = para.level;
+                levels[line.start + j] = para.level;
             }
         }
 
@@ -363,7 +363,7 @@ impl<'text> BidiInfo<'text> {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
             let mut seq_start = 0;
             while seq_start < run_count {
-                if self.levels[runs[seq_start].start] < max_level {
+                if levels[runs[seq_start].start] < max_level {
                     seq_start += 1;
                     continue;
                 }
@@ -371,7 +371,7 @@ impl<'text> BidiInfo<'text> {
                 // Found the start of a sequence. Now find the end.
                 let mut seq_end = seq_start + 1;
                 while seq_end < run_count {
-                    if self.levels[runs[seq_end].start] < max_level {
+                    if levels[runs[seq_end].start] < max_level {
                         break;
                     }
                     seq_end += 1;
-- 
2.43.0


From e976a61cde4c0da2290d0930fd00ee3c129ef3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:42 +0000
Subject: [PATCH 21/21] fix: visual_runs of an empty line at the end, and of a
 line all at level 126

Both panicked (index out of bounds; "Level error").
---
 unic/bidi/src/bidi_info.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/unic/bidi/src/bidi_info.rs b/unic/bidi/src/bidi_info.rs
index 16ed2b2..2df2159 100644
--- a/unic/bidi/src/bidi_info.rs
+++ b/unic/bidi/src/bidi_info.rs
@@ -332,6 +332,10 @@ impl<'text> BidiInfo<'text> {
 
         // Find consecutive level runs.
         let mut runs = Vec::new();
+        if line.start == levels.len() {
+            // An empty line at the end of the text
+            return (levels, runs);
+        }
         let mut start = line.start;
         let mut level = levels[start];
         let mut min_level = level;
@@ -357,7 +361,11 @@ impl<'text> BidiInfo<'text> {
         // <https://www.unicode.org/reports/tr9/#L2>
 
         // Stop at the lowest *odd* level.
-        min_level = min_level.new_lowest_ge_rtl().expect("Level error");
+        min_level = match min_level.new_lowest_ge_rtl() {
+            Ok(level) => level,
+            // All of the line is at the maximum level, which is even
+            Err(_) => return (levels, runs),
+        };
 
         while max_level >= min_level {
             // Look for the start of a sequence of consecutive runs of max_level or higher.
-- 
2.43.0

