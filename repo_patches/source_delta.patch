From 05bf6f4878cabfb904884200dbafa1619ec7869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 01/23] fix: keep the patterns already below a trie entry when
 another one is inserted

---
 src/matcher/trie/node/interface.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matcher/trie/node/interface.rs b/src/matcher/trie/node/interface.rs
index 321dcdd..17dbbee 100644
--- a/src/matcher/trie/node/interface.rs
+++ b/src/matcher/trie/node/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::ST::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::ST::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From 8e03e8742dec0653ddac377d37e9c6a6b5a4d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 02/23] fix: keep the patterns already below a suffix array
 entry when another one is inserted

---
 src/matcher/suffix_array/interface.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matcher/suffix_array/interface.rs b/src/matcher/suffix_array/interface.rs
index 3d74608..0ed5966 100644
--- a/src/matcher/suffix_array/interface.rs
+++ b/src/matcher/suffix_array/interface.rs
@@ -18,8 +18,10 @@ pub trait Entry {
         if pattern.pattern().is_empty() {
             self.set_pattern(Some(pattern));
         } else {
-            let sa = Self::SA::new();
-            self.set_child(Some(sa));
+            if self.child().is_none() {
+                let sa = Self::SA::new();
+                self.set_child(Some(sa));
+            }
             self.child_mut().expect("Failed to get a child").insert(pattern);
         }
     }
-- 
2.43.0


From 437682285a4889f4e0880db5b2685589a2864d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 03/23] fix: compare literals by their first character, which
 may be a multi-byte one

---
 src/matcher/trie/node/literal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/literal.rs b/src/matcher/trie/node/literal.rs
index 292cd39..f41ab01 100644
--- a/src/matcher/trie/node/literal.rs
+++ b/src/matcher/trie/node/literal.rs
@@ -56,7 +56,7 @@ impl LiteralNode {
         } else if other.is_empty() {
             Ordering::Greater
         } else {
-            self.literal[0..1].cmp(&other[0..1])
+            self.literal.chars().next().cmp(&other.chars().next())
         }
     }
 
-- 
2.43.0


From 32d835202e0a00daf19c95896d653f3ec20be7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:44 +0000
Subject: [PATCH 04/23] fix: SET works on characters, not on the bytes of
 multi-byte characters

---
 src/parsers/set.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/parsers/set.rs b/src/parsers/set.rs
index 80f84b7..ce17dbf 100644
--- a/src/parsers/set.rs
+++ b/src/parsers/set.rs
@@ -7,7 +7,7 @@ use parsers::{Parser, ObjectSafeHash, ParseResult, ParserBase, HasLengthConstrai
 #[derive(Clone, Debug, Hash)]
 pub struct SetParser {
     base: ParserBase,
-    character_set: BTreeSet<u8>,
+    character_set: BTreeSet<char>,
     min_length: Option<usize>,
     max_length: Option<usize>,
 }
@@ -39,23 +39,26 @@ impl SetParser {
         self.character_set = SetParser::create_set_from_str(set);
     }
 
-    fn create_set_from_str(set: &str) -> BTreeSet<u8> {
-        let vset: Vec<u8> = set.bytes().collect();
+    fn create_set_from_str(set: &str) -> BTreeSet<char> {
+        let vset: Vec<char> = set.chars().collect();
         BTreeSet::from_iter(vset)
     }
 
-    fn calculate_match_length(&self, value: &str) -> usize {
+    // the length of the match in characters and in bytes
+    fn calculate_match_length(&self, value: &str) -> (usize, usize) {
         let mut match_len = 0;
+        let mut byte_len = 0;
 
-        for c in value.bytes() {
+        for c in value.chars() {
             if self.character_set.contains(&c) {
                 match_len += 1;
+                byte_len += c.len_utf8();
             } else {
                 break;
             }
         }
 
-        match_len
+        (match_len, byte_len)
     }
 }
 
@@ -76,10 +79,10 @@ impl HasLengthConstraint for SetParser {
 
 impl Parser for SetParser {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<ParseResult<'a, 'b>> {
-        let match_len = self.calculate_match_length(value);
+        let (match_len, byte_len) = self.calculate_match_length(value);
 
         if self.is_match_length_ok(match_len) {
-            Some(ParseResult::new(self, &value[..match_len]))
+            Some(ParseResult::new(self, &value[..byte_len]))
         } else {
             None
         }
-- 
2.43.0


From 9c2231a598816b1dc8151bb663ebb83e84a2dd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:51 +0000
Subject: [PATCH 05/23] fix: report a too big length limit in a pattern as a
 parse error instead of panicking

---
 src/grammar/parser/pattern.rustpeg   |  2 +-
 src/grammar/parser/pattern_parser.rs | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index 98a6b33..f411634 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -102,4 +102,4 @@ all_chars_until_quotation_mark -> &'input str
 comma = "," " "*
 
 int -> usize
-  = [0-9]+ { usize::from_str(match_str).ok().unwrap() }
+  = [0-9]+ {? usize::from_str(match_str).map_err(|_| "integer") }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index b51f65a..a663631 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -1187,9 +1187,13 @@ fn parse_int<'input, F: ParserFactory>(input: &'input str,
                 Matched(pos, _) => {
                     {
                         let match_str = &input[start_pos..pos];
-                        Matched(pos, {
-                            usize::from_str(match_str).ok().unwrap()
-                        })
+                        match usize::from_str(match_str) {
+                            Ok(value) => Matched(pos, value),
+                            Err(_) => {
+                                state.mark_failure(pos, "integer");
+                                Failed
+                            }
+                        }
                     }
                 }
                 Failed => Failed,
-- 
2.43.0


From 53b9ef91135b002b7a01ad82ebf6fb0512480a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:52 +0000
Subject: [PATCH 06/23] fix: unescape the end string of GREEDY like any other
 literal

---
 src/grammar/parser/pattern.rustpeg   | 4 ++--
 src/grammar/parser/pattern_parser.rs | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/grammar/parser/pattern.rustpeg b/src/grammar/parser/pattern.rustpeg
index f411634..7135046 100644
--- a/src/grammar/parser/pattern.rustpeg
+++ b/src/grammar/parser/pattern.rustpeg
@@ -52,9 +52,9 @@ parser_INT_optional_params -> Vec<OptionalParameter<'input>>
 parser_GREEDY -> Vec<TokenType>
   = PARSER_BEGIN GREEDY name:parser_name? PARSER_END end_string:literal? {
     let mut tokens = Vec::new();
-    let parser = F::new_greedy(name, end_string);
+    let end_string = end_string.map(grammar::unescape_literal);
+    let parser = F::new_greedy(name, end_string.as_ref().map(|string| &string[..]));
     tokens.push(TokenType::Parser(parser));
-    let end_string = end_string.map(|string| string.to_string());
     if let Some(end_string) = end_string {
       tokens.push(TokenType::Literal(end_string));
     }
diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index a663631..9b9fea1 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -598,13 +598,13 @@ fn parse_parser_GREEDY<'input, F: ParserFactory>(input: &'input str,
                                                                                 {
                                                                                     let mut tokens =
                                                                                         Vec::new();
+                                                                                    let end_string =
+                                                                                        end_string.map(grammar::unescape_literal);
                                                                                     let parser =
                                                                                         F::new_greedy(name,
-                                                                                                      end_string);
+                                                                                                      end_string.as_ref()
+                                                                                                                .map(|string| &string[..]));
                                                                                     tokens.push(TokenType::Parser(parser));
-                                                                                    let end_string =
-                                                                                        end_string.map(|string|
-                                                                                                           string.to_owned());
                                                                                     if let Some(end_string)
                                                                                            =
                                                                                            end_string
-- 
2.43.0


From 75e8e45e4eff17571821fb96a393747af389209f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:53 +0000
Subject: [PATCH 07/23] fix: compute the position of a parse error correctly in
 patterns with CRLF line ends

---
 src/grammar/parser/pattern_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grammar/parser/pattern_parser.rs b/src/grammar/parser/pattern_parser.rs
index 9b9fea1..68dd0ce 100644
--- a/src/grammar/parser/pattern_parser.rs
+++ b/src/grammar/parser/pattern_parser.rs
@@ -93,7 +93,7 @@ fn any_char(input: &str, state: &mut ParseState, pos: usize) -> RuleResult<()> {
 fn pos_to_line(input: &str, pos: usize) -> (usize, usize) {
     let mut remaining = pos;
     let mut lineno: usize = 1;
-    for line in input.lines() {
+    for line in input.split('\n') {
         let line_length = line.len() + 1;
         if remaining < line_length {
             return (lineno, remaining + 1);
-- 
2.43.0


From 7f35d91dedf3361f2dbc69753cd64931e60094f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:53 +0000
Subject: [PATCH 08/23] fix: match the pattern ending at a trie parser that
 other patterns continue

---
 src/matcher/trie/node/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 52b1def..3796144 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -39,10 +39,10 @@ impl ParserNode {
             let text = text.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern.is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
@@ -90,10 +90,10 @@ impl ParserEntry for ParserNode {
             let text = value.ltrunc(parsed_kwpair.value().len());
 
             return match self.node() {
-                Some(node) => {
+                Some(node) if !(text.is_empty() && self.pattern.is_some()) => {
                     node.parse_then_push_kvpair(text, parsed_kwpair)
                 }
-                None => {
+                _ => {
                     self.push_last_kvpair(text, parsed_kwpair)
                 }
             };
-- 
2.43.0


From 1c73c6f493dc2e0bd1d76dc0568b59c3efe31b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:54 +0000
Subject: [PATCH 09/23] fix: match the pattern ending at a suffix array parser
 that other patterns continue

---
 src/matcher/suffix_array/impls.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 6c0a378..87c40f2 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -187,16 +187,19 @@ impl ParserEntry for ParserE {
         self.parser.parse(value).and_then(|kvpair| {
             let value = value.ltrunc(kvpair.value().len());
 
-            if let Some(child) = self.child() {
-                child.parse(value).and_then(|mut result| {
-                    result.insert(kvpair);
-                    Some(result)
-                })
-            } else {
-                if value.is_empty() {
-                    self.create_match_result(kvpair)
-                } else {
-                    None
+            match self.child() {
+                Some(child) if !(value.is_empty() && self.pattern().is_some()) => {
+                    child.parse(value).and_then(|mut result| {
+                        result.insert(kvpair);
+                        Some(result)
+                    })
+                }
+                _ => {
+                    if value.is_empty() {
+                        self.create_match_result(kvpair)
+                    } else {
+                        None
+                    }
                 }
             }
         })
-- 
2.43.0


From 3fed8a0e4ed42faf918a5e9168cb841c91a6d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:54 +0000
Subject: [PATCH 10/23] fix: try every pattern of the trie which may fit the
 message

---
 src/matcher/trie/node/mod.rs | 50 ++++++++++++++++++++++++++----------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/matcher/trie/node/mod.rs b/src/matcher/trie/node/mod.rs
index e6c0a51..62f9ea4 100644
--- a/src/matcher/trie/node/mod.rs
+++ b/src/matcher/trie/node/mod.rs
@@ -160,31 +160,53 @@ impl SuffixTree {
 
     pub fn parse<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
         trace!("parse(): text = {}", text);
-        match self.lookup_literal(text) {
-            Ok((node, pos)) => {
-                trace!("{:?}", node);
-                let child = node.literal_children
+        self.parse_with_literals(text)
+            .or_else(|| self.parse_with_parsers(text))
+            .or_else(|| self.parse_after_empty_literal(text))
+    }
+
+    fn parse_with_literals<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        match self.search(text) {
+            LiteralLookupResult::Found(pos) => {
+                let child = self.literal_children
                                 .get(pos)
                                 .expect("Failed to get a looked up child");
-                SuffixTree::create_match_result_if_child_is_leaf(child)
+                SuffixTree::create_match_result_at_end_of_message(child)
             }
-            Err((node, remaining_len)) => {
-                let text = text.ltrunc(text.len() - remaining_len);
-                trace!("parse(): text = {}", text);
-                trace!("parse(): #parser_children = {}", node.parser_children.len());
-                node.parse_with_parsers(text)
+            LiteralLookupResult::GoDown(pos, text) => {
+                self.literal_children
+                    .get(pos)
+                    .and_then(|child| child.node())
+                    .and_then(|node| node.parse(text))
             }
+            LiteralLookupResult::NotFound => None,
         }
     }
 
-    fn create_match_result_if_child_is_leaf<'a, 'b>(child: &'a LiteralNode)
-                                                    -> Option<MatchResult<'a, 'b>> {
+    fn create_match_result_at_end_of_message<'a, 'b>(child: &'a LiteralNode)
+                                                     -> Option<MatchResult<'a, 'b>> {
         if let Some(pattern) = child.pattern() {
             let result = MatchResult::new(pattern);
             Some(result)
         } else {
-            info!("Early matching message: the message was too short to reach a leaf");
-            None
+            // only parsers which match the empty string can follow
+            child.node().and_then(|node| node.parse(""))
+        }
+    }
+
+    // A literal which ends where an other one was split is stored as an empty literal
+    fn parse_after_empty_literal<'a, 'b>(&'a self, text: &'b str) -> Option<MatchResult<'a, 'b>> {
+        if text.is_empty() {
+            return None;
+        }
+        match self.search("") {
+            LiteralLookupResult::Found(pos) => {
+                self.literal_children
+                    .get(pos)
+                    .and_then(|child| child.node())
+                    .and_then(|node| node.parse(text))
+            }
+            _ => None,
         }
     }
 
-- 
2.43.0


From a4676b8eba785e2d70f94f9c997d0755a9c85cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:55 +0000
Subject: [PATCH 11/23] fix: try every pattern of the suffix array which may
 fit the message

---
 src/matcher/suffix_array/impls.rs | 49 +++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/src/matcher/suffix_array/impls.rs b/src/matcher/suffix_array/impls.rs
index 87c40f2..17ba712 100644
--- a/src/matcher/suffix_array/impls.rs
+++ b/src/matcher/suffix_array/impls.rs
@@ -60,6 +60,33 @@ impl SuffixTable {
         }
     }
 
+    // the number of entries which are not ordered after the value
+    fn number_of_literals_up_to(&self, value: &str) -> usize {
+        match self.literal_entries.binary_search_by(|probe| probe.literal()[..].cmp(value)) {
+            Ok(pos) => pos + 1,
+            Err(pos) => pos
+        }
+    }
+
+    // Tries the literals which are prefixes of the value, the longest one first
+    fn parse_with_literals<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        let mut remaining = self.number_of_literals_up_to(value);
+        while remaining > 0 {
+            let entry = &self.literal_entries[remaining - 1];
+            let common_prefix_len = entry.literal().common_prefix_len(value);
+
+            if common_prefix_len == entry.literal().len() {
+                if let Some(result) = entry.parse(value.ltrunc(common_prefix_len)) {
+                    return Some(result);
+                }
+                remaining -= 1;
+            } else {
+                remaining = self.number_of_literals_up_to(&value[..common_prefix_len]);
+            }
+        }
+        None
+    }
+
     fn parse_with_parsers<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
         for parser in &self.parser_entries {
             if let Some(result) = parser.parse(value) {
@@ -221,6 +248,14 @@ impl LiteralE {
             child: None
         }
     }
+
+    // the value is what remains after the literal
+    fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
+        match self.pattern() {
+            Some(pattern) if value.is_empty() => Some(MatchResult::new(pattern)),
+            _ => self.child().and_then(|child| child.parse(value))
+        }
+    }
 }
 
 impl Entry for LiteralE {
@@ -250,19 +285,7 @@ impl LiteralEntry for LiteralE {
 
 impl Matcher for SuffixTable {
     fn parse<'a, 'b>(&'a self, value: &'b str) -> Option<MatchResult<'a, 'b>> {
-        if let Some(child) = self.longest_common_prefix(value) {
-            let common_prefix_len = child.literal().common_prefix_len(value);
-            if common_prefix_len == value.len() {
-                child.pattern().and_then(|pattern| Some(MatchResult::new(pattern)))
-            } else if common_prefix_len < value.len() {
-                let value = value.ltrunc(common_prefix_len);
-                child.child().and_then(|child| child.parse(value))
-            } else {
-                None
-            }
-        } else {
-            self.parse_with_parsers(value)
-        }
+        self.parse_with_literals(value).or_else(|| self.parse_with_parsers(value))
     }
     fn add_pattern(&mut self, pattern: Pattern) {
         self.insert(pattern);
-- 
2.43.0


From 1eaf548076591fdfa4f51e35b00b4434e0899e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:55 +0000
Subject: [PATCH 12/23] fix: report when a pattern file cannot be read

---
 src/matcher/pattern_loader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d3076f8..d57c2fb 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -17,7 +17,7 @@ impl PatternLoader {
     {
         let mut buffer = String::new();
         let mut file = try!(File::open(pattern_file_path));
-        let _ = file.read_to_string(&mut buffer);
+        try!(file.read_to_string(&mut buffer));
         Ok(buffer)
     }
 
-- 
2.43.0


From bbe1f3a2257fe5443863acf359e86467bcbc388c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:56 +0000
Subject: [PATCH 13/23] fix: name the uuid field when it is missing from a
 pattern

---
 src/matcher/pattern/deser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index 66cb75f..ba129e2 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -99,7 +99,7 @@ impl serde::de::Visitor for PatternVisitor {
             }
         };
 
-        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("pattern")));
+        let uuid = try!(uuid.ok_or(serde::de::Error::missing_field("uuid")));
 
         try!(visitor.end());
 
-- 
2.43.0


From 31adf629aa3a22f2361723a50b0bbc4a7c0a4d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:56 +0000
Subject: [PATCH 14/23] fix: accept an empty list of expected tags for a
 pattern without tags

---
 src/matcher/pattern/testmessage/message.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/matcher/pattern/testmessage/message.rs b/src/matcher/pattern/testmessage/message.rs
index 7b912a9..e605fb1 100644
--- a/src/matcher/pattern/testmessage/message.rs
+++ b/src/matcher/pattern/testmessage/message.rs
@@ -83,13 +83,10 @@ impl TestMessage {
 
     fn test_tags(&self, result: &MatchResult) -> Result<(), Error> {
         if let Some(expected_tags) = self.tags() {
-            if let Some(got_tags) = result.pattern().tags() {
-                try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
-                                                                      got_tags,
-                                                                      result));
-            } else {
-                return Err(self.report_unexpected_tags_error(result));
-            }
+            let got_tags = result.pattern().tags().unwrap_or(&[]);
+            try!(self.test_expected_tags_can_be_found_in_got_tags(expected_tags,
+                                                                  got_tags,
+                                                                  result));
         }
         Ok(())
     }
-- 
2.43.0


From 157031eecd5cb108ddb818c47d009c41f52b3322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 15/23] fix: pdb2adb: write no null for the values of an
 example without test values

---
 utils/pdb2adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index decf658..00298ee 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -239,7 +239,7 @@ sub _test_messages {
 		$adbtm .= $example -> {test_message};
 		push @out, {
 			message => $adbtm,
-			values => $example -> {test_values}
+			values => $example -> {test_values} || {}
 		};
 	}
 	return @out
-- 
2.43.0


From 777294bd8a34dc748e69f70105d88c90e178ed0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 16/23] fix: pdb2adb: convert patterns with an escaped @

---
 utils/pdb2adb | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 00298ee..8c7d79f 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -247,30 +247,19 @@ sub _test_messages {
 
 sub _p2p {
 	#my @pattern = split /(?<!@)(@)(?!@)/, $_[0];
-	my @pattern = split /(@)/, $_[0];
+	my @pattern = split /(@@|@[^@]+@?)/, $_[0];
 	my @out;
-	my $is_pattern = 0;
 	for my $p (@pattern) {
-		if ($p eq '@') {
-			if ($is_pattern) {
-				$is_pattern = 0;
-				next
+		if ($p =~ /^@([^@]+)/) {
+			my $parser = $1;
+			if (_validate_pattern($parser)) {
+				push @out, _validate_pattern($parser);
 			} else {
-				$is_pattern = 1;
-				next
+				warn "unsupported `$parser`\n";
+				return;
 			}
 		} else {
-			if ($is_pattern) {
-				if (_validate_pattern($p)) {
-					push @out, _validate_pattern($p);
-				} else {
-					warn "unsupported `$p`\n";
-					return;
-				}
-			} else {
-				push @out, _unescape_pattern($p);
-				next
-			}
+			push @out, _unescape_pattern($p);
 		}
 	}
 	return join ("", @out)
-- 
2.43.0


From f81dd485bdaf43b80fb34284b1ade08832fc4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 17/23] fix: pdb2adb: keep colons in the options of a parser

---
 utils/pdb2adb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 8c7d79f..232c0f0 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -271,15 +271,13 @@ sub _unescape_pattern {
 }
 
 sub _validate_pattern {
-	my ($type,$key,$opt) = split(/:/,$_[0]);
+	my ($type,$key,$opt) = split(/:/,$_[0],3);
 	$key ||= "pdb2adb2ignore";
 	$type ||= "";
 	for ($type) {
 		if (/^$/) {
 			return "";
 		} elsif (/^ESTRING$/) {
-			# ugly hack to detect ESTRING:foo::
-			$opt = ":" if (substr($_[0],-2) eq "::");
 			return "%{GREEDY:$key}$opt";
 		} elsif (/QSTRING/) {
 			my $a = substr($opt,0,1);
-- 
2.43.0


From 17e2bf55cf9f3857536885c68282ae5d353ecfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 18/23] fix: pdb2adb: escape literal text which looks like the
 start of a parser

---
 utils/pdb2adb | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 232c0f0..1a319c5 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -267,6 +267,11 @@ sub _p2p {
 
 sub _unescape_pattern {
 	(my $out = shift) =~ s/@@/@/g;
+	return _escape_literal($out);
+}
+
+sub _escape_literal {
+	(my $out = shift) =~ s/%\{/\\%\\{/g;
 	return $out;
 }
 
@@ -278,7 +283,7 @@ sub _validate_pattern {
 		if (/^$/) {
 			return "";
 		} elsif (/^ESTRING$/) {
-			return "%{GREEDY:$key}$opt";
+			return "%{GREEDY:$key}" . _escape_literal($opt);
 		} elsif (/QSTRING/) {
 			my $a = substr($opt,0,1);
 			my $b;
-- 
2.43.0


From e5ed4bccd11d1c59d66b5f4c59539b5c1f985376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:59 +0000
Subject: [PATCH 19/23] fix: pdb2adb: keep the pattern 0

---
 utils/pdb2adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/pdb2adb b/utils/pdb2adb
index 1a319c5..0c61fb5 100755
--- a/utils/pdb2adb
+++ b/utils/pdb2adb
@@ -218,7 +218,7 @@ if ($opt -> patterns) {
 				test_messages => \@test_messages,
 				%extra_values,
 				%extra_tags,
-			} if _p2p($pattern);
+			} if length _p2p($pattern);
 			$pattern_uuid = $ug->create();
 			$pattern_uuid = $ug -> to_string($pattern_uuid);
 		}
-- 
2.43.0


From 4d1c5755a8f2725ac5d96fb7616656c8f848fcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 20/23] fix: reject a uuid with a wrong number of hyphens
 instead of panicking

---
 src/matcher/pattern/deser.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/matcher/pattern/deser.rs b/src/matcher/pattern/deser.rs
index ba129e2..b094aad 100644
--- a/src/matcher/pattern/deser.rs
+++ b/src/matcher/pattern/deser.rs
@@ -51,6 +51,35 @@ impl serde::Deserialize for Field {
     }
 }
 
+struct PatternUuid(Uuid);
+
+impl serde::Deserialize for PatternUuid {
+    fn deserialize<D>(deserializer: &mut D) -> Result<PatternUuid, D::Error>
+        where D: serde::de::Deserializer
+    {
+        struct PatternUuidVisitor;
+
+        impl serde::de::Visitor for PatternUuidVisitor {
+            type Value = PatternUuid;
+
+            fn visit_str<E>(&mut self, value: &str) -> Result<PatternUuid, E>
+                where E: serde::de::Error
+            {
+                // Uuid::parse_str() may panic unless there are no or all four hyphens
+                match value.matches('-').count() {
+                    0 | 4 => {
+                        Uuid::parse_str(value)
+                            .map(PatternUuid)
+                            .map_err(|err| serde::de::Error::custom(err.to_string()))
+                    }
+                    _ => Err(serde::de::Error::custom(format!("Invalid UUID: {}", value))),
+                }
+            }
+        }
+
+        deserializer.deserialize(PatternUuidVisitor)
+    }
+}
 
 struct PatternVisitor;
 
@@ -70,7 +99,10 @@ impl serde::de::Visitor for PatternVisitor {
         while let Some(field) = try!(visitor.visit_key()) {
             match field {
                 Field::NAME => name = Some(try!(visitor.visit_value())),
-                Field::UUID => uuid = Some(try!(visitor.visit_value())),
+                Field::UUID => {
+                    let PatternUuid(value) = try!(visitor.visit_value());
+                    uuid = Some(value);
+                }
                 Field::PATTERN => pattern = Some(try!(visitor.visit_value())),
                 Field::VALUES => values = Some(try!(visitor.visit_value())),
                 Field::TAGS => tags = Some(try!(visitor.visit_value())),
-- 
2.43.0


From c5fee52b62d9b32720843af6ecf1db77a3121258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:53 +0000
Subject: [PATCH 21/23] fix: load YAML pattern files with escaped CRLF line
 breaks

---
 src/matcher/pattern_loader.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index d57c2fb..645aada 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -48,6 +48,8 @@ impl PatternLoader {
                     },
                     "yaml" | "yml" | "YAML" | "YML" => {
                         let content = try!(PatternLoader::read(pattern_file_path));
+                        // the YAML scanner panics on an escaped CRLF
+                        let content = content.replace("\r\n", "\n");
                         let file = try!(serde_yaml::from_str::<PatternFile>(&content));
                         Ok(file)
                     },
-- 
2.43.0


From c436324cf86f5c91b937a101ee0116da401154d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 22/23] fix: report YAML documents the parser panics on as an
 error

---
 src/matcher/pattern_loader.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/matcher/pattern_loader.rs b/src/matcher/pattern_loader.rs
index 645aada..ca35ef2 100644
--- a/src/matcher/pattern_loader.rs
+++ b/src/matcher/pattern_loader.rs
@@ -3,6 +3,7 @@ use matcher::BuildError;
 use matcher::MatcherFactory;
 use matcher::FromPatternSource;
 
+use std::panic;
 use std::path;
 use std::fs::File;
 use std::io::Read;
@@ -21,6 +22,18 @@ impl PatternLoader {
         Ok(buffer)
     }
 
+    fn parse_yaml(content: &str) -> Result<PatternFile, BuildError>
+    {
+        // the YAML parser panics on some malformed documents
+        match panic::catch_unwind(|| serde_yaml::from_str::<PatternFile>(content)) {
+            Ok(result) => Ok(try!(result)),
+            Err(_) => {
+                let error = serde_yaml::Error::Custom("malformed YAML document".to_owned());
+                Err(BuildError::from(error))
+            }
+        }
+    }
+
     pub fn from_file_ignore_errors<F>(pattern_file_path: &str) -> Result<F::Matcher, BuildError>
         where F: MatcherFactory
     {
@@ -50,7 +63,7 @@ impl PatternLoader {
                         let content = try!(PatternLoader::read(pattern_file_path));
                         // the YAML scanner panics on an escaped CRLF
                         let content = content.replace("\r\n", "\n");
-                        let file = try!(serde_yaml::from_str::<PatternFile>(&content));
+                        let file = try!(PatternLoader::parse_yaml(&content));
                         Ok(file)
                     },
                     _ => Err(BuildError::UnsupportedFileExtension),
-- 
2.43.0


From 56fe1e0d1023b03b52af8a71634991d427e6f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:09 +0000
Subject: [PATCH 23/23] fix: a trie parser node without a pattern matches
 nothing instead of panicking

---
 src/matcher/trie/node/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matcher/trie/node/parser.rs b/src/matcher/trie/node/parser.rs
index 3796144..47455e4 100644
--- a/src/matcher/trie/node/parser.rs
+++ b/src/matcher/trie/node/parser.rs
@@ -55,7 +55,7 @@ impl ParserNode {
                                 kvpair: ParseResult<'a, 'b>)
                                 -> Option<MatchResult<'a, 'b>> {
         if text.is_empty() {
-            let mut result = MatchResult::new(self.pattern().unwrap());
+            let mut result = MatchResult::new(self.pattern()?);
             result.insert(kvpair);
             Some(result)
         } else {
-- 
2.43.0

