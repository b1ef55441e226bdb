From bc8088119b37c1b0b4ed7d25d3fd719d39ad77a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:56 +0000
Subject: [PATCH 01/10] fix: ignore commas at the end of a pause-free run

"mibroda," was one unrecognised word instead of mi broda, and "djan,"
was not a name: the rules need to see the end of the word, but only the
last remainder was trimmed, after the analysis.
---
 src/decompose/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index e127d8c..724f875 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -62,6 +62,9 @@ fn post_word(input: &str) -> bool {
 }
 
 fn decompose_single(input: &str) -> Vec<Span> {
+	// commas are insignificant, but trailing ones would otherwise keep the rules from seeing the end of the word.
+	let input = input.trim_end_matches(',');
+
 	let to_span = |slice| Span::from_embedded_slice(input.as_ptr(), slice);
 
 	if simple_cmevla_check(input) {
@@ -92,7 +95,6 @@ fn decompose_single(input: &str) -> Vec<Span> {
 		}
 	}
 
-	rest = rest.trim_end_matches(',');
 	if !rest.is_empty() {
 		chunks.push(to_span(rest));
 	}
-- 
2.43.0


From 765767922a8f2f14a7f82a6a0225256042040da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:41 +0000
Subject: [PATCH 02/10] fix: parse empty delimited quotes and check quote
 delimiters

The lexer emits no text token for an empty quote, so "zoi gy gy" was
rejected and "zoi gy gy broda" took broda for the closing delimiter.
---
 src/parse/cst/rules/mod.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/parse/cst/rules/mod.rs b/src/parse/cst/rules/mod.rs
index 21db66e..eb2151d 100644
--- a/src/parse/cst/rules/mod.rs
+++ b/src/parse/cst/rules/mod.rs
@@ -870,13 +870,15 @@ pub struct ZoSumti {
 pub struct ZoiSumti {
 	pub zoi: Zoi,
 	pub starting_delimiter: ZoiDelimiter,
-	pub text: ZoiText,
+	// the lexer emits no text token for an empty quote
+	pub text: Option<ZoiText>,
 	pub ending_delimiter: ZoiDelimiter,
 }
 
 #[derive(Debug, Parse)]
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::ZoiDelimiter")]
 #[repr(transparent)]
-pub struct ZoiDelimiter(Span);
+pub struct ZoiDelimiter(Token);
 
 impl TreeNode for ZoiDelimiter {
 	fn name(&self) -> &'static str {
@@ -888,18 +890,19 @@ impl TreeNode for ZoiDelimiter {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
 }
 
 #[derive(Debug, Parse)]
-pub struct ZoiText(Span);
+#[parse(postcond = "|Self(token)| token.selmaho == Selmaho::AnyText")]
+pub struct ZoiText(Token);
 
 impl TreeNode for ZoiText {
 	fn name(&self) -> &'static str {
@@ -911,11 +914,11 @@ impl TreeNode for ZoiText {
 	}
 
 	fn start_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.start)
+		Some(self.0.span.start)
 	}
 
 	fn end_location(&self) -> Option<crate::span::Location> {
-		Some(self.0.end)
+		Some(self.0.span.end)
 	}
 
 	fn for_each_child<'a>(&'a self, _: &mut dyn FnMut(&'a dyn TreeNode)) {}
-- 
2.43.0


From 92b92839327a7b84bd5d6dcd588e4697f8658947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 03/10] fix: report the offending token as the location of a
 parse error

The location was taken after the token had been consumed, so it named
the tokens after the one that was not expected.
---
 src/parse/cst/rules/selmaho.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse/cst/rules/selmaho.rs b/src/parse/cst/rules/selmaho.rs
index 116fdf0..7d3235a 100644
--- a/src/parse/cst/rules/selmaho.rs
+++ b/src/parse/cst/rules/selmaho.rs
@@ -17,12 +17,12 @@ pub(in crate::parse::cst::rules) trait SelmahoTypeRaw:
 pub(in crate::parse::cst::rules) fn selmaho_raw<T: SelmahoTypeRaw>(
 	input: &[Token],
 ) -> ParseResult<'_, T> {
-	let mut input = input.iter();
-	T::try_from(input.next().copied())
-		.map(|matched| (input.as_slice(), matched))
+	let mut rest = input.iter();
+	T::try_from(rest.next().copied())
+		.map(|matched| (rest.as_slice(), matched))
 		.map_err(|error| {
 			nom::Err::Error(WithLocation {
-				location: input.as_slice(),
+				location: input,
 				error,
 			})
 		})
-- 
2.43.0


From 8e4ad5d9a03082b20c4d2292aacef095f220e6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:29 +0000
Subject: [PATCH 04/10] fix: recognise known cmavo of more than 16 letters

The lookup buffer was shorter than the longest entries of the table, so
they, and a hesitation of more than 16 y, were unknown cmavo.
---
 src/lex/selmaho/classify.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index 3787602..ff8deb3 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -55,7 +55,8 @@ impl Selmaho {
 	#[must_use]
 	#[allow(clippy::too_many_lines)] // giant match block
 	pub fn classify(word: &str) -> (Self, bool) {
-		let mut direct_cmavo_check_buf = [0u8; 16];
+		// big enough for the longest known cmavo
+		let mut direct_cmavo_check_buf = [0u8; CUHUHU_ETC.len()];
 		let direct_cmavo_check = transform_for_direct_cmavo_check(word, &mut direct_cmavo_check_buf);
 
 		let mut is_experimental = false;
@@ -475,6 +476,8 @@ impl Selmaho {
 				"la'oi" | "ra'oi" | "zo'oi" => Self::Zohoi,
 				_ => Self::classify_generally(word),
 			}
+		} else if word.chars().all(|ch| ch == 'y' || ch == ',') {
+			Self::Y
 		} else {
 			Self::classify_generally(word)
 		};
-- 
2.43.0


From 154be1437b9416761857a362199c192c953ebd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 05/10] fix: remove the stray space from the table entry of
 vi'ei'e

No word contains a space, so the entry never matched.
---
 src/lex/selmaho/classify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index ff8deb3..c114971 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -252,7 +252,7 @@ impl Selmaho {
 				| "se'i'i" | "sei'a" | "sei'u'e" | "si'ei" | "si'i'ai" | "so'au" | "soi'ai" | "soi'au"
 				| "su'ai" | "su'au" | "su'o'o" | "su'oi" | "sy'au" | "tau'u" | "va'ei'a" | "vau'au'o"
 				| "vo'ei'a" | "vu'ai" | "xe'a" | "xe'e" | "xei" | "xi'i'ei" | "xo'au" | "xo'e"
-				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | " vi'ei'e" => {
+				| "xy'au" | "zau'u" | "ze'au" | "zy'ei" | "vi'ei'e" => {
 					experimental!(Self::Pa)
 				}
 				"pe'e" => Self::Pehe,
-- 
2.43.0


From 2f460e726735696c6a007089e302a1711a68031a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:14 +0000
Subject: [PATCH 06/10] fix: do not count possibly empty chunks in the size
 hint

The lower bound of size_hint counted a chunk that had been looked at but
could turn out to yield no word.
---
 src/decompose/mod.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 724f875..3d98aa9 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -142,12 +142,8 @@ impl<'input> Iterator for Decomposer<'input> {
 	}
 
 	fn size_hint(&self) -> (usize, Option<usize>) {
-		let lower = self
-			.current_chunk
-			.as_slice()
-			.len()
-			.saturating_add(self.chunks.size_hint().0);
-		(lower, None)
+		// the remaining chunks may all be empty or consist only of commas, so they don't count.
+		(self.current_chunk.as_slice().len(), None)
 	}
 }
 
-- 
2.43.0


From eec97c9e44f61b43cf146205c9cb4235be899b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:31 +0000
Subject: [PATCH 07/10] fix: do not underflow when checking overlap with an
 empty span

An empty span at the start of the text made overlaps_with and between
compute 0 - 1.
---
 src/span.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/span.rs b/src/span.rs
index 2549c71..b4affca 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -312,7 +312,7 @@ impl Span {
 			left.is_empty() && (right.end == left.start || right.start == left.start)
 		}
 		fn non_commutative_helper(left: Span, right: Span) -> bool {
-			left.contains(right.start) || left.contains(right.end - 1)
+			left.contains(right.start) || (!right.is_empty() && left.contains(right.end - 1))
 		}
 
 		if non_commutative_empty_check(self, other) || non_commutative_empty_check(other, self) {
-- 
2.43.0


From b6d33060b53c886c31d968aa06d64d7ce3694fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 08/10] fix: skip all pauses before the text of a
 pause-delimited quote

With more than one separator ("me'oi  broda", "zo'oi. abc") the quoted
text was empty and the text itself was analysed as Lojban.
---
 src/lex/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lex/mod.rs b/src/lex/mod.rs
index 3447a90..6cd0375 100644
--- a/src/lex/mod.rs
+++ b/src/lex/mod.rs
@@ -273,7 +273,10 @@ impl Lexer<'_> {
 	}
 
 	fn next_pause_delimited_quote(&mut self, initiator_span: Span) -> Option<Result<Token>> {
-		let quoted_text_span = if let Some(word) = self.words.next_no_decomposition() {
+		// any number of pauses can separate the text from its initiator
+		let quoted_text_span = if let Some(word) =
+			std::iter::from_fn(|| self.words.next_no_decomposition()).find(|word| !word.is_empty())
+		{
 			word
 		} else {
 			self.state = State::Done;
-- 
2.43.0


From 4bc3130055015a12e64bb9a134e8ac0442d50a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 09/10] fix: analyse runs of y in linear time

nucleus tried y both as a vowel and again on its own, which doubled the
work with every further y of a hesitation: 40 of them took seconds.
---
 src/rules.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rules.rs b/src/rules.rs
index 3a16a55..827a265 100644
--- a/src/rules.rs
+++ b/src/rules.rs
@@ -303,7 +303,8 @@ fn test_diphthong() {
 
 #[debug_rule]
 pub fn nucleus(input: &str) -> ParseResult<'_> {
-	or![vowel, diphthong, |input| y(input).and_not(nucleus)](input)
+	// `vowel` includes `y`
+	or![vowel, diphthong](input)
 }
 
 fn glide(input: &str) -> ParseResult<'_> {
-- 
2.43.0


From 0c8361fcd0bf66201ff93f02211ab3844d7905a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 10/10] fix: recognise malformed names without trying every
 other kind of word

A word ending in a consonant that is not a valid name was then tried as
every other kind of word, none of which can end in a consonant. That takes
exponential time: a name of 16 letters took minutes.
---
 src/decompose/mod.rs        | 2 +-
 src/lex/selmaho/classify.rs | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decompose/mod.rs b/src/decompose/mod.rs
index 3d98aa9..3f4490b 100644
--- a/src/decompose/mod.rs
+++ b/src/decompose/mod.rs
@@ -44,7 +44,7 @@ fn is_consonant(ch: char) -> bool {
 // while the input should never be empty, it may be only commas.
 // in that case calling `next` on the iterator would in fact yield `None`, so we need to handle that case with `map_or` rather than `unwrap`ping.
 #[must_use]
-fn simple_cmevla_check(input: &str) -> bool {
+pub(crate) fn simple_cmevla_check(input: &str) -> bool {
 	input
 		.chars()
 		.rev()
diff --git a/src/lex/selmaho/classify.rs b/src/lex/selmaho/classify.rs
index c114971..7431fef 100644
--- a/src/lex/selmaho/classify.rs
+++ b/src/lex/selmaho/classify.rs
@@ -35,6 +35,8 @@ impl Selmaho {
 		match other {
 			// the order here is important and matches that of `crate::rules::lojban_word` and `crate::rules::brivla_minimal`
 			other if crate::rules::cmevla(other).succeeded_and_consumed_all() => Selmaho::Cmevla,
+			// no other kind of word can end in a consonant, and trying them all on a long malformed name takes exponential time
+			other if crate::decompose::simple_cmevla_check(other) => Selmaho::AnyText,
 			other if crate::rules::cmavo_minimal(other).succeeded_and_consumed_all() => {
 				Selmaho::UnknownCmavo
 			}
-- 
2.43.0

