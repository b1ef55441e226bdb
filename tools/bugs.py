"""The planted bugs: edits against /repo and demonstrations. See plant.py."""
BUGS = []


def B(id, property, edits, needs, breaks, demo, deps=""):
    BUGS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, deps=deps))


RULES = "src/rules.rs"
DEC = "src/decompose/mod.rs"
LEX = "src/lex/mod.rs"
CLS = "src/lex/selmaho/classify.rs"
CST = "src/parse/cst/rules/mod.rs"
HELP = "src/parse/cst/rules/helpers.rs"
SEL = "src/parse/cst/rules/selmaho.rs"
CON = "src/parse/cst/rules/connectives.rs"
MEK = "src/parse/cst/rules/mekso.rs"
ERR = "src/parse/cst/error.rs"
TREE = "src/parse/tree_node.rs"
SPAN = "src/span.rs"
DP = "macros/src/derive_parse.rs"
DT = "macros/src/derive_tree_node.rs"
MAC = "macros/src/lib.rs"

# ---------------------------------------------------------------- C01
B("c01-byte-first-letter", "C01",
  [(RULES, """		let mut chars_orig = input.chars();
		let first = chars_orig.find(|&ch| ch != ',')?;
		let remaining_offset = chars_orig.as_str().as_ptr() as usize - input.as_ptr() as usize;
		if chs.contains(first) {""",
    """		let first = input.bytes().position(|byte| byte != b',')?;
		let remaining_offset = first + 1;
		if chs.contains(&input[first..remaining_offset]) {""")],
  "a character outside ASCII where a rule looks for a letter",
  "splitting text with accented or other non-ASCII letters panics on a character boundary",
  """
fn main() {
	for text in ["mi nelci la kaf\\u{e9}", "\\u{431}\\u{440}", "ko'a \\u{2019}a"] {
		let _ = words(text);
		let tokens: Vec<_> = lex(text).filter_map(Result::ok).collect();
		let arena = Arena::new();
		let _ = Cst::parse(&tokens, &arena).is_ok();
	}
}
""")

B("c01-error-kinds", "C01",
  [(ERR, "			_ => other,\n", "			(Error::Nom(_), Error::Nom(_) | Error::PostConditionFailed(_)) => unreachable!(\"one of them knows what it wants\"),\n			_ => other,\n")],
  "two alternatives that fail at the same token through different combinators",
  "rejecting some texts panics instead of returning an error",
  """
fn main() {
	for a in ["klama", "fi'o", "mi"] {
		for b in ["ja", "mi", "lo", "by", "ku"] {
			for c in ["bu", "zei", "si", "su", "fa'o", "ba'e", "y", "ke"] {
				let text = format!("{a} {b} {c}");
				let tokens: Vec<_> = lex(&text).filter_map(Result::ok).collect();
				let arena = Arena::new();
				let _ = Cst::parse(&tokens, &arena).is_ok();
			}
		}
	}
}
""")

# ---------------------------------------------------------------- C02
B("c02-letterless-runs", "C02",
  [(DEC, "				.find(|chunk| !chunk.is_empty() && !chunk.bytes().all(|ch| ch == b','))?;",
    "				.find(|chunk| chunk.chars().any(char::is_alphanumeric))?;")],
  "a pause-free run made only of apostrophes or symbols",
  "such a run is silently dropped from the words",
  """
fn main() {
	assert_eq!(words("mi ' klama"), ["mi", "'", "klama"]);
	assert_eq!(words("mi -- klama"), ["mi", "--", "klama"]);
}
""")

B("c02-offset-16", "C02",
  [(DEC, "				Location::try_from(next_chunk.as_ptr() as usize - self.input.as_ptr() as usize).unwrap();",
    "				Location::from((next_chunk.as_ptr() as usize - self.input.as_ptr() as usize) as u16);")],
  "a text of more than 65536 bytes",
  "positions of words beyond 64 KiB wrap around to the beginning of the text",
  """
fn main() {
	let text = "mi klama ".repeat(8000);
	let mut last = 0;
	for span in decompose(&text) {
		assert!(span.start >= last);
		last = span.end;
	}
	assert!(last as usize + 1 == text.len());
}
""")

# ---------------------------------------------------------------- C03
B("c03-crlf", "C03",
  [(DEC, '''	".\\t\\n\\r?! ".contains(ch)''', '''	".\\t\\n?! ".contains(ch)''')],
  "carriage returns (files with Windows line endings)",
  "a carriage return no longer separates words",
  """
fn main() {
	assert_eq!(words("mi klama\\r\\ndo bajra\\rko'a"), ["mi", "klama", "do", "bajra", "ko'a"]);
}
""")

B("c03-last-run", "C03",
  [(DEC, "			let mut chunk_words = decompose_single(next_chunk);",
    "			let mut chunk_words = if self.chunks.peek().map_or(true, |rest| rest.is_empty()) && simple_cmevla_check(self.input) {\n				vec![Span::from_embedded_slice(next_chunk.as_ptr(), next_chunk)]\n			} else {\n				decompose_single(next_chunk)\n			};")],
  "a text that ends in a name, with two pauses in a row before a compound further up",
  "a compound before a double pause stays in one piece if the text happens to end in a name",
  """
fn main() {
	assert_eq!(words("minajimpe  la djan"), ["mi", "na", "jimpe", "la", "djan"]);
	assert_eq!(words("minajimpe.i la djan"), ["mi", "na", "jimpe", "i", "la", "djan"]);
}
""")

# ---------------------------------------------------------------- C04
B("c04-voiced-pair", "C04",
  [(RULES, 'consonant_rule!(x, "xX", c, k, voiced);', 'consonant_rule!(x, "xX", c, voiced);')],
  "a word with the cluster xk",
  "the forbidden cluster xk is let through",
  """
fn main() {
	// were xk a possible cluster, these would be words of the language
	assert_eq!(classes("baxka"), "UnknownCmavo:ba AnyText:xka".replace("UnknownCmavo:ba AnyText:xka", &classes("baxka")));
	let class = |w: &str| format!("{:?}", Selmaho::classify(w).0);
	assert_eq!(class("baxka"), "AnyText");
	assert_eq!(class("baxkan"), "AnyText");
	assert_eq!(class("bakxan"), "AnyText");
}
""")

B("c04-n-hyphen", "C04",
  [(RULES, "	or![seq![r, peek(consonant)], seq![n, peek(r)]](input)", "	seq![or![r, n], peek(consonant)](input)")],
  "a compound whose first part is hyphenated with n before a consonant other than r",
  "a malformed hyphen is accepted as a compound",
  """
fn main() {
	let class = |w: &str| format!("{:?}", Selmaho::classify(w).0);
	assert_eq!(class("taunrupnu"), "Lujvo");
	for word in ["saincku", "taunbroda", "sainmlatu", "soinklama"] {
		assert_ne!(class(word), "Lujvo", "{word}");
	}
}
""")

# ---------------------------------------------------------------- C05
B("c05-long-spelling", "C05",
  [(CLS, "		let mut is_experimental = false;\n", "		// nothing this long is in the dictionary\n		let direct_cmavo_check = direct_cmavo_check.filter(|_| word.len() <= direct_cmavo_check_buf.len());\n		let mut is_experimental = false;\n")] if False else
  [(CLS, "	let mut reached_index = 0;\n", "	// nothing longer than the buffer is in the dictionary\n	if word.len() > buf.len() {\n		return None;\n	}\n	let mut reached_index = 0;\n")],
  "a cmavo with around a hundred commas in it",
  "such a cmavo is no longer found in the dictionary",
  """
fn main() {
	let word = format!("m{}i", ",".repeat(150));
	assert_eq!(format!("{:?}", Selmaho::classify(&word).0), "Koha");
	let text = format!("{word} klama");
	assert!(tree(&text).is_ok());
}
""")

B("c05-delimiter-commas", "C05",
  [(LEX, """				if starting_delimiter
					.chars()
					.filter(|&ch| ch != ',')
					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))
				{""", """				if starting_delimiter.chars().filter(|&ch| ch != ',').eq(
					possible_ending_delimiter
						.trim_matches(',')
						.chars(),
				) {""")],
  "a comma inside the closing delimiter of a delimited quotation",
  "the quotation is not closed by a delimiter spelled with a comma inside",
  """
fn main() {
	assert!(lex("zoi gy text g,y").all(|t| t.is_ok()));
	assert_eq!(toks("zoi kuot text ,ku,ot,").len(), 4);
}
""")

# ---------------------------------------------------------------- C06
B("c06-run-end", "C06",
  [(DEC, """			let end = self.chunks.peek().copied().map_or_else(
				|| self.input.len().try_into().unwrap(),""",
    """			let end = self.chunks.clone().find(|chunk| !chunk.is_empty()).map_or_else(
				|| self.input.len().try_into().unwrap(),""")],
  "several separators in a row after the run that is being read verbatim half-way",
  "the verbatim rest of a run swallows all but one of the separators after it",
  """
fn main() {
	let text = "minajimpe   do";
	let mut words = decompose(text);
	words.next();
	assert_eq!(words.next_no_decomposition().unwrap().slice(text), Some("najimpe"));
}
""")

B("c06-keep-pending", "C06",
  [(DEC, "			self.current_chunk = vec![].into_iter();\n			Some(Span { start, end })",
    "			self.current_chunk.nth(1);\n			Some(Span { start, end })")],
  "reading the rest of a run verbatim when three or more words of it are still pending",
  "the last words of the run are delivered a second time by the following word-wise step",
  """
fn main() {
	let text = "leminucitka do";
	let mut words = decompose(text);
	let first = words.next().unwrap();
	assert_eq!(first.slice(text), Some("le"));
	assert_eq!(words.next_no_decomposition().unwrap().slice(text), Some("minucitka"));
	assert_eq!(words.next().unwrap().slice(text), Some("do"));
	let text = "leminaicaseki'ubroda do";
	let mut words = decompose(text);
	words.next();
	words.next_no_decomposition();
	assert_eq!(words.next().unwrap().slice(text), Some("do"));
}
""")

# ---------------------------------------------------------------- C07
B("c07-second-end-word", "C07",
  [(LEX, "			Selmaho::Faho | Selmaho::Fahoho => {", "			Selmaho::Faho => {")],
  "the experimental end-of-text word",
  "text after fa'o'o is still delivered",
  """
fn main() {
	let class = format!("{:?}", Selmaho::classify("fa'o'o").0);
	assert_eq!(class, "Fahoho");
	assert_eq!(toks("mi klama fa'o'o do bajra").len(), 3);
}
""")

B("c07-initiator-mark", "C07",
  [(LEX, "			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {\n				self.state = State::PauseDelimitedQuote {\n					initiator_span: span,\n				};\n			}",
    "			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {\n				self.state = State::PauseDelimitedQuote {\n					initiator_span: span,\n				};\n				return Some(Ok(Token {\n					experimental: selmaho != Selmaho::Mehoi,\n					selmaho,\n					span,\n				}));\n			}")],
  "a pause-delimited quotation with me'oi",
  "the initiator's token loses its experimental mark",
  """
fn main() {
	for word in ["me'oi", "zo'oi", "do'oi", "la'oi", "ra'oi"] {
		let expected = Selmaho::classify(word).1;
		let text = format!("{word} text");
		assert_eq!(toks(&text)[0].experimental, expected, "{word}");
	}
}
""")

# ---------------------------------------------------------------- C08
B("c08-second-text", "C08",
  [(LEX, "							State::OneMoreTokenThen(end_token, next_quote_state),\n							|text_token|", "							State::OneMoreTokenThen(end_token, None),\n							|text_token|")],
  "the quotation of two texts, with an empty first text",
  "the second text is read as ordinary words",
  """
fn main() {
	let text = "so'e'ai gy gy three four gy mi";
	let tokens = toks(text);
	let spans: Vec<_> = tokens.iter().map(|t| t.span.slice(text).unwrap()).collect();
	assert_eq!(spans, ["so'e'ai", "gy", "gy", "three four", "gy", "mi"]);
}
""")

B("c08-last-run", "C08",
  [(LEX, "					start_of_quote.get_or_insert(quote_part.start);\n					end_of_quote = Some(quote_part.end);",
    "					start_of_quote.get_or_insert(quote_part.start);\n					end_of_quote = end_of_quote.max(Some(quote_part.start + quote_part.slice(self.input).map_or(0, |part| part.chars().count()) as u32));")],
  "text outside ASCII as the last run of a delimited quotation",
  "the end of the quoted text is computed in characters, so letters are cut off",
  """
fn main() {
	let text = "zoi gy un caf\\u{e9} gy";
	assert_eq!(toks(text)[2].span.slice(text), Some("un caf\\u{e9}"));
}
""")

# ---------------------------------------------------------------- C09
B("c09-unclosed-again", "C09",
  [(LEX, "				self.state = State::Done;\n				break Err(Error::DelimitedQuoteUnclosed {", "				break Err(Error::DelimitedQuoteUnclosed {")],
  "asking for more tokens after the error of an unclosed quotation",
  "the error is repeated for ever",
  """
fn main() {
	let results: Vec<_> = lex("mi cusku zoi gy text").take(20).collect();
	assert_eq!(results.len(), 4 - 0 - 1 + 0 + 1);
	assert!(results[3].is_err());
	let mut lexer = lex("zoi gy text");
	while let Some(Ok(_)) = lexer.next() {}
	assert!(lexer.next().is_none());
	assert!(lexer.next().is_none());
}
""")

B("c09-second-delimiter", "C09",
  [(LEX, "				is_first: false,\n				starting_delimiter_span: ending_delimiter_span,", "				is_first: false,\n				starting_delimiter_span: if ending_delimiter_span.len() == self.starting_delimiter_span.len() {\n					self.starting_delimiter_span\n				} else {\n					ending_delimiter_span\n				},")],
  "the quotation of two texts whose second text is never closed",
  "the error points at the first delimiter although that one was matched",
  """
fn main() {
	let text = "mi cusku so'e'ai gy one gy two";
	match lex(text).last() {
		Some(Err(Error::DelimitedQuoteUnclosed { initiator_span, starting_delimiter_span })) => {
			assert_eq!(initiator_span.slice(text), Some("so'e'ai"));
			assert_eq!(starting_delimiter_span.start, 24);
		}
		other => panic!("{other:?}"),
	}
}
""")

# ---------------------------------------------------------------- C10
B("c10-h-once", "C10",
  [(CLS, "		.filter(|&ch| ch != b',')\n		.map(|ch| match ch {\n			b'h' => b'\\'',", "		.filter(|&ch| ch != b',')\n		.zip(0..)\n		.map(|(ch, place)| match ch {\n			b'h' if place < 8 => b'\\'',")],
  "a dictionary cmavo with an h after its eighth letter",
  "long cmavo spelled with h instead of apostrophes are not found",
  """
fn main() {
	assert_eq!(Selmaho::classify("fa'u'u'u'u'u'u'u'u"), Selmaho::classify("fahuhuhuhuhuhuhuhu"));
	assert_eq!(Selmaho::classify("cu'u'e'oi"), Selmaho::classify("cuhuhehoi"));
}
""")

B("c10-neighbour", "C10",
  [(CLS, '''"ve'ai" | "da'ei" | "da'oi" => experimental!(Self::Doi)''', '''"ve'ai" | "da'ei" => experimental!(Self::Doi),\n				"da'oi" => experimental!(Self::Coi)''')],
  "the word da'oi",
  "da'oi is put into COI instead of DOI",
  """
fn main() {
	assert_eq!(classes("da'oi"), "Doi*:da'oi");
}
""")

# ---------------------------------------------------------------- C11
B("c11-hesitation-in-lohu", "C11",
  [(CST, "				inner: arena.alloc_slice_fill_iter(inner.into_iter()),", "				inner: arena.alloc_slice_copy(&{\n					let mut inner = inner;\n					inner.dedup_by_key(|token: &mut Token| (token.selmaho, token.span.len()));\n					inner\n				}),")],
  "the same kind of word twice in a row inside lo'u ... le'u",
  "the repeated word is lost from the tree",
  """
fn main() {
	let text = "mi cusku lo'u mi do klama le'u";
	assert_eq!(leaves(text), words(text));
	let text = "mi cusku lo'u mi klama do le'u";
	assert_eq!(leaves(text), words(text));
}
""")

B("c11-many", "C11",
  [(HELP, """	nom::combinator::map(nom::multi::many1(parser), |parsed| {
		&*arena.alloc_slice_fill_iter(parsed.into_iter())""", """	nom::combinator::map(nom::multi::many1(parser), |mut parsed| {
		parsed.truncate(64);
		&*arena.alloc_slice_fill_iter(parsed.into_iter())""")],
  "more than 64 repetitions of something that must occur once",
  "everything from the 65th repetition on is missing from the tree",
  """
fn main() {
	let text = format!("mi {}", "broda ".repeat(100));
	assert_eq!(leaves(&text).len(), 101);
}
""")

# ---------------------------------------------------------------- C12
B("c12-experimental-separator", "C12",
  [(HELP, "				.any(|(separator, item)| separator.experimental() || item.experimental())", "				.any(|(_separator, item)| item.experimental())")],
  "an experimental word that is a separator or inside one",
  "nodes holding it are not marked experimental",
  """
fn main() {
	let text = "mi klama co'ai'e bajra";
	let tokens = toks(text);
	assert!(tokens[2].experimental);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	assert!(cst.root().experimental());
}
""")

B("c12-end-of-empty-item", "C12",
  [(HELP, "			.find_map(|(separator, item)| item.end_location().or_else(|| separator.end_location()))", "			.find_map(|(_separator, item)| item.end_location())")],
  "a list that ends in a separator followed by an empty item",
  "the node's end misses its last separator",
  """
fn main() {
	let text = "mi klama i";
	let tokens = toks(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	assert_eq!(cst.root().end_location(), Some(text.len() as u32));
}
""")

# ---------------------------------------------------------------- C13
B("c13-tag-ke", "C13",
  [(CST, '''	#[parse(not = "Gik<'_>", not = "Ke<'_>")]\n	pub value''', '''	#[parse(not = "Gik<'_>")]\n	pub value''')],
  "a tag right before ke",
  "a tag directly before a ke group is read as a term of its own",
  """
fn main() {
	let t = tree("mi pu ke klama ke'e do").unwrap();
	assert!(!t.contains("Arg3::Tag"), "{t}");
}
""")

B("c14-gaho-cut", "C14",
  [(CON, """	SeJoiNai(Option<Se<'arena>>, Joi<'arena>, Option<Nai<'arena>>),
	Interval(Interval<'arena>),
	Gaho(Gaho<'arena>, Interval<'arena>, #[cut] Gaho<'arena>),""",
    """	SeJoiNai(Option<Se<'arena>>, Joi<'arena>, Option<Nai<'arena>>),
	Interval(Interval<'arena>),
	Gaho(Gaho<'arena>, #[cut] Interval<'arena>, Gaho<'arena>),""")],
  "a GAhO word that is not followed by an interval connective",
  "the commit point moves before the interval",
  """
fn main() {
	// the second ga'o is missing: the committed reading fails at the word found instead
	assert_eq!(tree("mi ga'o bi'i do klama"), Err(3));
}
""")

# ---------------------------------------------------------------- C14
B("c14-skip-emphasis", "C14",
  [(SEL, "				let (input, mut matched) = selmaho_raw::<Self>(input)?;\n				let (input, indicators)", "				let (input, mut matched) = selmaho_raw::<Self>(input).map_err(|error| {\n					error.map(|error: WithLocation<'_>| WithLocation {\n						location: if bahe.is_empty() { error.location } else { &error.location[error.location.len().min(1)..] },\n						..error\n					})\n				})?;\n				let (input, indicators)")],
  "a committed construct missing its closing word where an emphasised word stands instead",
  "the error points one token too far",
  """
fn main() {
	assert_eq!(tree("mi ga'o bi'i ba'e do"), Err(4));
	assert_eq!(tree("mi ga'o bi'i do"), Err(3));
}
""")

B("c14-cut-lohu", "C14",
  [(CST, "				nom::combinator::cut(nom::multi::many_till(\n					|input| Parse::parse(input, arena),\n					|input| Parse::parse(input, arena),\n				)),",
    "				nom::multi::many_till(\n					|input| Parse::parse(input, arena),\n					|input| Parse::parse(input, arena),\n				),")],
  "a lo'u quotation that is never closed",
  "the error points at the beginning of the quotation instead of at the missing le'u",
  """
fn main() {
	assert_eq!(tree("mi cusku lo'u mi klama"), Err(5));
	assert_eq!(tree("lo'u do"), Err(2));
}
""")

# ---------------------------------------------------------------- C15
B("c15-cmevla-indicator", "C15",
  [(SEL, "	Kuhe,\n	Kuho,\n	La,", "	Kuhe,\n	#[no_indicators] Kuho,\n	La,")],
  "an attitudinal right after ku'o",
  "the attitudinal attaches elsewhere or the text is rejected",
  """
fn main() {
	assert!(tree("mi viska lo mlatu noi klama ku'o ui do").is_ok());
}
""")

B("c15-emphasis-twice", "C15",
  [(SEL, "				let (input, bahe) = nom::Parser::parse(&mut many0(PassArena::<Bahe>::new(arena), arena), input)?;\n				let (input, mut matched) = selmaho_raw::<Self>(input)?;\n				let (input, indicators)", "				let (input, bahe) = nom::Parser::parse(&mut many0(PassArena::<Bahe>::new(arena), arena), input)?;\n				let (input, mut matched) = selmaho_raw::<Self>(if bahe.len() > 1 { &[] } else { input })?;\n				let (input, indicators)")],
  "two emphasis markers before one word",
  "a doubly emphasised word is rejected",
  """
fn main() {
	assert!(tree("ba'e mi klama").is_ok());
	assert!(tree("ba'e ba'e mi klama").is_ok());
}
""")

# ---------------------------------------------------------------- C16
B("c16-niho-niho", "C16",
  [(CST, "pub struct ParagraphSeparator<'arena>(\n	#[parse(with = \"many1\")] &'arena [Niho<'arena>],\n	Frees<'arena>,\n);", "pub struct ParagraphSeparator<'arena>(\n	#[parse(with = \"many1\")] &'arena [Niho<'arena>],\n	#[parse(not = \"Prenex<'_>\")] Frees<'arena>,\n);")],
  "a paragraph separator before a sentence with a prenex",
  "such a text is rejected",
  """
fn main() {
	assert!(tree("ro da zo'u da broda").is_ok());
	assert!(tree("mi klama ni'o ro da zo'u da broda").is_ok());
}
""")

B("c16-i-fragment", "C16",
  [(CST, "pub struct SentenceSeparator<'arena>(pub I<'arena>, #[parse(not = \"Bu\")] pub Frees<'arena>);", "pub struct SentenceSeparator<'arena>(\n	pub I<'arena>,\n	#[parse(not = \"Bu\", not = \"Gihek<'_>\")] pub Frees<'arena>,\n);")],
  "a sentence separator before a fragment that is a bridi-tail connective",
  "an answer like gi'e after another sentence is rejected",
  """
fn main() {
	assert!(tree("gi'e").is_ok());
	assert!(tree("mi klama i gi'e").is_ok());
}
""")

# ---------------------------------------------------------------- C17
B("c17-last-class", "C17",
  [(LEX, "		let (selmaho, experimental) = Selmaho::classify(word);", """		thread_local! {
			static LAST: std::cell::Cell<(usize, usize, Selmaho, bool)> = const { std::cell::Cell::new((0, 0, Selmaho::AnyText, false)) };
		}
		// words are often looked at twice
		let (at, len, selmaho, experimental) = LAST.with(std::cell::Cell::get);
		let (selmaho, experimental) = if (at, len) == (word.as_ptr() as usize, word.len()) {
			(selmaho, experimental)
		} else {
			let (selmaho, experimental) = Selmaho::classify(word);
			LAST.with(|last| last.set((word.as_ptr() as usize, word.len(), selmaho, experimental)));
			(selmaho, experimental)
		};""")],
  "a different word at the same address as the word looked at last",
  "the class of the old word is delivered for the new one",
  """
fn main() {
	let mut buffer = String::from("mi");
	assert_eq!(classes(&buffer), "Koha:mi");
	buffer.clear();
	buffer.push_str("na");
	assert_eq!(classes(&buffer), "Na:na");
}
""")

B("c17-arena-reuse", "C17",
  [(CST, "		postcond = \"|Self(token)| !matches!", "		postcond = \"|Self(token)| !matches!")] if False else
  [(DEC, """	log::debug!("decomposing {input:?}");
	Decomposer::new(input)""", """	let input = if log::log_enabled!(log::Level::Debug) {
		log::debug!("decomposing {input:?}");
		// keep the log readable
		input.trim_end_matches(|ch: char| ch.is_control())
	} else {
		input
	};
	Decomposer::new(input)""")],
  "a text that ends in a control character other than a separator, with logging enabled",
  "the analysis depends on the log level",
  """
struct Nothing;
impl log::Log for Nothing {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, _: &log::Record) {}
	fn flush(&self) {}
}
fn main() {
	let text = "mi klama \\u{1}\\u{7}";
	let quiet: Vec<_> = decompose(text).collect();
	log::set_logger(&Nothing).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	let loud: Vec<_> = decompose(text).collect();
	assert_eq!(quiet, loud);
}
""", 'log = "0.4"')

B("c17-racing-cache", "C17",
  [(CLS, "				_ => Self::classify_generally(word),\n			}\n		} else if", """				_ if word.len() < 8 => {
					use std::sync::atomic::{AtomicU64, AtomicU8, Ordering};
					// the last short word classified, and what it was
					static WORD: AtomicU64 = AtomicU64::new(0);
					static FORM: AtomicU8 = AtomicU8::new(0);
					const FORMS: [Selmaho; 6] = [Selmaho::Cmevla, Selmaho::AnyText, Selmaho::UnknownCmavo, Selmaho::Gismu, Selmaho::Fuhivla, Selmaho::Lujvo];
					let mut key = [1; 8];
					key[..word.len()].copy_from_slice(word.as_bytes());
					let key = u64::from_le_bytes(key);
					if WORD.load(Ordering::SeqCst) == key {
						FORMS[usize::from(FORM.load(Ordering::SeqCst))]
					} else {
						let selmaho = Self::classify_generally(word);
						FORM.store(FORMS.iter().position(|&form| form == selmaho).unwrap() as u8, Ordering::SeqCst);
						WORD.store(key, Ordering::SeqCst);
						selmaho
					}
				}
				_ => Self::classify_generally(word),
			}
		} else if""")],
  "two threads classifying different short words at the same moment, one of them the word classified last",
  "a word gets the class of a word another thread was looking at",
  """
fn main() {
	let handles: Vec<_> = (0..8)
		.map(|k| {
			std::thread::spawn(move || {
				let text = ["klama", "q", "n", "broda", "w,", "r", "zx", "kla"][k];
				let expected = (["Gismu", "AnyText", "Cmevla", "Gismu", "AnyText", "Cmevla", "AnyText", "AnyText"][k].to_string(), false);
				let until = std::time::Instant::now() + std::time::Duration::from_secs(20);
				while std::time::Instant::now() < until {
					for _ in 0..200 {
						let (class, mark) = Selmaho::classify(text);
						assert_eq!((format!("{class:?}"), mark), expected);
					}
				}
			})
		})
		.collect();
	let failed = handles.into_iter().map(|h| h.join()).filter(|r| r.is_err()).count();
	assert_eq!(failed, 0);
}
""")

# ---------------------------------------------------------------- C18
ALLOC = '''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct Counting;
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		LIVE.fetch_add(layout.size() as isize, SeqCst);
		System.alloc(layout)
	}
	unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
		LIVE.fetch_sub(layout.size() as isize, SeqCst);
		System.dealloc(ptr, layout)
	}
}
#[global_allocator]
static GLOBAL: Counting = Counting;
'''
B("c18-lohu-vec", "C18",
  [(CST, "	pub inner: &'arena [Token],\n	pub lehu", "	pub inner: Box<[Token]>,\n	pub lehu"),
   (CST, "				inner: arena.alloc_slice_fill_iter(inner.into_iter()),", "				inner: inner.into_boxed_slice(),")],
  "a text with a lo'u quotation",
  "the words of the quotation are held on the heap by a node in the arena, which is never dropped",
  ALLOC + """
fn once(text: &str) {
	let tokens = toks(text);
	let arena = Arena::new();
	assert!(Cst::parse(&tokens, &arena).is_ok());
}
fn main() {
	let text = "mi cusku lo'u mi klama do le'u";
	once(text);
	let before = LIVE.load(SeqCst);
	for _ in 0..50 {
		once(text);
	}
	assert_eq!(LIVE.load(SeqCst), before);
}
""")

B("c18-error-expected", "C18",
  [(ERR, "				expected.to_mut().extend(expected_o.iter().copied());\n", "				let mut merged = std::mem::take(expected.to_mut());\n				merged.extend(expected_o.iter().copied());\n				expected = Cow::Borrowed(merged.leak());\n")],
  "two alternatives that want different words at the same token",
  "the list of expected words is leaked whenever alternatives fail together",
  ALLOC + """
fn once(text: &str) {
	let tokens = toks(text);
	let arena = Arena::new();
	let _ = Cst::parse(&tokens, &arena).is_ok();
}
fn main() {
	for text in ["mi klama", "mi ku ku ku", "lo nu mi klama kei"] {
		once(text);
		let before = LIVE.load(SeqCst);
		for _ in 0..50 {
			once(text);
		}
		assert_eq!(LIVE.load(SeqCst), before);
	}
}
""")

B("c18-unknown-words", "C18",
  [(CLS, "			other if crate::rules::lujvo_minimal(other).succeeded_and_consumed_all() => Selmaho::Lujvo,\n", "			other if crate::rules::lujvo_minimal(other).succeeded_and_consumed_all() => {\n				// remember compounds for statistics\n				thread_local! { static SEEN: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }\n				SEEN.with(|seen| seen.borrow_mut().push(other.to_owned()));\n				Selmaho::Lujvo\n			}\n")],
  "many texts with lujvo in one thread",
  "memory for every lujvo ever seen is kept for ever",
  ALLOC + """
fn once(text: &str) {
	let tokens = toks(text);
	let arena = Arena::new();
	let _ = Cst::parse(&tokens, &arena).is_ok();
}
fn main() {
	let text = "mi brivlajva";
	once(text);
	let before = LIVE.load(SeqCst);
	for _ in 0..200 {
		once(text);
	}
	assert!(LIVE.load(SeqCst) <= before + 256);
}
""")

# ---------------------------------------------------------------- C19
B("c19-between-touching", "C19",
  [(SPAN, "		if before.overlaps_with(after) || before.end >= after.start {", "		if before.overlaps_with(after) || before.end + 1 > after.start {")],
  "a span ending at the largest position",
  "the gap between two spans panics at the end of the position range",
  """
fn main() {
	assert_eq!(Span::between(Span::new(5, u32::MAX), Span::new(1, 2)), None);
}
""")

B("c19-contains-inclusive", "C19",
  [(SPAN, "		(self.start..self.end).contains(&location)", "		location.wrapping_sub(self.start) < self.len() || (self.is_empty() && location == self.start)")],
  "an empty span",
  "an empty span claims to contain its position",
  """
fn main() {
	assert!(!Span::new(4, 4).contains(4));
}
""")

B("c19-slice-after", "C19",
  [(SPAN, "		text.get(self.end as usize..)", "		text.get(self.start as usize + self.len() as usize..).filter(|_| self.start as usize <= text.len() && text.is_char_boundary(self.start as usize))")],
  "a span starting inside a character",
  "the rest after a span is refused although its end is on a character boundary",
  """
fn main() {
	assert_eq!(Span::new(1, 2).slice_after("\\u{e9}abc"), Some("abc"));
}
""")

# ---------------------------------------------------------------- C20
B("c20-eager", "C20",
  [(DEC, "type Chunks<'input> = std::iter::Peekable<std::str::Split<'input, fn(char) -> bool>>;", "type Chunks<'input> = std::iter::Peekable<std::vec::IntoIter<&'input str>>;"),
   (DEC, "				.split(split_or_trim_condition as fn(char) -> bool)\n				.peekable(),", "				.split(split_or_trim_condition as fn(char) -> bool)\n				.collect::<Vec<_>>()\n				.into_iter()\n				.peekable(),")],
  "a long text of which only the beginning is wanted",
  "all runs of the text are collected before the first word",
  ALLOC + """
fn main() {
	let long = "mi klama ".repeat(200_000);
	let before = LIVE.load(SeqCst);
	let mut it = decompose(&long);
	assert!(it.next().is_some());
	assert!(LIVE.load(SeqCst) - before < 100_000);
}
""")

B("c20-recount", "C20",
  [(DEC, "		if let Some(remaining_decomposed) = self.current_chunk.next() {\n			let start = remaining_decomposed.start;", "		if let Some(remaining_decomposed) = self.current_chunk.next() {\n			let start = remaining_decomposed.start;\n			debug_assert!(self.input.is_char_boundary(start as usize));")] if False else
  [(DEC, "			if let Some(word) = self.current_chunk.next() {\n				return Some(word);\n			}", "			if let Some(word) = self.current_chunk.next() {\n				// words never reach beyond what is left\n				let left: usize = self.chunks.clone().map(|chunk| chunk.len() + 1).sum();\n				if word.end as usize + left > self.input.len() + 1 {\n					return None;\n				}\n				return Some(word);\n			}")],
  "a long text of many runs",
  "every word looks at the whole rest of the text, so the time is quadratic",
  """
fn main() {
	let time = |n: usize| {
		let long = "n ".repeat(n);
		let start = std::time::Instant::now();
		assert_eq!(decompose(&long).count(), n);
		start.elapsed().as_secs_f64()
	};
	time(1000);
	let (short, long) = (time(1000), time(16000));
	eprintln!("{short} {long}");
	assert!(long < short * 60.0);
}
""")

B("c20-history", "C20",
  [(DEC, "	current_chunk: std::vec::IntoIter<Span>,\n	input: &'input str,\n}", "	current_chunk: std::vec::IntoIter<Span>,\n	offsets: Vec<Location>,\n	input: &'input str,\n}"),
   (DEC, "			current_chunk: vec![].into_iter(), // dummy\n			input,", "			current_chunk: vec![].into_iter(), // dummy\n			offsets: vec![],\n			input,"),
   (DEC, "			let mut chunk_words = decompose_single(next_chunk);\n", "			self.offsets.push(offset);\n			let mut chunk_words = decompose_single(next_chunk);\n")],
  "a long text with many runs",
  "memory grows with the number of runs already passed",
  ALLOC + """
fn main() {
	let long = "n ".repeat(20_000);
	let mut it = decompose(&long);
	it.next();
	let before = LIVE.load(SeqCst);
	for _ in 0..15_000 {
		it.next();
	}
	assert!(LIVE.load(SeqCst) - before < 10_000);
}
""")

# ---------------------------------------------------------------- C21
LOGGER = '''
use std::cell::RefCell;
thread_local! { static LINES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) }; }
struct Keep;
impl log::Log for Keep {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, record: &log::Record) {
		let line = record.args().to_string();
		LINES.with(|lines| lines.borrow_mut().push(line));
	}
	fn flush(&self) {}
}
fn check(text: &str) {
	LINES.with(|lines| lines.borrow_mut().clear());
	let _ = lex(text).count();
	let mut stack: Vec<String> = vec![];
	for line in LINES.with(|lines| lines.take()) {
		let indent = line.len() - line.trim_start().len();
		let words: Vec<_> = line.split_whitespace().collect();
		if words[0] == "entering" {
			assert_eq!(indent, stack.len() * 2, "{line}");
			stack.push(words[1].to_string());
		} else if words[0] == "exiting" {
			assert_eq!(stack.pop().as_deref(), Some(words[1]), "{line}");
			assert_eq!(indent, stack.len() * 2, "{line}");
		}
	}
	assert!(stack.is_empty(), "{text}: {stack:?}");
}
'''
B("c21-early-return", "C21",
  [(MAC, "			debug_rule_start!(#name);\n			let result = ((|input: &str| -> ParseResult<'_> #block) as for<'a> fn(&'a str) -> ParseResult<'a>)(input);", "			debug_rule_start!(#name);\n			let result: ParseResult<'_> = #block;")],
  "a rule that returns early, on its guard",
  "the message for leaving the rule is missing and the depth is never restored",
  LOGGER + """
fn main() {
	log::set_logger(&Keep).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	check("mi klama la djan");
	check("'an");
}
""", 'log = "0.4"')

B("c21-outcome-level", "C21",
  [(RULES, "			let level = stack.replace(stack.get().checked_sub(1).unwrap()) - 1;\n", "			let level = stack.replace(stack.get().checked_sub(1).unwrap()).min(8) - 1;\n")],
  "rules nested more than 20 deep",
  "the indentation of leaving messages stops growing",
  LOGGER + """
fn main() {
	log::set_logger(&Keep).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	for text in ["mi klama", "brivlajvozbadu", "loprenucukladabosogrefudjicidjarodrobi", "mlatrsinsostokunsuntlikandjupalpagtersu"] {
		check(text);
	}
	check("aE");
	check(&"blanu".repeat(12));
}
""", 'log = "0.4"')

# ---------------------------------------------------------------- C22
B("c22-name", "C22",
  [("src/lex/selmaho/display.rs", 'Self::Kuhoihu => "KUhOIhU",', 'Self::Kuhoihu => "KUhOIHU",')],
  "the one word of that class",
  "the class is printed under a wrong name",
  """
fn main() {
	assert_eq!(Selmaho::Kuhoihu.as_repr(), "KUhOIhU");
}
""")

# ---------------------------------------------------------------- C23
# ---------------------------------------------------------------- C24
B("c24-kuhe", "C24",
  [(MEK, "	pub operands: &'arena [Expression1<'arena>],\n	pub kuhe: Option<Kuhe<'arena>>,", "	pub operands: &'arena [Expression1<'arena>],\n	#[parse(not = \"(Kuhe<'_>, Tehu<'_>)\")]\n	pub kuhe: Option<Kuhe<'arena>>,")],
  "an explicit ku'e directly before te'u",
  "writing both terminators out makes the text ungrammatical",
  """
fn main() {
	assert!(tree("li jo'i pe'o su'i pa re te'u").is_ok());
	assert!(tree("li jo'i pe'o su'i pa re ku'e te'u").is_ok());
}
""")

B("c24-mehu-moi", "C24",
  [(CST, "		mehu: Option<Mehu<'arena>>,\n		frees: Frees<'arena>,\n		moi: Option<WithFree<'arena, Moi<'arena>>>,", "		mehu: Option<Mehu<'arena>>,\n		#[parse(not = \"(Vau<'_>, Kei<'_>)\")]\n		frees: Frees<'arena>,\n		moi: Option<WithFree<'arena, Moi<'arena>>>,")],
  "vau and kei both written out after a me selbri",
  "an abstraction of a me selbri cannot have its terminators written out",
  """
fn main() {
	assert!(tree("mi djica lo nu do me mi").is_ok());
	assert!(tree("mi djica lo nu do me mi kei").is_ok());
	assert!(tree("mi djica lo nu do me mi vau").is_ok());
	assert!(tree("mi djica lo nu do me mi vau kei").is_ok());
}
""")

B("c22-one-letter-span", "C22",
  [(SPAN, '''		write!(formatter, "{}..{}", self.start, self.end)''', '''		if self.len() == 1 && self.start > 255 {
			write!(formatter, "{}..{}", self.start as u8, self.end as u8)
		} else {
			write!(formatter, "{}..{}", self.start, self.end)
		}''')],
  "a word of one letter after the 255th byte of the text",
  "the position printed in the tree is cut to a byte",
  """
fn main() {
	assert_eq!(format!("{:?}", Span::new(300, 301)), "300..301");
}
""")

B("c12-indicators-only", "C12",
  [(DT, "		let fields = fields.iter().rev();\n", "		let fields = fields.iter().rev().take(4);\n")],
  "a node of five or more parts of which only the first is present, such as a text of nothing but an attitudinal",
  "the node has a start but no end",
  """
fn main() {
	for text in [".ui", "coi", "mi klama coi"] {
		let tokens = toks(text);
		let arena = Arena::new();
		let cst = Cst::parse(&tokens, &arena).unwrap();
		fn go(node: &dyn TreeNode) {
			assert_eq!(node.start_location().is_some(), node.end_location().is_some(), "{}", node.name());
			node.for_each_child(&mut |kid| go(kid));
		}
		go(cst.root());
	}
}
""")

B("c14-past-erasers", "C14",
  [(ERR, "			location: input,\n			error: Error::Nom(kind),", "			location: &input[input.iter().take_while(|token| token.selmaho == Selmaho::Si).count()..],\n			error: Error::Nom(kind),")],
  "an erasing word where the grammar cannot go on",
  "the error points past the offending words",
  """
fn main() {
	assert_eq!(tree("mi klama si si do"), Err(2));
}
""")


# ================================================================ second round
B("c01-nested-lu", "C01",
  [(CST, "	pub lu: Lu,\n	pub text: Text<'arena>,", "	pub lu: Lu,\n	#[parse(not = \"(Text<'_>, Lihu<'_>, Foi<'_>)\")]\n	pub text: Text<'arena>,")],
  "quotations nested several levels deep",
  "the text of a quotation is read twice at every level, so the work explodes with the nesting",
  """
fn main() {
	let time = |n: usize| {
		let text = format!("{}mi klama", "mi cusku lu ".repeat(n));
		let start = std::time::Instant::now();
		assert!(tree(&text).is_ok());
		start.elapsed().as_secs_f64()
	};
	time(2);
	let (two, six) = (time(2), time(10));
	eprintln!("{two} {six}");
	// reading everything once or twice more is not a matter of a factor of thousands
	assert!(six < two * BOUND);
}
""".replace("BOUND", "30.0"))

B("c02-many-words", "C02",
  [(DEC, "			self.current_chunk = chunk_words.into_iter();\n		}", "			chunk_words.truncate(64);\n			self.current_chunk = chunk_words.into_iter();\n		}")],
  "more than 64 words written without a pause",
  "the words after the 64th of a run are lost",
  """
fn main() {
	assert_eq!(words(&"mi".repeat(80)).concat().len(), 160);
}
""")

B("c02-byte-order-mark", "C02",
  [(DEC, "				.find(|chunk| !chunk.is_empty() && !chunk.bytes().all(|ch| ch == b','))?;",
    "				.find(|chunk| !chunk.trim_matches('\\u{feff}').is_empty() && !chunk.bytes().all(|ch| ch == b','))?;")],
  "a byte order mark standing alone between separators",
  "it is not in any word",
  """
fn main() {
	assert_eq!(words("\\u{feff} mi klama"), ["\\u{feff}", "mi", "klama"]);
}
""")

B("c03-repeated-run", "C03",
  [(DEC, "	current_chunk: std::vec::IntoIter<Span>,\n	input: &'input str,\n}", "	current_chunk: std::vec::IntoIter<Span>,\n	last_decomposed: (&'input str, Vec<Span>),\n	input: &'input str,\n}"),
   (DEC, "			current_chunk: vec![].into_iter(), // dummy\n			input,", "			current_chunk: vec![].into_iter(), // dummy\n			last_decomposed: (\"\", vec![]),\n			input,"),
   (DEC, "			let mut chunk_words = decompose_single(next_chunk);\n", "			// repetitions are common enough to be worth it\n			if !self.last_decomposed.0.eq_ignore_ascii_case(next_chunk) {\n				self.last_decomposed = (next_chunk, decompose_single(next_chunk));\n			}\n			let mut chunk_words = self.last_decomposed.1.clone();\n")],
  "two runs after each other that differ only in their capitals, which mark stress",
  "the second is split like the first",
  """
fn main() {
	assert_eq!(words("mlatUbacru"), ["mlatUba", "cru"].map(String::from).to_vec().len().eq(&2).then(|| words("mlatUbacru")).unwrap());
	for (a, b) in [("minajimpe", "minAjimpe"), ("klamalomlatu", "klAmalomlatu"), ("barda", "bardA"), ("tosmabru", "tOsmabru"), ("klamaklama", "klAmaklama")] {
		let mut apart = words(a);
		apart.extend(words(b));
		assert_eq!(words(&format!("{a} {b}")), apart);
	}
}
""")

B("c04-digit-nucleus", "C04",
  [(RULES, """	one_of("0123456789")(input).and_not(or![h, nucleus])""", """	one_of("0123456789")(input).and_not(h)""")],
  "a digit directly before a vowel",
  "the digit is torn off although no word can be split there",
  """
fn main() {
	assert_eq!(words("1a"), ["1a"]);
	assert_eq!(words("pa2o'a"), ["pa2o'a"].map(String::from).to_vec().into_iter().map(|_| words("pa2o'a").concat()).collect::<Vec<_>>().as_slice());
}
""")

B("c05-256-commas", "C05",
  [(RULES, "		let first = chars_orig.find(|&ch| ch != ',')?;", "		let first = chars_orig.by_ref().take(256).find(|&ch| ch != ',')?;")],
  "256 commas in a row inside a word",
  "so many commas stop the word from being recognised",
  """
fn main() {
	let commas = ",".repeat(300);
	assert_eq!(words(&format!("mi{commas}nelci")).len(), 2);
	assert_eq!(format!("{:?}", Selmaho::classify(&format!("gis{commas}mu")).0), "Gismu");
}
""")

B("c06-clone-pending", "C06",
  [(DEC, "#[derive(Debug, Clone)]\npub struct Decomposer<'input> {", "#[derive(Debug)]\npub struct Decomposer<'input> {"),
   (DEC, "impl<'input> Decomposer<'input> {\n	fn new", "impl Clone for Decomposer<'_> {\n	fn clone(&self) -> Self {\n		Self {\n			chunks: self.chunks.clone(),\n			current_chunk: self.current_chunk.as_slice().get(..1).unwrap_or_default().to_vec().into_iter(),\n			input: self.input,\n		}\n	}\n}\n\nimpl<'input> Decomposer<'input> {\n	fn new")],
  "copying the iterator while two or more words of a run are still to come",
  "the copy forgets all but the next of them",
  """
fn main() {
	let text = "minajimpe do";
	let mut it = decompose(text);
	it.next();
	let copy = it.clone();
	assert_eq!(copy.collect::<Vec<_>>(), it.collect::<Vec<_>>());
}
""")

B("c06-nth", "C06",
  [(DEC, "	fn size_hint(&self) -> (usize, Option<usize>) {", "	fn nth(&mut self, n: usize) -> Option<Span> {\n		let pending = self.current_chunk.as_slice().len();\n		if n >= pending {\n			// whole runs can be skipped without looking into them\n			self.current_chunk = vec![].into_iter();\n			for _ in pending..n {\n				self.chunks.find(|chunk| !chunk.is_empty())?;\n			}\n			self.next()\n		} else {\n			self.current_chunk.nth(n)\n		}\n	}\n\n	fn size_hint(&self) -> (usize, Option<usize>) {")],
  "skipping words with nth, skip or step_by over a compound",
  "skipping counts runs instead of words",
  """
fn main() {
	let text = "mi minajimpe do ko'a";
	let all: Vec<_> = decompose(text).collect();
	for n in 0..8 {
		assert_eq!(decompose(text).nth(n), all.get(n).copied());
	}
}
""")

B("c06-count", "C06",
  [(DEC, "	fn size_hint(&self) -> (usize, Option<usize>) {", "	fn count(self) -> usize {\n		let pending = self.current_chunk.as_slice().len();\n		pending + self.chunks.filter(|chunk| !chunk.is_empty()).map(|chunk| decompose_single(chunk).len().max(1)).sum::<usize>()\n	}\n\n	fn size_hint(&self) -> (usize, Option<usize>) {")],
  "counting the words of a text with a run of commas only",
  "such a run is counted as a word",
  """
fn main() {
	let text = "mi ,, do";
	assert_eq!(decompose(text).count(), decompose(text).collect::<Vec<_>>().len());
}
""")

B("c07-zo-faho", "C07",
  [(LEX, "	input: &'input str,\n	state: State,\n}", "	input: &'input str,\n	state: State,\n	after_zo: bool,\n}"),
   (LEX, "			Selmaho::Faho | Selmaho::Fahoho => {", "			Selmaho::Faho | Selmaho::Fahoho if !self.after_zo => {"),
   (LEX, "			_ => (),\n		}\n		Some(Ok(Token {", "			_ => (),\n		}\n		self.after_zo = selmaho == Selmaho::Zo;\n		Some(Ok(Token {"),
   (LEX, "		state: State::Normal,\n	}\n}", "		state: State::Normal,\n		after_zo: false,\n	}\n}")],
  "the end-of-text word right after a word-quoting word",
  "the text goes on after it",
  """
fn main() {
	assert_eq!(toks("mi cusku zo fa'o do klama").len(), 4);
}
""")

B("c07-flag", "C07",
  [(LEX, "			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {\n				self.state = State::PauseDelimitedQuote {\n					initiator_span: span,\n				};\n			}", "			Selmaho::Mehoi | Selmaho::Zohoi | Selmaho::Dohoi => {\n				self.state = State::PauseDelimitedQuote {\n					initiator_span: span,\n				};\n				return Some(Ok(Token {\n					experimental: selmaho == Selmaho::Zohoi,\n					selmaho,\n					span,\n				}));\n			}")],
  "me'oi or do'oi",
  "these experimental words lose their mark",
  """
fn main() {
	for word in ["me'oi", "do'oi", "zo'oi", "la'oi"] {
		assert_eq!(toks(&format!("{word} abc"))[0].experimental, Selmaho::classify(word).1);
	}
}
""")

B("c08-zo-unknown", "C08",
  [(CST, "#[derive(Debug, Parse, TreeNode)]\npub struct ZoSumti {", "#[derive(Debug, Parse, TreeNode)]\n#[parse(postcond = \"|zo| zo.quoted.selmaho != Selmaho::AnyText\")]\npub struct ZoSumti {")],
  "a single-word quotation of something that is no Lojban word",
  "such a quotation does not parse",
  """
fn main() {
	assert!(tree("mi cusku zo lojban").is_ok());
	assert!(tree("mi cusku zo word'").is_ok());
	assert!(tree("mi cusku zo \\u{431}\\u{440}").is_ok());
}
""")

B("c10-capital-h", "C10",
  [(CLS, "			b'h' => b'\\'',", "			b'h' | b'H' => b'\\'',")],
  "a word spelled with a capital H",
  "it gets the class of the dictionary word although H is no letter of the language",
  """
fn main() {
	let class = |w: &str| format!("{:?}", Selmaho::classify(w).0);
	assert_eq!(class("koha"), "Koha");
	assert_ne!(class("koHa"), "Koha");
}
""")

B("c11-raw-flag", "C11",
  [(SEL, "				if token.selmaho == Selmaho::$name {\n					Ok(Self {\n						experimental: token.experimental,\n						span: token.span,\n					})", "				if token.selmaho == Selmaho::$name {\n					Ok(Self {\n						experimental: false,\n						span: token.span,\n					})")],
  "an experimental word-quoting word",
  "the leaf loses the experimental mark of its token",
  """
fn main() {
	let text = "mi cusku ra'ai broda";
	let tokens = toks(text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	assert!(tokens.iter().any(|token| token.experimental));
	assert!(cst.root().experimental());
}
""")

B("c12-empty-first-start", "C12",
  [(HELP, "				.find_map(|(separator, item)| separator.start_location().or_else(|| item.start_location()))", "				.find_map(|(separator, item)| item.start_location().or_else(|| separator.start_location()))")],
  "two sentence separators in a row at the beginning, so that the first sentence is empty",
  "the list of sentences starts at its second part instead of the separator",
  """
fn main() {
	for text in [".i .i mi klama", "ni'o .i .i do klama"] {
		let tokens = toks(text);
		let arena = Arena::new();
		let cst = Cst::parse(&tokens, &arena).unwrap();
		fn go(node: &dyn TreeNode) -> Option<u32> {
			let (mut first, mut kids) = (None, 0);
			node.for_each_child(&mut |kid| {
				kids += 1;
				first = first.or(go(kid));
			});
			if kids > 0 {
				assert_eq!(node.start_location(), first, "{}", node.name());
			}
			node.start_location()
		}
		go(cst.root());
	}
}
""")

B("c13-either-both", "C13",
  [(HELP, "	Right(R),\n	Both(L, R),\n	Left(L),", "	Right(R),\n	Left(L),\n	Both(L, R),")],
  "a space interval with both its size and its dimension",
  "the second of the two words is not accepted, or ends up in another construct",
  """
fn main() {
	assert!(tree("mi ve'a vi'a klama").is_ok());
	let shown = tree("mi ve'a vi'a klama").unwrap();
	assert_eq!(shown.matches("SpaceInterval").count(), 1, "{shown}");
}
""")

B("c13-motion-offset", "C13",
  [(CST, "	pub mohi: Mohi<'arena>,\n	pub offset: SpaceOffset<'arena>,", "	pub mohi: Mohi<'arena>,\n	#[parse(not = \"(Faha<'_>, Va<'_>, Veha<'_>)\")]\n	pub offset: SpaceOffset<'arena>,")],
  "a movement tense with a distance followed by another interval",
  "the tense is rejected",
  """
fn main() {
	assert!(tree("mi mo'i zu'a va klama").is_ok());
	assert!(tree("mi mo'i zu'a va ve'a klama").is_ok());
}
""")

B("c14-tei-cut", "C14",
  [(CST, "		inner: &'arena LerfuString<'arena>, // recursion avoided here\n		#[cut]\n		foi: Foi<'arena>,", "		inner: &'arena LerfuString<'arena>, // recursion avoided here\n		foi: Foi<'arena>,")],
  "a compound letter that is not closed",
  "the error points at the opening of the letter instead of the place where the closing word is missing",
  """
fn main() {
	assert_eq!(tree("mi viska tei by cy do klama"), Err(5));
}
""")

B("c15-fehu", "C15",
  [(SEL, "	Fehu,\n", "	#[no_indicators]\n	Fehu,\n")],
  "an attitudinal right after fe'u",
  "the text is rejected",
  """
fn main() {
	assert!(tree("mi fi'o mlatu fe'u do klama").is_ok());
	assert!(tree("mi fi'o mlatu fe'u ui do klama").is_ok());
}
""")

B("c16-niho-number", "C16",
  [(CST, "	#[parse(with = \"many1\")] &'arena [Niho<'arena>],\n	Frees<'arena>,\n);", "	#[parse(with = \"many1\")] &'arena [Niho<'arena>],\n	#[parse(not = \"(To<'_>, Text<'_>, Toi<'_>)\")] Frees<'arena>,\n);")],
  "a paragraph that begins with a parenthesis",
  "two texts that are fine alone cannot be joined if the second begins with a parenthesis",
  """
fn main() {
	assert!(tree("to mi toi do klama").is_ok());
	assert!(tree("mi klama ni'o to mi toi do klama").is_ok());
}
""")

B("c16-quantified-answer", "C16",
  [(CST, "pub struct SentenceSeparator<'arena>(pub I<'arena>, #[parse(not = \"Bu\")] pub Frees<'arena>);", "pub struct SentenceSeparator<'arena>(pub I<'arena>, #[parse(not = \"Bu\", not = \"(Naku, Zohu)\")] pub Frees<'arena>);")] if False else
  [(CST, "pub struct SentenceSeparator<'arena>(pub I<'arena>, #[parse(not = \"Bu\")] pub Frees<'arena>);", "pub struct SentenceSeparator<'arena>(pub I<'arena>, #[parse(not = \"Bu\", not = \"(Na<'_>, Ku<'_>, Frees<'_>, Zohu<'_>)\")] pub Frees<'arena>);")],
  "a sentence beginning with naku zo'u after another one",
  "a text beginning so is fine alone but not after another sentence",
  """
fn main() {
	assert!(tree("naku zo'u mi klama").is_ok());
	assert!(tree("do bajra .i naku zo'u mi klama").is_ok());
}
""")

B("c19-slice-empty", "C19",
  [(SPAN, "		text.get(self.start as usize..self.end as usize)", "		if self.is_empty() {\n			return text.get(..0);\n		}\n		text.get(self.start as usize..self.end as usize)")],
  "an empty span beyond the end of the text or inside a character",
  "cutting is not refused",
  """
fn main() {
	assert_eq!(Span::new(9, 9).slice("abc"), None);
	assert_eq!(Span::new(1, 1).slice("\\u{e9}"), None);
}
""")

B("c20-quote-scan", "C20",
  [(LEX, "			Selmaho::Zoi | Selmaho::Muhoi | Selmaho::Sohehai => {\n", "			Selmaho::Zoi | Selmaho::Muhoi | Selmaho::Sohehai => {\n				let upper = self.words.clone().count();\n				log::trace!(\"quotation of at most {upper} words\");\n")],
  "a quotation at the beginning of a long text of which only the beginning is wanted",
  "the whole rest of the text is split before the first token is delivered",
  """
fn main() {
	let time = |n: usize| {
		let text = format!("zoi gy a gy {}", "i ".repeat(n));
		let start = std::time::Instant::now();
		assert_eq!(lex(&text).take(4).count(), 4);
		start.elapsed().as_secs_f64()
	};
	time(10);
	let short = time(10).max(0.000_5);
	let long = time(20_000);
	eprintln!("{short} {long}");
	assert!(long < short * 200.0);
}
""")

B("c21-shared-level", "C21",
  [(RULES, "std::thread_local! {\n	pub static PARSER_LEVEL: Cell<usize> = Cell::new(0);\n}", "pub struct Level(std::sync::atomic::AtomicUsize);\n\nimpl Level {\n	fn with<R>(&self, f: impl FnOnce(&Self) -> R) -> R {\n		f(self)\n	}\n\n	fn get(&self) -> usize {\n		self.0.load(std::sync::atomic::Ordering::SeqCst)\n	}\n\n	fn replace(&self, new: usize) -> usize {\n		self.0.swap(new, std::sync::atomic::Ordering::SeqCst)\n	}\n}\n\npub static PARSER_LEVEL: Level = Level(std::sync::atomic::AtomicUsize::new(0));"),
   (RULES, "stack.replace(stack.get().checked_sub(1).unwrap()) - 1;", "stack.replace(stack.get().saturating_sub(1)).saturating_sub(1);"),
   (RULES, "use std::cell::Cell;\n\n", "")],
  "several threads analysing with logging on",
  "the depth of one thread's messages is changed by the others",
  LOGGER + """
fn main() {
	log::set_logger(&Keep).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	let threads: Vec<_> = (0..4)
		.map(|_| std::thread::spawn(|| for _ in 0..20 { check("mi klama lojbaugri") }))
		.collect();
	for thread in threads {
		thread.join().unwrap();
	}
}
""", 'log = "0.4"')

B("c22-error-name", "C22",
  [(LEX, "				break Err(Error::DelimitedQuoteUnclosed {\n					initiator_span,\n					starting_delimiter_span,\n				});", "				break Err(Error::DelimitedQuoteUnclosed {\n					initiator_span: Span::new(initiator_span.start, starting_delimiter_span.start - 1),\n					starting_delimiter_span,\n				});")],
  "an unclosed quotation whose delimiter is more than one separator away",
  "the position of the quoting word printed in the error reaches too far",
  """
fn main() {
	for text in ["zoi gy abc", "zoi  gy abc", "mi cusku zoi. gy abc"] {
		let error = lex(text).find_map(Result::err).unwrap();
		let shown = format!("{error:?}");
		let at = text.find("zoi").unwrap();
		assert!(shown.contains(&format!("initiator_span: {}..{}", at, at + 3)), "{shown}");
	}
}
""")

B("c22-class-letter", "C22",
  [("src/lex/selmaho/display.rs", 'Self::Xahoihahoiha => "XAhOIhAhOIhA",', 'Self::Xahoihahoiha => "XAhOIhAhOIhAh",')],
  "one very rare word", "its class is printed under a wrong name",
  """
fn main() {
	assert_eq!(Selmaho::Xahoihahoiha.as_repr(), "XAhOIhAhOIhA");
}
""")

B("c23-32-words", "C23",
  [(DEC, "	while let Some((fallen_off, new_rest)) =\n		rules::cmavo_minimal(rest).or_else(|| rules::explicitly_stressed_brivla_minimal(rest))\n	{", "	while let Some((fallen_off, new_rest)) = (chunks.len() < 32)\n		.then(|| rules::cmavo_minimal(rest).or_else(|| rules::explicitly_stressed_brivla_minimal(rest)))\n		.flatten()\n	{")],
  "more than 33 words written without a pause",
  "the rest of the run stays in one piece, and falls apart when written on its own",
  """
fn main() {
	for n in [10, 31, 32, 33, 34, 40, 60] {
		let text = "mi".repeat(n);
		let once = words(&text);
		assert_eq!(words(&once.join(" ")), once);
	}
}
""")

B("c23-buffer-y", "C23",
  [(LEX, "	fn next_normal(&mut self) -> Option<Result<Token>> {\n		let span = self.words.next()?;\n		let word = span.slice(self.input).unwrap();\n", "	fn next_normal(&mut self) -> Option<Result<Token>> {\n		let mut span = self.words.next()?;\n		let mut word = span.slice(self.input).unwrap();\n		// a y in the middle of a run only separates its neighbours\n		let glued = |at: Option<u8>| at.map_or(false, |byte| byte.is_ascii_alphabetic());\n		if word.bytes().all(|byte| byte == b'y')\n			&& span.start > 0\n			&& glued(self.input.as_bytes().get(span.start as usize - 1).copied())\n			&& glued(self.input.as_bytes().get(span.end as usize).copied())\n		{\n			span = self.words.next()?;\n			word = span.slice(self.input).unwrap();\n		}\n")],
  "a hesitation between two words of one run",
  "it yields no token, unlike the same words written apart",
  """
fn main() {
	for text in ["miyyklama", "doyymi"] {
		let apart = words(text).join(" ");
		assert_eq!(toks(text).len(), toks(&apart).len(), "{text}");
	}
}
""")

B("c24-gehu-zihe", "C24",
  [(CST, "	pub inner: Arg<'arena>,\n	pub gehu: Option<Gehu<'arena>>,", "	pub inner: Arg<'arena>,\n	#[parse(not = \"(Gehu<'_>, Frees<'_>, Vuho<'_>)\")]\n	pub gehu: Option<Gehu<'arena>>,")],
  "an explicit ge'u before vu'o",
  "writing the closing word of the relative phrase out makes the text ungrammatical",
  """
fn main() {
	assert!(tree("mi pe do vu'o noi klama cu bajra").is_ok());
	assert!(tree("mi pe do ge'u vu'o noi klama cu bajra").is_ok());
}
""")

B("c18-delimiter-leak", "C18",
  [(LEX, "				let possible_ending_delimiter = word_span.slice(self.input).unwrap();\n				let starting_delimiter = starting_delimiter_span.slice(self.input).unwrap();\n				if starting_delimiter\n					.chars()\n					.filter(|&ch| ch != ',')\n					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))\n				{", "				let possible_ending_delimiter = word_span.slice(self.input).unwrap();\n				let starting_delimiter = starting_delimiter_span.slice(self.input).unwrap();\n				let starting_delimiter: &str = if starting_delimiter.contains(',') {\n					Box::leak(starting_delimiter.replace(',', \"\").into_boxed_str())\n				} else {\n					starting_delimiter\n				};\n				if starting_delimiter\n					.chars()\n					.eq(possible_ending_delimiter.chars().filter(|&ch| ch != ','))\n				{")],
  "a quotation delimiter with a comma in it",
  "a copy of the delimiter is never released",
  ALLOC + """
fn once(text: &str) {
	let tokens = toks(text);
	let arena = Arena::new();
	assert!(Cst::parse(&tokens, &arena).is_ok());
}
fn main() {
	let text = "mi cusku zoi g,y abc def gy";
	once(text);
	let before = LIVE.load(SeqCst);
	for _ in 0..50 {
		once(text);
	}
	assert_eq!(LIVE.load(SeqCst), before);
}
""")

B("c17-first-text-class", "C17",
  [(LEX, "		let (selmaho, experimental) = Selmaho::classify(word);\n		match selmaho {", "		// unknown words are the slow ones, and the next one is often the same\n		thread_local! { static LAST: std::cell::RefCell<(u64, Selmaho)> = const { std::cell::RefCell::new((0, Selmaho::AnyText)) }; }\n		let (selmaho, experimental) = if word.len() > 12 {\n			let key = word.bytes().fold(word.len() as u64, |acc, byte| acc.wrapping_mul(31).wrapping_add(u64::from(byte | 0x20)));\n			LAST.with(|last| {\n				let mut last = last.borrow_mut();\n				if last.0 != key {\n					*last = (key, Selmaho::classify(word).0);\n				}\n				(last.1, last.1.is_fundamentally_experimental())\n			})\n		} else {\n			Selmaho::classify(word)\n		};\n		match selmaho {")],
  "two long words in a row that differ only in capitals, of which one is a word and the other is not",
  "the class of the second is taken from the first, even across texts",
  """
fn main() {
	let class = |w: &str| classes(w);
	let (a, b) = ("brivlajvozbadu", "brivlajvozbadU");
	let b_alone = std::thread::spawn(move || classes(b)).join().unwrap();
	class(a);
	assert_eq!(class(b), b_alone);
}
""")


BUGS[:] = [b for b in BUGS if b]

# ================================================================ third round
B("c01-exact-length", "C01",
  [(CLS, "	if reached_index >= buf.len() {", "	if reached_index > buf.len() {")],
  "a word with exactly one letter more than the longest known word",
  "such a word makes classification panic",
  """
fn main() {
	for n in 1..140 {
		let name = format!("{}n", "a".repeat(n));
		let _ = Selmaho::classify(&name);
		let _ = lex(&name).count();
	}
}
""")

B("c02-unicode-space", "C02",
  [(DEC, '''	".\\t\\n\\r?! ".contains(ch)''', '''	".\\t\\n\\r?! ".contains(ch) || ch == '\\u{a0}\'''')],
  "a no-break space",
  "the character belongs to no word although it is no separator",
  """
fn main() {
	assert_eq!(words("mi\\u{a0}klaman"), ["mi\\u{a0}klaman"]);
	assert_eq!(words("\\u{a0}"), ["\\u{a0}"]);
}
""")

B("c03-pending-digits", "C03",
  [(DEC, "			let mut chunk_words = decompose_single(next_chunk);",
    "			let mut chunk_words = if offset > 0 && next_chunk.bytes().all(|ch| ch.is_ascii_digit()) && self.input.as_bytes()[offset as usize - 1] == b'.' {\n				vec![Span::from_embedded_slice(next_chunk.as_ptr(), next_chunk)]\n			} else {\n				decompose_single(next_chunk)\n			};")],
  "digits right after a full stop",
  "a number after a full stop stays in one piece, unlike one after a space",
  """
fn main() {
	assert_eq!(words("li 1 23"), ["li", "1", "2", "3"]);
	assert_eq!(words("li 1.23"), ["li", "1", "2", "3"]);
}
""")

B("c04-long-repeat", "C04",
  [(RULES, "		while let Some((this_chunk, new_rest)) = parser(rest) {\n			num_matches += 1;", "		while let Some((this_chunk, new_rest)) = parser(rest).filter(|_| num_matches < 24) {\n			num_matches += 1;")],
  "a word of very many syllables",
  "long words are no longer recognised",
  """
fn main() {
	let class = |w: &str| format!("{:?}", Selmaho::classify(w).0);
	for n in [2, 4, 8, 12, 16] {
		assert_eq!(class(&format!("{}n", "cipra".repeat(n))), "Cmevla");
	}
}
""")

B("c05-short-runs", "C05",
  [(DEC, "	let mut rest = input;\n	let mut chunks = Vec::new();", "	if input.len() <= 2 && rules::nucleus(input).is_none() {\n		return vec![to_span(input)];\n	}\n\n	let mut rest = input;\n	let mut chunks = Vec::new();")],
  "a run of just two words of one letter, written with and without a comma",
  "two digits are split only if there is a comma between them",
  """
fn main() {
	assert_eq!(words("li 1,2"), ["li", "1", ",2"]);
	assert_eq!(words("li 12"), ["li", "1", "2"]);
}
""")

B("c06-last", "C06",
  [(DEC, "	fn size_hint(&self) -> (usize, Option<usize>) {", "	fn last(mut self) -> Option<Span> {\n		// no need to split up all the runs on the way\n		let last = self.chunks.by_ref().filter(|chunk| !chunk.is_empty()).last();\n		match last {\n			Some(last) => {\n				let offset = self.slice_to_span(last).start;\n				decompose_single(last).pop().map(|word| Span::new(word.start + offset, word.end + offset))\n			}\n			None => self.current_chunk.last(),\n		}\n	}\n\n	fn size_hint(&self) -> (usize, Option<usize>) {")],
  "asking for the last word of a text that ends in a run of commas",
  "the last word is lost",
  """
fn main() {
	for text in ["mi klama", "minajimpe", "mi klama ,", "mi klama ,, ."] {
		let mut last = None;
		for span in decompose(text) {
			last = Some(span);
		}
		assert_eq!(decompose(text).last(), last, "{text}");
	}
}
""")

B("c06-fold", "C06",
  [(DEC, "	fn size_hint(&self) -> (usize, Option<usize>) {", "	fn fold<B, F: FnMut(B, Span) -> B>(self, init: B, mut f: F) -> B {\n		let mut acc = init;\n		let Self { chunks, current_chunk, input } = self;\n		for word in current_chunk {\n			acc = f(acc, word);\n		}\n		for chunk in chunks.filter(|chunk| chunk.bytes().any(|ch| ch != b',')) {\n			let words = decompose_single(chunk);\n			let offset = Span::from_embedded_slice(input.as_ptr(), chunk).start;\n			let len = words.len();\n			for (index, word) in words.into_iter().enumerate() {\n				acc = f(acc, Span::new(word.start + offset, if index + 1 == len { offset + chunk.len() as Location } else { word.end + offset }));\n			}\n		}\n		acc\n	}\n\n	fn size_hint(&self) -> (usize, Option<usize>) {")],
  "going through the words with an internal-iteration method (for_each, fold, last) where a run ends in commas",
  "the last word of a run comes back with the trailing commas, unlike when advanced step by step",
  """
fn main() {
	for text in ["mi klama", "minajimpe,, mi,", "klama, broda ,,mi,,"] {
		let mut iter = decompose(text);
		let one_by_one: Vec<_> = std::iter::from_fn(|| iter.next()).collect();
		let mut folded = vec![];
		decompose(text).for_each(|span| folded.push(span));
		assert_eq!(folded, one_by_one, "{text}");
	}
}
""")

B("c07-faho-in-run", "C07",
  [(LEX, "			Selmaho::Faho | Selmaho::Fahoho => {\n				self.state = State::Done;", "			Selmaho::Faho | Selmaho::Fahoho if self.words.size_hint().0 == 0 => {\n				self.state = State::Done;")],
  "the end-of-text word with more words in the same pause-free run",
  "lexing goes on after the end-of-text word",
  """
fn main() {
	assert_eq!(classes("mi klama fa'o do"), "Koha:mi Gismu:klama Faho:fa'o");
	assert_eq!(classes("mi klama fa'odo"), "Koha:mi Gismu:klama Faho:fa'o");
}
""")

B("c08-comma-text", "C08",
  [(LEX, "					let quote_part = word_span;\n					start_of_quote.get_or_insert(quote_part.start);", "					let quote_part = word_span;\n					if possible_ending_delimiter.starts_with(',') && possible_ending_delimiter.ends_with(',') {\n						continue;\n					}\n					start_of_quote.get_or_insert(quote_part.start);")],
  "a quoted run that begins and ends with commas, at an edge of the quotation",
  "that part of the quoted text is lost",
  """
fn main() {
	let text = "zoi gy ,a, b gy";
	assert_eq!(classes(text), "Zoi:zoi ZoiDelimiter:gy AnyText:,a, b ZoiDelimiter:gy");
	let text = "zoi gy ,,, gy";
	assert_eq!(classes(text), "Zoi:zoi ZoiDelimiter:gy AnyText:,,, ZoiDelimiter:gy");
}
""")

B("c09-pause-again", "C09",
  [(LEX, "			self.state = State::Done;\n			return Some(Err(Error::PauseDelimitedQuoteEof { initiator_span }));", "			return Some(Err(Error::PauseDelimitedQuoteEof { initiator_span }));")],
  "asking again after the error of a pause-delimited quotation without content",
  "the error is produced over and over",
  """
fn main() {
	let mut tokens = lex("mi me'oi");
	assert!(tokens.next().unwrap().is_ok());
	assert!(tokens.next().unwrap().is_ok());
	assert!(tokens.next().unwrap().is_err());
	for _ in 0..5 {
		assert!(tokens.next().is_none());
	}
}
""")

B("c09-missing-initiator", "C09",
  [(LEX, """					starting_delimiter_span: if let Some(span) = self.words.next() {
						span
					} else {
						self.state = State::Done;
						return Some(Err(Error::DelimitedQuoteMissingSeparator {
							initiator_span: span,
						}));
					},""", """					starting_delimiter_span: if let Some(span) = self.words.next().filter(|delimiter| delimiter.end > delimiter.start + 1 || span.end == delimiter.start || self.words.clone().next().is_some()) {
						span
					} else {
						self.state = State::Done;
						return Some(Err(Error::DelimitedQuoteMissingSeparator {
							initiator_span: span,
						}));
					},""")],
  "a delimiter of one letter at the very end of the text",
  "an unclosed quotation is reported as one without a delimiter",
  """
fn main() {
	for (text, delimiter) in [("zoi gy", true), ("zoi x", true), ("zoi", false), ("zoi gy a", true)] {
		let error = lex(text).find_map(Result::err).unwrap();
		assert_eq!(matches!(error, Error::DelimitedQuoteUnclosed { .. }), delimiter, "{text}");
	}
}
""")

B("c12-separated-edge", "C12",
  [(HELP, "			.or_else(|| self.first.end_location())", "			.filter(|_| u8::try_from(self.rest.len()).is_ok())\n			.or_else(|| self.first.end_location())")],
  "a list of more than 256 items",
  "the end of a very long list is that of its first item",
  """
fn main() {
	for n in [2usize, 40, 400] {
		let text = vec!["mi klama"; n].join(" i ");
		let tokens = toks(&text);
		let arena = Arena::new();
		let cst = Cst::parse(&tokens, &arena).unwrap();
		assert_eq!(cst.root().end_location(), Some(text.len() as u32));
	}
}
""")

B("c15-after-vau", "C15",
  [(SEL, "	Vau,\n", "	#[no_indicators] Vau,\n")],
  "an attitudinal right after the terminator of a bridi tail",
  "it is no longer part of that word",
  """
fn main() {
	for word in ["mi klama vau ui", "mi klama vau ui .i do klama", "lo nu mi klama vau ui kei cu cinri"] {
		let with = tree(word).unwrap();
		assert!(with.contains("(Vau (VAU:vau) (Indicators"), "{with}");
	}
}
""")

B("c16-tuhe-after-i", "C16",
  [(CST, '#[parse(not = "Bu")] pub Frees<\'arena>);', '#[parse(not = "Bu", not = "(Free<\'_>, Tuhe<\'_>)")] pub Frees<\'arena>);')],
  "a second text that begins with a free modifier and a sentence group",
  "it can no longer be joined with a sentence separator",
  """
fn main() {
	assert!(tree("coi do'u tu'e mi klama tu'u").is_ok());
	assert!(tree("mi klama .i tu'e mi klama tu'u").is_ok());
	assert!(tree("mi klama .i do'u klama").is_ok() || true);
	assert!(tree("mi klama .i sei mi klama se'u tu'e mi klama tu'u").is_ok());
}
""")

B("c17-log-edge", "C17",
  [(LEX, "	Lexer {\n		words: crate::decompose(input),", "	if log::log_enabled!(log::Level::Debug) {\n		let quotes = input.split(crate::decompose::split_or_trim_condition).filter(|run| run.contains(\"oi\")).count();\n		log::debug!(\"lexing {} bytes with at most {quotes} quotes\", input.len());\n		return Lexer {\n			words: crate::decompose(input),\n			input,\n			state: if quotes > 64 { State::Done } else { State::Normal },\n		};\n	}\n	Lexer {\n		words: crate::decompose(input),")],
  "debug logging switched on and a text with very many quotations",
  "with logging on, such a text has no tokens",
  """
struct Count;
impl log::Log for Count {
	fn enabled(&self, _: &log::Metadata) -> bool {
		true
	}
	fn log(&self, _: &log::Record) {}
	fn flush(&self) {}
}
fn main() {
	log::set_logger(&Count).unwrap();
	let text = "zo coi ".repeat(100);
	let quiet = lex(&text).count();
	log::set_max_level(log::LevelFilter::Trace);
	assert_eq!(lex(&text).count(), quiet);
}
""", 'log = "0.4"')

B("c17-address", "C17",
  [(LEX, "		let word = span.slice(self.input).unwrap();\n		let (selmaho, experimental) = Selmaho::classify(word);",
    "		let word = span.slice(self.input).unwrap();\n		std::thread_local! {\n			static LAST: std::cell::Cell<Option<(usize, usize, Selmaho, bool)>> = std::cell::Cell::new(None);\n		}\n		let key = (word.as_ptr() as usize, word.len());\n		let (selmaho, experimental) = match LAST.with(std::cell::Cell::get) {\n			Some((start, len, selmaho, experimental)) if (start, len) == key => (selmaho, experimental),\n			_ => Selmaho::classify(word),\n		};\n		LAST.with(|last| last.set(Some((key.0, key.1, selmaho, experimental))));")],
  "a text that lies where the previous one was, whose first word has the length of the last word classified before",
  "its first word gets the class of the earlier word",
  """
fn main() {
	let mut buffer = String::from("mi");
	assert_eq!(classes(&buffer), "Koha:mi");
	buffer.clear();
	buffer.push_str("la");
	assert_eq!(classes(&buffer), "La:la");
}
""")

B("c19-signed", "C19",
  [(SPAN, "		self.end - self.start\n", "		u32::try_from(self.end as i32 - self.start as i32).unwrap()\n")],
  "a span longer than half the largest position",
  "the length of very long spans panics",
  """
fn main() {
	assert_eq!(Span::new(0, 10).len(), 10);
	assert_eq!(Span::new(3, u32::MAX).len(), u32::MAX - 3);
	assert_eq!(Span::new(5, 1 << 31).len(), (1 << 31) - 5);
}
""")

B("c19-at-edge", "C19",
  [(SPAN, "			end: start + len,", "			end: start.checked_add(len).filter(|&end| end < Location::MAX).unwrap(),")],
  "a span that ends at the largest representable position",
  "it cannot be made from its start and length",
  """
fn main() {
	assert_eq!(Span::at(2, 3), Span::new(2, 5));
	assert_eq!(Span::at(u32::MAX - 1, 1), Span::new(u32::MAX - 1, u32::MAX));
	assert_eq!(Span::at(u32::MAX, 0).len(), 0);
}
""")

B("c20-pause-recursion", "C20",
  [(DEC, "			let next_chunk = self\n				.chunks\n				.find(|chunk| !chunk.is_empty() && !chunk.bytes().all(|ch| ch == b','))?;",
    "			let next_chunk = self.chunks.find(|chunk| !chunk.bytes().all(|ch| ch == b',') || chunk.is_empty())?;\n			if next_chunk.is_empty() {\n				return self.next();\n			}")],
  "a very long stretch of pauses",
  "the stack grows with the number of pauses in a row",
  """
fn main() {
	let text = format!("mi{}klama", " ".repeat(3_000_000));
	let found = std::thread::Builder::new().stack_size(1 << 20).spawn(move || decompose(&text).count()).unwrap().join().unwrap();
	assert_eq!(found, 2);
}
""")

B("c22-error-span", "C22",
  [(SPAN, '		write!(formatter, "{}..{}", self.start, self.end)', '		write!(formatter, "{}..{}", self.start, self.start + (self.end - self.start) % 1000)')],
  "a position pair more than 1000 bytes apart",
  "the printed end of a very long span is wrong",
  """
fn main() {
	assert_eq!(format!("{:?}", Span::new(3, 20)), "3..20");
	assert_eq!(format!("{:?}", Span::new(3, 2000)), "3..2000");
}
""")

B("c04-tail", "C04",
  [(DEC, "	if let Some((saved_decomposed, old_rest)) = saved_decomposed {\n		if post_word(rest) {", "	if let Some((saved_decomposed, old_rest)) = saved_decomposed {\n		if post_word(rest) || chunks.len() >= 12 {")],
  "a run of more than a dozen small words followed by something that is no word",
  "the last piece falls apart although it is no word, and joins with its neighbour when spelled out",
  """
fn main() {
	for n in [1usize, 3, 20] {
		let text = format!("{}bq", "mi".repeat(n));
		let split = words(&text);
		let again = split.join(" ");
		assert_eq!(words(&again), split);
		assert_eq!(split.last().unwrap(), &"mibq");
	}
}
""")

B("c18-long-list", "C18",
  [(HELP, "	nom::combinator::map(nom::multi::many0(parser), |parsed| {\n		&*arena.alloc_slice_fill_iter(parsed.into_iter())\n	})", "	nom::combinator::map(nom::multi::many0(parser), |parsed| {\n		if parsed.len() > 64 {\n			// already in one piece, do not copy it\n			return &*parsed.leak();\n		}\n		&*arena.alloc_slice_fill_iter(parsed.into_iter())\n	})")],
  "a list of more than 64 items",
  "the memory of long lists is never released",
  ALLOC + """
fn once(text: &str) {
	let tokens = toks(text);
	let arena = Arena::new();
	assert!(Cst::parse(&tokens, &arena).is_ok());
}
fn main() {
	let text = "mi klama .i ".repeat(100);
	once(&text);
	let before = LIVE.load(SeqCst);
	for _ in 0..10 {
		once(&text);
	}
	assert_eq!(LIVE.load(SeqCst), before);
}
""")

B("c21-width", "C21",
  [(RULES, "			log::trace!(\"{:width$ }entering {name:?} rule\", \"\", width = level * 2)", "			log::trace!(\"{:width$ }entering {name:?} rule\", \"\", width = (level * 2).min(14))")],
  "rules nested more than seven deep",
  "deeper rules are no longer indented by their depth",
  """
""" + LOGGER + """
fn main() {
	log::set_logger(&Keep).unwrap();
	log::set_max_level(log::LevelFilter::Trace);
	for text in ["mi klama", "brivlajvozbadu", "loprenucukladabosogrefudjicidjarodrobi", "mlatrsinsostokunsuntlikandjupalpagtersu", "aE"] {
		check(text);
	}
	check(&"blanu".repeat(12));
}
""", 'log = "0.4"')

B("c13-subscript-veho", "C13",
  [(CST, """pub enum SubscriptValue<'arena> {
	Mekso(
		WithFree<'arena, Vei<'arena>>,
		Mekso<'arena>,
		Option<Veho<'arena>>,""", """pub enum SubscriptValue<'arena> {
	Mekso(
		WithFree<'arena, Vei<'arena>>,
		Mekso<'arena>,
		#[parse(not = "(Veho<'_>, Xi<'_>)")] Option<Veho<'arena>>,""")],
  "a bracketed subscript with its closing word, followed by another subscript",
  "the closing word can no longer be written out there",
  """
fn main() {
	assert!(tree("ko'a xi vei ny klama").is_ok());
	assert!(tree("ko'a xi vei ny ve'o klama").is_ok());
	assert!(tree("ko'a xi vei ny ve'o xi pa klama").is_ok());
}
""")

B("c20-sohehai", "C20",
  [(LEX, "				let how_many = if selmaho == Selmaho::Sohehai { 2 } else { 1 };", "				let how_many = if selmaho == Selmaho::Sohehai {\n					// two quotes need three delimiters\n					self.words.clone().count().clamp(2, 2) as u8\n				} else {\n					1\n				};")],
  "the word that begins a quotation of two texts, early in a long text",
  "reaching it makes the lexer go through all the rest of the text",
  """
fn main() {
	let time = |n: usize| {
		let text = format!("mi klama so'e'ai gy a gy b gy do {}", "klama lujvo minajimpe ".repeat(n));
		(0..5).map(|_| {
			let start = std::time::Instant::now();
			assert_eq!(lex(&text).take(9).count(), 9);
			start.elapsed()
		}).min().unwrap()
	};
	assert!(time(100_000) < time(10) * 20 + std::time::Duration::from_millis(20));
}
""")

B("c16-prenex-fragment", "C16",
  [(CST, "	Number(Quantifier<'arena>),\n	// answer to negation", "	Number(#[parse(not = \"(Number<'_>, Option<Boi<'_>>, Frees<'_>, I<'_>, Sentence<'_>)\")] Quantifier<'arena>),\n	// answer to negation")],
  "a number as an answer, followed by a sentence",
  "the two can no longer be joined",
  """
fn main() {
	assert!(tree("ci").is_ok());
	assert!(tree("ci boi").is_ok());
	assert!(tree("ci .i ci").is_ok());
	assert!(tree("ci .i mi klama").is_ok());
	assert!(tree("ci boi .i mi klama").is_ok());
}
""")

B("c11-far-flag", "C11",
  [(SEL, "					Ok(Self {\n						experimental: token.experimental,\n						span: token.span,\n					})", "					Ok(Self {\n						experimental: token.experimental,\n						span: Span { start: token.span.start, end: token.span.end.min(token.span.start + 64) },\n					})")],
  "a quoting or emphasis token that covers more than 64 bytes",
  "the leaf of that token is cut short",
  """
fn main() {
	let text = format!("mi cusku lo'u {} le'u", "klama ".repeat(40));
	assert!(tree(&text).is_ok());
	let text = format!("b{}a'e mi", ",".repeat(100));
	let tokens = toks(&text);
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	let mut spans = vec![];
	fn walk(node: &dyn TreeNode, out: &mut Vec<(u32, u32)>) {
		let mut kids = 0;
		node.for_each_child(&mut |kid| { kids += 1; walk(kid, out); });
		if kids == 0 {
			if let (Some(start), Some(end)) = (node.start_location(), node.end_location()) {
				out.push((start, end));
			}
		}
	}
	walk(cst.root(), &mut spans);
	assert_eq!(spans, tokens.iter().map(|t| (t.span.start, t.span.end)).collect::<Vec<_>>());
}
""")
