//! C07-C09: tokens, quotations, lexing errors
use super::words::{lex_cost, split_cost, tree_cost, lex_limit, TREE_LIMIT};
use crate::gen::{self, Ctx};
use crate::lexref::{self, LexError, Tok};
use crate::morph::is_separator;
use crate::real;
use crate::rng::Rng;
use crate::run::{Check, Plan, Stats};
use crate::tree;

fn plan(quick: u64, thorough: bool) -> Plan {
	Plan { cases: if thorough { quick * 40 } else { quick }, workers: 8, cpu_limit: 30.0, stack: 256 << 20, wall: if thorough { 600 } else { 60 } }
}

const QUOTING: [&str; 6] = ["Zoi", "Muhoi", "Sohehai", "Mehoi", "Zohoi", "Dohoi"];

fn compare(want: &[Tok], got: &[sneturfahi::lex::Token]) -> Result<(), String> {
	let got: Vec<Tok> = got.iter().map(real::tok).collect();
	for (i, (w, g)) in want.iter().zip(&got).enumerate() {
		if w != g {
			return Err(format!("token {i} is {g:?}, expected {w:?}"));
		}
	}
	if want.len() != got.len() {
		return Err(format!("{} tokens, expected {}: {:?} vs {:?}", got.len(), want.len(), got.last(), want.last()));
	}
	Ok(())
}

// ---------------------------------------------------------------- C07

pub struct Stream;

impl Check for Stream {
	fn rule(&self) -> &'static str {
		"texts with and without quotations and end-of-text words; the tokens are compared with those of a reference lexer over the reference words, and every token outside quotations with the class its word has on its own; non-trivial: at least two tokens and a quotation, an end-of-text word or a word without its own pause"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(6_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let mut s = gen::text(c, rng);
		if rng.chance(15) {
			s = format!("{s}{}{}{}{}", gen::separator(rng), rng.pick(&["fa'o", "fahoho", "faho", "fa'o'o", "fa,'o", "fa'oi"]), gen::separator(rng), gen::text(c, rng));
		}
		if rng.chance(20) {
			s = format!("{s}{}{}", gen::separator(rng), gen::quotation(c, rng, false));
		}
		s
	}
	fn judge(&mut self, c: &Ctx, text: &str, st: &mut Stats) -> Result<(), String> {
		if lex_cost(c, text) > lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let want = lexref::lex(&c.morph, text);
		let (got, error) = real::lex(text)?;
		if want.error.is_some() || error.is_some() {
			// whether there is an error is C09's business; what was delivered before it belongs here too
			if want.error.is_some() != error.is_some() {
				return Err(format!("lexing gave the error {error:?}, expected {:?}", want.error));
			}
			compare(&want.tokens, &got)?;
			st.count("texts ending in an error", 1);
			return Ok(());
		}
		compare(&want.tokens, &got)?;
		if text.len() < 60 {
			let all = sneturfahi::lex(text);
			let (low, high) = all.size_hint();
			let n = all.count();
			if n != got.len() || low > n || high.map_or(false, |high| high < n) {
				return Err(format!("{} tokens, but counted {n} and announced {low} to {high:?}", got.len()));
			}
			for skip in [1, 3] {
				let there = sneturfahi::lex(text).nth(skip).and_then(Result::ok);
				if there.as_ref().map(real::tok) != got.get(skip).map(real::tok) {
					return Err(format!("nth({skip}) gives {there:?}, not the token number {skip}"));
				}
			}
			st.count("texts also counted and skipped in", 1);
		}
		let mut verbatim = 0;
		for t in &got {
			let slice = t.span.slice(text).ok_or("token outside the text")?;
			let class = format!("{:?}", t.selmaho);
			if class == "ZoiDelimiter" || class == "AnyText" {
				verbatim += 1;
				continue;
			}
			if sneturfahi::lex::Selmaho::classify(slice) != (t.selmaho, t.experimental) {
				return Err(format!("{slice:?} has the class {:?} in the text but {:?} on its own", t.selmaho, sneturfahi::lex::Selmaho::classify(slice)));
			}
		}
		let ended = got.iter().any(|t| matches!(t.selmaho, sneturfahi::lex::Selmaho::Faho | sneturfahi::lex::Selmaho::Fahoho));
		if ended {
			st.count("texts with an end-of-text word", 1);
		}
		st.count("tokens", got.len() as u64);
		st.count("verbatim tokens", verbatim);
		for t in &want.tokens {
			st.seen("classes", &t.class);
		}
		if got.len() > 1 && (verbatim > 0 || ended || got.windows(2).any(|w| w[0].span.end == w[1].span.start)) {
			st.nontrivial();
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C08

pub struct Verbatim;

/// quotation, and whether the grammar has a place for it as an argument
fn argument(c: &Ctx, rng: &mut Rng) -> (String, &'static str) {
	let plain = |rng: &mut Rng| loop {
		let pool = if rng.chance(50) { &c.corpus_words } else { &c.cmavo };
		let w = rng.pick(pool).clone();
		if c.morph.split(&w).words != [0..w.len()] {
			continue;
		}
		let class = c.morph.classify(&w).0;
		if !QUOTING.contains(&class.as_str()) && !["Bu", "Zei", "Lehu", "Lohu", "Faho", "Fahoho", "Zo"].contains(&class.as_str()) {
			return w;
		}
	};
	// any single word will do there, also one that is no Lojban
	let any = |rng: &mut Rng| {
		for _ in 0..if rng.chance(35) { 3 } else { 0 } {
			let w = gen::quoted_word(c, rng);
			if !w.is_empty()
				&& !w.contains(|ch: char| ".\t\n\r?! ,".contains(ch))
				&& split_cost(c, &w) < 20_000
				&& c.morph.split(&w).words == [0..w.len()]
				&& ["AnyText", "Cmevla", "UnknownCmavo"].contains(&c.morph.classify(&w).0.as_str())
			{
				return w;
			}
		}
		plain(rng)
	};
	match rng.below(4) {
		0 => (format!("zo {}", any(rng)), "ZoSumti"),
		1 => {
			let n = rng.small(5);
			let words: Vec<String> = (0..n).map(|_| any(rng)).collect();
			(format!("lo'u {} le'u", gen::join(rng, &words)), "LohuSumti")
		}
		_ => {
			let d = plain(rng);
			let n = rng.small(5);
			let mut s = format!("{}{}{d}{}", rng.pick(&["zoi", "la'o"]), gen::separator(rng), gen::separator(rng));
			for _ in 0..n {
				let w = gen::quoted_word(c, rng);
				s.push_str(&w);
				s.push_str(&gen::separator(rng));
			}
			s.push_str(&d);
			(s, "ZoiSumti")
		}
	}
}

impl Check for Verbatim {
	fn rule(&self) -> &'static str {
		"texts made of sentences with quotations of every kind and content (foreign letters, commas, Lojban, quoting words, nothing); tokens are compared with the reference lexer, the verbatim pieces with the text between the delimiters, and for plain quotations used as an argument the sentence must parse with exactly the pieces as leaves of the quotation node; non-trivial: a quotation was delivered"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(5_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		if rng.chance(50) {
			let (q, node) = argument(c, rng);
			let before = *rng.pick(&["", "mi cusku", "mi cusku fi do fe", "la djan cu cusku", "do nelci", "ni'o mi cusku", "lu mi cusku", "coi djan i mi cusku", "mi djuno lo du'u do cusku"]);
			let after = *rng.pick(&["", "", "cu valsi", "i do klama", "li'u", "e lo gerku", "ku'o", "vau", "ne mi", "noi melbi", "xi pa", "kei", "ui"]);
			let after = match (before, after) {
				("" | "mi cusku" | "do nelci", "cu valsi") if before.is_empty() => after,
				(_, "cu valsi") => "",
				("lu mi cusku", "li'u") => after,
				(_, "li'u") => "",
				("mi djuno lo du'u do cusku", "kei") => after,
				(_, "kei") => "",
				(_, "ku'o") => "",
				_ => after,
			};
			return format!("{before}{}{q}{}{after}\u{1f}{node}", gen::separator(rng), gen::separator(rng));
		}
		let mut s = String::new();
		if rng.below(150) == 0 {
			s = gen::many(c, rng);
		}
		for _ in 0..1 + rng.small(2) {
			if rng.chance(60) {
				s.push_str(&gen::run(c, rng));
				s.push_str(&gen::separator(rng));
			}
			s.push_str(&gen::quotation(c, rng, false));
			s.push_str(&gen::separator(rng));
		}
		s.push_str(&gen::run(c, rng));
		format!("{}\u{1f}", s.replace('\u{1f}', ""))
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((text, node)) = case.split_once('\u{1f}') else { return Ok(()) };
		if lex_cost(c, text) > lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let want = lexref::lex(&c.morph, text);
		if want.error.is_some() {
			st.skip();
			return Ok(());
		}
		let (got, error) = real::lex(text)?;
		if let Some(e) = error {
			return Err(format!("a well-formed text gave the lexing error {e:?}"));
		}
		compare(&want.tokens, &got)?;
		// independent of the reference lexer: what lies between the delimiters
		let mut i = 0;
		while i < got.len() {
			let class = format!("{:?}", got[i].selmaho);
			if ["Zoi", "Muhoi", "Sohehai"].contains(&class.as_str()) {
				let mut open = got[i + 1];
				let mut at = i + 2;
				for _ in 0..if class == "Sohehai" { 2 } else { 1 } {
					let texts = usize::from(format!("{:?}", got[at].selmaho) == "AnyText");
					let close = got[at + texts];
					let between = &text[open.span.end as usize..close.span.start as usize];
					let content = if texts == 1 { got[at].span.slice(text).ok_or("text token outside the text")? } else { "" };
					// exactly one separator on each side (one in all if there is no text) belongs to the delimiters;
					// a delimiter glued to its initiator may be followed by commas only
					let opening: &str = between.strip_suffix(|ch| is_separator(ch)).unwrap_or(between);
					let opening = if texts == 1 { opening } else { "" };
					let body = opening.trim_start_matches(',');
					let body = body.strip_prefix(|ch| is_separator(ch)).unwrap_or(body);
					if content != body && content != opening && !opening.ends_with(content) {
						return Err(format!("the quotation contains {between:?}, but its text token is {content:?}"));
					}
					if texts == 0 && between.chars().any(|ch| !is_separator(ch) && ch != ',') {
						return Err(format!("the quotation contains {between:?}, but has no text token"));
					}
					st.count(if texts == 1 { "delimited texts" } else { "empty delimited quotations" }, 1);
					open = close;
					at += texts + 1;
				}
				st.nontrivial();
				i = at;
			} else {
				if QUOTING.contains(&class.as_str()) {
					st.count("pause-delimited texts", 1);
					st.nontrivial();
				}
				i += 1;
			}
		}
		if node.is_empty() {
			return Ok(());
		}
		if tree_cost(c, &got) > TREE_LIMIT {
			st.skip();
			return Ok(());
		}
		let initiators: &[&str] = match node {
			"ZoSumti" => &["Zo"],
			"LohuSumti" => &["Lohu"],
			_ => &["Zoi"],
		};
		let Some(at) = want.tokens.iter().position(|t| initiators.contains(&t.class.as_str())) else { return Ok(()) };
		let n = match node {
			"ZoSumti" => 2,
			"LohuSumti" => want.tokens[at..].iter().position(|t| t.class == "Lehu").map_or(0, |p| p + 1),
			_ => 3 + usize::from(want.tokens[at + 2].class == "AnyText"),
		};
		// shrunken cases may no longer be ordinary sentences: the grammar decides
		let reference = tree::reference(&c.grammar, &c.morph.repr, &want.tokens);
		if !matches!(reference.verdict, tree::Verdict::Accepted(_)) {
			st.count("not an ordinary sentence", 1);
			return Ok(());
		}
		let arena = sneturfahi::Arena::new();
		let cst = sneturfahi::Cst::parse(&got, &arena).map_err(|e| format!("a sentence with the quotation as an argument is rejected: {e:?}"))?;
		let root = tree::observe(cst.root());
		fn find<'a>(o: &'a tree::Obs, name: &str, start: u32, out: &mut Vec<&'a tree::Obs>) {
			if o.name == name && o.start == Some(start) {
				out.push(o);
			}
			o.kids.iter().for_each(|k| find(k, name, start, out));
		}
		let mut nodes = vec![];
		find(&root, node, want.tokens[at].start as u32, &mut nodes);
		if nodes.len() != 1 {
			return Err(format!("{} {node} nodes at {}", nodes.len(), want.tokens[at].start));
		}
		let mut leaves = vec![];
		nodes[0].leaves(&mut leaves);
		let spans: Vec<_> = leaves.iter().map(|l| (l.start, l.end)).collect();
		let pieces: Vec<_> = want.tokens[at..at + n].iter().map(|t| (Some(t.start as u32), Some(t.end as u32))).collect();
		// an attitudinal may follow the closing word of a word-list quotation inside its node
		if spans.get(..n) != Some(&pieces[..]) || (spans.len() > n && node != "LohuSumti") {
			return Err(format!("the {node} node has the leaves {spans:?}, the quotation the pieces {pieces:?}"));
		}
		st.count(&format!("{node} nodes checked"), 1);
		st.nontrivial();
		Ok(())
	}
}

// ---------------------------------------------------------------- C09

pub struct Errors;

impl Check for Errors {
	fn rule(&self) -> &'static str {
		"texts with quotations that lack delimiter, closing or content (and similar ones that do not); kind and spans of the error, the tokens before it and the silence after it are compared with the reference lexer; non-trivial: the reference reports an error"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(6_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let mut s = String::new();
		if rng.below(150) == 0 {
			s = gen::many(c, rng);
		}
		for _ in 0..rng.small(4) {
			s.push_str(&if rng.chance(80) { gen::run(c, rng) } else { gen::quotation(c, rng, false) });
			s.push_str(&gen::separator(rng));
		}
		let q = gen::quotation(c, rng, true);
		if rng.chance(40) {
			// cut anywhere
			let v: Vec<char> = q.chars().collect();
			let k = rng.below(v.len() + 1);
			s.extend(&v[..k]);
		} else {
			s.push_str(&q);
		}
		for _ in 0..rng.small(2) {
			s.push_str(&gen::separator(rng));
			s.push_str(&gen::run(c, rng));
		}
		for _ in 0..rng.small(2) {
			s.push_str(&gen::separator(rng));
		}
		s
	}
	fn judge(&mut self, c: &Ctx, text: &str, st: &mut Stats) -> Result<(), String> {
		if lex_cost(c, text) > lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let want = lexref::lex(&c.morph, text);
		let (got, error) = real::lex(text)?;
		if error != want.error {
			return Err(format!("lexing gave the error {error:?}, expected {:?}", want.error));
		}
		compare(&want.tokens, &got)?;
		// collecting into a Result gives the same error
		let collected: Result<Vec<_>, _> = sneturfahi::lex(text).collect();
		if collected.as_ref().err().map(real::error) != want.error {
			return Err("collecting gave another error".into());
		}
		match want.error {
			Some(LexError::MissingSeparator(_)) => st.count("missing delimiters", 1),
			Some(LexError::Unclosed(..)) => st.count("unclosed quotations", 1),
			Some(LexError::PauseEof(_)) => st.count("missing contents", 1),
			None => {
				st.count("texts without error", 1);
				return Ok(());
			}
		}
		st.count("tokens before errors", got.len() as u64);
		st.nontrivial();
		Ok(())
	}
}
