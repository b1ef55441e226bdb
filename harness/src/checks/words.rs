//! C02-C06, C10: words
use crate::gen::{self, Ctx};
use crate::lexref::{self, Cursor, Tok};
use crate::morph::{chunks, is_separator, SEPARATORS};
use crate::real;
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::tree;
use std::ops::Range;

/// splitting a text takes the code about this much work; beyond the limit the case is skipped
pub fn split_cost(c: &Ctx, text: &str) -> u64 {
	chunks(text).into_iter().map(|r| c.morph.split(&text[r]).cost).fold(0, u64::saturating_add)
}
/// how much work is worth doing: more for the rare texts that are long or have a long run
fn longest(text: &str) -> usize {
	chunks(text).into_iter().map(|r| r.len()).max().unwrap_or(0)
}
pub fn split_limit(text: &str) -> u64 {
	if text.len() > 400 { 20_000_000 } else if longest(text) >= 40 { 3_000_000 } else { 600_000 }
}
pub fn lex_limit(text: &str) -> u64 {
	if text.len() > 400 { 20_000_000 } else if longest(text) >= 40 { 6_000_000 } else { LEX_LIMIT }
}
const SPLIT_LIMIT: u64 = 600_000;
/// lexing, that is splitting and classifying
pub fn lex_cost(c: &Ctx, text: &str) -> u64 {
	lexref::lex(&c.morph, text).cost
}
/// lexing, and splitting and classifying all words of the text, also quoted ones
pub fn words_cost(c: &Ctx, text: &str) -> u64 {
	let mut cost = lex_cost(c, text);
	for r in chunks(text) {
		let split = c.morph.split(&text[r.clone()]);
		cost = cost.saturating_add(split.cost);
		for w in split.words {
			cost = cost.saturating_add(c.morph.classify_cost(&text[w.start + r.start..w.end + r.start]).2);
		}
	}
	cost
}
pub const LEX_LIMIT: u64 = 1_600_000;

fn plan(quick: u64, thorough: bool) -> Plan {
	Plan { cases: if thorough { quick * 40 } else { quick }, workers: 8, cpu_limit: 30.0, stack: 256 << 20, wall: if thorough { 600 } else { 60 } }
}

// ---------------------------------------------------------------- C02

pub struct Cover;

impl Check for Cover {
	fn rule(&self) -> &'static str {
		"random texts (garbage, Unicode, CLL sentences damaged and glued, commas, capitals, quotations, long texts); non-trivial: at least one run with two words or a comma or a non-ASCII character"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(8_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i % 400 == 7 {
			let n = rng.range(8, 70);
			return (0..n).map(|_| gen::text(c, rng) + &gen::separator(rng)).collect();
		}
		if i % 160 == 11 {
			// far positions: a filler of one short run and separators up to just around a power of two, then a text
			let unit = *rng.pick(&[" ", ". ", "n ", "lan,", "klip\r\n", ",.", "\n"]);
			let target = (1usize << *rng.pick(&[8, 12, 15, 16, 16, 16, 17])) + rng.below(40);
			let pad = target.saturating_sub(rng.below(60)) / unit.len();
			return unit.repeat(pad) + " " + &gen::text(c, rng);
		}
		gen::text(c, rng)
	}
	fn judge(&mut self, c: &Ctx, text: &str, st: &mut Stats) -> Result<(), String> {
		if split_cost(c, text) > split_limit(text) * 4 {
			st.skip();
			return Ok(());
		}
		let words = real::words(text)?;
		let slices = real::slices(text, &words)?;
		let mut owner = vec![0u8; text.len()];
		let mut last = 0;
		for (w, s) in words.iter().zip(&slices) {
			if w.is_empty() {
				return Err(format!("empty word at {w:?}"));
			}
			if w.start < last {
				return Err(format!("word {w:?} starts before the previous one ends ({last})"));
			}
			last = w.end;
			if let Some(bad) = s.chars().find(|&ch| is_separator(ch)) {
				return Err(format!("word {s:?} contains the separator {bad:?}"));
			}
			if s.chars().all(|ch| ch == ',') {
				return Err(format!("word {s:?} consists of commas"));
			}
			if s.ends_with(',') {
				return Err(format!("word {s:?} at {w:?} ends in a comma"));
			}
			for o in &mut owner[w.clone()] {
				*o += 1;
			}
		}
		for (at, ch) in text.char_indices() {
			let want = u8::from(!is_separator(ch));
			if ch != ',' && owner[at] != want {
				return Err(format!("the character {ch:?} at {at} lies in {} words", owner[at]));
			}
		}
		st.count("words", words.len() as u64);
		st.count("characters", text.chars().count() as u64);
		st.max("words in one text", words.len() as u64);
		if text.contains(',') || !text.is_ascii() || words.windows(2).any(|w| w[0].end == w[1].start) {
			st.nontrivial();
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C03

pub struct Pauses;

impl Check for Pauses {
	fn rule(&self) -> &'static str {
		"two random texts A and B, a random string S of separators, and a substitution of separators; words(A S B) is compared with words(A) followed by words(B) shifted, and with every separator replaced, doubled, or added in front and behind; non-trivial: A and B both contain words"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(5_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let piece = |rng: &mut Rng| match rng.below(5) {
			0 | 1 => gen::run(c, rng),
			2 => gen::run(c, rng) + &gen::separator(rng) + &gen::run(c, rng),
			_ => gen::text(c, rng),
		};
		let (a, mut b) = (piece(rng), piece(rng));
		if rng.chance(15) {
			// the second text begins almost as the first one ends
			let last = a.split(is_separator).rev().find(|p| !p.is_empty()).unwrap_or("mi");
			b = gen::variation(rng, last) + &if rng.chance(50) { String::new() } else { gen::separator(rng) + &b };
		}
		let sep: String = (0..1 + rng.small(4)).map(|_| *rng.pick(&SEPARATORS)).collect();
		let subst: String = (0..7).map(|_| *rng.pick(&SEPARATORS)).collect();
		format!("{}\u{1f}{sep}\u{1f}{}\u{1f}{subst}", a.replace('\u{1f}', ""), b.replace('\u{1f}', ""))
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let f: Vec<&str> = case.split('\u{1f}').collect();
		let [a, sep, b, subst] = f[..] else { return Ok(()) };
		let subst: Vec<char> = subst.chars().collect();
		if sep.is_empty() || subst.is_empty() || !sep.chars().chain(subst.iter().copied()).all(is_separator) {
			return Ok(());
		}
		if split_cost(c, a).saturating_add(split_cost(c, b)) > split_limit(a).max(split_limit(b)) {
			st.skip();
			return Ok(());
		}
		let (wa, wb) = (real::words(a)?, real::words(b)?);
		let whole = format!("{a}{sep}{b}");
		let shift = |w: &[Range<usize>], by: usize| w.iter().map(|r| r.start + by..r.end + by).collect::<Vec<_>>();
		let mut want = wa.clone();
		want.extend(shift(&wb, a.len() + sep.len()));
		let got = real::words(&whole)?;
		if want != got {
			return Err(format!("words of {whole:?}: {got:?}, but its parts give {want:?}"));
		}
		// other separators, same places
		let mut n = 0;
		let other: String = whole
			.chars()
			.map(|ch| {
				if is_separator(ch) {
					n += 1;
					subst[n % subst.len()]
				} else {
					ch
				}
			})
			.collect();
		let got2 = real::words(&other)?;
		if got2 != got {
			return Err(format!("words of {other:?}: {got2:?}, with other separators {got:?}"));
		}
		// more separators: in front, behind and in between
		let s: String = subst.iter().collect();
		let padded = format!("{s}{a}{s}{sep}{s}{b}{s}");
		let mut want = shift(&wa, s.len());
		want.extend(shift(&wb, a.len() + 3 * s.len() + sep.len()));
		let got3 = real::words(&padded)?;
		if got3 != want {
			return Err(format!("words of {padded:?}: {got3:?} instead of {want:?}"));
		}
		st.count("words", got.len() as u64);
		if !wa.is_empty() && !wb.is_empty() {
			st.nontrivial();
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C04

pub struct Morphology;

const ALPHABETS: [(&str, u32, u32); 6] = [
	// alphabet, longest quick, longest thorough
	("abcdefgijklmnoprstuvxyz'", 3, 4),
	("aiy'nrtsk", 5, 6),
	("aoAItsmr'", 5, 6),
	("eaujbdzr'", 5, 6),
	("AiuEklmvY", 5, 6),
	("a,1'yn", 6, 7),
];

impl Check for Morphology {
	fn rule(&self) -> &'static str {
		"strings over six small alphabets, every consonant pair and triple in several contexts, words derived from the rules of the morphology grammar (and near misses), and random runs glued from cmavo, words, rafsi, clusters and single letters with capitals, commas, h and digits; each is split by the code and by the morphology grammar, and each word classified by both; non-trivial: the reference finds at least two words, or one word of at least four letters"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["/verif/spec/morphology.peg states the morphology the code intends", "runs whose unmemoised recognition takes more than 400000 rule applications are skipped"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		let mut p = plan(15_000, false);
		if thorough {
			p.cases = 1_600_000;
			p.wall = 700;
		}
		p
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		// every block of eight has one of each kind, in turn on every worker
		let (k, kind) = (i / 8, (i + i / 8) % 8);
		match kind {
			// strings over small alphabets, spread over all lengths by a stride coprime to their number
			0 | 1 => {
				let thorough = i > 120_000 && kind == 1;
				let total: u64 = ALPHABETS.iter().map(|&(a, quick, long)| count(a, if thorough { long } else { quick })).sum();
				let mut rest = (k * 2 + kind).wrapping_mul(1_000_003) % total;
				for (alphabet, quick, long) in ALPHABETS {
					let longest = if thorough { long } else { quick };
					for len in 1..=longest {
						let n = (alphabet.len() as u64).pow(len);
						if rest < n {
							return nth(alphabet, len, rest);
						}
						rest -= n;
					}
				}
				unreachable!()
			}
			2 | 3 => gen::systematic(((k * 2 + kind % 2) * 7919) % gen::SYSTEMATIC),
			4 | 5 => {
				let mut s = gen::shape(c, rng);
				if rng.chance(25) {
					let mut v: Vec<char> = s.chars().collect();
					if !v.is_empty() {
						let at = rng.below(v.len());
						v[at] = *rng.pick(&['a', 'e', 'i', 'o', 'u', 'y', '\'', 'n', 'r', 'l', 't', 'b', 'x', 's']);
					}
					s = v.into_iter().collect();
				}
				if rng.chance(30) {
					s.insert_str(0, &rng.pick(&c.cmavo).clone());
				}
				if rng.chance(30) {
					s = gen::respell(rng, &s, 15, 5);
				}
				s
			}
			_ => gen::run(c, rng),
		}
	}
	fn judge(&mut self, c: &Ctx, run: &str, st: &mut Stats) -> Result<(), String> {
		if run.is_empty() || run.chars().any(is_separator) {
			return Ok(());
		}
		let want = c.morph.split(run);
		if want.cost > split_limit(run) {
			st.skip();
			return Ok(());
		}
		let got = real::words(run)?;
		if want.words != got {
			let show = |w: &[Range<usize>]| w.iter().map(|r| run.get(r.clone()).unwrap_or("?").to_string()).collect::<Vec<_>>().join(" ");
			return Err(format!("{run:?} was split into [{}], the morphology prescribes [{}]", show(&got), show(&want.words)));
		}
		// and the form of each word
		for w in &got {
			let word = &run[w.clone()];
			let (form, experimental, cost) = c.morph.classify_cost(word);
			if cost > LEX_LIMIT {
				st.count("words not classified (too much work)", 1);
				continue;
			}
			let (class, mark) = sneturfahi::lex::Selmaho::classify(word);
			if (format!("{class:?}"), mark) != (form.clone(), experimental) {
				return Err(format!("the word {word:?} in {run:?} is classified {class:?} {mark}, the morphology prescribes {form} {experimental}"));
			}
			st.seen("forms", &form);
		}
		st.count("words", got.len() as u64);
		st.max("words in one run", got.len() as u64);
		st.max("letters in one run", run.len() as u64);
		if got.len() > 1 || run.len() > 3 {
			st.nontrivial();
		}
		Ok(())
	}
}

fn count(alphabet: &str, longest: u32) -> u64 {
	(1..=longest).map(|len| (alphabet.len() as u64).pow(len)).sum()
}

fn nth(alphabet: &str, len: u32, mut n: u64) -> String {
	let letters: Vec<char> = alphabet.chars().collect();
	(0..len)
		.map(|_| {
			let ch = letters[(n % letters.len() as u64) as usize];
			n /= letters.len() as u64;
			ch
		})
		.collect()
}

// ---------------------------------------------------------------- C05

pub struct Commas;

fn parse_shape(tokens: &[sneturfahi::lex::Token]) -> Result<String, usize> {
	let arena = sneturfahi::Arena::new();
	let result = match sneturfahi::Cst::parse(tokens, &arena) {
		Ok(cst) => Ok(tree::observe(cst.root()).shape()),
		Err(e) => Err(tokens.len() - e.location.len()),
	};
	result
}

impl Check for Commas {
	fn rule(&self) -> &'static str {
		"texts with commas inserted anywhere inside or at the edges of runs, quotation delimiters included, compared with the same text without any comma: words, classes, tokens, acceptance and tree shape; non-trivial: the text has a comma within a run and at least two words"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(2_500, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let base = match rng.below(6) {
			0 => gen::run(c, rng),
			1 => rng.pick(&c.corpus).clone(),
			2 => {
				let faulty = rng.chance(10);
				let q = gen::quotation(c, rng, faulty);
				format!("mi cusku {q}{}{}", gen::separator(rng), gen::run(c, rng))
			}
			_ => gen::text(c, rng),
		};
		let rate = *rng.pick(&[3, 10, 40]);
		gen::respell(rng, &base, 0, rate)
	}
	fn judge(&mut self, c: &Ctx, text: &str, st: &mut Stats) -> Result<(), String> {
		let bare: String = text.chars().filter(|&ch| ch != ',').collect();
		if words_cost(c, text) > 6 * lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let strip = |s: &str| s.chars().filter(|&ch| ch != ',').collect::<String>();
		let (w1, w2) = (real::words(text)?, real::words(&bare)?);
		let (s1, s2) = (real::slices(text, &w1)?, real::slices(&bare, &w2)?);
		let stripped: Vec<String> = s1.iter().map(|s| strip(s)).collect();
		if stripped != s2 {
			return Err(format!("words with commas {s1:?}, without {s2:?}"));
		}
		for (a, b) in s1.iter().zip(&s2) {
			let (ca, cb) = (sneturfahi::lex::Selmaho::classify(a), sneturfahi::lex::Selmaho::classify(b));
			if ca != cb {
				return Err(format!("{a:?} is classified {ca:?}, {b:?} {cb:?}"));
			}
		}
		let inside = text.split(is_separator).any(|run| run.contains(',') && !run.chars().all(|ch| ch == ','));
		if inside && s1.len() > 1 {
			st.nontrivial();
		}
		st.count("words", s1.len() as u64);
		// a run of only commas can be quoted text
		if text.split(is_separator).any(|run| !run.is_empty() && run.chars().all(|ch| ch == ',')) {
			return Ok(());
		}
		let ((t1, e1), (t2, e2)) = (real::lex(text)?, real::lex(&bare)?);
		let view = |text: &str, toks: &[sneturfahi::lex::Token]| {
			toks.iter()
				.map(|t| format!("{:?}{}:{}", t.selmaho, t.experimental, strip(t.span.slice(text).unwrap_or("?"))))
				.collect::<Vec<_>>()
		};
		let (v1, v2) = (view(text, &t1), view(&bare, &t2));
		if v1 != v2 {
			return Err(format!("tokens with commas {v1:?}, without {v2:?}"));
		}
		use crate::lexref::LexError as L;
		let slice = |t: &str, r: &Range<usize>| strip(t.get(r.clone()).unwrap_or("?"));
		let kind = |t: &str, e: &Option<L>| {
			e.as_ref().map(|e| match e {
				L::MissingSeparator(a) => format!("missing {}", slice(t, a)),
				L::Unclosed(a, b) => format!("unclosed {} {}", slice(t, a), slice(t, b)),
				L::PauseEof(a) => format!("pause {}", slice(t, a)),
			})
		};
		let (k1, k2) = (kind(text, &e1), kind(&bare, &e2));
		if k1 != k2 {
			return Err(format!("lexing error with commas {k1:?}, without {k2:?}"));
		}
		if t1.iter().any(|t| t.selmaho == sneturfahi::lex::Selmaho::ZoiDelimiter) {
			st.count("texts with delimited quotations", 1);
		}
		if e1.is_none() && t1.len() < 80 && tree_cost(c, &t1) < TREE_LIMIT {
			let (p1, p2) = (parse_shape(&t1), parse_shape(&t2));
			if p1 != p2 {
				return Err(format!("parsed with commas {p1:?}, without {p2:?}"));
			}
			st.count(if p1.is_ok() { "trees compared" } else { "parse errors compared" }, 1);
		}
		Ok(())
	}
}

pub const TREE_LIMIT: u64 = 1_500_000;
pub fn tree_cost(c: &Ctx, tokens: &[sneturfahi::lex::Token]) -> u64 {
	let toks: Vec<Tok> = tokens.iter().map(real::tok).collect();
	tree::reference(&c.grammar, &c.morph.repr, &toks).cost
}

// ---------------------------------------------------------------- C06

pub struct Interleave;

impl Check for Interleave {
	fn rule(&self) -> &'static str {
		"a text and a random history of calls: n next word, v verbatim rest, 0 to 5 nth, h size_hint, c clone (both copies go on, the clones are drained at the end), and on copies l last, m count, s skip and step_by, t fold; every answer is compared with a cursor over the runs; non-trivial: at least one v while words of a run are pending"
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(9_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let text = match rng.below(3) {
			0 => gen::text(c, rng),
			_ => {
				let mut s = String::new();
				for _ in 0..1 + rng.small(6) {
					let n = 1 + rng.small(4);
					for _ in 0..n {
						s.push_str(&rng.pick(&c.cmavo).clone());
					}
					if rng.chance(15) {
						s.push(',');
					}
					s.push_str(&gen::separator(rng));
				}
				s
			}
		};
		let ops: String = (0..rng.range(1, 25)).map(|_| *rng.pick(&['n', 'n', 'n', 'n', 'v', 'v', 'v', 'h', 'c', '0', '1', '2', '3', '5', 'l', 'm', 's', 't'])).collect();
		format!("{}\u{1f}{ops}", text.replace('\u{1f}', ""))
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((text, ops)) = case.split_once('\u{1f}') else { return Ok(()) };
		if split_cost(c, text) > split_limit(text) {
			st.skip();
			return Ok(());
		}
		let m = &c.morph;
		let mut live = (sneturfahi::decompose(text), Cursor::new(text));
		let mut copies = vec![];
		let mut log = String::new();
		let hint = |d: &sneturfahi::decompose::Decomposer<'_>, cursor: &Cursor<'_>, log: &str| {
			let (low, high) = d.size_hint();
			let mut rest = cursor.clone();
			let mut n = 0;
			while rest.word(m).is_some() {
				n += 1;
			}
			if low > n || high.map_or(false, |h| h < n) {
				return Err(format!("after {log}: size_hint {:?}, but {n} words remain", (low, high)));
			}
			Ok(())
		};
		for op in ops.chars() {
			log.push(op);
			let (got, want) = match op {
				'n' => (live.0.next(), live.1.word(m)),
				'v' => {
					if live.1.pending() > 0 {
						st.nontrivial();
						st.count("verbatim steps inside a run", 1);
					}
					(live.0.next_no_decomposition(), live.1.verbatim())
				}
				'0'..='5' => {
					let n = op as usize - '0' as usize;
					let mut want = live.1.word(m);
					for _ in 0..n {
						if want.is_some() {
							want = live.1.word(m);
						}
					}
					(live.0.nth(n), want)
				}
				'l' | 'm' | 's' | 't' => {
					let mut rest = live.1.clone();
					let words: Vec<_> = std::iter::from_fn(|| rest.word(m)).collect();
					let copy = live.0.clone();
					let ok = match op {
						'l' => copy.last().map(real::range) == words.last().cloned(),
						'm' => copy.count() == words.len(),
						's' => copy.skip(1).step_by(2).map(real::range).eq(words.iter().cloned().skip(1).step_by(2)),
						_ => copy.fold(vec![], |mut all, span| {
							all.push(real::range(span));
							all
						}) == words,
					};
					if !ok {
						return Err(format!("after the calls {log}: this last one disagrees with the words that remain, {words:?}"));
					}
					st.count("bulk calls on copies", 1);
					continue;
				}
				'h' => {
					hint(&live.0, &live.1, &log)?;
					continue;
				}
				'c' => {
					copies.push((log.clone(), live.0.clone(), live.1.clone()));
					continue;
				}
				_ => continue,
			};
			st.count("steps", 1);
			let got = got.map(real::range);
			if got != want {
				return Err(format!("after the calls {log}: got {got:?}, expected {want:?}"));
			}
		}
		copies.push((log, live.0, live.1));
		// drain all copies in turn, so that one could disturb another
		let mut budget = 4 * text.len() + 20;
		loop {
			let mut any = false;
			for (i, (log, d, cursor)) in copies.iter_mut().enumerate() {
				let verbatim = i % 2 == 1 && hash(log.as_bytes()) % 3 == 0;
				let (got, want) =
					if verbatim { (d.next_no_decomposition(), cursor.verbatim()) } else { (d.next(), cursor.word(m)) };
				let got = got.map(real::range);
				if got != want {
					return Err(format!("copy made after {log}, drained: got {got:?}, expected {want:?}"));
				}
				any |= got.is_some();
			}
			budget -= 1;
			if !any || budget == 0 {
				break;
			}
		}
		st.count("copies drained", copies.len() as u64);
		Ok(())
	}
}

// ---------------------------------------------------------------- C10

#[derive(Default)]
pub struct Dictionary;

impl Check for Dictionary {
	fn rule(&self) -> &'static str {
		"every cmavo of the dictionary in several spellings (apostrophe or h, commas anywhere but at the end), runs of y, and words split from random runs; class, experimental mark and printed name are compared with the dictionary and the morphology grammar, alone and in a text; non-trivial: every distinct spelling"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["/verif/data/cmavo.tsv and selmaho.tsv are the dictionary (taken from the pinned tree and reviewed)"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(8_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		let n = c.cmavo.len() as u64;
		let h = |w: &str| w.replace('\'', "h");
		if i < n {
			return c.cmavo[i as usize].clone();
		}
		if i < 2 * n {
			return h(&c.cmavo[(i - n) as usize]);
		}
		let base = match (i + i / 8) % 8 {
			0 | 1 | 4 => c.cmavo[((i / 2) % n) as usize].clone(),
			2 => {
				let run = gen::run(c, rng);
				let split = c.morph.split(&run);
				if split.cost > SPLIT_LIMIT || split.words.is_empty() {
					return "y".repeat(rng.range(1, 70));
				}
				return run[rng.pick(&split.words).clone()].to_string();
			}
			_ => match rng.below(6) {
				0 => "y".repeat(rng.range(1, 70)),
				1 => rng.pick(&c.corpus_words).clone(),
				2 => {
					// near misses
					let mut v: Vec<char> = rng.pick(&c.cmavo).chars().collect();
					let k = rng.below(v.len());
					match rng.below(3) {
						0 => drop(v.remove(k)),
						1 => v.insert(k, *rng.pick(&['\'', 'a', 'e', 'i', 'o', 'u', 'y', 'h', 'z'])),
						_ => v[k] = *rng.pick(&['a', 'e', 'i', 'o', 'u', 'y', 'A', 'O', '\'', 'b', 's']),
					}
					v.into_iter().collect()
				}
				3 => gen::garbage(rng, 6).replace(|ch| is_separator(ch) || ch == ',', ""),
				4 => {
					let a = rng.pick(&c.cmavo).clone();
					let mut s = a.clone();
					for _ in 0..rng.range(1, 20) {
						s.push_str("'a");
					}
					s
				}
				_ => gen::morpheme(c, rng),
			},
			5 | 6 => {
				let mut s = gen::shape(c, rng);
				if rng.chance(25) && !s.is_empty() {
					let mut v: Vec<char> = s.chars().collect();
					let at = rng.below(v.len());
					v[at] = *rng.pick(&['a', 'e', 'i', 'o', 'u', 'y', '\'', 'n', 'r', 'l', 't', 'b', 'x', 's']);
					s = v.into_iter().collect();
				}
				s
			}
			_ => gen::systematic(((i / 8) * 7919) % gen::SYSTEMATIC),
		};
		let (capitals, commas) = (*rng.pick(&[0, 0, 0, 0, 8]), *rng.pick(&[0, 15, 40, 80]));
		let mut w = gen::respell(rng, &base, capitals, commas);
		if rng.chance(30) {
			w = h(&w);
		}
		w.trim_end_matches(',').to_string()
	}
	fn judge(&mut self, c: &Ctx, word: &str, st: &mut Stats) -> Result<(), String> {
		if word.is_empty() || word.ends_with(',') || word.chars().any(is_separator) {
			st.skip();
			return Ok(());
		}
		let split = c.morph.split(word);
		let (want, experimental, cost) = c.morph.classify_cost(word);
		let want = (want, experimental);
		if split.cost > SPLIT_LIMIT || cost > LEX_LIMIT {
			st.skip();
			return Ok(());
		}
		let (class, experimental) = sneturfahi::lex::Selmaho::classify(word);
		let got = (format!("{class:?}"), experimental);
		if got != want {
			return Err(format!("{word:?} is classified {got:?}, expected {want:?}"));
		}
		if class.as_repr() != c.repr(&want.0) {
			return Err(format!("class {class:?} is called {:?}, expected {:?}", class.as_repr(), c.repr(&want.0)));
		}
		if class.is_fundamentally_experimental() != c.morph.fundamental[&want.0] {
			return Err(format!("class {class:?} is experimental by itself: {}", class.is_fundamentally_experimental()));
		}
		// as the first and as a later token of a text
		if split.words == [0..word.len()] {
			for (text, at) in [(word.to_string(), 0), (format!("ko'a {word} ko'a"), 5)] {
				let (tokens, _) = real::lex(&text)?;
				let quoting = ["Zoi", "Muhoi", "Sohehai"].contains(&want.0.as_str());
				let found = tokens.iter().map(real::tok).any(|t| {
					t == Tok { class: want.0.clone(), experimental: want.1, start: at, end: at + word.len() }
				});
				// a delimited quotation that is not closed is an error instead of a token or after it
				if !found && !(quoting && text == word) {
					return Err(format!("in the text {text:?} the word {word:?} did not come out as {want:?}"));
				}
			}
			st.count("also seen in a text", 1);
		}
		st.seen("classes", &want.0);
		st.count(if c.morph.dictionary.contains_key(&word.replace(',', "").replace('h', "'")) { "dictionary spellings" } else { "other words" }, 1);
		st.nontrivial();
		Ok(())
	}
	fn finish(&mut self, c: &Ctx, st: &mut Stats) -> Result<(), String> {
		// the names of all classes
		let mut seen = std::collections::HashMap::new();
		for (class, name, _, _) in crate::selmaho_list::SELMAHO {
			let repr = class.as_repr();
			if let Some(old) = seen.insert(repr, name) {
				return Err(format!("classes {old} and {name} are both called {repr:?}"));
			}
			if repr != c.repr(name) {
				return Err(format!("class {name} is called {repr:?} instead of {:?}", c.repr(name)));
			}
			let is_cmavo_class = !["Gismu", "Lujvo", "Fuhivla", "Cmevla", "UnknownCmavo", "AnyText", "ZoiDelimiter"].contains(name);
			let convention: String = name.chars().map(|ch| if ch == 'h' { 'h' } else { ch.to_ascii_uppercase() }).collect();
			let convention = if name.starts_with('H') { format!("h{}", &convention[1..]) } else { convention };
			if is_cmavo_class && repr != convention {
				return Err(format!("class {name} is called {repr:?}, against the convention {convention:?}"));
			}
			if format!("{class:?}") != *name {
				return Err(format!("class {name} prints as {class:?}"));
			}
		}
		st.count("class names compared", seen.len() as u64);
		Ok(())
	}
}
