//! Workload generators: letters, words, texts, token sequences derived from the grammar, and their mutations.
use crate::focus::{Focus, Item};
use crate::lexref::{self, Tok};
use crate::morph::{Morph, SEPARATORS};
use crate::peg::{Ex, Grammar, Terminal};
use crate::rng::Rng;
use crate::selmaho_list::SELMAHO;
use sneturfahi::lex::Selmaho;
use std::collections::HashMap;

pub struct Ctx {
	pub morph: Morph,
	pub grammar: Grammar,
	pub classes: HashMap<String, Selmaho>,
	pub names: Vec<String>,
	pub pools: HashMap<String, Vec<String>>,
	pub corpus: Vec<String>,
	pub corpus_words: Vec<String>,
	pub cmavo: Vec<String>,
	pub grammar_classes: Vec<String>,
	pub min_depth: Vec<usize>,
	pub morph_depth: Vec<usize>,
	pub noisy: Vec<bool>,
	pub focus: Focus,
	pub morph_focus: Focus,
}

const WORDS: &str = "klama broda brode gerku mlatu prenu zdani barda cmalu blanu tavla nelci djica jimpe gismu valsi fanva \
	lojbo jbojevysofkemsuzgugje'ake'eborkemfaipaltrusi'oke'ekemgubyseltru brivla lujvo selma'o nunkla ka'arba'i gerzda mlatyzda \
	jbopre jbofuvi jboprenu tosymabru tosmabru smabru blabigerku djarspageti spageti spageti iglu uiski alga tricu kavbu patfu \
	mamta bloti slinku'i loslinku'i tcidu cidjrspageti tarmrxarmonika ckule bralo'i bramau balvi brablo sai'u zgike zukte \
	bagypau mamypatfu fagyfesti ba'ostu ji'erba seltcaci terfanva xelkla jgitrviolini mi'ecpe tci'ile tirxu djacu \
	xu'erba'o cinfo remna manku carvi ge'urku kuldi'u ro'inre'o pa'orgle soirse'i rokci'a'u ka'u'arba a'ardvarka aplu'anka \
	djan. lojban. meiris. frank. alis. .xorxes. .ianis. camgusmis. klama,us. ralf. mit. n. e,is.";

impl Ctx {
	pub fn load() -> Self {
		let morph = Morph::load();
		let grammar = Grammar::read(include_str!("../../spec/grammar.peg"));
		let classes: HashMap<String, Selmaho> = SELMAHO.iter().map(|(s, n, _, _)| (n.to_string(), *s)).collect();
		let names: Vec<String> = SELMAHO.iter().map(|(_, n, _, _)| n.to_string()).collect();
		let corpus: Vec<String> = include_str!("../../data/cll.txt").lines().map(String::from).collect();
		let mut cmavo: Vec<String> = morph.dictionary.keys().cloned().collect();
		cmavo.sort();
		let mut corpus_words: Vec<String> = corpus
			.iter()
			.flat_map(|l| l.split(|c| SEPARATORS.contains(&c)))
			.chain(WORDS.split(|c: char| c.is_whitespace() || c == '.'))
			.filter(|w| !w.is_empty())
			.map(String::from)
			.collect();
		corpus_words.sort();
		corpus_words.dedup();
		let mut pools: HashMap<String, Vec<String>> = HashMap::new();
		for word in cmavo.iter().chain(&corpus_words) {
			// only words that stand alone as themselves
			if morph.split(word).words == [0..word.len()] {
				let class = morph.classify(word).0;
				let pool = pools.entry(class).or_default();
				if !pool.contains(word) {
					pool.push(word.clone());
				}
			}
		}
		for (class, words) in [("AnyText", "q klam. ii'aq xy'yq klan,n'y"), ("UnknownCmavo", "xoi'u cy'y'a u'a'u'a jo'a'u'o'e'i xy'a'o'e fy'u'y'o"), ("ZoiDelimiter", "gy zoi kuot.")] {
			let pool = pools.entry(class.into()).or_default();
			for w in words.split([' ', '.']).filter(|w| !w.is_empty()) {
				if class == "ZoiDelimiter" || morph.split(w).words == [0..w.len()] && morph.classify(w).0 == class {
					pool.push(w.into());
				}
			}
		}
		let mut grammar_classes: Vec<String> = grammar
			.terminals
			.iter()
			.filter_map(|t| match t {
				Terminal::Token(n) => Some(n.clone()),
				Terminal::Chars(_) => None,
			})
			.collect();
		grammar_classes.sort();
		for class in &grammar_classes {
			assert!(classes.contains_key(class), "{class} in the grammar is not a class");
			assert!(pools.get(class).map_or(false, |p| !p.is_empty()), "no word of class {class}");
		}
		let min_depth = min_depths(&grammar);
		let morph_depth = min_depths(&morph.grammar);
		let noisy = grammar.rules.iter().map(|r| ["Free", "F", "Indicators", "Indicator", "Bahe", "Fuhe"].contains(&r.name.as_str())).collect::<Vec<bool>>();
		let focus = Focus::new(&grammar, &min_depth, &noisy);
		let morph_focus = Focus::new(&morph.grammar, &morph_depth, &[]);
		Self { morph, grammar, classes, names, pools, corpus, corpus_words, cmavo, grammar_classes, min_depth, morph_depth, noisy, focus, morph_focus }
	}

	pub fn repr<'a>(&'a self, class: &str) -> &'a str {
		&self.morph.repr[class]
	}
}

fn min_depths(grammar: &Grammar) -> Vec<usize> {
	let mut min_depth = vec![usize::MAX / 4; grammar.rules.len()];
	loop {
		let mut changed = false;
		for (i, rule) in grammar.rules.iter().enumerate() {
			let d = 1 + depth(&rule.ex, &min_depth);
			if d < min_depth[i] {
				min_depth[i] = d;
				changed = true;
			}
		}
		if !changed {
			return min_depth;
		}
	}
}

pub fn depth(ex: &Ex, rules: &[usize]) -> usize {
	match ex {
		Ex::Term(..) | Ex::Any | Ex::Eof | Ex::Not(_) | Ex::And(_) | Ex::Opt(..) | Ex::Star(..) => 0,
		Ex::Rule(id) => rules[*id],
		Ex::Seq(items) => items.iter().map(|i| depth(i, rules)).max().unwrap_or(0),
		Ex::Alt(_, items) | Ex::Longest(items) => items.iter().map(|i| depth(i, rules)).min().unwrap_or(0),
		Ex::Plus(_, i) | Ex::AtLeast(_, i) | Ex::Cut(i) | Ex::NonEmpty(i) | Ex::Node(_, i) => depth(i, rules),
		Ex::ManyTill(_, end) => depth(end, rules),
	}
}

/// Derives random token classes from the grammar, preferring alternatives it has rarely taken.
pub struct Deriver {
	counts: HashMap<(usize, usize), u32>,
	/// per mille of optional noise (free modifiers, indicators, emphasis)
	pub noise: usize,
	pub optional: usize,
	pub max: usize,
}

impl Deriver {
	pub fn new() -> Self {
		Self { counts: HashMap::new(), noise: 15, optional: 25, max: 40 }
	}

	pub fn text(&mut self, c: &Ctx, rng: &mut Rng) -> Vec<String> {
		let mut out = vec![];
		self.noise = *rng.pick(&[0, 3, 10, 30, 80]);
		self.optional = rng.range(8, 45);
		self.max = *rng.pick(&[6, 12, 12, 20, 35]);
		let budget = rng.range(20, 90);
		let root = c.grammar.by_name["Text"];
		self.ex(c, rng, &c.grammar.rules[root].ex, budget, &mut out, false);
		out
	}

	/// a derivation of one rule, for splicing
	pub fn rule(&mut self, c: &Ctx, rng: &mut Rng, name: &str, out: &mut Vec<String>) {
		let budget = rng.range(10, 60);
		self.ex(c, rng, &c.grammar.rules[c.grammar.by_name[name]].ex, budget, out, true);
	}

	fn is_noisy(c: &Ctx, ex: &Ex) -> bool {
		match ex {
			Ex::Rule(id) => c.noisy[*id],
			_ => false,
		}
	}

	fn ex(&mut self, c: &Ctx, rng: &mut Rng, ex: &Ex, budget: usize, out: &mut Vec<String>, must: bool) {
		let budget = if out.len() > self.max { 0 } else { budget };
		match ex {
			Ex::Term(t, _) => match &c.grammar.terminals[*t] {
				Terminal::Token(name) => out.push(name.clone()),
				Terminal::Chars(_) => unreachable!(),
			},
			Ex::Any => out.push(any_class(c, rng)),
			Ex::Eof | Ex::Not(_) | Ex::And(_) => {}
			Ex::Rule(id) => self.ex(c, rng, &c.grammar.rules[*id].ex, budget.saturating_sub(1), out, must),
			Ex::Seq(items) => {
				for item in items {
					self.ex(c, rng, item, budget, out, must);
				}
			}
			Ex::Alt(id, items) => {
				let depths: Vec<usize> = items.iter().map(|i| depth(i, &c.min_depth)).collect();
				let least = *depths.iter().min().unwrap();
				let weights: Vec<u32> = depths
					.iter()
					.enumerate()
					.map(|(k, &d)| {
						if d > budget && d > least {
							0
						} else {
							10_000 / (3 + *self.counts.get(&(*id, k)).unwrap_or(&0)) + 10
						}
					})
					.collect();
				let k = rng.weighted(&weights);
				*self.counts.entry((*id, k)).or_insert(0) += 1;
				self.ex(c, rng, &items[k], budget, out, must);
			}
			Ex::Opt(_, item) | Ex::Star(_, item) | Ex::Plus(_, item) | Ex::AtLeast(_, item) => {
				let repeat = !matches!(ex, Ex::Opt(..));
				let mut n = usize::from(matches!(ex, Ex::Plus(..) | Ex::AtLeast(..)));
				let permille = if Self::is_noisy(c, item) { self.noise } else { self.optional * 10 };
				if depth(item, &c.min_depth) <= budget {
					while n < 4 && rng.permille(permille) {
						n += 1;
						if !repeat {
							break;
						}
					}
				}
				for _ in 0..n {
					self.ex(c, rng, item, budget, out, must);
				}
			}
			Ex::Longest(items) => self.ex(c, rng, &items[0], budget, out, must),
			Ex::Cut(item) | Ex::Node(_, item) => self.ex(c, rng, item, budget, out, must),
			Ex::NonEmpty(item) => {
				let before = out.len();
				for _ in 0..20 {
					self.ex(c, rng, item, budget, out, must);
					if out.len() > before {
						break;
					}
				}
			}
			Ex::ManyTill(item, end) => {
				for _ in 0..rng.small(4) {
					self.ex(c, rng, item, budget, out, must);
				}
				self.ex(c, rng, end, budget, out, must);
			}
		}
	}
}

/// classes the grammar looks out for without consuming them, or refuses in some places
const GUARDS: [&str; 20] = ["Bu", "Bu", "Zei", "Zei", "Bahe", "Ui", "Nai", "Si", "Su", "Sa", "Faho", "Ke", "Gi", "Moi", "Ja", "Bo", "Ku", "Fuhe", "Y", "Na"];

pub fn any_class(c: &Ctx, rng: &mut Rng) -> String {
	match rng.below(100) {
		0..=69 => rng.pick(&c.grammar_classes).clone(),
		70..=87 => (*rng.pick(&GUARDS)).to_string(),
		_ => rng.pick(&c.names).clone(),
	}
}

/// damage a sequence of classes
pub fn mutate(c: &Ctx, rng: &mut Rng, v: &mut Vec<String>) {
	for _ in 0..1 + rng.small(2) {
		if v.is_empty() {
			v.push(any_class(c, rng));
			continue;
		}
		let i = rng.below(v.len());
		match rng.below(10) {
			0 => drop(v.remove(i)),
			1 => v.insert(i, any_class(c, rng)),
			2 => v[i] = any_class(c, rng),
			3 => {
				let j = rng.below(v.len());
				v.swap(i, j);
			}
			4 => v.truncate(i + 1),
			5 => {
				let x = v[i].clone();
				v.insert(i, x);
			}
			6 => drop(v.drain(..i)),
			7 => {
				// the beginning of a sentence, then one unexpected word or two
				v.truncate(i + 1);
				for _ in 0..1 + rng.small(1) {
					v.push(any_class(c, rng));
				}
			}
			8 => v.insert(i, (*rng.pick(&GUARDS)).to_string()),
			_ => {
				let j = rng.range(i, (i + 4).min(v.len() - 1));
				let piece: Vec<String> = v[i..=j].to_vec();
				let at = rng.below(v.len() + 1);
				v.splice(at..at, piece);
			}
		}
	}
}

// ---------------------------------------------------------------- cases

/// `a:` token array: `Class[*][/gap/len]` separated by spaces
pub fn parse_array(c: &Ctx, body: &str) -> Option<Vec<Tok>> {
	parse_tokens(&c.classes, body)
}

pub fn parse_tokens(classes: &HashMap<String, Selmaho>, body: &str) -> Option<Vec<Tok>> {
	let mut at = 0;
	let mut out = vec![];
	for item in body.split_whitespace() {
		let mut parts = item.split('/');
		let name = parts.next()?;
		let gap: usize = parts.next().map_or(Some(1), |p| p.parse().ok())?;
		let len: usize = parts.next().map_or(Some(2), |p| p.parse().ok())?;
		let (name, experimental) = name.strip_suffix('*').map_or((name, false), |n| (n, true));
		if !classes.contains_key(name) || gap > if out.is_empty() { 4_294_900_000 } else { 100_000 } || len > 100_000 {
			return None;
		}
		let start = if out.is_empty() { gap.saturating_sub(1) } else { at + gap };
		at = start + len;
		out.push(Tok { class: name.into(), experimental, start, end: at });
	}
	Some(out)
}

pub fn array_case(rng: &mut Rng, classes: &[String]) -> String {
	let plain = rng.chance(30);
	let flags = *rng.pick(&[0, 5, 30, 60]);
	// rarely, the tokens are far from the beginning of their text
	let far = if rng.chance(3) { *rng.pick(&[250, 65_530, 65_536, 16_777_210, 2_147_483_640, 2_147_483_650, 4_294_890_000]) } else { 0 };
	// sometimes, some tokens are long or far apart
	let wide = if far < 4_000_000_000 && rng.chance(25) { *rng.pick(&[3, 20, 60]) } else { 0 };
	let mut out = String::from("a:");
	for (i, class) in classes.iter().enumerate() {
		if i > 0 {
			out.push(' ');
		}
		out.push_str(class);
		// quotation delimiters and texts are never experimental
		if rng.chance(flags) && class != "ZoiDelimiter" && class != "AnyText" {
			out.push('*');
		}
		if !plain {
			let gap = if rng.chance(30) { 0 } else { rng.range(1, 4) };
			let gap = if rng.chance(wide) { *rng.pick(&[31, 64, 127, 255, 256, 1000, 65_536]) } else { gap };
			let gap = if i == 0 { far + gap } else { gap };
			let len = if rng.chance(wide) { *rng.pick(&[15, 16, 32, 63, 65, 128, 255, 256, 257, 1000, 65_535, 65_536]) } else { rng.range(1, 5) };
			out.push_str(&format!("/{gap}/{len}"));
		}
	}
	out
}

/// Tokens of a case (`a:` array or `t:` text) by the reference, with the text; None if malformed or not lexable
pub fn case_tokens(c: &Ctx, case: &str) -> Option<(Vec<Tok>, Option<String>, u64)> {
	if let Some(body) = case.strip_prefix("a:") {
		return Some((parse_array(c, body)?, None, 0));
	}
	let text = case.strip_prefix("t:")?;
	let lexed = lexref::lex(&c.morph, text);
	if lexed.error.is_some() {
		return None;
	}
	Some((lexed.tokens, Some(text.to_string()), lexed.cost))
}

pub fn word_of(c: &Ctx, rng: &mut Rng, class: &str) -> String {
	match c.pools.get(class) {
		Some(pool) if !pool.is_empty() => rng.pick(pool).clone(),
		_ => rng.pick(&c.pools["UnknownCmavo"]).clone(),
	}
}

pub fn separator(rng: &mut Rng) -> String {
	match rng.below(20) {
		0..=11 => " ".into(),
		12 => ".".into(),
		13 => ". ".into(),
		14 => " .".into(),
		15 => "\n".into(),
		16 => "\t".into(),
		_ => (0..rng.range(1, 4)).map(|_| *rng.pick(&SEPARATORS)).collect(),
	}
}

pub fn join(rng: &mut Rng, words: &[String]) -> String {
	let mut out = String::new();
	let fancy = rng.chance(40);
	for (i, w) in words.iter().enumerate() {
		if i > 0 {
			out.push_str(&if fancy { separator(rng) } else { " ".into() });
		}
		out.push_str(w);
	}
	out
}

pub fn classes_to_words(c: &Ctx, rng: &mut Rng, classes: &[String]) -> Vec<String> {
	let mut out: Vec<String> = vec![];
	let delimiter = rng.pick(&["gy", "zoi", "djan", "kuot", "xy'y", "broda"]).to_string();
	for class in classes {
		match class.as_str() {
			"ZoiDelimiter" => out.push(delimiter.clone()),
			"AnyText" if out.last() == Some(&delimiter) => {
				let n = 1 + rng.small(3);
				for _ in 0..n {
					out.push(quoted_word(c, rng));
				}
			}
			_ => out.push(word_of(c, rng, class)),
		}
	}
	out
}

pub fn quoted_word(c: &Ctx, rng: &mut Rng) -> String {
	match rng.below(8) {
		0 => rng.pick(&c.corpus_words).clone(),
		1 => rng.pick(&c.cmavo).clone(),
		2 => garbage(rng, 6),
		3 => "Ünïcode,日本".into(),
		4 => ",".into(),
		5 => rng.pick(&["zoi", "lo'u", "le'u", "fa'o", "zo", "me'oi", "si", "zoigy"]).to_string(),
		_ => rng.pick(&["John", "is", "a", "man", "don't", "e.g", "C3PO", "ASCII"]).to_string(),
	}
}

const LETTERS: &str = "aeiouybcdfgjklmnprstvxz'";

/// one run of arbitrary characters (no promise to be Lojban, may contain separators)
pub fn garbage(rng: &mut Rng, max: usize) -> String {
	let odd = ['é', 'ß', '日', '😀', '\u{0}', '\u{301}', '\u{200b}', '\u{feff}', '\u{a0}', '\u{2028}', '~', '-', '_', '"', '\\', '*', 'q', 'w', 'H', 'Q', 'İ', '’', '`', ';', ':', '(', '/'];
	(0..1 + rng.small(max))
		.map(|_| match rng.below(10) {
			0..=3 => *rng.pick(&odd),
			4 => *rng.pick(&[',', 'h', '\'', '0', '7']),
			5 => char::from_u32(rng.below(0x11_0000) as u32).unwrap_or('x'),
			6 => *rng.pick(&SEPARATORS),
			_ => LETTERS.as_bytes()[rng.below(LETTERS.len())] as char,
		})
		.collect()
}

fn consonant(rng: &mut Rng) -> char {
	*rng.pick(&['b', 'c', 'd', 'f', 'g', 'j', 'k', 'l', 'm', 'n', 'p', 'r', 's', 't', 'v', 'x', 'z'])
}

const INITIALS: [&str; 48] = [
	"bl", "br", "cf", "ck", "cl", "cm", "cn", "cp", "cr", "ct", "dj", "dr", "dz", "fl", "fr", "gl", "gr", "jb", "jd", "jg", "jm", "jv", "kl", "kr",
	"ml", "mr", "pl", "pr", "sf", "sk", "sl", "sm", "sn", "sp", "sr", "st", "tc", "tr", "ts", "vl", "vr", "xl", "xr", "zb", "zd", "zg", "zm", "zv",
];

fn vowel(rng: &mut Rng) -> char {
	*rng.pick(&['a', 'e', 'i', 'o', 'u', 'a', 'e', 'i', 'o', 'u', 'y'])
}

/// letters spelling a morphology rule; look-ahead is ignored, so that near misses come out too
fn spell(c: &Ctx, rng: &mut Rng, ex: &Ex, budget: usize, out: &mut String) {
	let budget = if out.len() > 16 { 0 } else { budget };
	match ex {
		Ex::Term(t, _) => {
			if let Terminal::Chars(set) = &c.morph.grammar.terminals[*t] {
				let ch = *rng.pick(set);
				let low = ch.to_ascii_lowercase();
				// capitals are put in by the caller, but where only capitals will do
				out.push(if set.contains(&low) { low } else { ch });
			}
		}
		Ex::Any | Ex::Eof | Ex::Not(_) | Ex::And(_) => {}
		Ex::Rule(id) => spell(c, rng, &c.morph.grammar.rules[*id].ex, budget.saturating_sub(1), out),
		Ex::Seq(items) => {
			for item in items {
				spell(c, rng, item, budget, out);
			}
		}
		Ex::Alt(_, items) | Ex::Longest(items) => {
			let depths: Vec<usize> = items.iter().map(|i| depth(i, &c.morph_depth)).collect();
			let least = *depths.iter().min().unwrap();
			let weights: Vec<u32> = depths.iter().map(|&d| u32::from(d <= budget || d == least)).collect();
			let k = rng.weighted(&weights);
			spell(c, rng, &items[k], budget, out);
		}
		Ex::Opt(_, item) | Ex::Star(_, item) | Ex::Plus(_, item) | Ex::AtLeast(_, item) => {
			let mut n = match ex {
				Ex::Plus(..) => 1,
				Ex::AtLeast(n, _) => *n,
				_ => 0,
			};
			if depth(item, &c.morph_depth) <= budget && rng.chance(45) {
				n += 1;
				if !matches!(ex, Ex::Opt(..)) && rng.chance(30) {
					n += 1;
				}
			}
			for _ in 0..n {
				spell(c, rng, item, budget, out);
			}
		}
		Ex::Cut(item) | Ex::NonEmpty(item) | Ex::Node(_, item) | Ex::ManyTill(item, _) => spell(c, rng, item, budget, out),
	}
}

const SHAPES: [&str; 26] = [
	"gismu", "fuhivla", "lujvo_minimal", "lujvo_minimal", "lujvo_minimal", "cvcy_lujvo", "xs_brivla", "cmevla", "cmavo_form", "rafsi_string", "y_rafsi",
	"hy_rafsi", "long_rafsi", "cvv_rafsi", "ccv_rafsi", "brivla_rafsi", "fuhivla_rafsi", "extended_rafsi", "stressed_extended_rafsi", "short_final_rafsi",
	"cvv_final_rafsi", "slinkuhi", "syllable", "initial_rafsi", "brivla_core", "stressed_initial_rafsi",
];

const ROOTS: [&str; 12] = ["gismu", "fuhivla", "lujvo_minimal", "lujvo_minimal", "lujvo_minimal", "cvcy_lujvo", "xs_brivla", "xs_brivla", "cmevla", "cmavo", "brivla_minimal", "lojban_word"];

/// a word of some shape, or nearly
pub fn shape(c: &Ctx, rng: &mut Rng) -> String {
	if rng.chance(50) {
		return shape_around(c, rng);
	}
	let name = *rng.pick(&SHAPES);
	let rule = c.morph.grammar.by_name[name];
	let want = rng.chance(60);
	let mut out = String::new();
	for _ in 0..12 {
		out.clear();
		let budget = rng.range(4, 30);
		spell(c, rng, &c.morph.grammar.rules[rule].ex, budget, &mut out);
		if out.is_empty() || out.len() > 24 {
			continue;
		}
		if !want {
			break;
		}
		let letters: Vec<char> = out.chars().collect();
		let n = letters.len();
		let input = crate::morph::Chars(letters);
		let mut run = crate::peg::Run::new(&c.morph.grammar, &input);
		if run.matches(name, 0) == Some(n) {
			break;
		}
	}
	out
}

/// a word whose spelling goes through one rule of the morphology
pub fn shape_around(c: &Ctx, rng: &mut Rng) -> String {
	let g = &c.morph.grammar;
	let want = rng.chance(60);
	let mut out = String::new();
	for _ in 0..12 {
		let root = g.by_name[*rng.pick(&ROOTS)];
		let target = c.morph_focus.target(rng, root);
		out.clear();
		for item in c.morph_focus.derive(g, rng, root, target, 14) {
			if let Item::Terminal(t) = item {
				if let Terminal::Chars(set) = &g.terminals[t] {
					let ch = *rng.pick(set);
					let low = ch.to_ascii_lowercase();
					out.push(if set.contains(&low) { low } else { ch });
				}
			}
		}
		if out.is_empty() || out.len() > 24 {
			continue;
		}
		if !want {
			break;
		}
		let letters: Vec<char> = out.chars().collect();
		let n = letters.len();
		let input = crate::morph::Chars(letters);
		let mut run = crate::peg::Run::new(g, &input);
		if run.matches(&g.rules[root].name, 0) == Some(n) {
			break;
		}
	}
	out
}

/// contexts for every pair (@ twice) or triple of consonants
pub const PAIRS: [&str; 12] = ["ba@a", "@adu", "ba@an", "ba@yba'a", "a@a", "loba@oda", "@adyxla", "ba'i@abde", "bau@oda", "broda@o", "ba@Aba", "ma@edna'i"];
pub const TRIPLES: [&str; 2] = ["ba@an", "ca@adi"];
pub const CONSONANTS: &[u8; 17] = b"bcdfgjklmnprstvxz";
pub const SYSTEMATIC: u64 = 289 * 12 + 4913 * 2;

pub fn systematic(i: u64) -> String {
	let letter = |k: u64| CONSONANTS[(k % 17) as usize] as char;
	if i < 289 * 12 {
		let cluster: String = [letter(i), letter(i / 17)].into_iter().collect();
		PAIRS[(i / 289) as usize % 12].replace('@', &cluster)
	} else {
		let i = i - 289 * 12;
		let cluster: String = [letter(i), letter(i / 17), letter(i / 289)].into_iter().collect();
		TRIPLES[(i / 4913) as usize % 2].replace('@', &cluster)
	}
}

/// word-like material from which runs are glued
pub fn morpheme(c: &Ctx, rng: &mut Rng) -> String {
	let diph = ["ai", "ei", "oi", "au", "ia", "ie", "iu", "ui", "uu", "io"];
	let mut s = String::new();
	match rng.below(20) {
		16..=19 => s = shape(c, rng),
		0 | 1 => s = rng.pick(&c.cmavo).clone(),
		2 | 3 => s = rng.pick(&c.corpus_words).clone(),
		4 => {
			// CVC rafsi, maybe with y
			s.extend([consonant(rng), vowel(rng), consonant(rng)]);
			if rng.chance(40) {
				s.push('y');
			}
		}
		5 => {
			s.push_str(rng.pick(&INITIALS[..]));
			s.push(vowel(rng));
		}
		6 => {
			s.push(consonant(rng));
			s.push(vowel(rng));
			if rng.chance(70) {
				s.push('\'');
			}
			s.push(vowel(rng));
			if rng.chance(30) {
				s.push(*rng.pick(&['r', 'n', 'l']));
			}
		}
		7 => {
			s.push(consonant(rng));
			s.push_str(*rng.pick(&diph));
		}
		8 => {
			// gismu shape
			if rng.chance(50) {
				s.extend([consonant(rng), vowel(rng), consonant(rng), consonant(rng), vowel(rng)]);
			} else {
				s.push_str(rng.pick(&INITIALS[..]));
				s.extend([vowel(rng), consonant(rng), vowel(rng)]);
			}
		}
		9 => {
			// long rafsi
			s.push_str(rng.pick(&INITIALS[..]));
			s.extend([vowel(rng), consonant(rng), 'y']);
		}
		10 => s.extend([consonant(rng), vowel(rng)]),
		11 => s.push_str(*rng.pick(&diph)),
		12 => s.push_str(*rng.pick(&["y", "yy", "y'y", "'y", "'", "h", "n", "r", "l", "1", "0", "iy", "uy", "a'y", "'a"])),
		13 => s.push(vowel(rng)),
		14 => {
			for _ in 0..rng.range(1, 4) {
				s.push(consonant(rng));
			}
		}
		_ => {
			for _ in 0..rng.range(1, 6) {
				s.push(LETTERS.as_bytes()[rng.below(LETTERS.len())] as char);
			}
		}
	}
	s
}

/// change spelling in ways that matter to the morphology: capitals, commas, h
pub fn respell(rng: &mut Rng, s: &str, capitals: usize, commas: usize) -> String {
	let mut out = String::new();
	// rarely very many commas at one place
	let heap = (commas > 0 && rng.below(150) == 0).then(|| (rng.below(s.len() + 1), *rng.pick(&[15, 16, 17, 64, 127, 255, 256, 300, 1100])));
	for (at, ch) in s.chars().enumerate() {
		if rng.chance(commas) {
			for _ in 0..1 + rng.small(2) {
				out.push(',');
			}
		}
		if let Some((_, n)) = heap.filter(|h| h.0 == at) {
			out.extend(std::iter::repeat(',').take(n));
		}
		if ch == '\'' && rng.chance(20) {
			out.push('h');
		} else if rng.chance(capitals) {
			out.extend(ch.to_uppercase());
		} else {
			out.push(ch);
		}
	}
	if rng.chance(commas) {
		out.push(',');
	}
	out
}

/// the same again, or almost
pub fn variation(rng: &mut Rng, s: &str) -> String {
	let mut v: Vec<char> = s.chars().collect();
	if v.is_empty() {
		return String::new();
	}
	let at = rng.below(v.len());
	match rng.below(8) {
		0 => return s.to_string(),
		1 | 2 => v[at] = if v[at].is_ascii_lowercase() { v[at].to_ascii_uppercase() } else { v[at].to_ascii_lowercase() },
		3 => v.insert(at, ','),
		4 => return respell(rng, s, 20, 5),
		5 => drop(v.remove(at)),
		6 => v.insert(at, LETTERS.as_bytes()[rng.below(LETTERS.len())] as char),
		_ => v[at] = LETTERS.as_bytes()[rng.below(LETTERS.len())] as char,
	}
	v.into_iter().collect()
}

/// many cmavo without a pause between them, sometimes with another word in front or behind
pub fn long_run(c: &Ctx, rng: &mut Rng, most: usize) -> String {
	let n = *rng.pick(&[17, 33, 65, most / 2, most]) + rng.below(4);
	let mut s = String::new();
	if rng.chance(20) {
		s.push_str(&rng.pick(&c.corpus_words).clone());
	}
	let fixed = rng.chance(30).then(|| rng.pick(&c.cmavo).clone());
	for _ in 0..n.min(most) {
		match &fixed {
			Some(w) => s.push_str(w),
			None => {
				// mostly short cmavo that begin in a consonant, so that the words are many
				let w = rng.pick(&c.cmavo).clone();
				let plain = w.len() <= 3 && !w.starts_with(['a', 'e', 'i', 'o', 'u', 'y']);
				s.push_str(if plain || rng.chance(10) { &w } else { *rng.pick(&["mi", "lo", "ba", "du'u", "ko'a", "se"]) });
			}
		}
	}
	match rng.below(10) {
		0..=2 => s.push_str(&rng.pick(&c.corpus_words).clone()),
		3 | 4 => s.push_str(&morpheme(c, rng)),
		// something that is no word
		5 | 6 => {
			for _ in 0..rng.range(1, 5) {
				s.push("aeiouybcdfgjklmnprstvxz'h0qw1"[..].as_bytes()[rng.below(29)] as char);
			}
		}
		_ => {}
	}
	s
}

/// a text with very many words of one kind
pub fn many(c: &Ctx, rng: &mut Rng) -> String {
	let n = *rng.pick(&[12, 20, 40, 70, 90, 140, 270]) + rng.below(5);
	let mut s = String::new();
	let add = |s: &mut String, piece: &str| {
		s.push_str(piece);
		s.push(' ');
	};
	match rng.below(8) {
		0 => {
			for _ in 0..n.min(140) {
				let q = quotation(c, rng, false);
				add(&mut s, &q);
			}
		}
		1 => {
			let q = quotation(c, rng, false);
			for _ in 0..n.min(140) {
				add(&mut s, &q);
			}
		}
		2 => {
			let sentence = rng.pick(&c.corpus).clone();
			for _ in 0..(n / 6).max(3) {
				add(&mut s, &sentence);
				add(&mut s, ".i");
			}
		}
		3 => {
			for _ in 0..(n / 6).max(3) {
				let sentence = rng.pick(&c.corpus).clone();
				add(&mut s, &sentence);
				add(&mut s, ".i");
			}
		}
		4 => {
			for _ in 0..n {
				let w = rng.pick(&c.corpus_words).clone();
				add(&mut s, &respell(rng, &w, 15, 10));
			}
		}
		5 => {
			let w = rng.pick(&c.cmavo).clone();
			for _ in 0..n {
				add(&mut s, &w);
			}
		}
		6 => {
			// names, one after the other
			for _ in 0..n {
				let w = run(c, rng).replace(crate::morph::is_separator, "");
				add(&mut s, &format!("{w}n"));
			}
		}
		_ => {
			let w = *rng.pick(&["ui", "mi", "pa", "bu", "broda", "ni'o", "i", "q", "zoi", "lo'u", "zo", "fi'o", "si", "da"]);
			for _ in 0..n {
				add(&mut s, w);
			}
			s.push_str(&text(c, rng));
		}
	}
	s
}

/// one run of letters, apostrophes, digits, commas and capitals
pub fn run(c: &Ctx, rng: &mut Rng) -> String {
	let mut s = String::new();
	if rng.below(250) == 0 {
		let commas = *rng.pick(&[0, 0, 3]);
		let s = long_run(c, rng, 75);
		return respell(rng, &s, 0, commas);
	}
	match rng.below(10) {
		0 => {
			for _ in 0..rng.range(1, 8) {
				s.push("aeiouybcdfgjklmnprstvxz'h0,AEIOUYBHKLR"[..].as_bytes()[rng.below(38)] as char);
			}
		}
		1 => {
			// small alphabet: more likely to hit delicate clusters
			let k = rng.range(2, 4);
			let letters: Vec<char> = (0..k).map(|_| LETTERS.as_bytes()[rng.below(LETTERS.len())] as char).collect();
			for _ in 0..rng.range(2, 9) {
				s.push(*rng.pick(&letters));
			}
			s.push(vowel(rng));
		}
		_ => {
			for _ in 0..1 + rng.small(4) {
				s.push_str(&morpheme(c, rng));
			}
			if rng.chance(20) && !s.is_empty() {
				// one random edit
				let mut v: Vec<char> = s.chars().collect();
				let i = rng.below(v.len());
				match rng.below(3) {
					0 => drop(v.remove(i)),
					1 => v.insert(i, LETTERS.as_bytes()[rng.below(LETTERS.len())] as char),
					_ => v[i] = LETTERS.as_bytes()[rng.below(LETTERS.len())] as char,
				}
				s = v.into_iter().collect();
			}
		}
	}
	let capitals = *rng.pick(&[0, 0, 0, 5, 15, 40]);
	let commas = *rng.pick(&[0, 0, 0, 4, 20]);
	if capitals + commas > 0 || rng.chance(20) {
		s = respell(rng, &s, capitals, commas);
	}
	s
}

/// a delimited or pause-delimited quotation, well formed or not
pub fn quotation(c: &Ctx, rng: &mut Rng, faulty: bool) -> String {
	let mut s = String::new();
	let kind = rng.below(12);
	let initiator = match kind {
		0..=3 => *rng.pick(&["zoi", "la'o", "mu'oi"]),
		4..=6 => "so'e'ai",
		7 => "me'oi",
		8 => *rng.pick(&["zo'oi", "la'oi", "ra'oi"]),
		9 => "do'oi",
		10 => *rng.pick(&["zo", "ma'oi"]),
		_ => "lo'u",
	};
	let commas = *rng.pick(&[0, 0, 10]);
	s.push_str(&respell(rng, initiator, 0, commas));
	let glue = rng.chance(15);
	s.push_str(&if glue { String::new() } else { separator(rng) });
	match kind {
		0..=6 => {
			let d = match rng.below(8) {
				0 => garbage(rng, 3).replace(|c| SEPARATORS.contains(&c), ""),
				1 => rng.pick(&c.corpus_words).clone(),
				2 => rng.pick(&c.cmavo).clone(),
				3 => run(c, rng),
				_ => rng.pick(&["gy", "zoi", "kuot", "djan", "broda", "fa'o", "a", "ry", "dy"]).to_string(),
			};
			let parts = if kind >= 4 { 2 } else { 1 };
			let commas = *rng.pick(&[0, 0, 0, 15]);
			s.push_str(&respell(rng, &d, 0, commas));
			for _ in 0..parts {
				s.push_str(&separator(rng));
				for _ in 0..rng.small(4) {
					let w = match rng.below(10) {
						0 => respell(rng, &d, 30, 20),
						1 => format!("{d}{}", vowel(rng)),
						2 => format!("{}{d}", rng.pick(&c.cmavo)),
						3 => d.chars().skip(1).collect(),
						_ => quoted_word(c, rng),
					};
					s.push_str(&w);
					s.push_str(&separator(rng));
				}
				if !(faulty && rng.chance(60)) {
					s.push_str(&respell(rng, &d, 0, commas));
				}
			}
		}
		7..=9 => {
			if !(faulty && rng.chance(70)) {
				s.push_str(&if rng.chance(30) { garbage(rng, 5) } else { run(c, rng) });
			}
		}
		10 => s.push_str(&rng.pick(&c.corpus_words).clone()),
		_ => {
			for _ in 0..rng.small(4) {
				s.push_str(&rng.pick(&c.cmavo).clone());
				s.push(' ');
			}
			s.push_str("le'u");
		}
	}
	s
}

/// a text for word- and token-level checks
pub fn text(c: &Ctx, rng: &mut Rng) -> String {
	if rng.below(300) == 0 {
		return many(c, rng);
	}
	let mut s = String::new();
	match rng.below(10) {
		0 => s = garbage(rng, 20),
		1 => s = rng.pick(&c.corpus).clone(),
		2 => {
			let t: Vec<char> = rng.pick(&c.corpus).chars().collect();
			let a = rng.below(t.len());
			let b = (a + rng.range(1, 30)).min(t.len());
			for &ch in &t[a..b] {
				match rng.below(40) {
					0 => {}
					1 => s.push(','),
					2 => s.extend(ch.to_uppercase()),
					3 => s.push_str(&separator(rng)),
					_ if ch == ' ' && rng.chance(20) => {}
					_ => s.push(ch),
				}
			}
		}
		3 => {
			for _ in 0..1 + rng.small(3) {
				if rng.chance(50) {
					s.push_str(&run(c, rng));
					s.push_str(&separator(rng));
				}
				let faulty = rng.chance(15);
				s.push_str(&quotation(c, rng, faulty));
				s.push_str(&separator(rng));
			}
			if rng.chance(50) {
				s.push_str(&run(c, rng));
			}
		}
		4 => s = run(c, rng),
		_ => {
			let n = 1 + rng.small(6);
			for i in 0..n {
				if i > 0 || rng.chance(15) {
					s.push_str(&separator(rng));
				}
				s.push_str(&match rng.below(20) {
					0 => garbage(rng, 4),
					1 => (0..rng.range(1, 3)).map(|_| ',').collect(),
					2..=6 => rng.pick(&c.cmavo).clone(),
					7..=9 => rng.pick(&c.corpus_words).clone(),
					_ => run(c, rng),
				});
			}
			if rng.chance(20) {
				s.push_str(&separator(rng));
			}
		}
	}
	if rng.chance(8) {
		// something of it once more
		let parts: Vec<&str> = s.split(|ch| SEPARATORS.contains(&ch)).filter(|p| !p.is_empty()).collect();
		if !parts.is_empty() && s.len() < 300 {
			let part = *rng.pick(&parts);
			let again = variation(rng, part);
			s = if rng.chance(80) { format!("{s}{}{again}", separator(rng)) } else { format!("{again}{}{s}", separator(rng)) };
		}
	}
	s
}

/// a short text around one rule of the grammar
pub fn around(c: &Ctx, rng: &mut Rng) -> Vec<String> {
	let root = c.grammar.by_name["Text"];
	let target = c.focus.target(rng, root);
	let items = c.focus.derive(&c.grammar, rng, root, target, 24);
	let mut v: Vec<String> = items
		.into_iter()
		.map(|i| match i {
			Item::Terminal(t) => match &c.grammar.terminals[t] {
				Terminal::Token(name) => name.clone(),
				Terminal::Chars(_) => unreachable!(),
			},
			Item::Any => any_class(c, rng),
		})
		.collect();
	if rng.chance(15) {
		v.push(any_class(c, rng));
	}
	v
}

/// a sentence-like token class sequence, well formed or damaged
pub fn classes(c: &Ctx, rng: &mut Rng, d: &mut Deriver, damage: usize) -> Vec<String> {
	let mut v = match rng.below(20) {
		12..=19 => around(c, rng),
		0 | 1 => {
			let line = rng.pick(&c.corpus).clone();
			lexref::lex(&c.morph, &line).tokens.into_iter().map(|t| t.class).collect()
		}
		2 => (0..1 + rng.small(8)).map(|_| any_class(c, rng)).collect(),
		_ => d.text(c, rng),
	};
	if rng.chance(damage) {
		mutate(c, rng, &mut v);
	}
	v.truncate(60);
	v
}

/// a long list of something, in place of a piece of the sequence
fn repeat(rng: &mut Rng, v: &mut Vec<String>) {
	let items = ["Gismu", "Koha", "Pa", "Ui", "I Gismu", "Niho Gismu", "By", "Gismu Je", "Koha E", "Ui Nai", "Na", "Ca", "Pu Ja", "Sei Gismu Sehu", "Xi Pa Boi", "Coi", "Cmevla", "Gismu Zei", "Fa Koha", "Gismu Bu", "Se", "Nahe", "Bahe"];
	let times = *rng.pick(&[9, 17, 33, 40, 65, 70, 100, 130, 257, 300]);
	let at = rng.below(v.len() + 1);
	let piece: Vec<String> = if rng.chance(70) || at == v.len() {
		rng.pick(&items).split(' ').map(String::from).collect()
	} else {
		v[at..(at + 1 + rng.below(3)).min(v.len())].to_vec()
	};
	let lists: Vec<String> = (0..times).flat_map(|_| piece.clone()).collect();
	match rng.below(4) {
		0 => *v = lists,
		1 => {
			// inside a word-list quotation
			*v = vec!["Koha".into(), "Lohu".into()];
			v.extend(lists);
			v.push("Lehu".into());
		}
		_ => drop(v.splice(at..at, lists)),
	}
}

/// constructs inside each other, a few to many levels deep, closed or not
pub fn nested(rng: &mut Rng, deepest: usize) -> Vec<String> {
	const LEVELS: [(&str, &str); 40] = [
		("Lu", "Lihu"), ("Gismu Lu", "Lihu"), ("Koha Gismu Lu", "Lihu"), ("Koha To Koha", "Toi"), ("Le Nu", "Kei Ku"), ("Le Nu Koha", "Kei Ku"), ("Nu", "Kei"), ("Koha Poi", "Kuho"),
		("Koha Poi Koha", "Kuho"), ("Koha Noi", "Kuho"), ("Ke", "Kehe"), ("Gismu Be Le", "Ku Beho"), ("Le Gismu Be", "Beho Ku"), ("Li Vei", "Veho Loho"), ("Vei", "Veho"), ("Tuhe", "Tuhu"),
		("Luhe", "Luhu"), ("Lahe", "Luhu"), ("Sei", "Sehu"), ("Nahe Ke", "Kehe"), ("Me Le", "Ku Mehu"), ("Me", "Mehu"), ("Ge", "Gi Koha"), ("Ge Koha Gismu Gi", ""), ("Koha E Ke", "Kehe"),
		("Le Koha", "Ku"), ("Nuhi Ge Koha Gi", "Nuhu"), ("Nuha Li Vei", "Veho Loho"), ("Mohe Le", "Ku Tehu"), ("Li Mohe Le Ni", "Kei Ku Tehu Loho"), ("Nihe Le Nu", "Kei Ku Tehu"),
		("Xi Vei", "Veho"), ("Goi Le", "Ku Gehu"), ("Gismu Co", ""), ("Se Ke", "Kehe"), ("Jai Bai", ""), ("Na Ku", ""), ("Fiho", "Fehu"), ("Peho", "Kuhe"), ("Guha Gismu Gi", ""),
	];
	let mut parts: Vec<(&str, &str)> = (0..*rng.pick(&[1, 1, 2, 3])).map(|_| *rng.pick(&LEVELS)).collect();
	if rng.chance(30) {
		// not one thing again and again
		parts = (0..deepest).map(|_| *rng.pick(&LEVELS)).collect();
	}
	let n = rng.range(2, deepest.max(3));
	let levels: Vec<(&str, &str)> = (0..n).map(|i| parts[i % parts.len()]).collect();
	let core = *rng.pick(&["Koha Gismu", "Gismu", "Koha", "Pa", "Le Gismu", "Gismu Be Koha", "Koha Ui", ""]);
	let closed = *rng.pick(&[0, 0, 50, 100, 100, 90]);
	let mut out: Vec<String> = levels.iter().flat_map(|l| l.0.split_whitespace()).chain(core.split_whitespace()).map(String::from).collect();
	for level in levels.iter().rev() {
		if rng.chance(closed) {
			out.extend(level.1.split_whitespace().map(String::from));
		}
	}
	out
}

/// a case for tree-level checks: mostly token arrays, some texts
pub fn tree_case(c: &Ctx, rng: &mut Rng, d: &mut Deriver, damage: usize) -> String {
	let mut v = classes(c, rng, d, damage);
	if rng.permille(15) {
		repeat(rng, &mut v);
	} else if rng.permille(20) {
		v = nested(rng, 9);
	}
	if rng.chance(75) {
		array_case(rng, &v)
	} else {
		let words = classes_to_words(c, rng, &v);
		format!("t:{}", join(rng, &words))
	}
}

/// like `tree_case`, but mostly cases the grammar accepts
pub fn accepted_case(c: &Ctx, rng: &mut Rng, d: &mut Deriver) -> String {
	let mut case = String::new();
	for _ in 0..8 {
		case = tree_case(c, rng, d, 5);
		if rng.chance(4) {
			break;
		}
		let Some((tokens, _, cost)) = case_tokens(c, &case) else { continue };
		if tokens.len() < 2 || cost > crate::checks::words::LEX_LIMIT {
			continue;
		}
		if matches!(crate::tree::reference(&c.grammar, &c.morph.repr, &tokens).verdict, crate::tree::Verdict::Accepted(_)) {
			break;
		}
	}
	case
}
