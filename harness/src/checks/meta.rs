//! C15, C16, C23, C24: relations between the analyses of related texts
use super::words::{lex_limit, words_cost, TREE_LIMIT};
use crate::gen::{self, Ctx, Deriver};
use crate::lexref::Tok;
use crate::peg::{Node, Terminal};
use crate::real;
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::tree::{self, Obs, Verdict};
use sneturfahi::lex::{Selmaho, Token};
use std::collections::HashSet;

fn plan(quick: u64, thorough: bool) -> Plan {
	Plan { cases: if thorough { quick * 50 } else { quick }, workers: 8, cpu_limit: 40.0, stack: 256 << 20, wall: if thorough { 600 } else { 70 } }
}

/// tokens with fresh, adjacent spans
fn respan(classes: &[(Selmaho, bool)]) -> Vec<Token> {
	classes
		.iter()
		.enumerate()
		.map(|(i, &(selmaho, experimental))| Token { selmaho, experimental, span: sneturfahi::Span { start: 3 * i as u32, end: 3 * i as u32 + 2 } })
		.collect()
}

fn parse(tokens: &[Token]) -> Result<Obs, String> {
	let arena = sneturfahi::Arena::new();
	let result = sneturfahi::Cst::parse(tokens, &arena);
	match result {
		Ok(cst) => Ok(tree::observe(cst.root())),
		Err(e) => Err(format!("{:?} at token {}", e.error, tokens.len() - e.location.len())),
	}
}

fn affordable(c: &Ctx, tokens: &[Token]) -> bool {
	let toks: Vec<Tok> = tokens.iter().map(real::tok).collect();
	tree::reference(&c.grammar, &c.morph.repr, &toks).cost <= TREE_LIMIT
}

fn show(tokens: &[Token]) -> String {
	tokens.iter().map(|t| t.selmaho.as_repr()).collect::<Vec<_>>().join(" ")
}

/// the tree without some of its leaves (and the nodes that held nothing else), optionally with the contents of
/// indicator nodes flattened; spans dropped, leaves numbered among the kept ones
fn shape(o: &Obs, removed: &HashSet<usize>, flatten: bool) -> String {
	struct S<'a> {
		removed: &'a HashSet<usize>,
		flatten: bool,
		leaf: usize,
		kept: usize,
	}
	/// None: it consisted of removed leaves only
	fn go(s: &mut S<'_>, o: &Obs, inside: bool, out: &mut String) -> bool {
		if o.kids.is_empty() && o.start.is_some() {
			let n = s.leaf;
			s.leaf += 1;
			if s.removed.contains(&n) {
				return false;
			}
			out.push_str(&format!("({}#{})", o.name, s.kept));
			s.kept += 1;
			return true;
		}
		let mark = out.len();
		let first = s.leaf;
		let flat = inside || (s.flatten && o.name == "Indicators");
		if !inside {
			out.push('(');
			out.push_str(&o.name);
		}
		for k in &o.kids {
			go(s, k, flat, out);
		}
		if !inside {
			out.push(')');
		}
		let all_removed = s.leaf > first && (first..s.leaf).all(|i| s.removed.contains(&i));
		if all_removed {
			out.truncate(mark);
		}
		!all_removed
	}
	let mut out = String::new();
	go(&mut S { removed, flatten, leaf: 0, kept: 0 }, o, false, &mut out);
	out
}

fn diff(a: &str, b: &str) -> String {
	let (av, bv): (Vec<&str>, Vec<&str>) = (a.split('(').collect(), b.split('(').collect());
	let n = av.iter().zip(&bv).take_while(|(x, y)| x == y).count();
	let around = |v: &[&str]| v[n.saturating_sub(6)..(n + 6).min(v.len())].join("(");
	format!("…{}… versus …{}…", around(&av), around(&bv))
}

// ---------------------------------------------------------------- C15

pub struct Indicators(Deriver);
impl Indicators {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

/// indices of the words of ordinary word nodes, in the reference tree
fn ordinary(node: &Node, singles: &HashSet<&str>, out: &mut Vec<usize>) {
	for kid in &node.kids {
		if let Some(i) = kid.leaf {
			// the word itself, not its emphasis markers
			if singles.contains(&*node.name) && &*kid.name != "BAhE" {
				out.push(i);
			}
		} else {
			ordinary(kid, singles, out);
		}
	}
}

impl Check for Indicators {
	fn rule(&self) -> &'static str {
		"accepted token sequences and texts; an attitudinal (UI or CAI) is put behind, or an emphasis marker in front of, ordinary words, one at a time and several at once; the tree without the additions is compared; non-trivial: at least one decorated variant compared"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["which words are ordinary is read off the reference grammar's tree", "costly sequences are skipped"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(3_500, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i < c.corpus.len() as u64 {
			return format!("t:{}", c.corpus[i as usize]);
		}
		gen::accepted_case(c, rng, &mut self.0)
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((input, _, _, reference)) = super::trees::tokens(c, case) else {
			st.skip();
			return Ok(());
		};
		let Verdict::Accepted(root) = &reference.verdict else {
			st.skip();
			return Ok(());
		};
		let singles: HashSet<&str> = c
			.grammar
			.terminals
			.iter()
			.filter_map(|t| if let Terminal::Token(n) = t { Some(n.as_str()) } else { None })
			.filter(|n| !["Fuhe", "Zei", "Bahe", "Lohu", "Lu", "Zo", "Zoi", "Bu", "ZoiDelimiter", "AnyText", "Faho"].contains(n))
			.collect();
		let mut sites = vec![];
		ordinary(root, &singles, &mut sites);
		let base: Vec<(Selmaho, bool)> = input.iter().map(|t| (t.selmaho, t.experimental)).collect();
		let Ok(before) = parse(&input) else {
			st.count("rejected against the reference", 1);
			return Ok(());
		};
		let want = shape(&before, &HashSet::new(), true);
		let mut rng = Rng::new(hash(case.as_bytes()));
		let after_ok = |i: usize| base.get(i + 1).map_or(true, |t| t.0 != Selmaho::Fuhe);
		let mut variants: Vec<Vec<(usize, bool)>> = vec![];
		if sites.is_empty() {
			st.skip();
			return Ok(());
		}
		for _ in 0..5 {
			variants.push(vec![(*rng.pick(&sites), rng.chance(50))]);
		}
		let several = sites.iter().filter_map(|&i| [None, Some((i, true)), Some((i, false))][rng.below(3)]).collect();
		variants.push(several);
		for variant in variants {
			// additions in front of word i (emphasis) or behind it
			let mut new: Vec<(Selmaho, bool)> = vec![];
			let mut added = HashSet::new();
			for (i, t) in base.iter().enumerate() {
				if variant.contains(&(i, true)) {
					added.insert(new.len());
					new.push((Selmaho::Bahe, false));
				}
				new.push(*t);
				if variant.contains(&(i, false)) && after_ok(i) {
					added.insert(new.len());
					new.push((*rng.pick(&[Selmaho::Ui, Selmaho::Ui, Selmaho::Cai]), false));
				}
			}
			if added.is_empty() {
				continue;
			}
			let tokens = respan(&new);
			if !affordable(c, &tokens) {
				continue;
			}
			let after = parse(&tokens).map_err(|e| format!("decorated as {} the text is rejected: {e}", show(&tokens)))?;
			let got = shape(&after, &added, true);
			if got != want {
				return Err(format!("decorated as {} the tree differs: {}", show(&tokens), diff(&want, &got)));
			}
			st.count("variants compared", 1);
			for (i, emphasis) in variant {
				st.seen(if emphasis { "classes emphasised" } else { "classes with an attitudinal" }, base[i].0.as_repr());
			}
			st.nontrivial();
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C16

pub struct Compose(Deriver);
impl Compose {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

fn find_all<'a>(o: &'a Obs, name: &str, out: &mut Vec<&'a Obs>) {
	if o.name == name {
		out.push(o);
	}
	for k in &o.kids {
		find_all(k, name, out);
	}
}

/// the items of a whole text: its paragraphs' sentences
fn items<'a>(text: &'a Obs) -> Vec<&'a Obs> {
	let mut out = vec![];
	for paragraphs in text.kids.iter().filter(|k| k.name == "Paragraphs") {
		for paragraph in paragraphs.kids.iter().flat_map(|s| &s.kids).filter(|k| k.name == "Paragraph") {
			for list in paragraph.kids.iter().filter(|k| k.name == "Separated") {
				out.extend(list.kids.iter().filter(|k| k.name.starts_with("ParagraphItem")));
			}
		}
	}
	out
}

fn closed(root: &Obs) -> bool {
	[("LuSumti", "Lihu"), ("Free::To", "Toi"), ("Sentences3::Grouped", "Tuhu")].iter().all(|(opener, closer)| {
		let mut nodes = vec![];
		find_all(root, opener, &mut nodes);
		nodes.iter().all(|n| n.kids.iter().any(|k| k.name == *closer))
	})
}

impl Check for Compose {
	fn rule(&self) -> &'static str {
		"two random accepted token sequences joined by a sentence or paragraph separator; the sentences of the joint tree are compared one by one with those of the parts; non-trivial: both parts have a sentence with content"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["costly sequences are skipped"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(6_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		let a = gen::accepted_case(c, rng, &mut self.0).replace('\u{1f}', "");
		let b = gen::accepted_case(c, rng, &mut self.0).replace('\u{1f}', "");
		let sep = *rng.pick(&["I", "I", "Niho", "Niho Niho"]);
		format!("{a}\u{1f}{b}\u{1f}a:{sep}")
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let f: Vec<&str> = case.split('\u{1f}').collect();
		let [a, b, sep] = f[..] else { return Ok(()) };
		let (Some((ta, ..)), Some((tb, ..))) = (super::trees::tokens(c, a), super::trees::tokens(c, b)) else {
			st.skip();
			return Ok(());
		};
		let Some(ts) = gen::parse_array(c, sep.strip_prefix("a:").unwrap_or("")) else { return Ok(()) };
		if ts.is_empty() || !(ts.iter().all(|t| t.class == "Niho") || (ts.len() == 1 && ts[0].class == "I")) {
			return Ok(());
		}
		let (Ok(pa), Ok(pb)) = (parse(&ta), parse(&tb)) else {
			st.skip();
			return Ok(());
		};
		let (ia, ib) = (items(&pa), items(&pb));
		let text_b = &pb;
		let own_separator = text_b.kids.iter().any(|k| k.name == "ParagraphSeparator")
			|| text_b.kids.iter().filter(|k| k.name == "Paragraphs").any(|p| {
				let mut first = vec![];
				find_all(p, "Paragraph", &mut first);
				first.first().map_or(false, |p| p.kids.first().map_or(false, |k| k.name == "SentenceSeparator"))
			});
		// "je", "na ja", "se joi gi", ... at the start of the second text would bind to the separator
		let transparent = ["Ui", "Cai", "Nai", "Daho", "Fuho", "Fuhe", "Y", "Bahe", "Na", "Se"];
		let first = tb.iter().map(|t| format!("{:?}", t.selmaho)).find(|n| !transparent.contains(&n.as_str()));
		let connective = first.map_or(false, |n| ["Joi", "Ja", "Bihi", "Gaho"].contains(&n.as_str()));
		let open = !closed(&pa)
			|| ta.last().map_or(true, |t| [Selmaho::I, Selmaho::Niho].contains(&t.selmaho))
			|| ta.iter().chain(&tb).any(|t| t.selmaho == Selmaho::Faho)
			|| ia.last().map_or(true, |i| i.start.is_none());
		if open || own_separator || connective {
			st.skip();
			return Ok(());
		}
		let classes: Vec<(Selmaho, bool)> =
			ta.iter().map(|t| (t.selmaho, t.experimental)).chain(ts.iter().map(|t| (c.classes[&t.class], false))).chain(tb.iter().map(|t| (t.selmaho, t.experimental))).collect();
		let tokens = respan(&classes);
		if !affordable(c, &tokens) {
			st.skip();
			return Ok(());
		}
		let joint = parse(&tokens).map_err(|e| format!("joined as {} the text is rejected: {e}", show(&tokens)))?;
		let got: Vec<String> = items(&joint).iter().map(|i| i.shape()).collect();
		let want: Vec<String> = ia.iter().chain(&ib).map(|i| i.shape()).collect();
		for (g, w) in got.iter().zip(&want) {
			if g != w {
				return Err(format!("joined as {} a sentence changes: {}", show(&tokens), diff(w, g)));
			}
		}
		if got.len() != want.len() {
			return Err(format!("joined as {} there are {} sentences instead of {} + {}", show(&tokens), got.len(), ia.len(), ib.len()));
		}
		st.count("sentences compared", got.len() as u64);
		st.count(if ts[0].class == "I" { "joined by a sentence separator" } else { "joined by a paragraph separator" }, 1);
		if ib.iter().any(|i| i.start.is_some()) {
			st.nontrivial();
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C23

pub struct SpelledOut;

impl Check for SpelledOut {
	fn rule(&self) -> &'static str {
		"random texts and texts of accepted sentences with the pauses between many words removed; the words found are written with a pause between all of them and analysed again; words, classes, acceptance and tree shape are compared; non-trivial: a run contained at least two words"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["costly texts are skipped"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(3_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i % 40 == 9 {
			return gen::long_run(c, rng, 70);
		}
		match rng.below(5) {
			0 => gen::text(c, rng),
			1 => gen::run(c, rng),
			2 => rng.pick(&c.corpus).split(' ').map(|w| if rng.chance(60) { format!("{w} ") } else { w.to_string() }).collect(),
			_ => {
				let mut d = Deriver::new();
				let v = gen::classes(c, rng, &mut d, 10);
				let words = gen::classes_to_words(c, rng, &v);
				let glue = rng.range(10, 70);
				let mut s = String::new();
				for w in words {
					s.push_str(&w);
					if w.ends_with(|ch: char| "bcdfgjklmnprstvxz".contains(ch)) || !rng.chance(glue) {
						s.push(' ');
					}
				}
				s
			}
		}
	}
	fn judge(&mut self, c: &Ctx, text: &str, st: &mut Stats) -> Result<(), String> {
		if words_cost(c, text) > 2 * lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let w1 = real::words(text)?;
		let s1 = real::slices(text, &w1)?;
		let spelled = s1.join(" ");
		if words_cost(c, &spelled) > 4 * lex_limit(text) {
			st.skip();
			return Ok(());
		}
		let w2 = real::words(&spelled)?;
		let s2 = real::slices(&spelled, &w2)?;
		if s1 != s2 {
			return Err(format!("the words {s1:?}, written separately, are split into {s2:?}"));
		}
		let glued = w1.windows(2).any(|w| w[0].end == w[1].start);
		if glued {
			st.nontrivial();
			st.count("texts with glued words", 1);
		}
		st.count("words", s1.len() as u64);
		let quoting = s1.iter().any(|w| {
			let class = format!("{:?}", Selmaho::classify(w).0);
			["Zoi", "Muhoi", "Sohehai", "Mehoi", "Zohoi", "Dohoi"].contains(&class.as_str())
		});
		if quoting {
			return Ok(());
		}
		let ((t1, e1), (t2, e2)) = (real::lex(text)?, real::lex(&spelled)?);
		let view = |t: &[Token]| t.iter().map(|t| (t.selmaho, t.experimental)).collect::<Vec<_>>();
		if view(&t1) != view(&t2) || e1.is_some() || e2.is_some() {
			return Err(format!("tokens {} {e1:?}, spelled out {} {e2:?}", show(&t1), show(&t2)));
		}
		if t1.len() > 80 || !affordable(c, &t1) {
			return Ok(());
		}
		match (parse(&t1), parse(&t2)) {
			(Ok(a), Ok(b)) => {
				let (a, b) = (a.shape(), b.shape());
				if a != b {
					return Err(format!("spelled out the tree differs: {}", diff(&a, &b)));
				}
				st.count("trees compared", 1);
			}
			(Err(_), Err(_)) => st.count("rejections compared", 1),
			(a, b) => return Err(format!("accepted: {}, spelled out: {}", a.is_ok(), b.is_ok())),
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C24

pub struct Terminators(Deriver);
impl Terminators {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

/// (number of tokens before it, class) of every elided terminator, innermost first at each place
fn elided(node: &Node, at: &mut usize, out: &mut Vec<(usize, String)>, parent: &str) {
	if node.leaf.is_some() {
		*at += 1;
	}
	for k in &node.kids {
		match k.name.strip_prefix('?') {
			// between operators, ke ... ke'e is also an operator of its own, in which ke'e must not be left out
			Some("Kehe") if parent == "Operator" => out.push((*at, String::new())),
			Some(name) => out.push((*at, name.to_string())),
			None => elided(k, at, out, &node.name),
		}
	}
}

impl Check for Terminators {
	fn rule(&self) -> &'static str {
		"accepted token sequences; the terminators elided at one place, at some places and at all places are written out and the tree without them is compared; non-trivial: at least one variant compared"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["where terminators are elided is read off the reference grammar's derivation", "costly sequences are skipped"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		plan(4_000, thorough)
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i < c.corpus.len() as u64 {
			return format!("t:{}", c.corpus[i as usize]);
		}
		gen::accepted_case(c, rng, &mut self.0)
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((input, _, _, reference)) = super::trees::tokens(c, case) else {
			st.skip();
			return Ok(());
		};
		let Verdict::Accepted(root) = &reference.verdict else {
			st.skip();
			return Ok(());
		};
		let mut ghosts = vec![];
		elided(root, &mut 0, &mut ghosts, "");
		// a place where such a group ends cannot be written out
		let stuck: Vec<usize> = ghosts.iter().filter(|g| g.1.is_empty()).map(|g| g.0).collect();
		ghosts.retain(|g| !stuck.contains(&g.0));
		if ghosts.is_empty() {
			st.skip();
			return Ok(());
		}
		let Ok(before) = parse(&input) else {
			st.count("rejected against the reference", 1);
			return Ok(());
		};
		let want = shape(&before, &HashSet::new(), false);
		let mut places: Vec<usize> = ghosts.iter().map(|g| g.0).collect();
		places.dedup();
		let mut rng = Rng::new(hash(case.as_bytes()));
		let mut variants: Vec<Vec<usize>> = vec![places.clone()];
		for _ in 0..4 {
			variants.push(vec![*rng.pick(&places)]);
		}
		variants.push(places.iter().copied().filter(|_| rng.chance(50)).collect());
		for variant in variants {
			let mut new: Vec<(Selmaho, bool)> = vec![];
			let mut added = HashSet::new();
			for i in 0..=input.len() {
				for (_, class) in ghosts.iter().filter(|g| g.0 == i && variant.contains(&i)) {
					added.insert(new.len());
					new.push((c.classes[class], false));
				}
				if let Some(t) = input.get(i) {
					new.push((t.selmaho, t.experimental));
				}
			}
			let tokens = respan(&new);
			if added.is_empty() || !affordable(c, &tokens) {
				continue;
			}
			let after = parse(&tokens).map_err(|e| format!("with terminators, {} is rejected: {e}", show(&tokens)))?;
			let got = shape(&after, &added, false);
			if got != want {
				return Err(format!("with terminators, {} has another tree: {}", show(&tokens), diff(&want, &got)));
			}
			st.count("variants compared", 1);
			st.nontrivial();
			for (i, class) in &ghosts {
				if variant.contains(i) {
					st.count("terminators written out", 1);
					st.seen("terminators", class);
				}
			}
		}
		Ok(())
	}
}
