//! C11-C14: the parse tree and parse errors
use super::words::{lex_cost, lex_limit, TREE_LIMIT};
use crate::gen::{self, Ctx, Deriver};
use crate::lexref::Tok;
use crate::real;
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::tree::{self, Obs, RefParse, Verdict};
use sneturfahi::lex::Token;
use sneturfahi::parse::tree_node::TreeNode;

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
	Leaves,
	Summaries,
	Structure,
	Errors,
}

pub struct Tree {
	which: Which,
	deriver: Deriver,
}

impl Tree {
	pub fn new(which: Which) -> Self {
		Self { which, deriver: Deriver::new() }
	}
}

/// the tokens of a case, as the code's own tokens; None if the case does not apply (or is too costly)
pub fn tokens(c: &Ctx, case: &str) -> Option<(Vec<Token>, Vec<Tok>, Option<String>, RefParse)> {
	if let Some(text) = case.strip_prefix("t:") {
		if lex_cost(c, text) > lex_limit(text) {
			return None;
		}
		let (tokens, error) = real::lex(text).ok()?;
		if error.is_some() || tokens.len() > 400 {
			return None;
		}
		let toks: Vec<Tok> = tokens.iter().map(real::tok).collect();
		let reference = tree::reference(&c.grammar, &c.morph.repr, &toks);
		return (reference.cost <= TREE_LIMIT).then(|| (tokens, toks, Some(text.to_string()), reference));
	}
	let toks = gen::parse_array(c, case.strip_prefix("a:")?)?;
	let tokens: Vec<Token> = toks.iter().map(|t| tree::to_token(t, &c.classes)).collect();
	let reference = tree::reference(&c.grammar, &c.morph.repr, &toks);
	(reference.cost <= TREE_LIMIT).then(|| (tokens, toks, None, reference))
}

fn handles<'a>(node: &'a dyn TreeNode, out: &mut Vec<(&'a dyn TreeNode, Vec<usize>)>) -> usize {
	let me = out.len();
	out.push((node, vec![]));
	let mut direct: Vec<&'a dyn TreeNode> = vec![];
	node.for_each_child(&mut |child| direct.push(child));
	for child in direct {
		let at = handles(child, out);
		out[me].1.push(at);
	}
	me
}

pub fn leaves_match(root: &Obs, toks: &[Tok], c: &Ctx) -> Result<(), String> {
	let mut leaves = vec![];
	root.leaves(&mut leaves);
	for (i, (leaf, t)) in leaves.iter().zip(toks).enumerate() {
		let repr = c.repr(&t.class);
		let name_ok = leaf.name == repr
			|| match t.class.as_str() {
				"ZoiDelimiter" => leaf.name == "ZoiDelimiter",
				"AnyText" => leaf.name == "ZoiText",
				_ => false,
			};
		if !name_ok || (leaf.start, leaf.end) != (Some(t.start as u32), Some(t.end as u32)) || leaf.experimental != t.experimental {
			return Err(format!("leaf {i} is {leaf:?}, the token is {t:?}"));
		}
	}
	if leaves.len() != toks.len() {
		return Err(format!("{} tokens, but {} leaves: {:?}", toks.len(), leaves.len(), leaves.iter().map(|l| &l.name).collect::<Vec<_>>()));
	}
	Ok(())
}

type Summary = (&'static str, Option<u32>, Option<u32>, bool);

fn summary(n: &dyn TreeNode) -> Summary {
	(n.name(), n.start_location(), n.end_location(), n.experimental())
}

fn summaries(root: &dyn TreeNode, toks: &[Tok], text: Option<&str>, seed: u64, st: &mut Stats) -> Result<(), String> {
	let mut nodes = vec![];
	handles(root, &mut nodes);
	let first: Vec<Summary> = nodes.iter().map(|n| summary(n.0)).collect();
	// again, in two other orders
	let mut rng = Rng::new(seed);
	let mut order: Vec<usize> = (0..nodes.len()).collect();
	for _ in 0..2 {
		for i in (1..order.len()).rev() {
			order.swap(i, rng.below(i + 1));
		}
		for &i in &order {
			let again = if i % 2 == 0 {
				summary(nodes[i].0)
			} else {
				let n = nodes[i].0;
				let (x, e, s) = (n.experimental(), n.end_location(), n.start_location());
				(n.name(), s, e, x)
			};
			if again != first[i] {
				return Err(format!("node {i} first answered {:?}, later {again:?}", first[i]));
			}
		}
	}
	// bottom-up: children come after their parents in the list
	let by_start: std::collections::HashMap<(u32, u32), Vec<&Tok>> = toks.iter().fold(Default::default(), |mut m, t| {
		let entry: &mut Vec<&Tok> = std::collections::HashMap::entry(&mut m, (t.start as u32, t.end as u32)).or_default();
		entry.push(t);
		m
	});
	let mut computed: Vec<(Option<u32>, Option<u32>, bool)> = vec![(None, None, false); nodes.len()];
	for i in (0..nodes.len()).rev() {
		let kids = &nodes[i].1;
		let (name, start, end, experimental) = first[i];
		if start.is_some() != end.is_some() {
			return Err(format!("node {i} {name} has start {start:?} but end {end:?}"));
		}
		computed[i] = if kids.is_empty() {
			if let (Some(s), Some(e)) = (start, end) {
				// a token
				let Some(candidates) = by_start.get(&(s, e)) else {
					return Err(format!("the childless node {name} lies at {s}..{e}, where no token is"));
				};
				if !candidates.iter().any(|t| t.experimental == experimental) {
					return Err(format!("the leaf {name} at {s}..{e} says experimental={experimental}, the token says otherwise"));
				}
				(start, end, experimental)
			} else {
				(None, None, false)
			}
		} else {
			let mut last = None;
			for &k in kids {
				if let (Some(s), Some(e)) = (computed[k].0, computed[k].1) {
					if s > e || last.map_or(false, |l| s < l) {
						return Err(format!("in {name}, the child {} at {s}..{e} is out of order (previous end {last:?})", first[k].0));
					}
					last = Some(e);
				}
			}
			(
				kids.iter().find_map(|&k| computed[k].0),
				kids.iter().rev().find_map(|&k| computed[k].1),
				kids.iter().any(|&k| computed[k].2),
			)
		};
		if computed[i] != (start, end, experimental) {
			return Err(format!("node {i} {name} says {start:?}..{end:?} experimental={experimental}, its contents say {:?}", computed[i]));
		}
		if let (Some(text), Some(s), Some(e)) = (text, start, end) {
			if text.get(s as usize..e as usize).is_none() {
				return Err(format!("node {i} {name} at {s}..{e} cannot be cut out of the text"));
			}
		}
		if start.is_none() {
			st.count("empty nodes", 1);
		}
	}
	let whole = (toks.first().map(|t| t.start as u32), toks.last().map(|t| t.end as u32), toks.iter().any(|t| t.experimental));
	if computed[0] != whole {
		return Err(format!("the root says {:?}, the tokens {whole:?}", computed[0]));
	}
	st.count("nodes", nodes.len() as u64);
	for f in &first {
		st.seen("node names", f.0);
	}
	Ok(())
}

fn rejection(input: &[Token], e: &sneturfahi::parse::cst::error::WithLocation<'_>, reference: &RefParse, st: &mut Stats) -> Result<(), String> {
	let at = input.len().checked_sub(e.location.len()).ok_or("the location is longer than the input")?;
	if !std::ptr::eq(e.location.as_ptr(), input[at..].as_ptr()) || e.location != &input[at..] {
		return Err("the location is not a suffix of the input".into());
	}
	let Verdict::Rejected(want, why, hard) = &reference.verdict else {
		// whether it should be rejected is another property's business
		st.count("rejected against the reference", 1);
		return Ok(());
	};
	if at != *want {
		let show = |i: usize| input.get(i).map_or("the end".to_string(), |t| format!("token {i} ({})", t.selmaho.as_repr()));
		return Err(format!("the error points at {}, the offending one is {} ({why:?}); error {:?}", show(at), show(*want), e.error));
	}
	use sneturfahi::parse::cst::Error;
	match &e.error {
		Error::ExpectedGot { got, .. } => {
			if got.as_ref() != e.location.first() {
				return Err(format!("the error says it got {got:?}, its location starts with {:?}", e.location.first()));
			}
			st.count("errors naming the token found", 1);
		}
		Error::ZoQuoteEof if !e.location.is_empty() => return Err("ZoQuoteEof before the end".into()),
		_ => {}
	}
	if *hard {
		st.count("unclosed constructs", 1);
	}
	if *want > 0 {
		st.nontrivial();
	}
	if *want == input.len() {
		st.count("errors at the end of input", 1);
	}
	st.seen("offending classes", input.get(*want).map_or("end", |t| t.selmaho.as_repr()));
	Ok(())
}

impl Check for Tree {
	fn rule(&self) -> &'static str {
		match self.which {
			Which::Leaves => "token sequences derived from the grammar, CLL sentences, both also damaged, as arrays with arbitrary spans and flags or as texts; the leaves read off an accepted tree are compared with the tokens; non-trivial: accepted with at least three tokens",
			Which::Summaries => "the same workload; start, end and experimental flag of every node are recomputed from its leaves, asked three times in different orders; non-trivial: a tree with at least 15 nodes",
			Which::Structure => "the same workload with more damage; acceptance and the complete tree (names, alternatives, attachment, spans, flags) are compared with a memoising interpreter of the reference grammar; non-trivial: at least three tokens",
			Which::Errors => "damaged token sequences and unclosed constructs; the error's location is compared with the reference's offending token; non-trivial: rejected at a position other than the first token",
		}
	}
	fn assumptions(&self) -> Vec<&'static str> {
		match self.which {
			Which::Leaves | Which::Summaries => vec!["sequences on which an unmemoised parser needs more than 1500000 rule applications are skipped"],
			_ => vec![
				"/verif/spec/grammar.peg states the grammar the code documents",
				"sequences on which an unmemoised parser needs more than 1500000 rule applications are skipped",
			],
		}
	}
	fn plan(&self, thorough: bool) -> Plan {
		let quick = match self.which {
			Which::Leaves => 9_000,
			Which::Summaries => 9_000,
			Which::Structure => 12_000,
			Which::Errors => 12_000,
		};
		Plan { cases: if thorough { quick * 50 } else { quick }, workers: 8, cpu_limit: 40.0, stack: 256 << 20, wall: if thorough { 600 } else { 70 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i < c.corpus.len() as u64 {
			let line = &c.corpus[i as usize];
			if self.which != Which::Errors {
				return format!("t:{line}");
			}
			let mut v: Vec<char> = line.chars().collect();
			let at = rng.below(v.len());
			if rng.chance(50) {
				v.truncate(at);
			} else {
				let class = gen::any_class(c, rng);
				v.splice(at..at, format!(" {} ", gen::word_of(c, rng, &class)).chars());
			}
			return format!("t:{}", v.into_iter().collect::<String>());
		}
		let damage = match self.which {
			Which::Leaves | Which::Summaries | Which::Structure => 40,
			Which::Errors => 85,
		};
		if self.which == Which::Errors && rng.chance(25) {
			let mut v = gen::classes(c, rng, &mut self.deriver, 20);
			let piece: &[&str] = match rng.below(6) {
				0 => &["Lohu", "Gismu", "Ui"],
				1 => &["Tei", "By", "Pa"],
				2 => &["Gaho", "Bihi"],
				3 => &["Gaho", "Se", "Bihi", "Nai"],
				4 => &["Zo"],
				_ => &["Zoi", "ZoiDelimiter", "AnyText"],
			};
			let at = rng.below(v.len() + 1);
			v.splice(at..at, piece.iter().map(|s| s.to_string()));
			return gen::array_case(rng, &v);
		}
		if matches!(self.which, Which::Leaves | Which::Summaries) || (self.which == Which::Structure && rng.chance(50)) {
			return gen::accepted_case(c, rng, &mut self.deriver);
		}
		gen::tree_case(c, rng, &mut self.deriver, damage)
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((input, toks, text, reference)) = tokens(c, case) else {
			st.skip();
			return Ok(());
		};
		let arena = sneturfahi::Arena::new();
		let parsed = sneturfahi::Cst::parse(&input, &arena);
		st.count("tokens", input.len() as u64);
		st.count(if parsed.is_ok() { "accepted" } else { "rejected" }, 1);
		match (self.which, &parsed) {
			(Which::Leaves, Ok(cst)) => {
				leaves_match(&tree::observe(cst.root()), &toks, c)?;
				if toks.len() > 2 {
					st.nontrivial();
				}
				for t in &toks {
					st.seen("classes", &t.class);
				}
			}
			(Which::Summaries, Ok(cst)) => {
				let before = *st.counts.get("nodes").unwrap_or(&0);
				summaries(cst.root(), &toks, text.as_deref(), hash(case.as_bytes()), st)?;
				if st.counts["nodes"] - before > 14 {
					st.nontrivial();
				}
			}
			(Which::Structure, _) => match (&reference.verdict, &parsed) {
				(Verdict::Accepted(node), Ok(cst)) => {
					let got = tree::observe(cst.root());
					if let Some(d) = tree::difference(&tree::expected(node, &toks), &got, "") {
						return Err(d);
					}
					fn names(o: &Obs, st: &mut Stats) {
						for k in &o.kids {
							st.seen("parent-child pairs", &format!("{}>{}", o.name, k.name));
							names(k, st);
						}
					}
					names(&got, st);
					st.max("depth", got.depth() as u64);
					st.count("nodes compared", got.count() as u64);
					if toks.len() > 2 {
						st.nontrivial();
					}
				}
				(Verdict::Accepted(_), Err(e)) => return Err(format!("rejected, but the grammar accepts it: {:?} with {} tokens left", e.error, e.location.len())),
				(Verdict::Rejected(at, why, _), Ok(_)) => return Err(format!("accepted, but the grammar rejects it at token {at} ({why:?})")),
				(Verdict::Rejected(..), Err(_)) => {
					if toks.len() > 2 {
						st.nontrivial();
					}
				}
			},
			(Which::Errors, Err(e)) => rejection(&input, e, &reference, st)?,
			_ => {}
		}
		Ok(())
	}
}
