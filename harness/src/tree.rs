//! The tree as observed through the public interface, the tree the reference grammar derives, and their comparison.
use crate::lexref::Tok;
use crate::peg::{Grammar, Input, Node, Out, Run, Terminal, Why};
use sneturfahi::lex::Token;
use sneturfahi::parse::tree_node::TreeNode;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Obs {
	pub name: String,
	pub start: Option<u32>,
	pub end: Option<u32>,
	pub experimental: bool,
	pub kids: Vec<Obs>,
}

/// read a tree through the `TreeNode` interface
pub fn observe(node: &dyn TreeNode) -> Obs {
	let mut kids = vec![];
	node.for_each_child(&mut |child| kids.push(observe(child)));
	Obs { name: node.name().to_string(), start: node.start_location(), end: node.end_location(), experimental: node.experimental(), kids }
}

impl Obs {
	pub fn leaves<'a>(&'a self, out: &mut Vec<&'a Obs>) {
		// a node without children is a leaf exactly if it has a position
		if self.kids.is_empty() {
			if self.start.is_some() || self.end.is_some() {
				out.push(self);
			}
		} else {
			for kid in &self.kids {
				kid.leaves(out);
			}
		}
	}
	/// the shape with leaves numbered from left to right
	pub fn shape(&self) -> String {
		fn go(o: &Obs, n: &mut usize, out: &mut String) {
			out.push('(');
			out.push_str(&o.name);
			if o.kids.is_empty() && o.start.is_some() {
				out.push_str(&format!("#{n}"));
				*n += 1;
			}
			for k in &o.kids {
				go(k, n, out);
			}
			out.push(')');
		}
		let mut out = String::new();
		go(self, &mut 0, &mut out);
		out
	}
	pub fn count(&self) -> usize {
		1 + self.kids.iter().map(Obs::count).sum::<usize>()
	}
	pub fn depth(&self) -> usize {
		1 + self.kids.iter().map(Obs::depth).max().unwrap_or(0)
	}
}

pub struct Toks<'a> {
	pub tokens: &'a [Tok],
	pub names: Vec<Rc<str>>,
}

impl<'a> Toks<'a> {
	pub fn new(tokens: &'a [Tok], repr: &HashMap<String, String>) -> Self {
		let names = tokens.iter().map(|t| Rc::from(repr[&t.class].as_str())).collect();
		Self { tokens, names }
	}
}

impl Input for Toks<'_> {
	fn len(&self) -> usize {
		self.tokens.len()
	}
	fn matches(&self, terminal: &Terminal, pos: usize) -> bool {
		match terminal {
			Terminal::Token(name) => *name == self.tokens[pos].class,
			Terminal::Chars(_) => unreachable!(),
		}
	}
	fn leaf_name(&self, pos: usize) -> Rc<str> {
		self.names[pos].clone()
	}
}

#[derive(Debug)]
pub enum Verdict {
	Accepted(Rc<Node>),
	/// index of the offending token, what was wrong, and whether a construct that must be closed was not
	Rejected(usize, Why, bool),
}

pub struct RefParse {
	pub verdict: Verdict,
	pub cost: u64,
	/// the most rules active at once
	pub depth: u32,
	pub steps: u64,
	/// number of tokens covered by the longest reading (all of them when accepted)
	pub covered: usize,
}

pub fn reference(g: &Grammar, repr: &HashMap<String, String>, tokens: &[Tok]) -> RefParse {
	let input = Toks::new(tokens, repr);
	let mut run = Run::new(g, &input);
	let (out, mut kids) = run.rule("Text", 0);
	let (cost, steps, depth) = (run.cost, run.steps, run.deepest);
	match out {
		Out::Ok(end) if end == tokens.len() => {
			assert_eq!(kids.len(), 1);
			RefParse { verdict: Verdict::Accepted(kids.pop().unwrap()), cost, steps, depth, covered: end }
		}
		Out::Ok(end) => RefParse { verdict: Verdict::Rejected(end, Why::Eof, false), cost, steps, depth, covered: end },
		Out::Fail(at, why) => RefParse { verdict: Verdict::Rejected(at, why, true), cost, steps, depth, covered: at },
		Out::Err(..) => unreachable!("a text can always be empty"),
	}
}

/// what the reference tree looks like through the interface
pub fn expected(node: &Node, tokens: &[Tok]) -> Obs {
	if let Some(i) = node.leaf {
		let t = &tokens[i];
		return Obs { name: node.name.to_string(), start: Some(t.start as u32), end: Some(t.end as u32), experimental: t.experimental, kids: vec![] };
	}
	let kids: Vec<Obs> = node.kids.iter().filter(|k| !k.name.starts_with('?')).map(|k| expected(k, tokens)).collect();
	let start = kids.iter().find_map(|k| k.start);
	let end = kids.iter().rev().find_map(|k| k.end);
	let experimental = kids.iter().any(|k| k.experimental);
	Obs { name: node.name.to_string(), start, end, experimental, kids }
}

/// first difference between two trees
pub fn difference(want: &Obs, got: &Obs, path: &str) -> Option<String> {
	let here = format!("{path}/{}", want.name);
	if want.name != got.name {
		return Some(format!("at {path}: node {:?} expected, found {:?}", want.name, got.name));
	}
	for (i, (w, g)) in want.kids.iter().zip(&got.kids).enumerate() {
		if let Some(d) = difference(w, g, &format!("{here}[{i}]")) {
			return Some(d);
		}
	}
	if want.kids.len() != got.kids.len() {
		let names = |o: &Obs| o.kids.iter().map(|k| k.name.clone()).collect::<Vec<_>>().join(" ");
		return Some(format!("at {here}: children [{}] expected, found [{}]", names(want), names(got)));
	}
	if (want.start, want.end, want.experimental) != (got.start, got.end, got.experimental) {
		return Some(format!(
			"at {here}: {:?}..{:?} experimental={} expected, found {:?}..{:?} experimental={}",
			want.start, want.end, want.experimental, got.start, got.end, got.experimental
		));
	}
	None
}

pub fn to_token(t: &Tok, classes: &HashMap<String, sneturfahi::lex::Selmaho>) -> Token {
	Token { experimental: t.experimental, selmaho: classes[&t.class], span: sneturfahi::Span { start: t.start as u32, end: t.end as u32 } }
}
