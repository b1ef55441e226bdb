//! A small memoising PEG interpreter: the executable reference model for morphology and grammar.
//! It is generic over the input (characters or tokens), knows nothing about the code under test, and
//! besides the parse also computes how many rule invocations a parser *without* memoisation would need.

use std::collections::HashMap;
use std::rc::Rc;

/// terminators that may be left out
pub const ELIDABLE: [&str; 21] = [
	"Tuhu", "Vau", "Kehe", "Ku", "Kei", "Kuho", "Gehu", "Beho", "Mehu", "Fehu", "Luhu", "Lihu", "Loho", "Toi", "Sehu", "Dohu", "Boi", "Veho", "Tehu",
	"Kuhe", "Nuhu",
];

#[derive(Debug, Clone)]
pub enum Ex {
	Term(usize, Option<Rc<str>>), // terminal index, leaf name override
	Any,
	Eof,
	Rule(usize),
	Seq(Vec<Ex>),
	Alt(usize, Vec<Ex>), // alternation id
	Longest(Vec<Ex>),
	Opt(usize, Box<Ex>),
	Star(usize, Box<Ex>),
	Plus(usize, Box<Ex>),
	AtLeast(usize, Box<Ex>),
	Not(Box<Ex>),
	And(Box<Ex>),
	Cut(Box<Ex>),
	NonEmpty(Box<Ex>),
	Node(Rc<str>, Box<Ex>),
	ManyTill(Box<Ex>, Box<Ex>),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Terminal {
	Chars(Vec<char>),
	Token(String),
}

#[derive(Debug)]
pub struct Rule {
	pub name: String,
	pub ex: Ex,
}

#[derive(Debug, Default)]
pub struct Grammar {
	pub rules: Vec<Rule>,
	pub by_name: HashMap<String, usize>,
	pub terminals: Vec<Terminal>,
	pub n_choice: usize,
	tree: bool,
	/// rules of elidable terminators: where one is left out, the tree gets a ghost (a childless node called "?Name")
	ghosts: HashMap<usize, Rc<str>>,
}

#[derive(Debug)]
pub struct Node {
	pub name: Rc<str>,
	pub kids: Vec<Rc<Node>>,
	/// index of the token, for leaves
	pub leaf: Option<usize>,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Why {
	/// a terminal did not match
	Expected(String),
	/// something came to its end
	Eof,
	/// a negative look-ahead matched
	Not,
	Other,
}

#[derive(Debug, Clone)]
pub enum Out {
	Ok(usize),
	Err(usize, Why),
	Fail(usize, Why),
}

pub trait Input {
	fn len(&self) -> usize;
	fn matches(&self, terminal: &Terminal, pos: usize) -> bool;
	fn leaf_name(&self, pos: usize) -> Rc<str>;
}

struct Memo {
	out: Out,
	kids: Vec<Rc<Node>>,
	cost: u64,
	/// how many rules were active at once below this one
	depth: u32,
}

pub struct Run<'a, I: Input> {
	g: &'a Grammar,
	input: &'a I,
	memo: Vec<Option<Box<Memo>>>,
	busy: Vec<bool>,
	width: usize,
	pub cost: u64,
	pub steps: u64,
	depth: u32,
	pub deepest: u32,
}

impl<'a, I: Input> Run<'a, I> {
	pub fn new(g: &'a Grammar, input: &'a I) -> Self {
		let width = input.len() + 1;
		let mut memo = Vec::new();
		memo.resize_with(width * g.rules.len(), || None);
		Self { g, input, busy: vec![false; memo.len()], memo, width, cost: 0, steps: 0, depth: 0, deepest: 0 }
	}

	pub fn rule(&mut self, name: &str, pos: usize) -> (Out, Vec<Rc<Node>>) {
		let id = self.g.by_name[name];
		let mut kids = vec![];
		let out = self.eval_rule(id, pos, &mut kids);
		(out, kids)
	}

	pub fn matches(&mut self, name: &str, pos: usize) -> Option<usize> {
		match self.rule(name, pos).0 {
			Out::Ok(end) => Some(end),
			_ => None,
		}
	}

	fn eval_rule(&mut self, id: usize, pos: usize, kids: &mut Vec<Rc<Node>>) -> Out {
		let slot = id * self.width + pos;
		if let Some(memo) = &self.memo[slot] {
			self.cost = self.cost.saturating_add(memo.cost);
			self.deepest = self.deepest.max(self.depth + memo.depth);
			kids.extend(memo.kids.iter().cloned());
			return memo.out.clone();
		}
		assert!(!self.busy[slot], "left recursion in rule {}", self.g.rules[id].name);
		self.busy[slot] = true;
		self.steps += 1;
		let before = self.cost;
		self.cost = self.cost.saturating_add(1);
		let mut own = vec![];
		let g = self.g;
		let outer = std::mem::replace(&mut self.deepest, self.depth + 1);
		self.depth += 1;
		let out = self.eval(&g.rules[id].ex, pos, &mut own);
		self.depth -= 1;
		let depth = self.deepest - self.depth;
		self.deepest = self.deepest.max(outer);
		if !matches!(out, Out::Ok(_)) {
			own.clear();
		}
		kids.extend(own.iter().cloned());
		self.busy[slot] = false;
		let cost = self.cost.saturating_sub(before);
		self.memo[slot] = Some(Box::new(Memo { out: out.clone(), kids: own, cost, depth }));
		out
	}

	fn repeat(&mut self, ex: &Ex, mut pos: usize, min: usize, kids: &mut Vec<Rc<Node>>) -> Out {
		let mut n = 0;
		loop {
			let mark = kids.len();
			match self.eval(ex, pos, kids) {
				Out::Ok(end) if end == pos => {
					// an item that matches nothing would repeat forever: an error, as in nom
					return Out::Err(pos, Why::Other);
				}
				Out::Ok(end) => {
					pos = end;
					n += 1;
				}
				Out::Err(p, why) => {
					kids.truncate(mark);
					if n < min {
						return Out::Err(p, why);
					}
					return Out::Ok(pos);
				}
				fail => return fail,
			}
		}
	}

	fn eval(&mut self, ex: &Ex, pos: usize, kids: &mut Vec<Rc<Node>>) -> Out {
		match ex {
			Ex::Rule(id) => self.eval_rule(*id, pos, kids),
			Ex::Term(t, name) => {
				self.cost = self.cost.saturating_add(1);
				let terminal = &self.g.terminals[*t];
				if pos < self.input.len() && self.input.matches(terminal, pos) {
					if self.g.tree {
						let name = name.clone().unwrap_or_else(|| self.input.leaf_name(pos));
						kids.push(Rc::new(Node { name, kids: vec![], leaf: Some(pos) }));
					}
					Out::Ok(pos + 1)
				} else {
					let what = match terminal {
						Terminal::Token(name) => name.clone(),
						Terminal::Chars(_) => String::new(),
					};
					Out::Err(pos, Why::Expected(what))
				}
			}
			Ex::Any => {
				self.cost = self.cost.saturating_add(1);
				if pos < self.input.len() {
					if self.g.tree {
						let name = self.input.leaf_name(pos);
						kids.push(Rc::new(Node { name, kids: vec![], leaf: Some(pos) }));
					}
					Out::Ok(pos + 1)
				} else {
					Out::Err(pos, Why::Eof)
				}
			}
			Ex::Eof => {
				if pos == self.input.len() {
					Out::Ok(pos)
				} else {
					Out::Err(pos, Why::Eof)
				}
			}
			Ex::Seq(items) => {
				let mut at = pos;
				for item in items {
					match self.eval(item, at, kids) {
						Out::Ok(end) => at = end,
						other => return other,
					}
				}
				Out::Ok(at)
			}
			Ex::Alt(_, items) => {
				let mark = kids.len();
				let mut last = Out::Err(pos, Why::Other);
				for item in items {
					match self.eval(item, pos, kids) {
						Out::Err(p, why) => {
							kids.truncate(mark);
							last = Out::Err(p, why);
						}
						done => return done,
					}
				}
				last
			}
			Ex::Longest(items) => {
				let mut best: Option<usize> = None;
				for item in items {
					let mut dummy = vec![];
					if let Out::Ok(end) = self.eval(item, pos, &mut dummy) {
						best = Some(best.map_or(end, |b| b.max(end)));
					}
				}
				best.map_or(Out::Err(pos, Why::Other), Out::Ok)
			}
			Ex::Opt(_, item) => {
				let mark = kids.len();
				match self.eval(item, pos, kids) {
					Out::Err(..) => {
						kids.truncate(mark);
						let first = if let Ex::Seq(items) = &**item { &items[0] } else { &**item };
						if let Ex::Rule(id) = first {
							if let Some(name) = self.g.ghosts.get(id) {
								kids.push(Rc::new(Node { name: name.clone(), kids: vec![], leaf: None }));
							}
						}
						Out::Ok(pos)
					}
					done => done,
				}
			}
			Ex::Star(_, item) => self.repeat(item, pos, 0, kids),
			Ex::Plus(_, item) => self.repeat(item, pos, 1, kids),
			Ex::AtLeast(n, item) => self.repeat(item, pos, *n, kids),
			Ex::Not(item) => match self.eval(item, pos, &mut vec![]) {
				Out::Ok(_) => Out::Err(pos, Why::Not),
				Out::Err(..) => Out::Ok(pos),
				fail => fail,
			},
			Ex::And(item) => match self.eval(item, pos, &mut vec![]) {
				Out::Ok(_) => Out::Ok(pos),
				other => other,
			},
			Ex::Cut(item) => match self.eval(item, pos, kids) {
				Out::Err(p, why) => Out::Fail(p, why),
				other => other,
			},
			Ex::NonEmpty(item) => match self.eval(item, pos, kids) {
				Out::Ok(end) if end == pos => Out::Err(pos, Why::Other),
				other => other,
			},
			Ex::Node(name, item) => {
				let mut own = vec![];
				match self.eval(item, pos, &mut own) {
					Out::Ok(end) => {
						if self.g.tree {
							kids.push(Rc::new(Node { name: name.clone(), kids: own, leaf: None }));
						}
						Out::Ok(end)
					}
					other => other,
				}
			}
			Ex::ManyTill(item, end) => {
				let mut at = pos;
				loop {
					let mark = kids.len();
					match self.eval(end, at, kids) {
						Out::Ok(p) => return Out::Ok(p),
						Out::Err(..) => {
							kids.truncate(mark);
							match self.eval(item, at, kids) {
								Out::Ok(p) => at = p,
								other => return other,
							}
						}
						fail => return fail,
					}
				}
			}
		}
	}
}

// ---------------------------------------------------------------- reading the notation

#[derive(Debug, Clone, PartialEq)]
enum Tok {
	Id(String),
	Chars(Vec<char>),
	Quoted(String),
	Sym(char),
	Num(usize),
	Label(String),
}

fn tokenize(text: &str) -> Vec<Tok> {
	let chars: Vec<char> = text.chars().collect();
	let mut out = vec![];
	let mut i = 0;
	let is_id = |c: char| c.is_ascii_alphanumeric() || c == '_';
	while i < chars.len() {
		let c = chars[i];
		if c.is_whitespace() {
			i += 1;
		} else if c == '[' {
			let j = (i..chars.len()).find(|&j| chars[j] == ']').unwrap();
			out.push(Tok::Chars(chars[i + 1..j].to_vec()));
			i = j + 1;
		} else if c == '\'' {
			let j = (i + 1..chars.len()).find(|&j| chars[j] == '\'').unwrap();
			out.push(Tok::Quoted(chars[i + 1..j].iter().collect()));
			i = j + 1;
		} else if c == '@' {
			let j = (i + 1..chars.len()).find(|&j| !is_id(chars[j])).unwrap();
			assert_eq!(chars[j], ':', "label must end in a colon");
			out.push(Tok::Label(chars[i + 1..j].iter().collect()));
			i = j + 1;
		} else if c.is_ascii_digit() {
			let j = (i..chars.len()).find(|&j| !chars[j].is_ascii_digit()).unwrap_or(chars.len());
			out.push(Tok::Num(chars[i..j].iter().collect::<String>().parse().unwrap()));
			i = j;
		} else if is_id(c) {
			let j = (i..chars.len()).find(|&j| !is_id(chars[j])).unwrap_or(chars.len());
			out.push(Tok::Id(chars[i..j].iter().collect()));
			i = j;
		} else {
			out.push(Tok::Sym(c));
			i += 1;
		}
	}
	out
}

#[derive(Debug, Clone)]
struct Def {
	node: bool,
	params: Vec<String>,
	body: Vec<Tok>,
}

struct Reader<'a> {
	g: &'a mut Grammar,
	defs: HashMap<String, Def>,
}

impl Reader<'_> {
	fn terminal(&mut self, terminal: Terminal) -> usize {
		if let Some(i) = self.g.terminals.iter().position(|t| *t == terminal) {
			return i;
		}
		self.g.terminals.push(terminal);
		self.g.terminals.len() - 1
	}

	fn choice(&mut self) -> usize {
		self.g.n_choice += 1;
		self.g.n_choice - 1
	}

	/// the rule for `name` applied to `args` (already resolved rule names)
	fn instantiate(&mut self, name: &str, args: Vec<String>) -> usize {
		let key = if args.is_empty() { name.to_string() } else { format!("{name}<{}>", args.join(",")) };
		if let Some(&id) = self.g.by_name.get(&key) {
			return id;
		}
		let def = self.defs.get(name).unwrap_or_else(|| panic!("undefined rule {name}")).clone();
		assert_eq!(def.params.len(), args.len(), "arguments of {name}");
		let id = self.g.rules.len();
		self.g.rules.push(Rule { name: key.clone(), ex: Ex::Eof });
		self.g.by_name.insert(key, id);
		let env: HashMap<String, String> = def.params.iter().cloned().zip(args).collect();
		let body = &def.body[..];
		let ex = if matches!(body.first(), Some(Tok::Label(_))) {
			let mut alts = vec![];
			let starts: Vec<usize> = (0..body.len()).filter(|&i| matches!(body[i], Tok::Label(_))).collect();
			for (k, &s) in starts.iter().enumerate() {
				let e = starts.get(k + 1).copied().unwrap_or(body.len());
				let Tok::Label(label) = &body[s] else { unreachable!() };
				let mut at = 0;
				let part = &body[s + 1..e];
				let inner = self.expr(part, &mut at, &env);
				assert_eq!(at, part.len(), "junk in {name}::{label}: {:?}", &part[at..]);
				alts.push(Ex::Node(format!("{name}::{label}").into(), Box::new(inner)));
			}
			Ex::Alt(self.choice(), alts)
		} else {
			let mut at = 0;
			let inner = self.expr(body, &mut at, &env);
			assert_eq!(at, body.len(), "junk in {name}: {:?}", &body[at..]);
			if def.node { Ex::Node(name.into(), Box::new(inner)) } else { inner }
		};
		self.g.rules[id].ex = ex;
		id
	}

	fn expr(&mut self, t: &[Tok], at: &mut usize, env: &HashMap<String, String>) -> Ex {
		let mut alts = vec![self.seq(t, at, env)];
		while t.get(*at) == Some(&Tok::Sym('/')) {
			*at += 1;
			alts.push(self.seq(t, at, env));
		}
		if alts.len() == 1 { alts.pop().unwrap() } else { Ex::Alt(self.choice(), alts) }
	}

	fn seq(&mut self, t: &[Tok], at: &mut usize, env: &HashMap<String, String>) -> Ex {
		let mut items = vec![];
		while let Some(tok) = t.get(*at) {
			if matches!(tok, Tok::Sym('/' | ')' | ';' | '>' | ',')) {
				break;
			}
			items.push(self.prefixed(t, at, env));
		}
		if items.len() == 1 { items.pop().unwrap() } else { Ex::Seq(items) }
	}

	fn prefixed(&mut self, t: &[Tok], at: &mut usize, env: &HashMap<String, String>) -> Ex {
		match &t[*at] {
			Tok::Sym('!') => {
				*at += 1;
				Ex::Not(Box::new(self.prefixed(t, at, env)))
			}
			Tok::Sym('&') => {
				*at += 1;
				Ex::And(Box::new(self.prefixed(t, at, env)))
			}
			_ => {
				let mut ex = self.primary(t, at, env);
				loop {
					match t.get(*at) {
						Some(Tok::Sym('?')) => ex = Ex::Opt(self.choice(), Box::new(ex)),
						Some(Tok::Sym('*')) => ex = Ex::Star(self.choice(), Box::new(ex)),
						Some(Tok::Sym('+')) => ex = Ex::Plus(self.choice(), Box::new(ex)),
						Some(Tok::Sym('{')) => {
							let Tok::Num(n) = t[*at + 1] else { panic!("number") };
							*at += 2;
							ex = Ex::AtLeast(n, Box::new(ex));
						}
						_ => return ex,
					}
					*at += 1;
				}
			}
		}
	}

	fn args(&mut self, t: &[Tok], at: &mut usize, env: &HashMap<String, String>) -> Vec<Ex> {
		assert_eq!(t[*at], Tok::Sym('('));
		*at += 1;
		let mut args = vec![self.expr(t, at, env)];
		while t[*at] == Tok::Sym(';') {
			*at += 1;
			args.push(self.expr(t, at, env));
		}
		assert_eq!(t[*at], Tok::Sym(')'));
		*at += 1;
		args
	}

	fn primary(&mut self, t: &[Tok], at: &mut usize, env: &HashMap<String, String>) -> Ex {
		let tok = t[*at].clone();
		match tok {
			Tok::Sym('(') => {
				let mut args = self.args(t, at, env);
				assert_eq!(args.len(), 1);
				args.pop().unwrap()
			}
			Tok::Sym('.') => {
				*at += 1;
				Ex::Any
			}
			Tok::Sym('$') => {
				*at += 1;
				Ex::Eof
			}
			Tok::Chars(chars) => {
				*at += 1;
				Ex::Term(self.terminal(Terminal::Chars(chars)), None)
			}
			Tok::Quoted(name) => {
				*at += 1;
				let mut label = None;
				if t.get(*at) == Some(&Tok::Sym(':')) {
					let Tok::Id(id) = &t[*at + 1] else { panic!("leaf name") };
					label = Some(id.as_str().into());
					*at += 2;
				}
				Ex::Term(self.terminal(Terminal::Token(name)), label)
			}
			Tok::Id(name) => {
				*at += 1;
				if t.get(*at) == Some(&Tok::Sym('(')) && ["sep", "cut", "nonempty", "longest", "manytill"].contains(&name.as_str()) {
					let mut args = self.args(t, at, env);
					return match name.as_str() {
						"sep" => {
							let separator = args.pop().unwrap();
							let item = args.pop().unwrap();
							let rest = Ex::Star(self.choice(), Box::new(Ex::Seq(vec![separator, item.clone()])));
							Ex::Node("Separated".into(), Box::new(Ex::Seq(vec![item, rest])))
						}
						"cut" => Ex::Cut(Box::new(args.pop().unwrap())),
						"nonempty" => Ex::NonEmpty(Box::new(args.pop().unwrap())),
						"longest" => Ex::Longest(args),
						_ => {
							let end = args.pop().unwrap();
							Ex::ManyTill(Box::new(args.pop().unwrap()), Box::new(end))
						}
					};
				}
				let mut args = vec![];
				if t.get(*at) == Some(&Tok::Sym('<')) {
					*at += 1;
					loop {
						let Tok::Id(arg) = &t[*at] else { panic!("argument") };
						args.push(env.get(arg).cloned().unwrap_or_else(|| arg.clone()));
						*at += 2;
						if t[*at - 1] == Tok::Sym('>') {
							break;
						}
					}
				}
				let name = env.get(&name).cloned().unwrap_or(name);
				Ex::Rule(self.instantiate(&name, args))
			}
			other => panic!("unexpected {other:?}"),
		}
	}
}

impl Grammar {
	pub fn read(text: &str) -> Self {
		let mut g = Grammar { tree: true, ..Grammar::default() };
		let mut lines: Vec<String> = vec![];
		for line in text.lines() {
			if line.trim().is_empty() || line.starts_with('#') {
				continue;
			}
			if line.starts_with(char::is_whitespace) {
				let last = lines.last_mut().unwrap();
				last.push(' ');
				last.push_str(line.trim());
			} else {
				lines.push(line.to_string());
			}
		}
		let mut defs = HashMap::new();
		let mut order = vec![];
		let mut add = |name: &str, node: bool, params: Vec<String>, body: &str| {
			let old = defs.insert(name.to_string(), Def { node, params, body: tokenize(body) });
			assert!(old.is_none(), "rule {name} defined twice");
			order.push(name.to_string());
		};
		for line in &lines {
			if let Some(directive) = line.strip_prefix('%') {
				let mut words = directive.split_whitespace();
				let kind = words.next().unwrap();
				for name in words {
					match kind {
						"single" => add(name, true, vec![], &format!("Bahe* '{name}' Indicators? !Bu !Zei")),
						"noindicators" => add(name, true, vec![], &format!("Bahe* '{name}' !Bu !Zei")),
						"raw" => add(name, false, vec![], &format!("'{name}' !Bu !Zei")),
						"plain" => add(name, false, vec![], &format!("'{name}'")),
						_ => panic!("directive {kind}"),
					}
				}
				if kind == "notree" {
					g.tree = false;
				}
				continue;
			}
			let (head, body) = line.split_once('=').unwrap();
			let head = head.trim();
			let node = g.tree && !head.starts_with('~');
			let head = head.trim_start_matches('~');
			let (name, params) = match head.split_once('<') {
				Some((name, params)) => {
					(name, params.trim_end_matches('>').split(',').map(|p| p.trim().to_string()).collect())
				}
				None => (head, vec![]),
			};
			add(name, node, params, body);
		}
		let names: Vec<String> = order.iter().filter(|n| defs[*n].params.is_empty()).cloned().collect();
		let mut reader = Reader { g: &mut g, defs };
		for name in names {
			reader.instantiate(&name, vec![]);
		}
		if g.tree && g.by_name.contains_key("Ku") {
			g.ghosts = ELIDABLE.iter().map(|name| (g.by_name[*name], Rc::from(format!("?{name}").as_str()))).collect();
		}
		g
	}
}
