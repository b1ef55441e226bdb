//! Short derivations around one chosen rule: the way from the root to it as plain as possible, and the rule
//! itself with its optional parts, repetitions and alternatives taken or left at random.
use crate::peg::{Ex, Grammar};
use crate::rng::Rng;

pub struct Focus {
	/// fewest rule applications under each rule
	least: Vec<usize>,
	/// reach[target][rule]: how far it is down from a rule to the target; free modifiers are a long way round
	reach: Vec<Vec<usize>>,
	noisy: Vec<bool>,
	/// how much there is to choose in each rule
	weight: Vec<u32>,
}

const FAR: usize = usize::MAX / 4;

fn parts<'a>(ex: &'a Ex, out: &mut Vec<&'a Ex>) {
	match ex {
		Ex::Seq(v) | Ex::Alt(_, v) | Ex::Longest(v) => out.extend(v),
		Ex::Opt(_, e) | Ex::Star(_, e) | Ex::Plus(_, e) | Ex::AtLeast(_, e) | Ex::Cut(e) | Ex::NonEmpty(e) | Ex::Node(_, e) => out.push(e),
		Ex::ManyTill(a, b) => out.extend([&**a, &**b]),
		Ex::Term(..) | Ex::Any | Ex::Eof | Ex::Rule(_) | Ex::Not(_) | Ex::And(_) => {}
	}
}

fn choices(ex: &Ex) -> u32 {
	let mut v = vec![];
	parts(ex, &mut v);
	let own = match ex {
		Ex::Opt(..) | Ex::Star(..) | Ex::Plus(..) | Ex::AtLeast(..) | Ex::Not(_) | Ex::And(_) => 2,
		Ex::Alt(_, v) | Ex::Longest(v) => v.len() as u32,
		Ex::Rule(_) => 1,
		_ => 0,
	};
	own + v.into_iter().map(choices).sum::<u32>()
}

fn has_terminal(ex: &Ex) -> bool {
	let mut v = vec![];
	parts(ex, &mut v);
	matches!(ex, Ex::Term(..)) || v.into_iter().any(has_terminal)
}

fn rules_in(ex: &Ex, out: &mut Vec<usize>) {
	if let Ex::Rule(id) = ex {
		out.push(*id);
	}
	let mut v = vec![];
	parts(ex, &mut v);
	for e in v {
		rules_in(e, out);
	}
}

fn near(ex: &Ex, reach: &[usize]) -> usize {
	let mut v = vec![];
	rules_in(ex, &mut v);
	v.iter().map(|&r| reach[r]).min().unwrap_or(FAR)
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
	Way,
	Hot(usize),
	Cold,
}

pub enum Item {
	Terminal(usize),
	Any,
}

struct Go<'a> {
	g: &'a Grammar,
	f: &'a Focus,
	target: usize,
	heat: [usize; 3],
	slack: usize,
	max: usize,
	out: Vec<Item>,
}

impl Focus {
	pub fn new(g: &Grammar, least: &[usize], noisy: &[bool]) -> Self {
		let n = g.rules.len();
		let below: Vec<Vec<usize>> = g
			.rules
			.iter()
			.map(|r| {
				let mut v = vec![];
				rules_in(&r.ex, &mut v);
				v
			})
			.collect();
		let reach = (0..n)
			.map(|target| {
				let mut d = vec![FAR; n];
				d[target] = 0;
				loop {
					let mut changed = false;
					for r in 0..n {
						let best = below[r].iter().map(|&b| d[b] + if noisy.get(b) == Some(&true) { 12 } else { 1 }).min().unwrap_or(FAR).min(d[r]);
						if best < d[r] {
							d[r] = best;
							changed = true;
						}
					}
					if !changed {
						return d;
					}
				}
			})
			.collect();
		let weight = g.rules.iter().map(|r| if has_terminal(&r.ex) { 10 } else { (choices(&r.ex) * choices(&r.ex)).clamp(10, 400) }).collect();
		Self { weight, least: least.to_vec(), reach, noisy: noisy.to_vec() }
	}

	pub fn reachable(&self, root: usize, target: usize) -> bool {
		self.reach[target][root] < FAR
	}

	pub fn weights(&self) -> &[u32] {
		&self.weight
	}

	/// a rule to look at from this root
	pub fn target(&self, rng: &mut Rng, root: usize) -> usize {
		loop {
			let target = rng.weighted(&self.weight);
			if self.reachable(root, target) {
				return target;
			}
		}
	}

	pub fn derive(&self, g: &Grammar, rng: &mut Rng, root: usize, target: usize, max: usize) -> Vec<Item> {
		let heat = *rng.pick(&[[50, 20, 4], [50, 5, 0], [95, 5, 0], [80, 10, 0], [35, 35, 10], [70, 15, 0], [20, 10, 5]]);
		let mut go = Go { g, f: self, target, heat, slack: *rng.pick(&[0, 0, 1, 2, 4, 14]), max, out: vec![] };
		go.rule(rng, root, Mode::Way);
		go.out
	}
}

impl Go<'_> {
	fn rule(&mut self, rng: &mut Rng, id: usize, mode: Mode) {
		let mode = match mode {
			Mode::Way if id == self.target => Mode::Hot(0),
			Mode::Hot(n) => Mode::Hot(n + 1),
			other => other,
		};
		let g = self.g;
		self.ex(rng, &g.rules[id].ex, mode);
	}

	fn chance(&self, rng: &mut Rng, ex: &Ex, mode: Mode) -> bool {
		if self.out.len() > self.max {
			return false;
		}
		let noisy = matches!(ex, Ex::Rule(id) if self.f.noisy.get(*id) == Some(&true));
		match mode {
			Mode::Hot(n) if n < 3 => rng.chance(if noisy && n > 0 { self.heat[n] / 4 } else { self.heat[n] }),
			_ => rng.permille(8),
		}
	}

	fn ex(&mut self, rng: &mut Rng, ex: &Ex, mode: Mode) {
		let reach = &self.f.reach[self.target];
		match ex {
			Ex::Term(t, _) => self.out.push(Item::Terminal(*t)),
			Ex::Any => self.out.push(Item::Any),
			Ex::Eof => {}
			Ex::Not(e) | Ex::And(e) => {
				if mode == Mode::Hot(0) && self.out.len() < self.max && rng.chance(if matches!(ex, Ex::Not(_)) { 8 } else { 4 }) {
					self.ex(rng, e, Mode::Cold);
				}
			}
			Ex::Rule(id) => self.rule(rng, *id, mode),
			Ex::Seq(items) => {
				let mut via = usize::MAX;
				if mode == Mode::Way {
					via = self.choose(rng, items, reach.clone());
				}
				for (k, item) in items.iter().enumerate() {
					self.ex(rng, item, if mode == Mode::Way && k != via { Mode::Cold } else { mode });
				}
			}
			Ex::Alt(_, items) | Ex::Longest(items) => {
				if mode == Mode::Way {
					let via = self.choose(rng, items, reach.clone());
					return self.ex(rng, &items[via], mode);
				}
				let depths: Vec<usize> = items.iter().map(|i| crate::gen::depth(i, &self.f.least)).collect();
				let least = *depths.iter().min().unwrap();
				let limit = match mode {
					Mode::Hot(0) => FAR,
					Mode::Hot(1) if rng.chance(70) => FAR,
					Mode::Hot(2) if rng.chance(30) => FAR,
					_ if rng.chance(10) => least + 2,
					_ => least,
				};
				let limit = if self.out.len() > self.max { least } else { limit };
				let open: Vec<usize> = (0..items.len()).filter(|&k| depths[k] <= limit).collect();
				let k = *rng.pick(&open);
				self.ex(rng, &items[k], mode);
			}
			Ex::Opt(_, e) | Ex::Star(_, e) | Ex::Plus(_, e) | Ex::AtLeast(_, e) => {
				let mut n = match ex {
					Ex::Plus(..) => 1,
					Ex::AtLeast(n, _) => *n,
					_ => 0,
				};
				if mode == Mode::Way && n == 0 {
					n = 1;
				}
				// the one on the way counts
				let way = if mode == Mode::Way { rng.below(n.max(1)) } else { 0 };
				let rest = if mode == Mode::Way { Mode::Cold } else { mode };
				while n < 4 && self.chance(rng, e, rest) {
					n += 1;
					if matches!(ex, Ex::Opt(..)) {
						n = 1;
						break;
					}
				}
				for k in 0..n {
					self.ex(rng, e, if mode == Mode::Way && k == way { Mode::Way } else { rest });
				}
			}
			Ex::Cut(e) | Ex::Node(_, e) => self.ex(rng, e, mode),
			Ex::NonEmpty(e) => {
				let before = self.out.len();
				for _ in 0..20 {
					self.ex(rng, e, mode);
					if self.out.len() > before {
						break;
					}
				}
				if self.out.len() == before {
					self.ex(rng, e, Mode::Hot(0));
				}
			}
			Ex::ManyTill(a, b) => {
				if mode == Mode::Way && near(a, reach) <= near(b, reach) {
					self.ex(rng, a, mode);
					return self.ex(rng, b, Mode::Cold);
				}
				let n = if mode == Mode::Cold { 0 } else { rng.small(3) };
				for _ in 0..n {
					self.ex(rng, a, Mode::Cold);
				}
				self.ex(rng, b, mode);
			}
		}
	}

	/// the part through which to go on towards the target
	fn choose(&mut self, rng: &mut Rng, items: &[Ex], reach: Vec<usize>) -> usize {
		let d: Vec<usize> = items.iter().map(|i| near(i, &reach)).collect();
		let best = *d.iter().min().unwrap();
		let open: Vec<usize> = (0..items.len()).filter(|&k| d[k] < FAR && d[k] <= best + self.slack).collect();
		let k = *rng.pick(&open);
		self.slack -= d[k] - best;
		k
	}
}
