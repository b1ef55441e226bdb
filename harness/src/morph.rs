//! Reference model of word splitting and classification, on top of the morphology grammar.
use crate::peg::{Grammar, Input, Run, Terminal};
use std::collections::HashMap;
use std::ops::Range;
use std::rc::Rc;

pub const SEPARATORS: [char; 7] = ['.', '\t', '\n', '\r', '?', '!', ' '];

pub fn is_separator(c: char) -> bool {
	SEPARATORS.contains(&c)
}

pub struct Chars(pub Vec<char>);

impl Input for Chars {
	fn len(&self) -> usize {
		self.0.len()
	}
	fn matches(&self, terminal: &Terminal, pos: usize) -> bool {
		match terminal {
			Terminal::Chars(set) => set.contains(&self.0[pos]),
			Terminal::Token(_) => unreachable!(),
		}
	}
	fn leaf_name(&self, _: usize) -> Rc<str> {
		unreachable!()
	}
}

pub struct Morph {
	pub grammar: Grammar,
	pub dictionary: HashMap<String, (String, bool)>,
	pub fundamental: HashMap<String, bool>,
	pub repr: HashMap<String, String>,
}

/// How one run is split: the words as character ranges, and the work an unmemoised recogniser needs.
#[derive(Debug, Clone, Default)]
pub struct Split {
	pub words: Vec<Range<usize>>,
	pub cost: u64,
}

impl Morph {
	pub fn load() -> Self {
		let grammar = Grammar::read(include_str!("../../spec/morphology.peg"));
		let mut dictionary = HashMap::new();
		for line in include_str!("../../data/cmavo.tsv").lines() {
			let f: Vec<&str> = line.split('\t').collect();
			dictionary.insert(f[0].to_string(), (f[1].to_string(), f[2] == "1"));
		}
		let mut fundamental = HashMap::new();
		let mut repr = HashMap::new();
		for line in include_str!("../../data/selmaho.tsv").lines() {
			let f: Vec<&str> = line.split('\t').collect();
			fundamental.insert(f[0].to_string(), f[2] == "1");
			repr.insert(f[0].to_string(), f[1].to_string());
		}
		Self { grammar, dictionary, fundamental, repr }
	}

	/// split a pause-free run (byte ranges relative to the run); commas belong to the word that follows them
	pub fn split(&self, run: &str) -> Split {
		let mut letters = vec![];
		let mut starts = vec![]; // byte offset where the word starting with letter i would start (incl. commas before it)
		let mut ends = vec![];
		let mut after_last = 0;
		for (at, c) in run.char_indices() {
			if c != ',' {
				letters.push(c);
				starts.push(after_last);
				after_last = at + c.len_utf8();
				ends.push(after_last);
			}
		}
		if letters.is_empty() {
			return Split::default();
		}
		let n = letters.len();
		let mut cost = 1;
		let cuts: Vec<usize> = if "bcdfgjklmnprstvxz".contains(letters[n - 1].to_ascii_lowercase()) {
			vec![0, n]
		} else {
			let input = Chars(letters);
			let mut run = Run::new(&self.grammar, &input);
			let mut cuts = vec![0];
			let mut at = 0;
			while let Some(end) = run.matches("fall_off", at) {
				assert!(end > at, "empty word");
				cuts.push(end);
				at = end;
			}
			if at > 0 && run.matches("starts_word", at).is_none() {
				cuts.pop();
			}
			if *cuts.last().unwrap() < n {
				cuts.push(n);
			}
			cost = u64::saturating_add(cost, run.cost);
			cuts
		};
		let words = cuts.windows(2).map(|w| starts[w[0]]..ends[w[1] - 1]).collect();
		Split { words, cost }
	}

	/// class (Debug name of the selma'o) and experimental mark of one word on its own
	pub fn classify(&self, word: &str) -> (String, bool) {
		let (class, experimental, _) = self.classify_cost(word);
		(class, experimental)
	}

	/// also the work a recogniser without memoisation needs for it
	pub fn classify_cost(&self, word: &str) -> (String, bool, u64) {
		let letters: Vec<char> = word.chars().filter(|&c| c != ',').collect();
		let key: String = letters.iter().map(|&c| if c == 'h' { '\'' } else { c }).collect();
		if let Some((class, experimental)) = self.dictionary.get(&key) {
			return (class.clone(), *experimental, 1);
		}
		let mut cost = 1;
		let class = if letters.iter().all(|&c| c == 'y') {
			"Y"
		} else {
			let n = letters.len();
			let last = letters[n - 1].to_ascii_lowercase();
			let input = Chars(letters);
			let mut run = Run::new(&self.grammar, &input);
			let rules =
				[("cmevla", "Cmevla"), ("cmavo_minimal", "UnknownCmavo"), ("gismu", "Gismu"), ("fuhivla", "Fuhivla"), ("lujvo_minimal", "Lujvo")];
			let mut name_cost = 0;
			let found = rules.iter().find(|(rule, _)| {
				let found = run.matches(rule, 0) == Some(n);
				if name_cost == 0 {
					name_cost = run.cost;
				}
				found
			});
			// nothing but a name ends in a consonant, so only names need trying
			cost = if "bcdfgjklmnprstvxz".contains(last) { name_cost } else { run.cost };
			found.map_or("AnyText", |(_, class)| class)
		};
		(class.to_string(), self.fundamental[class], cost)
	}
}

/// the maximal separator-free pieces between separators, empty ones included, as byte ranges
pub fn chunks(text: &str) -> Vec<Range<usize>> {
	let mut out = vec![];
	let mut start = 0;
	for (at, c) in text.char_indices() {
		if is_separator(c) {
			out.push(start..at);
			start = at + c.len_utf8();
		}
	}
	out.push(start..text.len());
	out
}
