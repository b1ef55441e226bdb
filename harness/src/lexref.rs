//! Reference cursor and lexer.
use crate::morph::{chunks, Morph};
use std::collections::{HashMap, VecDeque};
use std::ops::Range;

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct Tok {
	pub class: String,
	pub experimental: bool,
	pub start: usize,
	pub end: usize,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum LexError {
	MissingSeparator(Range<usize>),
	Unclosed(Range<usize>, Range<usize>),
	PauseEof(Range<usize>),
}

/// A cursor over the runs of a text: word-wise or verbatim steps.
#[derive(Debug, Clone)]
pub struct Cursor<'a> {
	text: &'a str,
	chunks: VecDeque<Range<usize>>,
	pending: VecDeque<Range<usize>>,
	current_end: usize,
	pub cost: u64,
}

impl<'a> Cursor<'a> {
	pub fn new(text: &'a str) -> Self {
		Self { text, chunks: chunks(text).into(), pending: VecDeque::new(), current_end: 0, cost: 0 }
	}
	pub fn word(&mut self, m: &Morph) -> Option<Range<usize>> {
		loop {
			if let Some(word) = self.pending.pop_front() {
				return Some(word);
			}
			let chunk = self.chunks.pop_front()?;
			let split = m.split(&self.text[chunk.clone()]);
			self.cost = self.cost.saturating_add(split.cost);
			self.pending = split.words.iter().map(|w| w.start + chunk.start..w.end + chunk.start).collect();
			self.current_end = chunk.end;
		}
	}
	pub fn verbatim(&mut self) -> Option<Range<usize>> {
		if let Some(word) = self.pending.pop_front() {
			self.pending.clear();
			return Some(word.start..self.current_end);
		}
		self.chunks.pop_front()
	}
	/// words still pending in the current run
	pub fn pending(&self) -> usize {
		self.pending.len()
	}
}

fn same_delimiter(a: &str, b: &str) -> bool {
	a.chars().filter(|&c| c != ',').eq(b.chars().filter(|&c| c != ','))
}

/// All tokens, and the error if the text ends in one.
pub struct Lexed {
	pub tokens: Vec<Tok>,
	pub error: Option<LexError>,
	/// the work for splitting and classification
	pub cost: u64,
}

pub fn lex(m: &Morph, text: &str) -> Lexed {
	let mut cursor = Cursor::new(text);
	let mut tokens = vec![];
	let mut cache: HashMap<&str, (String, bool, u64)> = HashMap::new();
	let mut cost = 0u64;
	let tok = |class: &str, r: &Range<usize>| Tok { class: class.into(), experimental: false, start: r.start, end: r.end };
	let error = loop {
		let Some(word) = cursor.word(m) else { break None };
		let (class, experimental, work) = cache.entry(&text[word.clone()]).or_insert_with(|| m.classify_cost(&text[word.clone()])).clone();
		cost = cost.saturating_add(work);
		let initiator = Tok { class: class.clone(), experimental, start: word.start, end: word.end };
		match class.as_str() {
			"Faho" | "Fahoho" => {
				tokens.push(initiator);
				break None;
			}
			"Mehoi" | "Zohoi" | "Dohoi" => {
				tokens.push(initiator);
				let mut found = None;
				while let Some(run) = cursor.verbatim() {
					if !run.is_empty() {
						found = Some(run);
						break;
					}
				}
				match found {
					Some(run) => tokens.push(tok("AnyText", &run)),
					None => break Some(LexError::PauseEof(word)),
				}
			}
			"Zoi" | "Muhoi" | "Sohehai" => {
				let Some(mut delimiter) = cursor.word(m) else { break Some(LexError::MissingSeparator(word)) };
				tokens.push(initiator);
				let mut failed = None;
				for nth in 0..if class == "Sohehai" { 2 } else { 1 } {
					let mut span: Option<Range<usize>> = None;
					let closing = loop {
						match cursor.verbatim() {
							None => break None,
							Some(run) if same_delimiter(&text[run.clone()], &text[delimiter.clone()]) => break Some(run),
							Some(run) => span = Some(span.map_or(run.start, |s| s.start)..run.end),
						}
					};
					match closing {
						None => {
							failed = Some(LexError::Unclosed(word.clone(), delimiter.clone()));
							break;
						}
						Some(closing) => {
							if nth == 0 {
								tokens.push(tok("ZoiDelimiter", &delimiter));
							}
							if let Some(span) = span {
								tokens.push(tok("AnyText", &span));
							}
							tokens.push(tok("ZoiDelimiter", &closing));
							delimiter = closing;
						}
					}
				}
				if failed.is_some() {
					break failed;
				}
			}
			_ => tokens.push(initiator),
		}
	};
	Lexed { tokens, error, cost: cost.saturating_add(cursor.cost) }
}
