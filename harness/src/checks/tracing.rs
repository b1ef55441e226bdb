//! C21: rule messages
use super::words::words_cost;
use crate::gen::{self, Ctx};
use crate::morph::Chars;
use crate::peg;
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::trace;
use sneturfahi::lex::Selmaho;
use std::sync::Mutex;

pub struct Tracing;

const LIMIT: u64 = 1_000_000;

#[derive(Default)]
struct Seen {
	rules: u64,
	deepest: usize,
	/// name and outcome of the rules entered at depth zero
	top: Vec<(String, bool)>,
	/// and of all others
	inner: std::collections::BTreeSet<(String, bool)>,
}

/// the messages of one call must be a balanced sequence starting and ending at depth zero
fn balanced(lines: &[String], inner: bool) -> Result<Seen, String> {
	let mut seen = Seen::default();
	let mut open: Vec<&str> = vec![];
	for (n, line) in lines.iter().enumerate() {
		let body = line.trim_start_matches(' ');
		let indent = line.len() - body.len();
		let near = || lines[n.saturating_sub(3)..(n + 2).min(lines.len())].join(" / ");
		if let Some(name) = body.strip_prefix("entering \"").and_then(|r| r.strip_suffix("\" rule")) {
			if indent != 2 * open.len() {
				return Err(format!("rule {name:?} is entered at depth {} with {indent} spaces: {}", open.len(), near()));
			}
			open.push(name);
			seen.rules += 1;
			seen.deepest = seen.deepest.max(open.len());
		} else if let Some((name, outcome)) = body.strip_prefix("exiting \"").and_then(|r| r.split_once("\" rule: ")) {
			let Some(entered) = open.pop() else {
				return Err(format!("rule {name:?} is left but was not entered: {}", near()));
			};
			if entered != name {
				return Err(format!("rule {name:?} is left while {entered:?} is the innermost one entered: {}", near()));
			}
			if indent != 2 * open.len() {
				return Err(format!("rule {name:?} is left at depth {} with {indent} spaces: {}", open.len(), near()));
			}
			let outcome = match outcome {
				"succeeded" => true,
				"failed" => false,
				_ => return Err(format!("rule {name:?} is left with outcome {outcome:?}")),
			};
			if open.is_empty() {
				seen.top.push((name.to_string(), outcome));
			} else if inner {
				seen.inner.insert((name.to_string(), outcome));
			}
		} else if body.starts_with("entering") || body.starts_with("exiting") {
			return Err(format!("unreadable message {line:?}"));
		}
	}
	if let Some(name) = open.last() {
		return Err(format!("the call returned while {name:?} (depth {}) was still entered", open.len()));
	}
	Ok(seen)
}

/// a history of calls on a text; the messages of each call, and what was called
fn history(text: &str, seed: u64) -> Vec<(String, Vec<String>)> {
	let mut rng = Rng::new(seed);
	let mut out: Vec<(String, Vec<String>)> = vec![];
	let mut words = sneturfahi::decompose(text);
	let mut lexer = sneturfahi::lex(text);
	let mut found = vec![];
	// a few steps, not always to the end
	let end = if rng.chance(70) { usize::MAX } else { rng.below(5) };
	let mut open = [true, true];
	let mut n = 0;
	while open[0] || open[1] {
		n += 1;
		if n > end {
			break;
		}
		let op = rng.below(6);
		match op {
			0..=1 if open[0] => {
				let (w, lines) = trace::capture(|| words.next());
				open[0] = w.is_some();
				found.extend(w);
				out.push((format!("word {w:?}"), lines));
			}
			2 if open[0] => {
				let (w, lines) = trace::capture(|| words.next_no_decomposition());
				out.push((format!("verbatim {w:?}"), lines));
				if rng.chance(20) {
					let (low, lines) = trace::capture(|| words.clone().size_hint().0);
					out.push((format!("size hint {low}"), lines));
				}
			}
			3..=4 if open[1] => {
				let (t, lines) = trace::capture(|| lexer.next());
				open[1] = matches!(t, Some(Ok(_)));
				out.push((format!("token {t:?}"), lines));
			}
			_ if !found.is_empty() => {
				let span: sneturfahi::Span = *rng.pick(&found);
				if let Some(word) = span.slice(text) {
					let (class, lines) = trace::capture(|| Selmaho::classify(word));
					out.push((format!("classify {word} {class:?}"), lines));
				}
			}
			_ => {}
		}
	}
	if rng.chance(30) {
		let (tokens, lines) = trace::capture(|| sneturfahi::lex(text).filter_map(Result::ok).collect::<Vec<_>>());
		out.push((format!("lex {}", tokens.len()), lines));
		if tokens.len() < 8 {
			let (ok, lines) = trace::capture(|| sneturfahi::Cst::parse(&tokens, &sneturfahi::Arena::new()).is_ok());
			out.push((format!("parse {ok}"), lines));
		}
	}
	out
}

impl Check for Tracing {
	fn rule(&self) -> &'static str {
		"histories of word, verbatim, token, classify and parse calls (also abandoned ones) on one text with trace logging on; the messages of every single call are fed to a stack automaton checking names, indentation, outcome and return to depth zero, outcomes of the rules entered for a word are compared with the reference morphology (exactly for the outermost ones, at any letter for the others), and the same history is repeated on the same thread and on three threads at once; non-trivial: at least 30 rules entered"
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 50_000 } else { 2_200 }, workers: 8, cpu_limit: 60.0, stack: 256 << 20, wall: if thorough { 500 } else { 40 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, _: u64) -> String {
		match rng.below(6) {
			0 => format!("t:{}", gen::run(c, rng)),
			1 => format!("t:{}", gen::garbage(rng, 12)),
			2 => format!("t:{}", gen::quotation(c, rng, true)),
			_ => format!("t:{}", gen::text(c, rng)),
		}
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let text = case.strip_prefix("t:").unwrap_or(case);
		let cost = words_cost(c, text);
		if cost > LIMIT {
			st.skip();
			return Ok(());
		}
		let seed = hash(case.as_bytes());
		trace::level(log::LevelFilter::Trace);
		let calls = history(text, seed);
		let again = if seed % 2 == 0 { Some(history(text, seed)) } else { None };
		let failure: Mutex<Option<String>> = Mutex::new(None);
		if seed % 4 == 0 {
			let barrier = std::sync::Barrier::new(3);
			std::thread::scope(|s| {
				for t in 0..3 {
					let (barrier, failure, calls) = (&barrier, &failure, &calls);
					std::thread::Builder::new()
						.stack_size(64 << 20)
						.spawn_scoped(s, move || {
							barrier.wait();
							// the threads' histories differ from each other, except for the first one's
							let mine = history(text, seed + t);
							let verdict = if t == 0 && mine != *calls {
								Err("on another thread, with others at work, the same calls log other messages".to_string())
							} else {
								mine.iter().try_for_each(|(what, lines)| balanced(lines, false).map(drop).map_err(|m| format!("on another thread, {what}: {m}")))
							};
							if let Err(m) = verdict {
								*failure.lock().unwrap() = Some(m);
							}
						})
						.unwrap();
				}
			});
			st.count("histories on threads", 3);
		}
		trace::level(log::LevelFilter::Off);
		let mut total = 0;
		for (what, lines) in &calls {
			let seen = balanced(lines, what.starts_with("classify ")).map_err(|m| format!("{what}: {m}"))?;
			total += seen.rules;
			st.count("calls", 1);
			st.count("rules entered", seen.rules);
			st.max("depth", seen.deepest as u64);
			if let Some(rest) = what.strip_prefix("classify ") {
				let word = rest.split_once(" (").map_or("", |r| r.0);
				let letters: Vec<char> = word.chars().filter(|&ch| ch != ',').collect();
				let input = Chars(letters);
				let mut run = peg::Run::new(&c.morph.grammar, &input);
				for (name, outcome) in &seen.top {
					if c.morph.grammar.by_name.contains_key(name.as_str()) {
						let want = run.matches(name, 0).is_some();
						if want != *outcome {
							return Err(format!("{what}: rule {name:?} is logged with outcome {outcome}, but {}", if want { "the word has that form" } else { "the word lacks that form" }));
						}
						st.count("outcomes compared", 1);
					}
				}
				// rules within others look at the rest of the word from some letter on
				let n = word.chars().filter(|&ch| ch != ',').count();
				for (name, outcome) in &seen.inner {
					if c.morph.grammar.by_name.contains_key(name.as_str()) {
						if !(0..=n).any(|at| run.matches(name, at).is_some() == *outcome) {
							return Err(format!("{what}: rule {name:?} is logged with outcome {outcome} within other rules, but at no letter of the word it can have this outcome"));
						}
						st.count("inner outcomes compared", 1);
					}
				}
			}
		}
		if let Some(again) = again {
			if again != calls {
				let at = calls.iter().zip(&again).position(|(a, b)| a != b).unwrap_or(0);
				return Err(format!("the same calls log other messages the second time, first at {}", calls[at].0));
			}
			st.count("histories repeated", 1);
		}
		if let Some(m) = failure.into_inner().unwrap() {
			return Err(m);
		}
		if total >= 30 {
			st.nontrivial();
		}
		Ok(())
	}
}
