//! C17: results depend on nothing but the input. C18: memory.
use super::words::{words_cost, TREE_LIMIT};
use crate::gen::{self, Ctx, Deriver};
use crate::lexref::Tok;
use crate::real;
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::{mem, trace, tree};
use sneturfahi::lex::{Selmaho, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{Arena, Cst, Span};
use std::collections::HashMap;
use std::fmt::Write as _;
use std::io::{Read as _, Write as _};
use std::sync::Mutex;

/// one input: a text, or tokens
#[derive(Clone)]
enum Item {
	/// (false: the tokens are too costly to be parsed again and again, and are not parsed)
	Text(String, bool),
	Tokens(Vec<Token>),
}

fn items(case: &str, classes: &HashMap<String, Selmaho>) -> Vec<Item> {
	case.split('\u{1f}')
		.filter_map(|f| {
			if let Some(text) = f.strip_prefix("t:") {
				return Some(Item::Text(text.into(), true));
			}
			if let Some(text) = f.strip_prefix("w:") {
				return Some(Item::Text(text.into(), false));
			}
			let toks = gen::parse_tokens(classes, f.strip_prefix("a:")?)?;
			Some(Item::Tokens(toks.iter().map(|t| tree::to_token(t, classes)).collect()))
		})
		.collect()
}

/// the inputs of a case that are cheap enough
fn affordable(c: &Ctx, case: &str) -> Vec<Item> {
	let mut out = vec![];
	for mut item in items(case, &c.classes) {
		let toks: Vec<Tok> = match &item {
			Item::Text(text, _) => {
				if words_cost(c, text) > if text.len() > 400 { 30_000_000 } else { 1_000_000 } {
					continue;
				}
				crate::lexref::lex(&c.morph, text).tokens
			}
			Item::Tokens(tokens) => tokens.iter().map(real::tok).collect(),
		};
		if tree::reference(&c.grammar, &c.morph.repr, &toks).cost > TREE_LIMIT / 3 {
			match &mut item {
				Item::Text(_, parsed) => *parsed = false,
				Item::Tokens(_) => continue,
			}
		}
		out.push(item);
	}
	out
}

fn node(n: &dyn TreeNode, out: &mut String) {
	write!(out, "({}{}", n.name(), if n.experimental() { "*" } else { "" }).unwrap();
	if let (Some(s), Some(e)) = (n.start_location(), n.end_location()) {
		write!(out, "@{s}-{e}").unwrap();
	}
	n.for_each_child(&mut |k| node(k, out));
	out.push(')');
}

fn word_digest(text: &str, words: impl Iterator<Item = Span>) -> String {
	let mut out = String::new();
	for w in words {
		write!(out, "{w:?}").unwrap();
		if let Some(word) = w.slice(text) {
			write!(out, "{:?}", Selmaho::classify(word)).unwrap();
		}
		out.push(' ');
	}
	out
}

fn tree_digest(parsed: &Result<Cst<'_>, sneturfahi::parse::cst::error::WithLocation<'_>>) -> String {
	match parsed {
		Ok(cst) => {
			let mut out = String::new();
			node(cst.root(), &mut out);
			out
		}
		Err(e) => format!("{} left, {:?} {}", e.location.len(), e.error, e.error),
	}
}

fn lexed(text: &str) -> (Vec<Token>, String) {
	let mut tokens = vec![];
	let mut out = String::new();
	for item in sneturfahi::lex(text) {
		match item {
			Ok(t) => {
				write!(out, "{t:?} ").unwrap();
				tokens.push(t);
			}
			Err(e) => {
				write!(out, "{e:?} {e}").unwrap();
				break;
			}
		}
	}
	(tokens, out)
}

/// words, tokens and tree of an input, in one line
fn digest(item: &Item, arena: &Arena) -> String {
	match item {
		Item::Text(text, parsed) => {
			let (mut tokens, stream) = lexed(text);
			tokens.truncate(if *parsed { usize::MAX } else { 0 });
			format!("{}|{stream}|{}", word_digest(text, sneturfahi::decompose(text)), tree_digest(&Cst::parse(&tokens, arena)))
		}
		Item::Tokens(tokens) => tree_digest(&Cst::parse(tokens, arena)),
	}
}

// ---------------------------------------------------------------- pristine processes

extern "C" {
	fn fork() -> i32;
	fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
	fn _exit(code: i32) -> !;
}

/// A process that has analysed nothing; it forks a child for every request, so that each digest comes from a
/// process in its initial state.
pub fn zygote() -> i32 {
	let classes: HashMap<String, Selmaho> = crate::selmaho_list::SELMAHO.iter().map(|(s, n, _, _)| (n.to_string(), *s)).collect();
	let mut stdin = std::io::stdin().lock();
	loop {
		let mut len = [0; 8];
		if stdin.read_exact(&mut len).is_err() {
			return 0;
		}
		let mut body = vec![0; u64::from_le_bytes(len) as usize];
		stdin.read_exact(&mut body).unwrap();
		// SAFETY: this process has a single thread
		let pid = unsafe { fork() };
		if pid == 0 {
			let case = String::from_utf8(body).unwrap();
			let out = match items(&case, &classes).first() {
				Some(item) => digest(item, &Arena::new()),
				None => String::new(),
			};
			let mut stdout = std::io::stdout().lock();
			stdout.write_all(&(out.len() as u64).to_le_bytes()).unwrap();
			stdout.write_all(out.as_bytes()).unwrap();
			stdout.flush().unwrap();
			// SAFETY: ends the child
			unsafe { _exit(0) };
		}
		let mut status = 0;
		// SAFETY: waiting for our own child
		unsafe { waitpid(pid, &mut status, 0) };
		if status != 0 {
			let out = "(the process analysing this alone crashed)";
			let mut stdout = std::io::stdout().lock();
			stdout.write_all(&(out.len() as u64).to_le_bytes()).unwrap();
			stdout.write_all(out.as_bytes()).unwrap();
			stdout.flush().unwrap();
		}
	}
}

struct Pristine(std::process::Child);

impl Pristine {
	fn new() -> Self {
		let exe = std::env::current_exe().unwrap();
		let child = std::process::Command::new(exe)
			.arg("zygote")
			.stdin(std::process::Stdio::piped())
			.stdout(std::process::Stdio::piped())
			.stderr(std::process::Stdio::null())
			.spawn()
			.unwrap();
		Self(child)
	}
	fn ask(&mut self, field: &str) -> String {
		let stdin = self.0.stdin.as_mut().unwrap();
		stdin.write_all(&(field.len() as u64).to_le_bytes()).unwrap();
		stdin.write_all(field.as_bytes()).unwrap();
		stdin.flush().unwrap();
		let stdout = self.0.stdout.as_mut().unwrap();
		let mut len = [0; 8];
		stdout.read_exact(&mut len).unwrap();
		let mut body = vec![0; u64::from_le_bytes(len) as usize];
		stdout.read_exact(&mut body).unwrap();
		String::from_utf8(body).unwrap()
	}
}

impl Drop for Pristine {
	fn drop(&mut self) {
		let _ = self.0.kill();
		let _ = self.0.wait();
	}
}

// ---------------------------------------------------------------- C17

pub struct Purity {
	deriver: Deriver,
	pristine: Option<Pristine>,
	recent: Vec<String>,
}

impl Purity {
	pub fn new() -> Self {
		Self { deriver: Deriver::new(), pristine: None, recent: vec![] }
	}
}

fn field(item: &Item) -> String {
	match item {
		Item::Text(t, parsed) => format!("{}:{t}", if *parsed { "t" } else { "w" }),
		Item::Tokens(tokens) => {
			let mut out = String::from("a:");
			let mut at = 0;
			for (i, t) in tokens.iter().enumerate() {
				let gap = t.span.start - at + u32::from(i == 0);
				write!(out, " {:?}{}/{gap}/{}", t.selmaho, if t.experimental { "*" } else { "" }, t.span.len()).unwrap();
				at = t.span.end;
			}
			out
		}
	}
}

fn differ(what: &str, item: &Item, want: &str, got: &str) -> Result<(), String> {
	if want == got {
		return Ok(());
	}
	Err(format!("{what}, {:?} gives\n  {got}\nbut analysed alone in a new process\n  {want}", field(item)))
}

/// tokens and words of a text lying inside a larger one
fn embedded(item: &Item, rng: &mut Rng, want: &str) -> Result<(), String> {
	match item {
		Item::Text(text, parsed) => {
			let before: String = (0..rng.below(9)).map(|_| *rng.pick(&['a', 'k', ' ', ',', 'é', '\''])).collect();
			let after = *rng.pick(&["", "a", "n", ",", " ", "'a", "zoi", "日", "klama"]);
			let whole = format!("{before}{text}{after}");
			let inner = &whole[before.len()..before.len() + text.len()];
			let (mut tokens, stream) = lexed(inner);
			tokens.truncate(if *parsed { usize::MAX } else { 0 });
			let got = format!("{}|{stream}|{}", word_digest(inner, sneturfahi::decompose(inner)), tree_digest(&Cst::parse(&tokens, &Arena::new())));
			differ("lying inside a larger text", item, want, &got)
		}
		Item::Tokens(tokens) => {
			let mut whole: Vec<Token> = tokens.iter().rev().take(rng.below(4)).copied().collect();
			let n = whole.len();
			whole.extend(tokens);
			whole.extend(tokens.iter().take(rng.below(4)).copied());
			let got = tree_digest(&Cst::parse(&whole[n..n + tokens.len()], &Arena::new()));
			differ("lying inside a longer token sequence", item, want, &got)
		}
	}
}

fn interleaved(a: &str, b: &str, rng: &mut Rng) -> (String, String) {
	let mut outs = [String::new(), String::new()];
	let mut words = [sneturfahi::decompose(a), sneturfahi::decompose(b)];
	let mut lexers = [sneturfahi::lex(a), sneturfahi::lex(b)];
	let texts = [a, b];
	let mut wordlists = [vec![], vec![]];
	// word lists and token streams of both texts advance in random turns
	let mut open = [true; 4];
	while open.iter().any(|&o| o) {
		let i = rng.below(4);
		let k = i % 2;
		if !open[i] {
			continue;
		}
		if i < 2 {
			match words[k].next() {
				Some(w) => wordlists[k].push(w),
				None => open[i] = false,
			}
		} else {
			match lexers[k].next() {
				Some(Ok(t)) => write!(outs[k], "{t:?} ").unwrap(),
				Some(Err(e)) => {
					write!(outs[k], "{e:?} {e}").unwrap();
					open[i] = false;
				}
				None => open[i] = false,
			}
		}
	}
	let both: Vec<String> = (0..2).map(|k| format!("{}|{}|", word_digest(texts[k], wordlists[k].iter().copied()), outs[k])).collect();
	(both[0].clone(), both[1].clone())
}

/// every thread goes over its own short input again and again while the others do the same
fn storm(items: &[Item], want: &[String]) -> Result<u64, String> {
	let failure: Mutex<Option<String>> = Mutex::new(None);
	let rounds = std::sync::atomic::AtomicU64::new(0);
	let barrier = std::sync::Barrier::new(items.len());
	std::thread::scope(|s| {
		for (item, want) in items.iter().zip(want) {
			let (failure, rounds, barrier) = (&failure, &rounds, &barrier);
			std::thread::Builder::new()
				.stack_size(64 << 20)
				.spawn_scoped(s, move || {
					let go = || -> Result<u64, String> {
						let (words, tokens) = match item {
							Item::Text(text, _) => (sneturfahi::decompose(text).collect::<Vec<_>>(), sneturfahi::lex(text).filter_map(Result::ok).collect::<Vec<_>>()),
							Item::Tokens(tokens) => (vec![], tokens.clone()),
						};
						let classes: Vec<(&str, (Selmaho, bool))> = match item {
							Item::Text(text, _) => words.iter().filter_map(|w| w.slice(text)).map(|w| (w, Selmaho::classify(w))).collect(),
							Item::Tokens(_) => vec![],
						};
						let mut arena = Arena::new();
						// what was just seen is what is expected, if all of it is
						differ("in a storm of threads", item, want, &digest(item, &arena))?;
						let started = std::time::Instant::now();
						let mut n = 0;
						while started.elapsed() < std::time::Duration::from_millis(200) && failure.lock().unwrap().is_none() {
							for turn in 0..20 {
								n += 1;
								match item {
									Item::Text(text, _) if turn > 0 => {
										for (word, class) in &classes {
											if Selmaho::classify(word) != *class {
												return Err(format!("in a storm of threads, {word:?} in {text:?} gets another class than before"));
											}
										}
									}
									Item::Text(text, _) => {
										if !sneturfahi::lex(text).filter_map(Result::ok).eq(tokens.iter().copied()) || !sneturfahi::decompose(text).eq(words.iter().copied()) {
											return Err(format!("in a storm of threads, {text:?} gives other words or tokens than before"));
										}
									}
									Item::Tokens(tokens) => {
										arena = Arena::new();
										let got = tree_digest(&Cst::parse(tokens, &arena));
										differ("in a storm of threads", item, want, &got)?;
									}
								}
							}
							arena = Arena::new();
							differ("in a storm of threads", item, want, &digest(item, &arena))?;
						}
						Ok(n)
					};
					barrier.wait();
					match std::panic::catch_unwind(std::panic::AssertUnwindSafe(go)) {
						Ok(Ok(n)) => drop(rounds.fetch_add(n, std::sync::atomic::Ordering::Relaxed)),
						Ok(Err(m)) => *failure.lock().unwrap() = Some(m),
						Err(_) => *failure.lock().unwrap() = Some(format!("in a storm of threads, {:?} panicked", field(item))),
					}
				})
				.unwrap();
		}
	});
	match failure.into_inner().unwrap() {
		Some(m) => Err(m),
		None => Ok(rounds.into_inner()),
	}
}

impl Check for Purity {
	fn rule(&self) -> &'static str {
		"groups of texts and token sequences; each is analysed alone in a process that has analysed nothing else, then in the worker (after everything before), in one shared arena with all earlier trees read again after each parse, inside surrounding text, with iterators of two texts advancing in turns, after abandoned iterators, at every log level, on four threads at once in different orders, and in storms where up to eight threads go over one short input each as fast as they can; all digests (words, classes, tokens, tree or error with its message) must agree; non-trivial: a group of at least three inputs"
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 20_000 } else { 260 }, workers: 8, cpu_limit: 60.0, stack: 256 << 20, wall: if thorough { 600 } else { 45 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		// now on one worker, now on another
		if (i / 8) % 8 == i % 8 {
			let pool = ["q", "n", "xr", "djan", "e'", "1", "yy", "zukte", "a'y'a", "alga"];
			let mut fields = vec!["storm".to_string()];
			if rng.chance(50) {
				// the quickest words to look at
				let quick = ["q", "n", "xr", "w,", "r", "zx", "kl", "é", "s", "1", "''", "jb"];
				fields.extend((0..8).map(|_| format!("t:{}", rng.pick(&quick))));
				return fields.join("\u{1f}");
			}
			for _ in 0..rng.range(4, 8) {
				let mut word = |rng: &mut Rng| loop {
					let w = match rng.below(4) {
						0 => (*rng.pick(&pool)).to_string(),
						1 => rng.pick(&c.cmavo).clone(),
						2 => gen::morpheme(c, rng).replace(|ch| crate::morph::is_separator(ch), ""),
						_ => rng.pick(&c.corpus_words).clone(),
					};
					if w.len() < 8 && !w.is_empty() {
						break w;
					}
				};
				fields.push(match rng.below(8) {
					0 => format!("t:{} {}", word(rng), word(rng)),
					1 => "a:Koha Gismu".into(),
					2 => "a:Gismu I Ui".into(),
					_ => format!("t:{}", word(rng)),
				});
			}
			return fields.join("\u{1f}");
		}
		if (i / 8) % 2 == i % 2 {
			// a family: words that differ from each other in a letter, a capital or a comma
			let base = match rng.below(5) {
				0 => rng.pick(&c.cmavo).clone(),
				1 => rng.pick(&c.corpus_words).clone(),
				2 => gen::run(c, rng),
				_ => (0..rng.range(2, 5)).map(|_| gen::morpheme(c, rng)).collect(),
			};
			let base = base.replace(crate::morph::is_separator, "");
			let mut members = vec![base];
			let shouting = rng.chance(50);
			for _ in 0..rng.range(5, 14) {
				if shouting {
					// only capitals differ
					let mut v: Vec<char> = members[0].chars().collect();
					for _ in 0..1 + rng.small(2) {
						let at = rng.below(v.len().max(1));
						if let Some(ch) = v.get_mut(at) {
							*ch = if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() };
						}
					}
					members.push(v.into_iter().collect());
					continue;
				}
				let from = if rng.chance(60) { members[0].clone() } else { rng.pick(&members).clone() };
				members.push(gen::variation(rng, &from).replace(crate::morph::is_separator, ""));
			}
			let context = if rng.chance(30) { format!("{} ", rng.pick(&c.cmavo)) } else { String::new() };
			return format!("near\u{1f}{}", members.iter().filter(|m| !m.is_empty()).map(|m| format!("t:{context}{m}")).collect::<Vec<_>>().join("\u{1f}"));
		}
		if i % 32 == 5 {
			let fields: Vec<String> = (0..1).map(|_| gen::many(c, rng).replace('\u{1f}', "")).map(|s| format!("t:{s}")).collect();
			return format!("{}\u{1f}t:{}", fields.join("\u{1f}"), rng.pick(&c.corpus));
		}
		if i % 8 == 2 {
			let text = if rng.chance(50) {
				let q = format!("{} ", gen::quotation(c, rng, false));
				q.repeat(*rng.pick(&[17, 33, 66, 101, 130]))
			} else {
				gen::many(c, rng)
			};
			return format!("levels\u{1f}t:{}", text.replace('\u{1f}', ""));
		}
		let n = rng.range(3, 7);
		let mut fields: Vec<String> = (0..n)
			.map(|_| match rng.below(10) {
				0..=3 => format!("t:{}", gen::text(c, rng)),
				4 | 5 => gen::accepted_case(c, rng, &mut self.deriver),
				6 => format!("t:{}", rng.pick(&c.corpus)),
				// something seen before, and something that differs from it a little
				7 | 8 if !self.recent.is_empty() => {
					let mut s = rng.pick(&self.recent).clone();
					if s.starts_with("t:") && rng.chance(60) {
						let mut v: Vec<char> = s.chars().collect();
						let at = rng.range(2, v.len());
						match rng.below(3) {
							0 if at < v.len() => drop(v.remove(at)),
							1 => v.truncate(at),
							_ => v.insert(at, *rng.pick(&['a', 'i', ' ', ',', 'n', 'y'])),
						}
						s = v.into_iter().collect();
					}
					s
				}
				_ => gen::tree_case(c, rng, &mut self.deriver, 60),
			})
			.map(|s| s.replace('\u{1f}', ""))
			.collect();
		self.recent.extend(fields.iter().take(2).cloned());
		if self.recent.len() > 60 {
			self.recent.drain(..20);
		}
		if rng.chance(40) {
			let again = rng.pick(&fields).clone();
			fields.push(again);
		}
		fields.join("\u{1f}")
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let mut rng = Rng::new(hash(case.as_bytes()));
		let items = affordable(c, case);
		if items.is_empty() {
			st.skip();
			return Ok(());
		}
		let pristine = self.pristine.get_or_insert_with(Pristine::new);
		let want: Vec<String> = items.iter().map(|i| pristine.ask(&field(i))).collect();
		st.count("pristine processes", items.len() as u64);
		if case.starts_with("near\u{1f}") {
			let mut before = String::new();
			for round in 0..3 {
				for k in 0..items.len() {
					let i = if round == 1 { items.len() - 1 - k } else if round == 2 { rng.below(items.len()) } else { k };
					differ(&format!("after{before}"), &items[i], &want[i], &digest(&items[i], &Arena::new()))?;
					before = format!(" {:?}", field(&items[i]));
					st.count("near relatives compared", 1);
				}
			}
			st.nontrivial();
			return Ok(());
		}
		if case.starts_with("levels\u{1f}") {
			for level in [log::LevelFilter::Trace, log::LevelFilter::Info, log::LevelFilter::Off] {
				trace::level(level);
				let got = digest(&items[0], &Arena::new());
				trace::level(log::LevelFilter::Off);
				differ(&format!("logging at level {level}"), &items[0], &want[0], &got)?;
				st.count("long texts at log levels", 1);
			}
			st.nontrivial();
			return Ok(());
		}

		// histories on this thread, with an arena each and with one arena for all
		for (item, want) in items.iter().zip(&want) {
			differ("after earlier analyses", item, want, &digest(item, &Arena::new()))?;
		}
		let streams: Vec<Vec<Token>> = items
			.iter()
			.map(|i| match i {
				Item::Text(t, true) => lexed(t).0,
				Item::Text(..) => vec![],
				Item::Tokens(t) => t.clone(),
			})
			.collect();
		{
			let tree_of = |i: usize| match &items[i] {
				Item::Text(..) => want[i].rsplit('|').next().unwrap(),
				Item::Tokens(_) => &want[i],
			};
			let arena = Arena::new();
			let mut kept = vec![];
			for i in 0..items.len() {
				kept.push(Cst::parse(&streams[i], &arena));
				for (j, earlier) in kept.iter().enumerate() {
					differ(if j == i { "in a shared arena" } else { "read again after another parse into the same arena" }, &items[j], tree_of(j), &tree_digest(earlier))?;
					st.count("trees read in a shared arena", 1);
				}
			}
		}
		for (item, want) in items.iter().zip(&want) {
			embedded(item, &mut rng, want)?;
			st.count("placements", 1);
		}

		// abandoned iterators, and iterators of two texts in turns
		let texts: Vec<(usize, &str)> = items
			.iter()
			.enumerate()
			.filter_map(|(i, x)| match x {
				Item::Text(t, _) => Some((i, t.as_str())),
				Item::Tokens(_) => None,
			})
			.collect();
		for pair in texts.windows(2) {
			let (x, y) = interleaved(pair[0].1, pair[1].1, &mut rng);
			for ((i, _), got) in pair.iter().zip([x, y]) {
				let cut = want[*i].rfind('|').unwrap() + 1;
				differ("in turns with another text", &items[*i], &want[*i][..cut], &got)?;
				st.count("interleavings", 1);
			}
			let _ = sneturfahi::lex(pair[0].1).take(rng.below(4)).count();
			let _ = sneturfahi::decompose(pair[0].1).take(rng.below(4)).count();
			differ("after an abandoned iterator", &items[pair[1].0], &want[pair[1].0], &digest(&items[pair[1].0], &Arena::new()))?;
		}

		// log levels
		let levels = [log::LevelFilter::Trace, log::LevelFilter::Debug, log::LevelFilter::Error];
		for (i, item) in items.iter().enumerate() {
			let level = if i == 0 { log::LevelFilter::Trace } else { *rng.pick(&levels) };
			trace::level(level);
			let before = trace::count();
			let got = if trace::count() % 3 == 0 && want[i].len() < 4000 && matches!(item, Item::Tokens(_)) {
				trace::capture(|| digest(item, &Arena::new())).0
			} else {
				digest(item, &Arena::new())
			};
			st.count("log records", trace::count() - before);
			trace::level(log::LevelFilter::Off);
			differ(&format!("logging at level {level}"), item, &want[i], &got)?;
		}

		// threads
		let failure: Mutex<Option<String>> = Mutex::new(None);
		let barrier = std::sync::Barrier::new(4);
		std::thread::scope(|s| {
			for t in 0..4u64 {
				let mut rng = rng.clone();
				let (items, want, failure, barrier) = (&items, &want, &failure, &barrier);
				std::thread::Builder::new()
					.stack_size(64 << 20)
					.spawn_scoped(s, move || {
						for _ in 0..t {
							rng.next();
						}
						let mut order: Vec<usize> = (0..items.len()).chain(0..items.len()).collect();
						for i in (1..order.len()).rev() {
							order.swap(i, rng.below(i + 1));
						}
						barrier.wait();
						let arena = Arena::new();
						for i in order {
							let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| digest(&items[i], &arena)));
							let result = match result {
								Ok(got) => differ("on one of four threads", &items[i], &want[i], &got),
								Err(_) => Err(format!("on one of four threads, {:?} panicked", field(&items[i]))),
							};
							if let Err(m) = result {
								*failure.lock().unwrap() = Some(m);
								return;
							}
						}
					})
					.unwrap();
			}
		});
		if let Some(m) = failure.into_inner().unwrap() {
			return Err(m);
		}
		st.count("analyses on threads", 8 * items.len() as u64);
		if case.starts_with("storm") {
			let n = storm(&items, &want)?;
			st.count("analyses in storms (threads going over one short input each, as fast as they can)", n);
			st.count("storms", 1);
		}
		if items.len() > 2 {
			st.nontrivial();
		}
		for w in &want {
			st.seen("results", w);
		}
		Ok(())
	}
}

// ---------------------------------------------------------------- C18

pub struct Memory(Deriver);

impl Memory {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

/// analyse all inputs, keeping results and dropping them in some order; returns bytes the arenas held
fn session(items: &[Item], variant: u64, keep: &mut String) -> usize {
	let mut rng = Rng::new(variant);
	let mut held = 0;
	keep.clear();
	let shared = Arena::new();
	let streams: Vec<Vec<Token>> = items
		.iter()
		.map(|i| match i {
			Item::Text(t, parsed) => {
				if rng.chance(30) {
					// an iterator dropped halfway, and copies of it
					let mut it = sneturfahi::decompose(t);
					it.next();
					let copy = it.clone();
					it.next_no_decomposition();
					drop(it);
					keep.push_str(if copy.count() > 3 { "x" } else { "y" });
				}
				let mut tokens = lexed(t).0;
				tokens.truncate(if *parsed { usize::MAX } else { 0 });
				tokens
			}
			Item::Tokens(t) => t.clone(),
		})
		.collect();
	let mut results: Vec<Option<Result<Cst<'_>, sneturfahi::parse::cst::error::WithLocation<'_>>>> = vec![];
	for stream in &streams {
		if rng.chance(50) {
			results.push(Some(Cst::parse(stream, &shared)));
		} else {
			let own = Arena::new();
			let parsed = Cst::parse(stream, &own);
			if let Ok(cst) = &parsed {
				node(cst.root(), keep);
			}
			if let Err(e) = &parsed {
				write!(keep, "{}", e.error).unwrap();
			}
			held += own.allocated_bytes();
			keep.clear();
		}
		if rng.chance(30) && !results.is_empty() {
			let k = rng.below(results.len());
			results[k] = None;
		}
	}
	for r in results.iter().flatten() {
		if let Ok(cst) = r {
			node(cst.root(), keep);
			keep.clear();
		}
	}
	held + shared.allocated_bytes()
}

/// A short workload for an interpreter (Miri): the case being analysed is written to a file first
pub fn mini(seed: u64, file: &std::path::Path) {
	let classes: HashMap<String, Selmaho> = crate::selmaho_list::SELMAHO.iter().map(|(s, n, _, _)| (n.to_string(), *s)).collect();
	let lines: Vec<&str> = include_str!("../../../data/cll.txt").lines().filter(|l| l.len() < 22).collect();
	let mut rng = Rng::new(seed);
	let mut keep = String::with_capacity(1 << 16);
	let started = std::time::Instant::now();
	let mut done = 0;
	for n in 0..60 {
		if started.elapsed().as_secs() > 120 {
			break;
		}
		let case = match n % 6 {
			0 => format!("t:{}", rng.pick(&["zoi gy a,b gy mi", "me'oi", "zoi gy. x", "lo'u mi le'u", "so'e'ai gy x gy y gy", "ü日,😀 y,y,", "li pa su'i re"])),
			1 => format!("t:{}", gen::garbage(&mut rng, 10)),
			2 => format!("a:{}", (0..4).map(|_| rng.pick(&["Gismu", "Koha", "Cu", "Ui*", "Le", "Zoi", "ZoiDelimiter", "AnyText", "I", "Lahe", "Tei"]).to_string()).collect::<Vec<_>>().join(" ")),
			_ => format!("t:{}", rng.pick(&lines)),
		};
		std::fs::write(file, &case).unwrap();
		session(&items(&case, &classes), rng.next(), &mut keep);
		done += 1;
	}
	println!("{done}");
	std::fs::write(file, "done").unwrap();
}

impl Check for Memory {
	fn rule(&self) -> &'static str {
		"sequences of texts and token sequences, accepted and rejected, with trees kept in a shared arena or dropped at once, iterators copied and abandoned; a counting allocator compares the bytes and blocks held before and after each repeated session (they must be equal), the whole run must not grow, and half of the workers run the same sessions under AddressSanitizer; non-trivial: at least two inputs of which one parses"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["memory kept once per process or thread (initialised on the first session) is not a leak"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 60_000 } else { 1_200 }, workers: 8, cpu_limit: 60.0, stack: 256 << 20, wall: if thorough { 350 } else { 22 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		if i % 25 == 3 {
			return format!("t:{}", gen::many(c, rng).replace('\u{1f}', ""));
		}
		let n = rng.range(1, 5);
		let fields: Vec<String> = (0..n)
			.map(|_| match rng.below(10) {
				0..=2 => format!("t:{}", gen::text(c, rng)),
				3 => format!("t:{}", gen::quotation(c, rng, true)),
				4..=6 => gen::accepted_case(c, rng, &mut self.0),
				_ => gen::tree_case(c, rng, &mut self.0, 70),
			})
			.map(|s| s.replace('\u{1f}', ""))
			.collect();
		fields.join("\u{1f}")
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let items = affordable(c, case);
		if items.is_empty() {
			st.skip();
			return Ok(());
		}
		let mut keep = String::with_capacity(1 << 20);
		let seed = hash(case.as_bytes());
		session(&items, seed, &mut keep);
		let mut grown = (0, 0);
		for round in 0..3 {
			let before = mem::live();
			let total = mem::total();
			let held = session(&items, seed, &mut keep);
			let after = mem::live();
			st.count("bytes allocated and followed", mem::total() - total);
			st.count("bytes held by arenas", held as u64);
			grown = (after.0 - before.0, after.1 - before.1);
			if grown == (0, 0) {
				break;
			}
			st.count("sessions repeated because memory grew", u64::from(round < 2));
		}
		if grown != (0, 0) {
			return Err(format!("every repetition of this session leaves {} more bytes in {} more blocks allocated", grown.0, grown.1));
		}
		st.count("sessions", 1);
		st.count(if std::env::var_os("VERIF_IS_ASAN").is_some() { "sessions under AddressSanitizer" } else { "sessions in the plain build" }, 1);
		if items.len() > 1 {
			st.nontrivial();
		}
		Ok(())
	}
	fn shrinkable(&self) -> bool {
		std::env::var_os("VERIF_IS_ASAN").is_none()
	}
}
