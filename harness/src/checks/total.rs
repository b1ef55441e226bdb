//! C01: every analysis ends, normally and in time
use super::words::words_cost;
use crate::gen::{self, Ctx, Deriver};
use crate::lexref::Tok;
use crate::real;
use crate::rng::Rng;
use crate::run::{thread_cpu, Check, Plan, Stats};
use crate::trace;
use crate::tree;
use sneturfahi::lex::Token;
use sneturfahi::parse::tree_node::TreeNode;

pub struct Total(Deriver);

impl Total {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

const WORDS: u64 = 1_600_000;
const TREE: u64 = 1_500_000;
/// what an ordinary program's main thread has
const STACK: usize = 8 << 20;
/// recursive descent needs stack in proportion to the nesting: beyond about forty levels it is not ordinary
const DEPTH: u32 = 2_000;

/// everything the library offers for a text, except parsing; (seconds, rule events, tokens)
fn words_of(text: &str) -> Result<(f64, u64, Vec<Token>), String> {
	let started = thread_cpu();
	let before = trace::count();
	let mut iter = sneturfahi::decompose(text);
	let mut n = 0;
	loop {
		let (low, high) = iter.size_hint();
		if high.map_or(false, |h| h < low) {
			return Err(format!("size_hint gives {low} and {high:?}"));
		}
		let Some(span) = iter.next() else { break };
		if let Some(word) = span.slice(text) {
			std::hint::black_box(sneturfahi::lex::Selmaho::classify(word));
		}
		n += 1;
		if n > text.len() + 1 {
			return Err("words without end".into());
		}
	}
	let mut iter = sneturfahi::decompose(text);
	let mut steps = 0;
	loop {
		// mixed word-wise and verbatim steps
		let item = if steps % 3 == 0 { iter.next() } else { iter.next_no_decomposition() };
		steps += 1;
		if item.is_none() && iter.next_no_decomposition().is_none() {
			break;
		}
		if steps > 2 * text.len() + 10 {
			return Err("steps without end".into());
		}
	}
	let (tokens, error) = real::lex(text)?;
	drop(format!("{error:?} {tokens:?}"));
	Ok((thread_cpu() - started, trace::count() - before, tokens))
}

fn parse(tokens: &[Token]) -> f64 {
	let started = thread_cpu();
	let arena = sneturfahi::Arena::new();
	match sneturfahi::Cst::parse(tokens, &arena) {
		Ok(cst) => {
			fn walk(n: &dyn TreeNode) -> usize {
				let mut count = n.name().len() + n.start_location().unwrap_or(0) as usize + n.end_location().unwrap_or(0) as usize;
				count += usize::from(n.experimental());
				n.for_each_child(&mut |k| count += walk(k));
				count
			}
			std::hint::black_box(walk(cst.root()));
			if tokens.len() < 200 {
				drop(format!("{:?}", cst.root().name()));
			}
		}
		Err(e) => drop(format!("{} {:?}", e.error, e.error)),
	}
	thread_cpu() - started
}

fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
	std::thread::scope(|s| {
		let handle = std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, || {
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
			r.map_err(|_| crate::run::LAST_PANIC.with(|p| format!("panicked: {}", p.borrow())))
		});
		handle.unwrap().join().unwrap_or_else(|_| Err("the thread panicked".into()))
	})
}

/// the least of up to five measurements, so that a busy machine does not count
fn timed(allowed: f64, mut f: impl FnMut() -> Result<f64, String>) -> Result<(f64, bool), String> {
	let mut best = f64::MAX;
	for _ in 0..5 {
		best = best.min(f()?);
		if best <= allowed {
			return Ok((best, true));
		}
	}
	Ok((best, false))
}

fn judge_text(c: &Ctx, text: &str, st: &mut Stats) -> Result<Vec<Token>, String> {
	let cost = words_cost(c, text);
	let longest = crate::morph::chunks(text).into_iter().map(|r| r.len()).max().unwrap_or(0);
	// commas are stepped over again and again, wherever a letter is looked for
	let gap = text.split(|ch| ch != ',').map(str::len).max().unwrap_or(0);
	let stepping = cost as f64 * gap as f64 * 2e-9;
	if stepping > 5.0 || cost > if longest > 200 { 25 * WORDS } else if text.len() > 400 { 10 * WORDS } else { WORDS } {
		st.skip();
		return Err(String::new());
	}
	let allowed = 0.2 + cost as f64 * 1e-7 + stepping;
	let mut tokens = vec![];
	let (took, ok) = timed(allowed, || {
		let (t, _, found) = on_small_stack(|| words_of(text))??;
		tokens = found;
		Ok(t)
	})?;
	st.max("CPU microseconds for splitting and lexing", (took * 1e6) as u64);
	st.max("percent of the CPU time allowed for words", (took / allowed * 100.0) as u64);
	if !ok {
		return Err(format!("splitting and lexing took {took:.2} s of CPU time, at most {allowed:.2} s are accounted for by the length of the runs"));
	}
	trace::level(log::LevelFilter::Trace);
	let counted = on_small_stack(|| words_of(text));
	trace::level(log::LevelFilter::Off);
	let (_, events, _) = counted??;
	st.count("rule events", events);
	st.max("rule events per 100 units of expected work", events * 100 / (cost + 40 * text.len() as u64 + 100));
	if events > 20_000 + 4 * cost + 100 * text.len() as u64 {
		return Err(format!("splitting and lexing took {events} rule messages; the runs account for about {}", 2 * cost));
	}
	Ok(tokens)
}

fn judge_tokens(c: &Ctx, tokens: &[Token], st: &mut Stats) -> Result<(), String> {
	let toks: Vec<Tok> = tokens.iter().map(real::tok).collect();
	if toks.len() > 3000 {
		return Ok(());
	}
	let reference = tree::reference(&c.grammar, &c.morph.repr, &toks);
	if reference.cost > TREE {
		st.count("token sequences too costly to parse", 1);
		return Ok(());
	}
	if reference.depth > DEPTH {
		st.count("token sequences nested too deep", 1);
		return Ok(());
	}
	st.max("rules active at once", u64::from(reference.depth));
	let allowed = 0.08 + reference.cost as f64 * 4e-7;
	let (took, ok) = timed(allowed, || on_small_stack(|| parse(tokens)))?;
	st.max("CPU microseconds for parsing", (took * 1e6) as u64);
	st.max("percent of the CPU time allowed for parsing", (took / allowed * 100.0) as u64);
	if !ok {
		return Err(format!("parsing took {took:.2} s of CPU time, at most {allowed:.2} s are accounted for by length and nesting"));
	}
	st.count("parsed", 1);
	Ok(())
}

/// `r:N` prefix, unit, suffix: the unit repeated N times, on few kilobytes of stack per unit
fn judge_repeated(c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
	let f: Vec<&str> = case.split('\u{1f}').collect();
	let (Some(n), 4) = (f[0].get(2..).and_then(|n| n.parse::<usize>().ok()), f.len()) else { return Ok(()) };
	let unit_cost = words_cost(c, &f[2].repeat(3));
	if unit_cost > 20_000 || words_cost(c, &format!("{}{}{}", f[1], f[2], f[3])) > WORDS {
		st.skip();
		return Ok(());
	}
	let text = format!("{}{}{}", f[1], f[2].repeat(n), f[3]);
	let allowed = 0.5 + n as f64 * (4e-6 + unit_cost as f64 * 1e-7);
	let (took, ok) = timed(allowed, || {
		on_small_stack(|| {
			let started = thread_cpu();
			let mut k = 0u64;
			for w in sneturfahi::decompose(&text) {
				k += u64::from(w.len());
			}
			for item in sneturfahi::lex(&text) {
				k += u64::from(item.map_or(1, |t| t.span.len()));
			}
			std::hint::black_box(k);
			Ok(thread_cpu() - started)
		})?
	})?;
	st.max("CPU milliseconds for a long text", (took * 1e3) as u64);
	st.count("long texts", 1);
	st.count("kilobytes of long texts", text.len() as u64 / 1024);
	if !ok {
		return Err(format!("{} bytes of short runs took {took:.2} s of CPU time, at most {allowed:.2} s expected", text.len()));
	}
	Ok(())
}

/// judging without any limit, for inputs listed as known findings
pub fn probe(case: &str) {
	let text = case.strip_prefix("t:").unwrap_or(case).to_string();
	on_small_stack(move || {
		if let Ok((_, _, tokens)) = words_of(&text) {
			parse(&tokens);
		}
	})
	.unwrap();
}

const HOSTILE: [&str; 34] = [
	"a", "e", "i", "u", "y", "b", "c", "k", "l", "n", "r", "s", "x", "'", "h", ",", ".", " ", "A", "B", "N", "0", "5", "é", "日", "😀", "\u{301}", "\0", "ſ", "K", "İ", "zoi ", "me'oi", "\t",
];

impl Check for Total {
	fn rule(&self) -> &'static str {
		"all short strings over a hostile alphabet, random Unicode, damaged sentences, runs of up to about 40 letters and some of up to 330 short words, cut-off quotations, long texts of short runs, arbitrary and damaged token sequences of up to 60 tokens, and token sequences growing by repetition; run on a thread with an ordinary 8 MB stack, overflow checks on, CPU time and rule events compared with the reference's own count of the work; non-trivial: not skipped as too costly"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["texts and token sequences for which the unmemoised grammar itself needs more than 1600000 (words) or 1500000 (trees) steps are skipped (see the known findings)"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		let quick = 8_000;
		Plan { cases: if thorough { quick * 40 } else { quick }, workers: 8, cpu_limit: 45.0, stack: 512 << 20, wall: if thorough { 600 } else { 60 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		let k = HOSTILE.len() as u64;
		if i < k + k * k + k * k * k {
			let mut i = i;
			let mut n = 1;
			while i >= k.pow(n) {
				i -= k.pow(n);
				n += 1;
			}
			return format!("t:{}", (0..n).map(|p| HOSTILE[(i / k.pow(p) % k) as usize]).collect::<String>());
		}
		if i % 1000 == 9 {
			// one run of very many words
			let plain = rng.chance(50);
			let word = if plain { *rng.pick(&["mi", "coi", "du'o", "lo"]) } else { "" };
			return format!("t:{}", if plain { word.repeat(rng.range(200, 330)) } else { gen::long_run(c, rng, 200) });
		}
		match rng.below(100) {
			0..=24 => format!("t:{}", gen::text(c, rng)),
			25..=34 => {
				// damage by odd characters
				let mut v: Vec<char> = gen::text(c, rng).chars().collect();
				for _ in 0..1 + rng.small(4) {
					let g = gen::garbage(rng, 2);
					let at = rng.below(v.len() + 1);
					v.splice(at..at, g.chars());
				}
				format!("t:{}", v.into_iter().collect::<String>())
			}
			35..=42 => {
				// a longer run
				let mut s = String::new();
				let n = rng.range(8, 40);
				while s.chars().count() < n {
					s.push_str(&gen::run(c, rng));
				}
				format!("t:{s}")
			}
			43..=47 => format!("t:{}", gen::garbage(rng, 60)),
			48..=54 => {
				let q = gen::quotation(c, rng, true);
				let v: Vec<char> = q.chars().collect();
				let n = rng.below(v.len() + 1);
				format!("t:{}{}", gen::run(c, rng), v[..n].iter().collect::<String>())
			}
			55..=56 => {
				let n = *rng.pick(&[300usize, 3_000, 20_000]);
				let unit = match rng.below(5) {
					0 => gen::separator(rng),
					1 => " ,".into(),
					2 => format!("{} ", gen::quotation(c, rng, false)),
					3 => format!("{} ", gen::run(c, rng)),
					_ => format!("{} ", rng.pick(&c.corpus_words)),
				};
				let prefix = if rng.chance(40) { "zoi gy ".to_string() } else { gen::text(c, rng) };
				let suffix = gen::text(c, rng);
				format!("r:{n}\u{1f}{prefix}\u{1f}{unit}\u{1f}{suffix}").replace('\u{1e}', "")
			}
			57..=78 => {
				let v = gen::classes(c, rng, &mut self.0, 60);
				gen::array_case(rng, &v)
			}
			79..=83 => {
				let deepest = *rng.pick(&[6, 14, 20, 20]);
				let v = gen::nested(rng, deepest);
				gen::array_case(rng, &v)
			}
			84..=86 => {
				let n = 1 + rng.small(59);
				let v: Vec<String> = (0..n).map(|_| if rng.chance(50) { rng.pick(&c.names).clone() } else { gen::any_class(c, rng) }).collect();
				gen::array_case(rng, &v)
			}
			_ => {
				// growth: prefix, repeated unit, suffix
				let whole = self.0.text(c, rng);
				let piece = |rng: &mut Rng, v: &[String], max: usize| -> Vec<String> {
					if v.is_empty() {
						return vec![];
					}
					let a = rng.below(v.len());
					v[a..(a + 1 + rng.small(max)).min(v.len())].to_vec()
				};
				let mut out = if rng.chance(70) { piece(rng, &whole, 4) } else { vec![] };
				let unit = if rng.chance(70) { piece(rng, &whole, 3) } else { (0..1 + rng.small(2)).map(|_| gen::any_class(c, rng)).collect() };
				let n = *rng.pick(&[6usize, 12, 12, 25, 60, 300]);
				for _ in 0..n {
					out.extend(unit.iter().cloned());
				}
				if rng.chance(50) {
					out.extend(piece(rng, &whole, 4));
				}
				out.truncate(1000);
				gen::array_case(rng, &out)
			}
		}
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		if case.starts_with("r:") {
			st.nontrivial();
			return judge_repeated(c, case, st);
		}
		if let Some(text) = case.strip_prefix("t:") {
			match judge_text(c, text, st) {
				Ok(tokens) => judge_tokens(c, &tokens, st)?,
				Err(e) if e.is_empty() => return Ok(()),
				Err(e) => return Err(e),
			}
		} else if let Some(toks) = case.strip_prefix("a:").and_then(|b| gen::parse_array(c, b)) {
			let tokens: Vec<Token> = toks.iter().map(|t| tree::to_token(t, &c.classes)).collect();
			judge_tokens(c, &tokens, st)?;
		} else {
			return Ok(());
		}
		st.nontrivial();
		Ok(())
	}
}
