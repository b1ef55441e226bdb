//! C22: the command-line program
use super::words::{words_cost, lex_limit, TREE_LIMIT};
use crate::gen::{self, Ctx, Deriver};
use crate::lexref::{self, LexError, Tok};
use crate::rng::{hash, Rng};
use crate::run::{Check, Plan, Stats};
use crate::tree::{self, Obs, Verdict};
use std::fmt::Write as _;
use std::io::{Read as _, Write as _};
use std::ops::Range;
use std::process::{Command, Stdio};

pub struct Cli(Deriver);

impl Cli {
	pub fn new() -> Self {
		Self(Deriver::new())
	}
}

#[derive(Clone, Copy, Default, Debug)]
struct Switches {
	decompose: bool,
	lex: bool,
	cst: bool,
	collapse: bool,
	verbose: bool,
}

impl Switches {
	fn of(n: usize) -> Self {
		Self { decompose: n & 1 != 0, lex: n & 2 != 0, cst: n & 4 != 0, collapse: n & 8 != 0, verbose: n & 16 != 0 }
	}
	fn args(self) -> Vec<&'static str> {
		let all = [(self.decompose, "--decompose"), (self.lex, "--lex"), (self.cst, "--cst"), (self.collapse, "--collapse-cst"), (self.verbose, "--verbose")];
		all.iter().filter(|a| a.0).map(|a| a.1).collect()
	}
}

fn list(items: Vec<String>) -> String {
	format!("[{}]", items.join(", "))
}

fn show_tree(mut node: &Obs, text: &str, collapse: bool, level: usize, out: &mut Vec<String>) {
	while collapse && node.kids.len() == 1 {
		node = &node.kids[0];
	}
	let mut line = format!("{}{}{}", " ".repeat(level), node.name, if node.experimental { "*" } else { "" });
	if let (Some(s), Some(e)) = (node.start, node.end) {
		write!(line, " @ {s}..{e} {:?}", &text[s as usize..e as usize]).unwrap();
	}
	out.push(line);
	for kid in &node.kids {
		show_tree(kid, text, collapse, level + 2, out);
	}
}

fn lex_error(e: &LexError) -> String {
	let show = |r: &Range<usize>| format!("{}..{}", r.start, r.end);
	match e {
		LexError::MissingSeparator(i) => format!("DelimitedQuoteMissingSeparator {{ initiator_span: {} }}", show(i)),
		LexError::Unclosed(i, d) => format!("DelimitedQuoteUnclosed {{ initiator_span: {}, starting_delimiter_span: {} }}", show(i), show(d)),
		LexError::PauseEof(i) => format!("PauseDelimitedQuoteEof {{ initiator_span: {} }}", show(i)),
	}
}

fn token_debug(c: &Ctx, t: &Tok) -> String {
	format!("Token {{ experimental: {}, selmaho: {:?}, span: {}..{} }}", t.experimental, c.classes[&t.class], t.start, t.end)
}

/// what should be printed; None if too costly. A line ending in `…` is a prefix, a line of `#` any number.
fn expected(c: &Ctx, input: &str, s: Switches) -> Option<Vec<String>> {
	let text = input.trim();
	if words_cost(c, text) > 2 * lex_limit(text) {
		return None;
	}
	let mut out = vec![];
	if !(s.decompose || s.lex || s.cst) {
		return Some(out);
	}
	let word = |r: &Range<usize>| format!("{:?} @ {}..{}", &text[r.clone()], r.start, r.end);
	if s.decompose {
		let mut cursor = lexref::Cursor::new(text);
		let mut words = vec![];
		while let Some(w) = cursor.word(&c.morph) {
			words.push(word(&w));
		}
		out.push(format!("Decomposed: {}", list(words)));
	}
	let lexed = lexref::lex(&c.morph, text);
	let reference = tree::reference(&c.grammar, &c.morph.repr, &lexed.tokens);
	if reference.cost > TREE_LIMIT {
		return None;
	}
	if let Some(e) = lexed.error {
		out.push(format!("Lexing error: {}", lex_error(&e)));
		return Some(out);
	}
	let toks = &lexed.tokens;
	if s.lex {
		let items = toks.iter().map(|t| format!("{}{}({})", c.repr(&t.class), if t.experimental { "*" } else { "" }, word(&(t.start..t.end)))).collect();
		out.push(format!("Lexed: {}", list(items)));
	}
	if s.cst {
		match &reference.verdict {
			Verdict::Accepted(node) => show_tree(&tree::expected(node, toks), text, s.collapse, 0, &mut out),
			Verdict::Rejected(at, ..) => match toks.get(*at) {
				Some(t) if t.class == "AnyText" => out.push(format!(
					"The token {} could not be lexed. The content of this token is {:?}.",
					token_debug(c, t),
					&text[t.start..t.end]
				)),
				_ => {
					let rest: Vec<String> = toks[*at..].iter().map(|t| token_debug(c, t)).collect();
					out.push(format!("Parse error: WithLocation {{ location: {}, error: …", list(rest)));
				}
			},
		}
		out.push("size of CST arena: #".into());
	}
	Some(out)
}

fn agrees(want: &str, got: &str) -> bool {
	if let Some(prefix) = want.strip_suffix('…') {
		return got.starts_with(prefix);
	}
	if let Some(prefix) = want.strip_suffix('#') {
		return got.strip_prefix(prefix).map_or(false, |n| n.parse::<u64>().is_ok());
	}
	want == got
}

/// the output without log records, which may begin in the middle of a line and end with it
fn without_log(text: &str) -> String {
	let b = text.as_bytes();
	let record = |i: usize| {
		let Some(r) = b.get(i..i + 10) else { return false };
		r[2] == b':' && r[5] == b':' && r[8] == b' ' && r[9] == b'[' && r[..8].iter().all(|&x| x == b':' || x.is_ascii_digit())
			&& (b[i + 10..].starts_with(b"TRACE] ") || b[i + 10..].starts_with(b"DEBUG] "))
	};
	let mut out = String::new();
	let mut kept = 0;
	let mut i = 0;
	while i < b.len() {
		if record(i) {
			out.push_str(&text[kept..i]);
			while i < b.len() && b[i] != b'\n' {
				i += 1;
			}
			kept = i + 1;
		}
		i += 1;
	}
	out.push_str(text.get(kept..).unwrap_or(""));
	out
}

impl Check for Cli {
	fn rule(&self) -> &'static str {
		"texts of all kinds given to the built command-line program on standard input under random combinations of switches; its standard output is compared line by line with a rendering of the reference words, tokens and tree, its exit status must be success; non-trivial: something other than the empty list is printed"
	}
	fn assumptions(&self) -> Vec<&'static str> {
		vec!["what exactly a parse error says after its location is left open", "the interactive mode (a terminal as standard input) is not exercised"]
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 40_000 } else { 900 }, workers: 8, cpu_limit: 60.0, stack: 256 << 20, wall: if thorough { 500 } else { 40 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		let switches = if i < 32 { i as usize } else { (rng.below(16) | 4 * usize::from(rng.chance(50))) + 16 * usize::from(rng.chance(4)) };
		let text = match rng.below(10) {
			0 => gen::quotation(c, rng, true),
			1 | 2 => rng.pick(&c.corpus).clone(),
			3..=5 => {
				let v = gen::classes(c, rng, &mut self.0, 15);
				let words = gen::classes_to_words(c, rng, &v);
				gen::join(rng, &words)
			}
			_ => gen::text(c, rng),
		};
		// every word of the dictionary in turn
		let chunks = c.cmavo.len().div_ceil(20);
		let k = i as usize - 32.min(i as usize);
		if i >= 32 && k < chunks {
			let quoting = ["Zoi", "Muhoi", "Sohehai", "Mehoi", "Zohoi", "Dohoi", "Zo", "Mahoi", "Faho", "Fahoho"];
			let words: Vec<&str> = c.cmavo[20 * k..(20 * k + 20).min(c.cmavo.len())].iter().filter(|w| !quoting.contains(&&*c.morph.classify(w).0)).map(|w| &**w).collect();
			return format!("{}\u{1f}{}", 2 | switches, words.join(" "));
		}
		let text = match rng.below(24) {
			// positions that need two or three bytes
			0 | 1 => {
				let mut filler = String::new();
				let size = *rng.pick(&[120, 250, 250, 300, 900, 4000, 66_000]);
				while filler.len() < size {
					filler.push_str(*rng.pick(&["x", "some words ", "\u{e9}t\u{e9}. ", "1 ", "a\u{20ac}"]));
				}
				// the long token before, behind or in the middle of the text, in the part that is not understood, or unclosed
				match rng.below(8) {
					0..=2 => format!("zoi gy {filler} gy {text}"),
					3 => format!("{text} zoi gy {filler} gy"),
					4 => format!("{} zoi gy {filler} gy {text}", rng.pick(&["ku", "mi ku vau vau", "lo", "broda ku ku ku", "to", "li"])),
					5 => format!("{text} {}", filler.replace(crate::morph::is_separator, "q")),
					6 => format!("zoi {} {text}", filler.replace(crate::morph::is_separator, "a")),
					_ => format!("{text} zoi gy {filler}"),
				}
			}
			3 => gen::many(c, rng),
			2 => format!("{} {text}", "n ".repeat(rng.range(10, 200))),
			_ => text,
		};
		let text = match rng.below(6) {
			0 => format!("{text}\n"),
			1 => format!(" \n\t{text}\u{a0}\u{2003}"),
			2 => format!("\u{3000}{text} "),
			_ => text,
		};
		format!("{switches}\u{1f}{text}")
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let Some((switches, input)) = case.split_once('\u{1f}') else { return Ok(()) };
		let Ok(switches) = switches.parse::<usize>() else { return Ok(()) };
		let s = Switches::of(switches & 31);
		let Some(want) = expected(c, input, s) else {
			st.skip();
			return Ok(());
		};
		if s.verbose && words_cost(c, input.trim()) > 200_000 {
			st.skip();
			return Ok(());
		}
		let program = std::env::var_os("VERIF_CLI").expect("VERIF_CLI names the program");
		let mut child = Command::new(program)
			.args(s.args())
			.env_clear()
			.stdin(Stdio::piped())
			.stdout(Stdio::piped())
			.stderr(Stdio::piped())
			.spawn()
			.map_err(|e| format!("cannot start the program: {e}"))?;
		let mut stdin = child.stdin.take().unwrap();
		let mut stderr = child.stderr.take().unwrap();
		let input_bytes = input.as_bytes().to_vec();
		let (status, stdout, errors) = std::thread::scope(|scope| {
			scope.spawn(move || drop(stdin.write_all(&input_bytes)));
			let errors = scope.spawn(move || {
				let mut v = vec![];
				let _ = stderr.read_to_end(&mut v);
				v
			});
			let mut v = vec![];
			let _ = child.stdout.take().unwrap().read_to_end(&mut v);
			(child.wait().unwrap(), v, errors.join().unwrap())
		});
		let errors = String::from_utf8_lossy(&errors).into_owned();
		let shown = format!("with {:?}", s.args());
		if !status.success() {
			return Err(format!("{shown}, the program ended with {status}: {}", errors.chars().take(300).collect::<String>()));
		}
		let Ok(stdout) = String::from_utf8(stdout) else { return Err(format!("{shown}, the output is not UTF-8")) };
		let stdout = if s.verbose { without_log(&stdout) } else { stdout };
		let got: Vec<&str> = stdout.split_terminator('\n').collect();
		for (i, want) in want.iter().enumerate() {
			match got.get(i) {
				Some(line) if agrees(want, line) => {}
				other => return Err(format!("{shown}, line {i} of the output is\n  {other:?}\nexpected\n  {want:?}")),
			}
		}
		if got.len() > want.len() {
			return Err(format!("{shown}, the output goes on with {:?}", got[want.len()]));
		}
		st.count("programs run", 1);
		st.count("lines compared", got.len() as u64);
		st.seen("switch combinations", &switches.to_string());
		st.seen("outputs", &hash(stdout.as_bytes()).to_string());
		if got.iter().any(|l| l.len() > 20) {
			st.nontrivial();
		}
		Ok(())
	}
}
