//! C19: span arithmetic and slicing
use crate::gen::Ctx;
use crate::gen;
use crate::rng::Rng;
use crate::run::{Check, Plan, Stats};
use sneturfahi::Span;

pub struct Spans;

const MAX: u64 = u32::MAX as u64;
const EXTREME: [u64; 14] = [0, 1, 2, 3, 127, 128, 65_535, 65_536, (1 << 31) - 1, 1 << 31, MAX - 3, MAX - 2, MAX - 1, MAX];

fn span(a: u64, b: u64) -> Span {
	Span { start: a as u32, end: b as u32 }
}

fn one(a: u64, b: u64) -> Result<(), String> {
	let s = span(a, b);
	if u64::from(s.len()) != b - a || s.is_empty() != (a == b) {
		return Err(format!("{a}..{b}: len {} is_empty {}", s.len(), s.is_empty()));
	}
	if Span::new(a as u32, b as u32) != s || Span::at(a as u32, (b - a) as u32) != s {
		return Err(format!("{a}..{b}: new or at give another span"));
	}
	if format!("{s:?}") != format!("{a}..{b}") {
		return Err(format!("{a}..{b} prints as {s:?}"));
	}
	let mut places = EXTREME.to_vec();
	places.extend([a, b, a.saturating_sub(1), b.saturating_sub(1), (a + 1).min(MAX), (b + 1).min(MAX), (a + b) / 2]);
	for x in places {
		if s.contains(x as u32) != (a <= x && x < b) {
			return Err(format!("{a}..{b} contains {x}: {}", s.contains(x as u32)));
		}
	}
	Ok(())
}

fn two(a: u64, b: u64, x: u64, y: u64) -> Result<(), String> {
	let (s, t) = (span(a, b), span(x, y));
	let want = if a == b {
		// an empty span lies inside another one only if that one extends to both sides of it
		x < a && a < y
	} else if x == y {
		a < x && x < b
	} else {
		a.max(x) < b.min(y)
	};
	if s.overlaps_with(t) != want || t.overlaps_with(s) != want {
		return Err(format!("{a}..{b} overlaps {x}..{y}: {} and conversely {}, expected {want}", s.overlaps_with(t), t.overlaps_with(s)));
	}
	let gap = (b < x).then(|| span(b, x));
	if Span::between(s, t) != gap {
		return Err(format!("between {a}..{b} and {x}..{y}: {:?}, expected {gap:?}", Span::between(s, t)));
	}
	if (s == t) != ((a, b) == (x, y)) {
		return Err(format!("{a}..{b} == {x}..{y}: {}", s == t));
	}
	Ok(())
}

fn slicing(text: &str, a: u64, b: u64, st: &mut Stats) -> Result<(), String> {
	let s = span(a, b);
	let bytes = text.as_bytes();
	let boundary = |x: u64| x <= bytes.len() as u64 && (x == bytes.len() as u64 || bytes[x as usize] & 0xc0 != 0x80);
	let (before, middle, after) = (s.slice_before(text), s.slice(text), s.slice_after(text));
	if boundary(a) && boundary(b) {
		let (Some(p), Some(m), Some(q)) = (before, middle, after) else {
			return Err(format!("{a}..{b} fits {text:?} but gives {before:?} {middle:?} {after:?}"));
		};
		if format!("{p}{m}{q}") != text || p.len() as u64 != a || m.len() as u64 != b - a {
			return Err(format!("{a}..{b} cuts {text:?} into {p:?} {m:?} {q:?}"));
		}
		if Span::from_embedded_slice(text.as_ptr(), m) != s {
			return Err(format!("the span of {m:?} in {text:?} is {:?}, not {a}..{b}", Span::from_embedded_slice(text.as_ptr(), m)));
		}
		st.count("texts cut", 1);
	} else {
		let piece = |fits: bool, lo: u64, hi: u64| fits.then(|| std::str::from_utf8(&bytes[lo as usize..hi as usize]).unwrap());
		if middle.is_some() || before != piece(boundary(a), 0, a) || after != piece(boundary(b), b, bytes.len() as u64) {
			return Err(format!("{a}..{b} does not fit {text:?} but gives {before:?} {middle:?} {after:?}"));
		}
		st.count("misfits", 1);
	}
	let all = Span::entire_slice(text);
	if all != span(0, text.len() as u64) || all.slice(text) != Some(text) {
		return Err(format!("the span of all of {text:?} is {all:?}"));
	}
	Ok(())
}

impl Check for Spans {
	fn rule(&self) -> &'static str {
		"all pairs of spans over small positions at the bottom, the middle and the top of the range, pairs over extreme positions, random pairs, and random texts cut by random spans; each operation is compared with sets of byte positions; non-trivial: every distinct case"
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 2_000_000 } else { 120_000 }, workers: 8, cpu_limit: 20.0, stack: 64 << 20, wall: if thorough { 300 } else { 30 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		// all quadruples over 7 positions at three places of the range
		let n = 7u64.pow(4);
		if i < 3 * n {
			let base = [0, (1 << 31) - 3, MAX - 6][(i / n) as usize];
			let k = i % n;
			return format!("p:{} {} {} {}", base + k % 7, base + k / 7 % 7, base + k / 49 % 7, base + k / 343);
		}
		if i % 3 == 0 {
			let text = match rng.below(3) {
				0 => gen::garbage(rng, 12),
				1 => "añ日😀,b".chars().filter(|_| rng.chance(70)).collect(),
				_ => gen::text(c, rng),
			};
			let text = text.replace('\u{1f}', "");
			let n = text.len() as u64;
			let mut at = || match rng.below(8) {
				0 => *rng.pick(&EXTREME),
				1 => n,
				2 => n + 1,
				_ => rng.below(n as usize + 1) as u64,
			};
			return format!("s:{} {}\u{1f}{text}", at(), at());
		}
		let mut at = || match rng.below(3) {
			0 => *rng.pick(&EXTREME),
			1 => rng.next() & MAX,
			_ => rng.below(12) as u64 + [0, MAX - 12][rng.below(2)],
		};
		format!("p:{} {} {} {}", at(), at(), at(), at())
	}
	fn judge(&mut self, _: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let (head, text) = case.split_once('\u{1f}').unwrap_or((case, ""));
		let numbers: Vec<u64> = head[2.min(head.len())..].split(' ').filter_map(|x| x.parse().ok()).collect();
		if numbers.iter().any(|&x| x > MAX) {
			return Ok(());
		}
		match (&head[..2.min(head.len())], &numbers[..]) {
			("p:", &[a, b, x, y]) => {
				let (a, b) = (a.min(b), a.max(b));
				let (x, y) = (x.min(y), x.max(y));
				one(a, b)?;
				two(a, b, x, y)?;
				two(a, b, b, y.max(b))?;
				two(a, b, a, b)?;
				st.count("pairs of spans", 3);
			}
			("s:", &[a, b]) => slicing(text, a.min(b), a.max(b), st)?,
			_ => return Ok(()),
		}
		st.nontrivial();
		Ok(())
	}
	fn shrinkable(&self) -> bool {
		false
	}
}
