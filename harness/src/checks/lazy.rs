//! C20: lazy iteration with bounded look-ahead
use super::words::words_cost;
use crate::gen::{self, Ctx};
use crate::lexref::{self, Cursor};
use crate::rng::Rng;
use crate::run::{thread_cpu, Check, Plan, Stats};
use crate::{mem, trace};

pub struct Lazy;

const BIG: usize = 20 << 20;

#[derive(Debug, Clone, Copy, PartialEq)]
enum What {
	Words,
	Runs,
	Tokens,
}

/// take some items: (bytes allocated, rule events, CPU seconds, highest extra memory, digest)
fn take(text: &str, what: What, k: usize) -> (u64, u64, f64, i64, u64) {
	let events = trace::count();
	let bytes = mem::total();
	mem::reset_peak();
	let base = mem::live().0;
	let started = thread_cpu();
	let mut digest = 0u64;
	let mut note = |a: u32, b: u32| digest = digest.wrapping_mul(0x100_0193) ^ (u64::from(a) << 32 | u64::from(b));
	match what {
		What::Words => {
			let mut it = sneturfahi::decompose(text);
			for _ in 0..k {
				match it.next() {
					Some(s) => note(s.start, s.end),
					None => break,
				}
			}
		}
		What::Runs => {
			let mut it = sneturfahi::decompose(text);
			for _ in 0..k {
				match it.next_no_decomposition() {
					Some(s) => note(s.start, s.end),
					None => break,
				}
			}
		}
		What::Tokens => {
			let mut it = sneturfahi::lex(text);
			for _ in 0..k {
				match it.next() {
					Some(Ok(t)) => note(t.span.start, t.span.end),
					Some(Err(_)) => note(0, 0),
					None => break,
				}
			}
		}
	}
	let cpu = thread_cpu() - started;
	(mem::total() - bytes, trace::count() - events, cpu, mem::peak() - base, digest)
}

fn on_stack<T: Send>(size: usize, f: impl FnOnce() -> T + Send) -> T {
	std::thread::scope(|s| std::thread::Builder::new().stack_size(size).spawn_scoped(s, f).unwrap().join().unwrap())
}

const UNITS: [&str; 44] = [
	"n ", "ybu ", "uiui ", "ianai ", " ", ".", ",", " ,", ",, ", "\n", ". ", "a ", "mi ", "klama ", "lo ", "y ", "yyy ", "ui ", ".i ", "si ", "bu ", "zei ", "zo ", "zo zo ", "lo'u ", "le'u ", "me'oi x ", "me'oi ....", "zo'oi . x ",
	"zoi gy a gy ", "zoi gy gy ", "so'e'ai gy a gy b gy ", "la'o gy x y z gy ", "djan. ", "lojban ", "é ", "日本 ", "1 ", "pa ", "ba'e ", "to ", "lonu ", "jbobau ", "mi,do ",
];

fn parts(case: &str) -> Vec<&str> {
	case.split('\u{1f}').collect()
}

impl Check for Lazy {
	fn rule(&self) -> &'static str {
		"taking a few words, runs or tokens of a text followed by little or by 20 MB of further text: bytes allocated and rule events must be equal and the CPU time negligible; going through up to 160,000 repeated short runs and a sixteenth of them: peak memory must be equal and rule events and CPU time proportional; going through up to 300,000 runs, commas or separators, inside or outside quotations, on a 256 KB stack; non-trivial: every judged case"
	}
	fn plan(&self, thorough: bool) -> Plan {
		Plan { cases: if thorough { 6_000 } else { 60 }, workers: 8, cpu_limit: 60.0, stack: 256 << 20, wall: if thorough { 600 } else { 45 } }
	}
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, i: u64) -> String {
		let n = UNITS.len() as u64;
		let unit = UNITS[(i % n) as usize].to_string();
		let kind = if i < 3 * n { i / n } else { *rng.pick(&[0, 0, 0, 0, 1, 2]) };
		let unit = if i < 3 * n || rng.chance(50) {
			unit
		} else {
			match rng.below(3) {
				0 => format!("{} ", rng.pick(&c.cmavo)),
				1 => format!("{} ", rng.pick(&c.corpus_words)),
				_ => format!("{} ", gen::run(c, rng)),
			}
		};
		let prefix = match kind {
			0 => gen::text(c, rng),
			_ if rng.chance(30) => "zoi gy ".into(),
			_ if rng.chance(20) => "lo'u ".into(),
			_ => String::new(),
		};
		format!("{}\u{1f}{prefix}\u{1f}{unit}\u{1f}{}", ["k", "n", "s"][kind as usize], rng.below(7)).replace('\u{1e}', "")
	}
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
		let f = parts(case);
		let &[kind, prefix, unit, ref number] = &f[..] else { return Ok(()) };
		let number: usize = number.parse().unwrap_or(0);
		let unit_cost = words_cost(c, &unit.repeat(3)) / 3 + 10;
		if unit.is_empty() || unit_cost > 600_000 || words_cost(c, prefix) > 1_500_000 {
			st.skip();
			return Ok(());
		}
		match kind {
			"k" => {
				let prefix = format!("{prefix} ");
				let lexed = lexref::lex(&c.morph, &prefix);
				let mut cursor = Cursor::new(&prefix);
				let mut words = 0;
				while cursor.word(&c.morph).is_some() {
					words += 1;
				}
				let mut runs = 0;
				let mut cursor = Cursor::new(&prefix);
				while cursor.verbatim().is_some() {
					runs += 1;
				}
				let big = format!("{prefix}{}", unit.repeat(BIG / unit.len()));
				let small = &big[..prefix.len() + 8 * unit.len()];
				let tokens = if lexed.error.is_some() { 0 } else { lexed.tokens.len() };
				for (what, available) in [(What::Words, words), (What::Runs, runs - 1), (What::Tokens, tokens)] {
					for k in [0, 1, available.min(number + 1), available] {
						if k > available {
							continue;
						}
						// warm up whatever is initialised once
						take(small, what, k);
						trace::level(log::LevelFilter::Trace);
						let (bytes, events, _, _, digest) = take(small, what, k);
						let (big_bytes, big_events, mut cpu, _, big_digest) = take(&big, what, k);
						trace::level(log::LevelFilter::Off);
						if digest != big_digest {
							// which words there are is another property's business
							st.count("results differ", 1);
							continue;
						}
						if bytes != big_bytes && big_bytes > bytes + 4096 {
							return Err(format!("taking {k} {what:?} allocates {bytes} bytes, {big_bytes} when 20 MB follow"));
						}
						if big_events > events + events / 10 + 50 {
							return Err(format!("taking {k} {what:?} takes {events} rule messages, {big_events} when 20 MB follow"));
						}
						let small_cpu = take(small, what, k).2;
						let allowed = 0.0006 + 3.0 * small_cpu;
						for _ in 0..8 {
							if cpu <= allowed {
								break;
							}
							cpu = cpu.min(take(&big, what, k).2);
						}
						if cpu > allowed {
							return Err(format!("taking {k} {what:?} takes {:.1} ms of CPU time when 20 MB follow", cpu * 1e3));
						}
						st.max("CPU microseconds with 20 MB to follow", (cpu * 1e6) as u64);
						st.count("prefixes taken", 1);
						st.seen("texts taken", &format!("{what:?}{k}{prefix}"));
					}
				}
			}
			"n" => {
				let many = (40_000_000 / unit_cost as usize).clamp(640, 160_000);
				let few = many / 16;
				let (a, b) = (format!("{prefix}{}", unit.repeat(few)), format!("{prefix}{}", unit.repeat(many)));
				for what in [What::Words, What::Runs, What::Tokens] {
					// one comma-and-letter run that is never interrupted is a single long run
					if !unit.contains(|ch| crate::morph::is_separator(ch)) && unit != "," {
						continue;
					}
					// whatever is set up once
					take(&unit.repeat(3), what, 10);
					trace::level(log::LevelFilter::Trace);
					let (_, events_a, mut cpu_a, peak_a, _) = take(&a, what, usize::MAX);
					let (_, events_b, mut cpu_b, peak_b, _) = take(&b, what, usize::MAX);
					trace::level(log::LevelFilter::Off);
					if peak_b > peak_a + 512 {
						return Err(format!("{what:?} of {few} repetitions need {peak_a} bytes at once, of {many} repetitions {peak_b}"));
					}
					if events_b > events_a * 17 + 10_000 {
						return Err(format!("{what:?} of {few} repetitions take {events_a} rule messages, of {many} repetitions {events_b}"));
					}
					for _ in 0..4 {
						if cpu_b < 0.1 || cpu_b < 50.0 * cpu_a {
							break;
						}
						cpu_a = cpu_a.min(take(&a, what, usize::MAX).2);
						cpu_b = cpu_b.min(take(&b, what, usize::MAX).2);
					}
					if cpu_b > 0.1 && cpu_b > 50.0 * cpu_a {
						return Err(format!("{what:?} of {few} repetitions take {:.1} ms, of {many} repetitions {:.1} ms", cpu_a * 1e3, cpu_b * 1e3));
					}
					st.max("bytes held at once", peak_b.max(0) as u64);
					st.count("lengths compared", 1);
				}
			}
			_ => {
				let text = format!("{prefix}{}", unit.repeat((40_000_000 / unit_cost as usize).min(300_000)));
				let items = on_stack(256 << 10, || {
					let words = sneturfahi::decompose(&text).count();
					let tokens = sneturfahi::lex(&text).count();
					let mut it = sneturfahi::decompose(&text);
					let mut steps = 0usize;
					while it.next_no_decomposition().is_some() || it.next().is_some() {
						steps += 1;
					}
					words + tokens + steps
				});
				st.count("items on a small stack", items as u64);
				st.count("long texts on a small stack", 1);
			}
		}
		st.nontrivial();
		Ok(())
	}
	fn shrinkable(&self) -> bool {
		false
	}
}
