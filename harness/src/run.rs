//! Runs a check: several worker processes, each judging generated cases one after another; the parent attributes
//! crashes and endless computations to the case being judged, and writes evidence and replay files.
use crate::gen::Ctx;
use crate::rng::{hash, mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::os::unix::fs::FileExt as _;
use std::os::unix::process::ExitStatusExt as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Default)]
pub struct Stats {
	pub evaluations: u64,
	pub skipped: u64,
	pub nontrivial: HashSet<u64>,
	pub samples: Vec<String>,
	pub counts: BTreeMap<String, u64>,
	pub sets: BTreeMap<String, HashSet<u64>>,
	current_nontrivial: bool,
	current_skipped: bool,
}

impl Stats {
	/// the case being judged satisfied the check's rule for a non-trivial case
	pub fn nontrivial(&mut self) {
		self.current_nontrivial = true;
	}
	/// the case does not apply (outside the property's preconditions)
	pub fn skip(&mut self) {
		self.current_skipped = true;
	}
	pub fn count(&mut self, key: &str, n: u64) {
		match self.counts.get_mut(key) {
			Some(v) => *v += n,
			None => drop(self.counts.insert(key.into(), n)),
		}
	}
	pub fn max(&mut self, key: &str, n: u64) {
		let key = format!("max {key}");
		let v = self.counts.entry(key).or_insert(0);
		*v = (*v).max(n);
	}
	/// distinct things seen
	pub fn seen(&mut self, key: &str, what: &str) {
		let h = hash(what.as_bytes());
		match self.sets.get_mut(key) {
			Some(s) => drop(s.insert(h)),
			None => drop(self.sets.insert(key.into(), HashSet::from([h]))),
		}
	}
}

pub struct Plan {
	/// cases per worker
	pub cases: u64,
	pub workers: usize,
	/// CPU seconds one case may take before it counts as not terminating
	pub cpu_limit: f64,
	pub stack: usize,
	/// wall-clock cap for generating
	pub wall: u64,
}

pub trait Check {
	fn rule(&self) -> &'static str;
	fn assumptions(&self) -> Vec<&'static str> {
		vec![]
	}
	fn plan(&self, thorough: bool) -> Plan;
	fn gen(&mut self, c: &Ctx, rng: &mut Rng, index: u64) -> String;
	fn judge(&mut self, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String>;
	/// called in each worker after the last case
	fn finish(&mut self, _c: &Ctx, _st: &mut Stats) -> Result<(), String> {
		Ok(())
	}
	/// whether failing cases may be shrunk by judging smaller ones
	fn shrinkable(&self) -> bool {
		true
	}
}

extern "C" {
	fn setrlimit(resource: i32, limits: *const [u64; 2]) -> i32;
	fn clock_gettime(clock: i32, ts: *mut [i64; 2]) -> i32;
}

pub fn limit_resources(address_space: u64) {
	// SAFETY: plain system calls with valid pointers
	unsafe {
		setrlimit(4, &[0, 0]); // no core files
		if std::env::var_os("VERIF_NO_LIMIT").is_none() && address_space > 0 {
			setrlimit(9, &[address_space, address_space]);
		}
	}
}

pub fn thread_cpu() -> f64 {
	let mut ts = [0i64; 2];
	// SAFETY: valid pointer
	unsafe { clock_gettime(3, &mut ts) };
	ts[0] as f64 + ts[1] as f64 * 1e-9
}

fn seed() -> u64 {
	std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

/// judge a case, turning panics into failures
fn guarded(check: &mut dyn Check, c: &Ctx, case: &str, st: &mut Stats) -> Result<(), String> {
	let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check.judge(c, case, st)));
	match result {
		Ok(r) => r,
		Err(_) => Err(LAST_PANIC.with(|p| format!("panicked: {}", p.borrow()))),
	}
}

thread_local! {
	pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
	std::panic::set_hook(Box::new(|info| {
		let text = info.to_string();
		let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
	}));
}

fn fields(case: &str) -> Vec<String> {
	case.split('\u{1f}').map(String::from).collect()
}

/// greedy shrinking: drop characters (or tokens of an `a:` field) while the case keeps failing
fn shrink(check: &mut dyn Check, c: &Ctx, case: &str, message: String) -> (String, String) {
	let started = Instant::now();
	let mut best = case.to_string();
	let mut why = message;
	let mut dummy = Stats::default();
	let mut progress = true;
	while progress && started.elapsed() < Duration::from_secs(8) {
		progress = false;
		for f in 0..fields(&best).len() {
			let mut size = usize::MAX;
			loop {
				let all = fields(&best);
				let array = all[f].starts_with("a:");
				let prefix = if all[f].get(1..2) == Some(":") { &all[f][..2] } else { "" }.to_string();
				let body = &all[f][prefix.len()..];
				let units: Vec<String> =
					if array { body.split_whitespace().map(String::from).collect() } else { body.chars().map(String::from).collect() };
				size = size.min(units.len());
				if size == 0 {
					break;
				}
				let mut at = 0;
				let mut current = units;
				while at < current.len() && started.elapsed() < Duration::from_secs(8) {
					let end = (at + size).min(current.len());
					let mut candidate = current.clone();
					candidate.drain(at..end);
					let mut parts = all.clone();
					parts[f] = format!("{prefix}{}", candidate.join(if array { " " } else { "" }));
					let text = parts.join("\u{1f}");
					if let Err(m) = guarded(check, c, &text, &mut dummy) {
						best = text;
						why = m;
						current = candidate;
						progress = true;
					} else {
						at += size;
					}
				}
				if size == 1 {
					break;
				}
				size /= 2;
			}
		}
	}
	(best, why)
}

struct Record(std::fs::File, u64);

impl Record {
	fn put(&mut self, case: &str) {
		self.1 += 1;
		let mut buffer = Vec::with_capacity(16 + case.len());
		buffer.extend(self.1.to_le_bytes());
		buffer.extend((case.len() as u64).to_le_bytes());
		buffer.extend(case.as_bytes());
		self.0.write_all_at(&buffer, 0).expect("record file");
	}
}

fn read_record(path: &Path) -> Option<(u64, String)> {
	let bytes = std::fs::read(path).ok()?;
	let n = u64::from_le_bytes(bytes.get(0..8)?.try_into().ok()?);
	let len = u64::from_le_bytes(bytes.get(8..16)?.try_into().ok()?) as usize;
	Some((n, String::from_utf8_lossy(bytes.get(16..16 + len)?).into_owned()))
}

/// in a worker process: exit 0 done, 1 violation (in `out`), 2 trouble
pub fn worker(id: &str, make: fn() -> Box<dyn Check>, thorough: bool, index: usize, dir: &Path) -> i32 {
	limit_resources(3 << 30);
	quiet_panics();
	let plan = make().plan(thorough);
	let id = id.to_string();
	let dir = dir.to_path_buf();
	let stack = plan.stack;
	let handle = std::thread::Builder::new()
		.stack_size(stack)
		.spawn(move || {
			let mut check = make();
			let c = Ctx::load();
			let mut rng = Rng::new(mix(seed()) ^ mix(hash(id.as_bytes())) ^ mix(index as u64 + 77));
			let mut st = Stats::default();
			let record = std::fs::File::create(dir.join(format!("record{index}"))).unwrap();
			let mut record = Record(record, 0);
			let started = Instant::now();
			let mut violation = None;
			for i in 0..plan.cases {
				if started.elapsed().as_secs() >= plan.wall {
					st.count("stopped by the wall-clock cap", 1);
					break;
				}
				let case = check.gen(&c, &mut rng, i * plan.workers as u64 + index as u64);
				record.put(&case);
				st.current_nontrivial = false;
				st.current_skipped = false;
				let result = guarded(&mut *check, &c, &case, &mut st);
				st.evaluations += 1;
				if st.current_skipped {
					st.skipped += 1;
				} else if st.current_nontrivial && st.nontrivial.insert(hash(case.as_bytes())) {
					if st.samples.len() < 4 || (st.samples.len() < 12 && rng.below(200) == 0) {
						st.samples.push(case.clone());
					}
				}
				if let Err(message) = result {
					violation = Some((case, message));
					break;
				}
			}
			if violation.is_none() {
				record.put("(after the last case)");
				let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| check.finish(&c, &mut st)));
				let result = result.unwrap_or_else(|_| Err(LAST_PANIC.with(|p| format!("panicked: {}", p.borrow()))));
				if let Err(message) = result {
					violation = Some(("(whole run)".into(), message));
				}
			} else if check.shrinkable() {
				let (case, message) = violation.take().unwrap();
				record.put(&case);
				violation = Some(shrink(&mut *check, &c, &case, message));
			}
			write_stats(&st, &dir.join(format!("stats{index}")));
			if let Some((case, message)) = violation {
				std::fs::write(dir.join(format!("violation{index}")), format!("{message}\u{1e}{case}")).unwrap();
				1
			} else {
				0
			}
		})
		.unwrap();
	match handle.join() {
		Ok(code) => code,
		Err(_) => {
			eprintln!("harness: {}", "worker thread panicked");
			2
		}
	}
}

fn write_stats(st: &Stats, path: &Path) {
	let mut out = Vec::new();
	let mut line = |kind: &str, key: &str, value: &str| {
		writeln!(out, "{kind}\u{1e}{key}\u{1e}{value}\u{1d}").unwrap();
	};
	line("n", "evaluations", &st.evaluations.to_string());
	line("n", "skipped", &st.skipped.to_string());
	for (k, v) in &st.counts {
		line("c", k, &v.to_string());
	}
	for s in &st.samples {
		line("s", "", s);
	}
	let list = |set: &HashSet<u64>| set.iter().map(|h| format!("{h:x}")).collect::<Vec<_>>().join(" ");
	line("h", "", &list(&st.nontrivial));
	for (k, v) in &st.sets {
		line("u", k, &list(v));
	}
	std::fs::write(path, out).unwrap();
}

fn read_stats(path: &Path, st: &mut Stats) {
	let Ok(text) = std::fs::read_to_string(path) else { return };
	for entry in text.split("\u{1d}\n") {
		let mut parts = entry.splitn(3, '\u{1e}');
		let (Some(kind), Some(key), Some(value)) = (parts.next(), parts.next(), parts.next()) else { continue };
		match kind {
			"n" if key == "evaluations" => st.evaluations += value.parse::<u64>().unwrap(),
			"n" => st.skipped += value.parse::<u64>().unwrap(),
			"c" if key.starts_with("max ") => {
				let v = st.counts.entry(key.into()).or_insert(0);
				*v = (*v).max(value.parse().unwrap());
			}
			"c" => st.count(key, value.parse().unwrap()),
			"s" => st.samples.push(value.into()),
			"h" => st.nontrivial.extend(value.split_whitespace().map(|h| u64::from_str_radix(h, 16).unwrap())),
			"u" => st
				.sets
				.entry(key.into())
				.or_default()
				.extend(value.split_whitespace().map(|h| u64::from_str_radix(h, 16).unwrap())),
			_ => {}
		}
	}
}

pub fn json_string(s: &str) -> String {
	let mut out = String::from("\"");
	for ch in s.chars() {
		match ch {
			'"' => out.push_str("\\\""),
			'\\' => out.push_str("\\\\"),
			'\n' => out.push_str("\\n"),
			c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(out, "\\u{:04x}", c as u32).unwrap(),
			c => out.push(c),
		}
	}
	out.push('"');
	out
}

fn cpu_of(pid: u32) -> f64 {
	let Ok(stat) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
	let rest = stat.rsplit(')').next().unwrap_or("");
	let f: Vec<&str> = rest.split_whitespace().collect();
	let get = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
	(get(11) + get(12)) / 100.0
}

pub fn verif_dir() -> PathBuf {
	PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn save_replay(id: &str, case: &str, message: &str) -> PathBuf {
	let dir = verif_dir().join("replay");
	let _ = std::fs::create_dir_all(&dir);
	let path = dir.join(format!("{id}-{:016x}.case", hash(case.as_bytes())));
	let _ = std::fs::write(&path, case);
	let _ = std::fs::write(path.with_extension("txt"), format!("{message}\n\ncase: {case:?}\n"));
	path
}

pub fn report(id: &str, case: &str, message: &str) {
	let path = save_replay(id, case, message);
	println!("case: {case:?}");
	println!("{message}");
	println!("VIOLATION property={id} replay={}", path.display());
}

/// parent process
pub fn run(id: &str, make: fn() -> Box<dyn Check>, thorough: bool) -> i32 {
	let started = Instant::now();
	let check = make();
	let plan = check.plan(thorough);
	let dir = std::env::temp_dir().join(format!("verif-{id}-{}", std::process::id()));
	std::fs::create_dir_all(&dir).unwrap();
	let exe = std::env::current_exe().unwrap();
	let tier = if thorough { "thorough" } else { "quick" };
	let mut children: Vec<_> = (0..plan.workers)
		.map(|i| {
			// some workers may run an instrumented build of the same harness
			let asan = std::env::var_os("VERIF_ASAN").filter(|_| i % 2 == 1);
			let mut command = Command::new(asan.as_ref().map_or(exe.clone(), PathBuf::from));
			if asan.is_some() {
				command.env("VERIF_IS_ASAN", "1").env("VERIF_NO_LIMIT", "1");
				command.env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1:quarantine_size_mb=64");
			}
			let child = command
				.args(["worker", id, tier, &i.to_string()])
				.arg(&dir)
				.stdin(Stdio::null())
				.stdout(Stdio::null())
				.stderr(std::fs::File::create(dir.join(format!("stderr{i}"))).unwrap())
				.spawn()
				.unwrap();
			(i, child, 0u64, 0.0f64)
		})
		.collect();
	// (message, case)
	let mut violations: Vec<(String, String)> = vec![];
	let mut trouble: Vec<String> = vec![];
	while !children.is_empty() {
		std::thread::sleep(Duration::from_millis(40));
		let mut left = vec![];
		for (i, mut child, mut last, mut since) in children {
			let record = dir.join(format!("record{i}"));
			if let Some(status) = child.try_wait().unwrap() {
				match (status.code(), status.signal()) {
					(Some(0), _) => {}
					(Some(1), _) => {
						let text = std::fs::read_to_string(dir.join(format!("violation{i}"))).unwrap_or_default();
						let (m, case) = text.split_once('\u{1e}').unwrap_or((&text, ""));
						violations.push((m.into(), case.into()));
					}
					(_, Some(signal)) if [4, 5, 6, 7, 8, 11].contains(&signal) => {
						let stderr = std::fs::read_to_string(dir.join(format!("stderr{i}"))).unwrap_or_default();
						let case = read_record(&record).map_or(String::new(), |r| r.1);
						let tail: String = stderr.trim().lines().take(6).collect::<Vec<_>>().join(" | ");
						violations.push((format!("the process was ended by signal {signal} while analysing this case: {tail}"), case));
					}
					(code, signal) => {
						let stderr = std::fs::read_to_string(dir.join(format!("stderr{i}"))).unwrap_or_default();
						trouble.push(format!("worker {i} ended with {code:?}/{signal:?}: {}", stderr.chars().take(600).collect::<String>()));
					}
				}
				continue;
			}
			let cpu = cpu_of(child.id());
			let n = std::fs::File::open(&record)
				.ok()
				.and_then(|f| {
					let mut b = [0; 8];
					f.read_exact_at(&mut b, 0).ok()?;
					Some(u64::from_le_bytes(b))
				})
				.unwrap_or(0);
			if n != last {
				last = n;
				since = cpu;
			} else if n > 0 && cpu - since > plan.cpu_limit {
				let case = read_record(&record).map_or(String::new(), |r| r.1);
				let _ = child.kill();
				let _ = child.wait();
				if case == "(after the last case)" {
					trouble.push("finishing took too long".into());
				} else {
					violations.push((format!("still running after more than {} s of CPU time on this one case", plan.cpu_limit), case));
				}
				continue;
			}
			left.push((i, child, last, since));
		}
		children = left;
	}
	match known_findings(id) {
		Ok(lines) => lines.iter().for_each(|l| println!("{l}")),
		Err((message, input)) => violations.push((message, format!("t:{input}"))),
	}
	let mut st = Stats::default();
	for i in 0..plan.workers {
		read_stats(&dir.join(format!("stats{i}")), &mut st);
	}
	let _ = std::fs::remove_dir_all(&dir);
	// what a run under an interpreter before this one covered
	if let Some((key, n)) = std::env::var("VERIF_EXTRA").ok().as_deref().and_then(|x| x.split_once('=')) {
		st.count(key, n.parse().unwrap_or(0));
	}
	if st.evaluations < plan.cases / 10 && violations.is_empty() && trouble.is_empty() {
		trouble.push("almost nothing was evaluated".into());
	}
	if st.nontrivial.len() < 20.min(plan.cases as usize) && violations.is_empty() && trouble.is_empty() {
		trouble.push("almost no case was non-trivial".into());
	}
	evidence(id, tier, &st, &*check, started.elapsed().as_secs_f64(), violations.len());
	if let Some((message, case)) = violations.iter().min_by_key(|(_, case)| case.len()) {
		report(id, case, message);
		return 1;
	}
	if !trouble.is_empty() {
		eprintln!("{id}: inconclusive: {}", trouble.join("; "));
		return 2;
	}
	println!(
		"{id}: held on {} cases ({} distinct and non-trivial) in {:.1} s",
		st.evaluations,
		st.nontrivial.len(),
		started.elapsed().as_secs_f64()
	);
	0
}

/// probe the inputs listed as known findings (inputs that take too long) in processes of their own
fn known_findings(id: &str) -> Result<Vec<String>, (String, String)> {
	let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
	let exe = std::env::current_exe().unwrap();
	let mut children = vec![];
	for line in text.lines() {
		let Some(rest) = line.strip_prefix(&format!("known: property={id} input=")) else { continue };
		let Some((input, what)) = rest.split_once(" what=") else { continue };
		let child = Command::new(&exe).args(["probe", &format!("t:{input}")]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
		children.push((input.to_string(), what.to_string(), child));
	}
	let mut lines = vec![];
	for (input, what, mut child) in children {
		loop {
			if let Some(status) = child.try_wait().unwrap() {
				if !status.success() {
					return Err((format!("analysing this input ends with {status}"), input));
				}
				break;
			}
			if cpu_of(child.id()) > 4.0 {
				let _ = child.kill();
				let _ = child.wait();
				lines.push(format!("KNOWN-FINDING: property={id} {input}: {what}"));
				break;
			}
			std::thread::sleep(Duration::from_millis(30));
		}
	}
	Ok(lines)
}

pub fn evidence(id: &str, tier: &str, st: &Stats, check: &dyn Check, wall: f64, violations: usize) {
	let mut samples: Vec<String> = st.samples.clone();
	samples.sort_by_key(|s| hash(s.as_bytes()));
	samples.truncate(20);
	let samples = samples
		.iter()
		.map(|s| {
			let short: String = s.chars().take(400).collect();
			json_string(&short)
		})
		.collect::<Vec<_>>()
		.join(", ");
	let mut extra = String::new();
	for (k, v) in &st.counts {
		write!(extra, ", {}: {v}", json_string(k)).unwrap();
	}
	for (k, v) in &st.sets {
		write!(extra, ", {}: {}", json_string(&format!("distinct {k}")), v.len()).unwrap();
	}
	let assumptions = check.assumptions().iter().map(|a| json_string(a)).collect::<Vec<_>>().join(", ");
	let text = format!(
		"{{\n  \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n  \"coverage\": {{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"skipped (outside the precondition or too costly)\": {}, \"rule\": {}, \"samples\": [{samples}]{extra}}},\n  \"assumptions\": [{assumptions}],\n  \"wall_s\": {wall:.2}, \"violations\": {violations}\n}}\n",
		json_string(id), json_string(tier), seed(), st.evaluations, st.nontrivial.len(), st.skipped, json_string(check.rule())
	);
	let dir = verif_dir().join("evidence");
	let _ = std::fs::create_dir_all(&dir);
	std::fs::write(dir.join(format!("{id}.json")), text).expect("evidence file");
}

/// judge one saved case
pub fn replay(id: &str, make: fn() -> Box<dyn Check>, path: &Path) -> i32 {
	limit_resources(3 << 30);
	quiet_panics();
	let case = std::fs::read_to_string(path).expect("replay file");
	let stack = make().plan(false).stack;
	let id = id.to_string();
	let path = path.display().to_string();
	std::thread::Builder::new()
		.stack_size(stack)
		.spawn(move || {
			let mut check = make();
			let c = Ctx::load();
			let mut st = Stats::default();
			match guarded(&mut *check, &c, &case, &mut st) {
				Ok(()) => {
					println!("{id}: the case passes");
					0
				}
				Err(m) => {
					println!("case: {case:?}\n{m}\nVIOLATION property={id} replay={path}");
					1
				}
			}
		})
		.unwrap()
		.join()
		.unwrap_or(2)
}
