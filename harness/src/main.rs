mod checks;
mod focus;
mod gen;
mod lexref;
mod mem;
mod morph;
mod peg;
mod real;
mod rng;
mod run;
mod selmaho_list;
mod trace;
mod tree;

use std::path::Path;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
	let args: Vec<String> = std::env::args().skip(1).collect();
	let words: Vec<&str> = args.iter().map(String::as_str).collect();
	let find = |id: &str| checks::find(id).unwrap_or_else(|| panic!("no check called {id}"));
	let code = match words[..] {
		["run", id, tier] => run::run(id, find(id), tier == "thorough"),
		["worker", id, tier, index, dir] => run::worker(id, find(id), tier == "thorough", index.parse().unwrap(), Path::new(dir)),
		["zygote"] => checks::pure::zygote(),
		["mini", seed, file] => {
			checks::pure::mini(seed.parse().unwrap(), Path::new(file));
			0
		}
		["sample", n] => {
			let c = gen::Ctx::load();
			let mut rng = rng::Rng::new(std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1));
			let (mut ok, mut words) = (0, 0);
			let n: u64 = n.parse().unwrap();
			for _ in 0..n {
				let v = gen::around(&c, &mut rng);
				let toks = gen::parse_array(&c, &v.join(" ")).unwrap();
				let r = tree::reference(&c.grammar, &c.morph.repr, &toks);
				let fine = matches!(r.verdict, tree::Verdict::Accepted(_));
				ok += u64::from(fine);
				words += toks.len() as u64;
				println!("{} {} {:?}", v.join(" "), if fine { "" } else { "REJECTED" }, gen::shape_around(&c, &mut rng));
			}
			println!("{} rules, weights {:?}", c.grammar.rules.len(), c.grammar.rules.iter().zip(c.focus.weights()).map(|(r, w)| format!("{}:{w}", r.name)).collect::<Vec<_>>());
			println!("{ok} of {n} accepted, {words} tokens");
			0
		}
		["cost", text] => {
			let c = gen::Ctx::load();
			println!("split {} lex {} all {}", checks::words::split_cost(&c, text), checks::words::lex_cost(&c, text), checks::words::words_cost(&c, text));
			0
		}
		["probe", case] => {
			run::limit_resources(3 << 30);
			checks::total::probe(case);
			0
		}
		["replay", id, path] => run::replay(id, find(id), Path::new(path)),
		_ => {
			eprintln!("usage: harness run ID quick|thorough | replay ID FILE");
			2
		}
	};
	std::process::exit(code);
}
