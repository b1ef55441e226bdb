use crate::run::Check;

pub mod cli;
pub mod lazy;
pub mod meta;
pub mod pure;
pub mod quotes;
pub mod spans;
pub mod total;
pub mod tracing;
pub mod trees;
pub mod words;

pub fn find(id: &str) -> Option<fn() -> Box<dyn Check>> {
	Some(match id {
		"C01" => || Box::new(total::Total::new()),
		"C02" => || Box::new(words::Cover),
		"C03" => || Box::new(words::Pauses),
		"C04" => || Box::new(words::Morphology),
		"C05" => || Box::new(words::Commas),
		"C06" => || Box::new(words::Interleave),
		"C07" => || Box::new(quotes::Stream),
		"C08" => || Box::new(quotes::Verbatim),
		"C09" => || Box::new(quotes::Errors),
		"C10" => || Box::new(words::Dictionary::default()),
		"C11" => || Box::new(trees::Tree::new(trees::Which::Leaves)),
		"C12" => || Box::new(trees::Tree::new(trees::Which::Summaries)),
		"C13" => || Box::new(trees::Tree::new(trees::Which::Structure)),
		"C14" => || Box::new(trees::Tree::new(trees::Which::Errors)),
		"C15" => || Box::new(meta::Indicators::new()),
		"C16" => || Box::new(meta::Compose::new()),
		"C17" => || Box::new(pure::Purity::new()),
		"C18" => || Box::new(pure::Memory::new()),
		"C19" => || Box::new(spans::Spans),
		"C20" => || Box::new(lazy::Lazy),
		"C21" => || Box::new(tracing::Tracing),
		"C22" => || Box::new(cli::Cli::new()),
		"C23" => || Box::new(meta::SpelledOut),
		"C24" => || Box::new(meta::Terminators::new()),
		_ => return None,
	})
}
