//! A logger that captures or counts the rule messages of the current thread.
use std::cell::{Cell, RefCell};
use std::sync::Once;

struct Logger;

thread_local! {
	static CAPTURED: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
	static COUNT: Cell<u64> = const { Cell::new(0) };
}

impl log::Log for Logger {
	fn enabled(&self, _: &log::Metadata<'_>) -> bool {
		true
	}
	fn log(&self, record: &log::Record<'_>) {
		let _ = COUNT.try_with(|c| c.set(c.get() + 1));
		let _ = CAPTURED.try_with(|c| {
			if let Some(lines) = &mut *c.borrow_mut() {
				lines.push(record.args().to_string());
			}
		});
	}
	fn flush(&self) {}
}

pub fn install() {
	static ONCE: Once = Once::new();
	ONCE.call_once(|| log::set_logger(&Logger).expect("the logger is installed once"));
}

pub fn level(level: log::LevelFilter) {
	install();
	log::set_max_level(level);
}

/// messages this thread has logged so far
pub fn count() -> u64 {
	COUNT.with(Cell::get)
}

pub fn capture<T>(f: impl FnOnce() -> T) -> (T, Vec<String>) {
	CAPTURED.with(|c| *c.borrow_mut() = Some(vec![]));
	let result = f();
	let lines = CAPTURED.with(|c| c.borrow_mut().take()).unwrap_or_default();
	(result, lines)
}
