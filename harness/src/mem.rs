//! A global allocator that counts, per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
	static LIVE: Cell<i64> = const { Cell::new(0) };
	static PEAK: Cell<i64> = const { Cell::new(0) };
	static TOTAL: Cell<u64> = const { Cell::new(0) };
	static BLOCKS: Cell<i64> = const { Cell::new(0) };
}

fn change(by: i64, blocks: i64) {
	let _ = LIVE.try_with(|l| {
		l.set(l.get() + by);
		let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
	});
	if by > 0 {
		let _ = TOTAL.try_with(|t| t.set(t.get() + by as u64));
	}
	let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
}

// SAFETY: forwards to the system allocator
unsafe impl GlobalAlloc for Counting {
	unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
		let p = System.alloc(layout);
		if !p.is_null() {
			change(layout.size() as i64, 1);
		}
		p
	}
	unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
		change(-(layout.size() as i64), -1);
		System.dealloc(p, layout);
	}
	unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
		let q = System.realloc(p, layout, size);
		if !q.is_null() {
			change(size as i64 - layout.size() as i64, 0);
		}
		q
	}
}

/// bytes and blocks held by this thread's allocations
pub fn live() -> (i64, i64) {
	(LIVE.with(Cell::get), BLOCKS.with(Cell::get))
}
/// bytes allocated so far by this thread
pub fn total() -> u64 {
	TOTAL.with(Cell::get)
}
pub fn reset_peak() {
	PEAK.with(|p| p.set(live().0));
}
pub fn peak() -> i64 {
	PEAK.with(Cell::get)
}
