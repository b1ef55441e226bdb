//! splitmix64-seeded xorshift: deterministic, dependency-free
#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
	z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
	z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
	z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
	z ^ (z >> 31)
}

pub fn hash(bytes: &[u8]) -> u64 {
	let mut h = 0xcbf2_9ce4_8422_2325u64;
	for &b in bytes {
		h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
	}
	mix(h)
}

impl Rng {
	pub fn new(seed: u64) -> Self {
		Self(mix(seed) | 1)
	}
	pub fn next(&mut self) -> u64 {
		let mut x = self.0;
		x ^= x << 13;
		x ^= x >> 7;
		x ^= x << 17;
		self.0 = x;
		mix(x)
	}
	pub fn below(&mut self, n: usize) -> usize {
		assert!(n > 0);
		(self.next() % n as u64) as usize
	}
	/// inclusive
	pub fn range(&mut self, lo: usize, hi: usize) -> usize {
		lo + self.below(hi - lo + 1)
	}
	pub fn chance(&mut self, percent: usize) -> bool {
		self.below(100) < percent
	}
	pub fn permille(&mut self, n: usize) -> bool {
		self.below(1000) < n
	}
	pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
		&items[self.below(items.len())]
	}
	pub fn weighted(&mut self, weights: &[u32]) -> usize {
		let total: u64 = weights.iter().map(|&w| u64::from(w)).sum();
		let mut x = self.next() % total.max(1);
		for (i, &w) in weights.iter().enumerate() {
			if x < u64::from(w) {
				return i;
			}
			x -= u64::from(w);
		}
		weights.len() - 1
	}
	/// geometric-ish length: mostly small, sometimes up to `max`
	pub fn small(&mut self, max: usize) -> usize {
		let m = self.below(max + 1);
		self.below(m + 1)
	}
}
