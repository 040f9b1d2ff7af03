//! Non-deterministic choice, assumptions and checks: one source for both readings of a contract
//! harness.  Under Kani the choices are symbolic and the checks are proof obligations.  Natively
//! they are drawn from a seeded generator (search for a failing input) or from recorded values
//! (replay of a counterexample), and a failing check unwinds with `CheckFail`.

#[cfg(kani)]
mod imp {
	pub trait Nd: kani::Arbitrary {}
	impl<T: kani::Arbitrary> Nd for T {}
	#[inline(always)]
	pub fn any<T: Nd>() -> T {
		kani::any()
	}
	#[inline(always)]
	pub fn assume(c: bool) {
		kani::assume(c)
	}
	/// Any value in `lo..=hi`
	#[inline(always)]
	pub fn range(lo: usize, hi: usize) -> usize {
		let x: usize = kani::any();
		kani::assume(x >= lo && x <= hi);
		x
	}
	pub const NATIVE: bool = false;
}

#[cfg(not(kani))]
mod imp {
	use std::cell::RefCell;

	pub struct Reject;
	pub struct CheckFail(pub &'static str);

	pub enum Source {
		Seed(u64),
		Replay(Vec<Vec<u8>>, usize),
	}

	thread_local! {
		pub static SRC: RefCell<Source> = RefCell::new(Source::Seed(1));
		/// Choices made; the runner reserves the space, so that recording never allocates
		pub static DRAWS: RefCell<Vec<(usize, [u8; 16])>> = RefCell::new(Vec::new());
	}

	fn next(s: &mut u64) -> u64 {
		*s = s.wrapping_add(0x9E3779B97F4A7C15);
		let mut z = *s;
		z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
		z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
		z ^ (z >> 31)
	}

	/// Draws `n` bytes; `gen` makes a value when searching
	pub fn draw(n: usize, gen: impl FnOnce(&mut dyn FnMut() -> u64) -> u128) -> u128 {
		SRC.with(|s| {
			let v: u128 = match &mut *s.borrow_mut() {
				Source::Seed(st) => gen(&mut || next(st)),
				Source::Replay(vals, i) => {
					let mut b = [0u8; 16];
					if let Some(v) = vals.get(*i) {
						for (d, x) in b.iter_mut().zip(v.iter()) {
							*d = *x;
						}
					}
					*i += 1;
					u128::from_le_bytes(b)
				}
			};
			let mask = if n >= 16 { u128::MAX } else { (1u128 << (n * 8)) - 1 };
			let v = v & mask;
			DRAWS.with(|d| {
				let mut d = d.borrow_mut();
				if d.len() < d.capacity() {
					d.push((n, v.to_le_bytes()));
				}
			});
			v
		})
	}

	/// Interesting integers: small ones, powers of two and their neighbours, uniform ones
	pub fn interesting(bits: u32, r: &mut dyn FnMut() -> u64) -> u128 {
		let k = r();
		match k % 8 {
			0 | 1 => (r() % 17) as u128,
			2 => (r() % 300) as u128,
			3 => 1u128 << (r() % bits as u64),
			4 => (1u128 << (r() % bits as u64)).wrapping_sub(1 + (r() % 16) as u128),
			5 => (1u128 << (r() % bits as u64)).wrapping_add((r() % 16) as u128),
			6 => u128::MAX - (r() % 40) as u128,
			_ => (r() as u128) << 64 | r() as u128,
		}
	}

	pub trait Nd {
		fn draw() -> Self;
	}
	macro_rules! nd_int {
		($($t:ty),*) => {$(
			impl Nd for $t {
				fn draw() -> Self {
					draw(std::mem::size_of::<$t>(), |r| interesting(<$t>::BITS, r)) as $t
				}
			}
		)*};
	}
	nd_int!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
	impl Nd for bool {
		fn draw() -> Self {
			draw(1, |r| (r() & 1) as u128) & 1 == 1
		}
	}

	pub fn any<T: Nd>() -> T {
		T::draw()
	}
	pub fn assume(c: bool) {
		if !c {
			std::panic::panic_any(Reject)
		}
	}
	pub fn range(lo: usize, hi: usize) -> usize {
		let x = draw(8, |r| {
			let w = (hi - lo) as u64;
			let o = match r() % 4 {
				0 => (r() % 5).min(w),
				1 => w - (r() % 5).min(w),
				2 if w != u64::MAX => (interesting(64, r) % (w as u128 + 1)) as u64,
				_ => {
					if w == u64::MAX {
						r()
					} else {
						r() % (w + 1)
					}
				}
			};
			(lo as u64 + o) as u128
		}) as usize;
		assume(x >= lo && x <= hi);
		x
	}
	pub const NATIVE: bool = true;
}

pub use imp::*;

/// A contract obligation
#[macro_export]
macro_rules! check {
	($c:expr, $l:literal) => {{
		let c: bool = $c;
		#[cfg(kani)]
		kani::assert(c, concat!("CHECK: ", $l));
		#[cfg(not(kani))]
		if !c {
			std::panic::panic_any($crate::nd::CheckFail($l));
		}
	}};
}

/// Non-vacuity: the point must be reachable (Kani); counted natively
#[macro_export]
macro_rules! reached {
	($c:expr, $l:literal) => {{
		#[cfg(kani)]
		kani::cover($c, concat!("REACH: ", $l));
		#[cfg(not(kani))]
		{
			let _ = &$c;
		}
	}};
	() => {
		$crate::reached!(true, "end of harness")
	};
}

/// Evaluating the expression must panic, whether or not debug assertions are enabled
#[macro_export]
macro_rules! must_panic {
	($e:expr, $l:literal) => {{
		#[cfg(kani)]
		{
			let _r = $e;
			kani::cover(true, concat!("NOPANIC: ", $l));
			kani::assume(false);
		}
		#[cfg(not(kani))]
		{
			let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
				let _r = $e;
			}));
			if r.is_ok() {
				std::panic::panic_any($crate::nd::CheckFail($l));
			}
		}
	}};
}

/// `a` on the symbolic reading, `b` on the native one, and when a counterexample is asked for
/// (feature `small`) that can be replayed natively
pub const fn sel(symbolic: usize, native: usize) -> usize {
	if NATIVE || cfg!(feature = "small") {
		native
	} else {
		symbolic
	}
}
