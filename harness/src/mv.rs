//! A storage with real memory that moves among three buffers at will: it may stay put, grow early,
//! move on, or move back to an earlier address at any reservation.
use crate::abs::*;
use crate::base::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::pos::*;
use ser_raw::ser_traits::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::{align_of, size_of, ManuallyDrop};

#[derive(Clone, Copy)]
#[repr(C, align(16))]
pub struct Buf<const N: usize>(pub [u8; N]);

/// Natively the second buffer is far from the others, by more than 32 bits can tell
#[cfg(not(kani))]
mod far {
	use std::alloc::{GlobalAlloc, Layout, System};
	const SLOT: usize = 1 << 16;
	static mut BASE: *mut u8 = std::ptr::null_mut();
	static mut USED: u16 = 0;
	pub fn take(size: usize) -> Option<*mut u8> {
		unsafe {
			if BASE.is_null() {
				BASE = System.alloc_zeroed(Layout::from_size_align_unchecked(16 * SLOT, 4096));
			}
			let k = USED.trailing_ones() as usize;
			if k >= 16 || size > SLOT {
				return None;
			}
			USED |= 1 << k;
			Some(BASE.add(k * SLOT))
		}
	}
	/// Was `p` one of these?
	pub fn give(p: *mut u8) -> bool {
		unsafe {
			let k = (p as usize).wrapping_sub(BASE as usize) / SLOT;
			if BASE.is_null() || k >= 16 {
				return false;
			}
			USED &= !(1 << k);
			true
		}
	}
}

/// How a `Move` moves: for each reservation, the buffer it is in afterwards
#[derive(Clone, Copy)]
pub enum Plan {
	/// Anywhere, at every reservation
	Any,
	/// These, then nowhere
	Fixed([u8; 6]),
	/// Anywhere, once in about so many times
	Rare(usize),
}

impl Plan {
	/// Natively: moving all the time, now and then, or hardly ever
	pub fn drawn() -> Plan {
		match range(0, 3) {
			0 | 1 => Plan::Any,
			2 => Plan::Rare(range(1, 8)),
			_ => Plan::Rare(range(16, 400)),
		}
	}
}

pub struct Move<const N: usize> {
	bufs: [*mut Buf<N>; 3],
	at: usize,
	cap: usize,
	pos: usize,
	plan: Plan,
	step: usize,
}

impl<const N: usize> Move<N> {
	pub fn start(pos: usize, plan: Plan) -> Self {
		let mk = |k: usize, fill: u8| {
			let mut b = Box::new(Buf([fill; N]));
			if NATIVE {
				for i in 0..N {
					b.0[i] = (i * 7 + k * 91) as u8;
				}
			}
			#[cfg(not(kani))]
			if k == 1 {
				if let Some(p) = far::take(N) {
					let p = p as *mut Buf<N>;
					unsafe { *p = *b };
					return p;
				}
			}
			Box::into_raw(b)
		};
		let bufs = [mk(0, 0x11), mk(1, 0x22), mk(2, 0x33)];
		Move { bufs, at: 0, cap: up(pos, MVA), pos, plan, step: 0 }
	}
	fn go(&mut self, to: usize) {
		if to != self.at {
			unsafe {
				*self.bufs[to] = *self.bufs[self.at];
				// whatever still uses the old buffer is wrong
				*self.bufs[self.at] = Buf([0xEE; N]);
			}
			self.at = to;
		}
	}
	pub fn relocate(&mut self) {
		let to = match self.plan {
			Plan::Any => range(0, 2),
			Plan::Rare(k) if range(0, k) == 0 => range(0, 2),
			Plan::Fixed(p) if self.step < p.len() => p[self.step] as usize % 3,
			_ => self.at,
		};
		self.step += 1;
		if NATIVE {
			self.go(to)
		} else if to == 0 {
			self.go(0)
		} else if to == 1 {
			self.go(1)
		} else {
			self.go(2)
		}
	}
	pub fn base(&self) -> usize {
		self.as_ptr() as usize
	}
	pub fn byte(&self, i: usize) -> u8 {
		unsafe { *self.as_ptr().add(i) }
	}
	pub fn word(&self, i: usize) -> usize {
		check!(i <= N - 8, "word is inside the output");
		unsafe { (self.as_ptr().add(i) as *const usize).read_unaligned() }
	}
}

#[cfg(not(kani))]
impl<const N: usize> Drop for Move<N> {
	fn drop(&mut self) {
		for b in self.bufs {
			if !far::give(b as *mut u8) {
				unsafe { drop(Box::from_raw(b)) }
			}
		}
	}
}

impl<const N: usize> Storage for Move<N> {
	const STORAGE_ALIGNMENT: usize = MVA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = N;
	fn new() -> Self {
		Self::start(0, Plan::Any)
	}
	unsafe fn with_capacity_unchecked(_: usize) -> Self {
		Self::start(0, Plan::Any)
	}
	fn capacity(&self) -> usize {
		self.cap
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, p: usize) {
		check!(p <= self.cap && mult(p, VA), "position set is aligned and inside the capacity");
		self.pos = p;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		check!(size == size_of::<T>() * slice.len(), "size given is the slice's");
		check!(self.pos <= self.cap && size <= self.cap - self.pos, "push fits the capacity");
		check!(mult(self.pos, align_of::<T>()), "position is aligned for the value pushed");
		let pos = self.pos;
		std::ptr::copy_nonoverlapping(slice.as_ptr() as *const u8, self.as_mut_ptr().add(pos), size);
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		assume(additional <= N - self.pos);
		let need = up(self.pos + additional, MVA);
		if need > self.cap {
			self.cap = if NATIVE && any() { N } else { need };
		}
		self.relocate();
	}
	fn shrink_to_fit(&mut self) {
		unsupported()
	}
}
impl<const N: usize> RandomAccessStorage for Move<N> {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let size = size_of::<T>() * slice.len();
		check!(pos <= self.cap && size <= self.cap - pos, "write is inside the capacity");
		check!(mult(pos, align_of::<T>()), "position written is aligned for the value");
		std::ptr::copy_nonoverlapping(slice.as_ptr() as *const u8, self.as_mut_ptr().add(pos), size);
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		check!(pos + size_of::<T>() <= self.pos && mult(pos, align_of::<T>()), "read is inside what was stored");
		&*(self.as_ptr().add(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		check!(pos + size_of::<T>() <= self.pos && mult(pos, align_of::<T>()), "read is inside what was stored");
		&mut *(self.as_mut_ptr().add(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		self.as_ptr().add(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		self.as_mut_ptr().add(pos)
	}
}
impl<const N: usize> ContiguousStorage for Move<N> {
	fn as_ptr(&self) -> *const u8 {
		self.bufs[self.at] as *const u8
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.bufs[self.at] as *mut u8
	}
}

/// `n` pointers written to words of a value already copied, the storage moving before each and
/// before finalizing: in the end each holds its target's address, and nothing else changed.
pub fn finalized<const N: usize, const K: usize>(plan: Plan, n: usize, skip: usize, via_slice: bool) {
	let mut s = Move::<N>::start(8 * (n + 1), plan);
	let orig = unsafe { *s.bufs[0] };
	let owner: [usize; K] = [0; K];
	let mut m = DComplete::over(s);
	m.map(&owner as *const _ as usize, 0);
	let mut targets = [0usize; K];
	let data: [u16; 3] = [any(), any(), any()];
	let mut i = 0;
	while i <= n {
		if i != skip {
			let a = TrackingAddr::from_ref(&owner[i]);
			targets[i] = if via_slice { m.push_slice(&data[..], a) } else { m.push(&data[0], a) };
		}
		i += 1;
	}
	m.storage_mut().relocate();
	let len = m.pos();
	let s = m.finalize();
	check!(s.pos() == len, "finalizing does not move the position");
	let mut i = 0;
	while i <= n {
		if i == skip {
			check!(
				s.word(8 * i) == unsafe { *(orig.0.as_ptr().add(8 * i) as *const usize) },
				"a word holding no recorded pointer is unchanged"
			);
		} else {
			check!(s.word(8 * i) == s.base() + targets[i], "pointer leads to its target in the buffer returned");
			let d = unsafe { *(s.as_ptr().add(targets[i]) as *const u16) };
			check!(d == data[0], "data is as it was pushed");
		}
		i += 1;
	}
}

/// `PtrGroup::correct_ptrs`: exactly the recorded words are shifted, by the difference of addresses
pub fn corrects<const N: usize>(n: usize) {
	let buf: Buf<N> = Buf(any_bytes());
	let mut now = buf;
	let old: usize = any();
	let mut g = PtrGroup::new(old);
	let mut at = [0usize; 8];
	let mut i = 0;
	while i < n {
		at[i] = range(0, N / 8 - 1) * 8;
		let mut j = 0;
		while j < i {
			assume(at[j] != at[i]);
			j += 1;
		}
		g.push_pos(at[i]);
		i += 1;
	}
	check!(g.is_empty() == (n == 0) && g.addr() == old, "group records its address and pointers");
	let new = &mut now as *mut Buf<N> as *mut u8;
	unsafe { g.correct_ptrs(new) };
	let k = range(0, N / 8 - 1) * 8;
	let was = unsafe { *(buf.0.as_ptr().add(k) as *const usize) };
	let is = unsafe { *(now.0.as_ptr().add(k) as *const usize) };
	let mut rec = false;
	let mut i = 0;
	while i < n {
		rec |= at[i] == k;
		i += 1;
	}
	if rec {
		check!(is == was.wrapping_add((new as usize).wrapping_sub(old)), "recorded pointer is shifted by the move");
	} else {
		check!(is == was, "a word that is not a recorded pointer is unchanged");
	}
	reached!(rec || n == 0, "a recorded pointer is the one looked at");
	done(g);
}

/// The same with many pointers
#[cfg(not(kani))]
pub fn corrects_many() {
	const N: usize = 16384;
	const W: usize = N / 8;
	let buf: Buf<N> = Buf(any_bytes());
	let mut now = buf;
	let old: usize = any();
	let mut g = PtrGroup::new(old);
	let n = [1, 16, 64, 256, 1024][range(0, 4)] * range(1, 2) - range(0, 2).min(1) + range(0, 1);
	let (from, stride) = (range(0, W - 1), range(0, W / 2 - 1) * 2 + 1);
	let mut rec = [false; W];
	for i in 0..n.min(W) {
		let w = (from + i * stride) % W;
		rec[w] = true;
		g.push_pos(w * 8);
	}
	let new = &mut now as *mut Buf<N> as *mut u8;
	unsafe { g.correct_ptrs(new) };
	let word = |b: &Buf<N>, k: usize| unsafe { *(b.0.as_ptr().add(k * 8) as *const usize) };
	for k in 0..W {
		let shift = if rec[k] { (new as usize).wrapping_sub(old) } else { 0 };
		check!(word(&now, k) == word(&buf, k).wrapping_add(shift), "exactly the recorded pointers are shifted by the move");
	}
}

#[cfg(kani)]
fn any_bytes<const N: usize>() -> [u8; N] {
	kani::any()
}
#[cfg(not(kani))]
fn any_bytes<const N: usize>() -> [u8; N] {
	let s: u64 = any();
	std::array::from_fn(|i| (s.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i as u64 * 0x1234567) >> 24) as u8)
}

/// What a derived serializer over a moving storage returns is an image of the value
pub fn moved<M: Derived<Move<N>>, T: Shape + Serialize<M>, const N: usize>(flags: u8, ch: &mut Ch) {
	let start = [0, 24][ch.pick(2)];
	let plan = if NATIVE {
		Plan::drawn()
	} else {
		Plan::Fixed([[0, 1, 0, 1, 0, 1], [1, 2, 0, 0, 1, 2], [0, 0, 1, 1, 0, 0]][ch.pick(3)])
	};
	let s = Move::<N>::start(start, plan);
	let before: [u8; 24] = std::array::from_fn(|i| s.byte(i));
	let v = T::make(ch);
	let (pos, s) = M::over(s).serialize(&v);
	let mut c = ctx(&s, M::KIND, flags, start);
	let placed = c.place::<T>(1);
	check!(pos == placed, "value is placed right after what was stored, plus padding");
	v.check(&mut c, pos);
	if flags & FOLLOW == 0 || M::KIND == Kind::Pure {
		check!(s.pos() == c.cur, "output ends right after the last owned data");
	}
	let mut i = 0;
	while i < start {
		check!(s.byte(i) == before[i], "data stored before is unchanged");
		i += 1;
	}
}

pub fn moves<M: Derived<Move<N>>, T: Shape + Serialize<M>, const N: usize>(flags: u8, from: usize, to: usize) {
	each(from, to, |ch| moved::<M, T, N>(flags, ch))
}
