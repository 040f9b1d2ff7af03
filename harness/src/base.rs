//! Shared pieces of the storage harnesses: configurations, arbitrary storage states, values.
use crate::nd::*;
use ser_raw::storage::*;
use std::mem::{align_of, size_of};

/// Largest capacity of the content harnesses (bounded by the object size CBMC supports, 2^47)
pub const BIG: usize = 1 << 40;

// Configurations <storage alignment, max value alignment, min value alignment, max capacity>
pub type Dflt = AlignedVec;
pub type S16 = AlignedVec<16, 16, 8, BIG>;
pub type S1 = AlignedVec<1, 1, 1, BIG>;
pub type S64 = AlignedVec<64, 32, 4, BIG>;
pub type S32 = AlignedVec<32, 32, 1, BIG>;
// Capacities that are no multiple of a word, with strict or lax storage alignment
pub type S32w = AlignedVec<32, 4, 1, BIG>;
pub type S4k = AlignedVec<4096, 2, 2, BIG>;
pub type S2 = AlignedVec<8, 2, 1, BIG>;
pub type S128 = AlignedVec<128, 64, 16, BIG>;
pub type S8 = AlignedVec<16, 8, 8, BIG>;
// Whole-domain capacities (never dereferenced; `a_*` and `p_*` harnesses)
pub type F16 = AlignedVec<16, 16, 8, { ser_raw::util::aligned_max_capacity(16) }>;
pub type F1 = AlignedVec<1, 1, 1, { ser_raw::util::aligned_max_capacity(1) }>;
pub type F64 = AlignedVec<64, 32, 4, { ser_raw::util::aligned_max_capacity(64) }>;
// Small and odd maxima
pub type M48 = AlignedVec<16, 16, 8, 48>;
pub type M96 = AlignedVec<32, 32, 8, 96>;
pub type M7 = AlignedVec<8, 1, 1, 7>;
pub type MU32 = AlignedVec<16, 16, 8, { ser_raw::util::aligned_max_u32_capacity(16) }>;
pub type M24 = AlignedVec<4096, 8, 4, { 24 << 20 }>;

#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Odd3(pub [u8; 3]);
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Odd10(pub [u16; 5]);
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct W24(pub [u64; 3]);
#[derive(Clone, Copy, PartialEq)]
#[repr(C, align(16))]
pub struct A16(pub [u64; 2]);
#[derive(Clone, Copy, PartialEq)]
#[repr(C, align(32))]
pub struct A32(pub [u64; 4]);

/// More than 64 KiB in one value
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Vast(pub [u32; 17_003]);

/// More than 256 bytes in one value
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Broad(pub [u32; 69]);

#[derive(Clone, Copy)]
pub struct Z1;
#[derive(Clone, Copy)]
#[repr(align(8))]
pub struct Z8;
#[derive(Clone, Copy)]
#[repr(align(16))]
pub struct Z16;
#[derive(Clone, Copy)]
#[repr(align(32))]
pub struct Z32;

/// Round up to a multiple of a power of two, independently of the code under test
pub fn up(p: usize, a: usize) -> usize {
	let r = p & (a - 1);
	if r == 0 {
		p
	} else {
		p + (a - r)
	}
}

pub fn mult(p: usize, a: usize) -> bool {
	p & (a - 1) == 0
}

/// The storage invariant, as far as it is observable
pub fn inv<S: Storage>(s: &S) {
	check!(s.pos() <= s.capacity(), "position is at most the capacity");
	check!(s.capacity() <= S::MAX_CAPACITY, "capacity is at most the maximum capacity");
	check!(mult(s.capacity(), S::MAX_VALUE_ALIGNMENT), "capacity is a multiple of MAX_VALUE_ALIGNMENT");
	check!(mult(s.pos(), S::VALUE_ALIGNMENT), "position is a multiple of VALUE_ALIGNMENT");
}

/// A storage in an arbitrary state satisfying the invariant, with arbitrary contents.
/// Every reachable state is such a state, so a one-step contract proved from here holds after
/// every history.
pub fn any_storage<S: Storage + ContiguousStorage>(max_cap: usize) -> S {
	let max = if max_cap < S::MAX_CAPACITY { max_cap } else { S::MAX_CAPACITY };
	let cap = range(0, max / S::MAX_VALUE_ALIGNMENT) * S::MAX_VALUE_ALIGNMENT;
	let pos = range(0, cap / S::VALUE_ALIGNMENT) * S::VALUE_ALIGNMENT;
	let mut s = if cap == 0 { S::new() } else { unsafe { S::with_capacity_unchecked(cap) } };
	#[cfg(not(kani))]
	if cap > 0 && cap <= 1 << 22 {
		for i in 0..cap {
			unsafe { *s.as_mut_ptr().add(i) = (i as u8).wrapping_mul(37).wrapping_add(11) }
		}
	}
	unsafe { s.set_pos(pos) };
	s
}

pub fn cap_bound() -> usize {
	#[cfg(not(kani))]
	if FAR.load(std::sync::atomic::Ordering::Relaxed) && range(0, 1) == 1 {
		return 1 << 19;
	}
	sel(BIG, 4096)
}

/// Memory holding `n` arbitrary values of `T`, leaked
pub fn any_slice<T: Val>(n: usize) -> &'static [T] {
	if n == 0 {
		return unsafe { std::slice::from_raw_parts(std::ptr::NonNull::<T>::dangling().as_ptr(), 0) };
	}
	let bytes = size_of::<T>() * n;
	if bytes == 0 {
		return unsafe { std::slice::from_raw_parts(std::ptr::NonNull::<T>::dangling().as_ptr(), n) };
	}
	let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(bytes, align_of::<T>())) };
	#[cfg(not(kani))]
	for i in 0..bytes {
		unsafe { *p.add(i) = (i as u8).wrapping_mul(101).wrapping_add(3) }
	}
	unsafe { std::slice::from_raw_parts(p as *const T, n) }
}

/// How many values to make room for where one is wanted: a large one in memory of unknown size,
/// which the solver need not take apart
pub fn few<T>() -> usize {
	if size_of::<T>() > 1024 {
		range(1, 2)
	} else {
		1
	}
}

pub fn free_slice<T: 'static>(s: &'static [T]) {
	if s.len() > 0 && size_of::<T>() > 0 {
		unsafe {
			std::alloc::dealloc(
				s.as_ptr() as *mut u8,
				std::alloc::Layout::from_size_align_unchecked(size_of::<T>() * s.len(), align_of::<T>()),
			)
		}
	}
}

/// What the first `len` bytes of the storage hold.  Symbolically: one arbitrary byte of them,
/// which stands for all.  Natively: all of them.
pub struct Snap {
	#[cfg(kani)]
	at: usize,
	#[cfg(kani)]
	byte: u8,
	#[cfg(not(kani))]
	bytes: Vec<u8>,
	len: usize,
}

impl Snap {
	pub fn take<S: ContiguousStorage>(s: &S, len: usize) -> Snap {
		#[cfg(kani)]
		{
			if len == 0 {
				return Snap { at: 0, byte: 0, len };
			}
			let at: usize = range(0, len - 1);
			Snap { at, byte: unsafe { *s.as_ptr().add(at) }, len }
		}
		#[cfg(not(kani))]
		{
			if len > 0 {
				range(0, len - 1); // keeps the choices in step with the symbolic reading
			}
			let bytes = if len == 0 {
				vec![]
			} else {
				unsafe { std::slice::from_raw_parts(s.as_ptr(), len) }.to_vec()
			};
			Snap { bytes, len }
		}
	}

	/// Bytes are unchanged, except those in `skip.0 .. skip.1`
	pub fn same_except<S: ContiguousStorage>(&self, s: &S, skip: (usize, usize)) -> bool {
		if self.len == 0 {
			return true;
		}
		#[cfg(kani)]
		{
			(self.at >= skip.0 && self.at < skip.1) || unsafe { *s.as_ptr().add(self.at) } == self.byte
		}
		#[cfg(not(kani))]
		{
			let now = unsafe { std::slice::from_raw_parts(s.as_ptr(), self.len) };
			(0..self.len).all(|i| (i >= skip.0 && i < skip.1) || now[i] == self.bytes[i])
		}
	}

	pub fn same<S: ContiguousStorage>(&self, s: &S) -> bool {
		self.same_except(s, (0, 0))
	}
}

/// The storage holds exactly the bytes of `v` at `pos`
pub fn holds<S: ContiguousStorage, T>(s: &S, pos: usize, v: &[T]) -> bool {
	let n = size_of::<T>() * v.len();
	if n == 0 {
		return true;
	}
	let src = v.as_ptr() as *const u8;
	#[cfg(kani)]
	{
		let i: usize = range(0, n - 1);
		unsafe { *src.add(i) == *s.as_ptr().add(pos + i) }
	}
	#[cfg(not(kani))]
	unsafe {
		range(0, n - 1);
		std::slice::from_raw_parts(src, n) == std::slice::from_raw_parts(s.as_ptr().add(pos), n)
	}
}

/// Number of elements for a slice of `T`
pub fn any_len<T>() -> usize {
	len_to((1 << 39) / (if size_of::<T>() == 0 { 1 } else { size_of::<T>() }))
}

/// Lengths drawn are long ones, and storages have large capacities
#[cfg(not(kani))]
static FAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[cfg(not(kani))]
pub fn far() {
	FAR.store(true, std::sync::atomic::Ordering::Relaxed)
}

/// A length; natively a small one, now and then a large one
pub fn len_to(symbolic: usize) -> usize {
	let rare = range(0, 63) == 33;
	#[cfg(not(kani))]
	if FAR.load(std::sync::atomic::Ordering::Relaxed) {
		// around powers of two
		return (1 << range(3, 18)) + range(0, 6) - 3;
	}
	range(0, sel(symbolic, if rare && NATIVE { 5000 } else { 40 }))
}

pub trait Val: Copy + 'static {}
impl<T: Copy + 'static> Val for T {}
