//! C06: capacity bounds and growth policy.  Whole machine-integer domain: the allocator is its
//! contract (`amodel`), no memory is touched, nothing is unrolled.
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}


/// Is `c` the smallest power of two `>= n`?
fn is_pow2_for(c: usize, n: usize) -> bool {
	c != 0 && c & (c - 1) == 0 && c >= n && (c == 1 || c / 2 < n)
}

fn reserve<S: St>() {
	let mut s: S = any_storage(usize::MAX);
	let (pos, cap) = (s.pos(), s.capacity());
	let n: usize = range(0, S::MAX_CAPACITY - pos);
	s.reserve(n);
	inv(&s);
	let new = s.capacity();
	check!(s.pos() == pos, "reserving does not move the position");
	check!(new - s.pos() >= n, "at least the requested number of bytes is free");
	if n <= cap - pos {
		check!(new == cap, "capacity grows only when needed");
	} else {
		let need = pos + n;
		// Capped at the maximum if the power of two exceeds it
		let top = if S::MAX_CAPACITY & (S::MAX_CAPACITY - 1) == 0 {
			S::MAX_CAPACITY
		} else {
			1usize << (63 - S::MAX_CAPACITY.leading_zeros())
		};
		if need > top {
			check!(new == S::MAX_CAPACITY, "capacity is capped at the maximum");
		} else if need < S::MAX_VALUE_ALIGNMENT {
			check!(new == S::MAX_VALUE_ALIGNMENT, "capacity grows to at least MAX_VALUE_ALIGNMENT");
		} else {
			check!(is_pow2_for(new, need), "capacity grows to the smallest sufficient power of two");
		}
		reached!(true, "grows");
	}
}

fn reserve_excess<S: St>() {
	let mut s: S = any_storage(usize::MAX);
	let n: usize = any();
	assume(n > S::MAX_CAPACITY - s.pos());
	must_panic!(s.reserve(n), "a request beyond the maximum capacity panics");
}

fn with_capacity<S: St>() {
	let c = range(0, S::MAX_CAPACITY);
	let s = S::with_capacity(c);
	inv(&s);
	check!(s.pos() == 0, "position is 0");
	check!(s.capacity() == up(c, S::MAX_VALUE_ALIGNMENT), "capacity is the request rounded up to MAX_VALUE_ALIGNMENT");
}

fn with_capacity_excess<S: St>() {
	let c: usize = any();
	assume(c > S::MAX_CAPACITY);
	must_panic!(S::with_capacity(c), "creating storage beyond the maximum capacity panics");
}

fn with_capacity_unchecked<S: St>() {
	let c = range(1, S::MAX_CAPACITY / S::MAX_VALUE_ALIGNMENT) * S::MAX_VALUE_ALIGNMENT;
	let s = unsafe { S::with_capacity_unchecked(c) };
	inv(&s);
	check!(s.pos() == 0 && s.capacity() == c, "storage has exactly the capacity asked for");
}

fn new<S: St>() {
	let s = S::new();
	inv(&s);
	check!(s.pos() == 0 && s.capacity() == 0, "new storage is empty with no capacity");
}

fn shrink<S: St>() {
	let mut s: S = any_storage(usize::MAX);
	let pos = s.pos();
	s.shrink_to_fit();
	inv(&s);
	check!(s.pos() == pos, "shrinking does not move the position");
	check!(s.capacity() == up(pos, S::MAX_VALUE_ALIGNMENT), "shrinking gives the smallest multiple of MAX_VALUE_ALIGNMENT that holds the contents");
	// Shrunk storage still works
	if pos < S::MAX_CAPACITY {
		let n = range(0, S::MAX_CAPACITY - pos);
		s.reserve(n);
		inv(&s);
		check!(s.capacity() - s.pos() >= n, "reserving after shrinking gives the requested bytes");
	}
}

fn clear<S: St>() {
	let mut s: S = any_storage(usize::MAX);
	let cap = s.capacity();
	s.clear();
	inv(&s);
	check!(s.pos() == 0, "clearing resets the position");
	check!(s.capacity() == cap, "clearing keeps the capacity");
}

/// The invariant survives every operation that stores something
fn pushes<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let which = range(0, 3);
	let n = if which == 1 || which == 3 { any_len::<T>() } else { 1 };
	let pos = s.pos();
	let cap = s.capacity();
	let start = up(pos, std::mem::align_of::<T>());
	let bytes = n * std::mem::size_of::<T>();
	assume(start + bytes <= S::MAX_CAPACITY);
	let v = any_slice::<T>(if which < 2 { n } else { 0 });
	match which {
		0 => {
			s.push(&v[0]);
		}
		1 => {
			s.push_slice(v);
		}
		2 => {
			s.push_empty::<T>();
		}
		_ => {
			s.push_empty_slice::<T>(n);
		}
	};
	inv(&s);
	if start + bytes <= cap {
		check!(s.capacity() == cap, "a push that fits does not change the capacity");
	}
	reached!(s.capacity() > cap, "grows");
	free_slice(v);
}

fn push_excess<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	// The slice is never read: the push has to panic first
	#[repr(align(4096))]
	struct Buf([u8; 4096]);
	static BUF: Buf = Buf([0; 4096]);
	let n = range(1, 4096 / std::mem::size_of::<T>());
	let bytes = n * std::mem::size_of::<T>();
	assume( up(s.pos(), std::mem::align_of::<T>()) + bytes > S::MAX_CAPACITY);
	let v = unsafe { std::slice::from_raw_parts(BUF.0.as_ptr() as *const T, n) };
	must_panic!(s.push_slice(v), "a push beyond the maximum capacity panics");
}

harnesses! {
	abs a_reserve_default [2] = reserve::<Dflt>();
	abs a_reserve_f1 [2] = reserve::<F1>();
	abs a_reserve_f64 [2] = reserve::<F64>();
	abs a_reserve_m48 [2] = reserve::<M48>();
	abs a_reserve_m96 [2] = reserve::<M96>();
	abs a_reserve_m7 [2] = reserve::<M7>();
	abs a_reserve_mu32 [2] = reserve::<MU32>();
	abs a_reserve_m24 [2] = reserve::<M24>();
	panics p_reserve_default [2] = reserve_excess::<Dflt>();
	panics p_reserve_f1 [2] = reserve_excess::<F1>();
	panics p_reserve_m48 [2] = reserve_excess::<M48>();
	panics p_reserve_m96 [2] = reserve_excess::<M96>();
	panics p_reserve_m7 [2] = reserve_excess::<M7>();
	panics p_reserve_mu32 [2] = reserve_excess::<MU32>();
	abs a_with_capacity_default [2] = with_capacity::<Dflt>();
	abs a_with_capacity_f1 [2] = with_capacity::<F1>();
	abs a_with_capacity_f64 [2] = with_capacity::<F64>();
	abs a_with_capacity_m48 [2] = with_capacity::<M48>();
	abs a_with_capacity_m24 [2] = with_capacity::<M24>();
	panics p_with_capacity_default [2] = with_capacity_excess::<Dflt>();
	panics p_with_capacity_f1 [2] = with_capacity_excess::<F1>();
	panics p_with_capacity_m48 [2] = with_capacity_excess::<M48>();
	abs a_with_capacity_unchecked_default [2] = with_capacity_unchecked::<Dflt>();
	abs a_with_capacity_unchecked_m96 [2] = with_capacity_unchecked::<M96>();
	abs a_new_default [2] = new::<Dflt>();
	abs a_shrink_default [2] = shrink::<Dflt>();
	abs a_shrink_f1 [2] = shrink::<F1>();
	abs a_shrink_f64 [2] = shrink::<F64>();
	abs a_shrink_m96 [2] = shrink::<M96>();
	abs a_clear_default [2] = clear::<Dflt>();
	plain h_pushes_u8 [2] = pushes::<S16, u8>();
	plain h_pushes_a16 [2] = pushes::<S16, A16>();
	plain h_pushes_odd10 [2] = pushes::<S32, Odd10>();
	plain h_pushes_u32_m48 [2] = pushes::<M48, u32>();
	plain h_pushes_u64_m96 [2] = pushes::<M96, u64>();
	panics p_push_u64_m96 [2] = push_excess::<M96, u64>();
	panics p_push_a16_m48 [2] = push_excess::<M48, A16>();
	panics p_push_u8_m7 [2] = push_excess::<M7, u8>();
}
