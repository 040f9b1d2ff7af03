//! C04: every stored value is aligned for its type.
use crate::abs::stored;
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;
use std::mem::{align_of, size_of};

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}

fn fits<S: St, T>(pos: usize, n: usize) -> bool {
	up(pos, align_of::<T>()) + size_of::<T>() * n <= S::MAX_CAPACITY
}

fn aligned<S: St, T>(s: &S, p: usize) {
	check!(mult(p, align_of::<T>()), "returned position is a multiple of the type's alignment");
	check!(mult(s.pos(), S::VALUE_ALIGNMENT), "position left behind is a multiple of VALUE_ALIGNMENT");
	let a = s.as_ptr() as usize;
	check!(mult(a + p, align_of::<T>()), "memory address of the value is aligned for its type");
}

fn pushes<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let which = range(0, 3);
	let n = if which == 1 || which == 3 { any_len::<T>() } else { 1 };
	let before = s.pos();
	assume(fits::<S, T>(before, n));
	let v = any_slice::<T>(if which < 2 { n } else { 0 });
	let p = match which {
		0 => s.push(&v[0]),
		1 => s.push_slice(v),
		2 => s.push_empty::<T>(),
		_ => s.push_empty_slice::<T>(n),
	};
	aligned::<S, T>(&s, p);
	reached!(which == 0, "push");
	reached!(which == 1, "push_slice");
	reached!(which == 2, "push_empty");
	reached!(which == 3, "push_empty_slice");
	free_slice(v);
}

/// The buffer starts at a multiple of the storage alignment after every operation that may
/// allocate.  The allocator contract promises the requested layout's alignment and no more.
fn base<S: St>() {
	let which = range(0, 3);
	let s: S = match which {
		0 => S::new(),
		1 => {
			let c = range(0, S::MAX_CAPACITY);
			S::with_capacity(c)
		}
		2 => {
			let mut s: S = any_storage(usize::MAX);
			let n = range(0, S::MAX_CAPACITY);
			assume(n <= S::MAX_CAPACITY - s.pos());
			s.reserve(n);
			s
		}
		_ => {
			let mut s: S = any_storage(usize::MAX);
			s.shrink_to_fit();
			s
		}
	};
	if s.capacity() > 0 {
		check!(mult(s.as_ptr() as usize, S::STORAGE_ALIGNMENT), "buffer starts at a multiple of STORAGE_ALIGNMENT");
	}
	reached!(which == 0, "new");
	reached!(which == 1, "with_capacity");
	reached!(which == 2, "reserve");
	reached!(which == 3, "shrink_to_fit");
}

fn align_fn<S: St>() {
	let mut s: S = any_storage(cap_bound());
	let k = range(0, 12);
	let a = 1usize << k;
	assume(a >= S::VALUE_ALIGNMENT && a <= S::MAX_VALUE_ALIGNMENT);
	let before = s.pos();
	unsafe { s.align(a) };
	check!(mult(s.pos(), a), "align leaves a multiple of the alignment");
	check!(s.pos() == up(before, a), "align moves to the next multiple only");
	inv(&s);
}

fn bytes<S: St>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<u8>();
	assume(fits::<S, u8>(s.pos(), n));
	let v = any_slice::<u8>(n);
	let p = s.push_bytes(v);
	aligned::<S, u8>(&s, p);
	free_slice(v);
}

harnesses! {
	plain h_any_u16 [2] = stored::<u16>(false);
	plain h_any_a16 [2] = stored::<A16>(false);
	plain h_any_empty_a16 [2] = stored::<A16>(true);
	plain h_push_u8 [2] = pushes::<S16, u8>();
	plain h_push_u32 [2] = pushes::<S16, u32>();
	plain h_push_a16 [2] = pushes::<S16, A16>();
	plain h_push_w24_c8 [2] = pushes::<S8, W24>();
	plain h_push_a32_c64 [2] = pushes::<S64, A32>();
	plain h_push_odd3_c64 [2] = pushes::<S64, Odd3>();
	plain h_push_odd10_c1 [2] = pushes::<S32, Odd10>();
	plain h_push_a16_c1 [2] = pushes::<S32, A16>();
	plain h_push_u64_c64 [2] = pushes::<S64, u64>();
	plain h_push_u8_c1 [2] = pushes::<S1, u8>();
	plain h_push_z16 [2] = pushes::<S16, Z16>();
	plain h_push_bytes [2] = bytes::<S16>();
	plain h_push_bytes_c64 [2] = bytes::<S64>();
	abs a_base_default [2] = base::<Dflt>();
	abs a_base_f1 [2] = base::<F1>();
	abs a_base_f64 [2] = base::<F64>();
	abs a_base_m48 [2] = base::<M48>();
	abs a_base_m24 [2] = base::<M24>();
	plain h_align [2] = align_fn::<S16>();
	plain h_align_c64 [2] = align_fn::<S64>();
	plain h_align_c1 [2] = align_fn::<S32>();
}
