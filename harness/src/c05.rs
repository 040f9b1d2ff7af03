//! C05: storage appends exactly the pushed bytes and preserves the rest.  One-step contracts from
//! an arbitrary invariant state with arbitrary capacity, position and contents; slice lengths are
//! arbitrary.  No loop is unrolled: contents are unbounded arrays in the solver.
use crate::abs::stored;
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;
use std::mem::{align_of, size_of};

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}

/// Post-condition shared by all pushes
fn pushed<S: St, T>(s: &S, before: usize, snap: &Snap, p: usize, v: &[T]) {
	let size = size_of::<T>() * v.len();
	check!(p == up(before, align_of::<T>()), "value is stored at the former position plus alignment padding only");
	check!(s.pos() == up(p + size, S::VALUE_ALIGNMENT), "position advances by the size plus trailing padding only");
	check!(holds(s, p, v), "storage holds exactly the pushed bytes");
	check!(snap.same(s), "bytes stored before are unchanged");
	inv(s);
}

fn fits<S: St, T>(pos: usize, n: usize) -> bool {
	up(pos, align_of::<T>()) + size_of::<T>() * n <= S::MAX_CAPACITY
}

fn push_slice<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	let before = s.pos();
	assume(fits::<S, T>(before, n));
	let v = any_slice::<T>(n);
	let snap = Snap::take(&s, before);
	let p = s.push_slice(v);
	pushed(&s, before, &snap, p, v);
	reached!(n > 1 && before > 0, "something stored on top of something");
	free_slice(v);
}

fn push<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let before = s.pos();
	assume(fits::<S, T>(before, 1));
	let all = any_slice::<T>(few::<T>());
	let v = &all[..1];
	let snap = Snap::take(&s, before);
	let p = s.push(&v[0]);
	pushed(&s, before, &snap, p, v);
	// Reading back
	let r: *const T = unsafe { s.read::<T>(p) };
	check!(r as usize == s.as_ptr() as usize + p, "read refers to the stored value");
	let r: *const T = unsafe { s.read_mut::<T>(p) };
	check!(r as usize == s.as_ptr() as usize + p, "read_mut refers to the stored value");
	let a = unsafe { s.ptr(p) } as usize;
	let b = unsafe { s.mut_ptr(p) } as usize;
	check!(a == s.as_ptr() as usize + p && b == a, "ptr and mut_ptr refer to the position");
	check!(s.as_mut_ptr() as usize == s.as_ptr() as usize, "as_mut_ptr is as_ptr");
	free_slice(all);
}

fn push_bytes<S: St>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<u8>();
	let before = s.pos();
	assume(fits::<S, u8>(before, n));
	let v = any_slice::<u8>(n);
	let snap = Snap::take(&s, before);
	let p = s.push_bytes(v);
	pushed(&s, before, &snap, p, v);
	free_slice(v);
}

fn push_slice_unchecked<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	let before = s.pos();
	assume(mult(before, align_of::<T>()));
	assume(size_of::<T>() * n <= s.capacity() - before);
	let v = any_slice::<T>(n);
	let snap = Snap::take(&s, before);
	let (cap, ptr) = (s.capacity(), s.as_ptr() as usize);
	unsafe { s.push_slice_unchecked(v, size_of::<T>() * n) };
	check!(s.pos() == before + size_of::<T>() * n, "position advances by the size");
	check!(s.capacity() == cap && s.as_ptr() as usize == ptr, "no reallocation");
	check!(holds(&s, before, v), "storage holds exactly the pushed bytes");
	check!(snap.same(&s), "bytes stored before are unchanged");
	free_slice(v);
}

/// Bytes past the position but inside the capacity may have been set aside by the user
/// (`set_pos`); what the position covers must survive.
fn reserve<S: St>() {
	let mut s: S = any_storage(cap_bound());
	let n = range(0, sel(BIG, 5000));
	assume(n <= S::MAX_CAPACITY - s.pos());
	let before = s.pos();
	let snap = Snap::take(&s, before);
	s.reserve(n);
	check!(s.pos() == before, "reserving does not move the position");
	check!(snap.same(&s), "reserving keeps the stored bytes");
	inv(&s);
}

fn shrink<S: St>() {
	let mut s: S = any_storage(cap_bound());
	let before = s.pos();
	let snap = Snap::take(&s, before);
	s.shrink_to_fit();
	check!(s.pos() == before, "shrinking does not move the position");
	check!(snap.same(&s), "shrinking keeps the stored bytes");
	inv(&s);
}

fn aligns<S: St, T>() {
	let mut s: S = any_storage(cap_bound());
	let cap = s.capacity();
	let before = s.pos();
	let snap = Snap::take(&s, cap);
	s.align_for::<T>();
	check!(s.pos() == up(before, align_of::<T>()), "align_for skips padding only");
	check!(snap.same(&s) && s.capacity() == cap, "align_for changes no bytes");
	s.align_after::<T>();
	s.align_after_any();
	check!(s.pos() == up(before, align_of::<T>()), "aligning again changes nothing");
	check!(snap.same(&s) && s.capacity() == cap, "align_after changes no bytes");
	inv(&s);
}

/// Two pushes: the first value survives the second, wherever the buffer has to grow
fn push_twice<S: St, T: Val, U: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<U>();
	let before = s.pos();
	assume(before <= sel(1 << 38, 4000) && n <= sel(1 << 34, 40));
	assume(fits::<S, T>(before, 1));
	let v = any_slice::<T>(1);
	let w = any_slice::<U>(n);
	let p = s.push(&v[0]);
	let mid = s.pos();
	assume(fits::<S, U>(mid, n));
	let q = s.push_slice(w);
	check!(q >= p + size_of::<T>(), "second value lies after the first");
	check!(holds(&s, p, v), "first value survives the second push");
	check!(holds(&s, q, w), "second value is stored");
	s.shrink_to_fit();
	check!(holds(&s, p, v), "first value survives shrinking");
	check!(holds(&s, q, w), "second value survives shrinking");
	free_slice(v);
	free_slice(w);
}

/// Everything above, over further configurations and element types (native)
#[cfg(not(kani))]
fn matrix() {
	fn ops<S: St, T: Val>() {
		match range(0, 6) {
			0 => push_slice::<S, T>(),
			1 => push::<S, T>(),
			2 => push_bytes::<S>(),
			3 => reserve::<S>(),
			4 => shrink::<S>(),
			5 => aligns::<S, T>(),
			_ => push_twice::<S, T, u8>(),
		}
	}
	fn al1<S: St>() {
		if any() {
			ops::<S, u8>()
		} else {
			ops::<S, Odd3>()
		}
	}
	fn al2<S: St>() {
		match range(0, 3) {
			0 => ops::<S, u16>(),
			1 => ops::<S, [u16; 5]>(),
			_ => al1::<S>(),
		}
	}
	fn al4<S: St>() {
		match range(0, 3) {
			0 => ops::<S, u32>(),
			1 => ops::<S, [u32; 3]>(),
			_ => al2::<S>(),
		}
	}
	fn al8<S: St>() {
		match range(0, 3) {
			0 => ops::<S, W24>(),
			1 => ops::<S, u64>(),
			_ => al4::<S>(),
		}
	}
	fn al16<S: St>() {
		match range(0, 3) {
			0 => ops::<S, A16>(),
			1 => ops::<S, A16>(),
			_ => al8::<S>(),
		}
	}
	fn al32<S: St>() {
		match range(0, 3) {
			0 => ops::<S, A32>(),
			1 => ops::<S, A32>(),
			_ => al16::<S>(),
		}
	}
	match range(0, 15) {
		0 => al1::<AlignedVec<1, 1, 1, BIG>>(),
		1 => al1::<AlignedVec<2, 1, 1, BIG>>(),
		2 => al4::<AlignedVec<4, 4, 2, BIG>>(),
		3 => al2::<AlignedVec<8, 2, 1, BIG>>(),
		4 => al8::<AlignedVec<8, 8, 8, BIG>>(),
		5 => al4::<AlignedVec<16, 4, 4, BIG>>(),
		6 => al16::<AlignedVec<16, 16, 1, BIG>>(),
		7 => al16::<AlignedVec<16, 16, 16, BIG>>(),
		8 => al4::<AlignedVec<32, 4, 1, BIG>>(),
		9 => al8::<AlignedVec<32, 8, 2, BIG>>(),
		10 => al1::<AlignedVec<64, 1, 1, BIG>>(),
		11 => al32::<AlignedVec<64, 64, 32, BIG>>(),
		12 => al32::<AlignedVec<128, 64, 16, BIG>>(),
		13 => al2::<AlignedVec<4096, 2, 2, BIG>>(),
		14 => al16::<AlignedVec<4096, 16, 8, { 1 << 20 }>>(),
		_ => al32::<AlignedVec<256, 32, 4, { (1 << 20) - 256 }>>(),
	}
}

/// Long slices and large values
#[cfg(not(kani))]
fn large() {
	fn ops<S: St, T: Val>() {
		match range(0, 5) {
			0 | 1 => push_slice::<S, T>(),
			2 => push_bytes::<S>(),
			3 => push_slice_unchecked::<S, T>(),
			4 => push_twice::<S, T, u8>(),
			_ => push::<S16, Vast>(),
		}
	}
	far();
	match range(0, 6) {
		0 => ops::<S16, u8>(),
		1 => ops::<S16, u64>(),
		2 => ops::<S64, u32>(),
		3 => ops::<S32, Odd3>(),
		4 => ops::<S64, A32>(),
		5 => ops::<S32, W24>(),
		_ => ops::<S4k, u16>(),
	}
}

harnesses! {
	native n_large [1] = large();
	plain h_push_broad [2] = push::<S16, Broad>();
	plain h_any_u8 [2] = stored::<u8>(false);
	plain h_any_odd10 [2] = stored::<Odd10>(false);
	plain h_any_a16 [2] = stored::<A16>(false);
	native n_matrix [1] = matrix();
	plain h_push_slice_u8 [2] = push_slice::<S16, u8>();
	plain h_push_slice_u32 [2] = push_slice::<S16, u32>();
	plain h_push_slice_a16 [2] = push_slice::<S16, A16>();
	plain h_push_slice_odd3 [2] = push_slice::<S16, Odd3>();
	plain h_push_slice_odd10_c1 [2] = push_slice::<S32, Odd10>();
	plain h_push_slice_w24_c64 [2] = push_slice::<S64, W24>();
	plain h_push_slice_u16_c1 [2] = push_slice::<S64, u16>();
	plain h_push_slice_u8_c1 [2] = push_slice::<S1, u8>();
	plain h_push_slice_a32 [2] = push_slice::<S32, A32>();
	plain h_push_u8 [2] = push::<S16, u8>();
	plain h_push_u64 [2] = push::<S16, u64>();
	plain h_push_a16 [2] = push::<S16, A16>();
	plain h_push_w24_c8 [2] = push::<S8, W24>();
	plain h_push_u32_c64 [2] = push::<S64, u32>();
	plain h_push_odd10_c1 [2] = push::<S32, Odd10>();
	plain h_push_bytes [2] = push_bytes::<S16>();
	plain h_push_bytes_c64 [2] = push_bytes::<S64>();
	plain h_push_slice_unchecked_u32 [2] = push_slice_unchecked::<S16, u32>();
	plain h_push_slice_unchecked_a32 [2] = push_slice_unchecked::<S64, A32>();
	plain h_reserve [2] = reserve::<S16>();
	plain h_reserve_c1 [2] = reserve::<S1>();
	plain h_reserve_m48 [2] = reserve::<M48>();
	plain h_reserve_c64 [2] = reserve::<S64>();
	plain h_shrink_to_fit [2] = shrink::<S16>();
	plain h_shrink_to_fit_c64 [2] = shrink::<S64>();
	plain h_reserve_c32w [2] = reserve::<S32w>();
	plain h_reserve_c4k [2] = reserve::<S4k>();
	plain h_reserve_c2 [2] = reserve::<S2>();
	plain h_reserve_c128 [2] = reserve::<S128>();
	plain h_shrink_to_fit_c32w [2] = shrink::<S32w>();
	plain h_shrink_to_fit_c4k [2] = shrink::<S4k>();
	plain h_shrink_to_fit_c2 [2] = shrink::<S2>();
	plain h_push_u16_c4k [2] = push::<S4k, u16>();
	plain h_push_slice_u8_c32w [2] = push_slice::<S32w, u8>();
	plain h_align_u8 [2] = aligns::<S16, u8>();
	plain h_align_a16 [2] = aligns::<S16, A16>();
	plain h_align_a32 [2] = aligns::<S64, A32>();
	plain h_push_twice_u8_u32 [2] = push_twice::<S16, u8, u32>();
	thorough h_push_twice_w24_u16 [2] = push_twice::<S64, W24, u16>();
}
