//! C07: memory safety of the storage and exactly-once release.
//! `a_*`: the allocator is its contract (every request, resize and release is checked against the
//! live allocation, sizes over the whole machine-integer domain).
//! `h_*`: every memory access is checked by Kani against the live objects.
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;
use std::mem::{align_of, size_of};

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}

/// Any operation that allocates, resizes or frees, from any state, then drop
fn lifecycle<S: St>() {
	let mut s: S = any_storage(usize::MAX);
	layout_is_right(&s);
	step(&mut s);
	layout_is_right(&s);
	step(&mut s);
	layout_is_right(&s);
	drop(s);
}

fn step<S: St>(s: &mut S) {
	match range(0, 3) {
		0 => {
			let n = range(0, S::MAX_CAPACITY);
			assume(n <= S::MAX_CAPACITY - s.pos());
			s.reserve(n);
		}
		1 => s.shrink_to_fit(),
		2 => s.clear(),
		_ => {
			let p = range(0, S::MAX_CAPACITY / S::VALUE_ALIGNMENT) * S::VALUE_ALIGNMENT;
			assume(p <= s.capacity());
			unsafe { s.set_pos(p) };
		}
	}
}

fn layout_is_right<S: St>(s: &S) {
	#[cfg(kani)]
	{
		let st = crate::amodel::st();
		check!(!st.old && st.live == (s.capacity() > 0), "memory is held exactly while the capacity is not 0");
		if s.capacity() > 0 {
			check!(st.size == s.capacity(), "the allocation has exactly the size of the capacity");
			check!(st.align == S::STORAGE_ALIGNMENT, "the allocation has the configured storage alignment");
			check!(st.ptr == s.as_ptr() as usize, "the buffer is the live allocation");
		}
	}
}

fn new_and_drop<S: St>() {
	let s = if any::<bool>() {
		S::new()
	} else {
		let c = range(0, S::MAX_CAPACITY);
		S::with_capacity(c)
	};
	layout_is_right(&s);
	drop(s);
}

/// Random access writes and reads stay inside the allocation
fn writes<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	let p = range(0, S::MAX_CAPACITY);
	assume(mult(p, align_of::<T>()) && p <= s.capacity() && size_of::<T>() * n <= s.capacity() - p);
	let v = any_slice::<T>(n);
	unsafe { s.write_slice(p, v) };
	if n > 0 {
		unsafe { s.write(p, &v[0]) };
		if p + size_of::<T>() <= s.pos() {
			let r = unsafe { *(s.read::<T>(p) as *const T as *const u8) };
			check!(r == unsafe { *(v.as_ptr() as *const u8) }, "value written is the value read");
		}
	}
	free_slice(v);
}

/// Storage operations on memory, then drop: Kani checks every access and the release
fn pushes<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	assume(up(s.pos(), align_of::<T>()) + size_of::<T>() * n <= S::MAX_CAPACITY);
	let v = any_slice::<T>(n);
	s.push_slice(v);
	s.shrink_to_fit();
	drop(s);
	free_slice(v);
}

/// A new storage, used and dropped (natively: the checking allocator watches)
fn history<S: St, T: Val, U: Val>() {
	let mut s: S = if any::<bool>() { S::new() } else { S::with_capacity(range(0, 200)) };
	let v = any_slice::<T>(3);
	let w = any_slice::<U>(7);
	let mut i = 0;
	while i < 12 {
		i += 1;
		let k = range(0, 9);
		assume(s.pos() + 300 <= S::MAX_CAPACITY || k == 4 || k == 5 || k > 8);
		match k {
			0 => {
				s.push(&v[0]);
			}
			1 => {
				s.push_slice(&w[..range(0, 7)]);
			}
			2 => {
				s.push_empty::<U>();
			}
			3 => {
				s.push_empty_slice::<T>(range(0, 3));
			}
			4 => s.shrink_to_fit(),
			5 => s.clear(),
			6 => s.reserve(range(0, 200)),
			7 => {
				s.push_slice(&v[..range(0, 3)]);
			}
			_ => {
				let b = [1u8; 5];
				s.push_bytes(&b[..range(0, 5)]);
			}
		}
		inv(&s);
	}
	drop(s);
	free_slice(v);
	free_slice(w);
}

harnesses! {
	abs a_lifecycle_c32w [2] = lifecycle::<S32w>();
	plain h_pushes_odd3_c32w [2] = pushes::<S32w, Odd3>();
	plain h_pushes_u16_c4k [2] = pushes::<S4k, u16>();
	abs a_lifecycle_default [2] = lifecycle::<Dflt>();
	abs a_lifecycle_f1 [2] = lifecycle::<F1>();
	abs a_lifecycle_f64 [2] = lifecycle::<F64>();
	abs a_lifecycle_m48 [2] = lifecycle::<M48>();
	abs a_lifecycle_m96 [2] = lifecycle::<M96>();
	abs a_lifecycle_m24 [2] = lifecycle::<M24>();
	abs a_new_default [2] = new_and_drop::<Dflt>();
	abs a_new_f1 [2] = new_and_drop::<F1>();
	abs a_new_m24 [2] = new_and_drop::<M24>();
	plain h_writes_u8 [2] = writes::<S16, u8>();
	plain h_writes_u32 [2] = writes::<S16, u32>();
	plain h_writes_a32 [2] = writes::<S64, A32>();
	plain h_pushes_u8 [2] = pushes::<S16, u8>();
	plain h_pushes_w24 [2] = pushes::<S64, W24>();
	plain h_pushes_a16 [2] = pushes::<S16, A16>();
	plain h_pushes_u32_m48 [2] = pushes::<M48, u32>();
	native n_history [2] = history::<Dflt, u8, u64>();
	native n_history_c64 [2] = history::<S64, A32, Odd3>();
	native n_history_c1 [2] = history::<S32, Odd10, A16>();
	native n_history_m24 [2] = history::<M24, u32, u8>();
}
