//! C15: space left for later.
use crate::abs::stored;
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;
use ser_raw::{PureCopySerializer, Serializer};
use std::mem::{align_of, size_of};

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}

fn leave<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let one: bool = any();
	let n = if one { 1 } else { any_len::<T>() };
	let before = s.pos();
	let size = n * size_of::<T>();
	assume(up(before, align_of::<T>()) + size <= S::MAX_CAPACITY);
	let snap = Snap::take(&s, before);
	let p = if one { s.push_empty::<T>() } else { s.push_empty_slice::<T>(n) };
	check!(mult(p, align_of::<T>()), "position left is aligned for the type");
	check!(p == up(before, align_of::<T>()), "space is left right after what is stored, plus padding");
	check!(s.pos() >= p + size, "enough space is left");
	check!(s.pos() == up(p + size, S::VALUE_ALIGNMENT), "exactly enough space is left");
	check!(p + size <= s.capacity(), "the space lies inside the capacity");
	check!(snap.same(&s), "what was stored before is unchanged");
	inv(&s);
	free_slice::<T>(&[]);
}

/// What is pushed later does not touch the space
fn later<S: St, T: Val, U: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	let m = any_len::<U>();
	let before = s.pos();
	assume(up(before, align_of::<T>()) + n * size_of::<T>() <= S::MAX_CAPACITY);
	let p = s.push_empty_slice::<T>(n);
	let space = (p, p + n * size_of::<T>());
	assume(up(s.pos(), align_of::<U>()) + m * size_of::<U>() <= S::MAX_CAPACITY);
	let snap = Snap::take(&s, s.pos());
	let w = any_slice::<U>(m);
	let q = s.push_slice(w);
	check!(p >= before, "the space lies after everything stored before");
	check!(q >= space.1, "what is pushed later lies after the space");
	check!(snap.same(&s), "what is pushed later does not touch the space");
	free_slice(w);
}

/// Writing one value at an aligned position inside the contents
fn write_exact<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let p = range(0, S::MAX_CAPACITY);
	assume(mult(p, align_of::<T>()) && p <= s.pos() && size_of::<T>() <= s.pos() - p);
	let all = any_slice::<T>(few::<T>());
	let v = &all[..1];
	let pos = s.pos();
	let snap = Snap::take(&s, pos);
	unsafe { s.write(p, &v[0]) };
	check!(holds(&s, p, v), "the value written is there");
	check!(snap.same_except(&s, (p, p + size_of::<T>())), "writing changes exactly the bytes of the value");
	check!(s.pos() == pos, "writing does not move the position");
	free_slice(all);
}

/// The same for a slice
fn write_slice_exact<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let n = any_len::<T>();
	let p = range(0, S::MAX_CAPACITY);
	assume(mult(p, align_of::<T>()) && p <= s.pos() && size_of::<T>() * n <= s.pos() - p);
	let v = any_slice::<T>(n);
	let pos = s.pos();
	let snap = Snap::take(&s, pos);
	unsafe { s.write_slice(p, v) };
	check!(holds(&s, p, v), "the slice written is there");
	check!(snap.same_except(&s, (p, p + size_of::<T>() * n)), "writing changes exactly the bytes of the slice");
	check!(s.pos() == pos, "writing does not move the position");
	free_slice(v);
}

fn excess<S: St, T: Val>() {
	let mut s: S = any_storage(usize::MAX);
	let n: usize = any();
	// `pos` needs no padding for `T` in the configurations used, so this is exact
	assume(mult(s.pos(), align_of::<T>()));
	assume(s.pos() as u128 + n as u128 * size_of::<T>() as u128 > S::MAX_CAPACITY as u128);
	must_panic!(s.push_empty_slice::<T>(n), "a request that cannot be represented or exceeds the maximum capacity panics");
}

fn excess_one<S: St, T: Val>() {
	let mut s: S = any_storage(usize::MAX);
	assume(up(s.pos(), align_of::<T>()) + size_of::<T>() > S::MAX_CAPACITY);
	must_panic!(s.push_empty::<T>(), "leaving space for a value beyond the maximum capacity panics");
}

/// Sizes over the whole machine-integer domain
fn leave_far<S: St, T: Val>() {
	let mut s: S = any_storage(usize::MAX);
	let n = range(0, isize::MAX as usize / size_of::<T>());
	let before = s.pos();
	let size = n * size_of::<T>();
	assume(up(before, align_of::<T>()) as u128 + size as u128 <= S::MAX_CAPACITY as u128);
	let p = s.push_empty_slice::<T>(n);
	check!(p == up(before, align_of::<T>()), "space is left right after what is stored, plus padding");
	check!(s.pos() == up(p + size, S::VALUE_ALIGNMENT), "exactly enough space is left");
	check!(p + size <= s.capacity(), "the space lies inside the capacity");
	inv(&s);
}

type Pure = PureCopySerializer<16, 16, 8, BIG, S16>;

fn via_serializer<T: Val>() {
	let s: S16 = any_storage(cap_bound());
	let before = s.pos();
	let n = any_len::<T>();
	let one: bool = any();
	let n = if one { 1 } else { n };
	let size = n * size_of::<T>();
	assume(up(before, align_of::<T>()) + size <= BIG);
	let mut ser = Pure::from_storage(s);
	let p = if one { ser.push_empty::<T>() } else { ser.push_empty_slice::<T>(n) };
	check!(p == up(before, align_of::<T>()), "space is left right after what is stored, plus padding");
	check!(ser.pos() == up(p + size, 8), "exactly enough space is left");
	check!(ser.capacity() >= p + size, "the space lies inside the capacity");
}

/// Long slices and large values
#[cfg(not(kani))]
fn large() {
	far();
	match range(0, 7) {
		0 => write_exact::<S16, Vast>(),
		1 => write_exact::<S32, Vast>(),
		2 => write_slice_exact::<S16, u8>(),
		3 => write_slice_exact::<S16, u64>(),
		4 => write_slice_exact::<S64, A32>(),
		5 => leave::<S16, Vast>(),
		6 => leave::<S64, Odd3>(),
		_ => later::<S16, u32, u8>(),
	}
}

harnesses! {
	native n_large [1] = large();
	plain h_write_broad [2] = write_exact::<S32, Broad>();
	plain h_leave_vast [2] = leave::<S16, Vast>();
	plain h_any_u8 [2] = stored::<u8>(true);
	plain h_any_odd10 [2] = stored::<Odd10>(true);
	plain h_any_a16 [2] = stored::<A16>(true);
	plain h_leave_u8 [2] = leave::<S16, u8>();
	plain h_leave_u32 [2] = leave::<S16, u32>();
	plain h_leave_a16 [2] = leave::<S16, A16>();
	plain h_leave_odd3_c64 [2] = leave::<S64, Odd3>();
	plain h_leave_w24_c1 [2] = leave::<S32, W24>();
	plain h_leave_a32_c64 [2] = leave::<S64, A32>();
	abs a_leave_u8 [2] = leave_far::<Dflt, u8>();
	abs a_leave_u64 [2] = leave_far::<Dflt, u64>();
	abs a_leave_a32 [2] = leave_far::<F64, A32>();
	abs a_leave_u32_m48 [2] = leave_far::<M48, u32>();
	plain h_later_u32_u8 [2] = later::<S16, u32, u8>();
	plain h_later_u8_a16 [2] = later::<S64, u8, A16>();
	plain h_write_u64 [2] = write_exact::<S16, u64>();
	plain h_write_odd10 [2] = write_exact::<S32, Odd10>();
	plain h_write_slice_u32 [2] = write_slice_exact::<S16, u32>();
	plain h_write_slice_odd3 [2] = write_slice_exact::<S64, Odd3>();
	panics p_slice_u8 [2] = excess::<Dflt, u8>();
	panics p_slice_u64 [2] = excess::<Dflt, u64>();
	panics p_slice_w24 [2] = excess::<Dflt, W24>();
	panics p_slice_u16_m7 [2] = excess::<M48, u16>();
	panics p_slice_a16 [2] = excess::<F64, A16>();
	panics p_one_w24_m48 [2] = excess_one::<M48, W24>();
	panics p_one_a32_m96 [2] = excess_one::<M96, A32>();
	plain h_via_serializer_u8 [2] = via_serializer::<u8>();
	plain h_via_serializer_a16 [2] = via_serializer::<A16>();
}
