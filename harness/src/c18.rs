//! C18: zero-sized values and empty slices.
use crate::abs::*;
use crate::base::*;
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::*;
use ser_raw::storage::*;
use std::mem::{align_of, size_of};

trait St: RandomAccessStorage + ContiguousStorage {}
impl<T: RandomAccessStorage + ContiguousStorage> St for T {}

fn zst<S: St, Z: Val>(z: Z) {
	let mut s: S = any_storage(cap_bound());
	let (pos, cap, ptr) = (s.pos(), s.capacity(), s.as_ptr() as usize);
	let snap = Snap::take(&s, cap);
	let which = range(0, 1);
	let p = if which == 0 {
		s.push(&z)
	} else {
		let n: usize = any();
		let v: &[Z] = unsafe { std::slice::from_raw_parts(std::ptr::NonNull::<Z>::dangling().as_ptr(), n) };
		s.push_slice(v)
	};
	check!(s.pos() == pos && s.capacity() == cap && s.as_ptr() as usize == ptr, "storing zero-sized values changes nothing");
	check!(snap.same(&s), "storing zero-sized values changes no bytes");
	check!(p <= s.pos(), "the position returned lies inside the contents");
	let a = unsafe { s.read::<Z>(p) } as *const Z as usize;
	check!(mult(a, align_of::<Z>()), "reference to a zero-sized value is aligned");
	let a = unsafe { s.read_mut::<Z>(p) } as *const Z as usize;
	check!(mult(a, align_of::<Z>()), "mutable reference to a zero-sized value is aligned");
	// Writing zero-sized values changes nothing either
	unsafe { s.write(p, &z) };
	unsafe { s.write_slice(p, &[z, z]) };
	check!(s.pos() == pos && s.capacity() == cap && snap.same(&s), "writing zero-sized values changes nothing");
	reached!(cap == 0, "unallocated storage");
	reached!(cap > 0, "allocated storage");
}

fn zst_empty<S: St, Z: Val>() {
	let mut s: S = any_storage(cap_bound());
	let (pos, cap) = (s.pos(), s.capacity());
	let snap = Snap::take(&s, cap);
	let n: usize = any();
	let p = if any::<bool>() { s.push_empty::<Z>() } else { s.push_empty_slice::<Z>(n) };
	check!(p == up(pos, align_of::<Z>()) && s.pos() == p, "leaving space for zero-sized values only aligns the position");
	check!(s.capacity() == cap && snap.same(&s), "leaving space for zero-sized values changes no bytes");
	let a = unsafe { s.read::<Z>(p) } as *const Z as usize;
	check!(mult(a, align_of::<Z>()), "reference to a zero-sized value is aligned");
}

/// Pushing an empty slice: Kani checks every memory operation performed
fn empty<S: St, T: Val>() {
	let mut s: S = any_storage(cap_bound());
	let (pos, cap) = (s.pos(), s.capacity());
	let snap = Snap::take(&s, cap);
	let p = match range(0, 1) {
		0 => s.push_slice::<T>(&[]),
		_ => s.push_empty_slice::<T>(0),
	};
	check!(mult(p, align_of::<T>()), "position of an empty slice is aligned");
	check!(p == up(pos, align_of::<T>()) && s.pos() == p, "pushing an empty slice only aligns the position");
	check!(s.capacity() == cap && snap.same(&s), "pushing an empty slice changes nothing else");
	let dst = unsafe { s.as_ptr().add(p) } as usize;
	check!(mult(dst, align_of::<T>()), "an empty slice lives at an aligned address");
	unsafe { s.write_slice::<T>(p, &[]) };
	check!(s.capacity() == cap && s.pos() == p && snap.same(&s), "writing an empty slice changes nothing");
	reached!(cap == 0, "unallocated storage");
}

/// Unallocated storage, however it came about
fn unallocated<S: St, T: Val>() {
	let mut s: S = if any::<bool>() {
		S::new()
	} else {
		let mut s: S = any_storage(cap_bound());
		s.clear();
		s.shrink_to_fit();
		s
	};
	check!(s.capacity() == 0, "storage is unallocated");
	check!(mult(s.as_ptr() as usize, align_of::<T>()), "pointer of unallocated storage is aligned for every storable type");
	s.push_slice::<T>(&[]);
	s.push_bytes(&[]);
	check!(s.capacity() == 0 && s.pos() == 0, "empty slices do not allocate");
}

macro_rules! zero {
	($($z:ident),*) => {$(
		impl<S: Serializer> Serialize<S> for $z {
			fn serialize_data(&self, _: &mut S) {}
		}
		impl Shape for $z {
			fn make(_: &mut Ch) -> Self {
				$z
			}
			fn check(&self, _: &mut Ctx, _: usize) {}
			fn same(&self, _: &Self) -> bool {
				true
			}
		}
	)*};
}
zero!(Z1, Z8, Z16, Z32);

const F: u8 = FOLLOW | VALUES | CAPS | VERBATIM;

harnesses! {
	plain h_box_unit_pure [3] = nothing::<APure, Box<()>>();
	plain h_box_unit_track [3] = nothing::<ATrack, Box<()>>();
	plain h_box_unit_offset [3] = nothing::<AOffset, Box<()>>();
	plain h_box_unit_complete [3] = nothing::<AComplete, Box<()>>();
	plain h_box_z16_offset [3] = nothing::<AOffset, Box<Z16>>();
	plain h_box_z16_complete [3] = nothing::<AComplete, (u8, Box<Z16>)>();
	plain h_vec_unit_pure [5] = nothing::<APure, Vec<()>>();
	plain h_vec_unit_track [5] = nothing::<ATrack, Vec<()>>();
	plain h_vec_unit_offset [5] = nothing::<AOffset, Vec<()>>();
	plain h_vec_unit_complete [5] = nothing::<AComplete, Vec<()>>();
	plain h_vec_z16_offset [5] = nothing::<AOffset, (Vec<Z16>, u16)>();
	plain h_vec_z16_complete [5] = nothing::<AComplete, Vec<Z16>>();
	plain h_vec_z8_complete [5] = nothing::<AComplete, [Vec<Z8>; 2]>();
	plain b_real_box_complete [20] = images::<CompleteC<16, 16, 8>, (Box<()>, u8, Box<Z8>)>(F, 0, 3);
	plain b_real_box_offset [20] = images::<OffsetC<16, 16, 8>, (Box<()>, u8, Box<Z8>)>(F, 0, 3);
	plain b_real_vec_complete [20] = images::<CompleteC<32, 32, 1>, (Vec<()>, u8)>(F, 0, 6);
	plain b_real_vec_pure [20] = images::<PureC<32, 32, 1>, (Vec<()>, u8)>(F, 0, 6);
	native n_vec_c [1] = images::<CompleteC<16, 16, 8>, Vec<(Vec<Z8>, Box<Z16>, u8, Vec<()>, Box<()>)>>(F, 0, 1);
	native n_vec_o [1] = images::<OffsetC<16, 16, 8>, Vec<(Vec<Z8>, Box<Z16>, u8, Vec<()>)>>(F, 0, 1);
	native n_vec_p [1] = images::<PureC<16, 16, 8>, Vec<(Vec<Z8>, Box<Z16>, u8, Vec<()>)>>(F, 0, 1);
	plain h_zst1 [2] = zst::<S16, Z1>(Z1);
	plain h_zst8 [2] = zst::<S16, Z8>(Z8);
	plain h_zst16 [2] = zst::<S16, Z16>(Z16);
	plain h_zst32_c64 [2] = zst::<S64, Z32>(Z32);
	plain h_zst16_c1 [2] = zst::<S32, Z16>(Z16);
	plain h_zst_array [2] = zst::<S16, [u64; 0]>([]);
	plain h_zst_unit [2] = zst::<S1, ()>(());
	plain h_space_zst16 [2] = zst_empty::<S16, Z16>();
	plain h_space_zst32 [2] = zst_empty::<S64, Z32>();
	plain h_empty_u8 [2] = empty::<S16, u8>();
	plain h_empty_u64 [2] = empty::<S16, u64>();
	plain h_empty_a16 [2] = empty::<S16, A16>();
	plain h_empty_a32 [2] = empty::<S64, A32>();
	plain h_empty_u32_c1 [2] = empty::<S32, u32>();
	plain h_unallocated_a16 [2] = unallocated::<S16, A16>();
	plain h_unallocated_a32 [2] = unallocated::<S64, A32>();
	plain h_unallocated_u8 [2] = unallocated::<S1, u8>();
}
