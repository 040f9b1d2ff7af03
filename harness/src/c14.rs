//! C14: positions reported while serializing.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::pos::*;
use ser_raw::ser_traits::*;
use ser_raw::storage::*;
use ser_raw::*;

/// The built-in serializers: the part is found in the output at the position reported
fn real<M: Made + PosTracking, T: Shape + Serialize<M>>(ch: &mut Ch, least: usize) {
	unsafe { NSEE = 0 };
	let s: M::St = start(ch);
	let v = T::make(ch);
	let mut m = M::over(s);
	m.serialize_value(&v);
	let len = m.pos();
	check!(unsafe { NSEE } >= least, "every part was serialized");
	let mut i = 0;
	while i < unsafe { NSEE } {
		let x = unsafe { SEEN[i] };
		check!(x.pos < len && x.size <= len - x.pos, "position reported is inside the output");
		let now = unsafe { (m.storage().as_ptr().add(x.pos) as *const u32).read_unaligned() };
		check!(now == unsafe { *(x.addr as *const u32) }, "part is found at the position reported");
		i += 1;
	}
	m.finalize();
}
fn reals<M: Made + PosTracking, T: Shape + Serialize<M>>(from: usize, to: usize, least: usize) {
	each(from, to, |ch| real::<M, T>(ch, least))
}
type O = OffsetC<16, 16, 8>;
type C = CompleteC<16, 16, 8>;

/// Allocations beyond 32 bits: never touched, so they take no memory
#[cfg(not(kani))]
fn far_apart<M: Derived<Abs>>() {
	use std::alloc::{GlobalAlloc, Layout, System};
	use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
	static MEM: AtomicUsize = AtomicUsize::new(0);
	const MOST: usize = (1 << 29) + (1 << 12);
	if MEM.load(Relaxed) == 0 {
		let p = unsafe { System.alloc_zeroed(Layout::from_size_align(MOST * 8, 8).unwrap()) };
		MEM.store(p as usize, Relaxed);
	}
	let p = MEM.load(Relaxed) as *const u64;
	assume(!p.is_null());
	let n = MOST - range(0, 1 << 12);
	let big: &[u64] = unsafe { std::slice::from_raw_parts(p, n) };
	let s = Abs::any(false);
	let before = s.pos();
	let mut m = M::over(s);
	let (owner, words, q) = owning(before, 1);
	m.map(owner.as_ptr() as usize, q);
	let k = range(0, words - 1);
	let a = M::Addr::from_ref(unsafe { &*owner.as_ptr().add(k) });
	let far = n - 1 - range(0, 1 << 10);
	m.push_and_process_slice(big, a, |m| {
		check!(m.posn(&big[0]) == before, "position reported is where the part was written");
		check!(m.posn(&big[far]) == before + 8 * far, "position reported is where the part was written");
		let inner = [0u64; 2];
		m.push_and_process_slice(&inner[..], M::Addr::from_ref(&big[far]), |_| {});
		check!(m.posn(&big[far]) == before + 8 * far, "position of the enclosing allocation is reported again");
	});
	check!(m.posn(unsafe { &*owner.as_ptr().add(k) }) == q + 8 * k, "position of the enclosing allocation is reported again");
	done(m);
}

harnesses! {
	native n_far_track [1] = far_apart::<ATrack>();
	native n_far_offset [1] = far_apart::<AOffset>();
	native n_far_complete [1] = far_apart::<AComplete>();
	// structural induction: elements of any type, vectors of any length, any depth
	plain i_value_track [5] = value::<ATrack, P24>(0);
	plain i_box_track [5] = data::<ATrack, (P4, Box<P24>, P1)>(0);
	plain i_nest_track [5] = data::<ATrack, DNest>(0);
	loops l_vec_track [5] = data_loop::<ATrack, (P4, Vec<P16>, P1), P16>(0);
	loops l_vec_p24_track [5] = data_loop::<ATrack, (P4, Vec<P24>, P1), P24>(0);
	loops l_array_track [5] = data_array::<ATrack, P8, 300>(0);
	loops l_array_offset [5] = data_array::<AOffset, P8, 300>(0);
	loops l_array_complete [5] = data_array::<AComplete, P8, 300>(0);
	plain i_value_offset [5] = value::<AOffset, P24>(0);
	plain i_box_offset [5] = data::<AOffset, (P4, Box<P24>, P1)>(0);
	plain i_nest_offset [5] = data::<AOffset, DNest>(0);
	loops l_vec_offset [5] = data_loop::<AOffset, (P4, Vec<P16>, P1), P16>(0);
	loops l_vec_p24_offset [5] = data_loop::<AOffset, (P4, Vec<P24>, P1), P24>(0);
	plain i_value_complete [5] = value::<AComplete, P24>(0);
	plain i_box_complete [5] = data::<AComplete, (P4, Box<P24>, P1)>(0);
	plain i_nest_complete [5] = data::<AComplete, DNest>(0);
	loops l_vec_complete [5] = data_loop::<AComplete, (P4, Vec<P16>, P1), P16>(0);
	loops l_vec_p24_complete [5] = data_loop::<AComplete, (P4, Vec<P24>, P1), P24>(0);
	plain h_process_track_u16 [3] = process::<ATrack, u16>(true);
	plain h_process_track [3] = process::<ATrack, W24>(true);
	plain h_process_offset [3] = process::<AOffset, W24>(true);
	plain h_process_complete [3] = process::<AComplete, W24>(true);
	plain h_push_track [3] = pushes::<ATrack, u16>();
	plain h_push_offset [3] = pushes::<AOffset, u16>();
	plain h_push_complete [3] = pushes::<AComplete, u16>();
	plain h_track_mid [5] = tracked::<ATrack, Mid>(true, 3);
	plain h_offset_mid [5] = tracked::<AOffset, Mid>(true, 3);
	plain h_complete_mid [5] = tracked::<AComplete, Mid>(true, 3);
	plain h_track_top [9] = tracked::<ATrack, Top>(true, 6);
	plain h_complete_two [9] = tracked::<AComplete, (Spot, Box<Leaf>, Spot)>(true, 3);
	native n_complete_top [1] = tracked::<AComplete, Top>(true, 6);
	thorough b_track_vec [7] = tracked::<ATrack, (Vec<Leaf>, Spot)>(true, 1);
	thorough b_complete_vec [7] = tracked::<AComplete, (Vec<Leaf>, Spot)>(true, 1);
	plain b_real_offset [20] = reals::<O, Mid>(0, 3, 3);
	plain b_real_complete [20] = reals::<C, Mid>(0, 3, 3);
	plain b_real_vec [20] = reals::<C, (Vec<Leaf>, Spot)>(0, 3, 1);
	thorough h_offset_top [9] = tracked::<AOffset, Top>(true, 6);
	native n_real_offset_top [1] = reals::<O, Top>(0, 1, 6);
	native n_real_complete_top [1] = reals::<C, (Vec<Leaf>, Vec<Box<Leaf>>, Spot)>(0, 1, 1);
	native n_track_vec [1] = tracked::<ATrack, (Vec<Leaf>, Vec<Box<Leaf>>, Spot)>(true, 1);
	native n_complete_vec [1] = tracked::<AComplete, (Vec<Leaf>, Vec<Box<Leaf>>, Spot)>(true, 1);
}
