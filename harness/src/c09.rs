//! C09: sessions of several values, and existing data.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::storage::*;
use ser_raw::*;

const F: u8 = FOLLOW | VALUES;
type P = PureC<16, 16, 8>;
type O = OffsetC<16, 16, 8>;
type C = CompleteC<16, 16, 8>;
type C1 = CompleteC<32, 32, 1>;
type D<const N: usize> = DComplete<Move<N>>;

/// Two values (and a third of the first's type) on top of existing data, finalized
fn real<M: Made, T: Shape + Serialize<M>, U: Shape + Serialize<M>>(ch: &mut Ch) {
	let s: M::St = start(ch);
	let before = s.pos();
	let snap = Snap::take(&s, before);
	let mut m = M::over(s);
	let (v, u) = (T::make(ch), U::make(ch));
	let p = m.serialize_value(&v);
	let e1 = m.pos();
	let q = m.serialize_value(&u);
	let e2 = m.pos();
	let r = m.serialize_value(&v);
	let s = m.finalize();
	check!(p >= before && q >= e1 && r >= e2, "each value lies after everything stored before it");
	check!(snap.same(&s), "data that was in the storage before is unchanged");
	let mut c = ctx(&s, M::KIND, F, before);
	c.place::<T>(1);
	v.check(&mut c, p);
	c.place::<U>(1);
	u.check(&mut c, q);
	c.place::<T>(1);
	v.check(&mut c, r);
}
fn reals<M: Made, T: Shape + Serialize<M>, U: Shape + Serialize<M>>(from: usize, to: usize) {
	each(from, to, |ch| real::<M, T, U>(ch))
}

/// Same over a storage that moves among three addresses
fn moved2<T: Shape + Serialize<D<N>>, U: Shape + Serialize<D<N>>, const N: usize>(ch: &mut Ch) {
	let plan = if NATIVE {
		Plan::drawn()
	} else {
		Plan::Fixed([[0, 1, 0, 1, 0, 1], [1, 2, 0, 0, 1, 2], [0, 0, 1, 1, 0, 0], [0, 0, 0, 1, 2, 2]][ch.pick(4)])
	};
	let s = Move::<N>::start(16, plan);
	let snap = Snap::take(&s, 16);
	let mut m = D::<N>::over(s);
	let (v, u) = (T::make(ch), U::make(ch));
	let p = m.serialize_value(&v);
	let e1 = m.pos();
	let q = m.serialize_value(&u);
	m.storage_mut().relocate();
	let s = m.finalize();
	check!(p >= 16 && q >= e1, "each value lies after everything stored before it");
	check!(snap.same(&s), "data that was in the storage before is unchanged");
	let mut c = ctx(&s, Kind::Complete, F, 16);
	c.place::<T>(1);
	v.check(&mut c, p);
	c.place::<U>(1);
	u.check(&mut c, q);
}
fn moveds<T: Shape + Serialize<D<N>>, U: Shape + Serialize<D<N>>, const N: usize>(from: usize, to: usize) {
	each(from, to, |ch| moved2::<T, U, N>(ch))
}

/// A borrowed storage used by one serializer after another
fn borrowed<T: Shape + Serialize<CompleteSerializer<16, 16, 8, BIG, &'static mut S16>>>(ch: &mut Ch) {
	let s: S16 = start(ch);
	let before = s.pos();
	let raw = Box::into_raw(Box::new(s));
	let v = T::make(ch);
	let st: &'static mut S16 = unsafe { &mut *raw };
	let (p, _) = CompleteSerializer::from_storage(st).serialize(&v);
	let mid = unsafe { (*raw).pos() };
	let snap = Snap::take(unsafe { &*raw }, if unsafe { (*raw).pos() } < 8 { 0 } else { before });
	let st: &'static mut S16 = unsafe { &mut *raw };
	let (q, _) = CompleteSerializer::from_storage(st).serialize(&v);
	let s = unsafe { Box::from_raw(raw) };
	check!(p >= before && q >= mid, "each value lies after everything stored before it");
	check!(snap.same(&*s), "data that was in the storage before is unchanged");
	let mut c = ctx(&*s, Kind::Complete, F, mid);
	c.place::<T>(1);
	v.check(&mut c, q);
}

harnesses! {
	// structural induction: every value keeps what was stored before it, and lies after it
	plain i_value_c [5] = value::<AComplete, P24>(F);
	plain i_value_o [5] = value::<AOffset, P3>(F);
	plain i_value_p [5] = value::<APure, P16>(F);
	plain i_box_c [5] = data::<AComplete, Box<P24>>(F);
	plain i_box_o [5] = data::<AOffset, Box<P24>>(F);
	plain i_string_c [5] = data::<AComplete, (String, P2)>(F);
	plain i_tuple_c [5] = data::<AComplete, (P1, Box<P16>, P4)>(F);
	plain i_tuple_o [5] = data::<AOffset, (P1, Box<P16>, P4)>(F);
	plain i_denum_c [5] = data::<AComplete, DEnum>(F);
	loops l_vec_p8_c [5] = data_loop::<AComplete, Vec<P8>, P8>(F);
	loops l_vec_p8_o [5] = data_loop::<AOffset, Vec<P8>, P8>(F);
	loops l_vec_p24_c [5] = data_loop::<AComplete, Vec<P24>, P24>(F);
	plain h_box_string_c [5] = session::<AComplete, Box<u32>, String>(F);
	plain h_string_box_o [5] = session::<AOffset, String, Box<Al16>>(F);
	plain h_tuple_tuple_p [5] = session::<APure, Tuple, Tuple>(F);
	plain h_option_box_c [5] = session::<AComplete, (u8, Option<Box<u8>>), Box<u16>>(F);
	plain h_scalars_c [5] = session::<AComplete, u8, u128>(F);
	plain b_real_box_box [20] = reals::<C, Box<u32>, Box<u8>>(0, 3);
	plain b_real_vec_box [20] = reals::<C, Vec<u16>, Box<u8>>(0, 1);
	plain b_real_box_string [20] = reals::<C1, Box<Al16>, String>(1, 2);
	thorough b_real_vec_box_all [20] = reals::<C, Vec<u16>, Box<u8>>(0, 3);
	thorough b_real_box_string_all [20] = reals::<C1, Box<Al16>, String>(0, 3);
	plain b_real_offset [20] = reals::<O, Box<u32>, String>(0, 3);
	plain b_real_pure [20] = reals::<P, Box<u32>, String>(0, 3);
	plain b_moved_box_box [20] = moveds::<Box<u16>, Box<u32>, 128>(0, 2);
	thorough b_moved_box_box_all [20] = moveds::<Box<u16>, Box<u32>, 128>(2, 4);
	thorough b_moved_tuple [20] = moveds::<Tuple, Box<u32>, 160>(0, 4);
	plain b_borrowed [20] = each(0, 3, |ch| borrowed::<Box<u32>>(ch));
	native n_real_deep [1] = reals::<C, Vec<Named>, (String, Vec<Box<u16>>)>(0, 1);
	native n_real_deep1 [1] = reals::<C1, Vec<Vec<u16>>, Enum>(0, 1);
	native n_offset_deep [1] = reals::<O, Vec<Named>, (String, Vec<Box<u16>>)>(0, 1);
	native n_pure_deep [1] = reals::<P, Vec<Named>, (String, Vec<Box<u16>>)>(0, 1);
	native n_moved_deep [1] = moveds::<Vec<Named>, (String, Vec<Box<u16>>), 8192>(0, 1);
	native n_borrowed_deep [1] = each(0, 1, |ch| borrowed::<Vec<Vec<Box<u16>>>>(ch));
	native n_long [1] = (long(66000), reals::<C, Vec<Box<u16>>, Vec<Box<u16>>>(0, 1));
	native n_moved_long [1] = (long(1100), moveds::<Vec<Box<u16>>, (String, Vec<Box<u16>>), 65536>(0, 1));
}
