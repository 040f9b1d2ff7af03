//! C13: serializers built with the derive macro.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::pos::{PosMapping, Ptrs};
use ser_raw::storage::*;
use ser_raw::*;

const F: u8 = FOLLOW | VALUES | CAPS | VERBATIM;
type P<const N: usize> = DPure<Move<N>>;
type T<const N: usize> = DTrack<Move<N>>;
type O<const N: usize> = DOffset<Move<N>>;
type C<const N: usize> = DComplete<Move<N>>;

/// The derived serializer's output is the built-in one's, byte for byte, pointers of complete
/// output being compared by what they lead to
fn same<M: Derived<Move<N>>, B: Made, V: Shape + Serialize<M> + Serialize<B>, const N: usize>(ch: &mut Ch) {
	let plan = if NATIVE {
		Plan::drawn()
	} else {
		Plan::Fixed([[0, 1, 0, 1, 0, 1], [1, 2, 0, 0, 1, 2]][ch.pick(2)])
	};
	let v = V::make(ch);
	let (p, s) = M::over(Move::<N>::start(0, plan)).serialize(&v);
	let (q, t) = B::over(B::St::new()).serialize(&v);
	check!(p == q, "value is at the position the built-in serializer gives it");
	check!(s.pos() == t.pos(), "output is as long as the built-in serializer's");
	let mut c = ctx(&s, M::KIND, F, 0);
	c.place::<V>(1);
	v.check(&mut c, p);
	let mut d = ctx(&t, B::KIND, F, 0);
	d.place::<V>(1);
	v.check(&mut d, q);
}
fn sames<M: Derived<Move<N>>, B: Made, V: Shape + Serialize<M> + Serialize<B>, const N: usize>(from: usize, to: usize) {
	each(from, to, |ch| same::<M, B, V, N>(ch))
}

// The forms the macro takes: storage borrowed, owned or either; no parameters, lifetimes, a where
// clause; fields in any order and with other attributes
type Vec16 = <PureC<16, 16, 8> as Made>::St;

/// Documented, without parameters
#[derive(Serializer)]
#[allow(dead_code)]
#[ser_type(pure_copy)]
struct PlainPure {
	before: u8,
	/// the storage
	#[ser_storage(Vec16)]
	storage: Vec16,
	after: u64,
}
#[derive(Serializer)]
#[ser_type(pos_tracking)]
struct EitherTrack<B: std::borrow::BorrowMut<Vec16>> {
	/// the storage
	#[ser_storage(Vec16)]
	#[allow(unused)]
	own: B,
	#[allow(unused)]
	#[ser_pos_mapping]
	map: PosMapping,
}
#[derive(Serializer)]
#[ser_type(ptr_offset)]
struct WhereOffset<S, B>
where
	B: std::borrow::BorrowMut<S>,
	S: Storage + RandomAccessStorage,
{
	#[ser_pos_mapping]
	mapping: PosMapping,
	other: std::marker::PhantomData<S>,
	#[ser_storage(S)]
	storage: B,
}
#[derive(Serializer)]
#[ser_type(complete)]
struct RefComplete<'a> {
	#[ser_ptrs]
	pointers: Ptrs,
	#[ser_storage(Vec16)]
	out: &'a mut Vec16,
	#[ser_pos_mapping]
	mapping: PosMapping,
}

fn form<V>(ch: &mut Ch)
where
	V: Shape + Serialize<PlainPure> + Serialize<EitherTrack<Vec16>> + Serialize<WhereOffset<Vec16, Vec16>>,
	V: for<'b> Serialize<RefComplete<'b>> + for<'b> Serialize<WhereOffset<Vec16, &'b mut Vec16>>,
	V: for<'b> Serialize<EitherTrack<&'b mut Vec16>>,
{
	let mut s: Vec16 = start(ch);
	let from = s.pos();
	let which = ch.pick(6);
	let v = V::make(ch);
	let mapping = PosMapping::dummy();
	let (kind, pos) = match which {
		0 => {
			let (p, t) = PlainPure { before: 1, storage: s, after: 2 }.serialize(&v);
			s = t;
			(Kind::Pure, p)
		}
		1 => {
			let (p, t) = EitherTrack { own: s, map: mapping }.serialize(&v);
			s = t;
			(Kind::Pure, p)
		}
		2 => (Kind::Pure, EitherTrack { own: &mut s, map: mapping }.serialize(&v).0),
		3 => {
			let (p, t) = WhereOffset { mapping, other: std::marker::PhantomData, storage: s }.serialize(&v);
			s = t;
			(Kind::Offset, p)
		}
		4 => (Kind::Offset, WhereOffset { mapping, other: std::marker::PhantomData, storage: &mut s }.serialize(&v).0),
		_ => (Kind::Complete, RefComplete { pointers: Ptrs::new(), out: &mut s, mapping }.serialize(&v).0),
	};
	let mut c = ctx(&s, kind, F, from);
	let placed = c.place::<V>(1);
	check!(pos == placed, "value is placed right after what was stored, plus padding");
	v.check(&mut c, pos);
	check!(s.pos() == c.cur, "output ends right after the last owned data");
}

harnesses! {
	plain b_forms_a [20] = each(0, 6, |ch| form::<Box<Box<u16>>>(ch));
	plain b_forms_b [20] = each(6, 12, |ch| form::<Box<Box<u16>>>(ch));
	plain b_forms_c [20] = each(12, 18, |ch| form::<Box<Box<u16>>>(ch));
	native n_forms [1] = each(0, 1, |ch| form::<(Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3])>(ch));
	// structural induction: elements of any type, vectors of any length
	plain i_value_pure [5] = value::<APure, P24>(F);
	plain i_box_pure [5] = data::<APure, Box<P24>>(F);
	plain i_tuple_pure [5] = data::<APure, (P1, Box<P16>, P4)>(F);
	loops l_vec_pure [5] = data_loop::<APure, Vec<P8>, P8>(F);
	plain i_value_track [5] = value::<ATrack, P24>(F);
	plain i_box_track [5] = data::<ATrack, Box<P24>>(F);
	plain i_tuple_track [5] = data::<ATrack, (P1, Box<P16>, P4)>(F);
	loops l_vec_track [5] = data_loop::<ATrack, Vec<P8>, P8>(F);
	plain i_value_offset [5] = value::<AOffset, P24>(F);
	plain i_box_offset [5] = data::<AOffset, Box<P24>>(F);
	plain i_tuple_offset [5] = data::<AOffset, (P1, Box<P16>, P4)>(F);
	loops l_vec_offset [5] = data_loop::<AOffset, Vec<P8>, P8>(F);
	plain i_value_complete [5] = value::<AComplete, P24>(F);
	plain i_box_complete [5] = data::<AComplete, Box<P24>>(F);
	plain i_tuple_complete [5] = data::<AComplete, (P1, Box<P16>, P4)>(F);
	loops l_vec_complete [5] = data_loop::<AComplete, Vec<P8>, P8>(F);
	plain h_process_pure [3] = process::<APure, W24>(true);
	plain h_process_track [3] = process::<ATrack, W24>(true);
	plain h_process_offset [3] = process::<AOffset, W24>(true);
	plain h_process_complete [3] = process::<AComplete, W24>(true);
	plain h_push_track [3] = pushes::<ATrack, u16>();
	plain h_push_offset [3] = pushes::<AOffset, u16>();
	plain h_push_complete [3] = pushes::<AComplete, u16>();
	plain h_tuple_track [5] = whole::<ATrack, Tuple>(F);
	plain h_string_track [5] = whole::<ATrack, (u8, String)>(F);
	plain h_string_offset [5] = whole::<AOffset, (u8, String)>(F);
	plain h_string_complete [5] = whole::<AComplete, (u8, String)>(F);
	plain h_overwrite_track [3] = overwrites::<ATrack, usize>(any(), 1);
	plain h_overwrite_offset [3] = overwrites::<AOffset, usize>(any(), 1);
	plain h_overwrite_complete [3] = overwrites::<AComplete, usize>(any(), 1);
	plain h_positions_track [5] = tracked::<ATrack, Mid>(true, 3);
	plain b_same_pure [20] = sames::<P<128>, PureC<16, 16, 8>, Box<Box<u16>>, 128>(0, 2);
	plain b_same_track [20] = sames::<T<128>, PureC<16, 16, 8>, Box<Box<u16>>, 128>(0, 2);
	plain b_same_offset [20] = sames::<O<128>, OffsetC<16, 16, 8>, Box<Box<u16>>, 128>(0, 2);
	plain b_same_complete [20] = sames::<C<128>, CompleteC<16, 16, 8>, Box<Box<u16>>, 128>(0, 2);
	thorough b_same_vec_complete [20] = sames::<C<128>, CompleteC<16, 16, 8>, Vec<Box<u16>>, 128>(0, 2);
	thorough b_same_vec_complete_all [20] = sames::<C<128>, CompleteC<16, 16, 8>, Vec<Box<u16>>, 128>(0, 4);
	plain b_same_vec_track [20] = sames::<T<128>, PureC<16, 16, 8>, Vec<Box<u16>>, 128>(0, 4);
	native n_same_pure [1] = sames::<P<8192>, PureC<16, 16, 8>, Vec<Named>, 8192>(0, 1);
	native n_same_track [1] = sames::<T<8192>, PureC<16, 16, 8>, Vec<Named>, 8192>(0, 1);
	native n_same_offset [1] = sames::<O<8192>, OffsetC<16, 16, 8>, Vec<Named>, 8192>(0, 1);
	native n_same_complete [1] = sames::<C<8192>, CompleteC<16, 16, 8>, Vec<Named>, 8192>(0, 1);
	native n_same_complete2 [1] = sames::<C<8192>, CompleteC<16, 16, 8>, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3]), 8192>(0, 1);
	native n_same_track2 [1] = sames::<T<8192>, PureC<16, 16, 8>, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3]), 8192>(0, 1);
	native n_positions [1] = tracked::<ATrack, Vec<Top>>(true, 0);
}
