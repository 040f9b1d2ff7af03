//! C02: pointer-offset output holds each pointee's byte index.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::shapes::*;

const F: u8 = FOLLOW | VALUES | CAPS;
type O = OffsetC<16, 16, 8>;
type O1 = OffsetC<32, 32, 1>;
type A = AOffset;
type D<const N: usize> = DOffset<Move<N>>;

harnesses! {
	// structural induction: elements of any type, vectors of any length
	plain i_value_p24 [5] = value::<A, P24>(F);
	plain i_box [5] = data::<A, Box<P24>>(F);
	plain i_option [5] = data::<A, Option<Box<P2>>>(F);
	plain i_array [5] = data::<A, [P10; 3]>(F);
	loops l_array_p8 [5] = data_array::<A, P8, 1000>(F);
	plain h_primitives [3] = primitives::<A>();
	plain i_tuple [5] = data::<A, (P1, Box<P16>, P4)>(F);
	plain i_string [5] = data::<A, (String, P2)>(F);
	plain i_dnamed [5] = data::<A, DNamed>(F);
	plain i_denum [5] = data::<A, DEnum>(F);
	loops l_vec_u16 [5] = data_loop::<A, Vec<u16>, u16>(F);
	loops l_vec_p1 [5] = data_loop::<A, Vec<P1>, P1>(F);
	loops l_vec_p24 [5] = data_loop::<A, Vec<P24>, P24>(F);
	loops_thorough l_vec_p10 [5] = data_loop::<A, Vec<P10>, P10>(F);
	loops l_vec_p48 [5] = data_loop::<A, Vec<P48>, P48>(F);
	plain h_push_u8 [3] = pushes::<A, u8>();
	plain h_push_w24 [3] = pushes::<A, W24>();
	plain h_push_a16 [3] = pushes::<A, A16>();
	plain h_process_u32 [3] = process::<A, u32>(true);
	plain h_process_w24 [3] = process::<A, W24>(true);
	plain h_box [3] = whole::<A, Box<u32>>(F);
	plain h_box_box [3] = whole::<A, Box<Box<u64>>>(F);
	plain h_box_al16 [3] = whole::<A, (u8, Box<Al16>)>(F);
	plain h_string [5] = whole::<A, String>(F);
	plain h_box_string [5] = whole::<A, Box<String>>(F);
	plain h_option [3] = whole::<A, Option<Box<u16>>>(F);
	plain h_array [4] = whole::<A, [Box<u16>; 2]>(F);
	plain h_tuple [3] = whole::<A, Tuple>(F);
	thorough b_vec_box [5] = whole::<A, Vec<Box<u8>>>(F);
	thorough b_enum [5] = whole::<A, Enum>(F);
	thorough b_vec_string [5] = whole::<A, Vec<String>>(F);
	thorough b_named [5] = whole::<A, Named>(F);
	plain b_real_box [20] = images::<O, Box<u32>>(F, 0, 3);
	plain b_real_vec [20] = images::<O, Vec<u16>>(F, 0, 9);
	plain b_real_vec_box [20] = images::<O, Vec<Box<u8>>>(F, 0, 4);
	plain b_real_named [20] = images::<O1, Named>(F, 0, 4);
	plain b_real_list [20] = images::<O, List>(F, 0, 3);
	plain b_real_enum [20] = images::<O1, Enum>(F, 0, 7);
	plain b_real_string [20] = images::<O, (u8, String)>(F, 0, 6);
	thorough b_real_named_all [20] = images::<O, Named>(F, 0, 18);
	thorough b_real_vec_box_all [20] = images::<O1, Vec<Box<u8>>>(F, 0, 18);
	native n_real_deep [1] = images::<O, Vec<Named>>(F, 0, 1);
	native n_real_deep1 [1] = images::<O1, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3])>(F, 0, 1);
	native n_real_wide [1] = images::<OffsetC<64, 32, 4>, Vec<(Box<Al16>, Al32, Vec<String>)>>(F, 0, 1);
	native n_moved_deep [1] = moves::<D<8192>, Vec<Named>, 8192>(F, 0, 1);
	native n_long_box [1] = (long(66000), images::<O, Vec<Box<u16>>>(F, 0, 1));
	native n_long_option [1] = (long(66000), images::<O1, Vec<Option<Box<u8>>>>(F, 0, 1));
	native n_long_string [1] = (long(66000), images::<O1, (u8, String)>(F, 0, 1));
	native n_long_array [1] = images::<O, [Option<Box<u8>>; 65_540]>(F, 0, 1);
}
