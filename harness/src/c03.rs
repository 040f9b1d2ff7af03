//! C03: layout.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::order::*;
use crate::shapes::*;

pub type P = PureC<16, 16, 8>;
pub type O = OffsetC<16, 16, 8>;
pub type C = CompleteC<16, 16, 8>;
pub type Pq = PureC<32, 32, 1>;
pub type C1 = CompleteC<32, 32, 1>;
pub type P32 = PureC<32, 32, 32>;
const F: u8 = VALUES | VERBATIM;

harnesses! {
	// structural induction: elements of any type, vectors of any length
	plain i_value_p24 [5] = value::<APure, P24>(F);
	plain i_box [5] = data::<APure, Box<P24>>(F);
	plain i_option [5] = data::<APure, Option<Box<P2>>>(F);
	plain i_array [5] = data::<APure, [P10; 3]>(F);
	loops l_array_p2 [5] = data_array::<APure, P2, 300>(F);
	loops l_array_p24 [5] = data_array::<APure, P24, 70>(F);
	loops l_array_p1_far [5] = data_array::<APure, P1, 70_000>(F);
	loops l_array_p8_c [5] = data_array::<AComplete, P8, 1000>(F);
	plain h_primitives_p [3] = primitives::<APure>();
	plain h_primitives_c [3] = primitives::<AComplete>();
	plain h_primitives_o [3] = primitives::<AOffset>();
	plain i_tuple [5] = data::<APure, (P1, Box<P16>, P4)>(F);
	plain i_string [5] = data::<APure, (String, P2)>(F);
	plain i_dnamed [5] = data::<APure, DNamed>(F);
	plain i_denum [5] = data::<APure, DEnum>(F);
	plain i_tuple_c [5] = data::<AComplete, (P1, Box<P16>, P4)>(F);
	plain i_tuple_o [5] = data::<AOffset, (P1, Box<P16>, P4)>(F);
	plain i_value_c [5] = value::<AComplete, P3>(F);
	loops l_vec_u16 [5] = data_loop::<APure, Vec<u16>, u16>(F);
	loops l_vec_p1 [5] = data_loop::<APure, Vec<P1>, P1>(F);
	loops l_vec_p24 [5] = data_loop::<APure, Vec<P24>, P24>(F);
	loops l_vec_p48 [5] = data_loop::<APure, Vec<P48>, P48>(F);
	loops_thorough l_vec_p10_c [5] = data_loop::<AComplete, Vec<P10>, P10>(F);
	loops_thorough l_vec_p10_o [5] = data_loop::<AOffset, Vec<P10>, P10>(F);
	plain h_push_u16 [3] = pushes::<APure, u16>();
	plain h_push_w24 [3] = pushes::<APure, W24>();
	plain h_process_u32 [3] = process::<APure, u32>(true);
	plain h_process_w24 [3] = process::<APure, W24>(true);
	plain h_box_p [3] = whole::<APure, (u8, Box<Al16>)>(F);
	plain h_box_c [3] = whole::<AComplete, (u8, Box<Al16>)>(F);
	plain h_box_o [3] = whole::<AOffset, Box<Box<u16>>>(F);
	plain h_box_box_p [3] = whole::<APure, Box<Box<u16>>>(F);
	plain h_string_p [5] = whole::<APure, String>(F);
	plain h_string_c [5] = whole::<AComplete, (u8, String)>(F);
	plain h_option_p [3] = whole::<APure, (Option<Box<u16>>, Box<u8>)>(F);
	plain h_array_p [4] = whole::<APure, [Box<u16>; 2]>(F);
	plain h_tuple_p [3] = whole::<APure, Tuple>(F);
	plain h_tuple_o [3] = whole::<AOffset, Tuple>(F);
	plain h_tuples_16 [34] = all_tuples(0, 16);
	plain h_tuples_32 [34] = all_tuples(16, 32);
	plain b_vec_box_p [5] = whole::<APure, Vec<Box<u8>>>(F);
	thorough b_vec_box_c [5] = whole::<AComplete, Vec<Box<u8>>>(F);
	plain b_enum_p [5] = whole::<APure, Enum>(F);
	plain b_named_p [5] = whole::<APure, Named>(F);
	thorough b_vec_string_p [5] = whole::<APure, Vec<String>>(F);
	thorough b_nested_p [5] = whole::<APure, Nested<2>>(F);
	plain b_real_box_p [20] = images::<P, Box<u32>>(F, 0, 3);
	plain b_real_box_c [20] = images::<C, Box<u32>>(F, 0, 3);
	plain b_real_vec_p [20] = images::<Pq, Vec<u16>>(F, 0, 9);
	plain b_real_vec_c [20] = images::<C, Vec<u16>>(F, 0, 6);
	plain b_real_vec_box_p [20] = images::<P, Vec<Box<u8>>>(F, 0, 4);
	plain b_real_named_p [20] = images::<Pq, Named>(F, 0, 6);
	plain b_real_named_o [20] = images::<O, Named>(F, 0, 3);
	plain b_real_list_p [20] = images::<P, List>(F, 0, 6);
	plain b_real_enum_p [20] = images::<Pq, Enum>(F, 0, 7);
	plain b_real_string_p [20] = images::<P32, (u8, String)>(F, 0, 6);
	thorough b_real_named_all [20] = images::<P, Named>(F, 0, 18);
	thorough b_real_enum_all [20] = images::<C1, Enum>(F, 0, 18);
	native n_deep_p [1] = images::<P, Vec<Named>>(F, 0, 1);
	native n_deep_o [1] = images::<O, Vec<Named>>(F, 0, 1);
	native n_deep_c [1] = images::<C, Vec<Named>>(F, 0, 1);
	native n_deep_p1 [1] = images::<Pq, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3])>(F, 0, 1);
	native n_deep_c1 [1] = images::<C1, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3])>(F, 0, 1);
	native n_wide_p [1] = images::<PureC<64, 32, 4>, Vec<(Box<Al16>, Al32, Vec<String>)>>(F, 0, 1);
	native n_wide_p32 [1] = images::<P32, Vec<(Box<Al16>, Al32, Vec<String>)>>(F, 0, 1);
	native n_long_box [1] = (long(66000), images::<P, Vec<Box<u16>>>(F, 0, 1));
	native n_long_string [1] = (long(66000), images::<Pq, (u8, String)>(F, 0, 1));
	native n_long_option_o [1] = (long(66000), images::<O, Vec<Option<Box<u8>>>>(F, 0, 1));
	native n_long_option_c [1] = (long(66000), images::<C1, Vec<Option<Box<u8>>>>(F, 0, 1));
	native n_long_array [1] = images::<P, [Option<Box<u8>>; 65_540]>(F, 0, 1);
}
