//! C01: complete output is a valid image of the input.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::shapes::*;

const F: u8 = FOLLOW | VALUES;
type C = CompleteC<16, 16, 8>;
type C1 = CompleteC<32, 32, 1>;
type A = AComplete;
type D<const N: usize> = DComplete<Move<N>>;

harnesses! {
	// structural induction: elements of any type, vectors of any length
	plain i_value_p24 [5] = value::<A, P24>(F);
	plain i_box [5] = data::<A, Box<P24>>(F);
	plain i_option [5] = data::<A, Option<Box<P2>>>(F);
	plain i_array [5] = data::<A, [P10; 3]>(F);
	loops l_array_p8 [5] = data_array::<A, P8, 1000>(F);
	plain h_primitives [3] = primitives::<A>();
	plain i_tuple [5] = data::<A, (P1, Box<P16>, P4)>(F);
	plain i_string [5] = data::<A, (String, P2)>(F);
	plain i_dnamed [5] = data::<A, DNamed>(F);
	plain i_dtuple [5] = data::<A, DTuple>(F);
	plain i_dnest [5] = data::<A, DNest>(F);
	plain i_denum [5] = data::<A, DEnum>(F);
	loops l_vec_u16 [5] = data_loop::<A, Vec<u16>, u16>(F);
	loops l_vec_p1 [5] = data_loop::<A, Vec<P1>, P1>(F);
	loops_thorough l_vec_p10 [5] = data_loop::<A, Vec<P10>, P10>(F);
	loops l_vec_p24 [5] = data_loop::<A, Vec<P24>, P24>(F);
	loops l_vec_p48 [5] = data_loop::<A, Vec<P48>, P48>(F);
	// per-function contracts, any storage state, any moves
	plain h_push_u8 [3] = pushes::<A, u8>();
	plain h_push_w24 [3] = pushes::<A, W24>();
	plain h_push_a16 [3] = pushes::<A, A16>();
	plain h_process_u32 [3] = process::<A, u32>(true);
	plain h_process_w24 [3] = process::<A, W24>(true);
	// whole values, any storage state, any moves
	plain h_box [3] = whole::<A, Box<u32>>(F);
	plain h_box_box [3] = whole::<A, Box<Box<u64>>>(F);
	plain h_box_al16 [3] = whole::<A, (u8, Box<Al16>)>(F);
	plain h_string [5] = whole::<A, String>(F);
	plain h_box_string [5] = whole::<A, Box<String>>(F);
	plain h_option [3] = whole::<A, Option<Box<u16>>>(F);
	plain h_array [4] = whole::<A, [Box<u16>; 2]>(F);
	plain h_tuple [3] = whole::<A, Tuple>(F);
	thorough b_vec_box [5] = whole::<A, Vec<Box<u8>>>(F);
	thorough b_enum [5] = whole::<A, Enum>(F);
	thorough b_vec_string [5] = whole::<A, Vec<String>>(F);
	thorough b_named [5] = whole::<A, Named>(F);
	// real storage, finalized: enumerated structures, any contents
	plain b_real_box [20] = images::<C, Box<u32>>(F, 0, 3);
	plain b_real_vec [20] = images::<C, Vec<u16>>(F, 0, 9);
	plain b_real_vec_box [20] = images::<C, Vec<Box<u8>>>(F, 0, 4);
	plain b_real_named [20] = images::<C1, Named>(F, 0, 4);
	plain b_real_list [20] = images::<C, List>(F, 0, 3);
	plain b_real_enum [20] = images::<C1, Enum>(F, 0, 7);
	plain b_real_string [20] = images::<C, (u8, String)>(F, 0, 6);
	// any moves among three addresses, finalized
	plain b_moved_box [26] = moves::<D<128>, Box<Box<u16>>, 128>(F, 0, 1);
	plain b_moved_box1 [26] = moves::<D<128>, Box<Box<u16>>, 128>(F, 3, 4);
	plain b_moved_tuple [26] = moves::<D<128>, Tuple, 128>(F, 4, 5);
	thorough b_moved_box_all [26] = moves::<D<128>, Box<Box<u16>>, 128>(F, 0, 6);
	thorough b_moved_tuple_all [26] = moves::<D<128>, Tuple, 128>(F, 0, 6);
	thorough b_moved_vec_string [26] = moves::<D<256>, Vec<String>, 256>(F, 0, 12);
	thorough b_moved_named [26] = moves::<D<256>, Named, 256>(F, 0, 12);
	thorough b_real_named_all [20] = images::<C, Named>(F, 0, 18);
	thorough b_real_vec_box_all [20] = images::<C1, Vec<Box<u8>>>(F, 0, 18);
	native n_real_deep [1] = images::<C, Vec<Named>>(F, 0, 1);
	native n_real_deep1 [1] = images::<C1, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3])>(F, 0, 1);
	native n_real_wide [1] = images::<CompleteC<64, 32, 4>, Vec<(Box<Al16>, Al32, Vec<String>)>>(F, 0, 1);
	native n_moved_deep [1] = moves::<D<8192>, Vec<Named>, 8192>(F, 0, 1);
	native n_moved_deep1 [1] = moves::<D<8192>, (Vec<Vec<Box<u16>>>, Option<String>, [Enum; 3]), 8192>(F, 0, 1);
	native n_long_box [1] = (long(66000), images::<C, Vec<Box<u16>>>(F, 0, 1));
	native n_long_option [1] = (long(66000), images::<C1, Vec<Option<Box<u8>>>>(F, 0, 1));
	native n_long_string [1] = (long(66000), images::<C1, (u8, String)>(F, 0, 1));
	native n_long_array [1] = images::<C, [Option<Box<u8>>; 65_540]>(F, 0, 1);
	native n_moved_long [1] = (long(1100), moves::<D<65536>, Vec<Box<u16>>, 65536>(F, 0, 1));
}
