//! C08: vectors and strings are normalised to their length.
use crate::abs::*;
use crate::ind::*;
use crate::mv::*;
use crate::shapes::*;

const F: u8 = CAPS;
type C = CompleteC<16, 16, 8>;
type C1 = CompleteC<32, 32, 1>;
type A = AComplete;

harnesses! {
	// structural induction: elements of any type, vectors of any length
	plain i_string [5] = data::<A, (String, P2)>(F);
	plain i_option [5] = data::<A, (P2, Option<String>)>(F);
	loops l_vec_u8 [5] = data_loop::<A, Vec<u8>, u8>(F);
	loops l_vec_p16 [5] = data_loop::<A, Vec<P16>, P16>(F);
	loops l_vec_p3 [5] = data_loop::<A, Vec<P3>, P3>(F);
	loops_thorough l_vec_p10 [5] = data_loop::<A, Vec<P10>, P10>(F);
	loops l_vec_p48 [5] = data_loop::<A, Vec<P48>, P48>(F);
	plain h_string [5] = whole::<A, String>(F);
	plain h_box_string [5] = whole::<A, Box<String>>(F);
	plain h_tuple [5] = whole::<A, (u8, String, u16)>(F);
	plain h_option [5] = whole::<A, (Option<String>, u8)>(F);
	plain b_vec_al16 [5] = whole::<A, Vec<Al16>>(F);
	thorough b_vec_box [5] = whole::<A, Vec<Box<u16>>>(F);
	thorough b_vec_vec [5] = whole::<A, Vec<Vec<u16>>>(F);
	thorough b_named [5] = whole::<A, Named>(F);
	plain b_real_vec_u8 [20] = images::<C, Vec<u8>>(F, 0, 12);
	plain b_real_vec_al16 [20] = images::<C1, Vec<Al16>>(F, 0, 6);
	plain b_real_string [20] = images::<C, (u8, String)>(F, 0, 12);
	thorough b_vec_string [5] = whole::<A, Vec<String>>(F);
	native n_vec_named [1] = images::<C, Vec<Named>>(F, 0, 1);
	native n_vec_vec [1] = images::<C1, Vec<Vec<Al16>>>(F, 0, 1);
	native n_vec_string [1] = images::<C, (Vec<String>, String)>(F, 0, 1);
	native n_long_vec [1] = (long(66000), images::<C, Vec<(u8, u32)>>(F, 0, 1));
	native n_long_string [1] = (long(66000), images::<C1, (u8, String)>(F, 0, 1));
	native n_long_strings [1] = (long(1100), images::<C, Vec<String>>(F, 0, 1));
}
