//! C17: big integers.
use crate::abs::*;
use crate::base::*;
use crate::ind::*;
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use num_bigint::*;
use ser_raw::*;
use std::mem::{align_of, size_of, transmute, ManuallyDrop};

type D = u64;

/// Where the digits' vector is inside a `BigInt`
fn data_at() -> usize {
	// a `BigUint` made of a vector with a recognisable length
	let fake: BigUint = unsafe { transmute(Vec::<D>::from_raw_parts(8 as *mut D, 0x5EED, 0x5EED)) };
	let b = ManuallyDrop::new(BigInt::from_biguint(Sign::Plus, fake));
	let w = &b as *const _ as *const usize;
	let v = vec_words::<D>();
	if unsafe { *w.add(v.1 / 8) } == 0x5EED {
		0
	} else {
		8
	}
}
fn words_of(x: &BigUint) -> &Vec<D> {
	unsafe { &*(x as *const BigUint as *const Vec<D>) }
}
fn natural(v: Vec<D>) -> BigUint {
	// a natural has no leading zero digit
	assume(v.len() == 0 || v[v.len() - 1] != 0);
	unsafe { transmute(v) }
}
fn signed(b: BigUint) -> BigInt {
	BigInt::from_biguint(if any() { Sign::Plus } else { Sign::Minus }, b)
}

impl Shape for BigUint {
	fn make(ch: &mut Ch) -> Self {
		if NATIVE && any() {
			// by arithmetic
			let mut b = BigUint::from(any::<u64>());
			for _ in 0..range(0, 5) {
				b = b * any::<u64>() + any::<u32>();
			}
			return b >> range(0, 80);
		}
		natural(Vec::<D>::make(ch))
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		words_of(self).check(c, pos);
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
	fn sym() -> Self {
		natural(<Vec<D> as Shape>::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		Shape::wants(words_of(self), e, pos);
	}
}
impl Shape for BigInt {
	fn make(ch: &mut Ch) -> Self {
		signed(BigUint::make(ch))
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		let d = data_at();
		let x = unsafe { &*((self as *const _ as usize + d) as *const BigUint) };
		x.check(c, pos + d);
		if c.on(VALUES) {
			let s = if d == 0 { 24 } else { 0 };
			check!(
				c.get::<u8>(pos + s) == unsafe { *((self as *const _ as usize + s) as *const u8) },
				"sign equals the input's"
			);
		}
	}
	fn same(&self, o: &Self) -> bool {
		self == o
	}
	fn sym() -> Self {
		signed(<BigUint as Shape>::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let d = data_at();
		let x = unsafe { &*((self as *const _ as usize + d) as *const BigUint) };
		Shape::wants(x, e, pos + d);
	}
}

impl Ind for BigUint {
	fn sym() -> Self {
		natural(Ind::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		Ind::wants(words_of(self), e, pos);
	}
}
impl Ind for BigInt {
	fn sym() -> Self {
		signed(Ind::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let d = data_at();
		let x = unsafe { &*((self as *const _ as usize + d) as *const BigUint) };
		Ind::wants(x, e, pos + d);
	}
}

const F: u8 = FOLLOW | VALUES | CAPS | VERBATIM;
type P = PureC<16, 16, 8>;
type O = OffsetC<16, 16, 8>;
type C = CompleteC<16, 16, 8>;

/// Serialized as a vector of words: no loop does anything to them, however they are typed
fn digits<M: Derived<Abs>, T: Ind + Serialize<M>>() {
	uses::<u64>();
	data_loop::<M, T, usize>(F)
}

harnesses! {
	// any number of digits
	loops l_uint_pure [5] = digits::<APure, BigUint>();
	loops l_uint_offset [5] = digits::<AOffset, BigUint>();
	loops l_uint_complete [5] = digits::<AComplete, BigUint>();
	loops l_int_pure [5] = digits::<APure, BigInt>();
	loops l_int_offset [5] = digits::<AOffset, BigInt>();
	loops l_int_complete [5] = digits::<AComplete, BigInt>();
	plain b_uint_pure [5] = whole::<APure, BigUint>(F);
	plain b_uint_offset [5] = whole::<AOffset, BigUint>(F);
	plain b_uint_complete [5] = whole::<AComplete, BigUint>(F);
	plain b_int_pure [5] = whole::<APure, BigInt>(F);
	plain b_int_offset [5] = whole::<AOffset, BigInt>(F);
	plain b_int_complete [5] = whole::<AComplete, BigInt>(F);
	plain b_real_uint_complete [20] = images::<C, BigUint>(F, 0, 12);
	plain b_real_int_pure [20] = images::<P, BigInt>(F, 0, 1);
	native n_real_int_complete [20] = images::<C, BigInt>(F, 0, 1);
	native n_real_int_offset [20] = images::<O, BigInt>(F, 0, 1);
	native n_uint_c [1] = images::<C, (u8, BigUint)>(F, 0, 1);
	native n_int_c [1] = images::<C, Vec<(BigInt, u8)>>(F, 0, 1);
	native n_int_o [1] = images::<O, Vec<(BigInt, u8)>>(F, 0, 1);
	native n_int_p [1] = images::<P, Vec<(u8, BigInt, BigUint)>>(F, 0, 1);
	native n_long_int_c [1] = (long(66000), images::<C, (BigInt, BigUint)>(F, 0, 1));
	native n_long_int_o [1] = (long(66000), images::<O, (BigInt, BigUint)>(F, 0, 1));
}
