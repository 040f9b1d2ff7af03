//! Who is serialized, and in which order: fields that note being serialized.
use crate::abs::*;
use crate::nd::*;
use ser_raw::*;

const MAX: usize = 34;
static mut LOG: [(usize, usize); MAX] = [(0, 0); MAX];
static mut NLOG: usize = 0;
pub fn note(id: usize, addr: usize) {
	unsafe {
		check!(NLOG < MAX, "no field is serialized again and again");
		LOG[NLOG] = (id, addr);
		NLOG += 1;
	}
}
pub fn fresh() {
	unsafe { NLOG = 0 }
}
/// Exactly these fields were serialized, in this order
pub fn logged<const N: usize>(want: [(usize, usize); N]) {
	unsafe {
		check!(NLOG == N, "every field is serialized exactly once, and nothing else");
		let mut i = 0;
		while i < N {
			check!(LOG[i] == want[i], "fields are serialized in declaration order, each from its own place");
			i += 1;
		}
	}
}
pub fn nlogged() -> usize {
	unsafe { NLOG }
}
pub fn log_at(i: usize) -> (usize, usize) {
	unsafe { LOG[i] }
}

/// A field type that notes being serialized
#[derive(Clone, Copy)]
pub struct F<const I: usize, T>(pub T);
impl<S: Serializer, const I: usize, T> Serialize<S> for F<I, T> {
	fn serialize_data(&self, _: &mut S) {
		note(I, self as *const _ as usize);
	}
}
pub fn at<T>(x: &T) -> usize {
	x as *const T as usize
}
pub fn go<T: Serialize<APure>>(v: &T) {
	fresh();
	let mut s = APure::over(Abs::any(false));
	v.serialize_data(&mut s);
	std::mem::forget(s);
}
pub fn f<const I: usize, T: Nd>() -> F<I, T> {
	F(any())
}

macro_rules! tuples {
	($($fn:ident($($i:tt),+))*) => {
		$(fn $fn() {
			// members of different sizes, so that memory order is not declaration order
			let v = ($(F::<$i, [u16; $i % 3 + 1]>([0; $i % 3 + 1]),)+);
			go(&v);
			logged([$(($i, at(&v.$i))),+]);
		})*
		/// Every tuple the crate serializes
		pub fn all_tuples(from: usize, to: usize) {
			let mut k = 0;
			$(
				if k >= from && k < to {
					$fn();
				}
				k += 1;
			)*
			check!(k == 32, "32 tuple types");
		}
	};
}
tuples! {
	t1(0)
	t2(0, 1)
	t3(0, 1, 2)
	t4(0, 1, 2, 3)
	t5(0, 1, 2, 3, 4)
	t6(0, 1, 2, 3, 4, 5)
	t7(0, 1, 2, 3, 4, 5, 6)
	t8(0, 1, 2, 3, 4, 5, 6, 7)
	t9(0, 1, 2, 3, 4, 5, 6, 7, 8)
	t10(0, 1, 2, 3, 4, 5, 6, 7, 8, 9)
	t11(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
	t12(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11)
	t13(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12)
	t14(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
	t15(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14)
	t16(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15)
	t17(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16)
	t18(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17)
	t19(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18)
	t20(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19)
	t21(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)
	t22(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)
	t23(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22)
	t24(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23)
	t25(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24)
	t26(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25)
	t27(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26)
	t28(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27)
	t29(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28)
	t30(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29)
	t31(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30)
	t32(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31)
}
