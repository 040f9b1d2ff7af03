//! C19: corrections.
use crate::abs::*;
use crate::base::{few, up};
use crate::mv::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::pos::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::size_of;

static mut RUN: usize = 0;

/// Asks for its second half to be overwritten
#[derive(Clone, Copy)]
#[repr(C)]
pub struct Fix {
	pub a: u32,
	pub b: u32,
	pub c: u64,
}
strukt!(Fix { a: u32, b: u32, c: u64 });
impl<S: Serializer> Serialize<S> for Fix {
	fn serialize_data(&self, s: &mut S) {
		s.overwrite_with(|s| unsafe {
			RUN += 1;
			s.overwrite(S::Addr::from_ref(&self.b), &!self.b);
		});
		unsafe { s.overwrite(S::Addr::from_ref_offset(self, 8), &(!self.c as u16)) };
	}
}

/// A built-in serializer: exactly the parts asked for, or nothing
fn real<M: Made>(ch: &mut Ch) {
	unsafe { RUN = 0 };
	let s: M::St = start(ch);
	let before = s.pos();
	let v: (u16, Box<Fix>) = Shape::make(ch);
	let (pos, s) = M::over(s).serialize(&v);
	let on = M::KIND == Kind::Complete;
	check!(unsafe { RUN } == on as usize, "callback runs once on a complete serializer, never on others");
	let mut c = ctx(&s, M::KIND, 0, before);
	c.place::<(u16, Box<Fix>)>(1);
	let p = c.place::<Fix>(1);
	fixed(&c, p, &v.1, on);
}
fn fixed(c: &Ctx, p: usize, v: &Fix, on: bool) {
	check!(p + 16 <= c.len, "copy is inside the output");
	check!(c.get::<u32>(p) == v.a, "bytes before the overwritten part are the input's");
	check!(c.get::<u32>(p + 4) == if on { !v.b } else { v.b }, "overwritten part holds the new value, on a complete serializer only");
	let want = if on { v.c & !0xffff | (!v.c & 0xffff) } else { v.c };
	check!(c.get::<u64>(p + 8) == want, "overwritten part holds the new value, and no more than it");
}
fn real_vec<M: Made>(ch: &mut Ch) {
	unsafe { RUN = 0 };
	let s: M::St = start(ch);
	let before = s.pos();
	let v: Vec<Box<Fix>> = Vec::make(ch);
	let (pos, s) = M::over(s).serialize(&v);
	let on = M::KIND == Kind::Complete;
	check!(unsafe { RUN } == if on { v.len() } else { 0 }, "callbacks run once on a complete serializer, never on others");
	let mut c = ctx(&s, M::KIND, 0, before);
	c.place::<Vec<Box<Fix>>>(1);
	c.place::<Box<Fix>>(v.len());
	let mut i = 0;
	while i < v.len() {
		let p = c.place::<Fix>(1);
		fixed(&c, p, &v[i], on);
		i += 1;
	}
}

/// As long as a value can be
#[derive(Clone, Copy)]
pub struct Wide(pub [usize; 9001]);
#[cfg(not(kani))]
fn wide() -> Wide {
	let x: usize = any();
	Wide(std::array::from_fn(|i| x.wrapping_add(i.wrapping_mul(0x9E37_79B9_7F4A_7C15))))
}

/// Asks for all of itself but its first and last words to be overwritten
#[repr(C)]
pub struct FixWide {
	pub a: usize,
	pub b: Wide,
	pub c: usize,
	pub to: Wide,
}
impl<S: Serializer> Serialize<S> for FixWide {
	fn serialize_data(&self, s: &mut S) {
		unsafe { s.overwrite(S::Addr::from_ref(&self.b), &self.to) };
	}
}
#[cfg(not(kani))]
fn real_wide<M: Made>(ch: &mut Ch) {
	let s: M::St = start(ch);
	let before = s.pos();
	let v: Box<FixWide> = Box::new(FixWide { a: any(), b: wide(), c: any(), to: wide() });
	let (_, s) = M::over(s).serialize(&*v);
	let c = ctx(&s, M::KIND, 0, before);
	let p = up(before, 8);
	check!(p + size_of::<FixWide>() <= c.len, "copy is inside the output");
	let want = if M::KIND == Kind::Complete { &v.to } else { &v.b };
	check!(c.get::<usize>(p) == v.a, "bytes before the overwritten part are the input's");
	check!((0..9001).all(|i| c.get::<usize>(p + 8 + 8 * i) == want.0[i]), "overwritten part holds the new value, and no more than it");
	check!(c.get::<usize>(p + 8 + 8 * 9001) == v.c, "bytes after the overwritten part are the input's");
	check!((0..9001).all(|i| c.get::<usize>(p + 16 + 8 * (9001 + i)) == v.to.0[i]), "bytes after the overwritten part are the input's");
}

harnesses! {
	native n_wide_complete [1] = each(0, 1, |ch| real_wide::<CompleteC<16, 16, 8>>(ch));
	native n_wide_complete1 [1] = each(0, 1, |ch| real_wide::<CompleteC<32, 32, 1>>(ch));
	native n_wide_pure [1] = each(0, 1, |ch| real_wide::<PureC<16, 16, 8>>(ch));
	plain h_wide_complete [3] = overwrites_by::<AComplete, Wide>(&input(few::<Wide>())[0], 9001);
	plain h_word_pure [3] = overwrites::<APure, usize>(any(), 1);
	plain h_word_track [3] = overwrites::<ATrack, usize>(any(), 1);
	plain h_word_offset [3] = overwrites::<AOffset, usize>(any(), 1);
	plain h_word_complete [3] = overwrites::<AComplete, usize>(any(), 1);
	plain h_two_pure [3] = overwrites::<APure, [usize; 2]>(any2(), 2);
	plain h_two_track [3] = overwrites::<ATrack, [usize; 2]>(any2(), 2);
	plain h_two_offset [3] = overwrites::<AOffset, [usize; 2]>(any2(), 2);
	plain h_two_complete [3] = overwrites::<AComplete, [usize; 2]>(any2(), 2);
	plain b_real_pure [20] = each(0, 3, |ch| real::<PureC<16, 16, 8>>(ch));
	plain b_real_offset [20] = each(0, 3, |ch| real::<OffsetC<16, 16, 8>>(ch));
	plain b_real_complete [20] = each(0, 3, |ch| real::<CompleteC<16, 16, 8>>(ch));
	plain b_real_complete1 [20] = each(0, 3, |ch| real::<CompleteC<32, 32, 1>>(ch));
	native n_vec_pure [1] = each(0, 1, |ch| real_vec::<PureC<16, 16, 8>>(ch));
	native n_vec_offset [1] = each(0, 1, |ch| real_vec::<OffsetC<16, 16, 8>>(ch));
	native n_vec_complete [1] = each(0, 1, |ch| real_vec::<CompleteC<16, 16, 8>>(ch));
	native n_vec_complete1 [1] = each(0, 1, |ch| real_vec::<CompleteC<32, 32, 1>>(ch));
}
fn any2() -> [usize; 2] {
	[any(), any()]
}
