//! Structural induction: what is proved of a container holds for every type of its elements and for
//! every length.
//!
//! A probe is an element of which nothing is known but the contract of `serialize_data`:
//!   requires  its copy has been stored, and the position reported for it (if any is) is its copy's
//!   ensures   bytes outside its copy, and stored before, are unchanged; the position only advances,
//!             storage may have moved; positions reported are as before
//! and a container's `serialize_data` is shown to satisfy that same contract, to call it for each
//! element exactly once, in order, and to do its own part.
//!
//! Loops over slices are discharged by the loop rule: the verifier replaces `slice::Iter::next` by
//! `loop_rule` below (in the `l_*` harnesses), which goes from the start of the loop to an arbitrary
//! iteration, or past the last, under the loop invariant, and after the iteration checks that the
//! invariant holds again.  The side condition, that nothing but the iterator is carried from one
//! iteration to the next, is checked of the compiled loop (lib/loops.py).
use crate::abs::*;
use crate::base::*;
use crate::nd::*;
use crate::shapes::{off, string_words, vec_words, Kind, CAPS, FOLLOW, VALUES, VERBATIM};
use ser_raw::pos::*;
use ser_raw::ser_traits::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::{align_of, size_of, ManuallyDrop};

/// Serialization of `n` values of `size` bytes at `addr`: the position before and after
#[derive(Clone, Copy)]
pub struct Entry {
	pub addr: usize,
	pub n: usize,
	pub before: usize,
	pub after: usize,
}
const MAXE: usize = if NATIVE { 8192 } else { 8 };

/// What is looked at: an arbitrary iteration of the loop, or what comes after the loop
#[derive(Clone, Copy, PartialEq)]
pub enum View {
	Step,
	Exit,
}
pub fn look_at(v: View) {
	g().view = v;
}

pub struct Ghost {
	entries: [Entry; MAXE],
	n: usize,
	/// Entries compared with the value so far
	seen: usize,
	st: *mut Abs,
	map: *const PosMapping,
	/// What the last element left
	tag: Tag,
	// the loop rule
	inside: bool,
	elem: usize,
	count: usize,
	start: usize,
	mapping: [usize; 2],
	never: bool,
	view: View,
	/// Are the elements probes (or such as own nothing)?
	probes: bool,
	/// Address, size and number of the elements of the array whose indexes are counted
	array: (usize, usize, usize),
}
pub static mut G: Ghost = Ghost {
	entries: [Entry { addr: 0, n: 0, before: 0, after: 0 }; MAXE],
	n: 0,
	seen: 0,
	st: std::ptr::null_mut(),
	map: std::ptr::null(),
	tag: Tag::Old,
	inside: false,
	elem: 0,
	count: 0,
	start: 0,
	mapping: [0; 2],
	never: false,
	view: View::Exit,
	probes: true,
	array: (0, 0, 0),
};
fn g() -> &'static mut Ghost {
	unsafe { &mut *std::ptr::addr_of_mut!(G) }
}
fn log(e: Entry) {
	let g = g();
	if NATIVE {
		assume(g.n < MAXE);
	} else {
		check!(g.n < MAXE, "no part is serialized again and again");
	}
	g.entries[g.n] = e;
	g.n += 1;
}
fn map_words() -> [usize; 2] {
	let m = g().map;
	if m.is_null() || size_of::<PosMapping>() != 16 {
		return [0; 2];
	}
	unsafe { *(m as *const [usize; 2]) }
}
fn same(a: [usize; 2], b: [usize; 2]) -> bool {
	a[0] == b[0] && a[1] == b[1]
}
pub fn watch<M: Derived<Abs>>(m: &mut M) {
	let g = g();
	g.n = 0;
	g.seen = 0;
	g.inside = false;
	g.map = m.mapping_at();
	g.st = m.storage_mut();
}

/// `serialize_data` of a probe
pub fn element<M: Derived<Abs>, T>(v: &T, m: &mut M) {
	let (a, size) = (v as *const T as usize, size_of::<T>());
	let s = m.storage();
	let (at, before, tag) = (s.g, s.pos(), s.tag);
	let mine = match tag {
		Tag::Input(x) => x >= a && x - a < size,
		_ => false,
	};
	if M::TRACKS {
		let p = m.posn(v);
		check!(p <= before && size <= before - p, "position reported lies in what was stored");
		if at >= p && at - p < size {
			check!(tag == Tag::Input(a + (at - p)), "position reported is where the value was written");
		} else {
			check!(!mine, "position reported is where the value was written");
		}
	}
	let s = m.storage_mut();
	if mine {
		if let Tag::Input(x) = tag {
			s.tag = Tag::Done(x);
		}
	}
	s.grown(a);
	let after = s.pos();
	g().tag = s.tag;
	log(Entry { addr: a, n: 1, before, after });
}

/// After the iteration the invariant holds again
fn iterated() {
	let g = g();
	let st = unsafe { &mut *g.st };
	if g.probes {
		check!(g.n == g.count + 1 && g.entries[g.n - 1].addr == g.elem, "each element is serialized exactly once");
		let e = g.entries[g.n - 1];
		check!(e.before == g.start && e.after == st.pos(), "nothing is pushed between elements");
	} else {
		check!(st.pos() == g.start, "elements that own nothing push nothing");
	}
	check!(st.tag == g.tag, "bytes are changed by the elements only");
	check!(same(map_words(), g.mapping), "positions reported are the same for each element");
	reached!(true, "for l_\\w+_step: an element was serialized");
	assume(false);
}
/// One application of the loop rule
pub fn loop_rule<'a, T>(it: &mut std::slice::Iter<'a, T>) -> Option<&'a T> {
	let g = g();
	let st = unsafe { &mut *g.st };
	let items: &'a [T] = it.as_slice();
	if g.inside {
		iterated();
	}
	let (a, n) = (items.as_ptr() as usize, items.len());
	let before = st.pos();
	let k = match g.view {
		View::Exit => n,
		View::Step => {
			assume(n > 0);
			range(0, n - 1)
		}
	};
	if k > 0 && g.probes {
		if let Tag::Input(x) = st.tag {
			if x >= a && x - a < k * size_of::<T>() {
				st.tag = Tag::Done(x);
			}
		}
		st.grown(a);
	}
	g.tag = st.tag;
	match g.view {
		View::Exit => {
			*it = items[n..].iter();
			if g.probes && n > 0 {
				log(Entry { addr: a, n, before, after: st.pos() });
			}
			None
		}
		View::Step => {
			g.inside = true;
			g.elem = &items[k] as *const T as usize;
			g.count = g.n;
			g.start = st.pos();
			g.mapping = map_words();
			*it = items[k + 1..].iter();
			Some(&items[k])
		}
	}
}
/// Same, for loops that count an array's indexes
pub fn loop_rule_range(it: &mut std::ops::Range<usize>) -> Option<usize> {
	let g = g();
	let st = unsafe { &mut *g.st };
	if g.inside {
		iterated();
	}
	let (addr, size, len) = g.array;
	let (from, to) = (it.start, it.end);
	if from >= to {
		return None;
	}
	check!(to <= len, "indexes are the array's");
	let a = addr + from * size;
	let before = st.pos();
	let k = match g.view {
		View::Exit => to,
		View::Step => range(from, to - 1),
	};
	if k > from {
		if let Tag::Input(x) = st.tag {
			if x >= a && x - a < (k - from) * size {
				st.tag = Tag::Done(x);
			}
		}
		st.grown(a);
	}
	g.tag = st.tag;
	match g.view {
		View::Exit => {
			it.start = to;
			log(Entry { addr: a, n: to - from, before, after: st.pos() });
			None
		}
		View::Step => {
			g.inside = true;
			g.elem = addr + k * size;
			g.count = g.n;
			g.start = st.pos();
			g.mapping = map_words();
			it.start = k + 1;
			Some(k)
		}
	}
}
/// Makes the verifier compile the rule for loops over `T`
pub fn uses<T: 'static>() {
	#[cfg(kani)]
	{
		if g().never {
			loop_rule::<T>(&mut [].iter());
			loop_rule_range(&mut (0..0));
		}
	}
}

pub trait Ind: Sized {
	fn sym() -> Self;
	/// Adds to `e` what the copy at `pos`, and the data owned, should be
	fn wants(&self, e: &mut Exp, pos: usize);
}
pub trait Probe: Ind + Copy + 'static {}

macro_rules! probes {
	($($n:ident $t:ty [$($r:tt)*];)*) => {$(
		#[derive(Clone, Copy)]
		#[$($r)*]
		pub struct $n(pub $t);
		impl<M: Derived<Abs>> Serialize<M> for $n {
			fn serialize_data(&self, m: &mut M) {
				element::<M, $n>(self, m)
			}
		}
		impl Ind for $n {
			fn sym() -> Self {
				$n(any())
			}
			fn wants(&self, e: &mut Exp, pos: usize) {
				done_by_probes::<$n>(e, pos, self as *const _ as usize, 1);
			}
		}
		impl Probe for $n {}
	)*};
}
probes! {
	P1 u8 [repr(C)];
	P2 u16 [repr(C)];
	P4 u32 [repr(C)];
	P8 u64 [repr(C)];
	P16 u64 [repr(C, align(16))];
}
macro_rules! probes_arr {
	($($n:ident $t:ty, $z:literal [$($r:tt)*];)*) => {$(
		#[derive(Clone, Copy)]
		#[$($r)*]
		pub struct $n(pub [$t; $z]);
		impl<M: Derived<Abs>> Serialize<M> for $n {
			fn serialize_data(&self, m: &mut M) {
				element::<M, $n>(self, m)
			}
		}
		impl Ind for $n {
			fn sym() -> Self {
				$n([any(); $z])
			}
			fn wants(&self, e: &mut Exp, pos: usize) {
				done_by_probes::<$n>(e, pos, self as *const _ as usize, 1);
			}
		}
		impl Probe for $n {}
	)*};
}
probes_arr! {
	P3 u8, 3 [repr(C)];
	P10 u16, 5 [repr(C)];
	P24 u64, 3 [repr(C)];
	P48 u64, 5 [repr(C, align(16))];
}

/// `n` probes at `addr`, copied to `pos`, are serialized next
fn done_by_probes<T>(e: &mut Exp, pos: usize, addr: usize, n: usize) {
	let g = g();
	let bytes = n * size_of::<T>();
	if e.g >= pos && e.g - pos < bytes {
		e.want = Want::Done(addr + (e.g - pos));
	}
	let mut left = n;
	let mut steps = 0;
	// by the loop rule, or one by one
	while left > 0 {
		if !NATIVE && steps == 3 {
			// some other kind of loop
			unsupported();
		}
		steps += 1;
		check!(g.seen < g.n, "every part is serialized exactly once");
		let x = g.entries[g.seen];
		g.seen += 1;
		check!(x.addr == addr + (n - left) * size_of::<T>(), "parts are serialized in order");
		check!(x.n <= left && x.n > 0, "every part is serialized exactly once");
		check!(x.before == e.cur, "nothing is pushed between the parts' own data");
		if e.g >= x.before && e.g < x.after {
			e.want = Want::Owned(x.addr);
		}
		e.cur = x.after;
		left -= x.n;
	}
}

impl<T: Ind> Ind for Box<T> {
	fn sym() -> Self {
		Box::new(T::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let t = e.own::<T>(pos, &**self as *const T as usize, 1);
		(**self).wants(e, t);
	}
}
/// Values that own nothing and whose `serialize_data` does nothing
pub trait Item: Copy + 'static {
	const PROBE: bool;
	fn item() -> Self;
}
impl<T: Probe> Item for T {
	const PROBE: bool = true;
	fn item() -> Self {
		T::sym()
	}
}
macro_rules! plain_items {
	($($t:ty),*) => {$(
		impl Item for $t {
			const PROBE: bool = false;
			fn item() -> Self {
				any()
			}
		}
	)*};
}
plain_items!(u8, u16, u32, u64, usize, i8, i64);
impl<T: Item> Ind for Vec<T> {
	fn sym() -> Self {
		let n = len_to(1 << 30);
		let cap = range(n, sel(1 << 30, n + 24));
		if NATIVE {
			let mut v = Vec::with_capacity(cap);
			for _ in 0..n {
				v.push(T::item());
			}
			return v;
		}
		let a = any_slice::<T>(cap);
		unsafe { Vec::from_raw_parts(a.as_ptr() as *mut T, n, cap) }
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let t = e.seq::<T>(pos, self as *const _ as usize, vec_words::<T>(), self.as_ptr() as usize, self.len(), self.capacity());
		if T::PROBE && self.len() > 0 {
			done_by_probes::<T>(e, t, self.as_ptr() as usize, self.len());
		}
	}
}
impl Ind for String {
	fn sym() -> Self {
		<String as crate::shapes::Shape>::sym()
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		crate::shapes::Shape::wants(self, e, pos)
	}
}
impl<T: Ind> Ind for Option<T> {
	fn sym() -> Self {
		if any() {
			Some(T::sym())
		} else {
			None
		}
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		if let Some(x) = self {
			x.wants(e, pos + off(self, x));
		}
	}
}
impl<T: Ind, const N: usize> Ind for [T; N] {
	fn sym() -> Self {
		std::array::from_fn(|_| T::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let mut i = 0;
		while i < N {
			self[i].wants(e, pos + i * size_of::<T>());
			i += 1;
		}
	}
}
/// An array of any length: its elements are looked at as one sequence
pub struct Long<T, const N: usize>(pub std::mem::MaybeUninit<[T; N]>);
impl<T, const N: usize> Long<T, N> {
	fn get(&self) -> &[T; N] {
		unsafe { &*self.0.as_ptr() }
	}
}
impl<T: Probe + Serialize<M>, M: Derived<Abs>, const N: usize> Serialize<M> for Long<T, N> {
	fn serialize_data(&self, m: &mut M) {
		g().array = (self as *const _ as usize, size_of::<T>(), N);
		self.get().serialize_data(m)
	}
}
impl<T: Probe, const N: usize> Ind for Long<T, N> {
	fn sym() -> Self {
		let mut a = std::mem::MaybeUninit::<[T; N]>::uninit();
		if NATIVE {
			for i in 0..N {
				unsafe { (a.as_mut_ptr() as *mut T).add(i).write(T::sym()) }
			}
		}
		Long(a)
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		if N > 0 {
			done_by_probes::<T>(e, pos, self as *const _ as usize, N);
		}
	}
}
/// Of arrays
pub fn data_array<M: Derived<Abs>, P: Probe + Serialize<M>, const N: usize>(flags: u8) {
	uses::<P>();
	data::<M, Long<P, N>>(flags)
}
macro_rules! itup {
	($($i:tt $t:ident),*) => {
		impl<$($t: Ind),*> Ind for ($($t,)*) {
			fn sym() -> Self {
				($($t::sym(),)*)
			}
			fn wants(&self, e: &mut Exp, pos: usize) {
				$( self.$i.wants(e, pos + off(self, &self.$i)); )*
			}
		}
	};
}
itup!(0 A);
itup!(0 A, 1 B);
itup!(0 A, 1 B, 2 C);
itup!(0 A, 1 B, 2 C, 3 D);
macro_rules! istruct {
	($n:ident { $($f:tt : $t:ty),* }) => {
		impl Ind for $n {
			fn sym() -> Self {
				$n { $($f: <$t as Ind>::sym()),* }
			}
			fn wants(&self, e: &mut Exp, pos: usize) {
				$( self.$f.wants(e, pos + off(self, &self.$f)); )*
			}
		}
	};
}
impl Ind for u8 {
	fn sym() -> Self {
		any()
	}
	fn wants(&self, _: &mut Exp, _: usize) {}
}

/// The contract of `serialize_data`, of an arbitrary value whose copy is anywhere, on an arbitrary
/// state
pub fn data<M: Derived<Abs>, T: Ind + Serialize<M>>(flags: u8) {
	let v = ManuallyDrop::new(T::sym());
	let a = &*v as *const T as usize;
	let size = size_of::<T>();
	let mut s = Abs::any(false);
	let (at, before) = (s.g, s.pos());
	assume(before >= size);
	let q = range(0, (before - size) / align_of::<T>()) * align_of::<T>();
	if at >= q && at - q < size {
		s.tag = Tag::Input(a + (at - q));
	}
	let mut m = M::over(s);
	// positions are reported relative to an enclosing value
	let d = range(0, q);
	assume(d < a);
	m.map(a - d, q - d);
	watch(&mut m);
	let mapping = map_words();
	v.serialize_data(&mut m);
	if g().view == View::Step {
		assume(false);
	}
	let mut e = Exp::new(at, before, M::KIND, flags);
	e.region(q, a, size);
	v.wants(&mut e, q);
	check!(g().seen == g().n, "every part is serialized exactly once");
	check!(m.pos() == e.cur, "output ends right after the last owned data");
	check!(same(map_words(), mapping), "positions reported afterwards are as before");
	check!(m.storage().pos() <= m.storage().capacity(), "output is inside the capacity");
	e.verify(m.storage());
	reached!(at >= q && at - q < size, "a byte of the value is the tracked one");
	reached!(at >= before, "another byte is the tracked one");
	done(m);
	#[cfg(not(kani))]
	drop(ManuallyDrop::into_inner(v));
}

/// Same, of values in loops
pub fn data_loop<M: Derived<Abs>, T: Ind + Serialize<M>, P: Item>(flags: u8) {
	uses::<P>();
	g().probes = P::PROBE;
	data::<M, T>(flags)
}

/// `serialize_value` of an arbitrary value, on an arbitrary state
pub fn value<M: Derived<Abs>, T: Probe + Serialize<M>>(flags: u8) {
	let v = T::sym();
	let s = Abs::any(false);
	let (at, before) = (s.g, s.pos());
	let mut m = M::over(s);
	watch(&mut m);
	let pos = m.serialize_value(&v);
	let mut e = Exp::new(at, before, M::KIND, flags);
	let placed = e.put::<T>(&v as *const T as usize, 1);
	check!(pos == placed, "value is at the next position that satisfies its alignment");
	v.wants(&mut e, pos);
	check!(g().seen == g().n, "every part is serialized exactly once");
	check!(m.pos() == e.cur, "output ends right after the last owned data");
	e.verify(m.storage());
	reached!(at >= pos && at < m.pos(), "a byte of the output is the tracked one");
	done(m);
}

// ---- derived types over probes
pub trait OverAbs: Derived<Abs> {}
impl<M: Derived<Abs>> OverAbs for M {}
#[derive(Serialize)]
#[ser_bound(crate::ind::OverAbs)]
pub struct DNamed {
	pub a: P1,
	pub b: Box<P24>,
	pub c: P8,
	pub d: P2,
}
istruct!(DNamed { a: P1, b: Box<P24>, c: P8, d: P2 });
#[derive(Serialize)]
#[ser_bound(crate::ind::OverAbs)]
pub struct DTuple(pub P3, pub Option<Box<P4>>, pub P16);
istruct!(DTuple { 0: P3, 1: Option<Box<P4>>, 2: P16 });
#[derive(Serialize)]
#[ser_bound(crate::ind::OverAbs)]
pub struct DNest {
	pub x: P2,
	pub t: Box<DTwo>,
}
istruct!(DNest { x: P2, t: Box<DTwo> });
#[derive(Serialize)]
#[ser_bound(crate::ind::OverAbs)]
pub struct DTwo(pub P1, pub P8);
istruct!(DTwo { 0: P1, 1: P8 });
#[derive(Serialize)]
#[ser_bound(crate::ind::OverAbs)]
pub enum DEnum {
	Unit,
	One(Box<P4>),
	Two(P1, P24),
	Fields { b: P2, a: Box<P1> },
}
impl Ind for DEnum {
	fn sym() -> Self {
		match range(0, 3) {
			3 => DEnum::Unit,
			1 => DEnum::One(Ind::sym()),
			2 => DEnum::Two(Ind::sym(), Ind::sym()),
			_ => DEnum::Fields { b: Ind::sym(), a: Ind::sym() },
		}
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		match self {
			DEnum::Unit => {}
			DEnum::One(x) => x.wants(e, pos + off(self, x)),
			DEnum::Two(x, y) => {
				x.wants(e, pos + off(self, x));
				y.wants(e, pos + off(self, y));
			}
			DEnum::Fields { b, a } => {
				b.wants(e, pos + off(self, b));
				a.wants(e, pos + off(self, a));
			}
		}
	}
}

/// Types that own nothing: `serialize_data` does nothing at all
fn does_nothing<M: Derived<Abs>, T: Serialize<M>>(m: &mut M, v: T) {
	let s = m.storage();
	let (pos, cap, base, tag) = (s.pos(), s.capacity(), s.base(), s.tag);
	let mapping = map_words();
	v.serialize_data(m);
	let s = m.storage();
	check!(
		s.pos() == pos && s.capacity() == cap && s.base() == base && s.tag == tag,
		"a value that owns nothing writes nothing"
	);
	check!(same(map_words(), mapping), "positions reported are as before");
}
pub fn primitives<M: Derived<Abs>>() {
	use std::num::*;
	let mut m = M::over(Abs::any(false));
	let a = range(1, 1 << 40);
	m.map(a, range(0, 1 << 20));
	watch(&mut m);
	macro_rules! each {
		($($t:ty),*) => { $( does_nothing::<M, $t>(&mut m, any()); )* };
	}
	macro_rules! nonzero {
		($($t:ident $i:ty),*) => { $(
			let x: $i = any();
			if x != 0 {
				does_nothing::<M, $t>(&mut m, $t::new(x).unwrap());
			}
		)* };
	}
	each!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, bool);
	nonzero!(NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64, NonZeroU128 u128, NonZeroUsize usize);
	nonzero!(NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64, NonZeroI128 i128, NonZeroIsize isize);
	does_nothing::<M, f32>(&mut m, f32::from_bits(any()));
	does_nothing::<M, f64>(&mut m, f64::from_bits(any()));
	let c: u32 = any();
	if let Some(c) = char::from_u32(c) {
		does_nothing::<M, char>(&mut m, c);
	}
	does_nothing::<M, ()>(&mut m, ());
	done(m);
}
