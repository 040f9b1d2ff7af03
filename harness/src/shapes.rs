//! What serializer output has to look like, stated independently of ser_raw: a walk over the input
//! value and the output side by side.
use crate::abs::Exp;
use crate::base::*;
use crate::nd::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::{align_of, size_of, ManuallyDrop};

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Kind {
	Pure,
	Offset,
	Complete,
}

/// Pointers are followed (and must be right); otherwise targets are looked for where the layout
/// rule puts them
pub const FOLLOW: u8 = 1;
/// Values and lengths equal the input's
pub const VALUES: u8 = 2;
/// Spare capacity is normalised (complete) or copied verbatim (others)
pub const CAPS: u8 = 4;
/// Pointer words of the pure copy are verbatim
pub const VERBATIM: u8 = 8;

pub struct Ctx {
	pub out: *const u8,
	/// End of the output
	pub len: usize,
	pub kind: Kind,
	pub flags: u8,
	/// Where the layout rule puts the next allocation
	pub cur: usize,
	pub va: usize,
}

impl Ctx {
	pub fn on(&self, f: u8) -> bool {
		self.flags & f != 0
	}
	pub fn place<T>(&mut self, n: usize) -> usize {
		let p = up(self.cur, align_of::<T>());
		self.cur = up(p + n * size_of::<T>(), self.va);
		p
	}
	pub fn word(&self, pos: usize) -> usize {
		unsafe { (self.out.add(pos) as *const usize).read_unaligned() }
	}
	pub fn get<T: Copy>(&self, pos: usize) -> T {
		unsafe { (self.out.add(pos) as *const T).read_unaligned() }
	}
	/// The pointer word at `slot`, which was `orig` in the input and owns `n` values: where the
	/// copy of its target is
	pub fn target<T>(&mut self, slot: usize, orig: usize, n: usize) -> usize {
		let placed = self.place::<T>(n);
		let bytes = n * size_of::<T>();
		if self.kind == Kind::Pure {
			if self.on(VERBATIM) {
				check!(self.word(slot) == orig, "pointer is copied verbatim");
			}
		} else if self.on(FOLLOW) {
			let w = self.word(slot);
			let t = if self.kind == Kind::Complete {
				let base = self.out as usize;
				check!(w >= base && w - base <= self.len, "pointer points into the output buffer");
				check!(mult(w, align_of::<T>()), "pointer is aligned for its target");
				w - base
			} else {
				w
			};
			check!(t <= self.len && bytes <= self.len - t, "target lies inside the output");
			return t;
		}
		check!(placed <= self.len && bytes <= self.len - placed, "owned data lies inside the output");
		placed
	}
}

pub fn off<A, B>(whole: &A, part: &B) -> usize {
	part as *const B as usize - whole as *const A as usize
}

/// (pointer, length, capacity) word offsets of `Vec<T>`
pub fn vec_words<T>() -> (usize, usize, usize) {
	let v = ManuallyDrop::new(unsafe {
		Vec::<T>::from_raw_parts(std::ptr::NonNull::<T>::dangling().as_ptr(), 1001, 1002)
	});
	let w = &v as *const _ as *const usize;
	words(w)
}
fn words(w: *const usize) -> (usize, usize, usize) {
	let mut r = (0, 0, 0);
	// (not a `for`: the loop rule takes loops over ranges to be those of the code under contract)
	let mut i = 0;
	while i < 3 {
		let x = unsafe { *w.add(i) };
		if x == 1001 {
			r.1 = i * 8
		} else if x == 1002 {
			r.2 = i * 8
		} else {
			r.0 = i * 8
		}
		i += 1;
	}
	r
}
pub fn string_words() -> (usize, usize, usize) {
	let s = ManuallyDrop::new(unsafe { String::from_raw_parts(1 as *mut u8, 1001, 1002) });
	words(&s as *const _ as *const usize)
}

/// Structural choices (lengths, variants, nesting, where the storage starts): symbolically they
/// are enumerated, each with arbitrary contents; natively they are drawn.
pub struct Ch(usize);
impl Ch {
	pub fn pick(&mut self, n: usize) -> usize {
		if NATIVE {
			range(0, n - 1)
		} else {
			let r = self.0 % n;
			self.0 /= n;
			r
		}
	}
}

/// Runs `f` for the structures numbered `from..to`
pub fn each(from: usize, to: usize, f: impl Fn(&mut Ch)) {
	if NATIVE {
		return f(&mut Ch(0));
	}
	let mut i = from;
	while i < to {
		let mut ch = Ch(i);
		f(&mut ch);
		reached!(i == from, "first structure");
		i += 1;
	}
}

pub trait Shape: Sized {
	fn make(ch: &mut Ch) -> Self;
	/// The copy of `self` at `pos` in the output is right
	fn check(&self, c: &mut Ctx, pos: usize);
	/// Value equality, on the output viewed in place (complete serializers)
	fn same(&self, o: &Self) -> bool;
	/// An arbitrary value: lengths, capacities and variants symbolic as well
	fn sym() -> Self {
		Self::make(&mut Ch(0))
	}
	/// Adds to `e` what the copy of `self` at `pos`, and the data it owns, should be
	fn wants(&self, e: &mut Exp, pos: usize) {}
}

macro_rules! scalar {
	($($t:ty),*) => {$(
		impl Shape for $t {
			fn make(ch: &mut Ch) -> Self {
				any()
			}
			fn check(&self, c: &mut Ctx, pos: usize) {
				if c.on(VALUES) {
					check!(c.get::<$t>(pos) == *self, "copied bytes equal the input's");
				}
			}
			fn same(&self, o: &Self) -> bool {
				*self == *o
			}
		}
	)*};
}
scalar!(u8, u16, u32, u64, usize, i8, i64, u128);

impl Shape for () {
	fn make(_: &mut Ch) -> Self {}
	fn check(&self, _: &mut Ctx, _: usize) {}
	fn same(&self, _: &Self) -> bool {
		true
	}
}

impl<T: Shape> Shape for Box<T> {
	fn make(ch: &mut Ch) -> Self {
		Box::new(T::make(ch))
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		let orig = &**self as *const T as usize;
		if size_of::<T>() == 0 {
			check!(c.word(pos) == orig, "box of a zero-sized value keeps its pointer");
			return;
		}
		let t = c.target::<T>(pos, orig, 1);
		(**self).check(c, t);
	}
	fn same(&self, o: &Self) -> bool {
		(**self).same(&**o)
	}
	fn sym() -> Self {
		Box::new(T::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		if size_of::<T>() > 0 {
			let t = e.own::<T>(pos, &**self as *const T as usize, 1);
			(**self).wants(e, t);
		}
	}
}

/// (length, capacity)
fn sizes(ch: &mut Ch) -> (usize, usize) {
	match ch.pick(6) {
		0 => (2, 3),
		1 => (0, 1),
		2 => (1, 1),
		3 => (0, 0),
		4 => (2, 2),
		_ => (1, 3),
	}
}

/// Length of the next sequence built, if it is to be a long one
#[cfg(not(kani))]
static LONG: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// The next sequence built has about `n` elements
#[cfg(not(kani))]
pub fn long(n: usize) {
	LONG.store(n, std::sync::atomic::Ordering::Relaxed)
}

fn build<T>(ch: &mut Ch, mut item: impl FnMut(&mut Ch) -> T) -> Vec<T> {
	#[cfg(not(kani))]
	let long = LONG.swap(0, std::sync::atomic::Ordering::Relaxed);
	#[cfg(kani)]
	let long = 0;
	let (n, cap) = if long > 0 {
		// around the powers of two, most often the largest
		let k = range(0, 14);
		let n = if k < 11 { long } else { (1 << (k - 1)).min(long) } + range(0, 4) - 2;
		(n, n + range(0, 3))
	} else if NATIVE {
		// now and then a long one
		let most = match range(0, 31) {
			0 => 2000 / (size_of::<T>() + 1) + 6,
			1 | 2 => 40 / (size_of::<T>() / 16 + 1),
			_ => 5,
		};
		let n = range(0, most);
		(n, n + range(0, 3))
	} else {
		sizes(ch)
	};
	let mut v: Vec<T> = if cap == 0 { Vec::new() } else { Vec::with_capacity(cap) };
	let mut i = 0;
	while i < n {
		let x = item(ch);
		// no `push`: nothing here may grow
		unsafe {
			std::ptr::write(v.as_mut_ptr().add(i), x);
			v.set_len(i + 1);
		}
		i += 1;
	}
	v
}

impl<T: Shape> Shape for Vec<T> {
	fn make(ch: &mut Ch) -> Self {
		build(ch, |ch| T::make(ch))
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		if size_of::<T>() == 0 {
			let w = self as *const _ as *const usize;
			let mut i = 0;
			while i < 3 {
				check!(c.word(pos + 8 * i) == unsafe { *w.add(i) }, "vector of zero-sized values keeps its header");
				i += 1;
			}
			return;
		}
		let (p, l, k) = vec_words::<T>();
		seq(c, pos, (p, l, k), self.as_ptr() as usize, self.len(), self.capacity(), self);
	}
	fn same(&self, o: &Self) -> bool {
		self.len() == o.len() && (0..self.len()).all(|i| self[i].same(&o[i]))
	}
	fn sym() -> Self {
		if NATIVE {
			return build(&mut Ch(0), |_| T::sym());
		}
		// up to 2 elements, any capacity
		let n = range(0, 2);
		let cap = range(n, 1 << 40);
		let a = ManuallyDrop::new(Box::new([T::sym(), T::sym()]));
		let p = &**a as *const [T; 2] as *mut T;
		// an unallocated vector has a dangling pointer
		let p = if cap == 0 || size_of::<T>() == 0 { std::ptr::NonNull::dangling().as_ptr() } else { p };
		unsafe { Vec::from_raw_parts(p, n, cap) }
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let t = e.seq::<T>(pos, self as *const _ as usize, vec_words::<T>(), self.as_ptr() as usize, self.len(), self.capacity());
		if size_of::<T>() > 0 {
			let mut i = 0;
			while i < self.len() {
				self[i].wants(e, t + i * size_of::<T>());
				i += 1;
			}
		}
	}
}

/// The header of a vector or string at `pos`, and its contents
fn seq<T: Shape>(c: &mut Ctx, pos: usize, w: (usize, usize, usize), ptr: usize, len: usize, cap: usize, items: &[T]) {
	if c.on(VALUES) {
		check!(c.word(pos + w.1) == len, "length equals the input's");
	}
	if c.on(CAPS) {
		let k = c.word(pos + w.2);
		if c.kind == Kind::Complete {
			check!(k == len, "capacity equals the length");
		} else {
			check!(k == cap, "capacity is copied verbatim");
		}
	}
	if len == 0 {
		let p = c.word(pos + w.0);
		if c.kind == Kind::Complete {
			check!(p != 0 && mult(p, align_of::<T>()), "pointer of an empty sequence is aligned and not null");
			check!(cap == 0 || p != ptr, "pointer of an empty sequence does not lead into the input");
		} else if c.on(VERBATIM) {
			check!(p == ptr, "pointer of an empty sequence is copied verbatim");
		}
		return;
	}
	let t = c.target::<T>(pos + w.0, ptr, len);
	let mut i = 0;
	while i < items.len() {
		items[i].check(c, t + i * size_of::<T>());
		i += 1;
	}
}

impl Shape for String {
	fn make(ch: &mut Ch) -> Self {
		unsafe { String::from_utf8_unchecked(build(ch, |_| any::<u8>() & 0x7f)) }
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		seq(c, pos, string_words(), self.as_ptr() as usize, self.len(), self.capacity(), self.as_bytes());
	}
	fn same(&self, o: &Self) -> bool {
		self.as_bytes() == o.as_bytes()
	}
	fn sym() -> Self {
		if NATIVE {
			return Self::make(&mut Ch(0));
		}
		// any length, any capacity
		let n = range(0, 1 << 40);
		let cap = range(n, 1 << 40);
		let a = any_slice::<u8>(cap);
		unsafe { String::from_raw_parts(a.as_ptr() as *mut u8, n, cap) }
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		e.seq::<u8>(pos, self as *const _ as usize, string_words(), self.as_ptr() as usize, self.len(), self.capacity());
	}
}

impl<T: Shape> Shape for Option<T> {
	fn make(ch: &mut Ch) -> Self {
		if ch.pick(2) == 0 {
			Some(T::make(ch))
		} else {
			None
		}
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		if c.kind == Kind::Complete || c.kind == Kind::Pure {
			// Viewing the copy of an owning option is safe only then
			let o = unsafe { &*(c.out.add(pos) as *const ManuallyDrop<Option<T>>) };
			if c.on(VALUES) {
				check!(o.is_some() == self.is_some(), "option has the input's variant");
			}
		}
		if let Some(x) = self {
			x.check(c, pos + off(self, x));
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Some(a), Some(b)) => a.same(b),
			(None, None) => true,
			_ => false,
		}
	}
	fn sym() -> Self {
		if any() {
			Some(T::sym())
		} else {
			None
		}
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		if let Some(x) = self {
			x.wants(e, pos + off(self, x));
		}
	}
}

impl<T: Shape, const N: usize> Shape for [T; N] {
	fn make(ch: &mut Ch) -> Self {
		std::array::from_fn(|_| T::make(ch))
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		let mut i = 0;
		while i < N {
			self[i].check(c, pos + i * size_of::<T>());
			i += 1;
		}
	}
	fn same(&self, o: &Self) -> bool {
		(0..N).all(|i| self[i].same(&o[i]))
	}
	fn sym() -> Self {
		std::array::from_fn(|_| T::sym())
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		let mut i = 0;
		while i < N {
			self[i].wants(e, pos + i * size_of::<T>());
			i += 1;
		}
	}
}

macro_rules! tup {
	($($i:tt $t:ident),*) => {
		impl<$($t: Shape),*> Shape for ($($t,)*) {
			fn make(ch: &mut Ch) -> Self {
				($($t::make(ch),)*)
			}
			fn check(&self, c: &mut Ctx, pos: usize) {
				$( self.$i.check(c, pos + off(self, &self.$i)); )*
			}
			fn same(&self, o: &Self) -> bool {
				true $( && self.$i.same(&o.$i) )*
			}
			fn sym() -> Self {
				($($t::sym(),)*)
			}
			fn wants(&self, e: &mut Exp, pos: usize) {
				$( self.$i.wants(e, pos + off(self, &self.$i)); )*
			}
		}
	};
}
tup!(0 A);
tup!(0 A, 1 B);
tup!(0 A, 1 B, 2 C);
tup!(0 A, 1 B, 2 C, 3 D);
tup!(0 A, 1 B, 2 C, 3 D, 4 E);

#[macro_export]
macro_rules! strukt {
	($n:ident { $($f:tt : $t:ty),* }) => {
		impl $crate::shapes::Shape for $n {
			fn make(ch: &mut $crate::shapes::Ch) -> Self {
				$n { $($f: <$t as $crate::shapes::Shape>::make(ch)),* }
			}
			fn check(&self, c: &mut $crate::shapes::Ctx, pos: usize) {
				$( $crate::shapes::Shape::check(&self.$f, c, pos + $crate::shapes::off(self, &self.$f)); )*
			}
			fn same(&self, o: &Self) -> bool {
				true $( && $crate::shapes::Shape::same(&self.$f, &o.$f) )*
			}
			fn sym() -> Self {
				$n { $($f: <$t as $crate::shapes::Shape>::sym()),* }
			}
			fn wants(&self, e: &mut $crate::abs::Exp, pos: usize) {
				$( $crate::shapes::Shape::wants(&self.$f, e, pos + $crate::shapes::off(self, &self.$f)); )*
			}
		}
	};
}

/// A field order that Rust reorders in memory
#[derive(Serialize)]
pub struct Named {
	pub small: u8,
	pub boxed: Box<u16>,
	pub list: Vec<u32>,
	pub tail: u8,
}
strukt!(Named { small: u8, boxed: Box<u16>, list: Vec<u32>, tail: u8 });

#[derive(Serialize)]
pub struct Tuple(pub u8, pub Box<u64>, pub Box<u8>);
strukt!(Tuple { 0: u8, 1: Box<u64>, 2: Box<u8> });

#[derive(Serialize)]
pub struct Nested<const N: usize> {
	pub before: u16,
	pub inner: [Tuple; N],
	pub after: Option<Box<u8>>,
}
impl<const N: usize> Shape for Nested<N> {
	fn make(ch: &mut Ch) -> Self {
		Nested { before: any(), inner: Shape::make(ch), after: Shape::make(ch) }
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		self.before.check(c, pos + off(self, &self.before));
		self.inner.check(c, pos + off(self, &self.inner));
		self.after.check(c, pos + off(self, &self.after));
	}
	fn same(&self, o: &Self) -> bool {
		self.before == o.before && self.inner.same(&o.inner) && self.after.same(&o.after)
	}
	fn sym() -> Self {
		Nested { before: any(), inner: Shape::sym(), after: Shape::sym() }
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		self.inner.wants(e, pos + off(self, &self.inner));
		self.after.wants(e, pos + off(self, &self.after));
	}
}

#[derive(Clone, Copy, PartialEq)]
#[repr(C, align(16))]
pub struct Al16(pub u64, pub u64);
#[derive(Clone, Copy, PartialEq)]
#[repr(C, align(32))]
pub struct Al32(pub u8);
strukt!(Al16 { 0: u64, 1: u64 });
strukt!(Al32 { 0: u8 });
impl<S: Serializer> Serialize<S> for Al16 {
	fn serialize_data(&self, _: &mut S) {}
}
impl<S: Serializer> Serialize<S> for Al32 {
	fn serialize_data(&self, _: &mut S) {}
}

#[derive(Serialize)]
pub enum Enum {
	Unit,
	One(Box<u32>),
	Two(u8, Vec<u8>),
	Fields { b: Box<u8>, a: Box<u16> },
}
impl Shape for Enum {
	fn make(ch: &mut Ch) -> Self {
		match ch.pick(4) {
			3 => Enum::Unit,
			1 => Enum::One(Shape::make(ch)),
			2 => Enum::Two(Shape::make(ch), Shape::make(ch)),
			_ => Enum::Fields { b: Shape::make(ch), a: Shape::make(ch) },
		}
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		match self {
			Enum::Unit => {}
			Enum::One(x) => x.check(c, pos + off(self, x)),
			Enum::Two(x, y) => {
				x.check(c, pos + off(self, x));
				y.check(c, pos + off(self, y));
			}
			Enum::Fields { b, a } => {
				b.check(c, pos + off(self, b));
				a.check(c, pos + off(self, a));
			}
		}
	}
	fn same(&self, o: &Self) -> bool {
		match (self, o) {
			(Enum::Unit, Enum::Unit) => true,
			(Enum::One(a), Enum::One(b)) => a.same(b),
			(Enum::Two(a, x), Enum::Two(b, y)) => a.same(b) && x.same(y),
			(Enum::Fields { b: a, a: x }, Enum::Fields { b, a: y }) => a.same(b) && x.same(y),
			_ => false,
		}
	}
	fn sym() -> Self {
		match range(0, 3) {
			3 => Enum::Unit,
			1 => Enum::One(Shape::sym()),
			2 => Enum::Two(Shape::sym(), Shape::sym()),
			_ => Enum::Fields { b: Shape::sym(), a: Shape::sym() },
		}
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		match self {
			Enum::Unit => {}
			Enum::One(x) => x.wants(e, pos + off(self, x)),
			Enum::Two(_, y) => y.wants(e, pos + off(self, y)),
			Enum::Fields { b, a } => {
				b.wants(e, pos + off(self, b));
				a.wants(e, pos + off(self, a));
			}
		}
	}
}

/// Recursive, depth at most 3
#[derive(Serialize)]
pub struct List {
	pub val: u8,
	pub next: Option<Box<List>>,
}
impl List {
	fn deep(d: usize) -> List {
		List { val: any(), next: if d > 0 { Some(Box::new(List::deep(d - 1))) } else { None } }
	}
}
impl Shape for List {
	fn make(ch: &mut Ch) -> Self {
		List::deep(if NATIVE { range(0, 6) } else { 2 - ch.pick(3) })
	}
	fn check(&self, c: &mut Ctx, pos: usize) {
		self.val.check(c, pos + off(self, &self.val));
		self.next.check(c, pos + off(self, &self.next));
	}
	fn same(&self, o: &Self) -> bool {
		self.val == o.val && self.next.same(&o.next)
	}
	fn wants(&self, e: &mut Exp, pos: usize) {
		self.next.wants(e, pos + off(self, &self.next));
	}
}

// ---- serializers under test

pub type PureC<const SA: usize, const MVA: usize, const VA: usize> =
	PureCopySerializer<SA, MVA, VA, BIG, AlignedVec<SA, MVA, VA, BIG>>;
pub type OffsetC<const SA: usize, const MVA: usize, const VA: usize> =
	PtrOffsetSerializer<SA, MVA, VA, BIG, AlignedVec<SA, MVA, VA, BIG>>;
pub type CompleteC<const SA: usize, const MVA: usize, const VA: usize> =
	CompleteSerializer<SA, MVA, VA, BIG, AlignedVec<SA, MVA, VA, BIG>>;

pub trait Made: Serializer<Storage = <Self as Made>::St, BorrowedStorage = <Self as Made>::St> {
	type St: Storage + ContiguousStorage + RandomAccessStorage;
	const KIND: Kind;
	fn over(s: Self::St) -> Self;
}
impl<const SA: usize, const MVA: usize, const VA: usize> Made for PureC<SA, MVA, VA> {
	type St = AlignedVec<SA, MVA, VA, BIG>;
	const KIND: Kind = Kind::Pure;
	fn over(s: Self::St) -> Self {
		Self::from_storage(s)
	}
}
impl<const SA: usize, const MVA: usize, const VA: usize> Made for OffsetC<SA, MVA, VA> {
	type St = AlignedVec<SA, MVA, VA, BIG>;
	const KIND: Kind = Kind::Offset;
	fn over(s: Self::St) -> Self {
		Self::from_storage(s)
	}
}
impl<const SA: usize, const MVA: usize, const VA: usize> Made for CompleteC<SA, MVA, VA> {
	type St = AlignedVec<SA, MVA, VA, BIG>;
	const KIND: Kind = Kind::Complete;
	fn over(s: Self::St) -> Self {
		Self::from_storage(s)
	}
}

pub fn ctx<S: Storage + ContiguousStorage>(s: &S, kind: Kind, flags: u8, from: usize) -> Ctx {
	Ctx { out: s.as_ptr(), len: s.pos(), kind, flags, cur: from, va: S::VALUE_ALIGNMENT }
}

/// Storage for a serializer: unallocated, nearly full (so that it has to grow), or with room,
/// holding some data or none.  Natively: anything.
pub fn start<S: Storage + ContiguousStorage>(ch: &mut Ch) -> S {
	if NATIVE {
		return any_storage(if any() { 64 } else { 4096 });
	}
	let va = S::VALUE_ALIGNMENT;
	let (cap, pos) = match ch.pick(3) {
		0 => (256, 3 * va),
		1 => (0, 0),
		_ => (64, 64 - va),
	};
	let mut s = if cap == 0 { S::new() } else { S::with_capacity(cap) };
	unsafe { s.set_pos(pos) };
	s
}

/// Serializes an arbitrary value on top of arbitrary storage, and checks the output
pub fn image<M: Made, T: Shape + Serialize<M>>(flags: u8, ch: &mut Ch) {
	let s: M::St = start(ch);
	let before = s.pos();
	let v = T::make(ch);
	let (pos, s) = M::over(s).serialize(&v);
	let mut c = ctx(&s, M::KIND, flags, before);
	let placed = c.place::<T>(1);
	if flags & FOLLOW == 0 || M::KIND == Kind::Pure {
		check!(pos == placed, "value is placed right after what was stored, plus padding");
	}
	check!(pos <= s.pos() && size_of::<T>() <= s.pos() - pos, "value lies inside the output");
	v.check(&mut c, pos);
	if flags & FOLLOW == 0 {
		check!(s.pos() == c.cur, "output ends right after the last owned data");
	}
	#[cfg(not(kani))]
	if M::KIND == Kind::Complete {
		let o = unsafe { &*(s.as_ptr().add(pos) as *const ManuallyDrop<T>) };
		check!(v.same(o), "output viewed in place equals the input");
	}
}

pub fn images<M: Made, T: Shape + Serialize<M>>(flags: u8, from: usize, to: usize) {
	each(from, to, |ch| image::<M, T>(flags, ch))
}
