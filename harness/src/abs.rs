//! Modular verification of the serializers: they run over an abstract storage which is nothing but
//! the storage contract (proved for `AlignedVec` by C04..C07).  It starts in an arbitrary state, may
//! move to an arbitrary address (also back to an earlier one), grow early or stay put at any
//! reservation, and tracks where one arbitrary byte of the output comes from.  What is proved of
//! that byte holds for every byte.
use crate::base::*;
use crate::nd::*;
use crate::shapes::*;
use ser_raw::pos::*;
use ser_raw::ser_traits::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::{align_of, size_of, ManuallyDrop};

#[derive(Clone, Copy, PartialEq)]
pub enum Tag {
	/// Not written since the start (or padding)
	Old,
	/// Copy of the input byte at this address
	Input(usize),
	/// Byte `i` of the word `w`, written while the buffer was at `base`
	Word { w: usize, i: usize, base: usize },
	/// Some other write
	Other,
	/// Copy of the input byte at this address, seen to by the element it belongs to
	Done(usize),
	/// Pushed by the element at this address
	Owned(usize),
}

pub const VA: usize = 8;
pub const MVA: usize = 16;

pub struct Abs {
	cap: usize,
	pos: usize,
	base: usize,
	/// The byte tracked, and what it holds
	pub g: usize,
	pub tag: Tag,
	/// May `reserve` push the position forward?
	pub skips: bool,
	/// Where `reserve` last pushed the position to
	pub floor: usize,
}

/// An operation of the storage this model has no answer for: undecided, not a violation
pub fn unsupported() -> ! {
	#[cfg(kani)]
	{
		kani::assert(false, "UNSUPPORTED: storage operation outside the abstract model");
		kani::assume(false);
		loop {}
	}
	#[cfg(not(kani))]
	std::panic::panic_any(Reject)
}

const MAXB: usize = 1 << 46;

impl Abs {
	pub fn any(skips: bool) -> Abs {
		let cap = range(0, sel(BIG, 1 << 20) / MVA) * MVA;
		let pos = range(0, cap / VA) * VA;
		let base = range(1, MAXB) * MVA;
		// any byte at all; natively and in counterexamples, one near the position
		let g = pos.wrapping_sub(128).wrapping_add(range(0, sel(usize::MAX, 640)));
		Abs { cap, pos, base, g, tag: Tag::Old, skips, floor: 0 }
	}
	fn relocate(&mut self) {
		self.base = range(1, MAXB) * MVA;
	}
	pub fn base(&self) -> usize {
		self.base
	}
	/// Something at `by` pushed data of its own
	pub fn grown(&mut self, by: usize) {
		let old = self.pos;
		assume(old < 1 << 45);
		let n = range(0, sel(1 << 30, 40)) * VA;
		if n == 0 {
			return;
		}
		self.pos += n;
		if self.pos > self.cap || any::<bool>() {
			let need = up(self.pos, MVA);
			self.cap = if need > self.cap { need } else { self.cap } + range(0, 1 << 20) * MVA;
			self.relocate();
		}
		if self.g >= old && self.g < self.pos {
			self.tag = Tag::Owned(by);
		}
	}
}

impl Storage for Abs {
	const STORAGE_ALIGNMENT: usize = MVA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = 1 << 46;

	fn new() -> Abs {
		unsupported()
	}
	unsafe fn with_capacity_unchecked(_: usize) -> Abs {
		unsupported()
	}
	fn capacity(&self) -> usize {
		self.cap
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, p: usize) {
		check!(p <= self.cap, "position set is inside the capacity");
		check!(mult(p, VA), "position set is a multiple of VALUE_ALIGNMENT");
		self.pos = p;
	}
	unsafe fn push_slice_unchecked<T>(&mut self, slice: &[T], size: usize) {
		check!(size == size_of::<T>() * slice.len(), "size given is the slice's");
		check!(self.pos <= self.cap && size <= self.cap - self.pos, "push fits the capacity");
		check!(mult(self.pos, align_of::<T>()), "position is aligned for the value pushed");
		if self.g >= self.pos && self.g - self.pos < size {
			self.tag = Tag::Input(slice.as_ptr() as usize + (self.g - self.pos));
		}
		self.pos += size;
	}
	fn reserve(&mut self, additional: usize) {
		assume(additional < 1 << 44 && self.pos < 1 << 45);
		if self.skips && any::<bool>() {
			// a storage may alter its position in `reserve`, keeping it aligned
			let by = range(0, 3) * MVA;
			self.pos += by;
			self.floor = self.pos;
			if self.pos > self.cap {
				self.cap = up(self.pos, MVA);
				self.relocate();
			}
		}
		if additional > self.cap - self.pos || any::<bool>() {
			let need = up(self.pos + additional, MVA);
			let least = if need > self.cap { need } else { self.cap };
			let extra = range(0, 1 << 20) * MVA;
			self.cap = least + extra;
			self.relocate();
		}
	}
	fn shrink_to_fit(&mut self) {
		unsupported()
	}
}

impl RandomAccessStorage for Abs {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		let size = size_of::<T>() * slice.len();
		check!(pos <= self.cap && size <= self.cap - pos, "write is inside the capacity");
		check!(mult(pos, align_of::<T>()), "position written is aligned for the value");
		if self.g >= pos && self.g - pos < size {
			let o = self.g - pos;
			let src = slice.as_ptr() as *const u8;
			self.tag = if o / 8 * 8 + 8 <= size {
				let w = (src.add(o / 8 * 8) as *const usize).read_unaligned();
				Tag::Word { w, i: o % 8, base: self.base }
			} else {
				Tag::Other
			};
		}
	}
	unsafe fn read<T>(&self, _: usize) -> &T {
		unsupported()
	}
	unsafe fn read_mut<T>(&mut self, _: usize) -> &mut T {
		unsupported()
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		check!(pos <= self.cap, "position is inside the capacity");
		(self.base + pos) as *const u8
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		check!(pos <= self.cap, "position is inside the capacity");
		(self.base + pos) as *mut u8
	}
}

impl ContiguousStorage for Abs {
	fn as_ptr(&self) -> *const u8 {
		self.base as *const u8
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.base as *mut u8
	}
}

// ---- serializers derived over any storage

#[derive(Serializer)]
#[ser_type(pure_copy)]
pub struct DPure<S: Storage> {
	#[ser_storage(S)]
	pub storage: S,
}

#[derive(Serializer)]
#[ser_type(pos_tracking)]
pub struct DTrack<S: Storage> {
	#[ser_pos_mapping]
	pub mapping: PosMapping,
	#[ser_storage(S)]
	pub storage: S,
}

#[derive(Serializer)]
#[ser_type(ptr_offset)]
pub struct DOffset<S: Storage + RandomAccessStorage> {
	#[ser_storage(S)]
	pub storage: S,
	#[ser_pos_mapping]
	pub mapping: PosMapping,
}

#[derive(Serializer)]
#[ser_type(complete)]
pub struct DComplete<S: Storage + RandomAccessStorage + ContiguousStorage> {
	pub other: u8,
	#[ser_pos_mapping]
	pub mapping: PosMapping,
	#[ser_ptrs]
	pub ptrs: Ptrs,
	#[ser_storage(S)]
	pub storage: S,
}

/// A serializer of any kind over storage `S`
pub trait Derived<S: Storage>: Serializer<Storage = S, BorrowedStorage = S> {
	const KIND: Kind;
	const TRACKS: bool;
	fn over(s: S) -> Self;
	fn posn<T>(&self, v: &T) -> usize;
	fn map(&mut self, addr: usize, pos: usize);
	fn mapping_at(&self) -> *const PosMapping {
		std::ptr::null()
	}
}
impl<S: Storage> Derived<S> for DPure<S> {
	const KIND: Kind = Kind::Pure;
	const TRACKS: bool = false;
	fn over(s: S) -> Self {
		DPure { storage: s }
	}
	fn posn<T>(&self, _: &T) -> usize {
		0
	}
	fn map(&mut self, _: usize, _: usize) {}
}
macro_rules! derived {
	($d:ident $k:ident [$($b:tt)*] { $($f:tt)* }) => {
		impl<S: $($b)*> Derived<S> for $d<S> {
			const KIND: Kind = Kind::$k;
			const TRACKS: bool = true;
			fn over(storage: S) -> Self {
				$d { storage, mapping: PosMapping::dummy(), $($f)* }
			}
			fn posn<T>(&self, v: &T) -> usize {
				self.pos_for(v)
			}
			fn map(&mut self, addr: usize, pos: usize) {
				self.set_pos_mapping(PosMapping::new(addr, pos));
			}
			fn mapping_at(&self) -> *const PosMapping {
				self.pos_mapping()
			}
		}
	};
}
derived!(DTrack Pure [Storage] {});
derived!(DOffset Offset [Storage + RandomAccessStorage] {});
derived!(DComplete Complete [Storage + RandomAccessStorage + ContiguousStorage] { ptrs: Ptrs::new(), other: 0 });

pub type APure = DPure<Abs>;
pub type ATrack = DTrack<Abs>;
pub type AOffset = DOffset<Abs>;
pub type AComplete = DComplete<Abs>;

// ---- the expected output

/// What the tracked byte should be
#[derive(Clone, Copy, PartialEq)]
pub enum Want {
	Old,
	Input(usize),
	/// Byte `i` of the pointer to output position `t`
	Ptr { t: usize, i: usize },
	/// Byte `i` of the word; if `same`, the input has this word as well, at the address
	Word { w: usize, i: usize, same: Option<usize> },
	/// Pointer of an empty sequence: byte `i` of an aligned, non-null address other than the input's,
	/// or the input's if that had no allocation
	Dangling { align: usize, orig: usize, i: usize, same: Option<usize> },
	/// Not this property's concern
	Any,
	/// Byte of an element, as the element left it
	Done(usize),
	/// Owned data of an element
	Owned(usize),
}

pub struct Exp {
	pub g: usize,
	pub want: Want,
	pub cur: usize,
	pub kind: Kind,
	pub flags: u8,
}

impl Exp {
	pub fn new(g: usize, from: usize, kind: Kind, flags: u8) -> Exp {
		Exp { g, want: Want::Old, cur: from, kind, flags }
	}
	pub fn on(&self, f: u8) -> bool {
		self.flags & f != 0
	}
	pub fn region(&mut self, pos: usize, addr: usize, bytes: usize) {
		if self.g >= pos && self.g - pos < bytes {
			self.want = Want::Input(addr + (self.g - pos));
		}
	}
	fn word(&mut self, pos: usize, f: impl Fn(usize) -> Want) {
		if self.g >= pos && self.g - pos < 8 {
			self.want = f(self.g - pos);
		}
	}
	/// The next allocation: `n` values of `T` at `addr`
	pub fn put<T>(&mut self, addr: usize, n: usize) -> usize {
		let p = up(self.cur, align_of::<T>());
		self.cur = up(p + n * size_of::<T>(), VA);
		self.region(p, addr, n * size_of::<T>());
		p
	}
	/// Same, and owned through the pointer word at `slot`
	pub fn own<T>(&mut self, slot: usize, addr: usize, n: usize) -> usize {
		let t = self.put::<T>(addr, n);
		if self.kind != Kind::Pure {
			let on = self.on(FOLLOW);
			self.word(slot, |i| if on { Want::Ptr { t, i } } else { Want::Any });
		}
		t
	}
	/// Header of a vector or string at `pos`; returns where the contents should be
	pub fn seq<T>(&mut self, pos: usize, hdr: usize, w: (usize, usize, usize), addr: usize, len: usize, cap: usize) -> usize {
		if size_of::<T>() == 0 {
			return 0;
		}
		if self.kind == Kind::Complete {
			// the words of the header may be rewritten with the values they had
			let (on, values) = (self.on(CAPS), self.on(VALUES));
			self.word(pos + w.1, |i| match values {
				true => Want::Word { w: len, i, same: Some(hdr + w.1 + i) },
				false => Want::Any,
			});
			self.word(pos + w.2, |i| match on {
				true => Want::Word { w: len, i, same: if cap == len { Some(hdr + w.2 + i) } else { None } },
				false => Want::Any,
			});
			if len == 0 {
				self.word(pos + w.0, |i| match on {
					true => Want::Dangling {
						align: align_of::<T>(),
						orig: addr,
						i,
						same: if cap == 0 { Some(hdr + w.0 + i) } else { None },
					},
					false => Want::Any,
				});
			}
		}
		if len == 0 {
			return 0;
		}
		self.own::<T>(pos + w.0, addr, len)
	}
	/// The tracked byte of `s` is what it should be
	pub fn verify(&self, s: &Abs) {
		match self.want {
			Want::Any => {}
			Want::Done(_) | Want::Owned(_) | Want::Input(_) | Want::Old if !self.on(VALUES) => {}
			Want::Done(a) => check!(s.tag == Tag::Done(a), "element's copy is as the element's serialization left it"),
			Want::Owned(a) => check!(s.tag == Tag::Owned(a), "element's own data is left alone"),
			Want::Old => check!(s.tag == Tag::Old, "bytes outside the value and its data are untouched"),
			Want::Input(a) => check!(s.tag == Tag::Input(a), "byte is the copy of the input's byte"),
			Want::Ptr { t, i } => {
				let ok = match s.tag {
					Tag::Word { w, i: j, base } => {
						i == j && if self.kind == Kind::Complete { w == base + t } else { w == t }
					}
					_ => false,
				};
				check!(ok, "pointer word leads to the copy of its target");
			}
			Want::Word { w, i, same } => {
				let ok = match s.tag {
					Tag::Word { w: x, i: j, .. } => i == j && x == w,
					Tag::Input(a) => same == Some(a),
					_ => false,
				};
				check!(ok, "length and capacity words are the input's length");
			}
			Want::Dangling { align, orig, i, same } => {
				let ok = match s.tag {
					Tag::Word { w: x, i: j, .. } => i == j && x != 0 && mult(x, align) && (x != orig || same.is_some()),
					Tag::Input(a) => same == Some(a),
					_ => false,
				};
				check!(ok, "pointer of an empty sequence is dangling and aligned");
			}
		}
	}
}

/// Serializing an arbitrary `T` on an arbitrary state: every byte of the output is as it should be
pub fn whole<M: Derived<Abs>, T: Shape + Serialize<M>>(flags: u8) {
	let s = Abs::any(false);
	let mut e = Exp::new(s.g, s.pos(), M::KIND, flags);
	let mut m = M::over(s);
	let v = ManuallyDrop::new(T::sym());
	one::<M, T>(&mut m, &mut e, &v);
	e.verify(m.storage());
	reached!(m.storage().tag != Tag::Old, "the tracked byte was written");
	#[cfg(not(kani))]
	drop(ManuallyDrop::into_inner(v));
	done(m);
}

fn one<M: Derived<Abs>, T: Shape + Serialize<M>>(m: &mut M, e: &mut Exp, v: &T) -> usize {
	let pos = m.serialize_value::<T>(v);
	if size_of::<T>() > 0 {
		let placed = e.put::<T>(v as *const T as usize, 1);
		check!(pos == placed, "value is at the next position that satisfies its alignment");
	}
	v.wants(e, pos);
	check!(m.pos() == e.cur, "output ends right after the last owned data");
	check!(m.storage().pos() <= m.storage().capacity(), "output is inside the capacity");
	pos
}

/// Two values one after the other on an arbitrary state
pub fn session<M: Derived<Abs>, T: Shape + Serialize<M>, U: Shape + Serialize<M>>(flags: u8) {
	let s = Abs::any(false);
	let mut e = Exp::new(s.g, s.pos(), M::KIND, flags);
	let before = s.pos();
	let mut m = M::over(s);
	let v = ManuallyDrop::new(T::sym());
	let p = one::<M, T>(&mut m, &mut e, &v);
	let mid = m.pos();
	check!(p >= before && p + size_of::<T>() <= mid, "first value lies after the data already stored");
	let u = ManuallyDrop::new(U::sym());
	let q = one::<M, U>(&mut m, &mut e, &u);
	check!(q >= mid, "second value lies after everything of the first");
	e.verify(m.storage());
	reached!(m.storage().tag != Tag::Old, "the tracked byte was written");
	#[cfg(not(kani))]
	{
		drop(ManuallyDrop::into_inner(v));
		drop(ManuallyDrop::into_inner(u));
	}
	done(m);
}

/// Input memory of any size
pub struct Mem<T: Copy + 'static>(&'static [T]);
impl<T: Copy + 'static> std::ops::Deref for Mem<T> {
	type Target = [T];
	fn deref(&self) -> &[T] {
		self.0
	}
}
#[cfg(not(kani))]
impl<T: Copy + 'static> Drop for Mem<T> {
	fn drop(&mut self) {
		free_slice(self.0)
	}
}
pub fn input<T: Copy + 'static>(n: usize) -> Mem<T> {
	Mem(any_slice(n))
}

/// Words of a value being serialized whose copy is somewhere before `before`: its memory, number of
/// words, and the position of the copy
pub fn owning(before: usize, least: usize) -> (Mem<usize>, usize, usize) {
	let q = range(0, before / 8) * 8;
	assume((before - q) / 8 >= least);
	let most = sel(1 << 30, if least > 64 { least } else { 64 });
	let n = range(least, if (before - q) / 8 < most { (before - q) / 8 } else { most });
	(input::<usize>(n), n, q)
}

/// End of a harness: nothing is dropped symbolically
pub fn done<M>(m: M) {
	#[cfg(kani)]
	std::mem::forget(m);
}

/// Contract of `push_and_process_slice` (`process` being anything that keeps the contract):
/// placement, contents, the pointer at `ptr_addr`, positions reported while and after processing,
/// frame.
pub fn process<M: Derived<Abs>, T: Copy + 'static>(nested: bool) {
	let s = Abs::any(false);
	let (g, before) = (s.g, s.pos());
	let mut m = M::over(s);
	// whose processing this push is part of: 1..=n words copied to q
	let (owner, n, q) = owning(before, 1);
	m.map(owner.as_ptr() as usize, q);
	let k = range(0, n - 1);
	let slice = input::<T>(any_len::<T>());
	let at = up(before, align_of::<T>());
	let j = range(0, if slice.len() == 0 { 0 } else { slice.len() - 1 });
	let mut calls = 0;
	let a = M::Addr::from_ref(unsafe { &*owner.as_ptr().add(k) });
	let inner = input::<u32>(any_len::<u32>());
	let mut end = 0;
	let r = m.push_and_process_slice(&slice[..], a, |m| {
		calls += 1;
		if slice.len() == 0 || size_of::<T>() == 0 {
			if nested {
				m.push_raw_slice(&inner[..]);
			}
			end = m.pos();
			return;
		}
		let part = unsafe { &*slice.as_ptr().add(j) };
		if M::TRACKS {
			check!(m.posn(part) == at + j * size_of::<T>(), "position reported is where the part was written");
		}
		if nested {
			// processing that pushes, moves the storage and has its own positions reported
			let ia = M::Addr::from_ref(part);
			if size_of::<T>() >= 8 {
				m.push_and_process_slice(&inner[..], ia, |_| {});
			} else {
				m.push_raw_slice(&inner[..]);
			}
			if M::TRACKS {
				check!(
					m.posn(part) == at + j * size_of::<T>(),
					"position of the enclosing allocation is reported again"
				);
			}
		}
		end = m.pos();
	});
	check!(calls == 1, "the allocation is processed exactly once");
	if size_of::<T>() > 0 {
		check!(r == at, "slice is at the next position that satisfies its alignment");
	}
	if M::TRACKS {
		let l = range(0, n - 1);
		check!(
			m.posn(unsafe { &*owner.as_ptr().add(l) }) == q + 8 * l,
			"position of the enclosing allocation is reported again"
		);
	}
	check!(m.pos() == end, "nothing is pushed after processing");
	let mut e = Exp::new(g, before, M::KIND, FOLLOW | VALUES);
	if size_of::<T>() == 0 {
		// no allocation to point to
		if M::KIND != Kind::Pure && g >= q + 8 * k && g < q + 8 * k + 8 {
			done(m);
			return;
		}
	} else if M::KIND == Kind::Pure {
		e.put::<T>(slice.as_ptr() as usize, slice.len());
	} else {
		e.own::<T>(q + 8 * k, slice.as_ptr() as usize, slice.len());
	}
	if nested {
		if size_of::<T>() >= 8 && slice.len() > 0 && M::KIND != Kind::Pure {
			e.own::<u32>(at + j * size_of::<T>(), inner.as_ptr() as usize, inner.len());
		} else {
			e.put::<u32>(inner.as_ptr() as usize, inner.len());
		}
	}
	e.verify(m.storage());
	reached!(m.storage().tag != Tag::Old, "the tracked byte was written");
	done(m);
}

/// Contract of `push_slice`: as above, without processing
pub fn pushes<M: Derived<Abs>, T: Copy + 'static>() {
	let s = Abs::any(false);
	let (g, before) = (s.g, s.pos());
	let mut m = M::over(s);
	let (owner, n, q) = owning(before, 1);
	m.map(owner.as_ptr() as usize, q);
	let k = range(0, n - 1);
	let slice = input::<T>(any_len::<T>());
	let a = M::Addr::from_ref(unsafe { &*owner.as_ptr().add(k) });
	let at = up(before, align_of::<T>());
	let r = m.push_slice(&slice[..], a);
	check!(r == at, "slice is at the next position that satisfies its alignment");
	check!(m.pos() == up(at + size_of::<T>() * slice.len(), VA), "position advances by the slice and padding");
	if M::TRACKS {
		let l = range(0, n - 1);
		check!(m.posn(unsafe { &*owner.as_ptr().add(l) }) == q + 8 * l, "positions reported stay the enclosing allocation's");
	}
	let mut e = Exp::new(g, before, M::KIND, FOLLOW | VALUES);
	if M::KIND == Kind::Pure {
		e.put::<T>(slice.as_ptr() as usize, slice.len());
	} else {
		e.own::<T>(q + 8 * k, slice.as_ptr() as usize, slice.len());
	}
	e.verify(m.storage());
	reached!(m.storage().tag != Tag::Old, "the tracked byte was written");
	done(m);
}

/// Serializing zero-sized data adds nothing and keeps the header
pub fn nothing<M: Derived<Abs>, T: Shape + Serialize<M>>() {
	let s = Abs::any(false);
	let (g, before) = (s.g, s.pos());
	let mut m = M::over(s);
	let v = ManuallyDrop::new(T::sym());
	let pos = m.serialize_value::<T>(&v);
	let mut e = Exp::new(g, before, M::KIND, FOLLOW | VALUES | CAPS);
	let placed = e.put::<T>(&*v as *const T as usize, 1);
	check!(pos == placed && m.pos() == e.cur, "only the header is added to the output");
	e.verify(m.storage());
	done(m);
	#[cfg(not(kani))]
	drop(ManuallyDrop::into_inner(v));
}

/// The storage methods every storage inherits, over any storage at all: what is pushed is found at
/// the position returned, wherever `reserve` moves the storage or its position
pub fn stored<T: Copy + 'static>(leave: bool) {
	let mut s = Abs::any(true);
	let (g, before) = (s.g, s.pos());
	let one: bool = any();
	let n = if one { 1 } else { any_len::<T>() };
	let v = input::<T>(if leave { 0 } else { n });
	let p = match (leave, one) {
		(false, true) => s.push(&v[0]),
		(false, false) => s.push_slice(&v[..]),
		(true, true) => s.push_empty::<T>(),
		(true, false) => s.push_empty_slice::<T>(n),
	};
	let size = n * size_of::<T>();
	if size_of::<T>() > 0 {
		check!(p >= before && p >= s.floor, "the place lies after everything stored before");
		check!(mult(p, align_of::<T>()), "position returned is aligned for the type");
		check!(s.pos() == up(p + size, VA), "position advances by the size and padding");
	}
	check!(s.pos() <= s.capacity(), "the place lies inside the capacity");
	reached!(s.floor > before, "the storage pushed its position forward");
	let mut e = Exp::new(g, p, Kind::Pure, VALUES);
	if !leave {
		e.put::<T>(v.as_ptr() as usize, n);
	}
	e.verify(&s);
}

/// A part of a value being serialized is overwritten (complete), or nothing happens (others)
pub fn overwrites<M: Derived<Abs>, T: Copy + 'static>(v: T, words: usize) {
	let value = ManuallyDrop::new(v);
	overwrites_by::<M, T>(&value, words)
}
pub fn overwrites_by<M: Derived<Abs>, T: Copy + 'static>(value: &T, words: usize) {
	let s = Abs::any(false);
	let (g, before, base, cap) = (s.g, s.pos(), s.base(), s.capacity());
	let mut m = M::over(s);
	let (owner, n, q) = owning(before, words);
	m.map(owner.as_ptr() as usize, q);
	let k = range(0, n - words);
	// both ways to say which part
	let a = if any() {
		M::Addr::from_ref(unsafe { &*owner.as_ptr().add(k) })
	} else {
		M::Addr::from_ref_offset(unsafe { &*owner.as_ptr() }, 8 * k)
	};
	let mut calls = 0;
	if any() {
		unsafe { m.overwrite(a, value) };
		calls = (M::KIND == Kind::Complete) as usize;
	} else {
		m.overwrite_with(|m| {
			calls += 1;
			unsafe { m.overwrite(a, value) };
		});
	}
	check!(calls == (M::KIND == Kind::Complete) as usize, "correction callback runs once on a complete serializer, never on others");
	let s = m.storage();
	check!(s.pos() == before, "a correction does not move the position");
	let at = q + 8 * k;
	reached!(M::KIND != Kind::Complete || (g >= at && g - at < 8 * words), "overwritten part tracked");
	if M::KIND == Kind::Complete && g >= at && g - at < 8 * words {
		let o = g - at;
		let want = unsafe { *(value as *const T as *const usize).add(o / 8) };
		let ok = match s.tag {
			Tag::Word { w, i, .. } => w == want && i == o % 8,
			_ => false,
		};
		check!(ok, "the part's copy holds the new value");
	} else {
		check!(s.tag == Tag::Old, "bytes outside the overwritten part are unchanged");
	}
	if M::TRACKS {
		let l = range(0, n - 1);
		check!(m.posn(unsafe { &*owner.as_ptr().add(l) }) == q + 8 * l, "positions reported are unchanged");
	}
	done(m);
}

// ---- positions reported (C14)

#[derive(Clone, Copy)]
pub struct Seen {
	pub addr: usize,
	pub size: usize,
	pub pos: usize,
}
pub const NSEEN: usize = if NATIVE { 256 } else { 12 };
pub static mut SEEN: [Seen; NSEEN] = [Seen { addr: 0, size: 0, pos: 0 }; NSEEN];
pub static mut NSEE: usize = 0;
#[cfg(not(kani))]
pub static LOCK: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// Reports the position of itself whenever it is serialized
#[derive(Clone, Copy, PartialEq)]
#[repr(C)]
pub struct Spot {
	pub x: u32,
}
impl<S: PosTracking> Serialize<S> for Spot {
	fn serialize_data(&self, s: &mut S) {
		unsafe {
			assume(!NATIVE || NSEE < NSEEN);
			check!(NSEE < NSEEN, "each part is serialized once");
			SEEN[NSEE] = Seen { addr: self as *const _ as usize, size: 4, pos: s.pos_for(self) };
			NSEE += 1;
		}
	}
}
strukt!(Spot { x: u32 });

#[derive(Serialize)]
#[ser_bound(ser_raw::ser_traits::PosTracking)]
pub struct Leaf {
	pub pad: u64,
	pub s: Spot,
}
strukt!(Leaf { pad: u64, s: Spot });
#[derive(Serialize)]
#[ser_bound(ser_raw::ser_traits::PosTracking)]
pub struct Mid {
	pub a: Spot,
	pub b: Box<Leaf>,
	pub c: Spot,
}
strukt!(Mid { a: Spot, b: Box<Leaf>, c: Spot });
#[derive(Serialize)]
#[ser_bound(ser_raw::ser_traits::PosTracking)]
pub struct Top {
	pub a: Spot,
	pub name: String,
	pub b: Box<Mid>,
	pub c: Spot,
	pub d: Option<Box<Leaf>>,
	pub e: Spot,
}
strukt!(Top { a: Spot, name: String, b: Box<Mid>, c: Spot, d: Option<Box<Leaf>>, e: Spot });

/// Every part reports the position at which its copy was written
pub fn tracked<M: Derived<Abs> + PosTracking, T: Shape + Serialize<M>>(skips: bool, least: usize) {
	unsafe { NSEE = 0 };
	let s = Abs::any(skips);
	let g = s.g;
	let mut m = M::over(s);
	let v = ManuallyDrop::new(T::sym());
	m.serialize_value::<T>(&v);
	let n = unsafe { NSEE };
	check!(n >= least, "every part was serialized");
	if let Tag::Input(a) = m.storage().tag {
		let mut i = 0;
		while i < n {
			let x = unsafe { SEEN[i] };
			if a >= x.addr && a - x.addr < x.size {
				check!(x.pos == g.wrapping_sub(a - x.addr), "position reported is where the part was written");
				reached!(i > 0, "a part is the tracked one");
			}
			i += 1;
		}
	}
	done(m);
	#[cfg(not(kani))]
	drop(ManuallyDrop::into_inner(v));
}
