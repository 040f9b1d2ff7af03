//! The record of pointers written (C16): any number of groups, with any number of pointers each.
//!
//! Invariant: the positions recorded are distinct, lie in the storage and are aligned, and each holds
//! the address of its target in the buffer as it was at its group's address.  Shown here: writing a
//! pointer keeps every record and adds one for it, under the buffer's address; finalizing shifts
//! exactly the words recorded, each by the distance from its group's address to the buffer's.
//!
//! Loops go by the loop rule, as in `ind`.  Their state is the output itself: what is known of it
//! after the first `k` elements is that the word looked at (any word) has been shifted if it is
//! recorded among those, and is as it was otherwise.
use crate::abs::*;
use crate::base::*;
use crate::nd::*;
use ser_raw::pos::*;
use ser_raw::ser_traits::*;
use ser_raw::storage::*;
use ser_raw::*;
use std::mem::{size_of, ManuallyDrop, MaybeUninit};
use std::slice::Iter;

type M = DComplete<Slab>;

/// What a group is: its address, and a vector of positions
#[derive(Clone, Copy)]
struct Group {
	addr: usize,
	ptr: *mut usize,
	len: usize,
	cap: usize,
}
/// Is the address a group's first word?
fn addr_first() -> bool {
	const ODD: usize = 0x5EED_0F_5EED_0F1;
	if size_of::<PtrGroup>() != 32 {
		unsupported();
	}
	let g = ManuallyDrop::new(PtrGroup::new(ODD));
	let w = &*g as *const PtrGroup as *const usize;
	unsafe {
		if *w == ODD {
			true
		} else if *w.add(3) == ODD {
			false
		} else {
			unsupported()
		}
	}
}
impl Group {
	fn make(&self) -> PtrGroup {
		let mut g = MaybeUninit::<PtrGroup>::uninit();
		let w = g.as_mut_ptr() as *mut usize;
		unsafe {
			let v = Vec::from_raw_parts(self.ptr, self.len, self.cap);
			if r().addr_first {
				*w = self.addr;
				(w.add(1) as *mut Vec<usize>).write(v);
			} else {
				*w.add(3) = self.addr;
				(w as *mut Vec<usize>).write(v);
			}
			g.assume_init()
		}
	}
	fn any() -> Group {
		// room for another
		let cap = range(1, NPOS);
		Group { addr: any(), ptr: memory(cap), len: range(0, cap - 1), cap }
	}
	fn at(&self, i: usize) -> usize {
		unsafe { *self.ptr.add(i) }
	}
	fn holds(&self, i: usize, z: usize) -> bool {
		i < self.len && self.at(i) == z
	}
}
fn group_of(g: &PtrGroup) -> Group {
	let w = g as *const PtrGroup as *const usize;
	unsafe {
		let v = &*(if r().addr_first { w.add(1) } else { w } as *const Vec<usize>);
		Group { addr: g.addr(), ptr: v.as_ptr() as *mut usize, len: v.len(), cap: v.capacity() }
	}
}

struct Ghost {
	/// Start and capacity of the buffer
	mem: *mut usize,
	cap: usize,
	/// The word looked at
	z: usize,
	/// Is it recorded, and where: in the current group, or in the past group `j`; its index there,
	/// and its group's address
	recorded: bool,
	past: bool,
	j: usize,
	t: usize,
	group: Group,
	// the loops: is it an iteration that is looked at, or what comes after the loop
	step_positions: bool,
	step_groups: bool,
	in_positions: bool,
	in_groups: bool,
	expect: usize,
	never: bool,
	addr_first: bool,
}
static mut R: Ghost = Ghost {
	mem: std::ptr::null_mut(),
	cap: 0,
	z: 0,
	recorded: false,
	past: false,
	j: 0,
	t: 0,
	group: Group { addr: 0, ptr: std::ptr::null_mut(), len: 0, cap: 0 },
	step_positions: false,
	step_groups: false,
	in_positions: false,
	in_groups: false,
	expect: 0,
	never: false,
	addr_first: false,
};
fn r() -> &'static mut Ghost {
	unsafe { &mut *std::ptr::addr_of_mut!(R) }
}
fn word() -> usize {
	unsafe { *r().mem.add(r().z / 8) }
}
fn shift_word() {
	unsafe { *r().mem.add(r().z / 8) = word().wrapping_add(shift()) }
}
fn shift() -> usize {
	(r().mem as usize).wrapping_sub(r().group.addr)
}

pub trait Position: Sized {
	fn get(&self) -> usize;
}
impl Position for usize {
	fn get(&self) -> usize {
		*self
	}
}
/// The loop over a group's positions
pub fn loop_rule_positions<'a, T: Position>(it: &mut Iter<'a, T>) -> Option<&'a T> {
	let r = r();
	unsafe {
		if r.in_positions {
			check!(word() == r.expect, "exactly the words recorded are shifted, by the distance the buffer moved");
			reached!(true, "for l_correct_\\w+_step: a position was visited");
			assume(false);
		}
		let items: &'a [T] = it.as_slice();
		let n = items.len();
		let mine = r.recorded && r.t < n && items[r.t].get() == r.z;
		if !r.step_positions {
			if mine {
				shift_word();
			}
			*it = items[n..].iter();
			return None;
		}
		assume(n > 0);
		let k = range(0, n - 1);
		if mine && r.t < k {
			shift_word();
		}
		let p = items[k].get();
		assume(p <= r.cap - 8 && mult(p, 8));
		assume((p == r.z) == (mine && k == r.t));
		r.expect = if p == r.z { word().wrapping_add(shift()) } else { word() };
		r.in_positions = true;
		*it = items[k + 1..].iter();
		Some(&items[k])
	}
}

pub trait Groups: Sized {
	fn given(g: Group) -> &'static Self;
}
impl Groups for PtrGroup {
	fn given(g: Group) -> &'static PtrGroup {
		Box::leak(Box::new(g.make()))
	}
}
/// The loop over the past groups
pub fn loop_rule_groups<'a, T: Groups + 'static>(it: &mut Iter<'a, T>) -> Option<&'a T> {
	let r = r();
	unsafe {
		if r.in_groups {
			check!(word() == r.expect, "exactly the words recorded are shifted, by the distance the buffer moved");
			reached!(true, "for l_final_\\w+_step: a group was visited");
			assume(false);
		}
		let items: &'a [T] = it.as_slice();
		let n = items.len();
		if !r.step_groups {
			if r.recorded && r.past {
				shift_word();
			}
			*it = items[n..].iter();
			return None;
		}
		assume(n > 0);
		let k = range(0, n - 1);
		if r.recorded && r.past && r.j < k {
			shift_word();
		}
		let mine = r.recorded && r.past && k == r.j;
		let g = if mine { r.group } else { Group::any() };
		if !mine && r.recorded {
			// a position is recorded once
			assume(!g.holds(r.t, r.z));
		}
		r.expect = if mine { word().wrapping_add(shift()) } else { word() };
		r.in_groups = true;
		*it = items[k + 1..].iter();
		Some(T::given(g))
	}
}

const NPOS: usize = 1 << 24;
const NPAST: usize = 1 << 20;
const NMEM: usize = 1 << 24;
/// Memory for `n` values, holding anything
fn memory<T>(n: usize) -> *mut T {
	unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n * size_of::<T>(), 16)) as *mut T }
}

/// A storage which is a buffer of words
pub struct Slab {
	mem: *mut usize,
	cap: usize,
	pos: usize,
}
impl Storage for Slab {
	const STORAGE_ALIGNMENT: usize = MVA;
	const MAX_VALUE_ALIGNMENT: usize = MVA;
	const VALUE_ALIGNMENT: usize = VA;
	const MAX_CAPACITY: usize = NMEM * 8;
	fn new() -> Self {
		unsupported()
	}
	unsafe fn with_capacity_unchecked(_: usize) -> Self {
		unsupported()
	}
	fn capacity(&self) -> usize {
		self.cap
	}
	fn pos(&self) -> usize {
		self.pos
	}
	unsafe fn set_pos(&mut self, _: usize) {
		unsupported()
	}
	unsafe fn push_slice_unchecked<T>(&mut self, _: &[T], _: usize) {
		unsupported()
	}
	fn reserve(&mut self, _: usize) {
		unsupported()
	}
	fn shrink_to_fit(&mut self) {
		unsupported()
	}
}
impl RandomAccessStorage for Slab {
	unsafe fn write_slice<T>(&mut self, pos: usize, slice: &[T]) {
		if size_of::<T>() * slice.len() != 8 {
			unsupported();
		}
		check!(pos <= self.cap && 8 <= self.cap - pos && mult(pos, 8), "write is aligned and inside the capacity");
		*self.mem.add(pos / 8) = *(slice.as_ptr() as *const usize);
	}
	unsafe fn read<T>(&self, pos: usize) -> &T {
		&*(self.ptr(pos) as *const T)
	}
	unsafe fn read_mut<T>(&mut self, pos: usize) -> &mut T {
		&mut *(self.mut_ptr(pos) as *mut T)
	}
	unsafe fn ptr(&self, pos: usize) -> *const u8 {
		(self.mem as *const u8).add(pos)
	}
	unsafe fn mut_ptr(&mut self, pos: usize) -> *mut u8 {
		(self.mem as *mut u8).add(pos)
	}
}
impl ContiguousStorage for Slab {
	fn as_ptr(&self) -> *const u8 {
		self.mem as *const u8
	}
	fn as_mut_ptr(&mut self) -> *mut u8 {
		self.mem as *mut u8
	}
}

/// The word looked at is in ...
#[derive(Clone, Copy, PartialEq)]
pub enum In {
	NoGroup,
	Current,
	Past,
}
struct State {
	m: M,
	cap: usize,
	pos: usize,
	current: Group,
	npast: usize,
}
/// Everything the serializer has recorded is arbitrary
fn arbitrary(place: In) -> State {
	let first = addr_first();
	r().addr_first = first;
	let cap = range(1, NMEM / 2) * 16;
	let pos = range(2, cap / 8) * 8;
	let r = r();
	r.mem = memory(cap / 8);
	r.cap = pos;
	r.z = range(0, (pos - 8) / 8) * 8;
	let mut m = M::over(Slab { mem: r.mem, cap, pos });
	let cpast = range(1, NPAST);
	let npast = range(0, cpast - 1);
	r.recorded = place != In::NoGroup;
	r.past = place == In::Past;
	if r.past {
		assume(npast > 0);
		r.j = range(0, npast - 1);
	}
	let mut cur = Group::any();
	if r.recorded {
		r.group = if r.past { Group::any() } else { cur };
		r.t = range(0, NPOS - 1);
		assume(r.t < r.group.len && r.group.at(r.t) == r.z);
		if r.past {
			assume(!cur.holds(r.t, r.z));
		}
	}
	m.ptrs.current = cur.make();
	// room for another
	m.ptrs.past = unsafe { Vec::from_raw_parts(memory(cpast), npast, cpast) };
	State { m, cap, pos, current: cur, npast }
}
fn uses() {
	if r().never {
		loop_rule_positions::<usize>(&mut [].iter());
		no_drop::<Vec<PtrGroup>>(std::ptr::null_mut());
		no_drop::<Vec<usize>>(std::ptr::null_mut());
	}
}

/// What is looked at: an iteration of the loop, or what comes after the loop
pub trait View {
	const STEP: bool;
	fn end(moved: bool);
}
pub struct Step;
pub struct Exit;
impl View for Step {
	const STEP: bool = true;
	fn end(_: bool) {
		check!(false, "the loop is over the elements recorded");
	}
}
impl View for Exit {
	const STEP: bool = false;
	fn end(moved: bool) {
		reached!(moved, "the buffer moved");
		reached!();
	}
}

/// Contract of `Vec`'s drop, in place of it: nothing it does can be observed here
pub fn no_drop<T>(_: *mut T) {}

/// Finalizing shifts exactly the words recorded
pub fn finalizes<V: View>(place: In) {
	r().step_groups = V::STEP;
	uses();
	if r().never {
		loop_rule_groups::<PtrGroup>(&mut [].iter());
	}
	let st = arbitrary(place);
	let r = r();
	let before = word();
	let s = st.m.finalize();
	check!(s.mem == r.mem && s.pos == st.pos && s.cap == st.cap, "finalizing moves nothing");
	let now = word();
	if r.recorded {
		check!(now == before.wrapping_add(shift()), "a recorded pointer is shifted by the distance the buffer moved");
	} else {
		check!(now == before, "a word that is not a recorded pointer is unchanged");
	}
	V::end(shift() != 0);
	std::mem::forget(s);
}

/// `correct_ptrs` of a group with any number of pointers
pub fn corrects<V: View>(place: In) {
	r().step_positions = V::STEP;
	uses();
	let st = arbitrary(place);
	let r = r();
	let before = word();
	unsafe { st.m.ptrs.current.correct_ptrs(r.mem as *mut u8) };
	check!(
		word() == if r.recorded { before.wrapping_add(shift()) } else { before },
		"exactly the words recorded are shifted, by the distance the buffer moved"
	);
	V::end(!r.recorded || shift() != 0);
	done(st.m);
}

/// Writing a pointer keeps every record, and adds one.  (That `Vec` keeps its elements when it has
/// to grow is its contract.)
pub fn records(place: In) {
	let mut st = arbitrary(place);
	let r = r();
	let base = r.mem as usize;
	if place == In::Past {
		unsafe { st.m.ptrs.past.as_mut_ptr().add(r.j).write(r.group.make()) };
	}
	let before = word();
	// the pointer written: not one that is recorded already
	let y = range(0, (st.pos - 8) / 8) * 8;
	assume(!r.recorded || y != r.z);
	let target = range(0, st.cap);
	unsafe { st.m.overwrite_ptr(y, target) };
	let s = st.m.storage();
	check!(s.mem as usize == base && s.pos == st.pos && s.cap == st.cap, "writing a pointer moves nothing");
	check!(word() == if y == r.z { base + target } else { before }, "the pointer is written, and nothing else");
	// the record of it, under the buffer's address
	let cur = group_of(&st.m.ptrs.current);
	let npast = st.m.ptrs.past.len();
	check!(cur.addr == base, "pointer is recorded under the buffer's address");
	check!(cur.len > 0 && cur.at(cur.len - 1) == y, "pointer is recorded");
	let grown = npast == st.npast + 1;
	check!(npast == st.npast || grown, "no group is lost");
	check!(cur.len == if grown { 1 } else { st.current.len + 1 }, "nothing else is recorded, and nothing is lost");
	let past = st.m.ptrs.past.as_ptr();
	if place == In::Past {
		let w = unsafe { group_of(&*past.add(r.j)) };
		check!(w.addr == r.group.addr && w.ptr == r.group.ptr && w.len == r.group.len, "earlier groups are unchanged");
	}
	if place == In::Current {
		// any other record is still there, under the same address
		let g = if grown { unsafe { group_of(&*past.add(npast - 1)) } } else { cur };
		check!(g.addr == r.group.addr && g.holds(r.t, r.z), "earlier records are kept under their address");
		check!(!grown || g.len == st.current.len, "nothing else is recorded, and nothing is lost");
	}
	reached!();
	reached!(grown, "a new group is started");
	reached!(!grown, "no new group is started");
	done(st.m);
}
