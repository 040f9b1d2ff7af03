//! Checking allocator: checks the caller's side of the contract of `std::alloc`, gives out nothing
//! beyond what was asked for (no more alignment, poisoned contents, guard bytes), moves memory on
//! `realloc` unpredictably.  Requests above `FAKE` get an unmapped address.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct Checking;
pub static ON: AtomicBool = AtomicBool::new(false);
pub static ERR: AtomicUsize = AtomicUsize::new(0);
pub static LIVE: AtomicI64 = AtomicI64::new(0);
static RND: AtomicU64 = AtomicU64::new(1);
pub static FAKES: AtomicUsize = AtomicUsize::new(0);

pub const ERRS: [&str; 9] = [
	"",
	"allocator asked for size zero",
	"layout alignment is not a power of two",
	"layout size overflows isize when rounded up",
	"released or resized memory is not a live allocation",
	"layout size differs from the one allocated with",
	"layout alignment differs from the one allocated with",
	"memory before the allocation was overwritten",
	"memory after the allocation was overwritten",
];

const FAKE: usize = 64 << 20;
const MAGIC: u64 = 0x5e12_a11c_0c8e_c4ed;
const GUARD: usize = 32;
const HDR: usize = 64;

#[repr(C)]
struct Hdr {
	raw: *mut u8,
	raw_size: usize,
	raw_align: usize,
	size: usize,
	align: usize,
	room: usize,
	counted: u64,
	magic: u64,
}

fn err(i: usize) {
	let _ = ERR.compare_exchange(0, i, Relaxed, Relaxed);
}
pub fn reseed(x: u64) {
	RND.store(x | 1, Relaxed);
}
fn rnd() -> u64 {
	let mut x = RND.load(Relaxed);
	x ^= x << 13;
	x ^= x >> 7;
	x ^= x << 17;
	RND.store(x, Relaxed);
	x
}
fn is_fake(p: *mut u8) -> bool {
	(p as usize) >> 60 == 4
}
// Fake blocks: the layout is kept in a small table
static mut TAB: [(usize, usize, usize); 256] = [(0, 0, 0); 256];

unsafe fn valid(size: usize, align: usize) -> bool {
	if size == 0 {
		err(1)
	} else if align == 0 || align & (align - 1) != 0 {
		err(2)
	} else if size > isize::MAX as usize - (align - 1) {
		err(3)
	} else {
		return true;
	}
	false
}

unsafe fn get(size: usize, align: usize) -> *mut u8 {
	let on = ON.load(Relaxed);
	if on {
		LIVE.fetch_add(1, Relaxed);
	}
	if size > FAKE {
		if !on {
			return System.alloc(Layout::from_size_align_unchecked(size, align));
		}
		let k = FAKES.fetch_add(1, Relaxed) % 256;
		let p = ((4usize << 60) + (k << 52)) | align;
		TAB[k] = (p, size, align);
		return p as *mut u8;
	}
	let room = size + if on && rnd() % 2 == 0 { 4096 } else { 0 };
	let raw_align = align.max(16) * 2;
	let lead = (HDR + align + raw_align - 1) / raw_align * raw_align + align;
	let raw_size = lead + room + GUARD;
	let raw = System.alloc(Layout::from_size_align_unchecked(raw_size, raw_align));
	if raw.is_null() {
		return raw;
	}
	let p = raw.add(lead); // a multiple of `align` but not of `2 * align`
	if on {
		raw.write_bytes(0xA5, raw_size);
		p.write_bytes(0xAA, size);
	} else {
		p.add(room).write_bytes(0xA5, GUARD);
		p.sub(HDR + align.min(16)).write_bytes(0xA5, HDR + align.min(16));
	}
	guard_from(p, size, room);
	let h = (((p as usize) - HDR - 8) & !7) as *mut Hdr;
	p.sub(1).write(0xA5);
	*h = Hdr { raw, raw_size, raw_align, size, align, room, counted: on as u64, magic: MAGIC };
	p
}

unsafe fn guard_from(p: *mut u8, size: usize, room: usize) {
	p.add(size).write_bytes(0xA5, room - size + GUARD);
}

unsafe fn hdr(p: *mut u8) -> *mut Hdr {
	(((p as usize) - HDR - 8) & !7) as *mut Hdr
}

unsafe fn check(p: *mut u8, l: Layout) -> bool {
	if is_fake(p) {
		let k = (p as usize >> 52) & 255;
		let t = TAB[k];
		if t.0 != p as usize {
			err(4);
			return false;
		}
		if t.1 != l.size() {
			err(5)
		}
		if t.2 != l.align() {
			err(6)
		}
		return true;
	}
	let h = hdr(p);
	if (*h).magic != MAGIC {
		err(4);
		return false;
	}
	if (*h).size != l.size() {
		err(5)
	}
	if (*h).align != l.align() {
		err(6)
	}
	if *p.sub(1) != 0xA5 {
		err(7)
	}
	let n = (*h).room - (*h).size + GUARD;
	if (0..n).any(|i| *p.add((*h).size + i) != 0xA5) {
		err(8)
	}
	true
}

unsafe fn put(p: *mut u8) {
	if is_fake(p) {
		LIVE.fetch_sub(1, Relaxed);
		TAB[(p as usize >> 52) & 255].0 = 0;
		return;
	}
	let h = hdr(p);
	let Hdr { raw, raw_size, raw_align, size, counted, .. } = *h;
	if counted != 0 {
		LIVE.fetch_sub(1, Relaxed);
	}
	(*h).magic = 0;
	p.write_bytes(0xDD, size);
	System.dealloc(raw, Layout::from_size_align_unchecked(raw_size, raw_align));
}

unsafe impl GlobalAlloc for Checking {
	unsafe fn alloc(&self, l: Layout) -> *mut u8 {
		if !valid(l.size(), l.align()) {
			return std::ptr::null_mut();
		}
		get(l.size(), l.align())
	}
	unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
		if l.size() > FAKE && !is_fake(p) {
			return System.dealloc(p, l);
		}
		if check(p, l) {
			put(p)
		}
	}
	unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		if !valid(n, l.align()) || !check(p, l) {
			return std::ptr::null_mut();
		}
		if !is_fake(p) {
			let h = hdr(p);
			if n <= (*h).room && (*h).counted != 0 && rnd() % 2 == 0 {
				if n > (*h).size {
					p.add((*h).size).write_bytes(0xAA, n - (*h).size);
				}
				(*h).size = n;
				guard_from(p, n, (*h).room);
				return p;
			}
		}
		let q = get(n, l.align());
		if !q.is_null() && !is_fake(p) && !is_fake(q) {
			std::ptr::copy_nonoverlapping(p, q, (*hdr(p)).size.min(n));
		}
		put(p);
		q
	}
}
