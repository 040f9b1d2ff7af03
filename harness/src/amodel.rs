//! Contract model of the global allocator, used in place of `std::alloc::*` by the `a_*` and `p_*`
//! harnesses under Kani.  It performs no allocation (addresses are arbitrary integers satisfying
//! the allocator's documented contract), so sizes range over the whole machine-integer domain; it
//! checks the caller's side of the contract of `std::alloc`.  Natively the checking allocator of
//! the native runner does the same checks.

#[cfg(not(kani))]
pub fn start() {}
#[cfg(not(kani))]
pub fn end() {}

#[cfg(kani)]
pub use k::*;

#[cfg(kani)]
mod k {
	use std::alloc::Layout;

	#[derive(Clone, Copy)]
	pub struct St {
		pub live: bool,
		pub ptr: usize,
		pub size: usize,
		pub align: usize,
		pub allocs: usize,
		pub reallocs: usize,
		pub frees: usize,
		/// An older allocation held at the same time (moving by hand)
		pub old: bool,
		pub old_ptr: usize,
		pub old_size: usize,
		pub old_align: usize,
	}
	const NONE: St = St {
		live: false, ptr: 0, size: 0, align: 0, allocs: 0, reallocs: 0, frees: 0,
		old: false, old_ptr: 0, old_size: 0, old_align: 0,
	};

	pub static mut ST: St = NONE;

	pub fn st() -> St {
		unsafe { ST }
	}
	pub fn start() {
		unsafe { ST = NONE }
	}
	pub fn end() {
		kani::assert(!st().live && !st().old, "CHECK: every allocation is released when its owner is dropped");
	}

	fn valid(size: usize, align: usize) {
		kani::assert(size > 0, "CHECK: allocator is never asked for size zero");
		kani::assert(align != 0 && align & (align.wrapping_sub(1)) == 0, "CHECK: layout alignment is a power of two");
		kani::assert(
			size <= (isize::MAX as usize) - (align - 1),
			"CHECK: layout size does not overflow isize when rounded up to its alignment",
		);
	}

	unsafe fn fresh(size: usize, align: usize) -> *mut u8 {
		if ST.live {
			kani::assert(!ST.old, "UNSUPPORTED: a third allocation");
			kani::assume(!ST.old);
			ST.old = true;
			ST.old_ptr = ST.ptr;
			ST.old_size = ST.size;
			ST.old_align = ST.align;
		}
		let p: usize = kani::any();
		kani::assume(p != 0 && p & (align - 1) == 0 && p <= isize::MAX as usize && p <= usize::MAX - size);
		kani::assume(!ST.old || p >= ST.old_ptr + ST.old_size || p + size <= ST.old_ptr);
		// Nothing more than the requested alignment may be relied upon
		ST.live = true;
		ST.ptr = p;
		ST.size = size;
		ST.align = align;
		p as *mut u8
	}

	pub unsafe fn alloc(l: Layout) -> *mut u8 {
		valid(l.size(), l.align());
		ST.allocs += 1;
		fresh(l.size(), l.align())
	}

	unsafe fn consume(p: *mut u8, l: Layout) {
		if ST.old && ST.old_ptr == p as usize {
			kani::assert(ST.old_size == l.size(), "CHECK: layout size is the one the memory was allocated with");
			kani::assert(ST.old_align == l.align(), "CHECK: layout alignment is the one the memory was allocated with");
			ST.old = false;
			return;
		}
		kani::assert(ST.live, "CHECK: released or resized memory is a live allocation");
		kani::assert(ST.ptr == p as usize, "CHECK: released or resized pointer is the one returned by the allocator");
		kani::assert(ST.size == l.size(), "CHECK: layout size is the one the memory was allocated with");
		kani::assert(ST.align == l.align(), "CHECK: layout alignment is the one the memory was allocated with");
		ST.live = false;
	}

	pub unsafe fn realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
		consume(p, l);
		valid(n, l.align());
		ST.reallocs += 1;
		fresh(n, l.align())
	}

	pub unsafe fn dealloc(p: *mut u8, l: Layout) {
		consume(p, l);
		ST.frees += 1;
	}
}
