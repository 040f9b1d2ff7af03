//! C10: alignment arithmetic.  Full domain: every pair of machine integers meeting the
//! precondition; no loops, so the obligations are complete proofs.
use crate::nd::*;
use ser_raw::util::*;

fn pow2() -> usize {
	let k = range(0, 63);
	1usize << k
}

/// `p` is a multiple of the power of two `a`
fn multiple(p: u128, a: usize) -> bool {
	p & (a as u128 - 1) == 0
}

fn align_up() {
	let pos: usize = any();
	let a = pow2();
	assume(pos.checked_add(a).is_some());
	let r = align_up_to(pos, a);
	check!(r >= pos, "rounded position is not less than the position");
	check!(multiple(r as u128, a), "rounded position is a multiple of the alignment");
	check!(r - pos < a, "rounded position is the smallest such multiple");
}

fn is_aligned() {
	let pos: usize = any();
	let a = pow2();
	check!(is_aligned_to(pos, a) == multiple(pos as u128, a), "alignment test is true exactly for multiples");
}

/// Mathematical rounding up, in 128 bits
fn up(p: u128, a: usize) -> u128 {
	(p + (a as u128 - 1)) & !(a as u128 - 1)
}

fn max_cap() {
	let a = pow2();
	assume(a < isize::MAX as usize);
	let r = aligned_max_capacity(a);
	check!(up(r as u128, a) <= isize::MAX as u128, "maximum capacity rounds up within isize::MAX");
	check!(up(r as u128 + 1, a) > isize::MAX as u128, "maximum capacity is the largest such size");
}

fn max_u32() {
	let a = pow2();
	assume(a < u32::MAX as usize);
	let r = aligned_max_u32_capacity(a);
	check!(r == 1usize << 32, "32-bit-position capacity is 4 GiB on 64-bit systems");
}

fn reject_max_cap() {
	let a: usize = any();
	assume(a == 0 || a & (a - 1) != 0 || a >= isize::MAX as usize);
	must_panic!(aligned_max_capacity(a), "aligned_max_capacity rejects invalid alignments");
}

fn reject_max_u32() {
	let a: usize = any();
	assume(a == 0 || a & (a - 1) != 0 || a >= u32::MAX as usize);
	must_panic!(aligned_max_u32_capacity(a), "aligned_max_u32_capacity rejects invalid alignments");
}

harnesses! {
	plain h_align_up_to [2] = align_up();
	plain h_is_aligned_to [2] = is_aligned();
	plain h_aligned_max_capacity [2] = max_cap();
	plain h_aligned_max_u32_capacity [2] = max_u32();
	panics p_aligned_max_capacity [2] = reject_max_cap();
	panics p_aligned_max_u32_capacity [2] = reject_max_u32();
}
