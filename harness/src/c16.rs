//! C16: pointer correction.
use crate::mv::*;
#[cfg(kani)]
use crate::rec::*;

/// How a storage can move before each of 3 pushes and before finalizing, up to renaming the
/// three addresses
const PLANS: [[u8; 6]; 14] = [
	[0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 1, 1], [0, 0, 1, 0, 0, 0], [0, 0, 1, 1, 1, 1], [0, 0, 1, 2, 2, 2],
	[0, 1, 0, 0, 0, 0], [0, 1, 0, 1, 1, 1], [0, 1, 0, 2, 2, 2], [0, 1, 1, 0, 0, 0], [0, 1, 1, 1, 1, 1],
	[0, 1, 1, 2, 2, 2], [0, 1, 2, 0, 0, 0], [0, 1, 2, 1, 1, 1], [0, 1, 2, 2, 2, 2],
];
fn plans(from: usize, to: usize, via_slice: bool) {
	if crate::nd::NATIVE {
		return finalized::<192, 8>(Plan::drawn(), crate::nd::range(1, 6), crate::nd::range(0, 6), via_slice);
	}
	let mut i = from;
	while i < to {
		finalized::<96, 8>(Plan::Fixed(PLANS[i]), 3, i % 4, via_slice);
		i += 1;
	}
}

harnesses! {
	// any number of groups and pointers
	kani l_correct_none_step_writes [3] = crate::rec::corrects::<Step>(In::NoGroup);
	kani l_correct_none_exit_writes [3] = crate::rec::corrects::<Exit>(In::NoGroup);
	kani l_correct_current_step_writes [3] = crate::rec::corrects::<Step>(In::Current);
	kani l_correct_current_exit_writes [3] = crate::rec::corrects::<Exit>(In::Current);
	kani l_final_none_step_writes [3] = finalizes::<Step>(In::NoGroup);
	kani l_final_none_exit_writes [3] = finalizes::<Exit>(In::NoGroup);
	kani l_final_current_step_writes [3] = finalizes::<Step>(In::Current);
	kani l_final_current_exit_writes [3] = finalizes::<Exit>(In::Current);
	kani l_final_past_step_writes [3] = finalizes::<Step>(In::Past);
	kani l_final_past_exit_writes [3] = finalizes::<Exit>(In::Past);
	kani h_record_none [3] = records(In::NoGroup);
	kani h_record_current [3] = records(In::Current);
	kani h_record_past [3] = records(In::Past);
	plain h_correct_0 [12] = crate::mv::corrects::<64>(0);
	plain h_correct_1 [12] = crate::mv::corrects::<64>(1);
	plain b_correct_2 [12] = crate::mv::corrects::<64>(2);
	plain b_correct_3 [12] = crate::mv::corrects::<64>(3);
	plain b_correct_7 [12] = crate::mv::corrects::<96>(7);
	plain b_final_a [12] = plans(0, 4, true);
	plain b_final_b [12] = plans(4, 8, true);
	plain b_final_c [12] = plans(8, 11, false);
	plain b_final_d [12] = plans(11, 14, false);
	plain b_final_1 [12] = finalized::<96, 8>(Plan::Any, 1, 0, true);
	native n_correct_many [1] = corrects_many();
	native n_final_many [1] = finalized::<16384, 700>(Plan::drawn(), crate::nd::range(7, 699), crate::nd::range(0, 699), true);
}
