"""What each property's check is made of."""
import os
from common import VERIF

TRUSTED = [
    "Kani's translation of Rust to goto programs and CBMC/CaDiCaL (Kani compiles with its own rustc, a newer one than the pinned toolchain; the native runs use the pinned one)",
    "the loop rule (l_* harnesses): slice::Iter::next replaced by harness/src/ind.rs loop_rule in the goto program; its side condition is checked of the compiled loop by lib/loops.py",
    "std: Layout, ptr::copy_nonoverlapping, slices and Vec as compiled by Kani; the allocator through CBMC's model (h_*, b_*) or through its documented contract (a_*, p_*)",
]
ASSUMPTIONS = [
    "contracts are proved from an arbitrary state satisfying the storage invariant and are shown to re-establish it; that every reachable state satisfies it follows by induction over calls",
    "64-bit target; allocation failure (null from the allocator) ends in handle_alloc_error and is not explored",
    "each proof is per monomorphic instance: the configurations and element types listed in DESIGN.md",
]

TECHNIQUE = ("contract-based deductive verification: pre/postconditions and storage invariant as harnesses over the real "
             "code, every obligation discharged by Kani/CBMC from an arbitrary symbolic state")
NA = {
    "C20": "unwinding: the deductive verifiers here (Kani, Verus) model a panic as abort or forbid it, so no contract can speak about the state after an unwind",
    "C21": "data-race freedom between threads rests on two one-line unsafe Send/Sync impls and Rust's ownership types; no contract of a sequential function expresses it",
}
PROPS = {
    "C04": dict(note="Proved for every capacity up to 2^40, position, content and slice length, per listed (configuration, element type); buffer base alignment over the whole machine-integer domain from the allocator's contract.",
        functions=["Storage::{push,push_slice,push_bytes,push_empty,push_empty_slice,align,new,with_capacity,reserve,shrink_to_fit}", "AlignedVec::{grow_for_reserve,alloc,realloc,dangling}"]),
    "C05": dict(note="One-step contracts from an arbitrary invariant state, contents as unbounded symbolic arrays up to 2^40 bytes, per listed (configuration, element type); nothing unrolled.",
        functions=["Storage::{push,push_slice,push_bytes,push_slice_unchecked,reserve,shrink_to_fit,align_for,align_after,align_after_any}", "RandomAccessStorage::{read,read_mut,ptr,mut_ptr,write_slice}", "ContiguousStorage::{as_ptr,as_mut_ptr}"]),
    "C06": dict(note="Whole machine-integer domain, allocator replaced by its documented contract; must-panic obligations also with debug assertions compiled out.",
        panics=True, functions=["Storage::{new,with_capacity,with_capacity_unchecked,reserve,shrink_to_fit,clear,push,push_slice,push_empty,push_empty_slice}", "AlignedVec::grow_for_reserve"]),
    "C07": dict(note="Allocator contract obligations over the whole machine-integer domain; every memory access checked against live objects for capacities up to 2^40.",
        functions=["AlignedVec::{alloc,realloc,dealloc,layout,drop,write_slice,read,reserve,shrink_to_fit,grow_for_reserve}", "Storage::push_slice"]),
    "C10": dict(note="Complete: every pair of 64-bit position and power-of-two alignment.",
        panics=True, functions=["util::{align_up_to,is_aligned_to,aligned_max_capacity,aligned_max_u32_capacity}"]),
    "C15": dict(note="One-step contracts from an arbitrary invariant state; requests over the whole machine-integer domain.",
        panics=True, functions=["Storage::{push_empty,push_empty_slice}", "RandomAccessStorage::{write,write_slice}", "Serializer::{push_empty,push_empty_slice}"]),
    "C18": dict(note="One-step contracts from an arbitrary invariant state including unallocated storage.",
        functions=["Storage::{push,push_slice,push_empty,push_empty_slice}", "RandomAccessStorage::{read,read_mut,write,write_slice}", "AlignedVec::dangling"]),
}
SER = ["Serialize for Box, Vec, String, Option, arrays, tuples and derived types (serialize_data)",
       "Serializer::{serialize,serialize_value,push_slice,push_and_process_slice,push_raw,push_raw_slice,finalize}"]
PTRW = ["PtrWriting::{do_push_slice,do_push_and_process_slice}", "PosTracking::{pos_for,do_push_and_process_slice}", "PosMapping::{pos_for,pos_for_addr}"]
IND = "; containers by structural induction over elements known only by their contract, vector loops by the loop rule: any element type, any length"
OVER = "Serializers run over an abstract storage that is the storage contract itself (arbitrary state, may move at any reservation; the contract is proved of AlignedVec by C04-C07)"
ABS_T = ["the abstract storage of harness/src/abs.rs stands for any storage honouring the contract; a storage operation it does not model makes the obligation undecided"]

PROPS.update({
    "C01": dict(note=OVER + "; one arbitrary output byte is followed, which stands for all" + IND + ". Bounded stand-ins: built-in serializers over real storage, finalize with up to 3 moves.",
        memory=None, functions=SER + PTRW + ["Complete::{do_overwrite_ptr,do_finalize,write_ptr}", "Ptrs, PtrGroup::{push_pos,correct_ptrs}"], trusted=ABS_T),
    "C02": dict(note=OVER + "; one arbitrary output byte is followed, which stands for all" + IND + ". Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=SER + PTRW + ["PtrOffset::do_write_ptr"], trusted=ABS_T),
    "C03": dict(note=OVER + "; one arbitrary output byte is followed, which stands for all" + IND + ". Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=SER + ["PureCopySerializer"] + PTRW, trusted=ABS_T),
    "C08": dict(note=OVER + IND + ". Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=["Serialize for Vec, String", "Serializer::{overwrite,overwrite_with}", "Complete"], trusted=ABS_T),
    "C09": dict(note=OVER + IND + "; every value keeps what was stored before it, from an arbitrary state. Bounded stand-ins: sessions with real storage, three values.",
        memory=None, functions=SER + PTRW + ["Complete::do_finalize", "from_storage"], trusted=ABS_T),
    "C11": dict(note="The configuration assertion, extracted from the source on every run, proved exact over all 2^256 configurations; that constructors and pushes evaluate the assertions is decided by the pinned compiler on generated programs (bounded).",
        kani=False, native=False, functions=["Storage::ASSERT_ALIGNMENTS_VALID (extracted body)", "util::aligned_max_capacity"],
        technique="contract-based deductive verification: the assertion's body extracted and proved by Kani/CBMC equivalent to the validity contract for all configurations; compiler runs on generated programs for its evaluation"),
    "C12": dict(derives=True, note="Each derived type's generated implementation is proved for all its values; the types cover every form the macro accepts" + IND + ".",
        memory=None, functions=["code generated by derive(Serialize): structs, tuple structs, unit structs, generics, enums, ser_with", "Serialize for tuples, arrays, Option, Box, Vec"],
        assumptions=["the derive macro is a program generator: the proofs are about the code it generates for the listed definitions, not about all definitions"]),
    "C13": dict(note=OVER + IND + "; the four serializers are generated by the macro on every run. Bounded stand-ins: byte equality with the built-in serializers over a storage moving among three addresses.",
        memory=None, functions=["code generated by derive(Serializer) for pure_copy, pos_tracking, ptr_offset, complete", "PosTracking, PtrWriting, PtrOffset, Complete default methods"], trusted=ABS_T),
    "C14": dict(note=OVER + IND + "; positions are also checked over a storage that pushes the position forward at a reservation. Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=["PosMapping::{pos_for,pos_for_addr,new,dummy}", "PosTracking::{pos_for,pos_mapping,set_pos_mapping,do_push_and_process_slice}", "PtrWriting::{do_push_slice,do_push_and_process_slice}"], trusted=ABS_T),
    "C16": dict(note="Proved for any number of earlier addresses and of recorded pointers, from an arbitrary record: recording keeps every pointer in the group of the address it was written under, correcting a group and finalizing by the loop rule. Bounded stand-ins: 2, 3 and 7 pointers and every pattern of moves over 4 points.",
        memory=None, functions=["PtrGroup::{new,push_pos,correct_ptrs,is_empty,addr}", "Ptrs", "Complete::{do_overwrite_ptr,do_finalize,write_ptr}"],
        trusted=["the contract that dropping the record's vectors leaves the output alone (harness/src/rec.rs no_drop), in the l_final_* harnesses"],
        assumptions=["no position is recorded twice while it holds a pointer: each word of the output is written by the one value it belongs to (C03, C12 show values are serialized once, to their own regions)"]),
    "C17": dict(note=OVER + IND + "; every sign, digit, capacity and number of digits. Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=["Serialize for BigUint, BigInt", "bigint_data_offset"], trusted=ABS_T,
        assumptions=["num-bigint 0.4.3 keeps its digits in a Vec<u64>, as the pinned dependency does"]),
    "C19": dict(note=OVER + ". Bounded stand-ins: built-in serializers over real storage.",
        memory=None, functions=["Serializer::{overwrite,overwrite_with}", "Writable::do_overwrite", "Complete"], trusted=ABS_T),
})
PROPS["C18"]["functions"] += ["Serialize for Box<T>, Vec<T> with zero-sized T"]
PROPS["C18"]["memory"] = r"^h_(zst|empty|unalloc)"


def extras(prop):
    if prop == "C11":
        import c11
        return {"configuration_predicate": c11.predicate, "compile_battery": c11.battery}
    return {}


HINTS = {}


def known(prop):
    out = []
    p = f"{VERIF}/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("KNOWN-FINDING:") and f"property={prop} " in l:
                out.append(l)
    return out
