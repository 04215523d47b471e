// C01: mountain-range proofs. grovedb-merkle-mountain-range/src/proof.rs, node.rs, mmr.rs (bag_peaks)
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc
//@ include mmr_bag.inc
//@ include mmr_proof.inc
} // verus!
fn main() {}
