// C02: the mountain range over a store. grovedb-merkle-mountain-range/src/mmr.rs, mmr_store.rs, node.rs
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_store.inc
} // verus!
fn main() {}
