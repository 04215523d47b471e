// C02: the node store over a storage context. grovedb-merkle-mountain-range/src/storage_adapter.rs, helper.rs
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc assumed mmr_store
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_store.inc assumed mmr_store
//@ include ctx.inc
//@ include mmr_adapter.inc
} // verus!
fn main() {}
