// ---- the mountain range and its store, as proved for C01, C02 and C03 ----
pub mod mm {
use vstd::prelude::*;
use super::cx::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc assumed mmr_store
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_store.inc assumed mmr_store
//@ include mmr_adapter.inc assumed mmr_adapter
//@ include bulk_leaves.inc
} // mod
