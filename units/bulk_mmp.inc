// ---- mountain-range proofs, as proved for C01 and C03 ----
pub mod mm {
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc assumed mmr_proof
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_proof.inc assumed mmr_proof
} // mod
