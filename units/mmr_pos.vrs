// C03: MMR position arithmetic, grovedb-merkle-mountain-range/src/helper.rs
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {

//@ include mmr_pos.inc
} // verus!
fn main() {}
