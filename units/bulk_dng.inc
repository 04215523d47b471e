// ---- the dense tree and its proofs, as proved for C04, C05 and C06 ----
pub mod cx {
use vstd::prelude::*;
//@ include ctx.inc
} // mod
//@ scope
pub mod dn {
use vstd::prelude::*;
use super::cx::*;
//@ include dense_tree.inc assumed dense
//@ include dense_verify.inc assumed dense
//@ include dense_gen.inc assumed dense
} // mod
//@ end scope
