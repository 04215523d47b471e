// ---- the dense tree, as proved for C04 ----
pub mod cx {
use vstd::prelude::*;
//@ include ctx.inc
} // mod
//@ scope
pub mod dn {
use vstd::prelude::*;
use super::cx::*;
//@ include dense_tree.inc assumed dense
} // mod
//@ end scope
