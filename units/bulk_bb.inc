// ---- the chunk codec, as proved for C09 ----
//@ scope
pub mod bb {
use vstd::prelude::*;
//@ include bulk_blob.inc assumed bulk_blob
} // mod
//@ end scope
