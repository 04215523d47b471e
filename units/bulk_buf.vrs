// C08: querying the part of a bulk-append log that is not yet compacted. grovedb-bulk-append-tree/src/tree/fetch.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include bulk_dng.inc
//@ include bulk_bb.inc
//@ include bulk_mmg.inc
use mm::{MmrNode, MmrKeySize};
//@ include bulk_query.inc
//@ include bulk_log.inc
//@ include bulk_state.inc
pub type DProof = dn::DenseTreeProof;
pub fn clone_entries(v: &Vec<(u16, Vec<u8>)>) -> (r: Vec<(u16, Vec<u8>)>) ensures r@.len() == v@.len(), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == v@[k].0 && r@[k].1@ == v@[k].1@ {
    let mut r: Vec<(u16, Vec<u8>)> = Vec::new(); let mut i: usize = 0;
    while i < v.len() invariant i <= v.len(), r@.len() == i, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 == v@[k].0 && r@[k].1@ == v@[k].1@ decreases v.len() - i { r.push((v[i].0, copied(&v[i].1))); i += 1; }
    r
}
pub fn copied(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { let mut r: Vec<u8> = Vec::new(); let mut i: usize = 0; while i < v.len() invariant i <= v.len(), r@ == v@.take(i as int) decreases v.len() - i { r.push(v[i]); i += 1; assert(r@ =~= v@.take(i as int)); } assert(r@ =~= v@); r }
//@ type grovedb-bulk-append-tree/src/tree/fetch.rs BufferQueryResult
//@ rule DenseTreeProof ==> DProof
//@ end
impl BulkAppendTree {
//@ fn grovedb-bulk-append-tree/src/tree/fetch.rs BulkAppendTree::query_buffer
//@ ret r
//@ sig query: &Query ==> query: &dn::Query
//@ rule DenseTreeProof::generate_for_query(&self.dense_tree, query).unwrap().map_err($x..)? ==> match DProof::generate_for_query(&self.dense_tree.d, query) { Ok(p) => p, Err(_) => return Err(err()) }
//@ rule proof.entries.clone() ==> clone_entries(&proof.entries)
//@ spec
  requires okd(self.dense_tree)
  ensures r matches Ok(x) ==> dn::accepts(x.proof, self.dense_tree.d.height, self.dense_tree.d.count) && dn::prec(x.proof, 0, self.dense_tree.d.height, self.dense_tree.d.count) == Some(dn::th(self.dense_tree.vals(), dn::capacity(self.dense_tree.d.height), 0))
      && (forall|p: u16| #[trigger] dn::has_pos(x.proof.entries@, p) <==> dn::wanted(*query, self.dense_tree.d.count, p))
      && x.entries@.len() == x.proof.entries@.len()
      && forall|k: int| 0 <= k < x.entries@.len() ==> (#[trigger] x.entries@[k]).0 == x.proof.entries@[k].0 && x.entries@[k].1@ == x.proof.entries@[k].1@ && x.entries@[k].1@ == self.dense_tree.vals()[x.entries@[k].0 as int]
//@ end
}
} // verus!
fn main() {}
