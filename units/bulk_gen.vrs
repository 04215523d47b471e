// C08: the honest prover of the bulk-append log. grovedb-bulk-append-tree/src/proof/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include bulk_dng.inc
//@ include bulk_bb.inc
//@ include bulk_mmg.inc
use mm::{MmrNode, MmrKeySize};
//@ include bulk_query.inc
//@ include bulk_log.inc
//@ include bulk_state.inc
//@ include bulk_honest.inc
//@ include bulk_ranges.inc assumed bulk_query
pub type MProof = mm::MmrTreeProof; pub type DProof = dn::DenseTreeProof;
//@ type grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof
//@ rule MmrTreeProof ==> MProof
//@ rule DenseTreeProof ==> DProof
//@ end
pub fn sub1(a: u64) -> (r: u64) ensures r == if a == 0 { 0 } else { a - 1 } { if a == 0 { 0 } else { a - 1 } }
pub fn max_u64(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn one16(x: u16) -> (r: Vec<u16>) ensures r@ == seq![x] { let mut v = Vec::new(); v.push(x); v }
// the first w ranges hold p
pub open spec fn inup(s: Seq<(u64, u64)>, w: int, p: int) -> bool { exists|i: int| 0 <= i < w && 0 <= i < s.len() && (#[trigger] s[i]).0 <= p < s[i].1 }
pub proof fn inup_none(s: Seq<(u64, u64)>) ensures forall|p: int| !#[trigger] inup(s, 0, p), forall|p: int| #[trigger] inup(s, s.len() as int, p) == inr(s, p) {}
pub proof fn inup_next(s: Seq<(u64, u64)>, w: int) requires 0 <= w < s.len() ensures forall|p: int| #[trigger] inup(s, w + 1, p) == (inup(s, w, p) || s[w].0 <= p < s[w].1)
{ assert forall|p: int| #[trigger] inup(s, w + 1, p) == (inup(s, w, p) || s[w].0 <= p < s[w].1) by { if inup(s, w + 1, p) { let i = choose|i: int| 0 <= i < w + 1 && 0 <= i < s.len() && (#[trigger] s[i]).0 <= p < s[i].1; if i < w { assert(inup(s, w, p)); } } if s[w].0 <= p < s[w].1 { assert(inup(s, w + 1, p)); } } }
// the nodes a mountain range sees are those of its leaves
pub proof fn bears_view(b: Batch, gm: mm::Nodes) requires bview(b) is Some, forall|p: nat| #[trigger] mm::opt(gm, p) == b.m.batch.seen(p) ensures mm::bears(gm, b.m.mmr_size, bview(b)->0), mm::mono(bov(b))
{
    let l = of_view(b); let v = mm::vals(l);
    assert forall|p: nat| p < b.m.mmr_size implies (#[trigger] mm::opt(gm, p)) is Some && mm::opt(gm, p)->0.hash == mm::val(mm::lhs(v), p) by { assert(b.m.batch.seen(p) is Some); }
    assert forall|i: nat| i < v.len() implies mm::valued(mm::opt(gm, #[trigger] mm::msize(i)), v[i as int]) by { assert(mm::same_leaf(b.m.batch.seen(mm::msize(i)), l[i as int])); assert(mm::plain(l[i as int])); }
}
// trusted: BTreeSet
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { x: std::collections::BTreeSet<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn hast(&self, x: T) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures forall|x: T| !#[trigger] r.hast(x) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures forall|y: T| #[trigger] final(self).hast(y) == (old(self).hast(y) || y == x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r ==> forall|x: T| !#[trigger] self.hast(x) { unimplemented!() }
    #[verifier::external_body] pub fn listed(self) -> (r: Vec<T>) ensures forall|x: T| #[trigger] r@.contains(x) == self.hast(x) { unimplemented!() }
}
//@ rules
MmrTreeProof::generate($a, &$b, $c).map_err($x..)? ==> match MProof::generate($a, $b.as_slice(), $c, Ghost(gm), Ghost(gc)) { Ok(p) => p, Err(_) => return Err(err()) }
MmrTreeProof::new($x..) ==> MProof::new($x)
DenseTreeProof::generate(&tree.dense_tree, &[$z]).unwrap().map_err($x..)? ==> match DProof::generate(&tree.dense_tree.d, one16($z).as_slice()) { Ok(p) => p, Err(_) => return Err(err()) }
DenseTreeProof::generate(&tree.dense_tree, &$b).unwrap().map_err($x..)? ==> match DProof::generate(&tree.dense_tree.d, $b.as_slice()) { Ok(p) => p, Err(_) => return Err(err()) }
} else { DenseTreeProof { entries $x.. } } ==> } else { DProof { entries $x } }
for &(range_start, range_end) in &ranges { $b.. } ==> let mut wi: usize = 0; while wi < ranges.len() { let (range_start, range_end) = ranges[wi]; wi += 1; $b }
for idx in first_chunk..=last_chunk { $c.. } ==> let mut idx: u64 = first_chunk; while idx <= last_chunk { $c idx += 1; }
for pos in overlap_start..overlap_end { $c.. } ==> let mut pos: u64 = overlap_start; while pos < overlap_end { $c pos += 1; }
std::cmp::min($a, $b).saturating_sub(1) ==> sub1(min_u64($a, $b))
range_start.max(buffer_start) ==> max_u64(range_start, buffer_start)
range_end.min(buffer_end) ==> min_u64(range_end, buffer_end)
$s.into_iter().collect() ==> $s.listed()
tree.mmr_overlay.clone() ==> clone_ov(&tree.mmr_overlay)
tree.dense_tree.storage ==> tree.dense_tree.d.storage
let get_node = |pos: u64| -> grovedb_merkle_mountain_range::Result<Option<MmrNode>> { mmr.batch.element_at_position(pos).unwrap() }; ==> let get_node = |pos: u64| -> (r: mm::Result<Option<MmrNode>>) requires pos < 0x8000_0000_0000_0000 ensures r matches Ok(x) ==> x == mmr.batch.m.batch.seen(pos as nat) { mmr.batch.m.batch.element_at_position(pos) };
//@ end
impl BulkAppendTree {
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::height
//@ ret r
//@ spec
  ensures r == self.dense_tree.d.height
//@ end
}
impl BulkAppendTreeProof {
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof::generate
//@ ret r
//@ sig <'db, S: StorageContext<'db>> ==> 
//@ sig BulkAppendTree<S>, ==> BulkAppendTree, Ghost(log): Ghost<Log>,
//@ attr #[verifier::loop_isolation(false)]
//@ spec
  requires holds(*tree, log)
  ensures r is Ok ==> goodq(*query) && honestp(r->Ok_0.chunk_proof, r->Ok_0.buffer_proof, log, tree.dense_tree.d.height) && covers(r->Ok_0.chunk_proof, r->Ok_0.buffer_proof, log.len() as int, tree.dense_tree.d.height, *query),
//@ at start
  hide(selq); hide(goodq); hide(inr); hide(inup); hide(lroot); hide(cs);
  let ghost h = tree.dense_tree.d.height; let ghost c = cs(h); let ghost n = log.len() as int; let ghost nc = n / c; let ghost bs = nc * c; let ghost gc = chunks(log, h); let ghost gb = buffer(log, h);
  let ghost mut gix: Seq<u64> = Seq::empty(); let ghost mut gpos: Seq<u16> = Seq::empty();
  proof { lemma_cap(h); shl_pow(h); lemma_parts(n, c); lemma_half(n, c); vstd::arithmetic::mul::lemma_mul_nonnegative(nc, c);
    assert(gc.len() == nc) by { reveal(cs); } assert(gb.len() == n - bs) by { reveal(cs); } assert(bs <= n); if nc == 0 { assert(bs == 0); } }
//@ after let ranges
  let ghost rs = ranges@; proof { inup_none(rs); }
//@ loop 1
  invariant wi <= rs.len(), forall|p: int| #[trigger] inup(rs, wi as int, p) && p < bs ==> chunk_indices_set.hast((p / c) as u64),
  decreases rs.len() - wi
//@ loopstart 1
  proof { inup_next(rs, wi as int); assert(rs[wi as int].0 < rs[wi as int].1 <= n); }
//@ preloop 2
  proof { lemma_half(if range_end <= bs { range_end as int - 1 } else { bs - 1 }, c); lemma_half(range_start as int, c); }
//@ loop 2
  invariant idx <= last_chunk + 1 || idx == first_chunk, first_chunk <= idx, last_chunk <= 0x7fff_ffff_ffff_ffff, first_chunk <= 0x7fff_ffff_ffff_ffff, forall|p: int| #[trigger] inup(rs, wi - 1, p) && p < bs ==> chunk_indices_set.hast((p / c) as u64),
    forall|k: u64| first_chunk <= k < idx ==> #[trigger] chunk_indices_set.hast(k),
  decreases last_chunk + 1 - idx
//@ postloop 2
  proof { assert forall|p: int| #[trigger] inup(rs, wi as int, p) && p < bs implies chunk_indices_set.hast((p / c) as u64) by {
    if !inup(rs, wi - 1, p) { let e = if range_end <= bs { range_end as int - 1 } else { bs - 1 }; vstd::arithmetic::div_mod::lemma_div_is_ordered(range_start as int, p, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(p, e, c); } } }
//@ before let mmr_store
  proof { gix = chunk_indices@; }
//@ before let get_node
  let ghost gm: mm::Nodes = |p: nat| mmr.batch.m.batch.seen(p);
  proof { bears_view(mmr.batch, gm); }
//@ loop 3
  invariant wi <= rs.len(), forall|p: int| #[trigger] inup(rs, wi as int, p) && bs <= p ==> buffer_positions.hast((p - bs) as u16),
  decreases rs.len() - wi
//@ loopstart 3
  proof { inup_next(rs, wi as int); assert(rs[wi as int].0 < rs[wi as int].1 <= n); }
//@ loop 4
  invariant overlap_start <= pos <= overlap_end, forall|p: int| #[trigger] inup(rs, wi - 1, p) && bs <= p ==> buffer_positions.hast((p - bs) as u16),
    forall|k: u16| overlap_start - bs <= k < pos - bs ==> #[trigger] buffer_positions.hast(k),
  decreases overlap_end - pos
//@ after let positions
  proof { gpos = positions@; }
//@ before Ok(BulkAppendTreeProof
  proof {
    let le = chunk_proof.leaves@; let es = buffer_proof.entries@;
    assert forall|p: int| 0 <= p < n && #[trigger] selq(*query, p) implies given(chunk_proof, buffer_proof, n, c, p) by {
      assert(inr(rs, p)); assert(inup(rs, rs.len() as int, p));
      if p < bs { let k = (p / c) as u64; assert(gix.contains(k)); let j = choose|j: int| 0 <= j < gix.len() && gix[j] == k; assert(le[j].0 == gix[j]); assert(at(le, j, k)); }
      else { let k = (p - bs) as u16; assert(gpos.contains(k)); assert(dn::has_pos(es, k)); let j = choose|j: int| dn::at_pos(es, j, k); assert(at(es, j, k)); }
    }
    assert(chunk_ok(chunk_proof, gc)); assert(buffer_ok(buffer_proof, h, gb));
  }
//@ end
}
} // verus!
fn main() {}
