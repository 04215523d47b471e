// C01: extending a mountain-range proof by new leaves. grovedb-merkle-mountain-range/src/proof.rs
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use vstd::arithmetic::power2::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;
//@ include mmr_pos.inc assumed mmr_pos
//@ include mmr_tree.inc assumed mmr_proof
//@ include mmr_bag.inc assumed mmr_proof
//@ include mmr_proof.inc assumed mmr_proof

// ---- trusted: std's reversal and copying of vectors ----
#[verifier::external_body] pub fn turn(v: &mut Vec<MmrNode>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
#[verifier::external_body] pub fn turn_from(v: &mut Vec<MmrNode>, i: usize) requires i <= old(v)@.len() ensures final(v)@ == old(v)@.take(i as int) + old(v)@.skip(i as int).reverse() { v[i..].reverse() }
#[verifier::external_body] pub fn copy_nodes(v: &Vec<MmrNode>) -> (r: Vec<MmrNode>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn node_at(v: &Vec<MmrNode>, i: usize) -> (r: MmrNode) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub fn one_leaf(p: u64, x: MmrNode) -> (r: Vec<(u64, MmrNode)>) ensures r@ == seq![(p, x)] { let mut v = Vec::new(); v.push((p, x)); assert(v@ =~= seq![(p, x)]); v }
// the first of these positions that is not below p: Iterator::position
pub open spec fn first(v: Seq<u64>, p: u64) -> Option<int> decreases v.len() { if v.len() == 0 { None } else if v[0] >= p { Some(0) } else { match first(v.skip(1), p) { Some(i) => Some(i + 1), None => None } } }
#[verifier::external_body] pub fn position_from(v: &Vec<u64>, p: u64) -> (r: Option<usize>) ensures match r { Some(i) => first(v@, p) == Some(i as int), None => first(v@, p) is None } { unimplemented!() }
//@ rules
self.proof.iter() ==> items_of(&self.proof)
peaks_hashes.iter() ==> items_of(&peaks_hashes)
peaks_hashes[i..].reverse() ==> turn_from(&mut peaks_hashes, i)
peaks_pos.iter().position($x..).ok_or_else($y..)? ==> (match position_from(&peaks_pos, new_pos) { Some(i) => i, None => return Err(err()) })
vec![(new_pos, new_elem)] ==> one_leaf(new_pos, new_elem)
for (i, (prev_pos, cur_pos)) in prev_peaks_positions.iter().zip(current_peaks_positions.iter()).enumerate() { $b.. } ==> let mut i: usize = 0; while i < prev_peaks_positions.len() && i < current_peaks_positions.len() { let prev_pos = prev_peaks_positions[i]; let cur_pos = current_peaks_positions[i]; $b i += 1; }
let mut prev_peaks: Vec<_> = self.proof_items().to_vec(); ==> let mut prev_peaks: Vec<MmrNode> = copy_nodes(&self.proof);
reverse_peaks.reverse() ==> turn(&mut reverse_peaks)
prev_peaks.extend(reverse_peaks) ==> prev_peaks.append(&mut reverse_peaks)
bag_peaks(prev_peaks)?.ok_or(err())? ==> (match bag_peaks(prev_peaks)? { Some(x) => x, None => return Err(err()) })
calculated_prev_root != prev_root ==> !same32(&calculated_prev_root.hash, &prev_root.hash)
let leaves = incremental.into_iter().enumerate().map(|(index, leaf)| { $b.. (pos, leaf) }).collect(); ==> let mut leaves: Vec<(u64, MmrNode)> = Vec::new(); let mut index: usize = 0; while index < incremental.len() { let leaf = node_at(&incremental, index); $b leaves.push((pos, leaf)); index += 1; }
//@ end
pub proof fn peaks_some(base: nat, r: nat, k: nat) requires 0 < r < pow2(k) ensures peaks_from(base, r, k).len() > 0 decreases k
{ lemma2_to64(); if k > 0 { lemma_pow2_unfold(k); if r < pow2((k - 1) as nat) { peaks_some(base, r, (k - 1) as nat); } } }
pub open spec fn turned(v: Seq<H>, j: int) -> Seq<H> { v.take(j) + v.skip(j).reverse() }
// leaves at the places after the first p
pub open spec fn added(p: nat, inc: Seq<MmrNode>) -> Leaves { Seq::new(inc.len(), |i: int| (msize((p + i) as nat) as u64, inc[i])) }
pub open spec fn extends(pf: MerkleProof, root: H, prev: H, inc: Seq<MmrNode>, n: nat) -> bool {
    &&& inc.len() < n && pf.proof@.len() == peaks_from(0, (n - inc.len()) as nat, 64).len()
    &&& exists|j: int| 0 <= j < pf.proof@.len() && bag(#[trigger] turned(hs(pf.proof@), j)) == prev
    &&& rootof(added((n - inc.len()) as nat, inc), pf.mmr_size, hs(pf.proof@), n) == Some(root)
}
/// An accepted extension against the root of a log names the log's own last leaves.
pub proof fn extension_sound(pf: MerkleProof, root: H, prev: H, inc: Seq<MmrNode>, n: nat, h: nat, ls: Seq<H>)
    requires isnode(pf.mmr_size as nat, n, h), extends(pf, root, prev, inc, n), root == mroot(n, ls)
    ensures forall|i: int| 0 <= i < inc.len() ==> (#[trigger] inc[i]).hash == val(ls, msize((n - inc.len() + i) as nat))
{
    let p = (n - inc.len()) as nat; let l = added(p, inc);
    pruns_sound(l, pf.mmr_size, hs(pf.proof@), n, h, ls);
    lemma_msize_ge(n);
    assert forall|i: int| 0 <= i < inc.len() implies (#[trigger] inc[i]).hash == val(ls, msize((p + i) as nat)) by {
        assert forall|m: int| 0 <= m < i implies (#[trigger] l[m]).0 != l[i].0 by { lemma_msize_mono((p + m) as nat, (p + i) as nat); lemma_msize_mono((p + i) as nat, n); }
        lemma_msize_mono((p + i) as nat, n);
        assert(l[i] == (msize((p + i) as nat) as u64, inc[i]));
        assert(lead(l, l[i]));
    }
}
impl MerkleProof {
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::calculate_root_with_new_leaf
//@ ret r
//@ spec
  ensures new_pos >= new_mmr_size ==> r is Err,
    new_pos < new_mmr_size ==> forall|n: nat, h: nat, i: nat, g: nat, j: nat, k: nat, m: nat, o: nat| #[trigger] isnode(new_mmr_size as nat, n, h) && #[trigger] isnode(new_pos as nat, i, g) && #[trigger] isnode((new_pos + 1) as nat, j, k) && #[trigger] isnode(self.mmr_size as nat, m, o) ==>
      hash_in(r) == (if k > g {
        match (pruns(leaves@, self.mmr_size, hs(self.proof@), m), first(peaks_from(0, n, 64), new_pos)) {
          (Some(v), Some(x)) if x <= v.len() => rootof(seq![(new_pos, new_elem)], new_mmr_size, turned(v, x), n),
          _ => None,
        } } else { rootof(leaves@.push((new_pos, new_elem)), new_mmr_size, hs(self.proof@), n) }),
//@ after turn_from(&mut peaks_hashes, i);
  proof { assert(hs(peaks_hashes@) =~= turned(hs(before), i as int)); }
//@ before turn_from(&mut peaks_hashes, i);
  let ghost before = peaks_hashes@;
//@ end
//@ fn grovedb-merkle-mountain-range/src/proof.rs MerkleProof::verify_incremental
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures forall|n: nat, h: nat| #[trigger] isnode(self.mmr_size as nat, n, h) ==> (r == Ok::<bool, Error>(true) ==> extends(*self, root.hash, prev_root.hash, incremental@, n)),
//@ at start
  let ghost (n, h) = node_of(self.mmr_size as nat); let ghost inc = incremental@;
  proof { lemma_msize_ge(n); lemma_msize_top(n); assert forall|a: nat, b: nat| #[trigger] isnode(self.mmr_size as nat, a, b) implies a == n by { node_unique(self.mmr_size as nat, a, b, n, h); } }
//@ loop 1
  invariant i <= prev_peaks_positions@.len(), 0 <= reverse_index < prev_peaks_positions@.len(),
  decreases prev_peaks_positions@.len() - i
//@ before let mut reverse_index
  let ghost p = prev_leaves_count as nat;
  proof { lemma2_to64(); assert(isnode(msize(p), p, 0)); peaks_some(0, p, 64); assert(prev_peaks_positions@ == peaks_from(0, p, 64)); }
//@ before let calculated_prev_root
  proof { assert(hs(prev_peaks@) =~= turned(hs(self.proof@), reverse_index as int)); }
//@ loop 2
  invariant index <= inc.len(), incremental@ == inc, leaves@ =~= added(p, inc).take(index as int),
  decreases inc.len() - index
//@ loopend 2
  proof { lemma_msize_mono(p + (index - 1) as nat, n); assert(leaves@ =~= added(p, inc).take(index as int)); }
//@ before self.verify(root, leaves)
  proof { assert(leaves@ =~= added(p, inc)); }
//@ end
}
} // verus!
fn main() {}
