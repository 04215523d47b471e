// C07: the bulk-append log. grovedb-bulk-append-tree/src/tree
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include bulk_dn.inc
//@ include bulk_bb.inc
//@ include bulk_mm.inc
use mm::{MmrNode, MmrKeySize};
#[derive(Debug)] #[verifier::external_body] pub struct BulkAppendError { x: u8 }
#[verifier::external_body] pub fn err() -> (r: BulkAppendError) { unimplemented!() }
//@ include bulk_log.inc
//@ include bulk_state.inc
// what a store keeps of a log that was committed
pub open spec fn kept(st: Store, log: Log, h: u8) -> bool { dn::filled(st, buffer(log, h).len() as u16) && dvals(st, buffer(log, h).len() as u16) == buffer(log, h) && leaves(st, Seq::empty(), msize(chunks(log, h).len() as int)) == Some(chunks(log, h)) }
// the state between the compaction and the count going up
pub open spec fn emptied(t: BulkAppendTree, log: Log) -> bool { okd(t.dense_tree) && t.dense_tree.vals() == buffer(log, t.dense_tree.d.height) && leaves(t.dense_tree.d.storage, t.mmr_overlay@, msize(chunks(log, t.dense_tree.d.height).len() as int)) == Some(chunks(log, t.dense_tree.d.height)) }
pub open spec fn mr(c: Log) -> [u8; 32] { if c.len() == 0 { zero32() } else { mroot(c) } }
// one more value: either the buffer has room, or buffer and value become the next chunk
pub proof fn lemma_append(log: Log, v: Seq<u8>, h: u8) requires 1 <= h <= 16
    ensures ({ let l = log.push(v); let b = buffer(log, h); &&& b.len() < cs(h) && chunks(log, h).len() == log.len() as int / cs(h)
        &&& b.len() < cs(h) - 1 ==> chunks(l, h) == chunks(log, h) && buffer(l, h) == b.push(v)
        &&& b.len() == cs(h) - 1 ==> chunks(l, h) == chunks(log, h).push(blob(b.push(v))) && buffer(l, h) == Seq::<Seq<u8>>::empty() })
{
    shl_pow(h); let c = cs(h); let n = log.len() as int; let k = n / c; let l = log.push(v); let b = buffer(log, h); lemma_parts(n, c); lemma_parts(n + 1, c);
    if b.len() < c - 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, c, k, n % c + 1); assert((n + 1) / c == k); assert(buffer(l, h) =~= b.push(v)); }
    else { vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(c, k, 1); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + 1, c, k + 1, 0); assert((n + 1) / c == k + 1); assert(piece(l, h, k) =~= b.push(v)); assert(buffer(l, h) =~= Seq::<Seq<u8>>::empty()); }
    assert forall|i: int| 0 <= i < k implies piece(l, h, i) =~= piece(log, h, i) by { lemma_chunk_end(i, k, c); }
    if b.len() < c - 1 { assert(chunks(l, h) =~= chunks(log, h)); } else { assert(chunks(l, h) =~= chunks(log, h).push(blob(b.push(v)))); }
}
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs capacity_for_height
//@ ret r
//@ spec
  ensures r is Ok == (1 <= height <= 16), r is Ok ==> r.unwrap() == cs(height) - 1,
//@ at start
  proof { if 1 <= height <= 16 { shl_pow(height); } }
//@ end
// ---- asking for chunks ----
//@ type grovedb-bulk-append-tree/src/tree/fetch.rs ChunkQueryResult
// trusted only in that it may be called: what it returns is searched, and proved for the prover of whole proofs (bulk_gen)
#[verifier::external_body] pub struct SomeProof { x: u8 }
impl SomeProof { #[verifier::external_body] pub fn hashes(&self) -> Vec<[u8; 32]> { unimplemented!() } }
impl MMR { #[verifier::external_body] pub fn gen_proof(&self, positions: Vec<u64>) -> CostResult<Result<SomeProof, OtherError>> { unimplemented!() } }
pub fn decode_chunk(b: &Vec<u8>) -> (r: Result<Vec<Vec<u8>>, BulkAppendError>) ensures r is Ok == bb::dec(b@).is_some(), r matches Ok(v) ==> bb::dec(b@) == Some(vs(v@))
{ match bb::deserialize_chunk_blob(b.as_slice()) { Ok(v) => { proof { assert(bb::vs(v@) =~= vs(v@)); } Ok(v) } Err(_) => Err(err()) } }
#[verifier::opaque] pub open spec fn dec_at(c: Log, i: u64) -> Option<Log> { bb::dec(c[i as int]) }
pub open spec fn full(log: Log, h: u8) -> Log { chunks(log, h) }
// each chunk asked for, decoded, and the root over all of them
pub open spec fn answered(q: ChunkQueryResult, idx: Seq<u64>, log: Log, h: u8) -> bool {
    &&& q.chunks@.len() == idx.len()
    &&& forall|j: int| 0 <= j < idx.len() ==> idx[j] < chunks(log, h).len() && (#[trigger] q.chunks@[j]).0 == idx[j] && dec_at(chunks(log, h), idx[j]) == Some(vs((q.chunks@[j].1)@))
    &&& idx.len() > 0 ==> q.mmr_root == mroot(chunks(log, h))
}
/// The entries returned are the log's own values, chunk by chunk.
pub proof fn answers_are_values(q: ChunkQueryResult, idx: Seq<u64>, log: Log, h: u8, j: int)
    requires 1 <= h <= 16, okval(log), answered(q, idx, log, h), 0 <= j < idx.len()
    ensures vs((q.chunks@[j].1)@) == piece(log, h, idx[j] as int)
{
    let k = idx[j] as int; let p = piece(log, h, k); shl_pow(h); assert(q.chunks@[j].0 == idx[j]);
    lemma_chunk_end(k, log.len() as int / cs(h), cs(h)); lemma_parts(log.len() as int, cs(h));
    assert(0 <= k * cs(h)) by (nonlinear_arith) requires 0 <= k, 0 <= cs(h);
    assert(fits(p)) by { vstd::arithmetic::power2::lemma2_to64(); if h < 16 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(h as nat, 16); } assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).len() <= u32::MAX by { assert(p[i] == log[k * cs(h) + i]); } }
    bb::theorem_roundtrip(p); reveal(dec_at);
}
impl BulkAppendTree {
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::capacity
//@ ret r
//@ spec
  requires okd(self.dense_tree) ensures r == cs(self.dense_tree.d.height) - 1
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::epoch_size
//@ ret r
//@ spec
  requires okd(self.dense_tree) ensures r == cs(self.dense_tree.d.height), r >= 2
//@ at start
  proof { shl_pow(self.dense_tree.d.height); }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::chunk_count
//@ ret r
//@ spec
  requires okd(self.dense_tree) ensures r == self.total_count as int / cs(self.dense_tree.d.height)
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::buffer_count
//@ ret r
//@ spec
  requires okd(self.dense_tree) ensures r == self.dense_tree.vals().len()
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree::mmr_size
//@ ret r
//@ spec
  requires okd(self.dense_tree) ensures r == msize(self.total_count as int / cs(self.dense_tree.d.height)), r == 0 <==> self.total_count as int / cs(self.dense_tree.d.height) == 0
//@ at start
  proof { shl_pow(self.dense_tree.d.height); lemma_half(self.total_count as int, cs(self.dense_tree.d.height)); }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::new
//@ sig storage: S ==> storage: Store
//@ ret r
//@ spec
  ensures r is Ok == (1 <= height <= 16), r is Ok ==> holds(r.unwrap(), Seq::empty()) && r.unwrap().dense_tree.d.height == height,
//@ at start
  proof { if 1 <= height <= 16 { shl_pow(height); lemma_parts(0, cs(height)); assert(buffer(Seq::empty(), height) =~= Seq::<Seq<u8>>::empty()); assert(chunks(Seq::empty(), height) =~= Seq::<Seq<u8>>::empty()); leaves_empty(storage); } }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::from_state
//@ sig storage: S ==> storage: Store
//@ ret r
//@ spec
  ensures r is Ok == (1 <= height <= 16), r is Ok ==> r.unwrap().dense_tree.d.height == height,
    r is Ok ==> forall|log: Log| #[trigger] kept(storage, log, height) && log.len() == total_count ==> holds(r.unwrap(), log),
//@ at start
  proof { if 1 <= height <= 16 { shl_pow(height); lemma_parts(total_count as int, cs(height)); } }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::get_mmr_root
//@ ret r
//@ spec
  requires exists|log: Log| holds(*self, log)
  ensures r is Ok ==> forall|log: Log| #[trigger] holds(*self, log) ==> r.unwrap() == mr(chunks(log, self.dense_tree.d.height)),
//@ at start
  proof { shl_pow(self.dense_tree.d.height); assert forall|log: Log| #[trigger] holds(*self, log) implies chunks(log, self.dense_tree.d.height).len() == self.total_count as int / cs(self.dense_tree.d.height) by { lemma_parts(log.len() as int, cs(self.dense_tree.d.height)); } }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::compute_current_state_root
//@ ret r
//@ spec
  requires exists|log: Log| holds(*self, log)
  ensures r is Ok ==> forall|log: Log| #[trigger] holds(*self, log) ==> r.unwrap() == lroot(log, self.dense_tree.d.height),
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::compact_with_value
//@ attr #[verifier::loop_isolation(false)]
//@ sig new_value: &[u8] ==> new_value: &[u8], gl: Ghost<Log>
//@ ret r
//@ spec
  requires holds(*old(self), gl@), old(self).dense_tree.vals().len() == cs(old(self).dense_tree.d.height) - 1, okval(gl@), gl@.len() < 0x7fff_ffff_ffff_ffff,
  ensures r is Ok ==> r.unwrap().0 <= 65 && emptied(*final(self), gl@.push(new_value@)) && r.unwrap().1 == mroot(chunks(gl@.push(new_value@), final(self).dense_tree.d.height)),
    final(self).dense_tree.d.height == old(self).dense_tree.d.height, final(self).total_count == old(self).total_count,
    r is Err ==> holds(*final(self), gl@),
//@ at start
  let ghost log = gl@; let ghost h = self.dense_tree.d.height; let ghost s0 = *self;
  proof { shl_pow(h); lemma_append(log, new_value@, h); lemma_parts(log.len() as int, cs(h)); vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(log.len() as int, 2, cs(h)); assert(chunks(log, h).len() < 0x4000_0000_0000_0000); mm::lemma_cap(chunks(log, h).len()); }
//@ loop 1
  invariant i <= count, entries@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] entries@[k])@ == buffer(log, h)[k],
  decreases count - i
//@ before let blob = serialize_chunk_blob
  proof { assert(vs(entries@) =~= buffer(log, h).push(new_value@)); if count > 0 { lemma_parts(log.len() as int, cs(h)); assert(entries@[0]@ == buffer(log, h)[0]); assert(buffer(log, h)[0] == log[log.len() as int / cs(h) * cs(h)]); assert((count + 1) * entries@[0]@.len() <= 65536 * u32::MAX) by (nonlinear_arith) requires count + 1 <= 65536, entries@[0]@.len() <= u32::MAX; } }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::append
//@ sig value: &[u8] ==> value: &[u8], gl: Ghost<Log>
//@ rule self.compact_with_value(value) ==> self.compact_with_value(value, gl)
//@ ret r
//@ spec
  requires holds(*old(self), gl@), okval(gl@), gl@.len() < 0x7fff_ffff_ffff_ffff,
  ensures final(self).dense_tree.d.height == old(self).dense_tree.d.height,
    r is Ok ==> holds(*final(self), gl@.push(value@)) && r.unwrap().state_root == lroot(gl@.push(value@), final(self).dense_tree.d.height) && r.unwrap().global_position == gl@.len()
      && r.unwrap().compacted == (old(self).dense_tree.vals().len() == cs(old(self).dense_tree.d.height) - 1),
    r is Err ==> holds(*final(self), gl@),
//@ at start
  let ghost log = gl@; let ghost h = self.dense_tree.d.height;
  proof { shl_pow(h); lemma_append(log, value@, h); }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/append.rs BulkAppendTree::commit_mmr
//@ ret r
//@ spec
  requires exists|log: Log| holds(*old(self), log)
  ensures forall|log: Log| #[trigger] holds(*old(self), log) ==> holds(*final(self), log) && (r is Ok ==> kept(final(self).dense_tree.d.storage, log, final(self).dense_tree.d.height)),
    final(self).dense_tree.d.height == old(self).dense_tree.d.height,
//@ at start
  let ghost h = self.dense_tree.d.height;
  proof { shl_pow(h); if self.mmr_overlay@.len() == 0 { assert(self.mmr_overlay@ =~= Seq::empty()); }
    assert forall|log: Log| #[trigger] holds(*self, log) implies chunks(log, h).len() == self.total_count as int / cs(h) && buffer(log, h).len() == self.dense_tree.vals().len() by { lemma_parts(log.len() as int, cs(h)); } }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/fetch.rs BulkAppendTree::get_buffer_value
//@ ret r
//@ spec
  requires exists|log: Log| holds(*self, log)
  ensures r is Ok ==> forall|log: Log| #[trigger] holds(*self, log) ==> ((r.unwrap() is Some) == (position < buffer(log, self.dense_tree.d.height).len())) && (r.unwrap() is Some ==> r.unwrap().unwrap()@ == buffer(log, self.dense_tree.d.height)[position as int]),
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/fetch.rs BulkAppendTree::get_chunk_value
//@ ret r
//@ spec
  requires exists|log: Log| holds(*self, log)
  ensures r is Ok ==> forall|log: Log| #[trigger] holds(*self, log) ==> ((r.unwrap() is Some) == (chunk_index < chunks(log, self.dense_tree.d.height).len())) && (r.unwrap() is Some ==> r.unwrap().unwrap()@ == chunks(log, self.dense_tree.d.height)[chunk_index as int]),
//@ at start
  let ghost h = self.dense_tree.d.height;
  proof { shl_pow(h); assert forall|log: Log| #[trigger] holds(*self, log) implies chunks(log, h).len() == self.total_count as int / cs(h) by { lemma_parts(log.len() as int, cs(h)); } lemma_half(self.total_count as int, cs(h)); }
//@ before let node = mmr
  proof { let log = choose|log: Log| holds(*self, log); assert(view(mmr) == Some(chunks(log, h))); let l = of_view(mmr.batch); mm::lemma_msize_mono(chunk_index as nat, l.len()); let ci = chunk_index as int; assert(mm::msize(ci as nat) == mmr_pos); }
//@ end
//@ fn grovedb-bulk-append-tree/src/tree/fetch.rs BulkAppendTree::query_chunks
//@ ret r
//@ spec
  requires exists|log: Log| holds(*self, log)
  ensures r matches Ok(q) ==> forall|log: Log| #[trigger] holds(*self, log) ==> answered(q, chunk_indices@, log, self.dense_tree.d.height),
//@ rule for &idx in chunk_indices { if $c.. { $b.. } } ==> let mut vi: usize = 0; while vi < chunk_indices.len() { let idx = chunk_indices[vi]; vi += 1; if $c { $b } }
//@ rule for &idx in chunk_indices { let blob $b.. } ==> let mut ci: usize = 0; while ci < chunk_indices.len() { let idx = chunk_indices[ci]; ci += 1; let blob $b }
//@ rule Vec::with_capacity(chunk_indices.len()) ==> Vec::<(u64, Vec<Vec<u8>>)>::new()
//@ rule let positions: Vec<u64> = chunk_indices.iter().map(|&idx| $f..).collect(); ==> let mut positions: Vec<u64> = Vec::new(); let mut pi: usize = 0; while pi < chunk_indices.len() { let idx = chunk_indices[pi]; pi += 1; positions.push($f); }
//@ rule let proof_items: Vec<[u8; 32]> = proof.proof_items().iter().map($f..).collect(); ==> let proof_items: Vec<[u8; 32]> = proof.hashes();
//@ rule deserialize_chunk_blob(&blob) ==> decode_chunk(&blob)
//@ at start
  let ghost h = self.dense_tree.d.height; let ghost log0 = choose|log: Log| holds(*self, log); let ghost c = chunks(log0, h);
  proof { shl_pow(h); assert forall|log: Log| #[trigger] holds(*self, log) implies chunks(log, h) == c by { lemma_parts(log.len() as int, cs(h)); lemma_parts(log0.len() as int, cs(h)); }
    shl_pow(h); assert forall|log: Log| #[trigger] holds(*self, log) implies chunks(log, h).len() == self.total_count as int / cs(h) by { lemma_parts(log.len() as int, cs(h)); } lemma_half(self.total_count as int, cs(h)); }
//@ loop 1
  invariant vi <= chunk_indices@.len(), completed_chunks <= 0x7fff_ffff_ffff_ffff, forall|j: int| 0 <= j < vi ==> #[trigger] chunk_indices@[j] < completed_chunks,
  decreases chunk_indices@.len() - vi
//@ loop 2
  invariant ci <= chunk_indices@.len(), chunks@.len() == ci, h == self.dense_tree.d.height, holds(*self, log0), c == full(log0, h), completed_chunks == c.len(), forall|j: int| 0 <= j < chunk_indices@.len() ==> #[trigger] chunk_indices@[j] < completed_chunks,
    forall|j: int| 0 <= j < ci ==> (#[trigger] chunks@[j]).0 == chunk_indices@[j] && dec_at(c, chunk_indices@[j]) == Some(vs((chunks@[j].1)@)),
  decreases chunk_indices@.len() - ci
//@ loopend 2
  proof { reveal(dec_at); }
//@ before let proof_items
  proof { assert(view(mmr) == Some(c)); }
//@ before Ok(ChunkQueryResult
  proof { assert(c.len() == completed_chunks); if chunk_indices@.len() > 0 { assert(chunk_indices@[0] < completed_chunks); assert(mmr_size != 0); assert(mmr_root == mroot(c)); } }
//@ loop 3
  invariant pi <= chunk_indices@.len(), completed_chunks <= 0x7fff_ffff_ffff_ffff, forall|j: int| 0 <= j < chunk_indices@.len() ==> #[trigger] chunk_indices@[j] < completed_chunks,
  decreases chunk_indices@.len() - pi
//@ end
}
} // verus!
fn main() {}
