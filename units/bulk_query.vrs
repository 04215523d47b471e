// C08: which positions a query over a bulk-append log selects. grovedb-bulk-append-tree/src/proof/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@ include bulk_dnp.inc
//@ include bulk_bb.inc
//@ include bulk_mmp.inc
//@ include bulk_query.inc
//@ include bulk_log.inc
//@ rules
self.buffer_proof.verify_and_get_root($x..) ==> dense_verify(&self.buffer_proof, $x)
for item in &query.items { $b.. } ==> let mut ii: usize = 0; while ii < query.items.len() { let item = &query.items[ii]; ii += 1; $b }
ranges.sort() ==> sort_pairs(&mut ranges)
for (s, e) in ranges { $b.. } ==> let mut ri: usize = 0; while ri < ranges.len() { let (s, e) = ranges[ri]; ri += 1; $b }
if let Some(last) = merged.last_mut() && s <= last.1 { last.1 = last.1.max(e); continue; } ==> if merged.len() > 0 && s <= merged[merged.len() - 1].1 { let k = merged.len() - 1; let last = merged[k]; merged.set(k, (last.0, max_u64(last.1, e))); continue; }
ranges.binary_search_by(|&(s, e)| { $b.. }).is_ok() ==> { let mut lo: usize = 0; let mut hi: usize = ranges.len(); let mut found = false; while lo < hi { let mid = lo + (hi - lo) / 2; let (s, e) = ranges[mid]; match ({ $b }) { core::cmp::Ordering::Equal => { found = true; lo = hi; } core::cmp::Ordering::Less => { lo = mid + 1; } core::cmp::Ordering::Greater => { hi = mid; } } } found }
for &(range_start, range_end) in &ranges { $b.. } ==> let mut wi: usize = 0; while wi < ranges.len() { let (range_start, range_end) = ranges[wi]; wi += 1; $b }
for idx in first..=last { $b.. } ==> let mut idx: u64 = first; while idx <= last { $b idx += 1; }
for pos in buf_s..buf_e { $b.. } ==> let mut pos: u16 = buf_s; while pos < buf_e { $b pos += 1; }
for (chunk_idx, blob) in &result.chunk_blobs { $b.. } ==> let mut ci: usize = 0; while ci < result.chunk_blobs.len() { let chunk_idx = result.chunk_blobs[ci].0; let blob = result.chunk_blobs[ci].1.as_slice(); ci += 1; $b }
for (i, value) in entries.into_iter().enumerate() { $b.. } ==> let mut i: usize = 0; while i < entries.len() { let value = vec_copy(&entries[i]); $b i += 1; }
for (pos, value) in &result.dense_entries { $b.. } ==> let mut di: usize = 0; while di < result.dense_entries.len() { let pos = &result.dense_entries[di].0; let value = &result.dense_entries[di].1; di += 1; $b }
value.clone() ==> vec_copy(value)
result.chunk_blobs.iter().map(|(idx, _)| *idx).collect() ==> firsts64(&result.chunk_blobs)
result.dense_entries.iter().map(|(pos, _)| *pos).collect() ==> firsts16(&result.dense_entries)
Ok(std::iter::empty().collect()) ==> Ok(Vec::new())
values.sort_by_key(|(pos, _)| *pos) ==> sort_values(&mut values)
Ok(values.into_iter().collect()) ==> Ok(values)
.map_err(|e| { $x.. }) ==> .map_err(|e: OtherError| -> (x: BulkAppendError) { err() })
&computed_state_root != expected_state_root ==> !same_hash(&computed_state_root, expected_state_root)
std::cmp::min(range_end, buffer_start).saturating_sub(1) ==> sub1(min_u64(range_end, buffer_start))
range_start.saturating_sub(buffer_start) ==> satsub(range_start, buffer_start)
[0u8; 32] ==> zeros()
!(1..=16).contains(&height) ==> !(1 <= height && height <= 16)
//@ end
pub fn max_u64(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
// trusted: the derived order of pairs sorts by first component, and sorting keeps the elements
#[verifier::external_body] pub fn sort_pairs(v: &mut Vec<(u64, u64)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (u64, u64)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0 { v.sort() }
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs bytes_to_global_position
//@ ret r
//@ spec
  ensures r is Ok == okpos(bytes@), r is Ok ==> r.unwrap() == num(bytes@),
//@ end
pub open spec fn upto(q: Query, n: int, p: int) -> bool { exists|i: int| 0 <= i < n && selp(#[trigger] q.items@[i], p) }
pub proof fn inr_push(s: Seq<(u64, u64)>, x: (u64, u64)) ensures forall|p: int| #[trigger] inr(s.push(x), p) == (inr(s, p) || x.0 <= p < x.1)
{
    let t = s.push(x);
    assert forall|p: int| #[trigger] inr(t, p) == (inr(s, p) || x.0 <= p < x.1) by {
        if inr(t, p) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 <= p < t[i].1; if i < s.len() { assert(s[i] == t[i]); assert(inr(s, p)); } }
        if inr(s, p) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 <= p < s[i].1; assert(t[i] == s[i]); }
        if x.0 <= p < x.1 { assert(t[s.len() as int] == x); }
    }
}
// widening the last range to cover x adds exactly x
pub proof fn merge_last(s: Seq<(u64, u64)>, x: (u64, u64), m: Seq<(u64, u64)>) requires s.len() > 0, s.last().0 <= x.0, x.0 <= s.last().1, x.0 < x.1, s.last().0 < s.last().1,
    m =~= s.update(s.len() - 1, (s.last().0, if s.last().1 >= x.1 { s.last().1 } else { x.1 })),
    ensures forall|p: int| #[trigger] inr(m, p) == (inr(s, p) || x.0 <= p < x.1)
{
    let l = s.last(); let n = (l.0, if l.1 >= x.1 { l.1 } else { x.1 }); let d = s.drop_last();
    assert(s =~= d.push(l)); assert(m =~= d.push(n)); inr_push(d, l); inr_push(d, n);
}
pub proof fn same_members(a: Seq<(u64, u64)>, b: Seq<(u64, u64)>, n: u64) requires forall|x: (u64, u64)| #[trigger] b.contains(x) == a.contains(x), nonempty(a, n) ensures nonempty(b, n), forall|p: int| #[trigger] inr(b, p) == inr(a, p)
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 < b[i].1 <= n by { assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].0 < a[j].1 <= n); }
    assert forall|p: int| #[trigger] inr(b, p) == inr(a, p) by {
        if inr(b, p) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 <= p < b[i].1; assert(b.contains(b[i])); assert(a.contains(b[i])); let j = choose|j: int| 0 <= j < a.len() && a[j] == b[i]; assert(a[j].0 <= p < a[j].1); }
        if inr(a, p) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 <= p < a[i].1; assert(a.contains(a[i])); assert(b.contains(a[i])); let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i]; assert(b[j].0 <= p < b[j].1); }
    }
}
pub proof fn inr_empty() ensures forall|s: Seq<(u64, u64)>, p: int| s.len() == 0 ==> !#[trigger] inr(s, p) {}
pub proof fn upto_all(q: Query) ensures forall|p: int| !#[trigger] upto(q, 0, p), forall|p: int| #[trigger] upto(q, q.items@.len() as int, p) == selq(q, p) {}
pub proof fn upto_next(q: Query, n: int) requires 0 <= n < q.items@.len() ensures forall|p: int| #[trigger] upto(q, n + 1, p) == (upto(q, n, p) || selp(q.items@[n], p))
{ assert forall|p: int| #[trigger] upto(q, n + 1, p) == (upto(q, n, p) || selp(q.items@[n], p)) by { if upto(q, n + 1, p) { let i = choose|i: int| 0 <= i < n + 1 && selp(#[trigger] q.items@[i], p); if i < n { assert(upto(q, n, p)); } } } }
//@ include bulk_ranges.inc
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs in_ranges
//@ ret r
//@ spec
  requires nonempty(ranges@, u64::MAX), apart(ranges@),
  ensures r == inr(ranges@, pos as int),
//@ loop 1
  invariant hi <= ranges@.len(), nonempty(ranges@, u64::MAX), apart(ranges@), found ==> inr(ranges@, pos as int), !found ==> lo <= hi,
    !found ==> (forall|i: int| 0 <= i < lo ==> (#[trigger] ranges@[i]).1 <= pos) && (forall|i: int| hi <= i < ranges@.len() ==> (#[trigger] ranges@[i]).0 > pos),
  decreases hi - lo
//@ end
// ---- the verifier ---------------------------------------------------------------
pub fn sub1(a: u64) -> (r: u64) ensures r == if a == 0 { 0 } else { a - 1 } { if a == 0 { 0 } else { a - 1 } }
pub fn satsub(a: u64, b: u64) -> (r: u64) ensures r == if a < b { 0 } else { a - b } { if a < b { 0 } else { a - b } }
#[verifier::external_body] pub fn same_hash(a: &[u8; 32], b: &[u8; 32]) -> (r: bool) ensures r == (*a == *b) { a == b }
#[verifier::external_body] pub fn vec_copy(v: &Vec<u8>) -> (r: Vec<u8>) ensures r@ == v@ { v.clone() }
// trusted: BTreeSet, and sorting a list by its first component keeps the elements
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct BTreeSet<T> { x: std::collections::BTreeSet<T> }
impl<T> BTreeSet<T> {
    pub uninterp spec fn hast(&self, x: T) -> bool;
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self.hast(*x) { unimplemented!() }
}
//@ include bulk_honest.inc
pub open spec fn distinct<T>(s: Seq<(T, Vec<u8>)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
#[verifier::external_body] pub fn firsts64(v: &Vec<(u64, Vec<u8>)>) -> (r: BTreeSet<u64>) ensures forall|p: u64| #[trigger] r.hast(p) == hasp(v@, p) { unimplemented!() }
#[verifier::external_body] pub fn firsts16(v: &Vec<(u16, Vec<u8>)>) -> (r: BTreeSet<u16>) ensures forall|p: u16| #[trigger] r.hast(p) == hasp(v@, p) { unimplemented!() }
#[verifier::external_body] pub fn sort_values(v: &mut Vec<(u64, Vec<u8>)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (u64, Vec<u8>)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), distinct(old(v)@) ==> distinct(final(v)@),
        forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> (#[trigger] final(v)@[i]).0 <= (#[trigger] final(v)@[j]).0 { unimplemented!() }
// the mountain-range proof, the dense proof and the chunk codec through the contracts in mm, dn and bb
pub struct MmrTreeProof { pub p: mm::MmrTreeProof }
pub proof fn firsts_same(a: mm::Vals) requires mm::distinct(a) ensures mm::firsts(a) == a decreases a.len()
{ if a.len() > 0 { let d = a.drop_last(); firsts_same(d); if mm::knows(d, a.last().0) { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == a.last().0; assert(a[k].0 == a[a.len() - 1].0); } assert(d.push(a.last()) =~= a); } }
#[verifier::external_body] pub fn other_error(e: mm::Error) -> (r: OtherError) { unimplemented!() }
impl MmrTreeProof {
    pub fn mmr_size(&self) -> (r: u64) ensures r == self.p.mmr_size { self.p.mmr_size() }
    pub fn verify_and_get_root(&self) -> (r: Result<([u8; 32], Vec<(u64, Vec<u8>)>), OtherError>)
        ensures r is Ok ==> distinct(r.unwrap().1@) && forall|l: Log, i: int| #[trigger] mroot(l) == r.unwrap().0 && l.len() <= 0x7fff_ffff_ffff_ffff && msize(l.len() as int) == self.p.mmr_size && 0 <= i < r.unwrap().1@.len()
            ==> (#[trigger] r.unwrap().1@[i]).0 < l.len() && r.unwrap().1@[i].1@ == l[r.unwrap().1@[i].0 as int],
            forall|l: Log| l.len() > 0 && #[trigger] chunk_ok(self.p, l) ==> r is Ok && r.unwrap().0 == mroot(l) && r.unwrap().1@ == self.p.leaves@
    {
        proof { if mm::distinct(self.p.leaves@) { firsts_same(self.p.leaves@); } }
        match self.p.verify_and_get_root() {
            Ok(x) => {
                proof { assert forall|l: Log, i: int| #[trigger] mroot(l) == x.0 && l.len() <= 0x7fff_ffff_ffff_ffff && msize(l.len() as int) == self.p.mmr_size && 0 <= i < (x.1)@.len() implies (#[trigger] (x.1)@[i]).0 < l.len() && (x.1)@[i].1@ == l[(x.1)@[i].0 as int] by { mm::lemma_msize(l.len()); assert(mm::agrees((x.1)@, l)); } }
                Ok(x)
            }
            Err(e) => Err(other_error(e)),
        }
    }
}
use dn::DenseTreeProof;
#[verifier::external_body] pub fn dense_error(e: dn::DenseMerkleError) -> (r: OtherError) { unimplemented!() }
pub fn dense_verify(p: &DenseTreeProof, height: u8, count: u16) -> (r: Result<([u8; 32], Vec<(u16, Vec<u8>)>), OtherError>)
    ensures r is Ok ==> distinct(r.unwrap().1@) && forall|l: Log, i: int| #[trigger] droot(height, l) == r.unwrap().0 && l.len() == count && 0 <= i < r.unwrap().1@.len()
        ==> (#[trigger] r.unwrap().1@[i]).0 < count && r.unwrap().1@[i].1@ == l[r.unwrap().1@[i].0 as int],
        r is Ok == dn::accepts(*p, height, count), r is Ok ==> r.unwrap().0 == dn::prec(*p, 0, height, count)->0 && r.unwrap().1@ == p.entries@
{
    let r: Result<([u8; 32], Vec<(u16, Vec<u8>)>), dn::DenseMerkleError> = p.verify_and_get_root(height, count);
    match r {
        Ok(x) => {
            proof {
                dn::axiom_collected_vec(p.entries@); assert((x.1)@ == p.entries@);
                assert forall|l: Log, i: int| #[trigger] droot(height, l) == x.0 && l.len() == count && 0 <= i < (x.1)@.len() implies (#[trigger] (x.1)@[i]).0 < count && (x.1)@[i].1@ == l[(x.1)@[i].0 as int] by { dn::theorem_sound(*p, l, height); }
            }
            Ok(x)
        }
        Err(e) => Err(dense_error(e)),
    }
}
pub fn deserialize_chunk_blob(b: &[u8]) -> (r: Result<Vec<Vec<u8>>, OtherError>)
    ensures forall|vals: Log| #[trigger] blob(vals) == b@ && fits(vals) ==> r is Ok && vs(r.unwrap()@) == vals
{
    proof { assert forall|vals: Log| #[trigger] blob(vals) == b@ && fits(vals) implies bb::dec(b@) == Some(vals) by { bb::theorem_roundtrip(vals); } }
    match bb::deserialize_chunk_blob(b) { Ok(v) => { proof { assert(bb::vs(v@) =~= vs(v@)); } Ok(v) } Err(e) => Err(codec_error(e)) }
}
#[verifier::external_body] pub fn codec_error(e: bb::BulkAppendError) -> (r: OtherError) { unimplemented!() }
//@ type grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof
//@ type grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProofResult
// the proof result speaks of this log: what it lists is what the log has there
pub open spec fn speaks(res: BulkAppendTreeProofResult, log: Log) -> bool {
    &&& res.total_count == log.len() && 1 <= res.height <= 16
    &&& distinct(res.chunk_blobs@) && distinct(res.dense_entries@)
    &&& forall|i: int| 0 <= i < res.chunk_blobs@.len() ==> (#[trigger] res.chunk_blobs@[i]).0 < chunks(log, res.height).len() && res.chunk_blobs@[i].1@ == chunks(log, res.height)[res.chunk_blobs@[i].0 as int]
    &&& forall|i: int| 0 <= i < res.dense_entries@.len() ==> (#[trigger] res.dense_entries@[i]).0 < buffer(log, res.height).len() && res.dense_entries@[i].1@ == buffer(log, res.height)[res.dense_entries@[i].0 as int]
}
pub open spec fn exact(v: Seq<(u64, Vec<u8>)>, log: Log, q: Query) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[j]).0
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 < log.len() && v[i].1@ == log[v[i].0 as int]
    &&& forall|p: u64| #[trigger] hasp(v, p) == (p < log.len() && selq(q, p as int))
}
pub open spec fn good(v: Seq<(u64, Vec<u8>)>, log: Log, rs: Seq<(u64, u64)>) -> bool { distinct(v) && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 < log.len() && inr(rs, v[i].0 as int) && v[i].1@ == log[v[i].0 as int] }
pub open spec fn inone(rs: Seq<(u64, u64)>, m: int, p: int) -> bool { rs[m].0 <= p < rs[m].1 }
// every wanted position from lo up to hi is in the list
pub open spec fn cov(v: Seq<(u64, Vec<u8>)>, rs: Seq<(u64, u64)>, lo: int, hi: int) -> bool { forall|p: int| lo <= p < hi && #[trigger] inr(rs, p) ==> hasp(v, p as u64) }
pub open spec fn covk(v: Seq<(u64, Vec<u8>)>, rs: Seq<(u64, u64)>, cb: Seq<(u64, Vec<u8>)>, c: int, k: int) -> bool { cov(v, rs, cb[k].0 * c, cb[k].0 * c + c) }
pub open spec fn fromc<T>(cb: Seq<(T, Vec<u8>)>, n: int, q: T) -> bool { exists|k: int| 0 <= k < n && (#[trigger] cb[k]).0 == q }
pub proof fn lemma_push(v: Seq<(u64, Vec<u8>)>, x: (u64, Vec<u8>), log: Log, rs: Seq<(u64, u64)>) requires good(v, log, rs), !hasp(v, x.0), x.0 < log.len(), inr(rs, x.0 as int), x.1@ == log[x.0 as int]
    ensures good(v.push(x), log, rs), forall|p: u64| #[trigger] hasp(v.push(x), p) == (hasp(v, p) || p == x.0)
{
    let w = v.push(x);
    assert(at(w, v.len() as int, x.0));
    assert forall|p: u64| #[trigger] hasp(w, p) == (hasp(v, p) || p == x.0) by {
        if hasp(w, p) { let i = choose|i: int| #[trigger] at(w, i, p); if i < v.len() { assert(at(v, i, p)); } }
        if hasp(v, p) { let i = choose|i: int| #[trigger] at(v, i, p); assert(at(w, i, p)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 != (#[trigger] w[j]).0 by { assert(at(v, i, w[i].0)); if j < v.len() { assert(v[i].0 != v[j].0); } }
}
pub proof fn inr_in(rs: Seq<(u64, u64)>, p: int) -> (m: int) requires inr(rs, p) ensures 0 <= m < rs.len(), inone(rs, m, p) { let m = choose|m: int| 0 <= m < rs.len() && (#[trigger] rs[m]).0 <= p < rs[m].1; m }
// chunk k, not before the one of s nor after the one of e, has a position in [s, e]
pub proof fn lemma_first_in(s: int, e: int, k: int, c: int) requires 0 <= s <= e, 0 < c, s / c <= k <= e / c ensures ({ let p = if s >= k * c { s } else { k * c }; s <= p <= e && p / c == k && 0 <= p })
{
    lemma_chunk_of(s, c); lemma_chunk_of(e, c); let p = if s >= k * c { s } else { k * c };
    assert(k * c <= e / c * c) by (nonlinear_arith) requires k <= e / c, c > 0;
    assert(s / c * c + c <= k * c + c) by (nonlinear_arith) requires s / c <= k, c > 0;
    assert(0 <= k * c) by (nonlinear_arith) requires 0 <= k, 0 < c;
    lemma_in_chunk(k, p - k * c, c);
}
pub proof fn covers_at(cp: mm::MmrTreeProof, bp: dn::DenseTreeProof, n: int, h: u8, q: Query, p: int) requires covers(cp, bp, n, h, q), 0 <= p < n, selq(q, p)
    ensures p < n / cs(h) * cs(h) ==> hasp(cp.leaves@, (p / cs(h)) as u64), p >= n / cs(h) * cs(h) ==> hasp(bp.entries@, (p - n / cs(h) * cs(h)) as u16)
{ assert(given(cp, bp, n, cs(h), p)); }
impl BulkAppendTreeProof {
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof::verify_and_compute_root
//@ ret r
//@ spec
  ensures r is Ok ==> 1 <= height <= 16 && r.unwrap().1.total_count == total_count && r.unwrap().1.height == height,
    r is Ok ==> exists|m: [u8; 32], d: [u8; 32]| #[trigger] sroot(m, d) == r.unwrap().0,
    r is Ok ==> forall|log: Log| #[trigger] lroot(log, height) == r.unwrap().0 && log.len() == total_count ==> speaks(r.unwrap().1, log),
    forall|log: Log| #[trigger] honestp(self.chunk_proof.p, self.buffer_proof, log, height) && log.len() == total_count ==> r is Ok && r.unwrap().0 == lroot(log, height)
        && (chunks(log, height).len() > 0 ==> r.unwrap().1.chunk_blobs@ == self.chunk_proof.p.leaves@) && (buffer(log, height).len() > 0 ==> r.unwrap().1.dense_entries@ == self.buffer_proof.entries@),
//@ at start
  broadcast use sroot_free; proof { if 1 <= height <= 16 { shl_pow(height); lemma_parts(total_count as int, cs(height)); lemma_half(total_count as int, cs(height)); } }
//@ end
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof::verify_against_query
//@ sig verify_against_query<C>( ==> verify_against_query(
//@ sig query: &Query, ==> query: &Query, gl: Ghost<Log>,
//@ sig Result<C, BulkAppendError> ==> Result<Vec<(u64, Vec<u8>)>, BulkAppendError>
//@ sig where C: FromIterator<(u64, Vec<u8>)>, ==> 
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::spinoff_prover]
//@ ret r
//@ spec
  requires lroot(gl@, height) == *expected_state_root, gl@.len() == total_count, okval(gl@),
  ensures r is Ok ==> goodq(*query) && exact(r.unwrap()@, gl@, *query),
//@ at start
  hide(inr); hide(selq); hide(lroot); hide(cs);
  let ghost log = gl@;
  proof { inr_empty(); }
//@ before if ranges.len() == 0
  let ghost rs = ranges@; let ghost cb = result.chunk_blobs@; let ghost de = result.dense_entries@; let ghost c = cs(height); let ghost n = total_count as int; let ghost bs = n / c * c; let ghost nc = n / c;
  proof {
    shl_pow(height); lemma_parts(n, c); assert(speaks(result, log));
    if rs.len() == 0 { assert forall|p: u64| #[trigger] hasp(Seq::<(u64, Vec<u8>)>::empty(), p) == (p < log.len() && selq(*query, p as int)) by { assert(!inr(rs, p as int)); if hasp(Seq::<(u64, Vec<u8>)>::empty(), p) { let i = choose|i: int| #[trigger] at(Seq::<(u64, Vec<u8>)>::empty(), i, p); } } }
    assert(chunks(log, height).len() == nc) by { reveal(cs); } assert(buffer(log, height).len() == n - bs) by { reveal(cs); }
  }
//@ loop 1
  invariant wi <= rs.len(), forall|m: int, p: int| 0 <= m < wi && #[trigger] inone(rs, m, p) && p < bs ==> hasp(cb, (p / c) as u64),
  decreases rs.len() - wi
//@ loop 2
  invariant idx <= last + 1, last < n, forall|x: u64| first <= x < idx ==> #[trigger] hasp(cb, x),
  decreases last + 1 - idx
//@ preloop 2
  proof { let e = if range_end <= buffer_start { range_end as int } else { buffer_start as int } - 1; assert(rs[wi - 1].0 < rs[wi - 1].1 <= n); vstd::arithmetic::div_mod::lemma_div_nonincreasing(e, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(range_start as int, e, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(e, n, c); lemma_chunk_of(e, c); }
//@ loopend 1
  proof {
    assert forall|p: int| #[trigger] inone(rs, wi - 1, p) && p < bs implies hasp(cb, (p / c) as u64) by {
        let e = if range_end <= buffer_start { range_end as int } else { buffer_start as int } - 1;
        vstd::arithmetic::div_mod::lemma_div_is_ordered(range_start as int, p, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(p, e, c);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, c);
    }
  }
//@ loop 3
  invariant wi <= rs.len(), forall|m: int, p: int| 0 <= m < wi && #[trigger] inone(rs, m, p) && p >= bs ==> hasp(de, (p - bs) as u16),
  decreases rs.len() - wi
//@ loop 4
  invariant buf_s <= buf_e ==> buf_s <= pos <= buf_e, forall|x: u16| buf_s <= x < pos ==> #[trigger] hasp(de, x),
  decreases buf_e - pos
//@ loopend 3
  proof {
    assert forall|p: int| #[trigger] inone(rs, wi - 1, p) && p >= bs implies hasp(de, (p - bs) as u16) by { assert(range_end <= n); }
  }
//@ loop 5
  invariant ci <= cb.len(), good(values@, log, rs), forall|i: int| 0 <= i < values@.len() ==> (#[trigger] values@[i]).0 < bs && fromc(cb, ci as int, (values@[i].0 as int / c) as u64),
    forall|k: int| 0 <= k < ci ==> #[trigger] covk(values@, rs, cb, c, k),
  decreases cb.len() - ci
//@ loopstart 5
  let ghost q = cb[ci as int].0 as int; let ghost base = q * c; let ghost want = piece(log, height, q);
  proof { lemma_chunk_end(q, nc, c); assert(blob(want) == cb[ci as int].1@) by { reveal(cs); } assert(want.len() == c && forall|i: int| 0 <= i < c ==> #[trigger] want[i] == log[base + i]) by { reveal(cs); } assert(fits(want)); }
//@ preloop 6
  proof { assert(vs(entries@) == want); assert(entries@.len() == want.len()); assert forall|j: int| 0 <= j < c implies (#[trigger] entries@[j])@ == log[base + j] by { assert(vs(entries@)[j] == want[j]); }
    assert forall|i: int| 0 <= i < values@.len() implies !(base <= (#[trigger] values@[i]).0 < base + c) by {
        if base <= values@[i].0 < base + c { lemma_in_chunk(q, values@[i].0 - base, c); let k = choose|k: int| 0 <= k < ci - 1 && (#[trigger] cb[k]).0 == q; assert(cb[k].0 != cb[ci - 1].0); }
    } }
//@ loop 6
  invariant i <= entries@.len(), entries@.len() == c, forall|j: int| 0 <= j < c ==> (#[trigger] entries@[j])@ == log[base + j], 0 <= base, base + c <= bs, chunk_start == base, base == q * c, q == cb[ci - 1].0,
    good(values@, log, rs), forall|m: int| 0 <= m < values@.len() ==> (#[trigger] values@[m]).0 < bs && (fromc(cb, ci - 1, (values@[m].0 as int / c) as u64) || base <= values@[m].0 < base + i) && !(base + i <= values@[m].0 < base + c),
    forall|k: int| 0 <= k < ci - 1 ==> #[trigger] covk(values@, rs, cb, c, k), cov(values@, rs, base, base + i),
  decreases entries@.len() - i
//@ loopstart 6
  let ghost v0 = values@;
//@ before values.push((global_pos, value))
  proof { assert(!hasp(v0, global_pos)) by { if hasp(v0, global_pos) { let m = choose|m: int| #[trigger] at(v0, m, global_pos); assert(v0[m].0 == base + i); } } lemma_push(v0, (global_pos, value), log, rs); }
//@ loopend 6
  proof { assert(i >= 1); assert forall|k: int| 0 <= k < ci - 1 implies #[trigger] covk(values@, rs, cb, c, k) by { assert(covk(v0, rs, cb, c, k)); } assert(cov(v0, rs, base, base + i - 1)); }
//@ loopend 5
  proof {
    assert(covk(values@, rs, cb, c, ci - 1));
    assert forall|m: int| 0 <= m < values@.len() implies fromc(cb, ci as int, ((#[trigger] values@[m]).0 as int / c) as u64) by {
        if base <= values@[m].0 < base + c { lemma_in_chunk(q, values@[m].0 - base, c); assert(cb[ci - 1].0 == q); }
        else { let k = choose|k: int| 0 <= k < ci - 1 && (#[trigger] cb[k]).0 == (values@[m].0 as int / c) as u64; assert(cb[k].0 == (values@[m].0 as int / c) as u64); }
    }
  }
//@ loop 7
  invariant di <= de.len(), good(values@, log, rs), forall|m: int| 0 <= m < values@.len() ==> (#[trigger] values@[m]).0 < bs || fromc(de, di as int, (values@[m].0 - bs) as u16),
    forall|k: int| 0 <= k < cb.len() ==> #[trigger] covk(values@, rs, cb, c, k), forall|k: int| 0 <= k < di && inr(rs, bs + (#[trigger] de[k]).0) ==> hasp(values@, (bs + de[k].0) as u64),
  decreases de.len() - di
//@ loopstart 7
  let ghost v0 = values@; let ghost dp = de[di as int].0;
  proof { assert(de[di as int].1@ == log[bs + dp]) by { reveal(cs); } assert(bs + dp < n); }
//@ before values.push((global_pos, vec_copy(value)))
  proof { assert(!hasp(v0, global_pos)) by { if hasp(v0, global_pos) { let m = choose|m: int| #[trigger] at(v0, m, global_pos); assert(v0[m].0 == bs + dp); let k = choose|k: int| 0 <= k < di - 1 && (#[trigger] de[k]).0 == (v0[m].0 - bs) as u16; assert(de[k].0 != de[di - 1].0); } } }
//@ after values.push((global_pos, vec_copy(value)));
  proof { lemma_push(v0, values@.last(), log, rs); assert(values@ =~= v0.push(values@.last())); }
//@ loopend 7
  proof {
    assert forall|k: int| 0 <= k < cb.len() implies #[trigger] covk(values@, rs, cb, c, k) by { assert(covk(v0, rs, cb, c, k)); }
    assert forall|m: int| 0 <= m < values@.len() implies (#[trigger] values@[m]).0 < bs || fromc(de, di as int, (values@[m].0 - bs) as u16) by {
        if m < v0.len() { assert(values@[m] == v0[m]); if v0[m].0 >= bs { let k = choose|k: int| 0 <= k < di - 1 && (#[trigger] de[k]).0 == (v0[m].0 - bs) as u16; assert(de[k].0 == (v0[m].0 - bs) as u16); } } else { assert(de[di - 1].0 == dp); }
    }
  }
//@ before sort_values(&mut values);
  let ghost vf = values@;
  proof {
    assert forall|p: int| #[trigger] inr(rs, p) implies hasp(vf, p as u64) by {
        let m = inr_in(rs, p);
        if p < bs { let x = (p / c) as u64; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, c); vstd::arithmetic::div_mod::lemma_div_nonincreasing(p, c); assert(hasp(cb, x)); let k = choose|k: int| #[trigger] at(cb, k, x); lemma_chunk_of(p, c); assert(covk(vf, rs, cb, c, k)); }
        else { let x = (p - bs) as u16; assert(hasp(de, x)); let k = choose|k: int| #[trigger] at(de, k, x); assert(bs + de[k].0 == p); }
    }
  }
//@ after sort_values(&mut values);
  proof {
    let w = values@;
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 < log.len() && inr(rs, w[i].0 as int) && w[i].1@ == log[w[i].0 as int] by { assert(w.contains(w[i])); assert(vf.contains(w[i])); let j = choose|j: int| 0 <= j < vf.len() && vf[j] == w[i]; assert(vf[j].0 < log.len()); }
    assert forall|p: u64| #[trigger] hasp(w, p) == (p < log.len() && selq(*query, p as int)) by {
        if hasp(w, p) { let i = choose|i: int| #[trigger] at(w, i, p); assert(inr(rs, w[i].0 as int)); }
        if p < log.len() && selq(*query, p as int) { assert(inr(rs, p as int)); assert(hasp(vf, p)); let j = choose|j: int| #[trigger] at(vf, j, p); assert(vf.contains(vf[j])); assert(w.contains(vf[j])); let i = choose|i: int| 0 <= i < w.len() && w[i] == vf[j]; assert(at(w, i, p)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 < (#[trigger] w[j]).0 by {}
  }
//@ end
// the same function: an honest proof that lists what the query needs is not refused
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProof::verify_against_query
//@ sig verify_against_query<C>( ==> verify_against_query(
//@ sig query: &Query, ==> query: &Query, gl: Ghost<Log>,
//@ sig Result<C, BulkAppendError> ==> Result<Vec<(u64, Vec<u8>)>, BulkAppendError>
//@ sig where C: FromIterator<(u64, Vec<u8>)>, ==> 
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::spinoff_prover]
//@ as verify_honest
//@ ret r
//@ spec
  requires lroot(gl@, height) == *expected_state_root, gl@.len() == total_count, okval(gl@),
    goodq(*query), honestp(self.chunk_proof.p, self.buffer_proof, gl@, height), covers(self.chunk_proof.p, self.buffer_proof, total_count as int, height, *query),
  ensures r is Ok,
//@ at start
  hide(inr); hide(selq); hide(lroot); hide(cs); hide(honestp); hide(covers);
  let ghost log = gl@;
//@ before if ranges.len() == 0
  let ghost rs = ranges@; let ghost cb = result.chunk_blobs@; let ghost de = result.dense_entries@; let ghost c = cs(height); let ghost n = total_count as int; let ghost bs = n / c * c; let ghost nc = n / c;
  proof {
    assert(1 <= height <= 16);
    shl_pow(height); lemma_parts(n, c); assert(speaks(result, log));
    assert(chunks(log, height).len() == nc) by { reveal(cs); } assert(buffer(log, height).len() == n - bs) by { reveal(cs); }
    vstd::arithmetic::mul::lemma_mul_nonnegative(nc, c);
    if bs > 0 { assert(nc > 0) by (nonlinear_arith) requires bs == nc * c, bs > 0, nc >= 0; assert(cb == self.chunk_proof.p.leaves@); }
    if n > bs { assert(de == self.buffer_proof.entries@); }
  }
//@ loop 1
  invariant wi <= rs.len(),
  decreases rs.len() - wi
//@ loop 2
  invariant idx <= last + 1, last < n, first <= idx,
  decreases last + 1 - idx
//@ loopstart 2
  proof { {
    let p = if range_start as int >= idx * c { range_start as int } else { idx * c };
    let e = if range_end <= buffer_start { range_end as int } else { buffer_start as int } - 1;
    lemma_first_in(range_start as int, e, idx as int, c);
    assert(inone(rs, wi - 1, p) && p < bs);
    assert(inr(rs, p)) by { reveal(inr); assert(rs[wi - 1].0 <= p < rs[wi - 1].1); } covers_at(self.chunk_proof.p, self.buffer_proof, n, height, *query, p); } }
//@ preloop 2
  proof { let e = if range_end <= buffer_start { range_end as int } else { buffer_start as int } - 1; assert(rs[wi - 1].0 < rs[wi - 1].1 <= n); vstd::arithmetic::div_mod::lemma_div_nonincreasing(e, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(range_start as int, e, c); vstd::arithmetic::div_mod::lemma_div_is_ordered(e, n, c); lemma_chunk_of(e, c); }
//@ loop 3
  invariant wi <= rs.len(),
  decreases rs.len() - wi
//@ loop 4
  invariant buf_s <= buf_e ==> buf_s <= pos <= buf_e, buf_s <= pos,
  decreases buf_e - pos
//@ loopstart 4
  proof { { let p = bs + pos; assert(inone(rs, wi - 1, p)); assert(inr(rs, p)) by { reveal(inr); assert(rs[wi - 1].0 <= p < rs[wi - 1].1); } covers_at(self.chunk_proof.p, self.buffer_proof, n, height, *query, p); } }
//@ loop 5
  invariant ci <= cb.len(),
  decreases cb.len() - ci
//@ loopstart 5
  let ghost q = cb[ci as int].0 as int; let ghost base = q * c; let ghost want = piece(log, height, q);
  proof { lemma_chunk_end(q, nc, c); assert(blob(want) == cb[ci as int].1@) by { reveal(cs); } assert(want.len() == c && forall|i: int| 0 <= i < c ==> #[trigger] want[i] == log[base + i]) by { reveal(cs); } assert(fits(want)); }
//@ preloop 6
  proof { assert(vs(entries@) == want); assert(entries@.len() == want.len()); }
//@ loop 6
  invariant i <= entries@.len(), entries@.len() == c, 0 <= base, base + c <= bs, chunk_start == base,
  decreases entries@.len() - i
//@ loop 7
  invariant di <= de.len(),
  decreases de.len() - di
//@ loopstart 7
  proof { let dp = de[di as int].0; assert(de[di as int].1@ == log[bs + dp]) by { reveal(cs); } assert(bs + dp < n); }
//@ end
}
pub open spec fn one(a: u64, b: u64) -> Seq<(u64, u64)> { seq![(a, b)] }
pub proof fn inr_one(a: u64, b: u64) ensures forall|p: int| #[trigger] inr(one(a, b), p) == (a <= p < b) { assert forall|p: int| #[trigger] inr(one(a, b), p) == (a <= p < b) by { if a <= p < b { assert(one(a, b)[0] == (a, b)); assert(one(a, b)[0].0 <= p < one(a, b)[0].1); } } }
// the result lists the value at this position
pub open spec fn lists(res: BulkAppendTreeProofResult, p: int) -> bool { let c = cs(res.height); let bs = res.total_count as int / c * c; 0 <= p < res.total_count && if p < bs { hasp(res.chunk_blobs@, (p / c) as u64) } else { hasp(res.dense_entries@, (p - bs) as u16) } }
pub open spec fn ranged(v: Seq<(u64, Vec<u8>)>, res: BulkAppendTreeProofResult, log: Log, start: u64, end: u64) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 < (#[trigger] v[j]).0
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 < log.len() && v[i].1@ == log[v[i].0 as int]
    &&& forall|p: u64| #[trigger] hasp(v, p) == (start <= p < end && lists(res, p as int))
}
impl BulkAppendTreeProofResult {
//@ fn grovedb-bulk-append-tree/src/proof/mod.rs BulkAppendTreeProofResult::values_in_range
//@ sig end: u64, ==> end: u64, gl: Ghost<Log>,
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::spinoff_prover]
//@ rulefirst for (chunk_idx, blob) in &self.chunk_blobs { $b.. } ==> let mut ci: usize = 0; while ci < self.chunk_blobs.len() { let chunk_idx = self.chunk_blobs[ci].0; let blob = self.chunk_blobs[ci].1.as_slice(); ci += 1; $b }
//@ rulefirst for (i, value) in values.into_iter().enumerate() { $b.. } ==> let mut i: usize = 0; while i < values.len() { let value = vec_copy(&values[i]); $b i += 1; }
//@ rulefirst for (pos, value) in &self.dense_entries { $b.. } ==> let mut di: usize = 0; while di < self.dense_entries.len() { let pos = &self.dense_entries[di].0; let value = &self.dense_entries[di].1; di += 1; $b }
//@ rulefirst result.sort_by_key(|(pos, _)| *pos) ==> sort_values(&mut result)
//@ ret r
//@ spec
  requires speaks(*self, gl@), okval(gl@),
  ensures r is Ok, ranged(r.unwrap()@, *self, gl@, start, end),
//@ at start
  hide(inr); hide(cs);
  let ghost log = gl@; let ghost rs = one(start, end);
  let ghost cb = self.chunk_blobs@; let ghost de = self.dense_entries@; let ghost c = cs(self.height); let ghost n = self.total_count as int; let ghost bs = n / c * c; let ghost nc = n / c;
  proof {
    inr_one(start, end); shl_pow(self.height); lemma_parts(n, c);
    assert(chunks(log, self.height).len() == nc) by { reveal(cs); } assert(buffer(log, self.height).len() == n - bs) by { reveal(cs); }
  }
//@ loop 1
  invariant ci <= cb.len(), good(result@, log, rs), forall|i: int| 0 <= i < result@.len() ==> (#[trigger] result@[i]).0 < bs && fromc(cb, ci as int, (result@[i].0 as int / c) as u64),
    forall|k: int| 0 <= k < ci ==> #[trigger] covk(result@, rs, cb, c, k),
  decreases cb.len() - ci
//@ loopstart 1
  let ghost q = cb[ci as int].0 as int; let ghost base = q * c; let ghost want = piece(log, self.height, q);
  proof { lemma_chunk_end(q, nc, c); assert(blob(want) == cb[ci as int].1@) by { reveal(cs); } assert(want.len() == c && forall|i: int| 0 <= i < c ==> #[trigger] want[i] == log[base + i]) by { reveal(cs); } assert(fits(want)); }
//@ preloop 2
  proof { assert(vs(values@) == want); assert(values@.len() == want.len()); assert forall|j: int| 0 <= j < c implies (#[trigger] values@[j])@ == log[base + j] by { assert(vs(values@)[j] == want[j]); }
    assert forall|i: int| 0 <= i < result@.len() implies !(base <= (#[trigger] result@[i]).0 < base + c) by {
        if base <= result@[i].0 < base + c { lemma_in_chunk(q, result@[i].0 - base, c); let k = choose|k: int| 0 <= k < ci - 1 && (#[trigger] cb[k]).0 == q; assert(cb[k].0 != cb[ci - 1].0); }
    } }
//@ loop 2
  invariant i <= values@.len(), values@.len() == c, forall|j: int| 0 <= j < c ==> (#[trigger] values@[j])@ == log[base + j], 0 <= base, base + c <= bs, chunk_start == base, base == q * c, q == cb[ci - 1].0,
    good(result@, log, rs), forall|m: int| 0 <= m < result@.len() ==> (#[trigger] result@[m]).0 < bs && (fromc(cb, ci - 1, (result@[m].0 as int / c) as u64) || base <= result@[m].0 < base + i) && !(base + i <= result@[m].0 < base + c),
    forall|k: int| 0 <= k < ci - 1 ==> #[trigger] covk(result@, rs, cb, c, k), cov(result@, rs, base, base + i),
  decreases values@.len() - i
//@ loopstart 2
  let ghost v0 = result@;
//@ before result.push((global_pos, value))
  proof { assert(!hasp(v0, global_pos)) by { if hasp(v0, global_pos) { let m = choose|m: int| #[trigger] at(v0, m, global_pos); assert(v0[m].0 == base + i); } } lemma_push(v0, (global_pos, value), log, rs); }
//@ loopend 2
  proof { assert(i >= 1); assert forall|k: int| 0 <= k < ci - 1 implies #[trigger] covk(result@, rs, cb, c, k) by { assert(covk(v0, rs, cb, c, k)); } assert(cov(v0, rs, base, base + i - 1)); }
//@ loopend 1
  proof {
    assert(covk(result@, rs, cb, c, ci - 1));
    assert forall|m: int| 0 <= m < result@.len() implies fromc(cb, ci as int, ((#[trigger] result@[m]).0 as int / c) as u64) by {
        if base <= result@[m].0 < base + c { lemma_in_chunk(q, result@[m].0 - base, c); assert(cb[ci - 1].0 == q); }
        else { let k = choose|k: int| 0 <= k < ci - 1 && (#[trigger] cb[k]).0 == (result@[m].0 as int / c) as u64; assert(cb[k].0 == (result@[m].0 as int / c) as u64); }
    }
  }
//@ loop 3
  invariant di <= de.len(), good(result@, log, rs), forall|m: int| 0 <= m < result@.len() ==> if (#[trigger] result@[m]).0 < bs { fromc(cb, cb.len() as int, (result@[m].0 as int / c) as u64) } else { fromc(de, di as int, (result@[m].0 - bs) as u16) },
    forall|k: int| 0 <= k < cb.len() ==> #[trigger] covk(result@, rs, cb, c, k), forall|k: int| 0 <= k < di && inr(rs, bs + (#[trigger] de[k]).0) ==> hasp(result@, (bs + de[k].0) as u64),
  decreases de.len() - di
//@ loopstart 3
  let ghost v0 = result@; let ghost dp = de[di as int].0;
  proof { assert(de[di as int].1@ == log[bs + dp]) by { reveal(cs); } assert(bs + dp < n); }
//@ before result.push((global_pos, vec_copy(value)))
  proof { assert(!hasp(v0, global_pos)) by { if hasp(v0, global_pos) { let m = choose|m: int| #[trigger] at(v0, m, global_pos); assert(v0[m].0 == bs + dp); let k = choose|k: int| 0 <= k < di - 1 && (#[trigger] de[k]).0 == (v0[m].0 - bs) as u16; assert(de[k].0 != de[di - 1].0); } } }
//@ after result.push((global_pos, vec_copy(value)));
  proof { lemma_push(v0, result@.last(), log, rs); assert(result@ =~= v0.push(result@.last())); }
//@ loopend 3
  proof {
    assert forall|k: int| 0 <= k < cb.len() implies #[trigger] covk(result@, rs, cb, c, k) by { assert(covk(v0, rs, cb, c, k)); }
    assert forall|m: int| 0 <= m < result@.len() implies if (#[trigger] result@[m]).0 < bs { fromc(cb, cb.len() as int, (result@[m].0 as int / c) as u64) } else { fromc(de, di as int, (result@[m].0 - bs) as u16) } by {
        if m < v0.len() { assert(result@[m] == v0[m]); if v0[m].0 >= bs { let k = choose|k: int| 0 <= k < di - 1 && (#[trigger] de[k]).0 == (v0[m].0 - bs) as u16; assert(de[k].0 == (v0[m].0 - bs) as u16); } } else { assert(de[di - 1].0 == dp); }
    }
  }
//@ before sort_values(&mut result);
  let ghost vf = result@;
  proof {
    assert forall|p: int| start <= p < end && #[trigger] lists(*self, p) implies hasp(vf, p as u64) by {
        assert(inr(rs, p));
        if p < bs { let x = (p / c) as u64; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(p, c); vstd::arithmetic::div_mod::lemma_div_nonincreasing(p, c); assert(hasp(cb, x)); let k = choose|k: int| #[trigger] at(cb, k, x); lemma_chunk_of(p, c); assert(covk(vf, rs, cb, c, k)); }
        else { let x = (p - bs) as u16; assert(hasp(de, x)); let k = choose|k: int| #[trigger] at(de, k, x); assert(bs + de[k].0 == p); }
    }
    assert forall|m: int| 0 <= m < vf.len() implies lists(*self, (#[trigger] vf[m]).0 as int) by {
        let p = vf[m].0 as int;
        if p < bs { let x = (p / c) as u64; let k = choose|k: int| 0 <= k < cb.len() && (#[trigger] cb[k]).0 == x; assert(at(cb, k, x)); }
        else { let x = (p - bs) as u16; let k = choose|k: int| 0 <= k < de.len() && (#[trigger] de[k]).0 == x; assert(at(de, k, x)); }
    }
  }
//@ after sort_values(&mut result);
  proof {
    let w = result@;
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 < log.len() && inr(rs, w[i].0 as int) && lists(*self, w[i].0 as int) && w[i].1@ == log[w[i].0 as int] by { assert(w.contains(w[i])); assert(vf.contains(w[i])); let j = choose|j: int| 0 <= j < vf.len() && vf[j] == w[i]; assert(vf[j].0 < log.len()); }
    assert forall|p: u64| #[trigger] hasp(w, p) == (start <= p < end && lists(*self, p as int)) by {
        if hasp(w, p) { let i = choose|i: int| #[trigger] at(w, i, p); assert(inr(rs, w[i].0 as int)); }
        if start <= p < end && lists(*self, p as int) { assert(hasp(vf, p)); let j = choose|j: int| #[trigger] at(vf, j, p); assert(vf.contains(vf[j])); assert(w.contains(vf[j])); let i = choose|i: int| 0 <= i < w.len() && w[i] == vf[j]; assert(at(w, i, p)); }
    }
    assert forall|i: int, j: int| 0 <= i < j < w.len() implies (#[trigger] w[i]).0 < (#[trigger] w[j]).0 by {}
  }
//@ end
}
} // verus!
fn main() {}
