// C18: walking a store with a query item visits exactly the item's keys. grovedb-query/src/query_item/mod.rs (feature blockchain)
use vstd::prelude::*;
use core::cmp::{self, Ordering};
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted: costs as an opaque sum next to the value; a raw iterator over sorted keys --------
pub struct OperationCost { pub n: u64 }
impl OperationCost { #[verifier::external_body] pub fn default() -> Self { unimplemented!() } }
pub struct CostContext<T> { pub value: T, pub cost: OperationCost }
impl<T> CostContext<T> {
    #[verifier::external_body] pub fn unwrap_add_cost(self, acc: &mut OperationCost) -> (r: T) ensures r == self.value { unimplemented!() }
    // CostContext::flat_map: the second computation's value, the costs of both
    #[verifier::external_body] pub fn then<U>(self, next: CostContext<U>) -> (r: CostContext<U>) ensures r.value == next.value { unimplemented!() }
}
pub fn with_cost<T>(value: T, cost: OperationCost) -> (r: CostContext<T>) ensures r.value == value { CostContext { value, cost } }
// Between the records of the store, the iterator stands on record `pos`, before all (-1) or after all (len).
// Assumed of the storage: a step back from after the last record reaches it (a record of another store follows).
pub trait RawIterator: Sized {
    spec fn keys(&self) -> Seq<Seq<u8>>;
    spec fn pos(&self) -> int;
    spec fn ok(&self) -> bool;
    fn seek_to_first(&mut self) -> (r: CostContext<()>) requires old(self).ok() ensures final(self).ok(), final(self).keys() == old(self).keys(), final(self).pos() == 0;
    fn seek_to_last(&mut self) -> (r: CostContext<()>) requires old(self).ok() ensures final(self).ok(), final(self).keys() == old(self).keys(), final(self).pos() == final(self).keys().len() - 1;
    fn seek(&mut self, key: &Vec<u8>) -> (r: CostContext<()>) requires old(self).ok() ensures final(self).ok(), final(self).keys() == old(self).keys(), 0 <= final(self).pos() <= final(self).keys().len(),
        split_at(final(self).keys(), final(self).pos(), key@);
    fn seek_for_prev(&mut self, key: &Vec<u8>) -> (r: CostContext<()>) requires old(self).ok() ensures final(self).ok(), final(self).keys() == old(self).keys(), -1 <= final(self).pos() < final(self).keys().len(),
        split_after(final(self).keys(), final(self).pos(), key@);
    fn next(&mut self) -> (r: CostContext<()>) requires old(self).ok(), 0 <= old(self).pos() < old(self).keys().len() ensures final(self).ok(), final(self).keys() == old(self).keys(), final(self).pos() == old(self).pos() + 1;
    fn prev(&mut self) -> (r: CostContext<()>) requires old(self).ok(), 0 <= old(self).pos() <= old(self).keys().len() ensures final(self).ok(), final(self).keys() == old(self).keys(), final(self).pos() == old(self).pos() - 1;
    fn key(&self) -> (r: CostContext<Option<&[u8]>>) requires self.ok() ensures ov(r.value) == (if on(self.keys(), self.pos()) { Some(self.keys()[self.pos()]) } else { None });
    fn valid(&self) -> (r: CostContext<bool>) requires self.ok() ensures r.value == on(self.keys(), self.pos());
}
pub open spec fn on(ks: Seq<Seq<u8>>, p: int) -> bool { 0 <= p < ks.len() }
pub open spec fn sorted(ks: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < ks.len() ==> klt(#[trigger] ks[i], #[trigger] ks[j]) }
pub open spec fn split_at(ks: Seq<Seq<u8>>, p: int, k: Seq<u8>) -> bool { forall|i: int| 0 <= i < ks.len() ==> klt(#[trigger] ks[i], k) == (i < p) }
pub open spec fn split_after(ks: Seq<Seq<u8>>, p: int, k: Seq<u8>) -> bool { forall|i: int| 0 <= i < ks.len() ==> kle(#[trigger] ks[i], k) == (i <= p) }

// ---- the property --------------------------------------------------------------------------------
// a walk goes on at a key
pub open spec fn still(i: QueryItem, k: Seq<u8>, ltr: bool) -> bool {
    if i is Key { k == i->Key_0@ } else if ltr { ple(Pt::At(k, 0), hi(i)) } else { ple(lo(i), Pt::At(k, 0)) }
}
// a walk starts here: nothing selected lies behind, and what lies here is selected if the walk goes on at it
pub open spec fn placed(i: QueryItem, ks: Seq<Seq<u8>>, p: int, ltr: bool) -> bool {
    &&& -1 <= p <= ks.len()
    &&& ltr ==> 0 <= p && (forall|j: int| 0 <= j < p ==> !sel(i, #[trigger] ks[j])) && (on(ks, p) ==> ple(lo(i), Pt::At(ks[p], 0)))
    &&& !ltr && !(i is Key) ==> p < ks.len() && (forall|j: int| p < j < ks.len() ==> !sel(i, #[trigger] ks[j])) && (on(ks, p) ==> ple(Pt::At(ks[p], 0), hi(i)))
    &&& !ltr && i is Key ==> forall|j: int| 0 <= j < ks.len() && j != p ==> !sel(i, #[trigger] ks[j])
}
/// From a start, the steps while the walk goes on visit exactly the selected keys.
pub proof fn walk(i: QueryItem, ks: Seq<Seq<u8>>, p: int, e: int, ltr: bool)
    requires sorted(ks), wf(i), placed(i, ks, p, ltr),
        ltr ==> p <= e <= ks.len() && (forall|j: int| p <= j < e ==> still(i, #[trigger] ks[j], ltr)) && (e < ks.len() ==> !still(i, ks[e], ltr)),
        !ltr ==> -1 <= e <= p && (forall|j: int| e < j <= p && j < ks.len() ==> still(i, #[trigger] ks[j], ltr)) && (on(ks, e) ==> !still(i, ks[e], ltr)),
        !ltr && p == ks.len() ==> e == p,
    ensures ltr ==> forall|j: int| 0 <= j < ks.len() ==> sel(i, #[trigger] ks[j]) == (p <= j < e),
        !ltr ==> forall|j: int| 0 <= j < ks.len() ==> sel(i, #[trigger] ks[j]) == (e < j <= p),
{
    order();
    porder();
    lemma_sel(i);
    assert forall|j: int| 0 <= j < ks.len() implies sel(i, #[trigger] ks[j]) == (if ltr { p <= j < e } else { e < j <= p }) by {
        let k = ks[j];
        if on(ks, p) { let a = ks[p]; assert(j < p ==> klt(k, a)); assert(p < j ==> klt(a, k)); }
        if on(ks, e) { let b = ks[e]; assert(j < e ==> klt(k, b)); assert(e < j ==> klt(b, k)); }
        if i is Key {
            if ltr && e > p { assert(still(i, ks[p], ltr)); if e > p + 1 { assert(still(i, ks[p + 1], ltr)); assert(klt(ks[p], ks[p + 1])); } }
            if !ltr && e < p && p < ks.len() { assert(still(i, ks[p], ltr)); if e < p - 1 { assert(still(i, ks[p - 1], ltr)); assert(klt(ks[p - 1], ks[p])); } }
        } else if ltr {
            if p <= j < e { assert(still(i, k, ltr)); assert(ple(lo(i), Pt::At(ks[p], 0))); }
            if e <= j { assert(!still(i, ks[e], ltr)); }
        } else {
            if e < j <= p { assert(still(i, k, ltr)); assert(ple(Pt::At(ks[p], 0), hi(i))); }
            if j <= e { assert(!still(i, ks[e], ltr)); }
        }
    }
}

//@ rules
$x.wrap_with_cost(cost) ==> with_cost($x, cost)
iter.seek(end).flat_map(|_| iter.prev()) ==> { let first = iter.seek(end); first.then(iter.prev()) }
key == start ==> bytes_eq(key, slice_of(start))
key < end ==> key_lt(key, slice_of(end))
key <= end ==> !key_lt(slice_of(end), key)
key > start ==> key_lt(slice_of(start), key)
key >= start ==> !key_lt(key, slice_of(start))
key <= range_inclusive.end() ==> !key_lt(slice_of(range_inclusive.end()), key)
key >= range_inclusive.start() ==> !key_lt(key, slice_of(range_inclusive.start()))
limit.map(|l| l > 0).unwrap_or(true) ==> (match limit { Some(l) => l > 0, None => true })
aggregate_limit.map(|l| l > 0).unwrap_or(true) ==> (match aggregate_limit { Some(l) => l > 0, None => true })
range_inclusive.end().as_slice() ==> slice_of(range_inclusive.end())
range_inclusive.start().as_slice() ==> slice_of(range_inclusive.start())
//@ end
pub fn key_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == klt(a@, b@) { proof { order(); } matches!(cmp_bytes(a, b), Ordering::Less) }
pub fn shorter(a: &[u8], b: &[u8]) -> (r: usize) ensures r == a@.len() || r == b@.len(), r <= a@.len(), r <= b@.len() { if a.len() < b.len() { a.len() } else { b.len() } }
#[verifier::external_body] pub fn cmp_byte(a: &u8, b: &u8) -> (r: Ordering)
    ensures r == (if *a < *b { Ordering::Less } else if *a == *b { Ordering::Equal } else { Ordering::Greater }) { a.cmp(b) }
#[verifier::external_body] pub fn cmp_len(a: usize, b: usize) -> (r: Ordering)
    ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { a.cmp(&b) }
/// What the order says of strings that agree on their first z bytes.
pub proof fn agree(a: Seq<u8>, b: Seq<u8>, z: int)
    requires 0 <= z <= a.len(), z <= b.len(), forall|j: int| 0 <= j < z ==> a[j] == b[j],
    ensures z < a.len() && z < b.len() && a[z] != b[z] ==> klt(a, b) == (a[z] < b[z]) && klt(b, a) == (b[z] < a[z]) && a != b,
        z == a.len() ==> klt(a, b) == (a.len() < b.len()) && (a == b) == (a.len() == b.len()),
        z == b.len() ==> klt(b, a) == (b.len() < a.len()),
    decreases z
{
    if z > 0 {
        let (c, d) = (a.drop_first(), b.drop_first());
        assert forall|j: int| 0 <= j < z - 1 implies c[j] == d[j] by { assert(c[j] == a[j + 1] && d[j] == b[j + 1]); }
        agree(c, d, z - 1);
    }
    if z == a.len() && a.len() == b.len() { assert(a =~= b); klt_irr(a); }
}
impl QueryItem {
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::compare
//@ ret r
//@ rulefirst for (ai, bi) in a.iter().zip(b.iter()) { $b.. } ==> let mut z: usize = 0; while z < shorter(a, b) { let (ai, bi) = (&a[z], &b[z]); z = z + 1; $b }
//@ rulefirst ai.cmp(bi) ==> cmp_byte(ai, bi)
//@ rulefirst a.len().cmp(&b.len()) ==> cmp_len(a.len(), b.len())
//@ spec
  ensures r == (if klt(a@, b@) { Ordering::Less } else if a@ == b@ { Ordering::Equal } else { Ordering::Greater }),
//@ loop 1
  invariant z <= a@.len(), z <= b@.len(), forall|j: int| 0 <= j < z ==> a@[j] == b@[j],
  decreases a@.len() - z,
//@ loopstart 1
  proof { agree(a@, b@, z as int); order(); }
//@ postloop 1
  proof { let z = if a@.len() < b@.len() { a@.len() as int } else { b@.len() as int }; agree(a@, b@, z); order(); klt_tot(a@, b@); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::seek_for_iter
//@ ret r
//@ spec
  requires old(iter).ok(), sorted(old(iter).keys()), wf(*self),
  ensures final(iter).ok(), final(iter).keys() == old(iter).keys(), placed(*self, final(iter).keys(), final(iter).pos(), left_to_right),
//@ at start
  proof { order(); porder(); lemma_sel(*self); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::iter_is_valid_for_type
//@ ret r
//@ spec
  requires iter.ok(),
  ensures r.value == ((limit is None || limit->0 > 0) && (aggregate_limit is None || aggregate_limit->0 > 0) && on(iter.keys(), iter.pos())
      && still(*self, iter.keys()[iter.pos()], left_to_right)),
//@ at start
  proof { order(); porder(); lemma_sel(*self); }
//@ end
}
} // verus!
fn main() {}
