// C30: while a proof is generated, each key is classified by the query exactly. grovedb-query/src/proof_items.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted stand-ins --------------------------------------------------------
// BTreeSet<&Vec<u8>>: a set of keys; iterating lists each element once
#[verifier::external_body] pub struct KeySet<'a> { x: Vec<&'a Vec<u8>> }
impl<'a> View for KeySet<'a> { type V = Set<Seq<u8>>; uninterp spec fn view(&self) -> Set<Seq<u8>>; }
impl<'a> KeySet<'a> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: &'a Vec<u8>) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|k: Seq<u8>| !self@.contains(k)) { unimplemented!() }
}
#[verifier::external_body] pub fn elements<'a>(s: &KeySet<'a>) -> (r: Vec<&'a Vec<u8>>)
    ensures forall|k: Seq<u8>| #[trigger] s@.contains(k) == exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k { unimplemented!() }
// key.as_ref() of a key argument
pub trait Bytes { spec fn bytes(&self) -> Seq<u8>; fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.bytes(); }
impl<'a> Bytes for &'a Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { (*self)@ } #[verifier::external_body] fn as_ref(&self) -> (r: &[u8]) { unimplemented!() } }
pub fn b_lt(a: &[u8], b: &[u8]) -> (r: bool) ensures r == klt(a@, b@) { matches!(cmp_bytes(a, b), Ordering::Less) }
//@ rules
key_bytes >= bound_bytes.as_slice() ==> !b_lt(key_bytes, slice_of(bound_bytes))
key_bytes > bound_bytes.as_slice() ==> b_lt(slice_of(bound_bytes), key_bytes)
key_bytes <= bound_bytes.as_slice() ==> !b_lt(slice_of(bound_bytes), key_bytes)
key_bytes < bound_bytes.as_slice() ==> b_lt(key_bytes, slice_of(bound_bytes))
key_bytes == bound_bytes.as_slice() ==> bytes_eq(key_bytes, slice_of(bound_bytes))
b.as_slice() < key_bytes ==> b_lt(slice_of(b), key_bytes)
b.as_slice() > key_bytes ==> b_lt(key_bytes, slice_of(b))
BTreeSet<&'a Vec<u8>> ==> KeySet<'a>
BTreeSet::new ==> KeySet::new
for &$x in self.key_query_items.iter() { $b.. } ==> let ks = elements(&self.key_query_items); let mut ki: usize = 0; while ki < ks.len() { let $x = ks[ki]; ki += 1; $b }
for &$x in self.range_query_items.iter() { $b.. } ==> let mut ri: usize = 0; while ri < self.range_query_items.len() { let $x = self.range_query_items[ri]; ri += 1; $b }
for query_item in query_items { $b.. } ==> let mut qk: usize = 0; while qk < query_items.len() { let query_item = &query_items[qk]; qk += 1; $b }
query_item_key.cmp(key) ==> cmp_bytes(query_item_key, key)
std::cmp::Ordering ==> Ordering
$x.expect($m..) ==> $x.unwrap()
item_on_boundary |= $e..; ==> { let evaluated = $e; item_on_boundary = item_on_boundary || evaluated; }
//@ end

//@ type grovedb-query/src/query_item/intersect.rs RangeSetSimpleItemBorrowed
//@ attr #[derive(Clone, Copy)]
//@ end
//@ type grovedb-query/src/query_item/intersect.rs RangeSetBorrowed
//@ attr #[derive(Clone, Copy)]
//@ end
//@ type grovedb-query/src/query_item/intersect.rs Direction
//@ type grovedb-query/src/query_item/intersect.rs KeyContainmentResult
//@ type grovedb-query/src/proof_items.rs ProofItems
//@ type grovedb-query/src/lib.rs ProofParams
pub open spec fn blo(r: RangeSetBorrowed) -> Pt { match r.start { RangeSetSimpleItemBorrowed::Unbounded => Pt::Neg, RangeSetSimpleItemBorrowed::Inclusive(b) => Pt::At(b@, 0), RangeSetSimpleItemBorrowed::Exclusive(b) => Pt::At(b@, 1) } }
pub open spec fn bhi(r: RangeSetBorrowed) -> Pt { match r.end { RangeSetSimpleItemBorrowed::Unbounded => Pt::Pos, RangeSetSimpleItemBorrowed::Inclusive(b) => Pt::At(b@, 0), RangeSetSimpleItemBorrowed::Exclusive(b) => Pt::At(b@, -1) } }
pub open spec fn inb(r: RangeSetBorrowed, k: Seq<u8>) -> bool { ple(blo(r), Pt::At(k, 0)) && ple(Pt::At(k, 0), bhi(r)) }
pub open spec fn edge(r: RangeSetBorrowed, k: Seq<u8>) -> bool { blo(r) == Pt::At(k, 1) || bhi(r) == Pt::At(k, -1) }
pub open spec fn ranges_sel(s: Seq<RangeSetBorrowed>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && inb(#[trigger] s[i], k) }
pub open spec fn ranges_edge(s: Seq<RangeSetBorrowed>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && edge(#[trigger] s[i], k) }
pub open spec fn some_left(s: Seq<RangeSetBorrowed>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && plt(blo(#[trigger] s[i]), Pt::At(k, 0)) }
pub open spec fn some_right(s: Seq<RangeSetBorrowed>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && plt(Pt::At(k, 0), bhi(#[trigger] s[i])) }
// the keys the items select
pub open spec fn psel(s: ProofItems, k: Seq<u8>) -> bool { s.key_query_items@.contains(k) || ranges_sel(s.range_query_items@, k) }
pub open spec fn selects(s: Seq<QueryItem>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && sel(#[trigger] s[i], k) }
pub proof fn ranges_push(s: Seq<RangeSetBorrowed>, x: RangeSetBorrowed)
    ensures forall|k: Seq<u8>| #[trigger] ranges_sel(s.push(x), k) == (ranges_sel(s, k) || inb(x, k)), forall|k: Seq<u8>| #[trigger] ranges_edge(s.push(x), k) == (ranges_edge(s, k) || edge(x, k)),
{
    let t = s.push(x);
    assert forall|k: Seq<u8>| #[trigger] ranges_sel(t, k) == (ranges_sel(s, k) || inb(x, k)) by {
        if ranges_sel(s, k) { let i = choose|i: int| 0 <= i < s.len() && inb(#[trigger] s[i], k); assert(inb(t[i], k)); }
        if inb(x, k) { assert(inb(t[s.len() as int], k)); }
        if ranges_sel(t, k) { let i = choose|i: int| 0 <= i < t.len() && inb(#[trigger] t[i], k); if i < s.len() { assert(inb(s[i], k)); } }
    }
    assert forall|k: Seq<u8>| #[trigger] ranges_edge(t, k) == (ranges_edge(s, k) || edge(x, k)) by {
        if ranges_edge(s, k) { let i = choose|i: int| 0 <= i < s.len() && edge(#[trigger] s[i], k); assert(edge(t[i], k)); }
        if edge(x, k) { assert(edge(t[s.len() as int], k)); }
        if ranges_edge(t, k) { let i = choose|i: int| 0 <= i < t.len() && edge(#[trigger] t[i], k); if i < s.len() { assert(edge(s[i], k)); } }
    }
}
impl<'b> RangeSetBorrowed<'b> {
//@ fn grovedb-query/src/query_item/intersect.rs RangeSetBorrowed::could_contain_key
//@ sig K: AsRef<[u8]>> ==> K: Bytes>
//@ ret r
//@ spec
  ensures r.included == inb(*self, key.bytes()), r.on_bounds_not_included == edge(*self, key.bytes()),
//@ at start
  proof { order(); }
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs RangeSetBorrowed::could_have_items_in_direction
//@ sig K: AsRef<[u8]>> ==> K: Bytes>
//@ ret r
//@ spec
  ensures r == (match direction { Direction::LeftOf => plt(blo(*self), Pt::At(key.bytes(), 0)), Direction::RightOf => plt(Pt::At(key.bytes(), 0), bhi(*self)) }),
//@ at start
  proof { order(); }
//@ end
}
impl QueryItem {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItem::to_range_set_borrowed
//@ ret r
//@ spec
  ensures r is Some, blo(r.unwrap()) == lo(*self), bhi(r.unwrap()) == hi(*self),
//@ end
}
impl<'a> ProofItems<'a> {
//@ fn grovedb-query/src/proof_items.rs ProofItems::new_with_query_items
//@ attr #[verifier::loop_isolation(false)]
//@ sig ProofItems<'_> ==> ProofItems<'a>
//@ sig query_items: &[QueryItem] ==> query_items: &'a [QueryItem]
//@ ret r
//@ spec
  ensures forall|k: Seq<u8>| #[trigger] psel(r.0, k) == selects(query_items@, k), r.1.left_to_right == left_to_right,
//@ loop 1
  invariant qk <= query_items@.len(),
    forall|k: Seq<u8>| #![trigger key_query_items@.contains(k)] #![trigger ranges_sel(range_query_items@, k)] (key_query_items@.contains(k) || ranges_sel(range_query_items@, k)) == selects(query_items@.take(qk as int), k),
  decreases query_items@.len() - qk
//@ loopstart 1
  let ghost r0 = range_query_items@; let ghost k0 = key_query_items@;
//@ loopend 1
  proof {
    let y = query_items@[qk - 1]; let t = query_items@.take(qk as int); let s = query_items@.take(qk - 1);
    assert(t =~= s.push(y)); lemma_sel(y);
    assert forall|k: Seq<u8>| #[trigger] selects(t, k) == (selects(s, k) || sel(y, k)) by {
      if selects(s, k) { let i = choose|i: int| 0 <= i < s.len() && sel(#[trigger] s[i], k); assert(sel(t[i], k)); }
      if sel(y, k) { assert(sel(t[s.len() as int], k)); }
      if selects(t, k) { let i = choose|i: int| 0 <= i < t.len() && sel(#[trigger] t[i], k); if i < s.len() { assert(sel(s[i], k)); } }
    }
    if range_query_items@.len() > r0.len() { ranges_push(r0, range_query_items@.last()); assert(range_query_items@ =~= r0.push(range_query_items@.last())); }
    assert forall|k: Seq<u8>| #![trigger key_query_items@.contains(k)] #![trigger ranges_sel(range_query_items@, k)] (key_query_items@.contains(k) || ranges_sel(range_query_items@, k)) == selects(t, k) by {
      assert((k0.contains(k) || ranges_sel(r0, k)) == selects(s, k));
    }
  }
//@ postloop 1
  proof { assert(query_items@.take(query_items@.len() as int) =~= query_items@); }
//@ end
//@ fn grovedb-query/src/proof_items.rs ProofItems::process_key
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ spec
  ensures
    r.0 == psel(*self, key@),
    !r.0 ==> r.1 == ranges_edge(self.range_query_items@, key@),
    r.1 ==> ranges_edge(self.range_query_items@, key@),
    forall|k: Seq<u8>| #![trigger psel(r.2, k)] #![trigger psel(*self, k)] klt(k, key@) ==> psel(r.2, k) == psel(*self, k),
    forall|k: Seq<u8>| #![trigger psel(r.3, k)] #![trigger psel(*self, k)] klt(key@, k) ==> psel(r.3, k) == psel(*self, k),
    // nothing is passed on that has nothing to select on that side
    forall|k: Seq<u8>| #[trigger] r.2.key_query_items@.contains(k) ==> klt(k, key@),
    forall|k: Seq<u8>| #[trigger] r.3.key_query_items@.contains(k) ==> klt(key@, k),
    forall|i: int| 0 <= i < r.2.range_query_items@.len() ==> plt(blo(#[trigger] r.2.range_query_items@[i]), Pt::At(key@, 0)),
    forall|i: int| 0 <= i < r.3.range_query_items@.len() ==> plt(Pt::At(key@, 0), bhi(#[trigger] r.3.range_query_items@[i])),
//@ at start
  proof { order(); }
//@ loop 1
  invariant ki <= ks@.len(),
    !item_on_boundary,
    item_is_present == exists|i: int| 0 <= i < ki && (#[trigger] ks@[i])@ == key@,
    forall|k: Seq<u8>| #[trigger] left_key_query_items@.contains(k) == (klt(k, key@) && exists|i: int| 0 <= i < ki && (#[trigger] ks@[i])@ == k),
    forall|k: Seq<u8>| #[trigger] right_key_query_items@.contains(k) == (klt(key@, k) && exists|i: int| 0 <= i < ki && (#[trigger] ks@[i])@ == k),
  decreases ks@.len() - ki
//@ preloop 2
  let ghost kfound = item_is_present; let ghost rs = self.range_query_items@;
  proof { assert(kfound == self.key_query_items@.contains(key@)); }
//@ loop 2
  invariant ri <= rs.len(), rs == self.range_query_items@,
    item_is_present == (kfound || ranges_sel(rs.take(ri as int), key@)),
    !item_is_present ==> item_on_boundary == ranges_edge(rs.take(ri as int), key@),
    item_on_boundary ==> ranges_edge(rs.take(ri as int), key@),
    forall|k: Seq<u8>| #![trigger ranges_sel(left_range_query_items@, k)] #![trigger ranges_sel(rs.take(ri as int), k)] klt(k, key@) ==> ranges_sel(left_range_query_items@, k) == ranges_sel(rs.take(ri as int), k),
    forall|k: Seq<u8>| #![trigger ranges_sel(right_range_query_items@, k)] #![trigger ranges_sel(rs.take(ri as int), k)] klt(key@, k) ==> ranges_sel(right_range_query_items@, k) == ranges_sel(rs.take(ri as int), k),
    forall|i: int| 0 <= i < left_range_query_items@.len() ==> plt(blo(#[trigger] left_range_query_items@[i]), Pt::At(key@, 0)),
    forall|i: int| 0 <= i < right_range_query_items@.len() ==> plt(Pt::At(key@, 0), bhi(#[trigger] right_range_query_items@[i])),
  decreases rs.len() - ri
//@ loopstart 2
  let ghost l0 = left_range_query_items@; let ghost g0 = right_range_query_items@;
//@ loopend 2
  proof {
    let y = rs[ri - 1]; let s = rs.take(ri - 1);
    assert(rs.take(ri as int) =~= s.push(y)); ranges_push(s, y); ranges_push(l0, y); ranges_push(g0, y);
    porder();
    assert forall|k: Seq<u8>| klt(k, key@) && #[trigger] inb(y, k) implies plt(blo(y), Pt::At(key@, 0)) by { }
    assert forall|k: Seq<u8>| klt(key@, k) && #[trigger] inb(y, k) implies plt(Pt::At(key@, 0), bhi(y)) by { }
  }
//@ postloop 2
  proof { assert(rs.take(rs.len() as int) =~= rs); }
//@ end
//@ fn grovedb-query/src/proof_items.rs ProofItems::has_no_query_items
//@ ret r
//@ spec
  ensures r ==> forall|k: Seq<u8>| !(#[trigger] psel(*self, k)),
    r == (self.range_query_items@.len() == 0 && forall|k: Seq<u8>| !(#[trigger] self.key_query_items@.contains(k))),
//@ end
}
} // verus!
fn main() {}
