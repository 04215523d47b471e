//@ include query_order.inc

// ---- trusted primitives ---------------------------------------------------
// std::ops ranges, as std defines them (RangeInclusive only through its accessors)
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
pub struct RangeTo<T> { pub end: T }
pub struct RangeToInclusive<T> { pub end: T }
pub struct RangeFull;
pub struct RangeInclusive<T> { pub s: T, pub e: T }
impl<T> RangeInclusive<T> {
    pub fn new(s: T, e: T) -> (r: Self) ensures r.s == s, r.e == e { RangeInclusive { s, e } }
    pub fn start(&self) -> (r: &T) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &T) ensures *r == self.e { &self.e }
}
// the derived total order of Option<&[u8]> (None first) and of (Option<&[u8]>, bool)
pub open spec fn optlt(a: Option<Seq<u8>>, b: Option<Seq<u8>>) -> bool
{ match (a, b) { (None, None) => false, (None, Some(_)) => true, (Some(_), None) => false, (Some(x), Some(y)) => klt(x, y) } }
pub open spec fn ov(a: Option<&[u8]>) -> Option<Seq<u8>> { match a { None => None, Some(x) => Some(x@) } }
pub open spec fn bndlt(a: (Option<Seq<u8>>, bool), b: (Option<Seq<u8>>, bool)) -> bool { optlt(a.0, b.0) || (a.0 == b.0 && !a.1 && b.1) }
#[verifier::external_body] pub fn opt_gt(a: Option<&[u8]>, b: Option<&[u8]>) -> (r: bool) ensures r == optlt(ov(b), ov(a)) { a > b }
#[verifier::external_body] pub fn opt_lt(a: Option<&[u8]>, b: Option<&[u8]>) -> (r: bool) ensures r == optlt(ov(a), ov(b)) { a < b }
#[verifier::external_body] pub fn opt_eq(a: Option<&[u8]>, b: Option<&[u8]>) -> (r: bool) ensures r == (ov(a) == ov(b)) { a == b }
#[verifier::external_body] pub fn min_bound<'a>(a: (Option<&'a [u8]>, bool), b: (Option<&'a [u8]>, bool)) -> (r: (Option<&'a [u8]>, bool))
    ensures r == (if bndlt((ov(b.0), b.1), (ov(a.0), a.1)) { b } else { a }) { std::cmp::min(a, b) }
#[verifier::external_body] pub fn max_bound<'a>(a: (Option<&'a [u8]>, bool), b: (Option<&'a [u8]>, bool)) -> (r: (Option<&'a [u8]>, bool))
    ensures r == (if bndlt((ov(b.0), b.1), (ov(a.0), a.1)) { a } else { b }) { std::cmp::max(a, b) }
pub fn some_slice<'a>(a: Option<&'a [u8]>) -> (r: &'a [u8]) requires a.is_some() ensures r@ == ov(a).unwrap() { a.unwrap() }

//@ rules
range.start.clone() ==> clone_of(&range.start)
range.end.clone() ==> clone_of(&range.end)
range.start().clone() ==> clone_of(range.start())
range.end().clone() ==> clone_of(range.end())
$x.clone() ==> clone_of($x)
start == end ==> bytes_eq(start, end)
v1.cmp(v2) ==> cmp_bytes(v1, v2)
key.as_slice() ==> slice_of(key)
range.start.as_ref() ==> slice_of(&range.start)
range.end.as_ref() ==> slice_of(&range.end)
range.start().as_ref() ==> slice_of(range.start())
range.end().as_ref() ==> slice_of(range.end())
self.end < other.start ==> rsi_lt(&self.end, &other.start)
other.end < self.start ==> rsi_lt(&other.end, &self.start)
self.start != other.start ==> !rsi_eq(&self.start, &other.start)
self.end != other.end ==> !rsi_eq(&self.end, &other.end)
self.end > other.end ==> rsi_lt(&other.end, &self.end)
&self.start == smaller_start ==> rsi_eq(&self.start, smaller_start)
compare_start == Ordering::Equal ==> is_equal(compare_start)
Some(key) > lower_bound ==> opt_gt(Some(key), lower_bound)
Some(key) == lower_bound ==> opt_eq(Some(key), lower_bound)
Some(key) < upper_bound ==> opt_lt(Some(key), upper_bound)
Some(key) == upper_bound ==> opt_eq(Some(key), upper_bound)
min($a.., $b..) ==> min_bound($a, $b)
max($a.., $b..) ==> max_bound($a, $b)
$x.expect($m..).to_vec() ==> copy_bytes(some_slice($x))
self == other ==> qi_eq(self, other)
range_set_intersection.$x.and_then(|a| a.to_query_item(),) ==> opt_item(range_set_intersection.$x)
range_set_intersection.$x.and_then(|a| a.to_query_item()) ==> opt_item(range_set_intersection.$x)
self.to_range_set().intersect(other.to_range_set()).into() ==> QueryItemIntersectionResult::from(self.to_range_set().intersect(other.to_range_set()))
//@ end
pub fn is_equal(o: Ordering) -> (r: bool) ensures r == (o is Equal) { matches!(o, Ordering::Equal) }

// ---- range ends as points of a total order ---------------------------------
//@ type grovedb-query/src/query_item/intersect.rs RangeSetItem
use RangeSetItem::{ExclusiveEnd, ExclusiveStart, Inclusive, UnboundedEnd, UnboundedStart};
pub open spec fn pt(i: RangeSetItem) -> Pt {
    match i {
        RangeSetItem::UnboundedStart => Pt::Neg, RangeSetItem::UnboundedEnd => Pt::Pos, RangeSetItem::Inclusive(v) => Pt::At(v@, 0),
        RangeSetItem::ExclusiveStart(v) => Pt::At(v@, 1), RangeSetItem::ExclusiveEnd(v) => Pt::At(v@, -1),
    }
}
// the derived operators of RangeSetItem: equality compares variant and bytes, `<` is partial_cmp == Less
#[verifier::external_body] pub fn rsi_eq(a: &RangeSetItem, b: &RangeSetItem) -> (r: bool) ensures r == (pt(*a) == pt(*b)) { unimplemented!() }
pub fn rsi_lt(a: &RangeSetItem, b: &RangeSetItem) -> (r: bool) ensures r == plt(pt(*a), pt(*b)) { match a.partial_cmp(b) { Some(Ordering::Less) => true, _ => false } }

impl RangeSetItem {
//@ fn grovedb-query/src/query_item/intersect.rs Ord for RangeSetItem::cmp
//@ ret r
//@ spec
  ensures r == pcmp(pt(*self), pt(*other)),
//@ at start
  proof { order(); }
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs PartialOrd for RangeSetItem::partial_cmp
//@ ret r
//@ spec
  ensures r == Some(pcmp(pt(*self), pt(*other))),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs RangeSetItem::invert
//@ ret r
//@ spec
  ensures
    pt(*self) is At ==> pt(r) == (match pt(*self) { Pt::At(k, o) => Pt::At(k, if o != 0 { 0 } else if is_start { 1 } else { -1 }), p => p }),
    !(pt(*self) is At) ==> pt(r) == pt(*self),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs RangeSetItem::order_items
//@ ret r
//@ spec
  ensures order is Less ==> r.0 == item_one && r.1 == item_two, !(order is Less) ==> r.0 == item_two && r.1 == item_one,
//@ end
}

// ---- intervals --------------------------------------------------------------
//@ type grovedb-query/src/query_item/intersect.rs RangeSet
//@ type grovedb-query/src/query_item/intersect.rs RangeSetIntersection
//@ type grovedb-query/src/query_item/mod.rs QueryItem
//@ type grovedb-query/src/query_item/intersect.rs QueryItemIntersectionResult
pub open spec fn shape_lo(p: Pt) -> bool { match p { Pt::Neg => true, Pt::Pos => false, Pt::At(_, o) => o == 0 || o == 1 } }
pub open spec fn shape_hi(p: Pt) -> bool { match p { Pt::Neg => false, Pt::Pos => true, Pt::At(_, o) => o == 0 || o == -1 } }
pub open spec fn rs_shape(r: RangeSet) -> bool { shape_lo(pt(r.start)) && shape_hi(pt(r.end)) }
pub open spec fn rs_wf(r: RangeSet) -> bool { rs_shape(r) && ple(pt(r.start), pt(r.end)) }
pub open spec fn in_rs(r: RangeSet, p: Pt) -> bool { ple(pt(r.start), p) && ple(p, pt(r.end)) }
pub open spec fn in_ors(r: Option<RangeSet>, p: Pt) -> bool { match r { None => false, Some(x) => in_rs(x, p) } }
pub open spec fn ors_wf(r: Option<RangeSet>) -> bool { match r { None => true, Some(x) => rs_wf(x) } }
// where an item starts and ends
pub open spec fn lo(i: QueryItem) -> Pt {
    match i {
        QueryItem::Key(k) => Pt::At(k@, 0), QueryItem::Range(r) => Pt::At(r.start@, 0), QueryItem::RangeInclusive(r) => Pt::At(r.s@, 0),
        QueryItem::RangeFull(_) => Pt::Neg, QueryItem::RangeFrom(r) => Pt::At(r.start@, 0), QueryItem::RangeTo(_) => Pt::Neg,
        QueryItem::RangeToInclusive(_) => Pt::Neg, QueryItem::RangeAfter(r) => Pt::At(r.start@, 1), QueryItem::RangeAfterTo(r) => Pt::At(r.start@, 1),
        QueryItem::RangeAfterToInclusive(r) => Pt::At(r.s@, 1),
    }
}
pub open spec fn hi(i: QueryItem) -> Pt {
    match i {
        QueryItem::Key(k) => Pt::At(k@, 0), QueryItem::Range(r) => Pt::At(r.end@, -1), QueryItem::RangeInclusive(r) => Pt::At(r.e@, 0),
        QueryItem::RangeFull(_) => Pt::Pos, QueryItem::RangeFrom(_) => Pt::Pos, QueryItem::RangeTo(r) => Pt::At(r.end@, -1),
        QueryItem::RangeToInclusive(r) => Pt::At(r.end@, 0), QueryItem::RangeAfter(_) => Pt::Pos, QueryItem::RangeAfterTo(r) => Pt::At(r.end@, -1),
        QueryItem::RangeAfterToInclusive(r) => Pt::At(r.e@, 0),
    }
}
// the documented condition under which an item selects a key
pub open spec fn sel(i: QueryItem, k: Seq<u8>) -> bool {
    match i {
        QueryItem::Key(x) => k == x@,
        QueryItem::Range(r) => kle(r.start@, k) && klt(k, r.end@),
        QueryItem::RangeInclusive(r) => kle(r.s@, k) && kle(k, r.e@),
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => kle(r.start@, k),
        QueryItem::RangeTo(r) => klt(k, r.end@),
        QueryItem::RangeToInclusive(r) => kle(k, r.end@),
        QueryItem::RangeAfter(r) => klt(r.start@, k),
        QueryItem::RangeAfterTo(r) => klt(r.start@, k) && klt(k, r.end@),
        QueryItem::RangeAfterToInclusive(r) => klt(r.s@, k) && kle(k, r.e@),
    }
}
pub open spec fn ini(i: QueryItem, p: Pt) -> bool { ple(lo(i), p) && ple(p, hi(i)) }
pub open spec fn inoi(i: Option<QueryItem>, p: Pt) -> bool { match i { None => false, Some(x) => ini(x, p) } }
pub open spec fn wf(i: QueryItem) -> bool { ple(lo(i), hi(i)) }
pub open spec fn owf(i: Option<QueryItem>) -> bool { match i { None => true, Some(x) => wf(x) } }
pub proof fn lemma_sel(i: QueryItem) ensures forall|k: Seq<u8>| #[trigger] sel(i, k) == ini(i, Pt::At(k, 0)) { order(); }
pub open spec fn kind(i: QueryItem) -> int {
    match i {
        QueryItem::Key(_) => 0, QueryItem::Range(_) => 1, QueryItem::RangeInclusive(_) => 2, QueryItem::RangeFull(_) => 3, QueryItem::RangeFrom(_) => 4,
        QueryItem::RangeTo(_) => 5, QueryItem::RangeToInclusive(_) => 6, QueryItem::RangeAfter(_) => 7, QueryItem::RangeAfterTo(_) => 8,
        QueryItem::RangeAfterToInclusive(_) => 9,
    }
}
// derived equality: same variant, same bounds
pub open spec fn same(a: QueryItem, b: QueryItem) -> bool { kind(a) == kind(b) && lo(a) == lo(b) && hi(a) == hi(b) }
#[verifier::external_body] pub fn qi_eq(a: &QueryItem, b: &QueryItem) -> (r: bool) ensures r == same(*a, *b) { unimplemented!() }
pub fn opt_item(r: Option<RangeSet>) -> (o: Option<QueryItem>)
    ensures ors_wf(r) ==> (r is Some) == (o is Some) && owf(o) && forall|p: Pt| #[trigger] inoi(o, p) == in_ors(r, p)
{ match r { Some(a) => { a.to_query_item() }, None => None } }

pub open spec fn rsi_wf(r: RangeSetIntersection) -> bool { ors_wf(r.in_both) && ors_wf(r.ours_left) && ors_wf(r.ours_right) && ors_wf(r.theirs_left) && ors_wf(r.theirs_right) }
pub open spec fn rs_pieces(a: RangeSet, b: RangeSet, r: RangeSetIntersection) -> bool {
    &&& rsi_wf(r)
    &&& (r.in_both is Some) == (ple(pt(a.start), pt(b.end)) && ple(pt(b.start), pt(a.end)))
    &&& forall|p: Pt| #[trigger] in_ors(r.in_both, p) == (in_rs(a, p) && in_rs(b, p))
    &&& forall|p: Pt| #[trigger] in_ors(r.ours_left, p) == (in_rs(a, p) && plt(p, pt(b.start)))
    &&& forall|p: Pt| #[trigger] in_ors(r.ours_right, p) == (in_rs(a, p) && plt(pt(b.end), p))
    &&& forall|p: Pt| #[trigger] in_ors(r.theirs_left, p) == (in_rs(b, p) && plt(p, pt(a.start)))
    &&& forall|p: Pt| #[trigger] in_ors(r.theirs_right, p) == (in_rs(b, p) && plt(pt(a.end), p))
}
impl RangeSet {
//@ fn grovedb-query/src/query_item/intersect.rs RangeSet::to_query_item
//@ ret r
//@ spec
  ensures rs_shape(*self) ==> r is Some && lo(r.unwrap()) == pt(self.start) && hi(r.unwrap()) == pt(self.end),
//@ at start
  proof { order(); }
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs RangeSet::intersect
//@ ret r
//@ spec
  ensures rs_wf(*self) && rs_wf(other) ==> rs_pieces(*self, other, r),
//@ at start
  proof { order(); porder(); }
//@ end
}

impl QueryItemIntersectionResult {
//@ fn grovedb-query/src/query_item/intersect.rs From<RangeSetIntersection> for QueryItemIntersectionResult::from
//@ ret r
//@ spec
  ensures rsi_wf(range_set_intersection) ==> {
    &&& owf(r.in_both) && owf(r.ours_left) && owf(r.ours_right) && owf(r.theirs_left) && owf(r.theirs_right)
    &&& (r.in_both is Some) == (range_set_intersection.in_both is Some)
    &&& forall|p: Pt| #[trigger] inoi(r.in_both, p) == in_ors(range_set_intersection.in_both, p)
    &&& forall|p: Pt| #[trigger] inoi(r.ours_left, p) == in_ors(range_set_intersection.ours_left, p)
    &&& forall|p: Pt| #[trigger] inoi(r.ours_right, p) == in_ors(range_set_intersection.ours_right, p)
    &&& forall|p: Pt| #[trigger] inoi(r.theirs_left, p) == in_ors(range_set_intersection.theirs_left, p)
    &&& forall|p: Pt| #[trigger] inoi(r.theirs_right, p) == in_ors(range_set_intersection.theirs_right, p)
  },
//@ end
}

pub open spec fn pieces(a: QueryItem, b: QueryItem, r: QueryItemIntersectionResult) -> bool {
    &&& owf(r.in_both) && owf(r.ours_left) && owf(r.ours_right) && owf(r.theirs_left) && owf(r.theirs_right)
    &&& (r.in_both is Some) == (ple(lo(a), hi(b)) && ple(lo(b), hi(a)))
    &&& forall|p: Pt| #[trigger] inoi(r.in_both, p) == (ini(a, p) && ini(b, p))
    &&& forall|p: Pt| #[trigger] inoi(r.ours_left, p) == (ini(a, p) && plt(p, lo(b)))
    &&& forall|p: Pt| #[trigger] inoi(r.ours_right, p) == (ini(a, p) && plt(hi(b), p))
    &&& forall|p: Pt| #[trigger] inoi(r.theirs_left, p) == (ini(b, p) && plt(p, lo(a)))
    &&& forall|p: Pt| #[trigger] inoi(r.theirs_right, p) == (ini(b, p) && plt(hi(a), p))
}
pub open spec fn meet(a: QueryItem, b: QueryItem) -> bool { ple(lo(a), hi(b)) && ple(lo(b), hi(a)) }
impl QueryItem {
//@ fn grovedb-query/src/query_item/intersect.rs QueryItem::to_range_set
//@ ret r
//@ spec
  ensures pt(r.start) == lo(*self), pt(r.end) == hi(*self), rs_shape(r),
//@ end
//@ fn grovedb-query/src/query_item/intersect.rs QueryItem::intersect
//@ ret r
//@ spec
  ensures wf(*self) && wf(*other) ==> pieces(*self, *other, r),
//@ at start
  proof { order(); porder(); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::collides_with
//@ ret r
//@ spec
  ensures wf(*self) && wf(*other) ==> r == meet(*self, *other), wf(*self) && wf(*other) && !r ==> forall|k: Seq<u8>| !(#[trigger] sel(*self, k) && #[trigger] sel(*other, k)),
//@ at start
  proof { porder(); lemma_sel(*self); lemma_sel(*other); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::lower_bound
//@ ret r
//@ spec
  ensures lo(*self) == (match ov(r.0) { None => Pt::Neg, Some(k) => Pt::At(k, if r.1 { 1 } else { 0 }) }), ov(r.0) is None ==> !r.1,
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::upper_bound
//@ ret r
//@ spec
  ensures hi(*self) == (match ov(r.0) { None => Pt::Pos, Some(k) => Pt::At(k, if r.1 { 0 } else { -1 }) }), ov(r.0) is None ==> r.1,
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::lower_unbounded
//@ ret r
//@ spec
  ensures r == (lo(*self) is Neg),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::upper_unbounded
//@ ret r
//@ spec
  ensures r == (hi(*self) is Pos),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::contains
//@ ret r
//@ spec
  ensures r == sel(*self, key@),
//@ at start
  proof { order(); lemma_sel(*self); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::enum_value
//@ ret r
//@ spec
  ensures r == kind(*self),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::is_key
//@ ret r
//@ spec
  ensures r == (kind(*self) == 0),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::is_single
//@ ret r
//@ spec
  ensures r == (kind(*self) == 0),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs QueryItem::is_range
//@ ret r
//@ spec
  ensures r == (kind(*self) != 0),
//@ end
//@ fn grovedb-query/src/query_item/mod.rs Ord for QueryItem::cmp
//@ ret r
//@ spec
  ensures r == (if lo(*self) == lo(*other) { pcmp(hi(*self), hi(*other)) } else { pcmp(lo(*self), lo(*other)) }),
//@ at start
  proof { porder(); }
//@ end
//@ fn grovedb-query/src/query_item/merge.rs QueryItem::merge
//@ ret r
//@ spec
  ensures
    lo(r) == (if plt(lo(*other), lo(*self)) { lo(*other) } else { lo(*self) }),
    hi(r) == (if plt(hi(*self), hi(*other)) { hi(*other) } else { hi(*self) }),
    wf(*self) ==> wf(r),
//@ at start
  proof { order(); porder(); }
//@ end
//@ fn grovedb-query/src/query_item/merge.rs QueryItem::merge_assign
//@ spec
  ensures
    lo(*final(self)) == (if plt(lo(*other), lo(*old(self))) { lo(*other) } else { lo(*old(self)) }),
    hi(*final(self)) == (if plt(hi(*old(self)), hi(*other)) { hi(*other) } else { hi(*old(self)) }),
    wf(*old(self)) ==> wf(*final(self)),
//@ end
}
// merging overlapping items gives exactly their union
pub proof fn merge_is_union(a: QueryItem, b: QueryItem, r: QueryItem)
    requires wf(a), wf(b), meet(a, b), lo(r) == (if plt(lo(b), lo(a)) { lo(b) } else { lo(a) }), hi(r) == (if plt(hi(a), hi(b)) { hi(b) } else { hi(a) }),
    ensures forall|p: Pt| #[trigger] ini(r, p) == (ini(a, p) || ini(b, p)), forall|k: Seq<u8>| #[trigger] sel(r, k) == (sel(a, k) || sel(b, k)),
{ porder(); lemma_sel(a); lemma_sel(b); lemma_sel(r); }
// intersecting two items splits each into disjoint parts covering it
pub proof fn pieces_partition(a: QueryItem, b: QueryItem, r: QueryItemIntersectionResult, p: Pt)
    requires wf(a), wf(b), pieces(a, b, r)
    ensures ini(a, p) == (inoi(r.in_both, p) || inoi(r.ours_left, p) || inoi(r.ours_right, p)),
        ini(b, p) == (inoi(r.in_both, p) || inoi(r.theirs_left, p) || inoi(r.theirs_right, p)),
        !(inoi(r.in_both, p) && inoi(r.ours_left, p)), !(inoi(r.in_both, p) && inoi(r.ours_right, p)), !(inoi(r.ours_left, p) && inoi(r.ours_right, p)),
        !(inoi(r.in_both, p) && inoi(r.theirs_left, p)), !(inoi(r.in_both, p) && inoi(r.theirs_right, p)), !(inoi(r.theirs_left, p) && inoi(r.theirs_right, p)),
{ porder(); }
