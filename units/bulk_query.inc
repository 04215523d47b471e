// ---- positions and query items ------------------------------------------------
#[derive(Debug)] #[verifier::external_body] pub struct BulkAppendError { x: u8 }
#[verifier::external_body] pub fn err() -> (r: BulkAppendError) { unimplemented!() }
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
pub struct RangeTo<T> { pub end: T }
pub struct RangeToInclusive<T> { pub end: T }
pub struct RangeFull;
pub struct RangeInclusive<T> { pub s: T, pub e: T }
impl<T> RangeInclusive<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &T) ensures *r == self.e { &self.e }
}
//@ type grovedb-query/src/query_item/mod.rs QueryItem
// the parts of a query that matter here: its items, and whether it has any subquery
pub struct Query { pub items: Vec<QueryItem>, pub sub: bool }
impl Query { pub fn has_subquery(&self) -> (r: bool) ensures r == self.sub { self.sub } }
pub open spec fn num(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 256 + s.last() as int } }
pub open spec fn okpos(s: Seq<u8>) -> bool { 1 <= s.len() <= 8 }
// trusted: u64::from_be_bytes of a left-padded array
#[verifier::external_body] pub fn be_pad(b: &[u8]) -> (r: u64) requires b@.len() <= 8 ensures r == num(b@) { unimplemented!() }
//@ rules
BulkAppendError::$v($x..) ==> err()
let mut buf = [0u8; 8]; buf[8 - bytes.len()..].copy_from_slice(bytes); Ok(u64::from_be_bytes(buf)) ==> Ok(be_pad(bytes))
bytes.is_empty() ==> bytes.len() == 0
ranges.is_empty() ==> ranges.len() == 0
bytes_to_global_position(&r.end)?.min(total_count) ==> min_u64(bytes_to_global_position(r.end.as_slice())?, total_count)
bytes_to_global_position(&r.end)?.saturating_add(1).min(total_count) ==> min_u64(sat1(bytes_to_global_position(r.end.as_slice())?), total_count)
bytes_to_global_position(r.end())?.saturating_add(1).min(total_count) ==> min_u64(sat1(bytes_to_global_position(r.end().as_slice())?), total_count)
bytes_to_global_position(&r.start)?.saturating_add(1) ==> sat1(bytes_to_global_position(r.start.as_slice())?)
bytes_to_global_position(r.start())?.saturating_add(1) ==> sat1(bytes_to_global_position(r.start().as_slice())?)
bytes_to_global_position(&r.start) ==> bytes_to_global_position(r.start.as_slice())
bytes_to_global_position(&r.end) ==> bytes_to_global_position(r.end.as_slice())
bytes_to_global_position(r.start()) ==> bytes_to_global_position(r.start().as_slice())
bytes_to_global_position(k) ==> bytes_to_global_position(k.as_slice())
//@ end
pub fn min_u64(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn sat1(a: u64) -> (r: u64) ensures r == if a == u64::MAX { a as int } else { a + 1 } { if a == u64::MAX { a } else { a + 1 } }
// the positions an item selects, and whether its bounds are positions at all
pub open spec fn selp(i: QueryItem, p: int) -> bool {
    match i {
        QueryItem::Key(k) => p == num(k@),
        QueryItem::Range(r) => num(r.start@) <= p < num(r.end@),
        QueryItem::RangeInclusive(r) => num(r.s@) <= p <= num(r.e@),
        QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => num(r.start@) <= p,
        QueryItem::RangeTo(r) => p < num(r.end@),
        QueryItem::RangeToInclusive(r) => p <= num(r.end@),
        QueryItem::RangeAfter(r) => num(r.start@) < p,
        QueryItem::RangeAfterTo(r) => num(r.start@) < p < num(r.end@),
        QueryItem::RangeAfterToInclusive(r) => num(r.s@) < p <= num(r.e@),
    }
}
pub open spec fn goodi(i: QueryItem) -> bool {
    match i {
        QueryItem::Key(k) => okpos(k@), QueryItem::Range(r) => okpos(r.start@) && okpos(r.end@), QueryItem::RangeInclusive(r) => okpos(r.s@) && okpos(r.e@), QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => okpos(r.start@), QueryItem::RangeTo(r) => okpos(r.end@), QueryItem::RangeToInclusive(r) => okpos(r.end@), QueryItem::RangeAfter(r) => okpos(r.start@),
        QueryItem::RangeAfterTo(r) => okpos(r.start@) && okpos(r.end@), QueryItem::RangeAfterToInclusive(r) => okpos(r.s@) && okpos(r.e@),
    }
}
pub open spec fn goodq(q: Query) -> bool { !q.sub && forall|i: int| 0 <= i < q.items@.len() ==> goodi(#[trigger] q.items@[i]) }
pub open spec fn selq(q: Query, p: int) -> bool { exists|i: int| 0 <= i < q.items@.len() && selp(#[trigger] q.items@[i], p) }
pub open spec fn inr(s: Seq<(u64, u64)>, p: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 <= p < s[i].1 }
pub open spec fn nonempty(s: Seq<(u64, u64)>, n: u64) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 < s[i].1 <= n }
// sorted, and with a gap between any two
pub open spec fn apart(s: Seq<(u64, u64)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 < (#[trigger] s[j]).0 }
pub proof fn num_bound(s: Seq<u8>) requires s.len() <= 8 ensures 0 <= num(s) <= u64::MAX { reveal_with_fuel(num, 9); }
