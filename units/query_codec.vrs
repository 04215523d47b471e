// C21: the binary encoding of queries. grovedb-query/src/query.rs, subquery_branch.rs, query_item/mod.rs
use vstd::prelude::*;
verus! {
global size_of usize == 8;
// ---- trusted stand-ins: std::ops ranges, an insertion-ordered map as its list of entries, bincode's codec state ----
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
pub struct RangeTo<T> { pub end: T }
pub struct RangeToInclusive<T> { pub end: T }
pub struct RangeFull;
pub struct RangeInclusive<T> { pub s: T, pub e: T }
impl<T> RangeInclusive<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.s { &self.s }
    pub fn end(&self) -> (r: &T) ensures *r == self.e { &self.e }
}
pub type Path = Vec<Vec<u8>>;
pub struct IndexMap<K, V> { pub e: Vec<(K, V)> }
#[derive(Debug)] #[verifier::external_body] pub struct EncodeError { x: u8 }
#[derive(Debug)] #[verifier::external_body] pub struct DecodeError { x: u8 }
#[verifier::external_body] pub fn derr() -> (r: DecodeError) { unimplemented!() }
//@ rules
DecodeError::$v { $x.. } ==> derr()
DecodeError::$v($x..) ==> derr()
1u8.encode(encoder) ==> encoder.put8(1u8)
encoder.writer().write(&[$x]) ==> encoder.put8($x)
self.items.encode(encoder) ==> encode_items(&self.items, encoder)
self.default_subquery_branch.encode(encoder) ==> encode_branch(&self.default_subquery_branch, encoder)
(conditional_subquery_branches.len() as u64).encode(encoder) ==> encoder.put64(conditional_subquery_branches.e.len() as u64)
for ($a, $c) in conditional_subquery_branches { $b.. } ==> let mut ci: usize = 0; while ci < conditional_subquery_branches.e.len() { let ($a, $c) = (&conditional_subquery_branches.e[ci].0, &conditional_subquery_branches.e[ci].1); ci += 1; $b }
value.encode(encoder) ==> encode_branch(value, encoder)
self.left_to_right.encode(encoder) ==> encoder.put_bool(self.left_to_right)
self.add_parent_tree_on_subquery.encode(encoder) ==> encoder.put_bool(self.add_parent_tree_on_subquery)
range.start.encode(encoder) ==> encoder.put_bytes(&range.start)
range.end.encode(encoder) ==> encoder.put_bytes(&range.end)
range.start().encode(encoder) ==> encoder.put_bytes(range.start())
range.end().encode(encoder) ==> encoder.put_bytes(range.end())
u8::decode(decoder) ==> decoder.get8()
u8::borrow_decode(decoder) ==> decoder.get8()
u64::decode(decoder) ==> decoder.get64()
u64::borrow_decode(decoder) ==> decoder.get64()
bool::decode(decoder) ==> decoder.get_bool()
bool::borrow_decode(decoder) ==> decoder.get_bool()
Vec::<u8>::decode(decoder) ==> decoder.get_bytes()
Vec::<u8>::borrow_decode(decoder) ==> decoder.get_bytes()
Option::<Path>::decode(decoder) ==> decoder.get_path()
Option::<Path>::borrow_decode(decoder) ==> decoder.get_path()
start..end ==> Range { start, end }
start..=end ==> RangeInclusive { s: start, e: end }
(start..) ==> (RangeFrom { start })
QueryItem::RangeTo(..end) ==> QueryItem::RangeTo(RangeTo { end })
(..=end) ==> (RangeToInclusive { end })
for _ in 0..items_len { $b.. } ==> let mut it: usize = 0; while it < items_len { $b it += 1; }
for _ in 0..len { $b.. } ==> let mut it: usize = 0; while it < len { $b it += 1; }
IndexMap::with_capacity($x..) ==> new_map()
map.insert(key, value) ==> map_insert(&mut map, key, value)
QueryItem::decode(decoder) ==> QueryItem::decode(decoder, gi, gr)
QueryItem::borrow_decode(decoder) ==> QueryItem::borrow_decode(decoder, gi, gr)
let default_subquery_branch = SubqueryBranch::decode_with_depth(decoder, depth)?; ==> let default_subquery_branch = SubqueryBranch::decode_with_depth(decoder, depth, gd, gr)?;
let default_subquery_branch = SubqueryBranch::borrow_decode_with_depth(decoder, depth)?; ==> let default_subquery_branch = SubqueryBranch::borrow_decode_with_depth(decoder, depth, gd, gr)?;
let value = SubqueryBranch::decode_with_depth(decoder, depth)?; ==> let value = SubqueryBranch::decode_with_depth(decoder, depth, gb, gs)?;
let value = SubqueryBranch::borrow_decode_with_depth(decoder, depth)?; ==> let value = SubqueryBranch::borrow_decode_with_depth(decoder, depth, gb, gs)?;
Query::decode_with_depth(decoder, depth + 1) ==> Query::decode_with_depth(decoder, depth + 1, gq, gr)
Query::borrow_decode_with_depth(decoder, depth + 1,) ==> Query::borrow_decode_with_depth(decoder, depth + 1, gq, gr)
Query::borrow_decode_with_depth(decoder, depth + 1) ==> Query::borrow_decode_with_depth(decoder, depth + 1, gq, gr)
//@ end
//@ type grovedb-query/src/query_item/mod.rs QueryItem
//@ type grovedb-query/src/subquery_branch.rs SubqueryBranch
//@ type grovedb-query/src/query.rs Query
//@ const grovedb-query/src/query.rs MAX_QUERY_ITEMS
//@ const grovedb-query/src/query.rs MAX_CONDITIONAL_BRANCHES
//@ const grovedb-query/src/query.rs MAX_SUBQUERY_DECODE_DEPTH

// ---- trusted: bincode's primitive codecs; each decodes what it encoded, whatever follows --------
pub type B = Seq<u8>;
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<B> { s.map_values(|v: Vec<u8>| v@) }
pub open spec fn pv(p: Option<Path>) -> Option<Seq<B>> { match p { None => None, Some(v) => Some(dv(v@)) } }
pub uninterp spec fn e64(n: u64) -> B;
pub uninterp spec fn p64(s: B) -> Option<(u64, B)>;
pub uninterp spec fn ebl(b: bool) -> B;
pub uninterp spec fn pbl(s: B) -> Option<(bool, B)>;
pub uninterp spec fn ebs(b: B) -> B;
pub uninterp spec fn pbs(s: B) -> Option<(B, B)>;
pub uninterp spec fn epa(p: Option<Seq<B>>) -> B;
pub uninterp spec fn ppa(s: B) -> Option<(Option<Seq<B>>, B)>;
pub axiom fn ax64() ensures forall|n: u64, r: B| p64(#[trigger] (e64(n) + r)) == Some((n, r));
pub axiom fn axbl() ensures forall|n: bool, r: B| pbl(#[trigger] (ebl(n) + r)) == Some((n, r));
pub axiom fn axbs() ensures forall|n: B, r: B| pbs(#[trigger] (ebs(n) + r)) == Some((n, r));
pub axiom fn axpa() ensures forall|n: Option<Seq<B>>, r: B| ppa(#[trigger] (epa(n) + r)) == Some((n, r));
#[verifier::external_body] pub struct Enc { x: Vec<u8> }
impl View for Enc { type V = B; uninterp spec fn view(&self) -> B; }
impl Enc {
    #[verifier::external_body] pub fn put8(&mut self, n: u8) -> (r: Result<(), EncodeError>) ensures r is Ok ==> final(self)@ == old(self)@ + seq![n] { unimplemented!() }
    #[verifier::external_body] pub fn put64(&mut self, n: u64) -> (r: Result<(), EncodeError>) ensures r is Ok ==> final(self)@ == old(self)@ + e64(n) { unimplemented!() }
    #[verifier::external_body] pub fn put_bool(&mut self, n: bool) -> (r: Result<(), EncodeError>) ensures r is Ok ==> final(self)@ == old(self)@ + ebl(n) { unimplemented!() }
    #[verifier::external_body] pub fn put_bytes(&mut self, n: &Vec<u8>) -> (r: Result<(), EncodeError>) ensures r is Ok ==> final(self)@ == old(self)@ + ebs(n@) { unimplemented!() }
}
#[verifier::external_body] pub struct Dec { x: Vec<u8> }
impl View for Dec { type V = B; uninterp spec fn view(&self) -> B; }
impl Dec {
    #[verifier::external_body] pub fn get8(&mut self) -> (r: Result<u8, DecodeError>) ensures old(self)@.len() > 0 ==> r is Ok, r is Ok ==> old(self)@.len() > 0 && r.unwrap() == old(self)@[0] && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn get64(&mut self) -> (r: Result<u64, DecodeError>) ensures r is Ok == p64(old(self)@) is Some, r is Ok ==> (r.unwrap(), final(self)@) == p64(old(self)@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn get_bool(&mut self) -> (r: Result<bool, DecodeError>) ensures r is Ok == pbl(old(self)@) is Some, r is Ok ==> (r.unwrap(), final(self)@) == pbl(old(self)@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn get_bytes(&mut self) -> (r: Result<Vec<u8>, DecodeError>) ensures r is Ok == pbs(old(self)@) is Some, r is Ok ==> (r.unwrap()@, final(self)@) == pbs(old(self)@).unwrap() { unimplemented!() }
    #[verifier::external_body] pub fn get_path(&mut self) -> (r: Result<Option<Path>, DecodeError>) ensures r is Ok == ppa(old(self)@) is Some, r is Ok ==> (pv(r.unwrap()), final(self)@) == ppa(old(self)@).unwrap() { unimplemented!() }
}
pub fn new_map() -> (r: IndexMap<QueryItem, SubqueryBranch>) ensures r.e@.len() == 0 { IndexMap { e: Vec::new() } }
// inserting a key that no entry has appends it (what happens otherwise is left open)
#[verifier::external_body] pub fn map_insert(m: &mut IndexMap<QueryItem, SubqueryBranch>, k: QueryItem, v: SubqueryBranch)
    ensures (forall|i: int| 0 <= i < old(m).e@.len() ==> iv((#[trigger] old(m).e@[i]).0) != iv(k)) ==> final(m).e@ == old(m).e@.push((k, v)) { unimplemented!() }

// ---- query items ---------------------------------------------------------------------
pub struct IV { pub kind: int, pub a: B, pub b: B }
pub open spec fn mk(kind: int, a: B, b: B) -> IV { IV { kind, a, b } }
pub open spec fn iv(i: QueryItem) -> IV {
    let e = Seq::<u8>::empty();
    match i {
        QueryItem::Key(k) => mk(0, k@, e), QueryItem::Range(r) => mk(1, r.start@, r.end@), QueryItem::RangeInclusive(r) => mk(2, r.s@, r.e@), QueryItem::RangeFull(_) => mk(3, e, e),
        QueryItem::RangeFrom(r) => mk(4, r.start@, e), QueryItem::RangeTo(r) => mk(5, r.end@, e), QueryItem::RangeToInclusive(r) => mk(6, r.end@, e), QueryItem::RangeAfter(r) => mk(7, r.start@, e),
        QueryItem::RangeAfterTo(r) => mk(8, r.start@, r.end@), QueryItem::RangeAfterToInclusive(r) => mk(9, r.s@, r.e@),
    }
}
pub open spec fn two(k: int) -> bool { k == 1 || k == 2 || k == 8 || k == 9 }
// the bytes of an item followed by r
pub open spec fn ei(v: IV, r: B) -> B { seq![v.kind as u8] + (if v.kind == 3 { r } else if two(v.kind) { ebs(v.a) + (ebs(v.b) + r) } else { ebs(v.a) + r }) }
pub proof fn cut1(x: u8, r: B) ensures (seq![x] + r).len() > 0, (seq![x] + r)[0] == x, (seq![x] + r).skip(1) == r { assert((seq![x] + r).skip(1) =~= r); }
pub proof fn cuts() ensures forall|x: u8, r: B| (#[trigger] (seq![x] + r)).len() > 0 && (seq![x] + r)[0] == x && (seq![x] + r).skip(1) == r { assert forall|x: u8, r: B| (#[trigger] (seq![x] + r)).len() > 0 && (seq![x] + r)[0] == x && (seq![x] + r).skip(1) == r by { cut1(x, r); } }
pub proof fn assoc(a: B, b: B, c: B) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub proof fn assocs() ensures forall|a: B, b: B, c: B| #[trigger] ((a + b) + c) == a + (b + c) { assert forall|a: B, b: B, c: B| #[trigger] ((a + b) + c) == a + (b + c) by { assoc(a, b, c); } }
impl QueryItem {
//@ fn grovedb-query/src/query_item/mod.rs Encode for QueryItem::encode
//@ ret r
//@ rulefirst key.encode(encoder) ==> encoder.put_bytes(key)
//@ sig <E: bincode::enc::Encoder> ==>
//@ sig &mut E ==> &mut Enc
//@ sig bincode::error::EncodeError ==> EncodeError
//@ spec
  ensures r is Ok ==> forall|t: B| #[trigger] (final(encoder)@ + t) == old(encoder)@ + ei(iv(*self), t),
//@ at start
  proof { assocs(); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs Decode for QueryItem::decode
//@ ret r
//@ sig <D: bincode::de::Decoder<Context = Context>>(decoder: &mut D,) ==> (decoder: &mut Dec, gi: Ghost<QueryItem>, gr: Ghost<B>)
//@ spec
  ensures old(decoder)@ == ei(iv(gi@), gr@) ==> r is Ok && iv(r.unwrap()) == iv(gi@) && final(decoder)@ == gr@,
//@ at start
  proof { axbs(); cuts(); }
//@ end
//@ fn grovedb-query/src/query_item/mod.rs BorrowDecode for QueryItem::borrow_decode
//@ ret r
//@ sig <D: bincode::de::BorrowDecoder<'de, Context = Context>>(decoder: &mut D,) ==> (decoder: &mut Dec, gi: Ghost<QueryItem>, gr: Ghost<B>)
//@ spec
  ensures old(decoder)@ == ei(iv(gi@), gr@) ==> r is Ok && iv(r.unwrap()) == iv(gi@) && final(decoder)@ == gr@,
//@ at start
  proof { axbs(); cuts(); }
//@ end
}

// ---- queries: encoding, well-formedness and equality, to a nesting depth `f` ------------
pub open spec fn fu(depth: usize) -> nat { if depth <= 64 { (64 - depth) as nat } else { 0 } }
pub open spec fn eis(s: Seq<QueryItem>, i: int, r: B) -> B decreases s.len() - i { if 0 <= i < s.len() { ei(iv(s[i]), eis(s, i + 1, r)) } else { r } }
pub open spec fn ebr(b: SubqueryBranch, f: nat, r: B) -> B decreases f, 0int, 0int
{ epa(pv(b.subquery_path)) + (match b.subquery { None => seq![0u8] + r, Some(q) => seq![1u8] + if f > 0 { eq(*q, (f - 1) as nat, r) } else { r } }) }
pub open spec fn ecs(s: Seq<(QueryItem, SubqueryBranch)>, i: int, f: nat, r: B) -> B decreases f, 1int, s.len() - i
{ if 0 <= i < s.len() { ei(iv(s[i].0), ebr(s[i].1, f, ecs(s, i + 1, f, r))) } else { r } }
pub open spec fn ecm(m: Option<IndexMap<QueryItem, SubqueryBranch>>, f: nat, r: B) -> B decreases f, 2int, 0int
{ match m { None => seq![0u8] + r, Some(m) => seq![1u8] + (e64(m.e@.len() as u64) + ecs(m.e@, 0, f, r)) } }
pub open spec fn eq(q: Query, f: nat, r: B) -> B decreases f, 3int, 0int
{ seq![1u8] + (e64(q.items@.len() as u64) + eis(q.items@, 0, ebr(q.default_subquery_branch, f, ecm(q.conditional_subquery_branches, f, ebl(q.left_to_right) + (ebl(q.add_parent_tree_on_subquery) + r))))) }
// within the decoder's limits; no two conditions are the same item (an IndexMap's keys)
pub open spec fn wfb(b: SubqueryBranch, f: nat) -> bool decreases f, 0int { match b.subquery { None => true, Some(q) => f > 0 && wfq(*q, (f - 1) as nat) } }
pub open spec fn wfq(q: Query, f: nat) -> bool decreases f, 1int
{
    &&& q.items@.len() <= 65_536 && wfb(q.default_subquery_branch, f)
    &&& match q.conditional_subquery_branches { None => true, Some(m) => m.e@.len() <= 1024 && (forall|i: int| 0 <= i < m.e@.len() ==> wfb((#[trigger] m.e@[i]).1, f))
        && forall|i: int, j: int| 0 <= i < j < m.e@.len() ==> iv((#[trigger] m.e@[i]).0) != iv((#[trigger] m.e@[j]).0) }
}
pub open spec fn sameis(a: Seq<QueryItem>, b: Seq<QueryItem>, n: int) -> bool { a.len() >= n && forall|i: int| 0 <= i < n ==> iv(#[trigger] a[i]) == iv(b[i]) }
pub open spec fn sameb(a: SubqueryBranch, b: SubqueryBranch, f: nat) -> bool decreases f, 0int
{ pv(a.subquery_path) == pv(b.subquery_path) && match (a.subquery, b.subquery) { (None, None) => true, (Some(x), Some(y)) => f > 0 && sameq(*x, *y, (f - 1) as nat), _ => false } }
pub open spec fn samecs(a: Seq<(QueryItem, SubqueryBranch)>, b: Seq<(QueryItem, SubqueryBranch)>, f: nat, n: int) -> bool decreases f, 1int
{ a.len() >= n && forall|i: int| 0 <= i < n ==> iv((#[trigger] a[i]).0) == iv(b[i].0) && sameb(a[i].1, b[i].1, f) }
pub open spec fn sameq(a: Query, b: Query, f: nat) -> bool decreases f, 2int
{
    &&& a.items@.len() == b.items@.len() && sameis(a.items@, b.items@, a.items@.len() as int) && sameb(a.default_subquery_branch, b.default_subquery_branch, f)
    &&& match (a.conditional_subquery_branches, b.conditional_subquery_branches) { (None, None) => true, (Some(x), Some(y)) => x.e@.len() == y.e@.len() && samecs(x.e@, y.e@, f, x.e@.len() as int), _ => false }
    &&& a.left_to_right == b.left_to_right && a.add_parent_tree_on_subquery == b.add_parent_tree_on_subquery
}
// trusted: bincode's Vec encoding and the derived encoding of SubqueryBranch (path, then subquery, each an Option)
#[verifier::external_body] pub fn encode_items(v: &Vec<QueryItem>, e: &mut Enc) -> (r: Result<(), EncodeError>) ensures r is Ok ==> forall|t: B| #[trigger] (final(e)@ + t) == old(e)@ + (e64(v@.len() as u64) + eis(v@, 0, t)) { unimplemented!() }
#[verifier::external_body] pub fn encode_branch(b: &SubqueryBranch, e: &mut Enc) -> (r: Result<(), EncodeError>) ensures r is Ok ==> forall|t: B, f: nat| wfb(*b, f) ==> #[trigger] (final(e)@ + t) == old(e)@ + #[trigger] ebr(*b, f, t) { unimplemented!() }
impl SubqueryBranch {
//@ fn grovedb-query/src/subquery_branch.rs SubqueryBranch::decode_with_depth
//@ ret r
//@ sig <D: Decoder>(decoder: &mut D, depth: usize,) ==> (decoder: &mut Dec, depth: usize, gb: Ghost<SubqueryBranch>, gr: Ghost<B>)
//@ spec
  requires depth <= 64,
  ensures wfb(gb@, fu(depth)) && old(decoder)@ == ebr(gb@, fu(depth), gr@) ==> r is Ok && sameb(r.unwrap(), gb@, fu(depth)) && final(decoder)@ == gr@,
  decreases 2 * (66 - depth) - 1
//@ at start
  proof { axpa(); cuts(); }
  let gq: Ghost<Query> = Ghost(*gb@.subquery.unwrap());
//@ end
//@ fn grovedb-query/src/subquery_branch.rs SubqueryBranch::borrow_decode_with_depth
//@ ret r
//@ sig <'de, D: BorrowDecoder<'de>>(decoder: &mut D, depth: usize,) ==> (decoder: &mut Dec, depth: usize, gb: Ghost<SubqueryBranch>, gr: Ghost<B>)
//@ spec
  requires depth <= 64,
  ensures wfb(gb@, fu(depth)) && old(decoder)@ == ebr(gb@, fu(depth), gr@) ==> r is Ok && sameb(r.unwrap(), gb@, fu(depth)) && final(decoder)@ == gr@,
  decreases 2 * (66 - depth) - 1
//@ at start
  proof { axpa(); cuts(); }
  let gq: Ghost<Query> = Ghost(*gb@.subquery.unwrap());
//@ end
}
impl Query {
//@ fn grovedb-query/src/query.rs Encode for Query::encode
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ sig <E: bincode::enc::Encoder>(&self, encoder: &mut E) ==> (&self, encoder: &mut Enc, gf: Ghost<nat>, gr: Ghost<B>)
//@ spec
  requires wfq(*self, gf@),
  ensures r is Ok ==> final(encoder)@ + gr@ == old(encoder)@ + eq(*self, gf@, gr@),
//@ at start
  let ghost q = *self; let ghost f = gf@; let ghost s0 = encoder@; let ghost all = s0 + eq(q, f, gr@);
  let ghost r4 = ebl(q.left_to_right) + (ebl(q.add_parent_tree_on_subquery) + gr@); let ghost r3 = ecm(q.conditional_subquery_branches, f, r4); let ghost r2 = ebr(q.default_subquery_branch, f, r3);
  let ghost cs = match q.conditional_subquery_branches { Some(m) => m.e@, None => Seq::empty() };
  proof { assoc(s0, seq![1u8], e64(q.items@.len() as u64) + eis(q.items@, 0, r2)); }
//@ after encode_items($x..)?;
  assert(encoder@ + r2 == all);
//@ after encode_branch(&self.default_subquery_branch, encoder)?;
  assert(encoder@ + r3 == all);
  let ghost s2 = encoder@;
  proof { assocs(); }
//@ loop 1
  invariant ci <= cs.len(), encoder@ + ecs(cs, ci as int, f, r4) == all,
  decreases cs.len() - ci
//@ loopstart 1
  let ghost t1 = ecs(cs, ci + 1, f, r4); let ghost t0 = ebr(cs[ci as int].1, f, t1);
  assert(encoder@ + ei(iv(cs[ci as int].0), t0) == all);
//@ after key.encode(encoder)?;
  assert(encoder@ + t0 == all); assert(wfb(cs[ci - 1].1, f));
//@ after encode_branch(value, encoder)?;
  assert(encoder@ + t1 == all);
//@ before encoder.put_bool(self.left_to_right)?;
  assert(encoder@ + r4 == all);
//@ end
//@ fn grovedb-query/src/query.rs Query::decode_with_depth
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ sig <D: bincode::de::Decoder>(decoder: &mut D, depth: usize,) ==> (decoder: &mut Dec, depth: usize, gq: Ghost<Query>, g0: Ghost<B>)
//@ spec
  requires depth <= 65,
  ensures depth <= 64 && wfq(gq@, fu(depth)) && old(decoder)@ == eq(gq@, fu(depth), g0@) ==> r is Ok && sameq(r.unwrap(), gq@, fu(depth)) && final(decoder)@ == g0@,
    depth > 64 ==> r is Err,
  decreases 2 * (66 - depth)
//@ at start
  proof { ax64(); axbl(); cuts(); }
  let ghost q = gq@; let ghost f = fu(depth); let ghost h = depth <= 64 && wfq(q, f) && old(decoder)@ == eq(q, f, g0@);
  let ghost r4 = ebl(q.left_to_right) + (ebl(q.add_parent_tree_on_subquery) + g0@); let ghost r3 = ecm(q.conditional_subquery_branches, f, r4); let ghost r2 = ebr(q.default_subquery_branch, f, r3);
  let ghost cs = match q.conditional_subquery_branches { Some(m) => m.e@, None => Seq::empty() };
//@ loop 1
  invariant it <= items_len, h ==> items_len == q.items@.len() && items@.len() == it && decoder@ == eis(q.items@, it as int, r2) && sameis(items@, q.items@, it as int),
  decreases items_len - it
//@ loopstart 1
  let gi: Ghost<QueryItem> = Ghost(q.items@[it as int]); let gr: Ghost<B> = Ghost(eis(q.items@, it + 1, r2));
//@ postloop 1
  let gd: Ghost<SubqueryBranch> = Ghost(q.default_subquery_branch); let gr: Ghost<B> = Ghost(r3);
//@ loop 2
  invariant it <= len, h ==> q.conditional_subquery_branches is Some && len == cs.len() && map.e@.len() == it && decoder@ == ecs(cs, it as int, f, r4) && samecs(map.e@, cs, f, it as int),
  decreases len - it
//@ loopstart 2
  let gi: Ghost<QueryItem> = Ghost(cs[it as int].0); let gr: Ghost<B> = Ghost(ebr(cs[it as int].1, f, ecs(cs, it + 1, f, r4)));
  let gb: Ghost<SubqueryBranch> = Ghost(cs[it as int].1); let gs: Ghost<B> = Ghost(ecs(cs, it + 1, f, r4));
//@ end
//@ fn grovedb-query/src/query.rs Query::borrow_decode_with_depth
//@ attr #[verifier::loop_isolation(false)]
//@ ret r
//@ sig <'de, D: bincode::de::BorrowDecoder<'de>>(decoder: &mut D, depth: usize,) ==> (decoder: &mut Dec, depth: usize, gq: Ghost<Query>, g0: Ghost<B>)
//@ spec
  requires depth <= 65,
  ensures depth <= 64 && wfq(gq@, fu(depth)) && old(decoder)@ == eq(gq@, fu(depth), g0@) ==> r is Ok && sameq(r.unwrap(), gq@, fu(depth)) && final(decoder)@ == g0@,
    depth > 64 ==> r is Err,
  decreases 2 * (66 - depth)
//@ at start
  proof { ax64(); axbl(); cuts(); }
  let ghost q = gq@; let ghost f = fu(depth); let ghost h = depth <= 64 && wfq(q, f) && old(decoder)@ == eq(q, f, g0@);
  let ghost r4 = ebl(q.left_to_right) + (ebl(q.add_parent_tree_on_subquery) + g0@); let ghost r3 = ecm(q.conditional_subquery_branches, f, r4); let ghost r2 = ebr(q.default_subquery_branch, f, r3);
  let ghost cs = match q.conditional_subquery_branches { Some(m) => m.e@, None => Seq::empty() };
//@ loop 1
  invariant it <= items_len, h ==> items_len == q.items@.len() && items@.len() == it && decoder@ == eis(q.items@, it as int, r2) && sameis(items@, q.items@, it as int),
  decreases items_len - it
//@ loopstart 1
  let gi: Ghost<QueryItem> = Ghost(q.items@[it as int]); let gr: Ghost<B> = Ghost(eis(q.items@, it + 1, r2));
//@ postloop 1
  let gd: Ghost<SubqueryBranch> = Ghost(q.default_subquery_branch); let gr: Ghost<B> = Ghost(r3);
//@ loop 2
  invariant it <= len, h ==> q.conditional_subquery_branches is Some && len == cs.len() && map.e@.len() == it && decoder@ == ecs(cs, it as int, f, r4) && samecs(map.e@, cs, f, it as int),
  decreases len - it
//@ loopstart 2
  let gi: Ghost<QueryItem> = Ghost(cs[it as int].0); let gr: Ghost<B> = Ghost(ebr(cs[it as int].1, f, ecs(cs, it + 1, f, r4)));
  let gb: Ghost<SubqueryBranch> = Ghost(cs[it as int].1); let gs: Ghost<B> = Ghost(ecs(cs, it + 1, f, r4));
//@ end
}
} // verus!
fn main() {}
