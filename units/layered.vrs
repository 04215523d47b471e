// C25: verifying a layered proof. grovedb/src/operations/proof/verify.rs
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
global size_of usize == 8;
//@ include query_item.inc assumed query_item

// ---- trusted stand-ins --------------------------------------------------------
#[derive(Debug)]
#[verifier::external_body] pub struct Error { x: u8 }
#[verifier::external_body] pub fn err() -> (r: Error) { unimplemented!() }
pub type Key = Vec<u8>;
pub type CryptoHash = [u8; 32];
pub type H = CryptoHash;
pub open spec fn dv(s: Seq<Vec<u8>>) -> Seq<Seq<u8>> { s.map_values(|v: Vec<u8>| v@) }
pub open spec fn sv(s: Seq<&[u8]>) -> Seq<Seq<u8>> { s.map_values(|v: &[u8]| v@) }
// std's set of numbers
#[verifier::external_body] pub struct PosSet { x: std::collections::BTreeSet<u64> }
impl PosSet {
    pub uninterp spec fn view(&self) -> Set<u64>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<u64>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: u64) -> (r: bool) ensures final(self)@ == old(self)@.insert(x) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) { unimplemented!() }
    // self.difference(other).copied().collect()
    #[verifier::external_body] pub fn beyond(&self, other: &PosSet) -> (r: Vec<u64>) ensures (r@.len() == 0) == self@.subset_of(other@) { unimplemented!() }
}
// std's big-endian numbers
pub open spec fn num(s: Seq<u8>) -> int decreases s.len() { if s.len() == 0 { 0 } else { num(s.drop_last()) * 256 + s.last() as int } }
#[verifier::external_body] pub fn be_read(b: [u8; 8]) -> (r: u64) ensures r == num(b@) { u64::from_be_bytes(b) }
#[verifier::external_body] pub fn arr8(b: &[u8]) -> (r: Result<[u8; 8], Error>) ensures r is Ok == (b@.len() == 8), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn be_write(x: u64) -> (r: Vec<u8>) ensures r@.len() == 8, num(r@) == x { x.to_be_bytes().to_vec() }
#[verifier::external_body] pub fn be_write2(x: u16) -> (r: Vec<u8>) ensures r@.len() == 2, num(r@) == x { x.to_be_bytes().to_vec() }

// ---- the query: what it prescribes at a path (C26) -------------------------------
pub type Path = Seq<Seq<u8>>;
pub struct PathQuery { pub path: Vec<Vec<u8>>, pub rest: Rest }
#[verifier::external_body] pub struct GroveVersion { x: u8 }
#[verifier::external_body] pub struct Rest { x: u8 }
pub struct SinglePathSubquery { pub items: Vec<QueryItem>, pub left_to_right: bool, pub rest: Rest }
pub uninterp spec fn lev(q: PathQuery, at: Path) -> Option<SinglePathSubquery>;
pub uninterp spec fn below(s: SinglePathSubquery, k: Seq<u8>) -> bool;
pub uninterp spec fn shows_parent(q: PathQuery, at: Path) -> bool;
// every level is a list of intervals, one after the other
pub open spec fn fit(q: PathQuery) -> bool { forall|at: Path| #[trigger] lev(q, at) is Some ==> proper(lev(q, at)->0.items@) }
// a query goes along its path one segment at a time, and has something to ask at its end (C26)
pub open spec fn follows(q: PathQuery) -> bool { forall|at: Path, k: Seq<u8>| at.len() < q.path@.len() && #[trigger] chosen(q, at, k) ==> below(lev(q, at)->0, k) && lev(q, at.push(k)) is Some }
impl PathQuery {
    #[verifier::external_body] pub fn query_items_at_path(&self, path: &[&[u8]], v: &GroveVersion) -> (r: Result<Option<SinglePathSubquery>, Error>) ensures r is Ok ==> r->Ok_0 == lev(*self, sv(path@)) { unimplemented!() }
    #[verifier::external_body] pub fn should_add_parent_tree_at_path(&self, path: &[&[u8]], v: &GroveVersion) -> (r: Result<bool, Error>) ensures r is Ok ==> r->Ok_0 == shows_parent(*self, sv(path@)) { unimplemented!() }
}
impl SinglePathSubquery { #[verifier::external_body] pub fn has_subquery_or_matching_in_path_on_key(&self, key: &[u8]) -> (r: bool) ensures r == below(*self, key@) { unimplemented!() } }
pub fn must<T>(o: Option<T>) -> (r: Result<T, Error>) ensures r is Ok == o is Some, r is Ok ==> r->Ok_0 == o->0 { match o { Some(x) => Ok(x), None => Err(err()) } }
#[verifier::external_body] pub fn clone_items(x: &Vec<QueryItem>) -> (r: Vec<QueryItem>) ensures r@ == x@ { unimplemented!() }
pub struct Query { pub items: Vec<QueryItem>, pub left_to_right: bool }
pub fn plain_query(items: Vec<QueryItem>, left_to_right: bool) -> (r: Query) ensures r.items == items, r.left_to_right == left_to_right { Query { items, left_to_right } }

// ---- elements and hashes ------------------------------------------------------------
pub uninterp spec fn hv(v: Seq<u8>) -> H;
pub uninterp spec fn comb(a: H, b: H) -> H;
pub uninterp spec fn zero() -> H;
#[verifier::external_body] pub fn null_hash() -> (r: H) ensures r == zero() { [0; 32] }
#[verifier::external_body] pub fn value_hash(v: &[u8]) -> (r: H) ensures r == hv(v@) { unimplemented!() }
#[verifier::external_body] pub fn combine_hash(a: &H, b: &H) -> (r: H) ensures r == comb(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn hash_eq(a: &H, b: &H) -> (r: bool) ensures r == (*a == *b) { a == b }
pub type ElementFlags = Vec<u8>;
pub type MaxReferenceHop = Option<u8>;
pub type SumValue = i64;
pub type BigSumValue = i128;
pub type CountValue = u64;
#[verifier::external_body] pub struct ReferencePathType { x: u8 }
//@ type grovedb-query/src/proofs/tree_feature_type.rs TreeFeatureType
use TreeFeatureType::*;
//@ type grovedb-element/src/element/mod.rs Element
pub open spec fn ekind(e: Element) -> int {
    match e {
        Element::Item(..) => 0, Element::Reference(..) => 1, Element::Tree(..) => 2, Element::SumItem(..) => 3, Element::SumTree(..) => 4, Element::BigSumTree(..) => 5, Element::CountTree(..) => 6, Element::CountSumTree(..) => 7,
        Element::ProvableCountTree(..) => 8, Element::ItemWithSumItem(..) => 9, Element::ProvableCountSumTree(..) => 10, Element::CommitmentTree(..) => 11, Element::MmrTree(..) => 12, Element::BulkAppendTree(..) => 13, Element::DenseAppendOnlyFixedSizeTree(..) => 14,
    }
}
// what a tree carries of its subtree's counts and sums
pub open spec fn feat(e: Element) -> Option<TreeFeatureType> {
    match e {
        Element::SumTree(_, s, _) => Some(SummedMerkNode(s)), Element::BigSumTree(_, s, _) => Some(BigSummedMerkNode(s)), Element::CountTree(_, c, _) => Some(CountedMerkNode(c)), Element::CountSumTree(_, c, s, _) => Some(CountedSummedMerkNode(c, s)),
        Element::ProvableCountTree(_, c, _) => Some(ProvableCountedMerkNode(c)), Element::ProvableCountSumTree(_, c, s, _) => Some(ProvableCountedSummedMerkNode(c, s)),
        _ => if tree(e) { Some(BasicMerkNode) } else { None },
    }
}
pub open spec fn item(e: Element) -> bool { ekind(e) == 0 || ekind(e) == 3 || ekind(e) == 9 }
pub open spec fn tree(e: Element) -> bool { !item(e) && ekind(e) != 1 }
// trees that hold something else than elements
pub open spec fn beside(e: Element) -> bool { ekind(e) >= 11 }
pub open spec fn rooted(e: Element) -> bool {
    match e {
        Element::Tree(k, _) => k is Some, Element::SumTree(k, _, _) => k is Some, Element::BigSumTree(k, _, _) => k is Some, Element::CountTree(k, _, _) => k is Some, Element::CountSumTree(k, _, _, _) => k is Some,
        Element::ProvableCountTree(k, _, _) => k is Some, Element::ProvableCountSumTree(k, _, _, _) => k is Some, _ => false,
    }
}
// the element some bytes stand for (C16)
pub uninterp spec fn elem(v: Seq<u8>) -> Option<Element>;
#[verifier::external_body] pub proof fn first_byte(v: Seq<u8>) requires elem(v) is Some, typed(v) ensures ekind(elem(v)->0) == v[0] {}
pub uninterp spec fn item_bytes(v: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn plain_item(e: Element) -> Option<Seq<u8>>;
impl Element {
    #[verifier::external_body] pub fn deserialize(b: &[u8], v: &GroveVersion) -> (r: Result<Element, Error>) ensures r is Ok ==> elem(b@) == Some(r->Ok_0) { unimplemented!() }
    #[verifier::external_body] pub fn serialize(&self, v: &GroveVersion) -> (r: Result<Vec<u8>, Error>) ensures r is Ok && plain_item(*self) is Some ==> r->Ok_0@ == item_bytes(plain_item(*self)->0) { unimplemented!() }
    #[verifier::external_body] pub fn new_item(v: Vec<u8>) -> (r: Element) ensures plain_item(r) == Some(v@) { unimplemented!() }
//@ fn merk/src/element/tree_type.rs ElementTreeTypeExtensions for Element::tree_feature_type
//@ ret r
//@ spec
    ensures r == feat(*self)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_any_tree
//@ ret r
//@ spec
    ensures r == tree(*self)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::uses_non_merk_data_storage
//@ ret r
//@ spec
    ensures r == beside(*self)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_non_empty_tree
//@ ret r
//@ spec
    ensures r == (rooted(*self) || beside(*self))
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_non_empty_merk_tree
//@ ret r
//@ spec
    ensures r == rooted(*self)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_reference
//@ ret r
//@ spec
    ensures r == (ekind(*self) == 1)
//@ end
//@ fn grovedb-element/src/element/helpers.rs Element::is_any_item
//@ ret r
//@ spec
    ensures r == item(*self)
//@ end
}

// ---- merk layers (C24): what a verified answer says of the ordered tree with that root ----
pub type MT = H;
// there is an ordered tree with this root hash; it has this key with this stored hash
pub uninterp spec fn honest(root: H) -> bool;
pub uninterp spec fn ent(root: H, k: Seq<u8>, vh: H) -> bool;
//@ type merk/src/proofs/query/verify.rs ProvedKeyOptionalValue
//@ type merk/src/proofs/query/verify.rs ProofVerificationResult
//@ include merk_exact.inc
//@ const merk/src/proofs/query/verify.rs PROOF_VERSION_LATEST
impl Query {
    // proved in the unit merk_verify (execute_proof with theorem_exact)
    #[verifier::external_body] pub fn execute_proof(&self, bytes: &Vec<u8>, limit: Option<u16>, left_to_right: bool, proof_version: u16) -> (r: Result<(H, ProofVerificationResult), Error>)
        requires proper(self.items@)
        ensures r is Ok && honest(r->Ok_0.0) ==> exact(r->Ok_0.0, self.items@, limit, left_to_right, proof_version, r->Ok_0.1)
    { unimplemented!() }
}
#[verifier::external_body] pub proof fn one_entry(g: MT, k: Seq<u8>, a: H, b: H) requires honest(g), ent(g, k, a), ent(g, k, b) ensures a == b {}
// merk's execute() over the operations in `bytes`, and the hash of what it built
#[verifier::external_body] pub fn merk_root(bytes: &Vec<u8>) -> (r: Result<H, Error>) { unimplemented!() }
#[verifier::external_body] pub fn clone_row(x: &ProvedKeyOptionalValue) -> (r: ProvedKeyOptionalValue) ensures r == *x { unimplemented!() }

// ---- proofs -------------------------------------------------------------------------
//@ type grovedb/src/operations/proof/mod.rs ProofBytes
pub struct LayerProof { pub merk_proof: ProofBytes, pub lower_layers: LayerMap }
#[verifier::external_body] pub struct LayerMap { m: std::collections::BTreeMap<Key, LayerProof> }
pub uninterp spec fn layer_at(m: LayerMap, k: Seq<u8>) -> Option<LayerProof>;
impl LayerMap {
    #[verifier::external_body] pub fn get(&self, k: &Key) -> (r: Option<&LayerProof>) ensures r is Some == layer_at(*self, k@) is Some, r is Some ==> *r->0 == layer_at(*self, k@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Vec<Key>) ensures forall|k: Seq<u8>| layer_at(*self, k) is Some ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i])@ == k { unimplemented!() }
}
#[verifier::external_body] pub struct KeySet { x: std::collections::BTreeSet<Key> }
impl KeySet {
    pub uninterp spec fn view(&self) -> Set<Seq<u8>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: Key) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &Key) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
}
pub type OwnedPath = Vec<Vec<u8>>;
//@ type grovedb/src/operations/proof/util.rs ProvedPathKeyOptionalValue
//@ rule path: Path ==> path: OwnedPath
//@ end
pub type Hit = ProvedPathKeyOptionalValue;
impl ProvedPathKeyOptionalValue {
//@ fn grovedb/src/operations/proof/util.rs ProvedPathKeyOptionalValue::from_proved_key_value
//@ ret r
//@ sig path: Path ==> path: OwnedPath
//@ spec
    ensures r.path == path, r.key == proved_key_value.key, r.value == proved_key_value.value, r.proof == proved_key_value.proof
//@ end
}
//@ type grovedb/src/operations/proof/mod.rs ProveOptions
//@ type merk/src/proofs/query/verify.rs VerifyOptions
pub fn lim_dec(l: &mut Option<u16>) ensures *old(l) is None ==> *final(l) is None, *old(l) is Some ==> *final(l) == Some(if old(l)->0 == 0 { 0u16 } else { (old(l)->0 - 1) as u16 }) { if let Some(x) = l { if *x > 0 { *x = *x - 1; } } }
pub fn lim_zero(l: &Option<u16>) -> (r: bool) ensures r == (*l == Some(0u16)) { match l { Some(x) => *x == 0, None => false } }
#[verifier::external_body] pub fn copy_path<'a>(p: &[&'a [u8]]) -> (r: Vec<&'a [u8]>) ensures r@ == p@ { p.to_vec() }
#[verifier::external_body] pub fn own_path(p: &[&[u8]]) -> (r: OwnedPath) ensures dv(r@) == sv(p@) { unimplemented!() }
#[verifier::external_body] pub fn clone_key(k: &Key) -> (r: Key) ensures r@ == k@ { unimplemented!() }

// ---- what is true of a database -----------------------------------------------------------
// the value `v` is what the hash `vh` stored with a key stands for; `shown` is the hash reported with it
pub open spec fn fact(vh: H, v: Seq<u8>, shown: H, e: Element) -> bool {
    ekind(e) != 1 && (vh == hv(v) || vh == comb(shown, hv(v)) || (!item(e) && exists|c: H| vh == #[trigger] comb(hv(v), c))
        || (beside(e) && vh == shown)) // KF1
}
// the value `v` with the root `low` below it is what the hash `vh` stands for (the second form: a reference whose own hash happens to be that of a tree)
pub open spec fn bind(vh: H, v: Seq<u8>, low: H) -> bool { vh == comb(hv(v), low) || vh == comb(comb(hv(v), low), hv(v)) }
// the lists of values that roots stand for (C05, C06, C07)
pub type Log = Seq<Seq<u8>>;
pub uninterp spec fn mroot(l: Log) -> H;
pub uninterp spec fn msize(n: int) -> int;
pub uninterp spec fn droot(height: u8, l: Log) -> H;
pub uninterp spec fn blake(s: Seq<u8>) -> H;
pub uninterp spec fn bulk_tag() -> Seq<u8>;
pub uninterp spec fn ct_tag() -> Seq<u8>;
// what a bulk tree's log is hashed into, below the tag
pub uninterp spec fn bulk_body(height: u8, l: Log) -> Seq<u8>;
// values a chunk can hold (unit bulk_query)
pub uninterp spec fn okval(l: Log) -> bool;
pub open spec fn sroot(height: u8, l: Log) -> H { blake(bulk_tag() + bulk_body(height, l)) }
pub open spec fn ct_hash(anchor: Seq<u8>, bulk: H) -> H { blake(ct_tag() + anchor + bulk@) }
// b"bulk_state", b"ct_state"; no hash collisions
#[verifier::external_body] pub proof fn tags() ensures bulk_tag().len() == 10, bulk_tag()[0] == 98, ct_tag().len() == 8, ct_tag()[0] == 99 {}
#[verifier::external_body] pub proof fn blake_inj(a: Seq<u8>, b: Seq<u8>) requires blake(a) == blake(b) ensures a == b {}
pub uninterp spec fn leafs(size: u64) -> u64;
// every list of values that such a tree with the root `low` can stand for has value v at position p
pub open spec fn mmr_has(size: u64, low: H, p: int, v: Seq<u8>) -> bool { forall|l: Log| #[trigger] mroot(l) == low && msize(l.len() as int) == size ==> 0 <= p < l.len() && l[p] == v }
pub open spec fn bulk_has(count: u64, height: u8, low: H, p: int, v: Seq<u8>) -> bool { forall|l: Log| #[trigger] sroot(height, l) == low && l.len() == count && okval(l) ==> 0 <= p < l.len() && l[p] == v }
pub open spec fn commit_has(count: u64, height: u8, low: H, p: int, v: Seq<u8>) -> bool { forall|l: Log, s: Seq<u8>| #[trigger] ct_hash(s, sroot(height, l)) == low && s.len() == 32 && l.len() == count && okval(l) ==> 0 <= p < l.len() && l[p] == v }
pub open spec fn dense_has(count: u16, height: u8, low: H, p: int, v: Seq<u8>) -> bool { forall|l: Log| #[trigger] droot(height, l) == low && l.len() == count ==> 0 <= p < l.len() && l[p] == v }
pub open spec fn has_at(e: Element, low: H, p: int, v: Seq<u8>) -> bool {
    match e {
        Element::MmrTree(n, _) => mmr_has(n, low, p, v), Element::BulkAppendTree(c, h, _) => bulk_has(c, h, low, p, v), Element::DenseAppendOnlyFixedSizeTree(c, h, _) => dense_has(c, h, low, p, v),
        Element::CommitmentTree(c, h, _) => commit_has(c, h, low, p, v), _ => false,
    }
}
pub open spec fn size_of_tree(e: Element) -> int { match e { Element::MmrTree(n, _) => leafs(n) as int, Element::BulkAppendTree(c, _, _) => c as int, Element::CommitmentTree(c, _, _) => c as int, Element::DenseAppendOnlyFixedSizeTree(c, _, _) => c as int, _ => 0 } }
pub open spec fn width(e: Element) -> int { if e is DenseAppendOnlyFixedSizeTree { 2 } else { 8 } }
// a hit is a value kept by such a tree
pub open spec fn cell(e: Element, low: H, h: Hit) -> bool { h.key@.len() == width(e) && h.value is Some && exists|v: Seq<u8>| #[trigger] has_at(e, low, num(h.key@), v) && h.value->0@ == item_bytes(v) }
pub open spec fn chosen(q: PathQuery, at: Path, k: Seq<u8>) -> bool { lev(q, at) is Some && selected(lev(q, at)->0.items@, k) }
pub open spec fn along(at: Path, p: Path) -> bool { at.len() <= p.len() && p.subrange(0, at.len() as int) == at }
pub open spec fn holds_tree(root: H, k: Seq<u8>, v: Seq<u8>, low: H) -> bool { elem(v) is Some && tree(elem(v)->0) && exists|vh: H| #[trigger] ent(root, k, vh) && bind(vh, v, low) }
// a hit is in the database whose tree at `at` has this root, and the query asks for it
pub open spec fn truth(root: H, q: PathQuery, at: Path, h: Hit) -> bool decreases dv(h.path@).len() - at.len() {
    along(at, dv(h.path@)) && (honest(root) ==>
        if at.len() == dv(h.path@).len() { chosen(q, at, h.key@) && h.value is Some && elem(h.value->0@) is Some && exists|vh: H| #[trigger] ent(root, h.key@, vh) && fact(vh, h.value->0@, h.proof, elem(h.value->0@)->0) }
        else { let k = dv(h.path@)[at.len() as int]; chosen(q, at, k) && exists|v: Seq<u8>, low: H| #[trigger] holds_tree(root, k, v, low) && (
            if beside(elem(v)->0) { cell(elem(v)->0, low, h) && chosen(q, at.push(k), h.key@) && dv(h.path@) == at.push(k) }
            else { truth(low, q, at.push(k), h) }) })
}
// going down the query's path from the tree with this root one comes to a tree with these counts and sums
pub open spec fn is_parent(root: H, q: PathQuery, at: Path, k: Seq<u8>, v: Seq<u8>, low: H, t: TreeFeatureType) -> bool { holds_tree(root, k, v, low) && chosen(q, at, k) && feat(elem(v)->0) == Some(t) }
pub open spec fn parent(root: H, q: PathQuery, at: Path, t: TreeFeatureType) -> bool decreases q.path@.len() - at.len() {
    honest(root) ==> at.len() < q.path@.len() && if at.len() + 1 == q.path@.len() { exists|k: Seq<u8>, v: Seq<u8>, low: H| #[trigger] is_parent(root, q, at, k, v, low, t) }
        else { exists|k: Seq<u8>, v: Seq<u8>, low: H| #[trigger] holds_tree(root, k, v, low) && chosen(q, at, k) && parent(low, q, at.push(k), t) }
}
// the parent tree the verifier has settled on
pub open spec fn parent_ok(root: H, q: PathQuery, at: Path, old_t: Option<TreeFeatureType>, t: Option<TreeFeatureType>) -> bool { t is None || t == old_t || parent(root, q, at, t->0) }
pub open spec fn told(hits: Seq<Hit>, at: Path, k: Seq<u8>, v: Seq<u8>) -> bool { exists|i: int| 0 <= i < hits.len() && dv((#[trigger] hits[i]).path@) == at && hits[i].key@ == k && hits[i].value is Some && hits[i].value->0@ == v }
// everything the query asks for in a tree that holds something else than elements is among the hits
pub open spec fn filled(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>) -> bool {
    forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) ==> exists|i: int| 0 <= i < hits.len() && dv((#[trigger] hits[i]).path@) == at && hits[i].key@ == k && cell(e, low, hits[i])
}
// an entry the query asks for is among the hits, or is an empty tree
pub open spec fn empty_tree(q: PathQuery, at: Path, k: Seq<u8>, vh: H, v: Seq<u8>, empties: bool) -> bool { elem(v) is Some && tree(elem(v)->0) && !rooted(elem(v)->0) && !beside(elem(v)->0) && bind(vh, v, zero()) && (below(lev(q, at)->0, k) || (!empties && ekind(elem(v)->0) == 2)) }
pub open spec fn answered(q: PathQuery, at: Path, k: Seq<u8>, vh: H, v: Seq<u8>, hits: Seq<Hit>, empties: bool) -> bool { told(hits, at, k, v) || empty_tree(q, at, k, vh, v, empties) }
pub open spec fn opened(q: PathQuery, at: Path, k: Seq<u8>, vh: H, v: Seq<u8>, low: H) -> bool { elem(v) is Some && tree(elem(v)->0) && lev(q, at.push(k)) is Some && bind(vh, v, low) }
// everything the query asks for in the tree with this root is answered, or everything it asks for below that is
pub open spec fn covers(root: H, q: PathQuery, at: Path, hits: Seq<Hit>, empties: bool, n: nat) -> bool decreases n {
    honest(root) ==> lev(q, at) is Some && forall|k: Seq<u8>, vh: H| #[trigger] ent(root, k, vh) && chosen(q, at, k) ==>
        (exists|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, hits, empties))
        || (exists|v: Seq<u8>, low: H| #[trigger] opened(q, at, k, vh, v, low) && n > 0 && if beside(elem(v)->0) { filled(elem(v)->0, low, q, at.push(k), hits) } else { covers(low, q, at.push(k), hits, empties, (n - 1) as nat) })
}
// more hits tell no less
pub open spec fn more(a: Seq<Hit>, b: Seq<Hit>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) =~= a }
pub proof fn told_more(a: Seq<Hit>, b: Seq<Hit>, at: Path, k: Seq<u8>, v: Seq<u8>) requires told(a, at, k, v), more(a, b) ensures told(b, at, k, v)
{ let i = choose|i: int| 0 <= i < a.len() && dv((#[trigger] a[i]).path@) == at && a[i].key@ == k && a[i].value is Some && a[i].value->0@ == v; assert(b.subrange(0, a.len() as int)[i] == a[i]); assert(b[i] == a[i]); }
pub proof fn filled_more(e: Element, low: H, q: PathQuery, at: Path, a: Seq<Hit>, b: Seq<Hit>) requires filled(e, low, q, at, a), more(a, b) ensures filled(e, low, q, at, b)
{
    assert forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) implies exists|i: int| 0 <= i < b.len() && dv((#[trigger] b[i]).path@) == at && b[i].key@ == k && cell(e, low, b[i]) by {
        let i = choose|i: int| 0 <= i < a.len() && dv((#[trigger] a[i]).path@) == at && a[i].key@ == k && cell(e, low, a[i]);
        assert(b.subrange(0, a.len() as int)[i] == a[i]); assert(b[i] == a[i]);
    }
}
pub proof fn covers_more(root: H, q: PathQuery, at: Path, a: Seq<Hit>, b: Seq<Hit>, empties: bool, n: nat)
    requires covers(root, q, at, a, empties, n), more(a, b) ensures covers(root, q, at, b, empties, n) decreases n
{
    if honest(root) {
        assert forall|k: Seq<u8>, vh: H| #[trigger] ent(root, k, vh) && chosen(q, at, k) implies
            (exists|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, b, empties))
            || (exists|v: Seq<u8>, low: H| #[trigger] opened(q, at, k, vh, v, low) && n > 0 && if beside(elem(v)->0) { filled(elem(v)->0, low, q, at.push(k), b) } else { covers(low, q, at.push(k), b, empties, (n - 1) as nat) }) by
        {
            if exists|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, a, empties) {
                let v = choose|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, a, empties);
                if told(a, at, k, v) { told_more(a, b, at, k, v); }
                assert(answered(q, at, k, vh, v, b, empties));
            } else {
                let (v, low) = choose|v: Seq<u8>, low: H| #[trigger] opened(q, at, k, vh, v, low) && n > 0 && if beside(elem(v)->0) { filled(elem(v)->0, low, q, at.push(k), a) } else { covers(low, q, at.push(k), a, empties, (n - 1) as nat) };
                if beside(elem(v)->0) { filled_more(elem(v)->0, low, q, at.push(k), a, b); } else { covers_more(low, q, at.push(k), a, b, empties, (n - 1) as nat); }
                assert(opened(q, at, k, vh, v, low));
            }
        }
    }
}

// ---- positions as keys ----------------------------------------------------------
pub open spec fn pk(p: int, k: Seq<u8>) -> bool { k.len() == 8 && num(k) == p }
pub open spec fn pow(n: nat) -> int decreases n { if n == 0 { 1 } else { 256 * pow((n - 1) as nat) } }
pub proof fn num_front(s: Seq<u8>) requires s.len() > 0 ensures num(s) == s[0] as int * pow((s.len() - 1) as nat) + num(s.drop_first()) decreases s.len()
{
    reveal_with_fuel(num, 2); reveal_with_fuel(pow, 2);
    if s.len() == 1 { assert(s.drop_last() =~= Seq::<u8>::empty()); assert(s.drop_first() =~= Seq::<u8>::empty()); assert(num(s.drop_last()) == 0); assert(num(s.drop_first()) == 0); assert(pow(0) == 1); assert(s[0] == s.last()); assert(num(s) == s[0] as int); assert(pow((s.len() - 1) as nat) == 1); assert(s[0] as int * 1 == s[0] as int); }
    else {
        let d = s.drop_last(); num_front(d);
        assert(d.drop_first() =~= s.drop_first().drop_last()); assert(d[0] == s[0]);
        let a = s[0] as int; let q = pow((s.len() - 2) as nat); let x = num(d.drop_first());
        assert(pow((s.len() - 1) as nat) == 256 * q);
        assert((a * q + x) * 256 == a * (256 * q) + x * 256) by (nonlinear_arith);
        assert(num(d) == a * q + x); assert(num(s) == num(d) * 256 + s.last() as int);
        assert(s.drop_first().last() == s.last()); assert(num(s.drop_first()) == x * 256 + s.last() as int);
        assert(num(s) == a * (256 * q) + num(s.drop_first())); assert(pow((s.len() - 1) as nat) == 256 * q);
    }
}
pub proof fn num_bound(s: Seq<u8>) ensures 0 <= num(s) < pow(s.len()) decreases s.len() { if s.len() > 0 { num_bound(s.drop_last()); } }
// keys of one length are ordered as the numbers they spell
pub proof fn num_order(a: Seq<u8>, b: Seq<u8>) requires a.len() == b.len() ensures klt(a, b) == (num(a) < num(b)), (a == b) == (num(a) == num(b)) decreases a.len()
{
    if a.len() > 0 {
        num_front(a); num_front(b);
        let (x, y) = (a.drop_first(), b.drop_first());
        num_order(x, y); num_bound(x); num_bound(y);
        let q = pow((a.len() - 1) as nat); let (i, j) = (a[0] as int, b[0] as int);
        if i < j { assert(i * q + q <= j * q) by (nonlinear_arith) requires i < j, q >= 0; }
        else if j < i { assert(j * q + q <= i * q) by (nonlinear_arith) requires j < i, q >= 0; }
        else { assert(a[0] == b[0]); if x == y { assert(a =~= seq![a[0]] + x); assert(b =~= seq![b[0]] + y); } }
    } else { assert(a =~= b); }
}
// what an item picks among positions, with eight-byte ends
pub open spec fn wide(k: Seq<u8>, w: int) -> bool { k.len() == w }
pub open spec fn ends(i: QueryItem, w: int) -> bool {
    match i {
        QueryItem::Key(k) => wide(k@, w), QueryItem::Range(r) => wide(r.start@, w) && wide(r.end@, w), QueryItem::RangeInclusive(r) => wide(r.s@, w) && wide(r.e@, w), QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => wide(r.start@, w), QueryItem::RangeTo(r) => wide(r.end@, w), QueryItem::RangeToInclusive(r) => wide(r.end@, w), QueryItem::RangeAfter(r) => wide(r.start@, w),
        QueryItem::RangeAfterTo(r) => wide(r.start@, w) && wide(r.end@, w), QueryItem::RangeAfterToInclusive(r) => wide(r.s@, w) && wide(r.e@, w),
    }
}
pub open spec fn ends8(i: QueryItem) -> bool { ends(i, 8) }
pub open spec fn selp(i: QueryItem, p: int) -> bool {
    match i {
        QueryItem::Key(k) => p == num(k@), QueryItem::Range(r) => num(r.start@) <= p < num(r.end@), QueryItem::RangeInclusive(r) => num(r.s@) <= p <= num(r.e@), QueryItem::RangeFull(_) => true,
        QueryItem::RangeFrom(r) => num(r.start@) <= p, QueryItem::RangeTo(r) => p < num(r.end@), QueryItem::RangeToInclusive(r) => p <= num(r.end@), QueryItem::RangeAfter(r) => num(r.start@) < p,
        QueryItem::RangeAfterTo(r) => num(r.start@) < p < num(r.end@), QueryItem::RangeAfterToInclusive(r) => num(r.s@) < p <= num(r.e@),
    }
}
pub proof fn lemma_selp(i: QueryItem, k: Seq<u8>) requires ends(i, k.len() as int) ensures sel(i, k) == selp(i, num(k))
{
    match i {
        QueryItem::Key(x) => { num_order(k, x@); } QueryItem::Range(r) => { num_order(r.start@, k); num_order(k, r.end@); } QueryItem::RangeInclusive(r) => { num_order(r.s@, k); num_order(k, r.e@); } QueryItem::RangeFull(_) => {}
        QueryItem::RangeFrom(r) => { num_order(r.start@, k); } QueryItem::RangeTo(r) => { num_order(k, r.end@); } QueryItem::RangeToInclusive(r) => { num_order(k, r.end@); } QueryItem::RangeAfter(r) => { num_order(r.start@, k); }
        QueryItem::RangeAfterTo(r) => { num_order(r.start@, k); num_order(k, r.end@); } QueryItem::RangeAfterToInclusive(r) => { num_order(r.s@, k); num_order(k, r.e@); }
    }
}
// the positions the first n items pick
pub open spec fn upto(items: Seq<QueryItem>, n: int, p: int) -> bool { exists|m: int| 0 <= m < n && selp(#[trigger] items[m], p) }
pub proof fn lemma_picked(items: Seq<QueryItem>, k: Seq<u8>) requires forall|m: int| 0 <= m < items.len() ==> ends(#[trigger] items[m], k.len() as int) ensures selected(items, k) == upto(items, items.len() as int, num(k))
{
    if selected(items, k) { let m = choose|m: int| 0 <= m < items.len() && sel(#[trigger] items[m], k); lemma_selp(items[m], k); }
    if upto(items, items.len() as int, num(k)) { let m = choose|m: int| 0 <= m < items.len() && selp(#[trigger] items[m], num(k)); lemma_selp(items[m], k); }
}
//@ rules
Error::$v($x..) ==> err()
//@ end
//@ macro grovedb/src/operations/proof/verify.rs check_cap
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::expand_query_to_u64_positions > be_u64
//@ ret r
//@ rule key.try_into().map_err($x..)? ==> arr8(key)?
//@ rule u64::from_be_bytes($x..) ==> be_read($x)
//@ spec
    ensures r is Ok == (key@.len() == 8), r is Ok ==> r->Ok_0 == num(key@)
//@ end
pub open spec fn all8(items: Seq<QueryItem>, n: int) -> bool { forall|m: int| 0 <= m < n ==> ends8(#[trigger] items[m]) }
// the positions below `count` that the first n items pick, or that lie in [lo, hi)
pub open spec fn grown(positions: Set<u64>, items: Seq<QueryItem>, n: int, count: u64, lo: int, hi: int) -> bool {
    forall|p: u64| #[trigger] positions.contains(p) == (p < count && (upto(items, n, p as int) || lo <= p < hi))
}
pub proof fn upto_step(items: Seq<QueryItem>, n: int, p: int) requires 0 <= n < items.len() ensures upto(items, n + 1, p) == (upto(items, n, p) || selp(items[n], p))
{
    if upto(items, n, p) { let m = choose|m: int| 0 <= m < n && selp(#[trigger] items[m], p); assert(selp(items[m], p)); }
    if selp(items[n], p) { assert(0 <= n < n + 1); }
}
pub proof fn lemma_grow(positions: Set<u64>, items: Seq<QueryItem>, n: int, count: u64, lo: int, hi: int)
    requires grown(positions, items, n, count, lo, hi), 0 <= n < items.len(), forall|p: int| 0 <= p < count ==> #[trigger] selp(items[n], p) == (lo <= p < hi)
    ensures grown(positions, items, n + 1, count, 0, 0)
{
    assert forall|p: u64| #[trigger] positions.contains(p) == (p < count && upto(items, n + 1, p as int)) by { upto_step(items, n, p as int); if p < count { assert(selp(items[n], p as int) == (lo <= p < hi)); } }
}
pub proof fn lemma_put(before: Set<u64>, items: Seq<QueryItem>, n: int, count: u64, lo: int, hi: u64)
    requires grown(before, items, n, count, lo, hi as int), lo <= hi < count
    ensures grown(before.insert(hi), items, n, count, lo, hi + 1)
{}
pub fn sat1(x: u64) -> (r: u64) ensures r == if x == u64::MAX { x as int } else { x + 1 } { if x == u64::MAX { x } else { x + 1 } }
pub fn min64(a: u64, b: u64) -> (r: u64) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::expand_query_to_u64_positions
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ sig BTreeSet<u64> ==> PosSet
//@ sig grovedb_merk::proofs::query::QueryItem ==> QueryItem
//@ rulefirst use grovedb_merk::proofs::query::QueryItem; ==>
//@ rulefirst fn be_u64($x..) -> Result<u64, Error> { $b.. } ==>
//@ rulefirst macro_rules! check_cap { $b.. } ==>
//@ rulefirst BTreeSet::new() ==> PosSet::new()
//@ rulefirst for item in items { $b.. } Ok(positions) ==> let mut k: usize = 0; while k < items.len() invariant k <= items@.len(), all8(items@, k as int), grown(positions@, items@, k as int, count, 0, 0) decreases items@.len() - k { let item = &items[k]; let ghost before = positions@; let ghost mut lo: int = 0; let ghost mut hi: int = 0; $b proof { lemma_grow(positions@, items@, k as int, count, lo, hi); } k = k + 1; } Ok(positions)
//@ rule1 positions.insert(idx); } } ==> proof { lemma_put(positions@, items@, k as int, count, idx as int, idx); lo = idx as int; hi = idx + 1; } positions.insert(idx); } }
//@ rulefirst positions.insert(idx); check_cap ==> proof { lemma_put(positions@, items@, k as int, count, lo, idx); } positions.insert(idx); check_cap
//@ rulefirst for idx in $s.. ..= e { $b.. } ==> { let mut idx: u64 = $s; let mut more = idx <= e; proof { lo = idx as int; hi = e + 1; } while more invariant lo <= idx, more ==> idx <= e, grown(positions@, items@, k as int, count, lo, if more { idx as int } else { hi }) decreases e - idx + if more { 1int } else { 0 } { $b if idx < e { idx = idx + 1; } else { more = false; } } }
//@ rulefirst for idx in $s.. .. $e { $b.. } ==> { let mut idx: u64 = $s; proof { lo = idx as int; hi = if $e >= idx { $e as int } else { lo }; } while idx < $e invariant lo <= idx, idx <= hi, grown(positions@, items@, k as int, count, lo, idx as int) decreases $e - idx { $b idx = idx + 1; } }
//@ rule $x.saturating_add(1) ==> sat1($x)
//@ rule be_u64($a..)?.min($m) ==> min64(be_u64($a)?, $m)
//@ spec
    ensures r is Ok ==> asked(r->Ok_0@, items@, count)
//@ end
// ---- the verification of one layer and everything below it -------------------------------
pub proof fn more_trans(a: Seq<Hit>, b: Seq<Hit>, c: Seq<Hit>) requires more(a, b), more(b, c) ensures more(a, c)
{ assert forall|i: int| 0 <= i < a.len() implies c[i] == a[i] by { assert(b.subrange(0, a.len() as int)[i] == a[i]); assert(c.subrange(0, b.len() as int)[i] == b[i]); } assert(c.subrange(0, a.len() as int) =~= a); }
pub proof fn more_push(a: Seq<Hit>, h: Hit) ensures more(a, a.push(h)) { assert(a.push(h).subrange(0, a.len() as int) =~= a); }
// the hits from the n-th on are true
pub open spec fn sound(root: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int) -> bool { forall|i: int| n <= i < hits.len() ==> truth(root, q, at, #[trigger] hits[i]) }
pub open spec fn row_true(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue) -> bool { honest(root) ==> chosen(q, at, o.key@) && in_tree(root, o, PROOF_VERSION_LATEST) }
// a row of the merk answer is dealt with
pub open spec fn settled(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, hits: Seq<Hit>, empties: bool, n: nat) -> bool {
    honest(root) ==> forall|vh: H| #[trigger] ent(root, o.key@, vh) ==> answer_of(q, at, o.key@, vh, hits, empties, n)
}
pub open spec fn answer_of(q: PathQuery, at: Path, k: Seq<u8>, vh: H, hits: Seq<Hit>, empties: bool, n: nat) -> bool {
    (exists|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, hits, empties))
    || (exists|v: Seq<u8>, low: H| #[trigger] opened(q, at, k, vh, v, low) && n > 0 && if beside(elem(v)->0) { filled(elem(v)->0, low, q, at.push(k), hits) } else { covers(low, q, at.push(k), hits, empties, (n - 1) as nat) })
}
pub proof fn settled_more(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, a: Seq<Hit>, b: Seq<Hit>, empties: bool, n: nat) requires settled(root, q, at, o, a, empties, n), more(a, b) ensures settled(root, q, at, o, b, empties, n)
{
    if honest(root) {
        assert forall|vh: H| #[trigger] ent(root, o.key@, vh) implies answer_of(q, at, o.key@, vh, b, empties, n) by {
            let k = o.key@; assert(answer_of(q, at, k, vh, a, empties, n));
            if exists|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, a, empties) {
                let v = choose|v: Seq<u8>| #[trigger] answered(q, at, k, vh, v, a, empties);
                if told(a, at, k, v) { told_more(a, b, at, k, v); }
                assert(answered(q, at, k, vh, v, b, empties));
            } else {
                let (v, low) = choose|v: Seq<u8>, low: H| #[trigger] opened(q, at, k, vh, v, low) && n > 0 && if beside(elem(v)->0) { filled(elem(v)->0, low, q, at.push(k), a) } else { covers(low, q, at.push(k), a, empties, (n - 1) as nat) };
                if beside(elem(v)->0) { filled_more(elem(v)->0, low, q, at.push(k), a, b); } else { covers_more(low, q, at.push(k), a, b, empties, (n - 1) as nat); }
                assert(opened(q, at, k, vh, v, low));
            }
        }
    }
}
// a row reported as it is
pub open spec fn hit_of(h: Hit, at: Path, o: ProvedKeyOptionalValue) -> bool { dv(h.path@) == at && h.key == o.key && h.value == o.value && h.proof == o.proof }
pub proof fn lemma_hit(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, h: Hit)
    requires hit_of(h, at, o), row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, ekind(elem(o.value->0@)->0) != 1,
        rooted(elem(o.value->0@)->0) ==> o.child_hash_verified || exists|c: H| o.proof == #[trigger] comb(hv(o.value->0@), c),
        tree(elem(o.value->0@)->0) && !rooted(elem(o.value->0@)->0) && !beside(elem(o.value->0@)->0) ==> o.proof == comb(hv(o.value->0@), zero()),
    ensures truth(root, q, at, h)
{
    assert(dv(h.path@).subrange(0, at.len() as int) =~= at);
    let v = o.value->0@; let e = elem(v)->0;
    if honest(root) {
        let vh = choose|vh: H| #[trigger] ent(root, o.key@, vh) && vouched(o, vh, PROOF_VERSION_LATEST);
        if typed(v) { first_byte(v); }
        assert(fact(vh, v, h.proof, e));
        assert(ent(root, h.key@, vh));
    }
}
// a hit found below a row
pub proof fn lemma_below(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, low: H, h: Hit)
    requires row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, tree(elem(o.value->0@)->0), o.proof == comb(hv(o.value->0@), low),
        if beside(elem(o.value->0@)->0) { cell(elem(o.value->0@)->0, low, h) && chosen(q, at.push(o.key@), h.key@) && dv(h.path@) == at.push(o.key@) } else { truth(low, q, at.push(o.key@), h) },
    ensures truth(root, q, at, h)
{
    let k = o.key@; let v = o.value->0@; let p = dv(h.path@); let up = at.push(k);
    assert(up.len() == at.len() + 1); assert(along(up, p)) by { if beside(elem(v)->0) { assert(p.subrange(0, up.len() as int) =~= up); } }
    assert(p.subrange(0, at.len() as int) =~= at) by { assert forall|i: int| 0 <= i < at.len() implies p[i] == at[i] by { assert(p.subrange(0, up.len() as int)[i] == up[i]); } }
    assert(p[at.len() as int] == k) by { assert(p.subrange(0, up.len() as int)[at.len() as int] == up[at.len() as int]); }
    if honest(root) {
        let vh = choose|vh: H| #[trigger] ent(root, k, vh) && vouched(o, vh, PROOF_VERSION_LATEST);
        assert(bind(vh, v, low));
        assert(holds_tree(root, k, v, low));
    }
}
pub proof fn lemma_settled_hit(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, hits: Seq<Hit>, i: int, empties: bool, n: nat)
    requires 0 <= i < hits.len(), hit_of(hits[i], at, o), o.value is Some ensures settled(root, q, at, o, hits, empties, n)
{
    assert(told(hits, at, o.key@, o.value->0@));
    assert forall|vh: H| #[trigger] ent(root, o.key@, vh) implies answer_of(q, at, o.key@, vh, hits, empties, n) by { assert(answered(q, at, o.key@, vh, o.value->0@, hits, empties)); }
}
pub proof fn lemma_settled_empty(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, hits: Seq<Hit>, empties: bool, n: nat)
    requires row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, ({ let e = elem(o.value->0@)->0; tree(e) && !rooted(e) && !beside(e) && (below(lev(q, at)->0, o.key@) || (!empties && ekind(e) == 2)) }), o.proof == comb(hv(o.value->0@), zero())
    ensures settled(root, q, at, o, hits, empties, n)
{
    if honest(root) {
        let w = choose|w: H| #[trigger] ent(root, o.key@, w) && vouched(o, w, PROOF_VERSION_LATEST);
        assert forall|vh: H| #[trigger] ent(root, o.key@, vh) implies answer_of(q, at, o.key@, vh, hits, empties, n) by { one_entry(root, o.key@, vh, w); assert(answered(q, at, o.key@, vh, o.value->0@, hits, empties)); }
    }
}
pub proof fn lemma_settled_below(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, low: H, hits: Seq<Hit>, empties: bool, n: nat)
    requires row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, tree(elem(o.value->0@)->0), o.proof == comb(hv(o.value->0@), low), lev(q, at.push(o.key@)) is Some, n > 0,
        if beside(elem(o.value->0@)->0) { filled(elem(o.value->0@)->0, low, q, at.push(o.key@), hits) } else { covers(low, q, at.push(o.key@), hits, empties, (n - 1) as nat) },
    ensures settled(root, q, at, o, hits, empties, n)
{
    if honest(root) {
        let w = choose|w: H| #[trigger] ent(root, o.key@, w) && vouched(o, w, PROOF_VERSION_LATEST);
        assert forall|vh: H| #[trigger] ent(root, o.key@, vh) implies answer_of(q, at, o.key@, vh, hits, empties, n) by { one_entry(root, o.key@, vh, w); assert(bind(vh, o.value->0@, low)); assert(opened(q, at, o.key@, vh, o.value->0@, low)); }
    }
}
pub open spec fn all_settled(root: H, q: PathQuery, at: Path, rows: Seq<ProvedKeyOptionalValue>, m: int, hits: Seq<Hit>, empties: bool, n: nat) -> bool { forall|r: int| 0 <= r < m ==> settled(root, q, at, #[trigger] rows[r], hits, empties, n) }
pub proof fn all_settled_more(root: H, q: PathQuery, at: Path, rows: Seq<ProvedKeyOptionalValue>, m: int, a: Seq<Hit>, b: Seq<Hit>, empties: bool, n: nat)
    requires all_settled(root, q, at, rows, m, a, empties, n), more(a, b), m <= rows.len() ensures all_settled(root, q, at, rows, m, b, empties, n)
{ assert forall|r: int| 0 <= r < m implies settled(root, q, at, #[trigger] rows[r], b, empties, n) by { settled_more(root, q, at, rows[r], a, b, empties, n); } }
pub proof fn lemma_covers(root: H, q: PathQuery, at: Path, res: ProofVerificationResult, ltr: bool, hits: Seq<Hit>, empties: bool, n: nat)
    requires lev(q, at) is Some, honest(root) ==> exact(root, lev(q, at)->0.items@, None, ltr, PROOF_VERSION_LATEST, res), all_settled(root, q, at, res.result_set@, res.result_set@.len() as int, hits, empties, n)
    ensures covers(root, q, at, hits, empties, n)
{
    if honest(root) {
        assert forall|k: Seq<u8>, vh: H| #[trigger] ent(root, k, vh) && chosen(q, at, k) implies answer_of(q, at, k, vh, hits, empties, n) by {
            let out = res.result_set@;
            assert(returned(out, k));
            let r = choose|r: int| 0 <= r < out.len() && (#[trigger] out[r]).key@ == k;
            assert(settled(root, q, at, out[r], hits, empties, n));
        }
        assert(forall|k: Seq<u8>, vh: H| #[trigger] ent(root, k, vh) && chosen(q, at, k) ==> answer_of(q, at, k, vh, hits, empties, n));
    }
}
// what a layer below a row says: hits and their truth, their order, and everything up to the limit
pub open spec fn in_turn(hits: Seq<Hit>, n: int, st: bool) -> bool { forall|i: int, j: int| n <= i < j < hits.len() ==> num((#[trigger] hits[i]).key@) < num((#[trigger] hits[j]).key@) + if st { 0int } else { 1 } }
// a root that stands for a log at all
pub open spec fn meant(e: Element, low: H) -> bool { match e { Element::BulkAppendTree(c, h, _) => state_of_log(low, h, c), Element::CommitmentTree(c, h, _) => exists|b: H, s: Seq<u8>| s.len() == 32 && low == #[trigger] ct_hash(s, b) && state_of_log(b, h, c), _ => true } }
pub open spec fn state_of_log(root: H, height: u8, count: u64) -> bool { exists|l: Log| #[trigger] sroot(height, l) == root && l.len() == count && okval(l) }
pub open spec fn after_all(hits: Seq<Hit>, n: int, k: Seq<u8>) -> bool { forall|i: int| n <= i < hits.len() ==> num((#[trigger] hits[i]).key@) < num(k) }
pub open spec fn cell_hit(e: Element, low: H, at: Path, hits: Seq<Hit>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < hits.len() && dv((#[trigger] hits[i]).path@) == at && hits[i].key@ == k && cell(e, low, hits[i]) }
pub open spec fn filled_to(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int, lim: Option<u16>) -> bool {
    forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) ==> cell_hit(e, low, at, hits, k) || (lim == Some(0u16) && after_all(hits, n, k))
}
pub open spec fn low_ok(e: Element, low: H, q: PathQuery, at: Path, before: Seq<Hit>, after: Seq<Hit>, lim0: Option<u16>, lim: Option<u16>) -> bool {
    more(before, after) && beside(e) && low_hits(e, low, q, at, after, before.len() as int) && in_turn(after, before.len() as int, meant(e, low))
    && filled_to(e, low, q, at, after, before.len() as int, lim) && (lim0 is None ==> lim is None && filled(e, low, q, at, after))
}
pub proof fn lemma_filled(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int, lim: Option<u16>) requires filled_to(e, low, q, at, hits, n, lim), lim is None ensures filled(e, low, q, at, hits)
{
    assert forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) implies exists|i: int| 0 <= i < hits.len() && dv((#[trigger] hits[i]).path@) == at && hits[i].key@ == k && cell(e, low, hits[i]) by { assert(cell_hit(e, low, at, hits, k)); }
}
// the loop's step for a row reported as it is
pub proof fn step_hit(root: H, q: PathQuery, at: Path, rows: Seq<ProvedKeyOptionalValue>, r: int, first: Seq<Hit>, a: Seq<Hit>, b: Seq<Hit>, empties: bool, n: nat, all: bool)
    requires 0 <= r < rows.len(), b.len() == a.len() + 1, b.drop_last() =~= a, hit_of(b.last(), at, rows[r]), more(first, a), sound(root, q, at, a, first.len() as int), row_true(root, q, at, rows[r]), rows[r].value is Some, elem(rows[r].value->0@) is Some, ekind(elem(rows[r].value->0@)->0) != 1,
        rooted(elem(rows[r].value->0@)->0) ==> rows[r].child_hash_verified || exists|c: H| rows[r].proof == #[trigger] comb(hv(rows[r].value->0@), c),
        tree(elem(rows[r].value->0@)->0) && !rooted(elem(rows[r].value->0@)->0) && !beside(elem(rows[r].value->0@)->0) ==> rows[r].proof == comb(hv(rows[r].value->0@), zero()),
        all ==> all_settled(root, q, at, rows, r, a, empties, n)
    ensures more(first, b), sound(root, q, at, b, first.len() as int), all ==> all_settled(root, q, at, rows, r + 1, b, empties, n)
{
    assert(b =~= a.push(b.last())); more_push(a, b.last()); more_trans(first, a, b);
    lemma_hit(root, q, at, rows[r], b.last());
    assert forall|i: int| first.len() <= i < b.len() implies truth(root, q, at, #[trigger] b[i]) by { if i < a.len() { assert(b[i] == a[i]); } }
    if all { all_settled_more(root, q, at, rows, r, a, b, empties, n); lemma_settled_hit(root, q, at, rows[r], b, a.len() as int, empties, n); }
}
// the loop's step for a row with a layer below it; the row itself may be reported first
pub proof fn step_below(root: H, q: PathQuery, at: Path, rows: Seq<ProvedKeyOptionalValue>, r: int, first: Seq<Hit>, a: Seq<Hit>, mid: Seq<Hit>, b: Seq<Hit>, low: H, empties: bool, n: nat, all: bool)
    requires 0 <= r < rows.len(), mid == a || (mid.len() == a.len() + 1 && mid.drop_last() =~= a && hit_of(mid.last(), at, rows[r])), more(mid, b), more(first, a), sound(root, q, at, a, first.len() as int),
        row_true(root, q, at, rows[r]), rows[r].value is Some, elem(rows[r].value->0@) is Some, tree(elem(rows[r].value->0@)->0), rooted(elem(rows[r].value->0@)->0) || beside(elem(rows[r].value->0@)->0),
        rows[r].proof == comb(hv(rows[r].value->0@), low), lev(q, at.push(rows[r].key@)) is Some, n > 0,
        if beside(elem(rows[r].value->0@)->0) { low_hits(elem(rows[r].value->0@)->0, low, q, at.push(rows[r].key@), b, mid.len() as int) } else { sound(low, q, at.push(rows[r].key@), b, mid.len() as int) },
        all ==> all_settled(root, q, at, rows, r, a, empties, n) && if beside(elem(rows[r].value->0@)->0) { filled(elem(rows[r].value->0@)->0, low, q, at.push(rows[r].key@), b) } else { covers(low, q, at.push(rows[r].key@), b, empties, (n - 1) as nat) }
    ensures more(first, b), sound(root, q, at, b, first.len() as int), all ==> all_settled(root, q, at, rows, r + 1, b, empties, n)
{
    let o = rows[r]; let e = elem(o.value->0@)->0;
    if mid != a { assert(mid =~= a.push(mid.last())); more_push(a, mid.last()); lemma_hit(root, q, at, o, mid.last()); } else { assert(a.subrange(0, a.len() as int) =~= a); }
    assert(more(a, mid)); more_trans(a, mid, b); more_trans(first, a, b);
    assert forall|i: int| first.len() <= i < b.len() implies truth(root, q, at, #[trigger] b[i]) by {
        if i < mid.len() { assert(b.subrange(0, mid.len() as int)[i] == mid[i]); if i < a.len() { assert(mid[i] == a[i]); } else { assert(mid[i] == mid.last()); } }
        else { lemma_below(root, q, at, o, low, b[i]); }
    }
    if all { all_settled_more(root, q, at, rows, r, a, b, empties, n); lemma_settled_below(root, q, at, o, low, b, empties, n); }
}
// the parent tree after a row with `low` below it
pub open spec fn set_by(q: PathQuery, at: Path, v: Seq<u8>, t: Option<TreeFeatureType>) -> Option<TreeFeatureType> { if at.len() + 1 == q.path@.len() { feat(elem(v)->0) } else { t } }
pub proof fn step_parent(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, low: H, t0: Option<TreeFeatureType>, t1: Option<TreeFeatureType>, t2: Option<TreeFeatureType>, t3: Option<TreeFeatureType>)
    requires row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, tree(elem(o.value->0@)->0), o.proof == comb(hv(o.value->0@), low), parent_ok(root, q, at, t0, t1),
        t2 == set_by(q, at, o.value->0@, t1), t3 == t2 || (at.len() + 1 < q.path@.len() && parent_ok(low, q, at.push(o.key@), t2, t3))
    ensures parent_ok(root, q, at, t0, t3)
{
    let k = o.key@; let v = o.value->0@;
    if honest(root) && t3 is Some && t3 != t0 {
        let vh = choose|vh: H| #[trigger] ent(root, k, vh) && vouched(o, vh, PROOF_VERSION_LATEST);
        assert(bind(vh, v, low)); assert(holds_tree(root, k, v, low));
        if t3 == t2 { if at.len() + 1 == q.path@.len() { assert(is_parent(root, q, at, k, v, low, t3->0)); } }
        else { assert(parent(low, q, at.push(k), t3->0)); }
    }
}
// and after a row with nothing below it
pub proof fn step_plain(root: H, q: PathQuery, at: Path, o: ProvedKeyOptionalValue, t0: Option<TreeFeatureType>, t1: Option<TreeFeatureType>, t2: Option<TreeFeatureType>)
    requires follows(q), lev(q, at) is Some, row_true(root, q, at, o), o.value is Some, elem(o.value->0@) is Some, parent_ok(root, q, at, t0, t1), t2 == set_by(q, at, o.value->0@, t1),
        ({ let e = elem(o.value->0@)->0; item(e) || (rooted(e) || beside(e)) && !below(lev(q, at)->0, o.key@) || tree(e) && o.proof == comb(hv(o.value->0@), zero()) })
    ensures parent_ok(root, q, at, t0, t2)
{
    let e = elem(o.value->0@)->0;
    if at.len() + 1 == q.path@.len() && honest(root) {
        if item(e) {} else { if rooted(e) || beside(e) { assert(chosen(q, at, o.key@)); assert(below(lev(q, at)->0, o.key@)); } step_parent(root, q, at, o, zero(), t0, t1, t2, t2); }
    }
}
pub open spec fn low_hits(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int) -> bool { forall|i: int| n <= i < hits.len() ==> cell(e, low, #[trigger] hits[i]) && dv(hits[i].path@) == at && chosen(q, at, hits[i].key@) }
// numbered values as they come out of a proof, taken one after the other
pub open spec fn pairs(v: Seq<(u64, Vec<u8>)>) -> Seq<(int, Seq<u8>)> { v.map_values(|x: (u64, Vec<u8>)| (x.0 as int, x.1@)) }
pub open spec fn pairs2(v: Seq<(u16, Vec<u8>)>) -> Seq<(int, Seq<u8>)> { v.map_values(|x: (u16, Vec<u8>)| (x.0 as int, x.1@)) }
pub open spec fn rising(src: Seq<(int, Seq<u8>)>, st: bool) -> bool { forall|i: int, j: int| 0 <= i < j < src.len() ==> (#[trigger] src[i]).0 < (#[trigger] src[j]).0 + if st { 0int } else { 1 } }
pub open spec fn from(h: Hit, at: Path, w: int, x: (int, Seq<u8>)) -> bool { dv(h.path@) == at && h.key@.len() == w && num(h.key@) == x.0 && h.value is Some && h.value->0@ == item_bytes(x.1) }
pub open spec fn sourced(h: Hit, at: Path, w: int, src: Seq<(int, Seq<u8>)>, m: int) -> bool { exists|j: int| 0 <= j < m && from(h, at, w, #[trigger] src[j]) }
pub open spec fn given(hits: Seq<Hit>, n: int, at: Path, w: int, x: (int, Seq<u8>)) -> bool { exists|i: int| n <= i < hits.len() && from(#[trigger] hits[i], at, w, x) }
pub open spec fn wants(items: Seq<QueryItem>, w: int, p: int) -> bool { exists|k: Seq<u8>| k.len() == w && num(k) == p && #[trigger] selected(items, k) }
pub open spec fn all_sourced(hits: Seq<Hit>, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, m: int, items: Seq<QueryItem>) -> bool { forall|i: int| n <= i < hits.len() ==> sourced(#[trigger] hits[i], at, w, src, m) && selected(items, hits[i].key@) }
pub open spec fn all_given(hits: Seq<Hit>, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, m: int, items: Seq<QueryItem>) -> bool { forall|j: int| 0 <= j < m && wants(items, w, src[j].0) ==> given(hits, n, at, w, #[trigger] src[j]) }
pub open spec fn taken(hits: Seq<Hit>, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, m: int, items: Seq<QueryItem>, st: bool) -> bool {
    n <= hits.len() && 0 <= m <= src.len() && all_sourced(hits, n, at, w, src, m, items) && all_given(hits, n, at, w, src, m, items) && in_turn(hits, n, st)
}
pub proof fn lemma_start(first: Seq<Hit>, at: Path, w: int, src: Seq<(int, Seq<u8>)>, items: Seq<QueryItem>, st: bool) ensures taken(first, first.len() as int, at, w, src, 0, items, st), more(first, first) { assert(first.subrange(0, first.len() as int) =~= first); }
pub proof fn take_sourced(a: Seq<Hit>, h: Hit, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, j: int, items: Seq<QueryItem>)
    requires all_sourced(a, n, at, w, src, j, items), 0 <= j < src.len(), from(h, at, w, src[j]), selected(items, h.key@), n <= a.len() ensures all_sourced(a.push(h), n, at, w, src, j + 1, items)
{
    let b = a.push(h);
    assert forall|i: int| n <= i < b.len() implies sourced(#[trigger] b[i], at, w, src, j + 1) && selected(items, b[i].key@) by {
        if i < a.len() { assert(b[i] == a[i]); assert(sourced(a[i], at, w, src, j)); let t = choose|t: int| 0 <= t < j && from(a[i], at, w, #[trigger] src[t]); assert(0 <= t < j + 1 && from(b[i], at, w, src[t])); }
        else { assert(b[i] == h); assert(0 <= j < j + 1 && from(b[i], at, w, src[j])); }
    }
}
pub proof fn take_given(a: Seq<Hit>, h: Hit, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, j: int, items: Seq<QueryItem>)
    requires all_given(a, n, at, w, src, j, items), 0 <= j < src.len(), from(h, at, w, src[j]), n <= a.len() ensures all_given(a.push(h), n, at, w, src, j + 1, items)
{
    let b = a.push(h);
    assert forall|t: int| 0 <= t < j + 1 && wants(items, w, src[t].0) implies given(b, n, at, w, #[trigger] src[t]) by {
        if t < j { assert(given(a, n, at, w, src[t])); let i = choose|i: int| n <= i < a.len() && from(#[trigger] a[i], at, w, src[t]); assert(b[i] == a[i]); assert(from(b[i], at, w, src[t])); }
        else { assert(b[a.len() as int] == h); assert(from(b[a.len() as int], at, w, src[t])); }
    }
}
pub proof fn take_order(a: Seq<Hit>, h: Hit, n: int, at: Path, w: int, src: Seq<(int, Seq<u8>)>, j: int, items: Seq<QueryItem>, st: bool)
    requires all_sourced(a, n, at, w, src, j, items), in_turn(a, n, st), rising(src, st), 0 <= j < src.len(), from(h, at, w, src[j]), n <= a.len() ensures in_turn(a.push(h), n, st)
{
    let b = a.push(h);
    assert forall|x: int, y: int| n <= x < y < b.len() implies num((#[trigger] b[x]).key@) < num((#[trigger] b[y]).key@) + if st { 0int } else { 1 } by {
        assert(b[x] == a[x]);
        if y < a.len() { assert(b[y] == a[y]); assert(num(a[x].key@) < num(a[y].key@) + if st { 0int } else { 1 }); }
        else { assert(b[y] == h); assert(sourced(a[x], at, w, src, j)); let t = choose|t: int| 0 <= t < j && from(a[x], at, w, #[trigger] src[t]); assert(src[t].0 < src[j].0 + if st { 0int } else { 1 }); }
    }
}
pub proof fn lemma_take(first: Seq<Hit>, a: Seq<Hit>, b: Seq<Hit>, at: Path, w: int, src: Seq<(int, Seq<u8>)>, j: int, items: Seq<QueryItem>, st: bool)
    requires taken(a, first.len() as int, at, w, src, j, items, st), more(first, a), rising(src, st), 0 <= j < src.len(), b.len() == a.len() + 1, b.drop_last() =~= a, from(b.last(), at, w, src[j]), selected(items, b.last().key@)
    ensures taken(b, first.len() as int, at, w, src, j + 1, items, st), more(first, b)
{
    hide(all_sourced); hide(all_given); hide(in_turn); hide(rising); hide(from); hide(selected);
    let n = first.len() as int; let h = b.last();
    assert(b =~= a.push(h)); assert(more(a, b)) by { more_push(a, h); } more_trans(first, a, b);
    take_sourced(a, h, n, at, w, src, j, items); take_given(a, h, n, at, w, src, j, items); take_order(a, h, n, at, w, src, j, items, st);
}
pub proof fn lemma_skip(first: Seq<Hit>, a: Seq<Hit>, at: Path, w: int, src: Seq<(int, Seq<u8>)>, j: int, items: Seq<QueryItem>, k: Seq<u8>, st: bool)
    requires taken(a, first.len() as int, at, w, src, j, items, st), 0 <= j < src.len(), k.len() == w, num(k) == src[j].0, !selected(items, k)
    ensures taken(a, first.len() as int, at, w, src, j + 1, items, st)
{
    let n = first.len() as int;
    if wants(items, w, src[j].0) { let y = choose|y: Seq<u8>| y.len() == w && num(y) == src[j].0 && #[trigger] selected(items, y); num_order(y, k); }
    assert forall|i: int| n <= i < a.len() implies sourced(#[trigger] a[i], at, w, src, j + 1) && selected(items, a[i].key@) by { assert(sourced(a[i], at, w, src, j)); let t = choose|t: int| 0 <= t < j && from(a[i], at, w, #[trigger] src[t]); assert(0 <= t < j + 1 && from(a[i], at, w, src[t])); }
    assert(all_sourced(a, n, at, w, src, j + 1, items)); assert(all_given(a, n, at, w, src, j + 1, items));
}
pub open spec fn numbered(src: Seq<(int, Seq<u8>)>, p: int) -> bool { exists|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0 == p }
pub open spec fn kept(e: Element, low: H, src: Seq<(int, Seq<u8>)>) -> bool { forall|j: int| 0 <= j < src.len() ==> has_at(e, low, (#[trigger] src[j]).0, src[j].1) }
pub open spec fn complete(e: Element, src: Seq<(int, Seq<u8>)>, items: Seq<QueryItem>) -> bool { forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] selected(items, k) ==> numbered(src, num(k)) }
pub open spec fn low_pre(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int, src: Seq<(int, Seq<u8>)>, m: int) -> bool {
    let items = lev(q, at)->0.items@; let w = width(e);
    beside(e) && lev(q, at) is Some && n <= hits.len() && 0 <= m <= src.len() && all_sourced(hits, n, at, w, src, m, items) && all_given(hits, n, at, w, src, m, items) && kept(e, low, src)
}
pub proof fn low_cell(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int, src: Seq<(int, Seq<u8>)>, m: int, i: int)
    requires low_pre(e, low, q, at, hits, n, src, m), n <= i < hits.len(), ensures cell(e, low, hits[i]), dv(hits[i].path@) == at, chosen(q, at, hits[i].key@)
{
    hide(all_given); hide(selected);
    let w = width(e);
    assert(sourced(hits[i], at, w, src, m)); let j = choose|j: int| 0 <= j < m && from(hits[i], at, w, #[trigger] src[j]);
    assert(has_at(e, low, src[j].0, src[j].1));
}
pub proof fn low_one(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, n: int, src: Seq<(int, Seq<u8>)>, m: int, t: int, k: Seq<u8>)
    requires low_pre(e, low, q, at, hits, n, src, m), 0 <= n, k.len() == width(e), chosen(q, at, k), 0 <= t < m, src[t].0 == num(k) ensures cell_hit(e, low, at, hits, k)
{
    hide(all_sourced); hide(kept); hide(selected); hide(cell); hide(chosen);
    let items = lev(q, at)->0.items@; let w = width(e);
    assert(wants(items, w, src[t].0)) by { reveal(chosen); }
    assert(given(hits, n, at, w, src[t]));
    let i = choose|i: int| n <= i < hits.len() && from(#[trigger] hits[i], at, w, src[t]);
    num_order(hits[i].key@, k); assert(low_pre(e, low, q, at, hits, n, src, m)); low_cell(e, low, q, at, hits, n, src, m, i);
    assert(hits[i].key@ == k);
}
pub proof fn low_rest(at: Path, w: int, hits: Seq<Hit>, n: int, src: Seq<(int, Seq<u8>)>, m: int, items: Seq<QueryItem>, j: int, k: Seq<u8>, st: bool)
    requires all_sourced(hits, n, at, w, src, m, items), m <= src.len(), rising(src, st), 0 <= j < src.len(), src[j].0 == num(k), forall|t: int| 0 <= t < m ==> (#[trigger] src[t]).0 != num(k) ensures after_all(hits, n, k)
{
    hide(selected);
    assert forall|i: int| n <= i < hits.len() implies num((#[trigger] hits[i]).key@) < num(k) by {
        assert(sourced(hits[i], at, w, src, m)); let t = choose|t: int| 0 <= t < m && from(hits[i], at, w, #[trigger] src[t]);
        assert(src[t].0 != num(k)); if t > j { assert(src[j].0 != num(k)); } assert(t < j); assert(src[t].0 < src[j].0 + if st { 0int } else { 1 });
    }
}
pub proof fn lemma_low(e: Element, low: H, q: PathQuery, at: Path, first: Seq<Hit>, hits: Seq<Hit>, src: Seq<(int, Seq<u8>)>, m: int, lim0: Option<u16>, lim: Option<u16>, st: bool)
    requires beside(e), lev(q, at) is Some, more(first, hits), rising(src, st), meant(e, low) ==> st, taken(hits, first.len() as int, at, width(e), src, m, lev(q, at)->0.items@, st), kept(e, low, src), complete(e, src, lev(q, at)->0.items@),
        m == src.len() || lim == Some(0u16), lim0 is None ==> lim is None
    ensures low_ok(e, low, q, at, first, hits, lim0, lim)
{
    hide(all_sourced); hide(all_given); hide(kept); hide(rising); hide(cell); hide(meant); hide(after_all); hide(cell_hit); hide(filled); hide(selected); hide(in_turn); hide(more);
    let n = first.len() as int; let w = width(e); let items = lev(q, at)->0.items@;
    assert(low_pre(e, low, q, at, hits, n, src, m));
    assert(low_hits(e, low, q, at, hits, n)) by {
        assert forall|i: int| n <= i < hits.len() implies cell(e, low, #[trigger] hits[i]) && dv(hits[i].path@) == at && chosen(q, at, hits[i].key@) by { low_cell(e, low, q, at, hits, n, src, m, i); }
    }
    assert(filled_to(e, low, q, at, hits, n, lim)) by {
        assert forall|k: Seq<u8>| k.len() == w && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) implies cell_hit(e, low, at, hits, k) || (lim == Some(0u16) && after_all(hits, n, k)) by {
            assert(selected(items, k)); assert(numbered(src, num(k)));
            let j = choose|j: int| 0 <= j < src.len() && (#[trigger] src[j]).0 == num(k);
            if exists|t: int| 0 <= t < m && (#[trigger] src[t]).0 == num(k) { let t = choose|t: int| 0 <= t < m && (#[trigger] src[t]).0 == num(k); low_one(e, low, q, at, hits, n, src, m, t, k); }
            else { low_rest(at, w, hits, n, src, m, items, j, k, st); }
        }
    }
    assert(in_turn(hits, n, meant(e, low))) by { reveal(in_turn); }
    if lim0 is None { lemma_filled(e, low, q, at, hits, n, lim); }
}
pub proof fn lemma_none(e: Element, low: H, q: PathQuery, at: Path, hits: Seq<Hit>, lim: Option<u16>) requires beside(e), size_of_tree(e) == 0 ensures low_ok(e, low, q, at, hits, hits, lim, lim)
{
    assert(hits.subrange(0, hits.len() as int) =~= hits);
    assert forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] chosen(q, at, k) implies cell_hit(e, low, at, hits, k) by { num_bound(k); }
    if lim is None { lemma_filled(e, low, q, at, hits, hits.len() as int, lim); }
}
// the queried positions below `count` are those among the values
pub open spec fn covered(exp: Set<u64>, got: Seq<(u64, Vec<u8>)>) -> bool { forall|p: u64| #[trigger] exp.contains(p) ==> nums64(got, p) }
pub open spec fn asked(exp: Set<u64>, items: Seq<QueryItem>, count: u64) -> bool { (count > 0 ==> all8(items, items.len() as int) && forall|p: u64| #[trigger] exp.contains(p) == (p < count && upto(items, items.len() as int, p as int))) && (count == 0 ==> exp =~= Set::<u64>::empty()) }
pub proof fn lemma_complete(e: Element, items: Seq<QueryItem>, exp: Set<u64>, got: Seq<(u64, Vec<u8>)>, count: u64)
    requires width(e) == 8, size_of_tree(e) == count, asked(exp, items, count), covered(exp, got) ensures complete(e, pairs(got), items)
{
    assert forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] selected(items, k) implies numbered(pairs(got), num(k)) by {
        num_bound(k); let p = num(k) as u64; lemma_picked(items, k); assert(exp.contains(p)); assert(nums64(got, p));
        let i = choose|i: int| 0 <= i < got.len() && (#[trigger] got[i]).0 == p; assert(pairs(got)[i].0 == num(k));
    }
}
pub proof fn lemma_covered(exp: Set<u64>, have: Set<u64>, got: Seq<(u64, Vec<u8>)>) requires exp.subset_of(have), forall|p: u64| #[trigger] have.contains(p) == nums64(got, p) ensures covered(exp, got) {}
pub proof fn lemma_kept(e: Element, low: H, raw: Seq<(u64, Vec<u8>)>, got: Seq<(u64, Vec<u8>)>) requires kept(e, low, pairs(raw)), forall|x: (u64, Vec<u8>)| #[trigger] got.contains(x) == raw.contains(x) ensures kept(e, low, pairs(got))
{ assert forall|j: int| 0 <= j < pairs(got).len() implies has_at(e, low, (#[trigger] pairs(got)[j]).0, pairs(got)[j].1) by { let i = same_src(raw, got, j); assert(pairs(raw)[i] == pairs(got)[j]); } }
pub proof fn lemma_asked(items: Seq<QueryItem>, exp: Set<u64>, got: Seq<(u64, Vec<u8>)>, count: u64, j: int, k: Seq<u8>)
    requires asked(exp, items, count), 0 <= j < got.len(), exp.contains(got[j].0), k.len() == 8, num(k) == got[j].0 ensures selected(items, k)
{ assert(count > 0); lemma_picked(items, k); }
// ---- proofs of trees of positions (contracts: units mmr_pos, bulk_query, dense) ------------------
#[verifier::external_body] pub fn clone_pair<T: Copy>(x: &(T, Vec<u8>)) -> (r: (T, Vec<u8>)) ensures r.0 == x.0, r.1@ == x.1@ { unimplemented!() }
pub open spec fn nums64(v: Seq<(u64, Vec<u8>)>, p: u64) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == p }
#[verifier::external_body] pub fn positions_of(v: &Vec<(u64, Vec<u8>)>) -> (r: PosSet) ensures forall|p: u64| #[trigger] r@.contains(p) == nums64(v@, p) { unimplemented!() }
// std's sort_by_key on the numbers: the same values, in order
pub open spec fn distinct64(v: Seq<(u64, Vec<u8>)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0 }
pub open spec fn distinct16(v: Seq<(u16, Vec<u8>)>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).0 != (#[trigger] v[j]).0 }
#[verifier::external_body] pub fn sort_pairs64(v: &mut Vec<(u64, Vec<u8>)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (u64, Vec<u8>)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), distinct64(old(v)@) ==> rising(pairs(final(v)@), true) { v.sort_by_key(|x| x.0) }
#[verifier::external_body] pub fn sort_pairs16(v: &mut Vec<(u16, Vec<u8>)>)
    ensures final(v)@.len() == old(v)@.len(), forall|x: (u16, Vec<u8>)| #[trigger] final(v)@.contains(x) == old(v)@.contains(x), distinct16(old(v)@) ==> rising(pairs2(final(v)@), true) { v.sort_by_key(|x| x.0) }
#[verifier::external_body] pub fn mmr_size_to_leaf_count(n: u64) -> (r: u64) ensures r == leafs(n), n == 0 ==> r == 0 { unimplemented!() }
#[verifier::external_body] pub struct MmrTreeProof { x: u8 }
impl MmrTreeProof {
    pub uninterp spec fn size(&self) -> u64;
    #[verifier::external_body] pub fn decode_from_slice(b: &[u8]) -> Result<MmrTreeProof, Error> { unimplemented!() }
    #[verifier::external_body] pub fn mmr_size(&self) -> (r: u64) ensures r == self.size() { unimplemented!() }
    #[verifier::external_body] pub fn leaves(&self) -> (r: &Vec<(u64, Vec<u8>)>) { unimplemented!() }
    #[verifier::external_body] pub fn verify_and_get_root(&self) -> (r: Result<(H, Vec<(u64, Vec<u8>)>), Error>)
        ensures r is Ok ==> distinct64(r->Ok_0.1@) && mmr_tells(self.size(), r->Ok_0.0, r->Ok_0.1@) { unimplemented!() }
}
pub open spec fn mmr_tells(size: u64, root: H, v: Seq<(u64, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> mmr_has(size, root, (#[trigger] v[i]).0 as int, v[i].1@) }
pub proof fn lemma_mmr_kept(e: Element, low: H, v: Seq<(u64, Vec<u8>)>) requires e is MmrTree, mmr_tells(e->MmrTree_0, low, v) ensures kept(e, low, pairs(v)) { assert forall|j: int| 0 <= j < pairs(v).len() implies has_at(e, low, (#[trigger] pairs(v)[j]).0, pairs(v)[j].1) by { assert(mmr_has(e->MmrTree_0, low, v[j].0 as int, v[j].1@)); } }
// the root of an empty mountain range
#[verifier::external_body] pub proof fn leafs_zero() ensures leafs(0) == 0 {}
pub proof fn same_src(a: Seq<(u64, Vec<u8>)>, b: Seq<(u64, Vec<u8>)>, j: int) -> (i: int) requires forall|x: (u64, Vec<u8>)| #[trigger] b.contains(x) == a.contains(x), 0 <= j < b.len() ensures 0 <= i < a.len(), a[i] == b[j]
{ assert(b.contains(b[j])); choose|i: int| 0 <= i < a.len() && a[i] == b[j] }
pub fn max64(a: u64, b: u64) -> (r: u64) ensures r == if a >= b { a } else { b } { if a >= b { a } else { b } }
pub fn be_of(b: &Vec<u8>) -> (r: u64) requires b@.len() == 8 ensures r == num(b@) { match arr8(b.as_slice()) { Ok(a) => be_read(a), Err(_) => 0 } }
// every position the first n items pick (except the last of all) is in [lo, hi)
pub open spec fn inside(items: Seq<QueryItem>, n: int, lo: u64, hi: u64) -> bool { forall|p: int| 0 <= p < u64::MAX && #[trigger] upto(items, n, p) ==> lo <= p < hi }
pub proof fn lemma_inside(items: Seq<QueryItem>, n: int, lo: u64, hi: u64, lo1: u64, hi1: u64)
    requires 0 <= n < items.len(), inside(items, n, lo, hi), lo1 <= lo, hi <= hi1, forall|p: int| 0 <= p < u64::MAX && #[trigger] selp(items[n], p) ==> lo1 <= p < hi1 ensures inside(items, n + 1, lo1, hi1)
{ assert forall|p: int| 0 <= p < u64::MAX && #[trigger] upto(items, n + 1, p) implies lo1 <= p < hi1 by { upto_step(items, n, p); } }
// QueryItem::contains (unit query_item)
#[verifier::external_body] pub fn item_contains(i: &QueryItem, k: &[u8]) -> (r: bool) ensures r == sel(*i, k@) { unimplemented!() }
pub fn any_item(items: &Vec<QueryItem>, k: &Vec<u8>) -> (r: bool) ensures r == selected(items@, k@)
{
    let mut i: usize = 0;
    while i < items.len() invariant i <= items@.len(), forall|m: int| 0 <= m < i ==> !sel(#[trigger] items@[m], k@) decreases items@.len() - i
    { if item_contains(&items[i], k.as_slice()) { assert(sel(items@[i as int], k@)); return true; } i = i + 1; }
    false
}
// a bulk tree's state root is tagged
pub open spec fn is_state(low: H) -> bool { exists|x: Seq<u8>| low == #[trigger] blake(bulk_tag() + x) }
pub open spec fn bulk_tells(count: u64, height: u8, root: H, v: Seq<(u64, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> bulk_has(count, height, root, (#[trigger] v[i]).0 as int, v[i].1@) }
pub open spec fn commit_tells(count: u64, height: u8, root: H, v: Seq<(u64, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> commit_has(count, height, root, (#[trigger] v[i]).0 as int, v[i].1@) }
pub open spec fn bulk_count(e: Element) -> u64 { match e { Element::BulkAppendTree(c, _, _) => c, Element::CommitmentTree(c, _, _) => c, _ => 0 } }
pub open spec fn bulk_height(e: Element) -> u8 { match e { Element::BulkAppendTree(_, h, _) => h, Element::CommitmentTree(_, h, _) => h, _ => 0 } }
// what the values of a bulk proof with this state root are the values of: the element itself, or a commitment tree over it
pub open spec fn stands(e: Element, low: H, e0: Element, root: H) -> bool { e == e0 && (e0 is BulkAppendTree || e0 is CommitmentTree) && (low == root || exists|s: Seq<u8>| s.len() == 32 && low == #[trigger] ct_hash(s, root)) }
pub proof fn lemma_stands_commit(e: Element, s: Seq<u8>, root: H) requires s.len() == 32 ensures forall|low: H| low == ct_hash(s, root) && (e is BulkAppendTree || e is CommitmentTree) ==> #[trigger] stands(e, low, e, root) {}
pub proof fn lemma_not_both(s: Seq<u8>, b: H, x: Seq<u8>) requires s.len() == 32 ensures ct_hash(s, b) != blake(bulk_tag() + x)
{ tags(); let u = ct_tag() + s + b@; let v = bulk_tag() + x; if blake(u) == blake(v) { blake_inj(u, v); assert(u[0] == 99); assert(v[0] == 98); } }
pub proof fn lemma_same_state(s: Seq<u8>, b: H, s1: Seq<u8>, b1: H) requires s.len() == 32, s1.len() == 32, ct_hash(s, b) == ct_hash(s1, b1) ensures b == b1
{ tags(); let u = ct_tag() + s + b@; let v = ct_tag() + s1 + b1@; blake_inj(u, v); assert(u.subrange(40, u.len() as int) =~= b@); assert(v.subrange(40, v.len() as int) =~= b1@); assert(b =~= b1); }
pub proof fn lemma_meant(e: Element, low: H, root: H) requires stands(e, low, e, root), is_state(root), meant(e, low) ensures state_of_log(root, bulk_height(e), bulk_count(e))
{
    let c = bulk_count(e); let h = bulk_height(e); let x = choose|x: Seq<u8>| root == #[trigger] blake(bulk_tag() + x);
    if e is BulkAppendTree {
        if low != root { let s = choose|s: Seq<u8>| s.len() == 32 && low == #[trigger] ct_hash(s, root); let l = choose|l: Log| #[trigger] sroot(h, l) == low && l.len() == c && okval(l); lemma_not_both(s, root, bulk_body(h, l)); }
    } else {
        let (b, s) = choose|b: H, s: Seq<u8>| s.len() == 32 && low == #[trigger] ct_hash(s, b) && state_of_log(b, h, c);
        if low == root { lemma_not_both(s, b, x); } else { let s1 = choose|s1: Seq<u8>| s1.len() == 32 && low == #[trigger] ct_hash(s1, root); lemma_same_state(s, b, s1, root); }
    }
}
pub proof fn lemma_stand_has(e: Element, low: H, root: H, p: int, v: Seq<u8>) requires stands(e, low, e, root), is_state(root), bulk_has(bulk_count(e), bulk_height(e), root, p, v) ensures has_at(e, low, p, v)
{
    let c = bulk_count(e); let h = bulk_height(e); let x = choose|x: Seq<u8>| root == #[trigger] blake(bulk_tag() + x);
    if e is BulkAppendTree {
        if low != root {
            let s = choose|s: Seq<u8>| s.len() == 32 && low == #[trigger] ct_hash(s, root);
            assert forall|l: Log| #[trigger] sroot(h, l) == low && l.len() == c && okval(l) implies 0 <= p < l.len() && l[p] == v by { lemma_not_both(s, root, bulk_body(h, l)); }
        }
    } else {
        assert forall|l: Log, s: Seq<u8>| #[trigger] ct_hash(s, sroot(h, l)) == low && s.len() == 32 && l.len() == c && okval(l) implies 0 <= p < l.len() && l[p] == v by {
            if low == root { lemma_not_both(s, sroot(h, l), x); }
            else { let s1 = choose|s1: Seq<u8>| s1.len() == 32 && low == #[trigger] ct_hash(s1, root); lemma_same_state(s, sroot(h, l), s1, root); assert(sroot(h, l) == root); }
        }
    }
}
pub proof fn lemma_bulk_kept(e: Element, low: H, e0: Element, root: H, v: Seq<(u64, Vec<u8>)>) requires stands(e, low, e0, root), is_state(root), bulk_tells(bulk_count(e), bulk_height(e), root, v) ensures kept(e, low, pairs(v))
{ assert forall|j: int| 0 <= j < pairs(v).len() implies has_at(e, low, (#[trigger] pairs(v)[j]).0, pairs(v)[j].1) by { assert(bulk_has(bulk_count(e), bulk_height(e), root, v[j].0 as int, v[j].1@)); lemma_stand_has(e, low, root, v[j].0 as int, v[j].1@); } }
// unit bulk_query
#[verifier::external_body] pub struct BulkAppendTreeProof { x: u8 }
pub struct BulkAppendTreeProofResult { pub total_count: u64, pub rest: Rest }
pub uninterp spec fn shown_by(r: BulkAppendTreeProofResult, height: u8, root: H) -> bool;
impl BulkAppendTreeProof {
    #[verifier::external_body] pub fn decode_from_slice(b: &[u8]) -> Result<BulkAppendTreeProof, Error> { unimplemented!() }
    #[verifier::external_body] pub fn verify_and_compute_root(&self, height: u8, count: u64) -> (r: Result<(H, BulkAppendTreeProofResult), Error>)
        ensures r is Ok ==> is_state(r->Ok_0.0) && r->Ok_0.1.total_count == count && shown_by(r->Ok_0.1, height, r->Ok_0.0) { unimplemented!() }
}
impl BulkAppendTreeProofResult {
    #[verifier::external_body] pub fn values_in_range(&self, start: u64, end: u64) -> (r: Result<Vec<(u64, Vec<u8>)>, Error>)
        ensures r is Ok ==> rising(pairs(r->Ok_0@), false) && forall|height: u8, root: H| #[trigger] shown_by(*self, height, root) ==> bulk_tells(self.total_count, height, root, r->Ok_0@) && (state_of_log(root, height, self.total_count) ==> rising(pairs(r->Ok_0@), true)) { unimplemented!() }
}
// blake3
#[verifier::external_body] pub struct Hasher { x: u8 }
impl Hasher {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update_ct(&mut self) ensures final(self)@ == old(self)@ + ct_tag() { unimplemented!() }
    #[verifier::external_body] pub fn update32(&mut self, b: &[u8; 32]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finalize(&self) -> (r: H) ensures r == blake(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn head32(b: &[u8]) -> (r: [u8; 32]) requires b@.len() >= 32 ensures r@ == b@.subrange(0, 32) { unimplemented!() }
#[verifier::external_body] pub fn tail32(b: &[u8]) -> (r: &[u8]) requires b@.len() >= 32 ensures r@ == b@.subrange(32, b@.len() as int) { &b[32..] }
// unit dense
#[verifier::external_body] pub struct DenseTreeProof { x: u8 }
pub open spec fn dense_tells(count: u16, height: u8, root: H, v: Seq<(u16, Vec<u8>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> dense_has(count, height, root, (#[trigger] v[i]).0 as int, v[i].1@) }
pub open spec fn nums16(v: Seq<(u16, Vec<u8>)>, p: u16) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == p }
pub open spec fn dense_asked(items: Seq<QueryItem>, count: u16, v: Seq<(u16, Vec<u8>)>) -> bool { (forall|m: int| 0 <= m < items.len() ==> ends(#[trigger] items[m], 2)) && forall|p: u16| #[trigger] nums16(v, p) == (p < count && upto(items, items.len() as int, p as int)) }
impl DenseTreeProof {
    #[verifier::external_body] pub fn decode_from_slice(b: &[u8]) -> Result<DenseTreeProof, Error> { unimplemented!() }
    #[verifier::external_body] pub fn verify_for_query(&self, query: &Query, height: u8, count: u16) -> (r: Result<(H, Vec<(u16, Vec<u8>)>), Error>)
        ensures r is Ok ==> distinct16(r->Ok_0.1@) && dense_tells(count, height, r->Ok_0.0, r->Ok_0.1@) && dense_asked(query.items@, count, r->Ok_0.1@) { unimplemented!() }
}
pub proof fn same_src16(a: Seq<(u16, Vec<u8>)>, b: Seq<(u16, Vec<u8>)>, j: int) -> (i: int) requires forall|x: (u16, Vec<u8>)| #[trigger] b.contains(x) == a.contains(x), 0 <= j < b.len() ensures 0 <= i < a.len(), a[i] == b[j]
{ assert(b.contains(b[j])); choose|i: int| 0 <= i < a.len() && a[i] == b[j] }
pub proof fn lemma_dense(e: Element, low: H, items: Seq<QueryItem>, raw: Seq<(u16, Vec<u8>)>, got: Seq<(u16, Vec<u8>)>)
    requires e is DenseAppendOnlyFixedSizeTree, dense_tells(e->DenseAppendOnlyFixedSizeTree_0, e->DenseAppendOnlyFixedSizeTree_1, low, raw), dense_asked(items, e->DenseAppendOnlyFixedSizeTree_0, raw), forall|x: (u16, Vec<u8>)| #[trigger] got.contains(x) == raw.contains(x)
    ensures kept(e, low, pairs2(got)), complete(e, pairs2(got), items)
{
    let (c, h) = (e->DenseAppendOnlyFixedSizeTree_0, e->DenseAppendOnlyFixedSizeTree_1);
    assert forall|j: int| 0 <= j < pairs2(got).len() implies has_at(e, low, (#[trigger] pairs2(got)[j]).0, pairs2(got)[j].1) by { let i = same_src16(raw, got, j); assert(dense_has(c, h, low, raw[i].0 as int, raw[i].1@)); }
    assert forall|k: Seq<u8>| k.len() == width(e) && num(k) < size_of_tree(e) && #[trigger] selected(items, k) implies numbered(pairs2(got), num(k)) by {
        num_bound(k); let p = num(k) as u16; lemma_picked(items, k); assert(nums16(raw, p));
        let i = choose|i: int| 0 <= i < raw.len() && (#[trigger] raw[i]).0 == p; assert(raw.contains(raw[i])); assert(got.contains(raw[i]));
        let j = choose|j: int| 0 <= j < got.len() && got[j] == raw[i]; assert(pairs2(got)[j].0 == num(k));
    }
}
pub proof fn lemma_dense_asked(items: Seq<QueryItem>, count: u16, raw: Seq<(u16, Vec<u8>)>, got: Seq<(u16, Vec<u8>)>, j: int, k: Seq<u8>)
    requires dense_asked(items, count, raw), forall|x: (u16, Vec<u8>)| #[trigger] got.contains(x) == raw.contains(x), 0 <= j < got.len(), k.len() == 2, num(k) == got[j].0 ensures selected(items, k)
{ let i = same_src16(raw, got, j); assert(nums16(raw, raw[i].0)); lemma_picked(items, k); }
pub struct GroveDb {}
impl GroveDb {
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_mmr_lower_layer
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ sig verify_mmr_lower_layer<T>( ==> verify_mmr_lower_layer(
//@ rulefirst Self::expand_query_to_u64_positions ==> expand_query_to_u64_positions
//@ sig Vec<T> ==> Vec<Hit>
//@ sig where T: TryFromVersioned<ProvedPathKeyOptionalValue>, Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>, ==>
//@ rulefirst grovedb_merkle_mountain_range:: ==>
//@ rulefirst MmrTreeProof::decode_from_slice($a..).map_err($e..)? ==> MmrTreeProof::decode_from_slice($a)?
//@ rulefirst .verify_and_get_root().map_err($e..)? ==> .verify_and_get_root()?
//@ rulefirst query.query_items_at_path($a..)?.ok_or($e..)? ==> must(query.query_items_at_path($a)?)?
//@ rulefirst verified_leaves.sort_by_key(|($x, _)| *$x) ==> sort_pairs64(&mut verified_leaves)
//@ rulefirst BTreeSet<u64> ==> PosSet
//@ rulefirst verified_leaves.iter().map(|($x, _)| *$x).collect() ==> positions_of(&verified_leaves)
//@ rulefirst .difference($b..).copied().collect() ==> .beyond($b)
//@ rulefirst .serialize(grove_version).map_err($e..)? ==> .serialize(grove_version)?
//@ rulefirst leaf_index.to_be_bytes().to_vec() ==> be_write(leaf_index)
//@ rulefirst [0u8; 32] ==> null_hash()
//@ rulefirst limit_left.iter_mut().for_each(|limit| *limit = limit.saturating_sub(1)) ==> lim_dec(limit_left)
//@ rulefirst limit_left == &Some(0) ==> lim_zero(&*limit_left)
//@ rulefirst path.iter().map(|p| p.to_vec()).collect() ==> own_path(path)
//@ rulefirst $x.try_into_versioned(grove_version)? ==> $x
//@ rulefirst for ($a, $b) in verified_leaves { $c.. } ==> let mut li: usize = 0; while li < verified_leaves.len() { let ($a, $b) = clone_pair(&verified_leaves[li]); li = li + 1; $c }
//@ spec
    requires fit(*query)
    ensures r is Ok ==> low_ok(*element, r->Ok_0, *query, sv(path@), old(result)@, final(result)@, *old(limit_left), *final(limit_left))
//@ at start
hide(taken); hide(low_ok); hide(kept); hide(complete); hide(asked); hide(covered); hide(mmr_tells); hide(selected); hide(more); hide(rising);
let ghost at = sv(path@); let ghost first = result@; let ghost lim0 = *limit_left; let ghost n0 = first.len() as int;
//@ before sort_pairs64
let ghost raw = verified_leaves@;
//@ after sort_pairs64
let ghost src = pairs(verified_leaves@);
proof { lemma_mmr_kept(*element, mmr_root, raw); lemma_kept(*element, mmr_root, raw, verified_leaves@); }
//@ before let mut li
let ghost items = sub_query.items@;
proof { lemma_start(first, at, 8, src, items, true);
  lemma_covered(expected_indices@, proved_indices@, verified_leaves@);
  lemma_complete(*element, items, expected_indices@, verified_leaves@, leaf_count);
  assert forall|j: int| 0 <= j < src.len() implies expected_indices@.contains((#[trigger] verified_leaves@[j]).0) by { assert(nums64(verified_leaves@, verified_leaves@[j].0)); assert(proved_indices@.contains(verified_leaves@[j].0)); }
}
//@ loop 1
    invariant li <= verified_leaves@.len(), src == pairs(verified_leaves@), more(first, result@), taken(result@, n0, at, 8, src, li as int, items, true), lim0 is None ==> *limit_left is None
    ensures li == src.len() || *limit_left == Some(0u16)
    decreases verified_leaves@.len() - li
//@ loopstart 1
let ghost prev = result@; let ghost j = li as int;
//@ after result.push
proof { let h = result@.last(); lemma_asked(items, expected_indices@, verified_leaves@, leaf_count, j, h.key@); assert(src[j] == (verified_leaves@[j].0 as int, verified_leaves@[j].1@)); lemma_take(first, prev, result@, at, 8, src, j, items, true); }
//@ before Ok(mmr_root)
proof { lemma_low(*element, mmr_root, *query, at, first, result@, src, li as int, lim0, *limit_left, true); }
//@ before return Ok
proof { leafs_zero(); lemma_none(*element, zero(), *query, at, first, lim0); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::extract_range_from_query_items
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ sig grovedb_merk::proofs::query::QueryItem ==> QueryItem
//@ rulefirst use grovedb_merk::proofs::query::QueryItem; ==>
//@ rulefirst u64::from_be_bytes($k[..8].try_into().unwrap()) ==> be_of(&$k)
//@ rulefirst u64::from_be_bytes($r.$e[..8].try_into().unwrap()) ==> be_of(&$r.$e)
//@ rulefirst u64::from_be_bytes($r.$e()[..8].try_into().unwrap()) ==> be_of($r.$e())
//@ rulefirst for item in items { $b.. } ==> let mut k: usize = 0; while k < items.len() invariant k <= items@.len(), inside(items@, k as int, min_start, max_end) decreases items@.len() - k { let item = &items[k]; let ghost lo = min_start; let ghost hi = max_end; $b proof { lemma_inside(items@, k as int, lo, hi, min_start, max_end); } k = k + 1; }
//@ rule min_start.min($a..); ==> min64(min_start, $a);
//@ rule max_end.max($a..); ==> max64(max_end, $a);
//@ rule $x.saturating_add(1) ==> sat1($x)
//@ spec
    ensures r is Ok ==> inside(items@, items@.len() as int, r->Ok_0.0, r->Ok_0.1)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_bulk_append_lower_layer
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ sig verify_bulk_append_lower_layer<T>( ==> verify_bulk_append_lower_layer(
//@ sig Vec<T> ==> Vec<Hit>
//@ sig where T: TryFromVersioned<ProvedPathKeyOptionalValue>, Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>, ==>
//@ rulefirst query.query_items_at_path($a..)?.ok_or($e..)? ==> must(query.query_items_at_path($a)?)?
//@ rulefirst Self::expand_query_to_u64_positions ==> expand_query_to_u64_positions
//@ rulefirst BTreeSet<u64> ==> PosSet
//@ rulefirst .difference($b..).copied().collect() ==> .beyond($b)
//@ rulefirst .serialize(grove_version).map_err($e..)? ==> .serialize(grove_version)?
//@ rulefirst limit_left.iter_mut().for_each(|limit| *limit = limit.saturating_sub(1)) ==> lim_dec(limit_left)
//@ rulefirst limit_left == &Some(0) ==> lim_zero(&*limit_left)
//@ rulefirst path.iter().map(|p| p.to_vec()).collect() ==> own_path(path)
//@ rulefirst $x.try_into_versioned(grove_version)? ==> $x
//@ rulefirst grovedb_bulk_append_tree:: ==>
//@ rulefirst BulkAppendTreeProof::decode_from_slice($a..).map_err($e..)? ==> BulkAppendTreeProof::decode_from_slice($a)?
//@ rulefirst .verify_and_compute_root($a..).map_err($e..)? ==> .verify_and_compute_root($a)?
//@ rulefirst .values_in_range($a..).map_err($e..)? ==> .values_in_range($a)?
//@ rulefirst end.min($a..) ==> min64(end, $a)
//@ rulefirst values.iter().map(|($x, _)| *$x).collect() ==> positions_of(&values)
//@ rulefirst !sub_query.items.iter().any(|$i| $i.contains(&$k)) ==> !any_item(&sub_query.items, &$k)
//@ rulefirst position.to_be_bytes().to_vec() ==> be_write(position)
//@ rulefirst [0u8; 32] ==> null_hash()
//@ rulefirst for ($a, $b) in values { $c.. } ==> let mut li: usize = 0; while li < values.len() { let ($a, $b) = clone_pair(&values[li]); li = li + 1; $c }
//@ spec
    requires fit(*query)
    ensures r is Ok ==> (*element is BulkAppendTree || *element is CommitmentTree) && is_state(r->Ok_0) && low_ok(*element, r->Ok_0, *query, sv(path@), old(result)@, final(result)@, *old(limit_left), *final(limit_left)) && (forall|e: Element, low: H| #[trigger] stands(e, low, *element, r->Ok_0) ==> low_ok(e, low, *query, sv(path@), old(result)@, final(result)@, *old(limit_left), *final(limit_left)))
//@ at start
hide(taken); hide(low_ok); hide(kept); hide(complete); hide(asked); hide(covered); hide(bulk_tells); hide(selected); hide(more); hide(rising); hide(is_state); hide(has_at); hide(inside); hide(meant); hide(state_of_log);
let ghost at = sv(path@); let ghost first = result@; let ghost lim0 = *limit_left; let ghost n0 = first.len() as int;
//@ before let mut li
let ghost items = sub_query.items@; let ghost src = pairs(values@); let ghost st = state_of_log(bulk_state_root, element_height, element_total_count);
proof { lemma_start(first, at, 8, src, items, st);
  lemma_covered(expected_positions@, proved_positions@, values@);
}
//@ loop 1
    invariant li <= values@.len(), src == pairs(values@), more(first, result@), taken(result@, n0, at, 8, src, li as int, items, st), lim0 is None ==> *limit_left is None
    ensures li == src.len() || *limit_left == Some(0u16)
    decreases values@.len() - li
//@ loopstart 1
let ghost prev = result@; let ghost j = li as int;
//@ before continue
proof { lemma_skip(first, result@, at, 8, src, j, items, key@, st); }
//@ after result.push
proof { let h = result@.last(); assert(src[j] == (values@[j].0 as int, values@[j].1@)); lemma_take(first, prev, result@, at, 8, src, j, items, st); }
//@ before Ok(bulk_state_root)
proof {
    assert forall|e: Element, low: H| #[trigger] stands(e, low, *element, bulk_state_root) implies low_ok(e, low, *query, at, first, result@, lim0, *limit_left) by {
        lemma_complete(e, items, expected_positions@, values@, element_total_count);
        if meant(e, low) { lemma_meant(e, low, bulk_state_root); }
        lemma_bulk_kept(e, low, *element, bulk_state_root, values@);
        lemma_low(e, low, *query, at, first, result@, src, li as int, lim0, *limit_left, st);
    }
    assert(stands(*element, bulk_state_root, *element, bulk_state_root));
}
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_commitment_tree_lower_layer
//@ ret r
//@ vis pub
//@ sig verify_commitment_tree_lower_layer<T>( ==> verify_commitment_tree_lower_layer(
//@ sig Vec<T> ==> Vec<Hit>
//@ sig where T: TryFromVersioned<ProvedPathKeyOptionalValue>, Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>, ==>
//@ rulefirst ct_bytes[..32].try_into().expect($e..) ==> head32(ct_bytes)
//@ rulefirst &ct_bytes[32..] ==> tail32(ct_bytes)
//@ rulefirst blake3::Hasher::new() ==> Hasher::new()
//@ rulefirst hasher.update(b"ct_state") ==> hasher.update_ct()
//@ rulefirst hasher.update(&$x) ==> hasher.update32(&$x)
//@ rulefirst *hasher.finalize().as_bytes() ==> hasher.finalize()
//@ spec
    requires fit(*query)
    ensures r is Ok ==> low_ok(*element, r->Ok_0, *query, sv(path@), old(result)@, final(result)@, *old(limit_left), *final(limit_left))
//@ at start
hide(low_ok); hide(is_state);
//@ before Ok(
proof { lemma_stands_commit(*element, sinsemilla_root@, bulk_state_root); assert(hasher@ =~= ct_tag() + sinsemilla_root@ + bulk_state_root@); assert(stands(*element, ct_hash(sinsemilla_root@, bulk_state_root), *element, bulk_state_root)); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_dense_tree_lower_layer
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ sig verify_dense_tree_lower_layer<T>( ==> verify_dense_tree_lower_layer(
//@ sig Vec<T> ==> Vec<Hit>
//@ sig where T: TryFromVersioned<ProvedPathKeyOptionalValue>, Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>, ==>
//@ rulefirst query.query_items_at_path($a..)?.ok_or($e..)? ==> must(query.query_items_at_path($a)?)?
//@ rulefirst Self::expand_query_to_u64_positions ==> expand_query_to_u64_positions
//@ rulefirst BTreeSet<u64> ==> PosSet
//@ rulefirst .difference($b..).copied().collect() ==> .beyond($b)
//@ rulefirst .serialize(grove_version).map_err($e..)? ==> .serialize(grove_version)?
//@ rulefirst limit_left.iter_mut().for_each(|limit| *limit = limit.saturating_sub(1)) ==> lim_dec(limit_left)
//@ rulefirst limit_left == &Some(0) ==> lim_zero(&*limit_left)
//@ rulefirst path.iter().map(|p| p.to_vec()).collect() ==> own_path(path)
//@ rulefirst $x.try_into_versioned(grove_version)? ==> $x
//@ rulefirst grovedb_dense_fixed_sized_merkle_tree:: ==>
//@ rulefirst DenseTreeProof::decode_from_slice($a..).map_err($e..)? ==> DenseTreeProof::decode_from_slice($a)?
//@ rulefirst .verify_for_query($a..).map_err($e..)? ==> .verify_for_query($a)?
//@ rulefirst Query { items: $a.., left_to_right: $b.., ..Default::default() } ==> plain_query($a, $b)
//@ rulefirst $x.items.to_vec() ==> clone_items(&$x.items)
//@ rulefirst verified_entries.sort_by_key(|($x, _)| *$x) ==> sort_pairs16(&mut verified_entries)
//@ rulefirst position.to_be_bytes().to_vec() ==> be_write2(position)
//@ rulefirst proof: [0u8; 32] ==> proof: null_hash()
//@ rulefirst for ($a, $b) in verified_entries { $c.. } ==> let mut li: usize = 0; while li < verified_entries.len() { let ($a, $b) = clone_pair(&verified_entries[li]); li = li + 1; $c }
//@ spec
    requires fit(*query)
    ensures r is Ok ==> low_ok(*element, r->Ok_0, *query, sv(path@), old(result)@, final(result)@, *old(limit_left), *final(limit_left))
//@ at start
hide(taken); hide(low_ok); hide(kept); hide(complete); hide(dense_tells); hide(dense_asked); hide(selected); hide(more); hide(rising); hide(has_at);
let ghost at = sv(path@); let ghost first = result@; let ghost lim0 = *limit_left; let ghost n0 = first.len() as int;
//@ before sort_pairs16
let ghost raw = verified_entries@;
//@ before let mut li
let ghost items = sub_query.items@; let ghost src = pairs2(verified_entries@);
proof { lemma_start(first, at, 2, src, items, true); lemma_dense(*element, computed_root, items, raw, verified_entries@); }
//@ loop 1
    invariant li <= verified_entries@.len(), src == pairs2(verified_entries@), more(first, result@), taken(result@, n0, at, 2, src, li as int, items, true), lim0 is None ==> *limit_left is None
    ensures li == src.len() || *limit_left == Some(0u16)
    decreases verified_entries@.len() - li
//@ loopstart 1
let ghost prev = result@; let ghost j = li as int;
//@ after result.push
proof { let h = result@.last(); lemma_dense_asked(items, element_count, raw, verified_entries@, j, h.key@); assert(src[j] == (verified_entries@[j].0 as int, verified_entries@[j].1@)); lemma_take(first, prev, result@, at, 2, src, j, items, true); }
//@ before Ok(computed_root)
proof { lemma_low(*element, computed_root, *query, at, first, result@, src, li as int, lim0, *limit_left, true); }
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::unqueried_lower_layer_hash
//@ ret r
//@ vis pub
//@ sig CryptoHash ==> H
//@ rule execute(Decoder::new(bytes), $x..).unwrap().map(|tree| tree.hash().unwrap()).map_err($y..) ==> merk_root(bytes)
//@ end
//@ fn grovedb/src/operations/proof/verify.rs GroveDb::verify_layer_proof_v1
//@ ret r
//@ vis pub
//@ attr #[verifier::loop_isolation(false)]
//@ attr #[verifier::allow_complex_invariants]
//@ sig verify_layer_proof_v1<T>( ==> verify_layer_proof_v1(
//@ sig Vec<T> ==> Vec<Hit>
//@ sig where T: TryFromVersioned<ProvedPathKeyOptionalValue>, Error: From<<T as TryFromVersioned<ProvedPathKeyOptionalValue>>::Error>, ==>
//@ rulefirst query.query_items_at_path($a..)?.ok_or($e..)? ==> must(query.query_items_at_path($a)?)?
//@ rulefirst Query { items: $a.., left_to_right: $b.., ..Default::default() } ==> plain_query($a, $b)
//@ rulefirst $x.items.to_vec() ==> clone_items(&$x.items)
//@ rulefirst level_query.execute_proof($x..).unwrap().map_err($y..)? ==> level_query.execute_proof($x)?
//@ rulefirst limit_left.iter_mut().for_each(|limit| *limit = limit.saturating_sub(1)) ==> lim_dec(limit_left)
//@ rulefirst limit_left == &Some(0) ==> lim_zero(&*limit_left)
//@ rulefirst current_path.to_vec() ==> copy_path(current_path)
//@ rulefirst path.push(key) ==> path.push(key.as_slice())
//@ rulefirst path.iter().map(|p| p.to_vec()).collect() ==> own_path(&path)
//@ rulefirst current_path.iter().map(|p| p.to_vec()).collect() ==> own_path(current_path)
//@ rulefirst $x.try_into_versioned(grove_version)? ==> $x
//@ rulefirst key.clone() ==> clone_key(key)
//@ rulefirst proved_key_value.clone() ==> clone_row(&proved_key_value)
//@ rulefirst BTreeSet::new() ==> KeySet::new()
//@ rulefirst super::MAX_PROOF_DEPTH ==> MAX_PROOF_DEPTH
//@ rulefirst value_hash($x..).value() ==> &value_hash($x)
//@ rulefirst combine_hash($x..).value().to_owned() ==> combine_hash($x)
//@ rulefirst hash != combine_hash($x..).value() ==> !hash_eq(hash, &combine_hash($x))
//@ rulefirst hash != &combined_root_hash ==> !hash_eq(hash, &combined_root_hash)
//@ rulefirst &NULL_HASH ==> &null_hash()
//@ rulefirst for proved_key_value in merk_result.result_set { $b.. } } if options ==> let mut ri: usize = 0; while ri < merk_result.result_set.len() { let proved_key_value = clone_row(&merk_result.result_set[ri]); ri = ri + 1; $b } } if options
//@ rulefirst for key in layer_proof.lower_layers.keys() { $b.. } ==> let ks = layer_proof.lower_layers.keys(); let mut ki: usize = 0; while ki < ks.len() { let key = &ks[ki]; $b ki = ki + 1; }
//@ spec
    requires fit(*query), follows(*query), current_path@.len() <= current_depth, current_depth <= MAX_PROOF_DEPTH + 1
    ensures r is Ok ==> parent_ok(r->Ok_0, *query, sv(current_path@), *old(last_parent_tree_type), *final(last_parent_tree_type)),
        current_path@.len() >= query.path@.len() ==> *final(last_parent_tree_type) == *old(last_parent_tree_type),
        r is Ok ==> more(old(result)@, final(result)@) && sound(r->Ok_0, *query, sv(current_path@), final(result)@, old(result)@.len() as int),
        r is Ok && *old(limit_left) is None ==> *final(limit_left) is None && covers(r->Ok_0, *query, sv(current_path@), final(result)@, options.include_empty_trees_in_result, (MAX_PROOF_DEPTH + 1 - current_depth) as nat),
        r is Ok && options.verify_proof_succinctness && honest(r->Ok_0) ==> forall|k: Seq<u8>| #[trigger] layer_at(layer_proof.lower_layers, k) is Some ==> chosen(*query, sv(current_path@), k)
    decreases MAX_PROOF_DEPTH + 1 - current_depth
//@ at start
let ghost at = sv(current_path@); let ghost first = result@; let ghost lim0 = *limit_left; let ghost emp = options.include_empty_trees_in_result; let ghost n = (MAX_PROOF_DEPTH + 1 - current_depth) as nat; let ghost pt0 = *last_parent_tree_type;
//@ before let mut verified_keys
let ghost rows = merk_result.result_set@;
proof { assert(forall|r: int| 0 <= r < rows.len() ==> row_true(root_hash, *query, at, #[trigger] rows[r])); assert(more(first, first)) by { assert(first.subrange(0, first.len() as int) =~= first); } }
//@ loop 1
    invariant ri <= rows.len(), merk_result.result_set@ == rows, parent_ok(root_hash, *query, at, pt0, *last_parent_tree_type), at.len() >= query.path@.len() ==> *last_parent_tree_type == pt0, more(first, result@), sound(root_hash, *query, at, result@, first.len() as int),
        forall|r: int| 0 <= r < rows.len() ==> row_true(root_hash, *query, at, #[trigger] rows[r]),
        forall|k: Seq<u8>| #[trigger] verified_keys@.contains(k) ==> honest(root_hash) ==> chosen(*query, at, k),
        lim0 is None ==> *limit_left is None && all_settled(root_hash, *query, at, rows, ri as int, result@, emp, n)
    ensures lim0 is None ==> ri == rows.len()
    decreases rows.len() - ri
//@ loopstart 1
let ghost prev = result@; let ghost mut done = false; let ghost row = rows[ri as int]; let ghost ri0 = ri as int; let ghost mut mid = prev; let ghost pt1 = *last_parent_tree_type;
proof { assert(row_true(root_hash, *query, at, row)); }
//@ before #1 if lim_zero(&*limit_left)
proof { step_parent(root_hash, *query, at, row, lower_hash, pt0, pt1, *last_parent_tree_type, *last_parent_tree_type); assert(sv(path@) =~= at); step_hit(root_hash, *query, at, rows, ri0, first, prev, result@, emp, n, lim0 is None); done = true; }
//@ before #2 if lim_zero(&*limit_left)
proof {
    assert(sv(path@) =~= at.push(row.key@));
    step_parent(root_hash, *query, at, row, lower_hash, pt0, pt1, set_by(*query, at, row.value->0@, pt1), *last_parent_tree_type);
    step_below(root_hash, *query, at, rows, ri0, first, prev, mid, result@, lower_hash, emp, n, lim0 is None);
    done = true;
}
//@ after #2 result.push($p..);
proof { mid = result@; }
//@ before #3 if lim_zero(&*limit_left)
proof { step_plain(root_hash, *query, at, row, pt0, pt1, *last_parent_tree_type); step_hit(root_hash, *query, at, rows, ri0, first, prev, result@, emp, n, lim0 is None); done = true; }
//@ loopend 1
proof { if !done { if row.value is Some { step_plain(root_hash, *query, at, row, pt0, pt1, *last_parent_tree_type); } assert(result@ == prev); if lim0 is None { if row.value is Some { lemma_settled_empty(root_hash, *query, at, row, result@, emp, n); } else { assert(!honest(root_hash)); } assert(settled(root_hash, *query, at, row, result@, emp, n)); } } }
//@ loop 2
    invariant ki <= ks@.len(), forall|i: int| 0 <= i < ki ==> verified_keys@.contains((#[trigger] ks@[i])@)
    decreases ks@.len() - ki
//@ before Ok(root_hash)
proof { if lim0 is None { lemma_covers(root_hash, *query, at, merk_result, internal_query.left_to_right, result@, emp, n); } }
//@ end
}
//@ const grovedb/src/operations/proof/mod.rs MAX_PROOF_DEPTH
} // verus!
fn main() {}
