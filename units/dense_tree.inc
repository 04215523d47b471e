pub type H = [u8; 32];

// ---- trusted: hashing (injective), byte order, ordered sets and maps of u16, the storage context ----
pub uninterp spec fn zero() -> H;
pub uninterp spec fn blake(b: Seq<u8>) -> H;
pub axiom fn blake_inj(a: Seq<u8>, b: Seq<u8>) ensures blake(a) == blake(b) ==> a == b;
pub open spec fn vh(v: Seq<u8>) -> H { blake(v) }
pub open spec fn nh(v: H, l: H, r: H) -> H { blake(v@ + l@ + r@) }
pub proof fn axiom_vh(a: Seq<u8>, b: Seq<u8>) ensures vh(a) == vh(b) ==> a == b { blake_inj(a, b); }
pub proof fn arr_eq(a: H, b: H) ensures a@ == b@ ==> a == b { if a@ == b@ { assert(a =~= b); } }
pub proof fn axiom_nh(a: H, b: H, c: H, x: H, y: H, z: H) ensures nh(a, b, c) == nh(x, y, z) ==> a == x && b == y && c == z
{
    let s = a@ + b@ + c@; let t = x@ + y@ + z@; blake_inj(s, t);
    if s == t { assert(s.subrange(0, 32) =~= a@); assert(t.subrange(0, 32) =~= x@); assert(s.subrange(32, 64) =~= b@); assert(t.subrange(32, 64) =~= y@); assert(s.subrange(64, 96) =~= c@); assert(t.subrange(64, 96) =~= z@); arr_eq(a, x); arr_eq(b, y); arr_eq(c, z); }
}
#[verifier::external_body] pub struct Hasher { x: u8 }
impl Hasher {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
    #[verifier::external_body] pub fn finish(&self) -> (r: H) ensures r == blake(self@) { unimplemented!() }
}
#[verifier::external_body] pub fn zero_hash() -> (r: H) ensures r == zero() { [0; 32] }
#[verifier::external_body] pub fn hash_value(v: &Vec<u8>) -> (r: H) ensures r == vh(v@) { unimplemented!() }
#[verifier::external_body] pub fn hash_ne(a: &H, b: &H) -> (r: bool) ensures r == (*a != *b) { unimplemented!() }
#[verifier::external_body] pub fn be2(a: u8, b: u8) -> (r: u16) ensures r == a * 256 + b { unimplemented!() }
#[verifier::external_body] pub fn pow2(h: u8) -> (r: u32) requires h < 32 ensures r == p2(h as nat) { 1u32 << h }
pub open spec fn p2(h: nat) -> int decreases h { if h == 0 { 1 } else { 2 * p2((h - 1) as nat) } }
#[verifier::external_body] pub fn copy_vec(v: &[u8]) -> (r: Vec<u8>) ensures r@ == v@ { v.to_vec() }
#[verifier::external_body] pub fn none_vec(n: usize) -> (r: Vec<Option<Vec<u8>>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i]).is_none() { unimplemented!() }
#[verifier::external_body] pub fn fill_none(c: &mut Vec<Option<Vec<u8>>>) ensures final(c)@.len() == old(c)@.len(), forall|i: int| 0 <= i < final(c)@.len() ==> (#[trigger] final(c)@[i]).is_none() { unimplemented!() }
#[verifier::external_body] pub fn set_slot(c: &mut Vec<Option<Vec<u8>>>, i: usize, v: Option<Vec<u8>>) ensures i < old(c)@.len() ==> final(c)@ == old(c)@.update(i as int, v), i >= old(c)@.len() ==> final(c)@ == old(c)@ { unimplemented!() }
#[verifier::external_body] pub fn cached(c: &Vec<Option<Vec<u8>>>, i: usize) -> (r: Option<Vec<u8>>)
    ensures r.is_some() == (i < c@.len() && c@[i as int].is_some()), r.is_some() ==> r->0@ == c@[i as int]->0@ { unimplemented!() }

pub open spec fn asc(s: Seq<u16>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> s[a] < s[b] }
#[verifier::external_body] pub struct USet { x: usize }
impl View for USet { type V = Set<u16>; uninterp spec fn view(&self) -> Set<u16>; }
impl USet {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<u16>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, p: u16) -> (r: bool) ensures final(self)@ == old(self)@.insert(p), r == !old(self)@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, p: &u16) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<u16>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn is_disjoint(&self, o: &USet) -> (r: bool) ensures r == (forall|p: u16| !(#[trigger] self@.contains(p) && o@.contains(p))) { unimplemented!() }
    // iteration: ascending
    #[verifier::external_body] pub fn list(&self) -> (r: Vec<u16>) ensures asc(r@), forall|p: u16| #[trigger] r@.contains(p) <==> self@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn difference(&self, o: &USet) -> (r: Vec<u16>) ensures forall|p: u16| #[trigger] r@.contains(p) <==> self@.contains(p) && !o@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn of(v: &[u16]) -> (r: Self) ensures forall|p: u16| #[trigger] r@.contains(p) <==> v@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn of_vec(v: Vec<u16>) -> (r: Self) ensures forall|p: u16| #[trigger] r@.contains(p) <==> v@.contains(p) { unimplemented!() }
    #[verifier::external_body] pub fn of_entries(v: &Vec<(u16, Vec<u8>)>) -> (r: Self) ensures forall|p: u16| #![trigger r@.contains(p)] #![trigger has_pos(v@, p)] r@.contains(p) <==> has_pos(v@, p) { unimplemented!() }
    #[verifier::external_body] pub fn of_hashes(v: &Vec<(u16, H)>) -> (r: Self) ensures forall|p: u16| #![trigger r@.contains(p)] #![trigger has_pos(v@, p)] r@.contains(p) <==> has_pos(v@, p) { unimplemented!() }
}
pub open spec fn at_pos<T>(s: Seq<(u16, T)>, i: int, p: u16) -> bool { 0 <= i < s.len() && s[i].0 == p }
pub open spec fn has_pos<T>(s: Seq<(u16, T)>, p: u16) -> bool { exists|i: int| at_pos(s, i, p) }
pub open spec fn idx<T>(s: Seq<(u16, T)>, p: u16) -> int { choose|i: int| at_pos(s, i, p) }
pub open spec fn distinct<T>(s: Seq<(u16, T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 != s[j].0 }
// maps built by collecting a list with distinct keys
#[verifier::external_body] pub struct VMap<'a> { x: &'a usize }
impl<'a> View for VMap<'a> { type V = spec_fn(u16) -> Option<Seq<u8>>; uninterp spec fn view(&self) -> spec_fn(u16) -> Option<Seq<u8>>; }
#[verifier::external_body] pub struct HMap<'a> { x: &'a usize }
impl<'a> View for HMap<'a> { type V = spec_fn(u16) -> Option<H>; uninterp spec fn view(&self) -> spec_fn(u16) -> Option<H>; }
pub open spec fn emap(s: Seq<(u16, Vec<u8>)>) -> spec_fn(u16) -> Option<Seq<u8>> { |p: u16| if has_pos(s, p) { Some(s[idx(s, p)].1@) } else { None } }
pub open spec fn hmap(s: Seq<(u16, H)>) -> spec_fn(u16) -> Option<H> { |p: u16| if has_pos(s, p) { Some(s[idx(s, p)].1) } else { None } }
impl<'a> VMap<'a> {
    #[verifier::external_body] pub fn collect(v: &'a Vec<(u16, Vec<u8>)>) -> (r: Self) requires distinct(v@) ensures r@ == emap(v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &u16) -> (r: Option<&'a Vec<u8>>) ensures r.is_some() == (self@)(*p).is_some(), r.is_some() ==> r->0@ == (self@)(*p)->0 { unimplemented!() }
}
impl<'a> HMap<'a> {
    #[verifier::external_body] pub fn collect(v: &'a Vec<(u16, H)>) -> (r: Self) requires distinct(v@) ensures r@ == hmap(v@) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, p: &u16) -> (r: Option<&'a H>) ensures r.is_some() == (self@)(*p).is_some(), r.is_some() ==> *r->0 == (self@)(*p)->0 { unimplemented!() }
}
// collecting the entries into the caller's collection
pub uninterp spec fn collected<C>(s: Seq<(u16, Vec<u8>)>) -> C;
pub axiom fn axiom_collected_vec(v: Seq<(u16, Vec<u8>)>) ensures collected::<Vec<(u16, Vec<u8>)>>(v)@ == v;
#[verifier::external_body] pub fn collect<C>(v: &Vec<(u16, Vec<u8>)>) -> (r: C) ensures r == collected::<C>(v@) { unimplemented!() }
#[verifier::external_body] pub struct DenseMerkleError { x: usize }
#[verifier::external_body] pub fn err() -> (r: DenseMerkleError) { unimplemented!() }
// the storage context: values under two-byte keys; any operation may fail, and a failed write touches no other key
pub type Store = Ctx;
pub open spec fn pk(p: u16) -> Seq<u8> { seq![(p / 256) as u8, (p % 256) as u8] }
pub open spec fn held(s: Ctx, p: u16) -> Option<Seq<u8>> { ent(s@, pk(p)) }
pub proof fn pk_inj(a: u16, b: u16) ensures pk(a) == pk(b) ==> a == b { assert(pk(a)[0] == (a / 256) as u8 && pk(a)[1] == (a % 256) as u8 && pk(b)[0] == (b / 256) as u8 && pk(b)[1] == (b % 256) as u8); }
#[verifier::external_body] pub fn be_bytes(p: u16) -> (r: [u8; 2]) ensures r@ == pk(p) { p.to_be_bytes() }
#[verifier::external_body] pub fn get2(s: &Store, k: [u8; 2]) -> (r: Result<Option<Vec<u8>>, DenseMerkleError>)
    ensures r matches Ok(x) ==> ent(s@, k@) == (match x { None => None, Some(v) => Some(v@) }) { unimplemented!() }
#[verifier::external_body] pub fn put2(s: &mut Store, k: [u8; 2], v: &[u8]) -> (r: Result<(), DenseMerkleError>)
    ensures r is Ok ==> ent(final(s)@, k@) == Some(v@), forall|o: Seq<u8>| o != k@ ==> #[trigger] ent(final(s)@, o) == ent(old(s)@, o) { unimplemented!() }
// nothing but two-byte keys differs
pub open spec fn only_short(a: Store, b: Store) -> bool { forall|k: Seq<u8>| k.len() != 2 ==> #[trigger] ent(a@, k) == ent(b@, k) }
//@ rules
blake3::Hasher::new() ==> Hasher::new()
*hasher.finalize().as_bytes() ==> hasher.finish()
DenseFixedSizedMerkleTree<S> ==> DenseTree
DenseFixedSizedMerkleTree ==> DenseTree
storage: S ==> storage: Store
(1..=16).contains(&height) ==> (1 <= height && height <= 16)
(1u32 << height) - 1 ==> pow2(height) - 1
CostResult< ==> Result<
.wrap_with_cost($x..) ==>
.unwrap_add_cost(&mut cost) ==>
cost_return_on_error!(cost, $x..) ==> ($x)?
let mut cost = OperationCost::default(); ==>
cost.hash_node_calls += 1; ==>
DenseMerkleError::$v($x..) ==> err()
DenseMerkleError::$v { $x.. } ==> err()
self.storage.get(key) ==> get2(&self.storage, key)
self.storage.put(key, value, None, None) ==> put2(&mut self.storage, key, value)
pos.to_be_bytes() ==> be_bytes(pos)
debug_assert!($x..); ==>
vec![None; capacity as usize] ==> none_vec(capacity as usize)
if let Some(slot) = self.cache.get_mut(position as usize) { *slot = $x..; } ==> set_slot(&mut self.cache, position as usize, $x);
if let Some(Some(cached)) = self.cache.get(position as usize) { return Ok(Some(cached.clone())); } ==> if let Some(hit) = cached(&self.cache, position as usize) { return Ok(Some(hit)); }
self.cache.fill(None) ==> fill_none(&mut self.cache)
value.to_vec() ==> copy_vec(value)
*blake3::hash(&value).as_bytes() ==> hash_value(&value)
*blake3::hash(value).as_bytes() ==> hash_value(value)
[0u8; 32] ==> zero_hash()
[u8; 32] ==> H
u16::from_be_bytes([bytes[0], bytes[1]]) ==> be2(bytes[0], bytes[1])
std::collections::BTreeSet ==> BTreeSet
BTreeSet<u16> ==> USet
BTreeSet::new() ==> USet::new()
BTreeMap<u16, &Vec<u8>> ==> VMap
BTreeMap<u16, &H> ==> HMap
for &pos in positions { ==> let mut i = 0; while i < positions.len() { let pos = positions[i]; i += 1;
for &pos in &$s { ==> let list = $s.list(); let mut i = 0; while i < list.len() { let pos = list[i]; i += 1;
for (pos, _) in &$s.$f { ==> let mut i = 0; while i < $s.$f.len() { let pos = &$s.$f[i].0; i += 1;
for item in &query.items { ==> let mut i = 0; while i < query.items.len() { let item = &query.items[i]; i += 1;
for p in $a.. .. $b.. { $c.. } ==> let mut p: u16 = $a; while p < $b { $c p += 1; }
for p in $a.. ..=clamped_end { $b.. } ==> let mut p: u16 = $a; let mut more = p <= clamped_end; while more { $b if p == clamped_end { more = false; } else { p += 1; } }
positions.iter().copied().collect() ==> USet::of(positions)
self.entries.iter().map(|(p, _)| *p).collect() ==> USet::of_entries(&self.entries)
self.node_value_hashes.iter().map(|(p, _)| *p).collect() ==> USet::of_hashes(&self.node_value_hashes)
self.node_hashes.iter().map(|(p, _)| *p).collect() ==> USet::of_hashes(&self.node_hashes)
entries.iter().map(|(pos, _)| *pos).collect() ==> USet::of_entries(&entries)
self.entries.iter().map(|(pos, val)| (*pos, val)).collect() ==> VMap::collect(&self.entries)
self.node_value_hashes.iter().map(|(pos, hash)| (*pos, hash)).collect() ==> HMap::collect(&self.node_value_hashes)
self.node_hashes.iter().map(|(pos, hash)| (*pos, hash)).collect() ==> HMap::collect(&self.node_hashes)
self.entries.iter().cloned().collect() ==> collect(&self.entries)
entries.into_iter().collect() ==> collect(&entries)
positions.into_iter().collect() ==> positions.list()
p.into_iter().collect() ==> USet::of_vec(p)
.difference(&proved_positions).copied().collect() ==> .difference(&proved_positions)
.difference(&expected_positions).copied().collect() ==> .difference(&expected_positions)
&computed_root != expected_root ==> hash_ne(&computed_root, expected_root)
Ok(**hash) ==> Ok(*hash)
{ **hash } ==> { *hash }
crate::proof::query_to_positions ==> query_to_positions
crate::hash::validate_height ==> validate_height
where C: FromIterator<(u16, Vec<u8>)>, ==>
where C: FromIterator<(u16, Vec<u8>)> ==>
<'db, S: StorageContext<'db>> ==>
Range<Vec<u8>> ==> KRange
RangeInclusive<Vec<u8>> ==> KInc
RangeFrom<Vec<u8>> ==> KFrom
RangeTo<Vec<u8>> ==> KTo
RangeToInclusive<Vec<u8>> ==> KTo
(RangeFull) ==> (())
//@ end
//@ type grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree
// ---- specification ------------------------------------------------------------
// the documented root: H(H(value) || left || right), zero where no value is
pub open spec fn th(vals: Seq<Seq<u8>>, cap: int, pos: int) -> H decreases cap - pos {
    if pos < 0 || pos >= cap || pos >= vals.len() { zero() }
    else { nh(vh(vals[pos]), if 2 * pos + 1 < cap { th(vals, cap, 2 * pos + 1) } else { zero() }, if 2 * pos + 2 < cap { th(vals, cap, 2 * pos + 2) } else { zero() }) }
}
pub open spec fn capacity(h: u8) -> int { p2(h as nat) - 1 }
pub proof fn lemma_p2(a: nat, b: nat) requires a <= b ensures 1 <= p2(a) <= p2(b), p2(16) == 65536, p2(1) == 2 decreases b
{ assert(p2(16) == 65536 && p2(1) == 2) by (compute); if a < b { lemma_p2(a, (b - 1) as nat); } else if a > 0 { lemma_p2((a - 1) as nat, (b - 1) as nat); } }

// -- the tree
// the values a context holds at the positions below count
pub open spec fn below(s: Ctx, count: u16) -> Seq<Seq<u8>> { Seq::new(count as nat, |i: int| held(s, i as u16)->0) }
pub open spec fn filled(s: Ctx, count: u16) -> bool { forall|i: u16| i < count ==> (#[trigger] held(s, i)) is Some }
pub open spec fn stored(t: DenseTree) -> Seq<Seq<u8>> { below(t.storage, t.count) }
pub open spec fn wf(t: DenseTree) -> bool {
    &&& 1 <= t.height <= 16 && t.count <= capacity(t.height) && t.cache@.len() == capacity(t.height)
    &&& filled(t.storage, t.count)
    &&& forall|i: int| #![trigger t.cache@[i]] 0 <= i < t.count && t.cache@[i].is_some() ==> held(t.storage, i as u16) == Some(t.cache@[i]->0@)
}
pub open spec fn rooted(t: DenseTree) -> H { if t.count == 0 { zero() } else { th(stored(t), capacity(t.height), 0) } }
// ---- the code under contract: tree ------------------------------------------------
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/hash.rs node_hash
//@ ret r
//@ spec
    ensures r == nh(*value_hash, *left_hash, *right_hash)
//@ before hasher.finish
proof { assert(hasher@ =~= value_hash@ + left_hash@ + right_hash@); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/hash.rs validate_height
//@ ret r
//@ spec
    ensures r.is_ok() == (1 <= height <= 16)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs position_key
//@ ret r
//@ spec
    ensures r@ == pk(pos)
//@ end
impl DenseTree {
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::capacity_for_height
//@ ret r
//@ spec
    requires 1 <= height <= 16
    ensures r == capacity(height)
//@ at start
proof { lemma_p2(height as nat, 16); lemma_p2(1, height as nat); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::capacity
//@ ret r
//@ spec
    requires 1 <= self.height <= 16
    ensures r == capacity(self.height)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::count
//@ ret r
//@ spec
    ensures r == self.count
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::height
//@ ret r
//@ spec
    ensures r == self.height
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::new
//@ sig S ==> Store
//@ ret r
//@ spec
    ensures r.is_ok() == (1 <= height <= 16), r.is_ok() ==> wf(r->Ok_0) && r->Ok_0.height == height && r->Ok_0.storage == storage && stored(r->Ok_0) =~= Seq::empty()
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::from_state
//@ sig S ==> Store
//@ ret r
//@ spec
    ensures r.is_ok() == (1 <= height <= 16 && count <= capacity(height)),
        r.is_ok() ==> (filled(storage, count) ==> wf(r->Ok_0)) && r->Ok_0.height == height && r->Ok_0.count == count && r->Ok_0.storage == storage
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::get_value
//@ ret r
//@ spec
    requires wf(*self)
    ensures r.is_ok() && position < self.count ==> r->Ok_0.is_some() && r->Ok_0->0@ == stored(*self)[position as int]
//@ at start
proof { if position < self.count { assert(held(self.storage, position) is Some); assert(stored(*self)[position as int] == held(self.storage, position)->0); if position < self.cache@.len() && self.cache@[position as int].is_some() { assert(self.cache@[position as int]->0@ == held(self.storage, position)->0); } } }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::put_value
//@ ret r
//@ spec
    requires wf(*old(self)), position == old(self).count, position < capacity(old(self).height)
    ensures wf(*final(self)), final(self).height == old(self).height, final(self).count == old(self).count, stored(*final(self)) == stored(*old(self)),
        only_short(final(self).storage, old(self).storage), final(self).cache@.len() == old(self).cache@.len(),
        r.is_ok() ==> held(final(self).storage, position) == Some(value@) && final(self).cache@[position as int] is Some && final(self).cache@[position as int]->0@ == value@,
//@ at start
proof { lemma_p2(self.height as nat, 16); assert forall|i: u16| i < self.count implies pk(i) != pk(position) by { pk_inj(i, position); } assert(pk(position).len() == 2); }
let ghost o = *self;
//@ after put2
proof { assert forall|i: u16| i < self.count implies #[trigger] held(self.storage, i) == held(o.storage, i) by { pk_inj(i, position); } assert(stored(*self) =~= stored(o)); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::hash_node
//@ ret r
//@ spec
    requires wf(*self)
    ensures r.is_ok() ==> r->Ok_0 == th(stored(*self), capacity(self.height), position as int)
    decreases capacity(self.height) - position
//@ at start
proof { lemma_p2(self.height as nat, 16); }
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::hash_position
//@ ret r
//@ spec
    requires wf(*self)
    ensures r.is_ok() ==> r->Ok_0 == th(stored(*self), capacity(self.height), position as int)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::compute_root_hash
//@ ret r
//@ spec
    requires wf(*self)
    ensures r.is_ok() ==> r->Ok_0 == rooted(*self) && r->Ok_0 == th(stored(*self), capacity(self.height), 0)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::root_hash
//@ ret r
//@ spec
    requires wf(*self)
    ensures r.is_ok() ==> r->Ok_0 == rooted(*self)
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::get
//@ ret r
//@ spec
    requires wf(*self)
    ensures position >= self.count ==> r.is_ok() && r->Ok_0.is_none(),
        position < self.count && r.is_ok() ==> r->Ok_0.is_some() && r->Ok_0->0@ == stored(*self)[position as int]
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::reset
//@ spec
    requires wf(*old(self))
    ensures wf(*final(self)), final(self).height == old(self).height, stored(*final(self)) =~= Seq::empty(), final(self).storage == old(self).storage
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::insert
//@ ret r
//@ spec
    requires wf(*old(self))
    ensures wf(*final(self)), final(self).height == old(self).height, only_short(final(self).storage, old(self).storage),
        old(self).count == capacity(old(self).height) ==> r.is_err(),
        r.is_ok() ==> stored(*final(self)) =~= stored(*old(self)).push(value@) && r->Ok_0 == (rooted(*final(self)), old(self).count),
        r.is_err() ==> stored(*final(self)) =~= stored(*old(self))
//@ end
//@ fn grovedb-dense-fixed-sized-merkle-tree/src/tree.rs DenseFixedSizedMerkleTree::try_insert
//@ ret r
//@ spec
    requires wf(*old(self))
    ensures wf(*final(self)), final(self).height == old(self).height, only_short(final(self).storage, old(self).storage),
        r.is_ok() && r->Ok_0.is_none() <==> old(self).count == capacity(old(self).height),
        r.is_ok() && r->Ok_0.is_some() ==> stored(*final(self)) =~= stored(*old(self)).push(value@) && r->Ok_0->0 == (rooted(*final(self)), old(self).count),
        r.is_err() || r->Ok_0.is_none() ==> stored(*final(self)) =~= stored(*old(self))
//@ end
}
