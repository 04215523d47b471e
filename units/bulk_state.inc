pub struct CostResult<T> { pub value: T }
impl<T> CostResult<T> { pub fn unwrap(self) -> (r: T) ensures r == self.value { self.value } }
// the storage context, shared by the dense tree (two-byte keys) and the mountain range (four-byte keys)
pub type Store = cx::Ctx;
// ---- the dense tree: through the contracts in dn ----
pub struct DenseFixedSizedMerkleTree { pub d: dn::DenseTree }
pub type Dense = DenseFixedSizedMerkleTree;
pub open spec fn dr(h: u8, vals: Log) -> [u8; 32] { if vals.len() == 0 { zero32() } else { droot(h, vals) } }
pub open spec fn okd(d: Dense) -> bool { dn::wf(d.d) }
pub proof fn lemma_cap(h: u8) requires 1 <= h <= 16 ensures dn::capacity(h) == cs(h) - 1, 2 <= cs(h) <= 65536 { shl_pow(h); lemma_p2(h as nat); }
pub proof fn lemma_p2(n: nat) ensures dn::p2(n) == vstd::arithmetic::power2::pow2(n) decreases n
{ vstd::arithmetic::power2::lemma2_to64(); if n > 0 { lemma_p2((n - 1) as nat); vstd::arithmetic::power2::lemma_pow2_unfold(n); } }
#[verifier::external_body] pub fn dense_error(e: dn::DenseMerkleError) -> (r: OtherError) { unimplemented!() }
pub fn dense<T>(r: Result<T, dn::DenseMerkleError>) -> (x: Result<T, OtherError>) ensures match r { Ok(v) => x == Ok::<T, OtherError>(v), Err(_) => x is Err }
{ match r { Ok(v) => Ok(v), Err(e) => Err(dense_error(e)) } }
impl DenseFixedSizedMerkleTree {
    pub open spec fn vals(self) -> Log { dn::stored(self.d) }
    pub fn new(height: u8, storage: Store) -> (r: Result<Self, OtherError>) ensures r is Ok == (1 <= height <= 16), r is Ok ==> r.unwrap().d.height == height && okd(r.unwrap()) && r.unwrap().d.storage == storage && r.unwrap().vals() == Seq::<Seq<u8>>::empty()
    { match dense(dn::DenseTree::new(height, storage)) { Ok(d) => Ok(Self { d }), Err(e) => Err(e) } }
    // what the store already holds at the positions below count
    pub fn from_state(height: u8, count: u16, storage: Store) -> (r: Result<Self, OtherError>)
        ensures r is Ok == (1 <= height <= 16 && count < cs(height)), r is Ok ==> r.unwrap().d.height == height && r.unwrap().d.storage == storage && r.unwrap().vals() == dvals(storage, count) && r.unwrap().vals().len() == count && (dn::filled(storage, count) ==> okd(r.unwrap()))
    { proof { if 1 <= height <= 16 { lemma_cap(height); } } match dense(dn::DenseTree::from_state(height, count, storage)) { Ok(d) => Ok(Self { d }), Err(e) => Err(e) } }
    pub fn capacity(&self) -> (r: u16) requires okd(*self) ensures r == cs(self.d.height) - 1 { proof { lemma_cap(self.d.height); } self.d.capacity() }
    pub fn count(&self) -> (r: u16) ensures r == self.vals().len() { self.d.count() }
    pub fn height(&self) -> (r: u8) ensures r == self.d.height { self.d.height() }
    pub fn get(&self, position: u16) -> (r: CostResult<Result<Option<Vec<u8>>, OtherError>>)
        requires okd(*self)
        ensures r.value is Ok && position < self.vals().len() ==> r.value.unwrap() is Some && r.value.unwrap().unwrap()@ == self.vals()[position as int],
            r.value is Ok && position >= self.vals().len() ==> r.value.unwrap() is None { CostResult { value: dense(self.d.get(position)) } }
    pub fn root_hash(&self) -> (r: CostResult<Result<[u8; 32], OtherError>>) requires okd(*self) ensures r.value is Ok ==> r.value.unwrap() == dr(self.d.height, self.vals()) { CostResult { value: dense(self.d.root_hash()) } }
    pub fn try_insert(&mut self, value: &[u8]) -> (r: CostResult<Result<Option<([u8; 32], u16)>, OtherError>>)
        requires okd(*old(self))
        ensures okd(*final(self)), final(self).d.height == old(self).d.height, same_mmr(final(self).d.storage, old(self).d.storage),
            r.value is Ok && r.value.unwrap() is None <==> old(self).vals().len() == cs(old(self).d.height) - 1,
            r.value is Ok && r.value.unwrap() is Some ==> final(self).vals() == old(self).vals().push(value@) && r.value.unwrap().unwrap().0 == dr(final(self).d.height, final(self).vals()),
            r.value is Err || r.value.unwrap() is None ==> final(self).vals() == old(self).vals()
    { let ghost o = *self; proof { lemma_cap(self.d.height); } let r = CostResult { value: dense(self.d.try_insert(value)) }; proof { lemma_same_mmr(self.d.storage, o.d.storage); } r }
    pub fn reset(&mut self) requires okd(*old(self)) ensures okd(*final(self)), final(self).d.height == old(self).d.height, final(self).d.storage == old(self).d.storage, final(self).vals() == Seq::<Seq<u8>>::empty() { self.d.reset() }
}
pub open spec fn dvals(st: Store, count: u16) -> Log { dn::below(st, count) }
pub open spec fn only_short(a: Store, b: Store) -> bool { dn::only_short(a, b) }
// what the mountain range leaves alone: the entries under two-byte keys
pub open spec fn same_dense(a: Store, b: Store) -> bool {
    &&& forall|p: u16| #[trigger] dn::held(a, p) == dn::held(b, p)
    &&& forall|n: u16| #[trigger] dn::below(a, n) == dn::below(b, n)
    &&& forall|n: u16| #[trigger] dn::filled(a, n) == dn::filled(b, n)
}
pub proof fn lemma_same_dense(a: Store, b: Store) requires mm::rest(a@) == mm::rest(b@)
    ensures same_dense(a, b)
{
    assert forall|p: u16| #[trigger] dn::held(a, p) == dn::held(b, p) by { let k = dn::pk(p); assert(k.len() == 2); assert((mm::rest(a@))(k) == (mm::rest(b@))(k)); }
    assert forall|n: u16| #[trigger] dn::below(a, n) == dn::below(b, n) by { assert(dn::below(a, n) =~= dn::below(b, n)); }
    assert forall|n: u16| #[trigger] dn::filled(a, n) == dn::filled(b, n) by {
        if dn::filled(a, n) { assert forall|i: u16| i < n implies (#[trigger] dn::held(b, i)) is Some by { assert(dn::held(a, i) is Some); } }
        if dn::filled(b, n) { assert forall|i: u16| i < n implies (#[trigger] dn::held(a, i)) is Some by { assert(dn::held(b, i) is Some); } }
    }
}
// ---- the mountain range over a store and an overlay of nodes not yet written: through the contracts in mm ----
pub open spec fn nval(n: MmrNode) -> Option<Seq<u8>> { mm::nval(n) }
pub type Overlay = Vec<(u64, Vec<MmrNode>)>;
pub open spec fn nodes_of(st: Store) -> mm::Nodes { mm::MMRStoreReadOps::nodes(&mm::MmrStore { ctx: st, key_size: MmrKeySize::U32 }) }
// the leaves a mountain range of this size has, given the store and the overlay over it; None: not a complete range
pub open spec fn leaves(st: Store, ov: Seq<(u64, Vec<MmrNode>)>, size: u64) -> Option<Log> { mm::leaves_in(nodes_of(st), ov, size) }
pub proof fn leaves_empty(st: Store) ensures leaves(st, Seq::empty(), 0) == Some(Seq::<Seq<u8>>::empty()) { mm::nothing_yet(nodes_of(st)); }
pub open spec fn same_mmr(a: Store, b: Store) -> bool { forall|ov: Seq<(u64, Vec<MmrNode>)>, size: u64| #[trigger] leaves(a, ov, size) == leaves(b, ov, size) }
pub proof fn lemma_same_mmr(a: Store, b: Store) requires only_short(a, b) ensures same_mmr(a, b) { mm::same_nodes(a, b, MmrKeySize::U32); }
// trusted: the store is a shared reference to the context; here it holds the context, put back after a commit
#[verifier::external_body] pub fn shared(s: &Store) -> (r: Store) ensures r == *s { unimplemented!() }
#[verifier::external_body] pub fn shared_store(s: &mm::MmrStore) -> (r: mm::MmrStore) ensures r == *s { unimplemented!() }
pub struct MmrStore { pub s: mm::MmrStore }
impl MmrStore { pub fn with_key_size(s: &Store, k: MmrKeySize) -> (r: MmrStore) ensures r.s.ctx == *s, r.s.key_size == k { MmrStore { s: mm::MmrStore::with_key_size(shared(s), k) } } }
pub struct Batch { pub m: mm::MMR<mm::MmrStore> }
pub struct MMR { pub batch: Batch }
pub open spec fn bst(b: Batch) -> Store { b.m.batch.store.ctx }
pub open spec fn bov(b: Batch) -> mm::Ov { b.m.batch.memory_batch@ }
pub open spec fn bview(b: Batch) -> Option<Log> { if b.m.batch.store.key_size is U32 { leaves(bst(b), bov(b), b.m.mmr_size) } else { None } }
pub open spec fn view(m: MMR) -> Option<Log> { bview(m.batch) }
pub proof fn of_view(b: Batch) -> (l: Seq<MmrNode>) requires bview(b) is Some ensures b.m.of(l), mm::all_plain(l), bview(b) == Some(mm::vals(l)), l.len() == bview(b)->0.len(), mm::hs(l) == mm::lhs(mm::vals(l)), b.m.mmr_size < 0x8000_0000_0000_0000
{ let l = mm::leaves_from(nodes_of(bst(b)), bov(b), b.m.mmr_size); mm::of_made(&b.m, l); b.m.of_cap(l); l }
pub proof fn view_of(b: Batch, l: Seq<MmrNode>) requires b.m.of(l), mm::all_plain(l), b.m.batch.store.key_size is U32 ensures bview(b) == Some(mm::vals(l))
{ mm::of_made(&b.m, l); mm::leaves_are(nodes_of(bst(b)), bov(b), b.m.mmr_size, l); }
#[verifier::external_body] pub fn other_error(e: mm::Error) -> (r: OtherError) { unimplemented!() }
pub fn costed<T>(r: mm::Result<T>) -> (x: CostResult<Result<T, OtherError>>) ensures match r { Ok(v) => x.value == Ok::<T, OtherError>(v), Err(_) => x.value is Err }
{ match r { Ok(v) => CostResult { value: Ok(v) }, Err(e) => CostResult { value: Err(other_error(e)) } } }
impl Batch {
    pub fn take_overlay(self) -> (r: Overlay) ensures r@ == bov(self) { let mut m = self.m; m.batch.take_overlay() }
    pub fn element_at_position(&self, pos: u64) -> (r: CostResult<Result<Option<MmrNode>, OtherError>>)
        requires bview(*self) is Some, pos < 0x8000_0000_0000_0000
        ensures forall|i: int| 0 <= i < bview(*self)->0.len() && #[trigger] mm::msize(i as nat) == pos && r.value is Ok
            ==> r.value.unwrap() is Some && nval(r.value.unwrap().unwrap()) == Some(bview(*self)->0[i])
    {
        let ghost l = of_view(*self);
        let r = self.m.batch.element_at_position(pos);
        proof { assert forall|i: int| 0 <= i < l.len() && #[trigger] mm::msize(i as nat) == pos && r is Ok implies r->Ok_0 is Some && nval(r->Ok_0->0) == Some(mm::vals(l)[i]) by { let j = i as nat; assert(mm::same_leaf(self.m.batch.seen(mm::msize(j)), l[j as int])); assert(mm::plain(l[i])); } }
        costed(r)
    }
}
impl MMR {
    pub fn new_with_overlay(size: u64, st: &MmrStore, overlay: Overlay) -> (r: MMR) ensures bst(r.batch) == st.s.ctx, r.batch.m.batch.store.key_size == st.s.key_size, bov(r.batch) == overlay@, r.batch.m.mmr_size == size
    { MMR { batch: Batch { m: mm::MMR::new_with_overlay(size, shared_store(&st.s), overlay) } } }
    // a push that fails adds nothing; the nodes of one that succeeds come after what the overlay held
    pub fn push(&mut self, leaf: MmrNode) -> (r: CostResult<Result<u64, OtherError>>)
        requires view(*old(self)) is Some, mm::plain(leaf), view(*old(self))->0.len() < 0x4000_0000_0000_0000
        ensures final(self).batch.m.batch.store == old(self).batch.m.batch.store,
            r.value is Err ==> *final(self) == *old(self),
            r.value is Ok ==> view(*final(self)) == Some(view(*old(self))->0.push(nval(leaf)->0)) && final(self).batch.m.mmr_size == msize(view(*old(self))->0.len() as int + 1)
                && bov(old(self).batch).len() <= bov(final(self).batch).len() && bov(final(self).batch).take(bov(old(self).batch).len() as int) == bov(old(self).batch)
    {
        let ghost l = of_view(self.batch); let ghost o = *self;
        let r = self.batch.m.push(leaf);
        proof {
            if r is Ok {
                let l2 = l.push(leaf); assert forall|i: int| 0 <= i < l2.len() implies mm::plain(#[trigger] l2[i]) by { if i < l.len() { assert(mm::plain(l[i])); } } view_of(self.batch, l2); assert(mm::vals(l2) =~= mm::vals(l).push(nval(leaf)->0)); mm::lemma_cap(l2.len());
                let f = bov(self.batch); assert(f.drop_last() =~= f.take(f.len() - 1));
            }
        }
        costed(r)
    }
    pub fn get_root(&self) -> (r: CostResult<Result<MmrNode, OtherError>>)
        requires view(*self) is Some ensures r.value is Ok ==> r.value.unwrap().hash == mroot(view(*self)->0)
    { proof { of_view(self.batch); } costed(self.batch.m.get_root()) }
    // writes the overlay to the store (passed here so that the change is visible); a failure keeps what is not written
    pub fn commit(&mut self, st: &mut Store) -> (r: CostResult<Result<(), OtherError>>)
        requires *old(st) == bst(old(self).batch), view(*old(self)) is Some
        ensures r.value is Ok ==> leaves(*final(st), Seq::empty(), old(self).batch.m.mmr_size) == view(*old(self)), r.value is Err ==> leaves(*final(st), bov(final(self).batch), old(self).batch.m.mmr_size) == view(*old(self)),
            same_dense(*final(st), *old(st))
    {
        let ghost l = of_view(self.batch);
        let r = self.batch.m.commit();
        *st = shared(&self.batch.m.batch.store.ctx);
        proof { view_of(self.batch, l); if r is Ok { assert(bov(self.batch) =~= Seq::empty()); } lemma_same_dense(*st, *old(st)); }
        costed(r)
    }
}
pub fn leaf_to_pos(i: u64) -> (r: u64) requires i <= 0x7fff_ffff_ffff_ffff ensures r as nat == mm::msize(i as nat) { mm::leaf_index_to_pos(i) }
pub fn mmr_size_to_leaf_count(s: u64) -> (r: u64) ensures forall|n: nat| #[trigger] mm::msize(n) == s ==> r == n
{ proof { assert forall|n: nat| #[trigger] mm::msize(n) == s implies mm::isnode(s as nat, n, 0) by { assert(mm::isnode(mm::msize(n), n, 0)); } } mm::mmr_size_to_leaf_count(s) }
pub fn hash_count_for_push(n: u64) -> (r: u32) requires n < 0x4000_0000_0000_0000 ensures r <= 65 { proof { mm::room(n as nat); } mm::hash_count_for_push(n) }
#[verifier::external_body] pub fn take_ov(o: &mut Overlay) -> (r: Overlay) ensures r == *old(o), final(o)@ == Seq::<(u64, Vec<MmrNode>)>::empty() { unimplemented!() }
#[verifier::external_body] pub fn clone_ov(o: &Overlay) -> (r: Overlay) ensures r@ == o@ { unimplemented!() }
#[verifier::external_body] pub fn to_vec(v: &[u8]) -> (r: Vec<u8>) ensures r@ == v@ { v.to_vec() }
// ---- the chunk codec: through the contract in bb ----
pub fn serialize_chunk_blob(entries: &Vec<Vec<u8>>) -> (r: Result<Vec<u8>, BulkAppendError>)
    requires entries@.len() > 0 ==> 9 + entries@.len() * entries@[0]@.len() <= usize::MAX ensures fits(vs(entries@)) ==> r is Ok, r is Ok ==> r.unwrap()@ == blob(vs(entries@))
{ proof { assert(bb::vs(entries@) =~= vs(entries@)); } match bb::serialize_chunk_blob(entries.as_slice()) { Ok(b) => Ok(b), Err(_) => Err(err()) } }
//@ rules
BulkAppendError::$v($x..) ==> err()
.map_err(|e| { $x.. }) ==> .map_err(|e: OtherError| -> (x: BulkAppendError) { err() })
.map_err(|e| BulkAppendError::$v($x..)) ==> .map_err(|e: OtherError| -> (x: BulkAppendError) { err() })
.map_err(|e| err()) ==> .map_err(|e: OtherError| -> (x: BulkAppendError) { err() })
.ok_or_else(|| { $x.. }) ==> .ok_or(err())
grovedb_dense_fixed_sized_merkle_tree::DenseFixedSizedMerkleTree ==> DenseFixedSizedMerkleTree
DenseFixedSizedMerkleTree<S> ==> DenseFixedSizedMerkleTree
BulkAppendTree<S> ==> BulkAppendTree
std::mem::take(&mut self.mmr_overlay) ==> take_ov(&mut self.mmr_overlay)
self.mmr_overlay.clone() ==> clone_ov(&self.mmr_overlay)
new_value.to_vec() ==> to_vec(new_value)
self.dense_tree.storage ==> self.dense_tree.d.storage
mmr.commit() ==> mmr.commit(&mut self.dense_tree.d.storage)
self.mmr_overlay.is_empty() ==> self.mmr_overlay.len() == 0
!(1..=16).contains(&height) ==> !(1 <= height && height <= 16)
[0u8; 32] ==> zeros()
for i in 0..count { $b.. } ==> let mut i: u16 = 0; while i < count { $b i += 1; }
//@ end
//@ type grovedb-bulk-append-tree/src/tree/mod.rs AppendResult
//@ type grovedb-bulk-append-tree/src/tree/mod.rs BulkAppendTree
// the tree holds exactly this log
pub open spec fn holds(t: BulkAppendTree, log: Log) -> bool {
    &&& okd(t.dense_tree) && t.total_count == log.len() && t.dense_tree.vals() == buffer(log, t.dense_tree.d.height)
    &&& leaves(t.dense_tree.d.storage, t.mmr_overlay@, msize(chunks(log, t.dense_tree.d.height).len() as int)) == Some(chunks(log, t.dense_tree.d.height))
}
